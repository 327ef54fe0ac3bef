"""C27: dashboard actions do exactly what was asked, and are recorded."""
import json
import re
import urllib.parse
from datetime import datetime, timedelta, timezone
from html.parser import HTMLParser

from rv import asgi, fns
from rv.props.c26 import FORM, Browser, form
from rv.world import run_world, us

RULE = ("a case performs a random sequence of dashboard actions - links and forms taken from the rendered pages, as a browser would, bulk and create requests as the page sends them - on a scheduler and the corresponding calls "
        "directly on a twin in the same virtual time, and compares all tasks, all events and the new audit records after every request; a second part puts markup into every text field and parses every page; "
        "non-trivial when at least 3 requests were compared; distinct by the requests")
REQUIRE = {"requests": 6000, "compared": 10000, "single": 1200, "bulk": 800, "create": 500, "create_bad": 200, "edit_preview": 200, "edit_apply": 400, "edit_bad": 150, "edit_none": 60, "unknown": 400, "duplicate": 250,
           "hostile_ids": 900, "rows": 3000, "audit": 2500, "audit:failed": 500, "audit:warning": 15, "audit:succeeded": 1200, "remote": 60, "paged": 60, "pages": 3000, "marked_pages": 1200, "special_args": 60, "links": 800}
ASSUMPTIONS = ["ids are distinct across stores, printable, without surrounding white space and are not named as a page (create)", "names have no surrounding white space or line breaks", "arguments are given as JSON arrays and objects, as the form says",
               "grace times are finite", "the order of events of different tasks is not compared"]
IDS = ["a", "b", "c3", "a/b", "a?b=c", "a#b", "..", ".", "a/../b", "//evil/x", "b/run?x", "a%2Fb", "100%", "a b", "ü", "日本", "a&b", "a;b", 'q"q', "q'q", "<b>", "a\\b", "hx", "partials", "hx/bulk/run", "a/edit", "[1]", "a,b", "%2e%2e", "null", "http:x", "javascript:x", "a+b", "a:b", "/a"]
NAMES = ["alpha", "Beta", "x y", "ü", "a&b", "100%", "n/m", '"q"', "<i>", "&lt;", "'", "a\\n"]
VALUES = [None, 1, -3, 0, 2.5, True, False, "", "x", "ü/%&?#", [], [1, [2, None]], {}, {"k": "v", "n": {"m": [1]}}, 10**18, "</textarea>", "<b>", "\r\n", "\n", "&amp;", 1e-9, "  s "]
SPECIAL = [(1, 2), datetime(2024, 1, 2, 3, tzinfo=timezone.utc), b"x", {1: 2, "a": 3}, {"s"}, timedelta(seconds=3), {(1, 2): 3}, 2 + 3j, float("inf")]


class Page(HTMLParser):
    """What a browser gets from a page."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.row, self.tags, self.attrs_seen, self.rows, self.links, self.fields, self.forms, self.text = None, set(), [], [], [], {}, [], []
        self.area = self.select = self.script = None
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        self.tags.add(tag)
        self.attrs_seen += [(tag, k, v) for k, v in attrs]
        if tag == "input" and a.get("name") == "row":
            self.row = {"id": a.get("value"), "posts": {}, "links": {}}
            self.rows.append(self.row)
        if tag == "form":
            self.forms.append(a)
            if self.row and "hx-post" in a:
                self.row["posts"][a["hx-post"].partition("?")[0].rsplit("/", 1)[-1]] = a["hx-post"]
        if tag == "a" and "href" in a:
            self.links.append(a["href"])
            if self.row and a.get("title"):
                self.row["links"][a["title"]] = a["href"]
        if tag == "input" and a.get("name"):
            if a.get("type") != "checkbox":
                self.fields[a["name"]] = (a.get("value") or "").replace("\n", "").replace("\r", "")
            elif "checked" in a:
                self.fields[a["name"]] = a.get("value", "on")
        if tag == "textarea":
            self.area, self.fields[a.get("name")] = a.get("name"), ""
        if tag == "select":
            self.select = a.get("name")
        if tag == "option" and self.select and ("selected" in a or self.select not in self.fields):
            self.fields[self.select] = a.get("value")
        if tag == "script":
            self.script = a

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)

    def handle_endtag(self, tag):
        if tag == "textarea":
            # a browser drops the first line break and sends line breaks in its own way
            v = self.fields[self.area].replace("\r\n", "\n").replace("\r", "\n")
            self.fields[self.area], self.area = (v[1:] if v.startswith("\n") else v).replace("\n", "\r\n"), None
        if tag == "tr":
            self.row = None
        if tag == "select":
            self.select = None
        if tag == "script":
            self.script = None

    def handle_data(self, data):
        if self.area is not None:
            self.fields[self.area] += data
        self.text.append(data)


def follow(base, link):
    """The request line a browser sends for a link on the page base, or None when it leaves the site."""
    link = re.sub("[\t\n\r]", "", link.strip()).replace("\\", "/")
    u = urllib.parse.urlsplit(urllib.parse.urljoin("http://testserver" + base, link))
    if (u.scheme, u.netloc) != ("http", "testserver"):
        return None
    out = []
    parts = u.path.split("/")[1:]
    for n, p in enumerate(parts):
        plain = re.sub("%2e", ".", p, flags=re.I)
        if plain == "..":
            out = out[:-1]
        if plain in (".", ".."):
            if n == len(parts) - 1:
                out.append("")
        else:
            out.append(p)
    path = urllib.parse.quote("/" + "/".join(out), safe="/%:@!$&'()*+,;=~-._")
    return path + ("?" + urllib.parse.quote(u.query, safe="%&=+/:?@!$'()*,;~-._") if u.query else "")


def encode(data):
    """A form as it is sent.  The web framework decodes urlencoded fields twice, which is not judged here."""
    if not any("+" in str(v) or "%" in str(v) for v in data.values()):
        return [FORM], form(**data)
    body = "".join(f'--B0B\r\nContent-Disposition: form-data; name="{k}"\r\n\r\n{v}\r\n' for k, v in data.items()).encode() + b"--B0B--\r\n"
    return [("content-type", "multipart/form-data; boundary=B0B")], body


def plain(info):
    d = info.model_dump()
    d["next_run_time"] = us(info.next_run_time) if info.next_run_time else None
    d["schedule_state"] = info.schedule_state.value
    return d


def full(s, i):
    t, _ = s.lookup_task(i, None)
    # typed: 1, 1.0 and True are different values
    return repr((t.id, t.name, t.fn_reference, list(t.args), sorted(t.kwargs.items()), t.executor, t.coalesce, t.max_instances, t.mistrigger_grace_time and float(t.mistrigger_grace_time)))


class Twin:
    """The same tasks in a scheduler behind a dashboard and in one called directly."""

    def __init__(self, w, case, r):
        self.w, self.case, self.r, self.sim = w, case, r, w.sim
        self.log = []

    async def build(self):
        from lilya.apps import Lilya
        from asyncz.contrib.dashboard.admin import AsynczAdmin
        from asyncz.contrib.dashboard.audit import get_audit_storage
        from asyncz.contrib.dashboard.remote import RemoteSchedulerClient, create_remote_scheduler_app
        from asyncz.executors.asyncio import AsyncIOExecutor
        from asyncz.executors.debug import DebugExecutor

        w, r, sim = self.w, self.r, self.sim
        asgi.inline_threads()
        self.kinds = {"default": r.choice(["memory", "memory", "sqlite"]), **({"b2": r.choice(["memory", "sqlite"])} if r.random() < 0.4 else {})}
        pair = []
        for n in range(2):
            s = w.scheduler(native=False, stores={a: w.backend(f"{a}-{n}", k).store() for a, k in self.kinds.items()}, executors={"default": AsyncIOExecutor(), "x": DebugExecutor()}, timezone=w.tz)
            ev = []
            s.add_listener(lambda e, ev=ev: ev.append((e.code, getattr(e, "task_id", None), getattr(e, "store", None), [us(t) for t in getattr(e, "scheduled_run_times", [])], str(getattr(e, "scheduled_run_time", "")),
                                                       re.sub("0x[0-9a-f]+", "", repr(getattr(e, "return_value", None))), repr(getattr(e, "exception", None)))))
            pair.append((s, ev))
        (self.far, self.far_ev), (self.near, self.near_ev) = pair
        self.remote = r.random() < 0.25
        shown = self.far
        if self.remote:
            app = create_remote_scheduler_app(self.far, token=None)

            def transport(method, path, payload, headers, query):
                x = asgi.call(app, method, path + ("?" + urllib.parse.urlencode(query) if query else ""), list(headers.items()), b"" if payload is None else json.dumps(payload).encode())
                return x.status, x.json()
            shown = RemoteSchedulerClient(transport=transport)
            self.case.count("remote")
        host = Lilya()
        AsynczAdmin(enable_login=False, scheduler=shown).include_in(host)
        self.b = Browser(host, 0)
        self.audit = get_audit_storage()
        self.seen = {a.event_id for a in self.audit.query(limit=10**6)}
        self.started = False

    async def start(self):
        self.started = True
        await self.w.start(self.near)
        await self.w.start(self.far)

    async def stop(self):
        if self.started:
            self.near.pause(), self.far.pause()
        await self.sim.settle()
        for s in (self.near, self.far):
            if self.started:
                await self.w.stop(s)

    def same(self, what):
        case = self.case
        ids = sorted(i.id for i in self.near.get_task_infos())
        a, b = (sorted((plain(i) for i in s.get_task_infos()), key=str) for s in (self.near, self.far))
        case.eq(b, a, f"tasks after {what}, compared with the twin")
        case.eq([full(self.far, i) for i in ids], [full(self.near, i) for i in ids], f"contents of the tasks after {what}")
        case.eq(sorted(self.far_ev, key=str), sorted(self.near_ev, key=str), f"events after {what}, compared with the twin")
        case.count("compared", len(a))

    def audited(self, what, expected):
        new = [a for a in self.audit.query(limit=10**6) if a.event_id not in self.seen][::-1]
        self.seen |= {a.event_id for a in new}
        self.case.eq([(a.action, a.status, a.target_id) for a in new], expected, f"audit records of {what}")
        self.case.count("audit", len(new))
        for a in new:
            self.case.count("audit:" + a.status)
            self.case.check(a.message, f"audit record of {what} without a message")
        return new

    async def request(self, method, target, data=None, ok=(200,)):
        what = f"{method} {target} {data if data is not None else ''}"
        self.log.append(what[:250])
        x = await self.b(method, target, *(encode(data) if data is not None else ([], b"")))
        await self.sim.settle()
        self.case.count("requests")
        self.case.count("pages")
        while x.status in (302, 303, 307) and method == "GET":
            target = follow(target, x.header("location"))
            x = await self.b("GET", target)
        self.case.check(x.status in ok, f"{what}: {x.status} {x.text[:200] if x.status >= 500 else ''} {getattr(x, 'error', '')!r}")
        return x, what


def actions(case):
    r = case.rng

    async def main(w):
        from asyncz.exceptions import MaximumInstancesError, TaskLookupError

        t = Twin(w, case, r)
        await t.build()
        near, far, sim = t.near, t.far, t.sim
        case.describe(kinds=t.kinds, remote=t.remote, zone=str(w.tz), ops=t.log)
        pool = r.sample(IDS, r.randint(3, 9))
        slow, boom = r.choice([[], pool[:1], pool[:2], pool[:2]]), pool[2:3] if r.random() < 0.4 else []
        sim.plan = lambda key, n: {"raise_": ValueError("<boom>")} if key in boom else {"ret": None, **({"dur": 500} if key in slow else {})}

        def both(i):
            trig, targs = r.choice([("interval", {"seconds": 30}), ("interval", {"hours": 2}), ("cron", {"minute": "*/5"}), ("date", {"run_at": sim.now() + timedelta(seconds=500)}), ("date", {"run_at": sim.now() + timedelta(hours=5)})])
            extra = [r.choice(VALUES) for _ in range(r.randint(0, 2))]
            if not t.remote and "sqlite" not in t.kinds.values() and r.random() < 0.3:
                extra.append(r.choice(SPECIAL))
                case.count("special_args")
            kw = dict(args=[i, *extra], kwargs=r.choice([{}, {"x": r.choice(VALUES)}]), id=i, store=r.choice(list(t.kinds)), name=r.choice([*NAMES, None]), executor=r.choice(["default", "default", "x"] if i not in slow else ["default"]),
                      mistrigger_grace_time=r.choice([None, 5, 2.5]), coalesce=r.random() < 0.5, max_instances=r.choice([1, 1, 2]))
            fn = fns.awork if i in slow else r.choice([fns.work, "rv.fns:work", fns.awork])
            for s in (near, far):
                s.add_task(fn, trig, **kw, **targs)
                if kw["max_instances"] == 1 and i == pool[-1]:
                    s.pause_task(i)

        if r.random() < 0.8:
            await t.start()
        for i in pool[:r.randint(2, len(pool))]:
            both(i)
        t.same("setting up")
        base = "/dashboard/tasks/"

        def direct(op, i):
            """The call on the twin and the audit record it stands for."""
            f = {"run": lambda: near.run_task(i, remove_finished=False), "pause": lambda: near.pause_task(i), "resume": lambda: near.resume_task(i), "remove": lambda: near.delete_task(i)}[op]
            try:
                f()
            except MaximumInstancesError:
                return ("task." + op, "warning", i)
            except Exception as exc:
                case.count("unknown", isinstance(exc, TaskLookupError))
                return ("task." + op, "failed", i)
            return ("task." + op, "succeeded", i)

        async def table(target=base):
            x, what = await t.request("GET", target)
            return Page(x.text), what

        def rows_ok(page, what, flt=None):
            flt = flt or {}
            infos = near.get_task_infos(**{k: v for k, v in flt.items() if k not in ("page", "per_page")})
            want = [i.id for i in infos]
            if flt.get("sort_by") not in (None, "id"):
                # entries with equal keys have no defined order between two schedulers
                case.eq(sorted(x["id"] for x in page.rows), sorted(want), f"tasks shown by {what}")
            else:
                case.eq(sorted(x["id"] for x in page.rows), sorted(want), f"tasks shown by {what}")
            case.count("rows", len(want))

        async def single():
            page, what = await table()
            rows_ok(page, what)
            if not page.rows:
                return
            row = r.choice(page.rows)
            i = row["id"]
            state = near.get_task_info(i).schedule_state.value
            case.eq(sorted(row["posts"]), sorted(["run", "remove", "pause" if state == "scheduled" else "resume"]), f"actions offered for {i!r}, {state}")
            op = r.choice([k for k in sorted(row["posts"]) if k != "remove" or r.random() < 0.5] or ["run"])
            target = follow(base, row["posts"][op])
            case.check(target is not None and target.startswith("/dashboard/"), f"the {op} link of {i!r} leads to {row['posts'][op]!r}: {target}")
            if r.random() < 0.15:
                # the page is outdated by the time it is used
                for s in (near, far):
                    s.delete_task(i)
            want = direct(op, i)
            x, what = await t.request("POST", target, {})
            t.same(what)
            t.audited(what, [want])
            rows_ok(Page(x.text), what)
            case.count("single")
            case.count("hostile_ids", i not in ("a", "b", "c3"))

        async def bulk():
            op = r.choice(["run", "pause", "resume", "remove"] if r.random() < 0.5 else ["run", "pause", "resume"])
            ids = [r.choice(pool) if r.random() < 0.8 else r.choice(["missing", "mis/sing", "*"]) for _ in range(r.randint(0, 6))]
            case.count("duplicate", len(set(ids)) != len(ids))
            form_of = r.choice(["json", "json", "json", "json+", "comma"])
            if form_of == "comma":
                ids = [i for i in ids if i and not set(i) & set(",[")]
                data = ",".join(ids)
            else:
                data = json.dumps([*ids, *([None, 3, ["a"], {}] if form_of == "json+" else [])], ensure_ascii=r.random() < 0.5)
            ids = list(dict.fromkeys(ids))
            want = [direct(op, i) for i in ids]
            x, what = await t.request("POST", f"/dashboard/tasks/hx/bulk/{op}" + r.choice(["", "?q=zz"]), {"ids": data} if ids or r.random() < 0.7 else {})
            t.same(what)
            t.audited(what, want)
            case.count("bulk")

        async def create():
            bad = r.random() < 0.35
            case.count("create_bad", bad)
            fn = r.choice(["rv.fns:work", "rv.fns:awork", "rv.fns:work2"])
            targs = None
            n = r.choice([7, 30, 90])
            local = datetime(sim.now().year + 2, 1, 1, 10)
            tt, tv, targs = r.choice([("interval", f"{n}s", {"seconds": n}), ("interval", f"{n}m", {"minutes": n}), ("interval", "3h", {"hours": 3}), ("interval", str(n), {"seconds": n}), ("interval", "", {"seconds": 10}), ("interval", f" {n}s ", {"seconds": n}),
                                      ("cron", "*/5 * * * *", {"minute": "*/5", "hour": "*", "day": "*", "month": "*", "day_of_week": "*"}), ("cron", "3 4 * * mon-fri", {"minute": "3", "hour": "4", "day": "*", "month": "*", "day_of_week": "mon-fri"}),
                                      ("date", (sim.now() + timedelta(seconds=300)).isoformat(), {"run_at": sim.now() + timedelta(seconds=300)}), ("date", local.isoformat(), {"run_at": local}), ("date", local.date().isoformat(), {"run_at": local.replace(hour=0)})])
            key = r.choice(pool)
            args, kwargs = [key, *[r.choice(VALUES) for _ in range(r.randint(0, 2))]], r.choice([{}, {"x": r.choice(VALUES)}])
            data = dict(callable_path=fn, name=r.choice(["", *NAMES]), store=r.choice(["", *t.kinds]), trigger_type=tt, trigger_value=tv, args=json.dumps(args), kwargs=json.dumps(kwargs) if kwargs else "")
            store = data["store"] or "default"
            if bad:
                f = r.choice(["callable_path", "trigger_type", "trigger_value", "args", "kwargs", "store"] if t.started else ["callable_path", "trigger_type", "trigger_value", "args", "kwargs"])
                if f == "trigger_value":
                    data["trigger_type"] = r.choice(["interval", "cron", "date"])
                data[f] = {"callable_path": ["", "rv.fns:nothing", "nonsense", "no.module:f", "rv.fns:SINK", "rv.fns:", ":", "<b>"], "trigger_type": ["nonsense", "or"], "trigger_value": ["x", "* * * *", "1h30", "s", "99 99 * * *", "2024-13-01"], "args": ["[", "[1,]", "nope"],
                           "kwargs": ["{", "{a:1}", "nope", "[1]", '{"nonsense": 1, "key": 2}'], "store": ["nowhere", "a/b"]}[f]
                data[f] = r.choice(data[f])
            before = {i.id for i in far.get_task_infos()}
            x, what = await t.request("POST", "/dashboard/tasks/create", data)
            new = {i.id for i in far.get_task_infos()} - before
            if bad:
                case.eq(new, set(), f"tasks added by {what}")
                t.audited(what, [("task.create", "failed", data["callable_path"].strip() or None)])
            else:
                case.check(len(new) == 1, f"{what}: added {new} {x.text[:300]}")
                (i,) = new
                near.add_task(fn, tt, args=args, kwargs=kwargs, id=i, name=data["name"] or None, store=store, **targs)
                t.audited(what, [("task.create", "succeeded", i)])
                pool.append(i)
            await sim.settle()
            t.same(what)
            rows_ok(Page(x.text), what)
            case.count("create")

        async def edit():
            page, what = await table()
            if not page.rows:
                return
            row = r.choice(page.rows)
            i = row["id"]
            for title in ("Details", "Logs"):
                target = follow(base, row["links"][title])
                case.check(target is not None, f"the {title} link of {i!r} leads to {row['links'][title]!r}")
                x, what = await t.request("GET", target)
                case.check(i in "".join(Page(x.text).text) or title == "Logs", f"{what} of {i!r} shows another task")
                case.count("links")
            p1 = Page((await t.request("GET", follow(base, row["links"]["Details"])))[0].text)
            back = [u for u in p1.links if "task_id=" in u]
            for u in back:
                case.eq(urllib.parse.parse_qs(urllib.parse.urlsplit(u).query)["task_id"], [i], f"link {u!r} on the page of {i!r}")
            target = follow(base, row["links"]["Edit"])
            x, what = await t.request("GET", target)
            page = Page(x.text)
            posts = [f["action"] for f in page.forms if f.get("method") == "post" and "action" in f]
            case.check(len(posts) == 1, f"{what} of {i!r}: forms {page.forms}")
            dest = follow(target, posts[0])
            case.check(dest is not None and dest.startswith("/dashboard/"), f"the edit form of {i!r} leads to {posts[0]!r}")
            fields = {k: page.fields.get(k) for k in ("name", "executor", "callable_path", "coalesce", "max_instances", "mistrigger_grace_time", "clear_mistrigger_grace_time", "args", "kwargs") if page.fields.get(k) is not None}
            changed, bad = {}, False
            task = near.lookup_task(i, None)[0]
            for k in r.sample(["name", "executor", "callable_path", "coalesce", "max_instances", "grace", "args", "kwargs"], r.choice([0, 1, 1, 1, 2, 3])):
                if r.random() < 0.12:
                    if k == "grace":
                        fields.pop("clear_mistrigger_grace_time", None)
                    opts = {"name": [""] if task.name else [], "executor": [""], "callable_path": ["", "rv.fns:nothing", "nonsense", "rv.fns:SINK"], "coalesce": ["", "maybe"], "max_instances": ["", "0", "-1", "x", "1.5"], "grace": ["0", "-1", "x"], "args": ["{}", "[", "3", '"x"', "null"], "kwargs": ["[]", "{", "3", "null"]}[k]
                    if opts:
                        fields["mistrigger_grace_time" if k == "grace" else k] = r.choice(opts)
                        bad = True
                    continue
                if k == "name":
                    changed["name"] = fields[k] = r.choice(NAMES)
                elif k == "executor":
                    changed[k] = fields[k] = r.choice(["default", "x"])
                elif k == "callable_path":
                    changed["fn"] = fields[k] = r.choice(["rv.fns:work2", "rv.fns:work", "rv.fns:awork2"])
                elif k == "coalesce":
                    changed[k] = r.random() < 0.5
                    fields[k] = "true" if changed[k] else "false"
                elif k == "max_instances":
                    changed[k] = r.choice([1, 2, 5])
                    fields[k] = str(changed[k])
                elif k == "grace":
                    g = changed["mistrigger_grace_time"] = r.choice([None, 4, 2.5, 60])
                    fields.pop("clear_mistrigger_grace_time", None)
                    fields["mistrigger_grace_time"] = "" if g is None else str(g)
                    if g is None and r.random() < 0.5:
                        fields.update(clear_mistrigger_grace_time="1", mistrigger_grace_time="9")
                elif k == "args":
                    old = list(task.args)
                    changed[k] = r.choice([[i, r.choice(VALUES)], [i], [i, *[{True: 1, 1: True, 0: False}.get(v, v) if isinstance(v, (bool, int)) else v for v in old[1:]]]])
                    try:
                        fields[k] = json.dumps(changed[k])
                        changed[k] = json.loads(fields[k])
                    except TypeError:
                        changed[k] = [i]
                        fields[k] = json.dumps([i])
                elif k == "kwargs":
                    changed[k] = r.choice([{}, {"x": r.choice(VALUES)}, {"y": r.choice(VALUES), "x": 2}])
                    fields[k] = json.dumps(changed[k])
            if r.random() < 0.08:
                for s in (near, far):
                    s.delete_task(i)
                fields["intent"] = r.choice(["preview", "apply"])
                x, what = await t.request("POST", dest, fields, ok=(404,))
                t.same(what)
                t.audited(what, [("task.update", "failed", i)])
                return
            if bad:
                # a remote client previews callables without knowing them
                fields["intent"] = r.choice(["preview", "apply"]) if not t.remote else "apply"
                x, what = await t.request("POST", dest, fields, ok=(400,))
                t.same(what)
                t.audited(what, [("task.update", "failed", i)])
                case.count("edit_bad")
                return
            before = full(near, i)
            if r.random() < 0.4:
                x, what = await t.request("POST", dest, {**fields, "intent": "preview"})
                t.same(what)
                t.audited(what, [])
                case.count("edit_preview")
                p2 = Page(x.text)
                for k in fields:
                    case.eq(p2.fields.get(k), fields[k], f"field {k} of the form after a preview by {what}")
            # what the call does, without the event when nothing differs
            cur = {"name": task.name, "executor": task.executor, "fn": task.fn_reference, "coalesce": task.coalesce, "max_instances": task.max_instances, "mistrigger_grace_time": task.mistrigger_grace_time, "args": list(task.args), "kwargs": dict(task.kwargs)}
            diff = [k for k in changed if (repr(changed[k]) != repr(cur[k]) if k in ("args", "kwargs") else changed[k] != cur[k])]
            x, what = await t.request("POST", dest, {**fields, "intent": "apply"})
            if diff:
                near.update_task(i, None, **changed)
                await sim.settle()
                case.check(full(near, i) != before, f"nothing changed by {changed}")
            t.same(what)
            new = t.audited(what, [("task.update", "succeeded", i)] if diff else [])
            if diff:
                case.eq(len(new[0].details.get("diff", {})), len(diff), f"fields recorded in the audit trail for {what}: {new[0].details}")
            case.count("edit_apply" if diff else "edit_none")
            case.count("hostile_ids", i not in ("a", "b", "c3"))

        async def paged():
            per = r.choice([1, 2, 3])
            page, what = await table(f"{base}?per_page={per}&sort=id")
            got, target = [x["id"] for x in page.rows], None
            for _ in range(50):
                nxt = [u for u in page.links if "page=" in u]
                m = re.search(r"Page (\d+) of (\d+)", "".join(page.text))
                if not m or m[1] == m[2]:
                    break
                page, what = await table(follow(base, nxt[-1]))
                got += [x["id"] for x in page.rows]
            case.eq(got, [i.id for i in near.get_task_infos(sort_by="id")], f"tasks on all pages of {per}")
            case.count("paged")
            q = r.choice(["a", "work", "/", "%", "ü", "interval"])
            state = r.choice(["", "scheduled", "paused", "pending"])
            page, what = await table(base + "?" + urllib.parse.urlencode({"q": q, "state": state}))
            rows_ok(page, what, {"q": q, **({"schedule_state": state} if state else {})})
            if page.rows:
                # an action keeps the filter
                row = r.choice(page.rows)
                want = direct("run", row["id"])
                x, what = await t.request("POST", follow(base, row["posts"]["run"]), {})
                t.same(what)
                t.audited(what, [want])
                rows_ok(Page(x.text), what, {"q": q, **({"schedule_state": state} if state else {})})

        for _ in range(r.randint(4, 14)):
            k = r.random()
            if k < 0.25:
                await single()
            elif k < 0.45:
                await bulk()
            elif k < 0.6:
                await create()
            elif k < 0.85:
                await edit()
            elif k < 0.9:
                await paged()
            else:
                if not t.started and r.random() < 0.5:
                    await t.start()
                await sim.sleep_until(sim.us + r.choice([1, 10, 35, 400]) * 1_000_000)
                await sim.settle()
                t.same("waiting")
        case.trivial = len(t.log) < 3
        await t.stop()

    return run_world(case, main)


# what a text field may hold to break out of where it is shown
MARKUP = ["<zqx>", '"><zqx>', "'><zqx>", '" zqx="1', "' zqx='1", "` zqx=`1", "</textarea><zqx>", "</script><zqx>", "</title><zqx>", "</pre><zqx>", "--><zqx>", "<!--", "</option></select><zqx>", "</form><form zqx=1>", "<zqx zqx=1 onload=alert(1)>", '"onmouseover="zqx', "<![CDATA[<zqx>", "&#60;zqx>",
          "{{7*7}}<zqx>", "<svg/zqx=1>", "\x3czqx>", "&lt;zqx&gt;"]


def markup(case):
    r = case.rng

    async def main(w):
        import logging

        t = Twin(w, case, r)
        await t.build()
        case.describe(ops=t.log, remote=t.remote)
        far, sim = t.far, t.sim

        def m():
            return r.choice(MARKUP) + r.choice(["", "t"])
        ids = list(dict.fromkeys(m() + str(n) for n in range(r.randint(2, 5))))
        bad = {i: m() for i in ids}
        sim.plan = lambda key, n: {"raise_": fns.TaskBoom(bad[key])} if n == 0 else {"ret": bad.get(key)}
        await t.start()
        for i in ids:
            far.add_task(fns.work, "interval", seconds=r.choice([20, 3600]), id=i, name=m(), args=[i, m(), {"k": m()}], kwargs={"x": m()}, store=r.choice(list(t.kinds)))
        log = logging.getLogger("asyncz." + r.choice(["x", m()]))
        for i in ids:
            log.info(m() + " task " + i, extra={"task_id": i})
        for i in ids:
            far.run_task(i, remove_finished=False)
            await sim.settle()
            if r.random() < 0.5:
                far.run_task(i, remove_finished=False)
        await sim.sleep_until(sim.us + 25 * 1_000_000)
        await sim.settle()

        def judge(x, what):
            case.check(x.status < 500, f"{what}: {x.status} {getattr(x, 'error', '')!r}")
            if "html" not in (x.header("content-type") or ""):
                return
            p = Page(x.text)
            case.count("marked_pages", "zqx" in x.text)
            case.check("zqx" not in p.tags, f"{what}: markup from a text field")
            for tag, k, v in p.attrs_seen:
                case.check("zqx" not in k, f"{what}: attribute from a text field in <{tag}>: {k}={v!r}")
                if v and "zqx" in v:
                    # none of these is read as text
                    case.check(not k.startswith(("on", "x-", "hx-on", "hx-vals", "style", "srcdoc", "@", ":")), f"{what}: text field in {k}={v!r}")
                    if k in ("href", "src", "action", "hx-get", "hx-post"):
                        case.check(follow("/dashboard/tasks/", v) is not None, f"{what}: text field as address {v!r}")
            case.check("49<zqx" not in "".join(p.text), f"{what}: template code from a text field")

        async def get(target):
            x = await t.b("GET", target)
            n = 0
            while x.status in (302, 303, 307) and n < 5:
                target, n = follow(target, x.header("location")), n + 1
                x = await t.b("GET", target)
            t.log.append(target[:150])
            case.count("requests")
            case.count("pages")
            judge(x, f"GET {target}")
            return x

        fields = {"/tasks/": ["q", "executor", "trigger", "direction", "per_page", "page"], "/history/": ["q", "status", "task_id", "source", "store", "executor", "page", "per_page"], "/logs/": ["q", "task_id", "level", "limit"], "/events/": ["q", "category", "task_id", "limit"],
                  "/audit/": ["q", "action", "status", "limit"], "/timeline/": ["q", "task_id", "window", "count"]}
        x = await get("/dashboard/tasks/")
        page = Page(x.text)
        case.eq(sorted(v["id"] for v in page.rows), sorted(ids), "ids shown by the table")
        texts = "".join(page.text)
        for i in far.get_task_infos():
            case.check(i.name in texts, f"name {i.name!r} is not shown as it is")
        for row in page.rows:
            for title in ("Details", "Edit", "Logs"):
                await get(follow("/dashboard/tasks/", row["links"][title]))
        for p in ("/", "/tasks/partials/table", "/runtime/", "/instances/", "/timeline/", "/history/", "/history/partials/table", "/events/", "/logs/", "/logs/partials/table", "/audit/", "/nowhere/" + urllib.parse.quote(m(), safe=""), "/tasks/" + urllib.parse.quote(m(), safe=""),
                  "/history/" + urllib.parse.quote(m(), safe="")):
            x = await get("/dashboard" + p)
            if p == "/history/":
                for u in Page(x.text).links:
                    if "/history/" in u and r.random() < 0.5:
                        await get(follow("/dashboard/history/", u))
        for p in r.sample(sorted(fields), 3):
            q = {f: m() for f in r.sample(fields[p], 2)}
            await get("/dashboard" + p + "?" + urllib.parse.urlencode(q))
        # failing actions report what they were given
        for target, data in [("/tasks/create", dict(callable_path=m(), trigger_type=m(), trigger_value=m(), name=m(), args=m(), kwargs="{}")), ("/tasks/create", dict(callable_path="rv.fns:work", trigger_type=r.choice(["interval", "cron", "date"]), trigger_value=m(), name=m(), args="[]")),
                             ("/tasks/hx/bulk/run", {"ids": json.dumps([m(), *ids])}), ("/tasks/hx/bulk/pause", {"ids": m()}), ("/tasks/" + urllib.parse.quote(urllib.parse.quote(ids[0], safe=""), safe="") + "/edit", dict(name=m(), executor=m(), callable_path=m(), coalesce=m(), max_instances=m(), args=m(), kwargs=m(),
                                                                                                                                                                                                                       mistrigger_grace_time=m(), intent=m()))]:
            x = await t.b("POST", "/dashboard" + target, *encode(data))
            await sim.settle()
            t.log.append(target)
            judge(x, f"POST {target} {data}")
            await get("/dashboard" + r.choice(["/tasks/", "/audit/", "/", "/runtime/"]))
        case.trivial = False
        await t.stop()

    return run_world(case, main)


def run(ctx):
    ctx.cases("actions", actions, quick=600, thorough=9000)
    ctx.cases("markup", markup, quick=120, thorough=1500)
