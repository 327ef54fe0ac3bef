"""C26: nothing is reachable without the required token or login."""
import base64
import json
import urllib.parse

from rv import asgi, fns
from rv.world import run_world, us

RULE = ("a case sets up an application holding secrets (task ids, names, log messages) and sends it a random sequence of requests - every route and method, in several spellings - with missing, wrong, near-right and right "
        "tokens, or from browsers that log in, fail to log in, log out, let the session expire or tamper with the cookie; a request without the right must be refused as such, carry no secret and leave tasks, events, runs and the audit "
        "trail as they were, and one with it must not be refused; non-trivial when at least 5 requests were refused; distinct by the requests")
REQUIRE = {"refused": 9000, "granted": 2000, "remote": 6000, "login": 9000, "routes": 20000, "failed_logins": 300, "logins": 300, "logouts": 150, "after_logout": 300, "expired": 50, "tampered": 300,
           "other_app_cookie": 50, "spelled": 1500, "allowlisted": 70, "htmx": 1000, "tokens": 3000, "client_refused": 300, "actions_granted": 400}
ASSUMPTIONS = ["a token is a non-empty string of printable ASCII, sent at most once", "a browser keeps and drops cookies as it is told: a copy of a signed cookie stays valid until it expires",
               "paths the application does not know may be answered with not found instead of a refusal", "requests that need no login because of an allow-list are those below an allowed path, as documented"]

FORM = ("content-type", "application/x-www-form-urlencoded")


def form(**kw):
    return urllib.parse.urlencode(kw, doseq=True).encode()


def near_misses(r, token):
    return [token[:-1], token + "x", token[1:], token.swapcase(), " " + token, token + " ", token + "\x00", token * 2, "", "None", "null", "*", "Bearer " + token, token + "," + token, token[::-1], '"' + token + '"', token[:1]]


class Guarded:
    """A scheduler with secrets and what must not change under refused requests."""

    def __init__(self, w, case, r):
        self.w, self.sim = w, w.sim
        self.mark = "zq%x" % r.getrandbits(48)
        # ids stand in requests, and answers may repeat them; names, arguments and messages must not be known
        self.ids = [f"t%x-{i}" % r.getrandbits(40) for i in range(r.randint(1, 4))]
        self.ev = []

    async def build(self, r):
        from asyncz.executors.asyncio import AsyncIOExecutor

        self.s = self.w.scheduler(native=False, stores={"default": self.w.backend("default", "memory").store()}, executors={"default": AsyncIOExecutor()}, timezone=self.w.tz)
        self.s.add_listener(lambda e: self.ev.append((e.code, getattr(e, "task_id", None))))
        for i in self.ids:
            self.s.add_task(fns.work, "interval", hours=1, args=[i, self.mark], id=i, name="n" + self.mark)
        await self.w.start(self.s)
        if r.random() < 0.5:
            self.s.pause_task(self.ids[0])

    def state(self):
        from asyncz.contrib.dashboard.audit import get_audit_storage

        return (sorted((i.id, i.name, i.schedule_state.value, i.next_run_time and us(i.next_run_time), i.trigger_description) for i in self.s.get_task_infos()), len(self.ev), len(self.sim.calls),
                self.s.state, [(a.action, a.target_id) for a in get_audit_storage().query(limit=10**6)])

    def unmarked(self, reply):
        return self.mark.encode() not in reply.body and not any(self.mark.encode() in v for _, v in reply.headers)


def remote(case):
    r = case.rng

    async def main(w):
        from lilya.apps import Lilya
        from lilya.routing import Include
        from asyncz.contrib.dashboard.remote import RemoteSchedulerClient, RemoteSchedulerError, create_remote_scheduler_app

        g = Guarded(w, case, r)
        await g.build(r)
        token = r.choice(["tok", "S3cr3t-" + "%x" % r.getrandbits(64), "with space", "None", "a", "x" * 300, "a,b", "p=q&r", "ß".encode().hex(), "True"])
        app = create_remote_scheduler_app(g.s, token=token)
        prefix = ""
        if r.random() < 0.5:
            prefix = r.choice(["/asyncz-remote", "/a/b"])
            app = Lilya(routes=[Include(prefix, app=app)])
        log = []
        case.describe(token=token, prefix=prefix, ops=log)
        refused = 0

        def request():
            i = r.choice(g.ids)
            q = urllib.parse.quote(i)
            return r.choice([("GET", "/info", None, False), ("GET", "/instances", None, False), ("GET", "/tasks", None, True), ("GET", f"/tasks?q={q}", None, True), ("GET", f"/tasks/{q}", None, True),
                             ("GET", f"/tasks/{q}/preview", None, True), ("GET", f"/tasks/{q}/preview?count=3", None, True), ("POST", "/tasks", {"fn": "rv.fns:work", "trigger": "interval", "trigger_args": {"hours": 3}, "args": ["n"], "id": "new"}, False),
                             ("POST", f"/tasks/{q}/run", {}, False), ("POST", f"/tasks/{q}/pause", {}, False), ("POST", f"/tasks/{q}/resume", {}, False), ("POST", f"/tasks/{q}/remove", {}, False),
                             ("PATCH", f"/tasks/{q}", {"name": "other"}, False), ("HEAD", "/tasks", None, False), ("HEAD", "/info", None, False)])

        for _ in range(r.randint(10, 40)):
            method, path, body, shows = request()
            data = b"" if body is None else json.dumps(body).encode()
            spelled = False
            known = True
            if r.random() < 0.35:
                spelled, known = True, False
                p, _, query = path.partition("?")
                p = r.choice([p + "/", "/" + p, p.upper(), p.replace("/", "//"), "/x/.." + p, p.replace("t", "%74"), p + "?token=" + urllib.parse.quote(token), p + "%00", p + ";a=b", "/." + p])
                path = p + ("?" + query if query and "?" not in p else "")
                if r.random() < 0.3:
                    method = r.choice(["PUT", "DELETE", "OPTIONS", "get", "TRACE", "CONNECT"])
            right = r.random() < 0.2
            headers = []
            if body is not None:
                headers.append(("content-type", "application/json"))
            if right:
                headers.append((r.choice(["x-asyncz-remote-token", "X-Asyncz-Remote-Token"]), token))
            else:
                k = r.randrange(4)
                if k < 2:
                    bad = r.choice(near_misses(r, token))
                    if bad != token:
                        headers.append(("x-asyncz-remote-token", bad))
                elif k == 2:
                    headers.append(r.choice([("authorization", "Bearer " + token), ("x-asyncz-token", token), ("cookie", "x-asyncz-remote-token=" + token), ("asyncz-remote-token", token), ("x-asyncz-remote-token2", token),
                                             ("x-asyncz_remote_token", token), ("x-forwarded-for", "127.0.0.1")]))
            before = g.state()
            x = await asgi.acall(app, method, prefix + path, headers, data)
            await w.sim.settle()
            after = g.state()
            case.count("remote")
            case.count("routes")
            case.count("spelled", spelled)
            case.count("tokens", any(h[0].lower() == "x-asyncz-remote-token" for h in headers))
            what = f"{method} {path} {headers}: {x.status}"
            log.append(what[:160])
            if right:
                if known:
                    case.check(x.status == 200, f"{what} {x.text[:200]}, with the right token")
                    if shows:
                        case.check(g.mark in x.text, f"{what}: nothing about the task in {x.text[:200]}")
                    case.count("granted")
                    if method in ("POST", "PATCH"):
                        case.count("actions_granted")
                        case.check(after != before or "pause" in path or "PATCH" == method, f"{what}: no effect with the right token")
                # as it was, for the next request
                for i in g.ids:
                    if g.s.get_task_info(i) is None:
                        g.s.add_task(fns.work, "interval", hours=1, args=[i, g.mark], id=i, name="n" + g.mark)
                if g.s.get_task_info("new"):
                    g.s.delete_task("new")
                await w.sim.settle()
            else:
                refused += 1
                case.count("refused")
                case.eq(after, before, f"{what}: state after a request without the token")
                case.check(g.unmarked(x), f"{what}: secrets in the answer {x.text[:300]} {x.headers}")
                if known:
                    case.check(x.status == 401, f"{what} {x.text[:200]}, expected 401")
                else:
                    case.check(x.status in (303, 307, 308, 400, 401, 404, 405), f"{what} {x.text[:200]}, expected a refusal")
            if r.random() < 0.1:
                bad = r.choice([None, *near_misses(r, token)[:4]])

                def transport(method, path, payload, headers, query):
                    target = prefix + path + ("?" + urllib.parse.urlencode(query) if query else "")
                    y = asgi.call(app, method, target, list(headers.items()), b"" if payload is None else json.dumps(payload).encode())
                    return y.status, y.json()
                c = RemoteSchedulerClient(token=bad, transport=transport)
                i = r.choice(g.ids)
                for name, f in [("get_scheduler_info", lambda: c.get_scheduler_info()), ("get_task_infos", lambda: c.get_task_infos()), ("get_task_info", lambda: c.get_task_info(i)), ("pause_task", lambda: c.pause_task(i)),
                                ("run_task", lambda: c.run_task(i)), ("delete_task", lambda: c.delete_task(i)), ("update_task", lambda: c.update_task(i, name="q")), ("add_task", lambda: c.add_task("rv.fns:work", "date", id="new")),
                                ("preview_task_runs", lambda: c.preview_task_runs(i)), ("resume_task", lambda: c.resume_task(i))]:
                    before = g.state()
                    try:
                        got = f()
                    except RemoteSchedulerError:
                        got = None
                    else:
                        case.check(False, f"{name} of a client with token {bad!r} instead of {token!r} returned {got!r}")
                    case.eq(g.state(), before, f"state after {name} with token {bad!r}")
                    case.count("client_refused")
        case.trivial = refused < 5
        g.s.pause()
        await w.sim.settle()
        await w.stop(g.s)

    return run_world(case, main)


class Browser:
    """Keeps and drops cookies as it is told."""

    def __init__(self, app, name):
        self.app, self.name, self.jar = app, name, {}

    async def __call__(self, method, target, headers=(), body=b"", cookie=None):
        ck = cookie if cookie is not None else "; ".join(f"{k}={v}" for k, v in self.jar.items())
        x = await asgi.acall(self.app, method, target, [*headers, *([("cookie", ck)] if ck else [])], body)
        if cookie is None:
            for c in x.all("set-cookie"):
                k, _, v = c.split(";")[0].partition("=")
                v = v.strip('"')
                if "01 jan 1970" in c.lower():
                    self.jar.pop(k.strip(), None)
                else:
                    self.jar[k.strip()] = v
        return x


def login(case):
    r = case.rng

    async def main(w):
        from lilya.apps import Lilya
        from lilya.responses import HTMLResponse
        from lilya.routing import Include
        from asyncz.contrib.dashboard.admin import AsynczAdmin, SimpleUsernamePasswordBackend, User
        from asyncz.contrib.dashboard.audit import MemoryAuditTrailStorage, get_audit_storage
        from asyncz.contrib.dashboard.logs.storage import MemoryLogStorage

        g = Guarded(w, case, r)
        await g.build(r)
        asgi.inline_threads()
        users = {"admin": ("secret", User(id=1, name="Admin")), "eve": ("pa ss&=%", User(id="e", name="Ève", is_admin=False, email="e@x", roles=["a"])), "zero": ("0", User(id=0, name=""))}

        def verify(u, p):
            if u == "crash":
                raise RuntimeError("the user database is away")
            return users[u][1] if u in users and users[u][0] == p else r.choice([None, None, False])

        class HeaderBackend:
            # another backend: who is logged in stands in the session under its own name
            async def authenticate(self, request):
                n = request.session.get("who")
                return users[n][1] if n in users else None

            async def login(self, request):
                if request.method == "GET":
                    return HTMLResponse("<form>log in</form>")
                f = await request.form()
                if verify(f.get("username"), f.get("password")):
                    request.session["who"] = f.get("username")
                    return HTMLResponse("", status_code=303, headers={"location": "/"})
                return HTMLResponse("no", status_code=403)

            async def logout(self, request):
                request.session.clear()
                return HTMLResponse("bye")

        simple = r.random() < 0.75
        backend = SimpleUsernamePasswordBackend(verify) if simple else HeaderBackend()
        logs = MemoryLogStorage()
        form_of = r.choice(["include_in", "include_in", "asgi", "asgi_prefix", "mounted", "mounted0"])
        kw = {}
        prefix = "/dashboard"
        if form_of in ("include_in", "asgi_prefix", "mounted") and r.random() < 0.4:
            prefix = r.choice(["/ops", "/foo/bar", "/dashboard/", "/admin"])
            kw["url_prefix"] = prefix
            prefix = prefix.rstrip("/")
        if form_of in ("asgi", "mounted0"):
            prefix = ""
        open_page = None
        if r.random() < 0.3:
            open_page = r.choice(["/runtime", "/events", "/instances"])
            kw["allowlist"] = ("/login", "/logout", "/static", "/assets", prefix + open_page)
        if r.random() < 0.3:
            kw.update(enable_forward_middleware=True, trusted_forwarded_hosts=r.choice([("127.0.0.1",), ("*",), ("10.0.0.1",)]))
        if r.random() < 0.2:
            kw["include_cors"] = False

        def make():
            a = AsynczAdmin(enable_login=True, backend=backend, scheduler=g.s, log_storage=logs, **kw)
            if form_of == "include_in":
                host = Lilya()
                a.include_in(host)
                return host, ""
            x = a.get_asgi_app(with_url_prefix=form_of in ("asgi_prefix", "mounted"))
            return (Lilya(routes=[Include("/mnt", app=x)]), "/mnt") if form_of.startswith("mounted") else (x, "")
        (app, mount), (app2, _) = make(), make()
        audit0 = len(get_audit_storage().query(limit=10**6))
        base = mount + prefix
        fns_logger = __import__("logging").getLogger("asyncz.task")
        fns_logger.info("message of " + g.mark)
        browsers = [Browser(app, i) for i in range(3)]
        authed = {0: None, 1: None, 2: None}     # virtual time of the last answer in a session
        life = 14 * 24 * 3600
        log = []
        case.describe(form=form_of, simple=simple, kw={k: str(v) for k, v in kw.items()}, ops=log)
        refused = 0
        ids = g.ids

        def pages():
            i = urllib.parse.quote(r.choice(ids))
            return r.choice([
                ("GET", "/", None), ("GET", "/tasks/", None), ("GET", "/tasks/partials/table", None), ("GET", "/tasks/create", None), ("GET", f"/tasks/{i}", None), ("GET", f"/tasks/{i}/edit", None),
                ("GET", "/runtime/", None), ("GET", "/instances/", None), ("GET", "/timeline/", None), ("GET", "/history/", None), ("GET", "/history/partials/table", None), ("GET", "/history/" + i, None), ("GET", "/events/", None),
                ("GET", "/logs/", None), ("GET", "/logs/partials/table", None), ("GET", "/audit/", None), ("HEAD", "/tasks/", None),
                ("POST", f"/tasks/{i}/run", {}), ("POST", f"/tasks/{i}/pause", {}), ("POST", f"/tasks/{i}/resume", {}), ("POST", f"/tasks/{i}/remove", {}),
                ("POST", "/tasks/hx/bulk/run", {"ids": json.dumps(ids)}), ("POST", "/tasks/hx/bulk/pause", {"ids": json.dumps(ids)}), ("POST", "/tasks/hx/bulk/resume", {"ids": json.dumps(ids)}), ("POST", "/tasks/hx/bulk/remove", {"ids": json.dumps(ids)}),
                ("POST", "/tasks/create", {"callable_path": "rv.fns:work", "trigger_type": "interval", "trigger_value": "10h", "name": "x", "args": "[\"k\"]"}), ("POST", f"/tasks/{i}/edit", {"name": "y", "intent": "apply", "callable_path": "rv.fns:work", "executor": "default", "args": "[]", "kwargs": "{}", "coalesce": "true", "max_instances": "2"})])

        def spelled(path):
            p, _, query = path.partition("?")
            c = [p + "/", "/" + p, p.replace("/", "//"), "/x/.." + p, p.replace("t", "%74"), "/login/.." + p, "/login" + p, "/logout/." + p, mount + "/login/.." + p, mount + "/login%2f.." + p, mount + "/static/.." + p,
                 mount + "/assets/../" + p, base + "/static/.." + p[len(base):], base + "/static/%2e%2e" + p[len(base):], mount + "/static" + p, mount + "/LOGIN" + p, mount + "/loginx" + p, mount + "/login.html", p + "?next=/login", p + "%2f/login",
                 p + ";/login", p + "#/login", p.rstrip("/") + "/login", p.rstrip("/") + "/static", mount + "/login/" + p, mount + "/%6cogin/.." + p, base + "/login", base + "/logout/" + p, p + "%0d%0aset-cookie:%20a=b", p + "%E6%97%A5", base + "/static/tasks/"]
            if open_page:
                c += [base + open_page + "/.." + p[len(base):], base + open_page + "x", base + open_page[:-1], base + open_page + p[len(base):]]
            return r.choice(c)

        def undo():
            for i in ids:
                if g.s.get_task_info(i) is None:
                    g.s.add_task(fns.work, "interval", hours=1, args=[i, g.mark], id=i, name="n" + g.mark)
            for t in g.s.get_task_infos():
                if t.id not in ids:
                    g.s.delete_task(t.id)

        async def visit(n, cookie=None, why=None):
            nonlocal refused
            b = browsers[n]
            method, path, data = pages()
            target = base + path
            odd = r.random() < 0.25
            if odd:
                target = spelled(target)
                case.count("spelled")
            headers = [FORM] if data is not None else []
            htmx = r.random() < 0.25
            if htmx:
                headers.append(("hx-request", "true"))
                case.count("htmx")
            if r.random() < 0.15:
                headers.append(r.choice([("x-forwarded-prefix", r.choice(["/login", "/static", mount + base, "/x", "/dashboard/static", "//evil"])), ("x-original-url", "/login"), ("x-rewrite-url", "/login"), ("origin", "http://evil"), ("authorization", "Basic YWRtaW46c2VjcmV0"),
                                         ("referer", "/login"), ("hx-current-url", "/login"), ("x-forwarded-user", "admin")]))
            ok = authed[n] is not None and cookie is None and w.sim.us - authed[n] <= life * 1_000_000
            grey = ok and w.sim.us - authed[n] >= (life - 2) * 1_000_000
            before = g.state()
            x = await b(method, target, headers, form(**data) if data is not None else b"", cookie)
            await w.sim.settle()
            after = g.state()
            case.count("login")
            case.count("routes")
            what = f"{method} {target} {headers} ({why or ('in' if ok else 'out')}): {x.status} {x.header('location') or x.header('hx-redirect') or ''}"
            log.append(what[:170])
            loginish = mount + "/login?next="
            is_refusal = (x.status == 303 and (x.header("location") or "").startswith(loginish)) or (x.status == 401 and (x.header("hx-redirect") or "").startswith(loginish))
            free = open_page and (urllib.parse.unquote(target.partition("?")[0]) == base + open_page or urllib.parse.unquote(target.partition("?")[0]).startswith(base + open_page + "/"))
            if grey:
                undo()
                return
            if ok:
                authed[n] = w.sim.us if b.jar else None
                case.check(not is_refusal, f"{what}: refused although logged in")
                if not odd:
                    case.check(x.status < 500 and x.status != 401, f"{what} {getattr(x, 'error', '')!r}, logged in")
                    case.count("granted")
                    if method == "GET" and path in ("/tasks/", "/tasks/partials/table", "/logs/", "/timeline/"):
                        case.check(x.status == 200 and not g.unmarked(x), f"{what}: shows nothing of the tasks, logged in")
                    if method == "POST" and "edit" not in path and after != before:
                        case.count("actions_granted")
                undo()
                return
            refused += 1
            case.count("refused")
            if free:
                case.count("allowlisted")
                if not odd:
                    case.check(not is_refusal and x.status == 200, f"{what}: an allowed path")
                return
            case.eq(after, before, f"{what}: state after a request without a session")
            case.check(g.unmarked(x), f"{what}: secrets in the answer {x.text[:300]}")
            for k, v in x.headers:
                case.check(b"\n" not in v and b"\r" not in v, f"{what}: line break in header {k} {v}")
                if not odd:
                    case.check(all(c < 128 for c in v), f"{what}: header {k} {v}")
            if not odd:
                want = 401 if htmx else 303
                case.check(is_refusal and x.status == want, f"{what} {x.text[:100]!r} {getattr(x, 'error', '')!r}: expected a refusal")
                if "x-forwarded-prefix" not in dict(headers):
                    case.eq((x.header("location") or x.header("hx-redirect")), loginish + urllib.parse.quote(urllib.parse.unquote(target.partition("?")[0])), f"{what}: where to log in")
            else:
                case.check(x.status in (200, 303, 307, 400, 401, 403, 404, 405), f"{what} {x.text[:100]!r} {getattr(x, 'error', '')!r}: expected a refusal")

        async def do_login(n, good):
            b = browsers[n]
            target = mount + "/login"
            if r.random() < 0.3:
                x = await b("GET", target + r.choice(["", "?next=/dashboard/tasks/", "?next=%22%3E%3Cscript%3E"]))
                case.check(x.status == 200 and g.unmarked(x) and b"<script>\"" not in x.body, f"login page: {x.status} {getattr(x, 'error', '')!r}")
            u = r.choice(sorted(users))
            p = users[u][0]
            if not good:
                u, p = r.choice([(u, p + "x"), (u, p[:-1]), (u, ""), (u, p.upper() + " "), ("", ""), ("nobody", p), (u + "x", p), ("crash", "x"), (u.upper() + "_", p), ("' or 1=1 --", "x"), (None, p), (u, None), ("x" * 5000, "y")])
            data = {k: v for k, v in (("username", u), ("password", p), ("next", r.choice([None, "/dashboard/", base + "/tasks/", "/login"]))) if v is not None}
            before = g.state()
            ct = FORM
            body = form(**data)
            if r.random() < 0.25:
                ct = ("content-type", "multipart/form-data; boundary=BB")
                body = "".join(f'--BB\r\nContent-Disposition: form-data; name="{k}"\r\n\r\n{v}\r\n' for k, v in data.items()).encode() + b"--BB--\r\n"
            x = await b("POST", target, [ct], body)
            log.append(f"login {n} {u!r} {good}: {x.status}"[:100])
            case.eq(g.state(), before, "state after a login")
            case.check(g.unmarked(x), "secrets in the answer to a login")
            if good:
                case.check(x.status == 303, f"login as {u}: {x.status} {x.text[:200]} {getattr(x, 'error', '')!r}")
                authed[n] = w.sim.us
                case.count("logins")
            else:
                case.count("failed_logins")
                case.check(x.status != 303 and not (x.header("location")), f"login as {u!r} with {p!r}: {x.status} {x.header('location')}")
                if authed[n] is not None and x.all("set-cookie"):
                    authed[n] = w.sim.us

        async def do_logout(n):
            b = browsers[n]
            x = await b(r.choice(["GET", "POST"]), mount + "/logout")
            log.append(f"logout {n}: {x.status}")
            case.check(x.status in (200, 303), f"logout: {x.status} {getattr(x, 'error', '')!r}")
            if authed[n] is not None:
                case.count("logouts")
                out.add(n)
            authed[n] = None

        out = set()
        for _ in range(r.randint(10, 45)):
            n = r.randrange(3)
            k = r.random()
            if k < 0.62:
                case.count("after_logout", n in out and authed[n] is None)
                await visit(n)
            elif k < 0.72:
                await do_login(n, False)
            elif k < 0.80:
                await do_login(n, True)
                out.discard(n)
            elif k < 0.86:
                await do_logout(n)
            elif k < 0.95:
                # cookies that were not given to this browser by this application
                name = "asyncz_admin"
                own = next((b.jar.get(name) for b in browsers if b.jar.get(name)), None)
                payload = base64.b64encode(json.dumps({"asyncz_admin": {"id": 1, "name": "Admin", "is_admin": True}, "who": "admin"}).encode()).decode()
                c = [payload, payload + ".a.b", "null", "", payload + "." * 3, "a" * 4000, base64.b64encode(b"{}").decode(), '"' + payload + '"', "x; " + name + "=y"]
                if own:
                    a, t, s = (own.rsplit(".", 2) + ["", ""])[:3]
                    i = r.randrange(len(a))
                    c += [payload + "." + t + "." + s, a + "." + t, a, a + "." + t + "." + s[:-2], a[:i] + ("A" if a[i] != "A" else "B") + a[i + 1:] + "." + t + "." + s, a + ".zzzzzz." + s, a + "." + t + "." + s[::-1] + "x", own[1:]]
                await visit(n, cookie=f"{name}={r.choice(c)}", why="forged cookie")
                case.count("tampered")
            elif k < 0.975:
                # a session of another application with another key
                b2 = Browser(app2, 9)
                await b2("POST", mount + "/login", [FORM], form(username="admin", password="secret"))
                if b2.jar:
                    await visit(n, cookie="; ".join(f"{k}={v}" for k, v in b2.jar.items()), why="session of another application")
                    case.count("other_app_cookie")
            else:
                for t in g.s.get_task_infos():
                    g.s.pause_task(t.id)
                d = r.choice([3600, life - 100, life + 100])
                await w.sim.sleep_until(w.sim.us + d * 1_000_000)
                await w.sim.settle()
                if any(a is not None and w.sim.us - a > (life + 1) * 1_000_000 for a in authed.values()):
                    case.count("expired")
        case.trivial = refused < 5
        g.s.pause()
        await w.sim.settle()
        await w.stop(g.s)

    return run_world(case, main)


def run(ctx):
    ctx.cases("remote", remote, quick=400, thorough=6000)
    ctx.cases("login", login, quick=800, thorough=10000)
