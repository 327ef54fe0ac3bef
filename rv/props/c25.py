"""C25: a remote scheduler client is equivalent to calling the scheduler."""
import json
import re
import urllib.parse
from datetime import timedelta

from rv import asgi, fns
from rv.world import run_world, us

RULE = ("a case gives the same random sequence of calls to a remote client of one scheduler and directly to a twin scheduler in the same virtual time, with hostile task "
        "ids and argument values, over a real HTTP connection or an in-process transport, and compares results, errors, all tasks and all events after every call; "
        "non-trivial when at least 3 calls were compared; distinct by the calls")
ASSUMPTIONS = ["argument values are those JSON can carry; trigger objects only when adding", "errors without a class of their own in the client may arrive as RemoteSchedulerError",
               "the order of results that a direct call does not define is not compared"]
REQUIRE = {"calls": 8000, "kind:http": 60, "kind:transport": 200, "op:add": 1200, "op:list": 900, "op:info": 500, "op:preview": 500, "op:update": 500, "op:run": 500, "op:pause": 300,
           "op:resume": 300, "op:delete": 300, "errors": 900, "error:TaskLookupError": 150, "error:ConflictIdError": 80, "error:ValueError": 80, "error:MaximumInstancesError": 8,
           "hostile_ids": 1500, "compared": 20000, "runs": 1500, "added_paused": 60, "no_grace": 100, "preview_now": 100}
IDS = ["a", "b", "a/b", "a/preview", "b/run", "a/pause", "a%2Fb", "100%", "a b", "ü", "a?b=c", "a#b", "a+b", "a&b=1", "..", ".", "a;b", 'q"q', "<b>", "a\\b", "日本", "a%20b", "%61", "/a", "a/", "null"]
NAMES = ["alpha", "Beta", "x y", "ü", "a&b", "100%", "n/m"]
VALUES = [None, 1, -3, 0, 2.5, True, False, "", "x", "ü/%&?#", [], [1, [2, None]], {}, {"k": "v", "n": {"m": [1]}}, 10**18, "2024-01-01T00:00:00", "null", 1e-9]


def plain(info):
    d = info.model_dump()
    d["next_run_time"] = us(info.next_run_time) if info.next_run_time else None
    d["schedule_state"] = info.schedule_state.value
    d["args"], d["kwargs"] = json.dumps(info.args), json.dumps(info.kwargs, sort_keys=True)
    return d


def shape_of(op, x):
    """A result as comparable data."""
    if x is None:
        return None
    if op == "list":
        return [plain(i) for i in x]
    if op == "preview":
        return dict(task=plain(x.task), tz=x.timezone, at=us(x.generated_at), n=x.requested_count, times=[us(t) for t in x.run_times], end=x.exhausted)
    if op == "info":
        return plain(x)
    if op in ("sched", "instances"):
        return [{k: (us(v) if hasattr(v, "tzinfo") else v) for k, v in i.model_dump().items() if k not in ("identity", "instance_id")} for i in (x if op == "instances" else [x])]
    if op == "running":
        return x
    if isinstance(x, tuple):
        return plain(x[0].snapshot())  # the store of a pending task is not named by a direct lookup
    return plain(x.snapshot())


def scenario(case):
    r = case.rng

    async def main(w):
        from lilya.apps import Lilya
        from lilya.routing import Include

        from asyncz.contrib.dashboard.remote import RemoteSchedulerClient, RemoteSchedulerError, create_remote_scheduler_app
        from asyncz.enums import TaskScheduleState
        from asyncz.exceptions import ConflictIdError, MaximumInstancesError, SchedulerNotRunningError, TaskLookupError
        from asyncz.executors.asyncio import AsyncIOExecutor
        from asyncz.executors.debug import DebugExecutor
        from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger, OrTrigger

        sim, tz = w.sim, w.tz
        kinds = {"default": r.choice(["memory", "memory", "sqlite"]), **({"b2": r.choice(["memory", "sqlite"])} if r.random() < 0.5 else {})}
        defaults = r.choice([{}, {}, {"mistrigger_grace_time": 7, "max_instances": 3, "coalesce": False}])
        pair = []
        for n in range(2):
            names = {f"{a}": k for a, k in kinds.items()}
            stores = {a: w.backend(f"{a}-{n}", k).store() for a, k in names.items()}
            s = w.scheduler(native=False, stores=stores, executors={"default": AsyncIOExecutor(), "x": DebugExecutor()}, timezone=tz, **({"task_defaults": defaults} if defaults else {}))
            ev = []
            s.add_listener(lambda e, ev=ev: ev.append((e.code, getattr(e, "task_id", None), getattr(e, "store", None), [us(t) for t in getattr(e, "scheduled_run_times", [])], str(getattr(e, "scheduled_run_time", "")),
                                                       re.sub("0x[0-9a-f]+", "", repr(getattr(e, "return_value", None))), repr(getattr(e, "exception", None)))))
            pair.append((s, ev))
        (far, far_ev), (near, near_ev) = pair
        token = r.choice([None, "secret-token"])
        app = create_remote_scheduler_app(far, token=token)
        prefix = ""
        if r.random() < 0.5:
            prefix = "/asyncz-remote"
            app = Lilya(routes=[Include(prefix, app=app)])
        http = r.random() < 0.25
        case.count("kind:http" if http else "kind:transport")
        server = asgi.HttpServer(app) if http else None

        def transport(method, path, payload, headers, query):
            target = prefix + path + ("?" + urllib.parse.urlencode(query) if query else "")
            x = asgi.call(app, method, target, list(headers.items()), b"" if payload is None else json.dumps(payload).encode())
            return x.status, x.json()

        client = RemoteSchedulerClient(server.url + prefix + r.choice(["", "/"]), token=token) if http else RemoteSchedulerClient(token=token, transport=transport)
        log = []
        case.describe(zone=str(tz), kinds=kinds, http=http, prefix=prefix, token=token, ops=log)
        pool = r.sample(IDS, r.randint(2, 6))
        boom = {}
        for k in IDS:
            boom[k] = r.random() < 0.2
        # both schedulers run the same functions: what a call does depends on its key only
        sim.plan = lambda key, n: {"raise_": ValueError("boom")} if boom.get(key) else {"ret": None, **({"dur": 4} if key == "b" else {})}
        stores = [None, None, *kinds, "nowhere"]

        def call(op, f, *a, **kw):
            out = []
            for s in (near, client):
                try:
                    out.append(("ok", shape_of(op, f(s))))
                except Exception as exc:
                    out.append(("error", exc))
            (k1, v1), (k2, v2) = out
            case.count("calls")
            case.count("op:" + op)
            what = f"{op} {a} {kw}"
            log.append((what[:200], "ok" if k1 == "ok" else repr(v1)))
            case.check(k1 == k2, f"{what}: called directly {k1} {v1!r}, through the client {k2} {v2!r}")
            if k1 == "ok":
                case.eq(v2, v1, f"result of {what} through the client")
            else:
                case.count("errors")
                cls = next((c for c in (TaskLookupError, ConflictIdError, MaximumInstancesError, SchedulerNotRunningError) if isinstance(v1, c)), None)
                if cls is not None:
                    case.check(type(v2) is cls, f"{what}: called directly {v1!r}, through the client {type(v2).__name__} {v2}")
                    case.count("error:" + cls.__name__)
                elif type(v1) is ValueError:
                    case.check(isinstance(v2, ValueError) and not isinstance(v2, json.JSONDecodeError), f"{what}: called directly {v1!r}, through the client {v2!r}")
                    case.count("error:ValueError")
                else:
                    case.check(isinstance(v2, (type(v1), RemoteSchedulerError)), f"{what}: called directly {v1!r}, through the client {v2!r}")
                if not isinstance(v1, KeyError):
                    case.eq(str(v2), str(v1), f"message of the error of {what}")
            same()

        def same():
            a, b = (sorted((plain(i) for i in s.get_task_infos()), key=str) for s in (near, far))
            case.eq(b, a, "tasks of the worker, compared with the twin")
            case.count("compared", len(a))
            # runs of different tasks may end in either order
            case.eq(sorted(far_ev, key=str), sorted(near_ev, key=str), "events of the worker, compared with the twin")

        def trig():
            k = r.random()
            if k < 0.4:
                return "interval", dict(r.choice([{"seconds": 30}, {"minutes": 5, "jitter": None}, {"hours": 2}, {"seconds": 20, "start_at": sim.now() + timedelta(seconds=50)},
                                                  {"seconds": 20, "end_at": (sim.now() + timedelta(seconds=300)).isoformat()}]))
            if k < 0.55:
                return "cron", dict(r.choice([{"minute": "*/5"}, {"hour": 3, "day_of_week": "mon-fri"}, {"second": "0,30"}]))
            if k < 0.7:
                return "date", {"run_at": r.choice([sim.now() + timedelta(seconds=100), (sim.now() + timedelta(hours=3)).replace(microsecond=0).isoformat()])}
            if k < 0.75:
                return None, {}
            if k < 0.8:
                return r.choice([("interval", {"seconds": "x"}), ("nonsense", {}), ("cron", {"minute": "99"})])
            return r.choice([IntervalTrigger(seconds=45, timezone=tz), CronTrigger(minute="*/7", timezone=tz), DateTrigger(run_at=sim.now() + timedelta(seconds=600), timezone=tz),
                             OrTrigger(triggers=[IntervalTrigger(seconds=100, timezone=tz), CronTrigger(hour=1, timezone=tz)])]), {}

        def add():
            tid = r.choice(pool)
            t, targs = trig()
            kw = {}
            if r.random() < 0.5:
                kw["name"] = r.choice(NAMES)
            if r.random() < 0.5:
                kw["mistrigger_grace_time"] = r.choice([None, 5, 2.5, 3600, 0, "x"] if r.random() < 0.3 else [None, 5, 2.5])
            if r.random() < 0.4:
                kw["coalesce"] = r.random() < 0.5
            if r.random() < 0.4:
                kw["max_instances"] = r.choice([1, 2, 9, 0] if r.random() < 0.3 else [1, 2, 9])
            if r.random() < 0.35:
                kw["next_run_time"] = r.choice([None, sim.now() + timedelta(seconds=90), (sim.now() + timedelta(seconds=70)).isoformat()])
            if r.random() < 0.4:
                kw["store"] = r.choice([*kinds, "nowhere"] if started[0] else list(kinds))
            if r.random() < 0.3:
                kw["executor"] = r.choice(["x", "default"])
            if r.random() < 0.4:
                kw["replace_existing"] = r.random() < 0.7
            args = r.choice([[tid], (tid, r.choice(VALUES)), [tid, r.choice(VALUES), r.choice(VALUES)]])
            kwargs = r.choice([None, {}, {"x": r.choice(VALUES)}, {"p": r.choice(VALUES), "q_": r.choice(VALUES)}])
            fn = r.choice([fns.work, fns.awork, "rv.fns:work", "rv.fns:awork", "rv.fns:Holder.smeth"] + (["rv.fns:nothing", "nonsense"] if r.random() < 0.3 else []))
            bad = "seconds" in targs and targs["seconds"] == "x"
            if kw.get("next_run_time", 1) is None:
                case.count("added_paused")
            if kw.get("mistrigger_grace_time", 1) is None:
                case.count("no_grace")
            case.count("hostile_ids", tid not in ("a", "b"))
            call("add", lambda s: s.add_task(fn, t, args=args, kwargs=kwargs, id=tid, **kw, **targs), fn, t, targs, tid, args, kwargs, bad, **kw)

        async def go():
            k = r.choice(["add", "add", "add", "list", "list", "info", "get", "lookup", "preview", "update", "update", "run", "run", "pause", "resume", "delete", "wait", "wait", "sched", "start"])
            tid = r.choice(pool) if r.random() < 0.9 else r.choice(["missing", "mis/sing", "a/missing"])
            st = r.choice(stores) if r.random() < 0.4 else None
            if k not in ("wait", "add", "list", "sched"):
                case.count("hostile_ids", tid not in ("a", "b"))
            if k == "add":
                add()
            elif k == "list":
                kw = {}
                if r.random() < 0.3:
                    kw["store"] = r.choice([*kinds, "nowhere"])
                if r.random() < 0.3:
                    kw["schedule_state"] = r.choice(["paused", "pending", "scheduled", TaskScheduleState.PAUSED, TaskScheduleState.SCHEDULED, "nonsense"])
                if r.random() < 0.2:
                    kw["executor"] = r.choice(["default", "x"])
                if r.random() < 0.2:
                    kw["trigger"] = r.choice(["interval", "CronTrigger", "date", "none"])
                if r.random() < 0.4:
                    kw["q"] = r.choice([*IDS, "alp", "a&b", "%", "work", " "])
                if r.random() < 0.5:
                    kw["sort_by"] = r.choice(["id", "name", "next_run_time", "schedule_state", "executor", "store", "trigger", "nonsense"])
                if r.random() < 0.4:
                    kw["descending"] = r.random() < 0.7

                def rows(s):
                    x = s.get_task_infos(**kw)
                    # entries with equal sort keys have no defined order between two schedulers
                    return sorted(x, key=lambda i: (str(i.id), str(i.store_alias))) if kw.get("sort_by", "next_run_time") not in ("id",) or len(kinds) > 1 else x
                call("list", rows, **{a: str(b) for a, b in kw.items()})
                full = [[(i.id, i.store_alias) for i in s.get_task_infos(**kw)] for s in (near, client)] if kw.get("sort_by") != "nonsense" and kw.get("schedule_state") != "nonsense" else [0, 0]
                if len(kinds) == 1:
                    case.eq(full[1], full[0], f"order of the listing {kw}")
            elif k == "info":
                call("info", lambda s: s.get_task_info(tid, st), tid, st)
            elif k == "get":
                call("get", lambda s: s.get_task(tid, st), tid, st)
            elif k == "lookup":
                call("lookup", lambda s: s.lookup_task(tid, st), tid, st)
            elif k == "preview":
                kw = {}
                if r.random() < 0.7:
                    kw["count"] = r.choice([1, 3, 50, 0, 51, -1] if r.random() < 0.4 else [1, 3, 50])
                if r.random() < 0.5:
                    kw["now"] = r.choice([sim.now(), sim.now().astimezone(tz), sim.now().astimezone(tz).replace(tzinfo=None)]) + timedelta(seconds=r.choice([0, 1000, 10**6, -5000]))
                    case.count("preview_now")
                call("preview", lambda s: s.preview_task_runs(tid, st, **kw), tid, st, **{a: str(b) for a, b in kw.items()})
            elif k == "update":
                kw = r.choice([{"name": r.choice(NAMES)}, {"args": [tid, r.choice(VALUES)]}, {"kwargs": {"z": r.choice(VALUES)}}, {"coalesce": r.random() < 0.5}, {"max_instances": r.choice([1, 4, 0, -1])},
                               {"mistrigger_grace_time": r.choice([None, 3, 2.5, 0, "x"])}, {"executor": r.choice(["x", "default"])}, {"fn": r.choice(["rv.fns:work", fns.awork, "rv.fns:nothing"])},
                               {"name": ""}, {"id": "new"}, {"nonsense": 1}, {"name": "two", "max_instances": 5, "coalesce": True}, {"args": "x"}, {}])
                call("update", lambda s: s.update_task(tid, st, **kw), tid, st, **kw)
            elif k == "run":
                kw = r.choice([{}, {}, {"force": False}, {"remove_finished": False}, {"force": True}])
                for _ in range(r.choice([1, 1, 3])):
                    call("run", lambda s: s.run_task(tid, st, **kw), tid, st, **kw)
                    case.count("runs")
            elif k == "pause":
                call("pause", lambda s: s.pause_task(tid, st), tid, st)
            elif k == "resume":
                call("resume", lambda s: s.resume_task(tid, st), tid, st)
            elif k == "delete":
                call("delete", lambda s: s.delete_task(tid, st), tid, st)
            elif k == "sched":
                if started[0]:
                    call("running", lambda s: s.running)
                call("sched", lambda s: s.get_scheduler_info())
                call("instances", lambda s: s.get_scheduler_instance_infos())
            elif k == "start" and not started[0]:
                started[0] = True
                await w.start(near)
                await w.start(far)
                same()
            elif k == "wait":
                await sim.sleep_until(sim.us + r.choice([1, 10, 35, 400, 7200]) * 1_000_000)
                await sim.settle()
                same()

        started = [False]
        try:
            for _ in range(r.randint(8, 40)):
                await go()
        finally:
            if server:
                server.close()
        for s in (near, far):
            if started[0]:
                s.pause()
        await sim.settle()
        for s in (near, far):
            if started[0]:
                await w.stop(s)
        case.trivial = len(log) < 3

    return run_world(case, main)


def run(ctx):
    ctx.cases("twin", scenario, quick=800, thorough=12000)
