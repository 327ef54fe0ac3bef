"""C22: concurrent calls from many threads behave as if made one at a time."""
import asyncio
import datetime as D
import logging
import os
import random
import sys
import threading
import time

from rv import clock, fns9
from rv.backends import Backend
from rv.linear import INF, Budget, linearizable, overlaps  # noqa: F401

RULE = ("a case runs a real scheduler on its own loop thread, processing tasks due every few milliseconds, while 2-4 threads add, replace, read, list, rename, reschedule, pause, resume, run and "
        "delete tasks with shared ids, with delays injected at random lines of the library in all threads; the recorded history of every id must be linearizable over (name, trigger, paused), "
        "events must match the changes made and nothing may fail internally; non-trivial when operations on one id overlapped; distinct by history")
ASSUMPTIONS = ["interleavings are those reached by random delays between lines of library code", "a listing is judged id by id"]
REQUIRE = {"histories": 400, "overlapping_pairs": 5000, "reads": 2000, "contended_adds": 250, "contended_deletes": 80, "processed": 300, "busy_pauses": 60, "listener_rounds": 40,
           "kind:memory": 60, "kind:file": 20, "kind:sqlite": 20, "kind:redis": 15, "delays": 30000, "events_matched": 1500}
UTC = D.timezone.utc
FILES = tuple(os.sep + "asyncz" + os.sep + x for x in ("schedulers" + os.sep + "base.py", "schedulers" + os.sep + "asyncio.py", "tasks" + os.sep + "base.py", "tasks" + os.sep + "types.py", "tasks" + os.sep + "inspection.py",
              "stores" + os.sep + "memory.py", "stores" + os.sep + "base.py", "stores" + os.sep + "sqlalchemy.py", "stores" + os.sep + "redis.py", "stores" + os.sep + "file.py", "locks.py",
              "executors" + os.sep + "base.py", "executors" + os.sep + "debug.py"))


def step(state, o):
    """state: None or (name, trigger, paused)."""
    op, arg, res = o["op"], o["arg"], o["res"]
    if op == "add":
        return (res == "ok") == (state is None), ((arg, arg, False) if state is None else state)
    if op == "replace":
        return res == "ok", (arg, arg, False)
    if op == "read":
        return res == state, state
    if op == "clear":
        return True, None
    if (res == "ok") != (state is not None):
        return False, state
    if state is None:
        return True, None
    n, t, p = state
    return True, {"name": (arg, t, p), "reschedule": (n, arg, False), "both": (arg, arg, p), "pause": (n, t, True), "resume": (n, t, False), "run": (n, t, False), "delete": None}[op]


class Loop(threading.Thread):
    """The scheduler's thread."""

    def __init__(self, make, tracer):
        super().__init__(daemon=True)
        self.make, self.tracer = make, tracer
        self.up, self.error, self.s = threading.Event(), None, None

    def run(self):
        async def main():
            self.stop = asyncio.Event()
            self.loop = asyncio.get_running_loop()
            self.s = self.make()
            x = self.s.start()
            if asyncio.iscoroutine(x):
                await x
            sys.settrace(self.tracer)
            self.up.set()
            await self.stop.wait()
            sys.settrace(None)
            x = self.s.shutdown(False)
            if asyncio.iscoroutine(x):
                await x
        try:
            asyncio.run(main())
        except BaseException as exc:
            self.error = exc
            self.up.set()


def scenario(case):
    from asyncz.events.constants import TASK_ADDED, TASK_MODIFIED, TASK_REMOVED, TASK_SUBMITTED
    from asyncz.exceptions import ConflictIdError, TaskLookupError
    from asyncz.executors.debug import DebugExecutor
    from asyncz.schedulers import AsyncIOScheduler, NativeAsyncIOScheduler
    from asyncz.triggers import IntervalTrigger

    r = case.rng
    kind = r.choice(["memory"] * 5 + ["file", "file", "sqlite", "sqlite", "redis"])
    b = Backend(case.ctx, kind)
    ids = ["a", "b", "c"][: r.choice([1, 2, 2, 3])]
    busy = {i for i in ids if r.random() < 0.5}
    n = r.randint(2, 4)
    counter = [0]
    lock = threading.Lock()

    def nv():
        counter[0] += 1
        return counter[0]

    mixes = [dict(add=3, replace=1, name=3, reschedule=2, both=1, pause=2, resume=2, delete=2, get=3, list=2, run=1, listen=1), dict(add=5, delete=5, list=3, get=2), dict(name=4, reschedule=4, both=3, get=4, list=4, add=1),
             dict(pause=4, resume=3, name=3, get=4, run=2, add=1), dict(replace=3, delete=3, get=3, list=3, run=2, name=2), dict(add=4, delete=2, clear=1, list=3)]
    mix = r.choice(mixes)
    scripts = [[(op, r.choice(ids), nv()) for op in r.choices(list(mix), list(mix.values()), k=r.randint(5, 11))] for _ in range(n)]
    intensity = r.choice([0.005, 0.03, 0.1])
    case.describe(kind=kind, ids=ids, busy=sorted(busy), scripts=scripts, intensity=intensity)
    case.count("kind:" + kind)
    slow = [0]
    pauses = r.choice([[0, 0, 0.0001, 0.0005, 0.002], [0], [0, 0.001, 0.005, 0.015]])

    def tracer_for(seed):
        rnd = random.Random(seed)

        def local(frame, ev, arg):
            if rnd.random() < intensity:
                slow[0] += 1
                time.sleep(rnd.choice(pauses))
            return local
        return lambda frame, ev, arg: local if frame.f_code.co_filename.endswith(FILES) else None

    # busy tasks fire every 20 milliseconds, the others never during the case; the length of the interval tells the version
    def trig(tid, v):
        if tid in busy:
            return IntervalTrigger(seconds=0.02 + v * 1e-6, timezone="UTC")
        return IntervalTrigger(weeks=100, seconds=v, timezone="UTC")

    def seen(info):
        if info is None:
            return None
        t = info.trigger_description[len("interval["):-1]
        return int(info.name[1:]), trig_v.get(t, t), info.next_run_time is None

    trig_v = {}
    for v in range(counter[0] + 10):
        for tid in ids:
            trig_v[str(trig(tid, v))[len("interval["):-1]] = v

    events, logged = [], []

    class H(logging.Handler):
        def emit(self, rec):
            if rec.levelno >= logging.ERROR:
                logged.append(rec.getMessage() + (" " + repr(rec.exc_info[1]) if rec.exc_info else ""))

    h = H()
    lg = logging.getLogger("asyncz")
    lg.addHandler(h)

    def make():
        cls = r.choice([AsyncIOScheduler, NativeAsyncIOScheduler])
        s = cls(stores={"default": b.store()}, executors={"default": DebugExecutor()}, timezone="UTC")
        s.add_listener(lambda e: events.append((e.code, getattr(e, "task_id", None))))
        return s

    clock.off()
    lp = Loop(make, tracer_for(f"{case.index}:loop"))
    recs = []
    init = {}
    stuck = False
    sw = sys.getswitchinterval()
    try:
        lp.start()
        lp.up.wait(60)
        if lp.error:
            raise lp.error
        s = lp.s

        def put(tid, v, replace=False):
            s.add_task(fns9.plain, trig(tid, v), id=tid, name=f"v{v}", args=(v,), mistrigger_grace_time=None, coalesce=True, max_instances=9, replace_existing=replace)

        for tid in ids:
            if r.random() < 0.6:
                init[tid] = nv()
                for x in ids:
                    trig_v[str(trig(x, init[tid]))[len("interval["):-1]] = init[tid]
                put(tid, init[tid])
        sys.setswitchinterval(1e-5)

        def listen(i, v, out):
            """Own listener on an own task: nothing before, everything between, nothing after."""
            got = []
            tid = f"own{i}"
            f = lambda e: got.append(e.code) if getattr(e, "task_id", None) == tid else None  # noqa: E731
            s.add_task(fns9.plain, trig("-", v), id=tid, args=(1,), name="v0")
            s.add_listener(f)
            s.update_task(tid, name=f"v{v}")
            s.update_task(tid, max_instances=3)
            s.remove_listener(f)
            s.delete_task(tid)
            if got != [TASK_MODIFIED, TASK_MODIFIED]:
                return f"ERROR a listener present during two updates saw {got}"
            return "ok"

        def client(i):
            sys.settrace(tracer_for(f"{case.index}:{i}"))
            try:
                for op, tid, v in scripts[i]:
                    rec = dict(op=op, id=tid, arg=v, start=time.monotonic_ns())
                    try:
                        res = "ok"
                        if op == "add":
                            put(tid, v)
                        elif op == "replace":
                            put(tid, v, True)
                        elif op == "name":
                            s.update_task(tid, name=f"v{v}")
                        elif op == "both":
                            s.update_task(tid, name=f"v{v}", trigger=trig(tid, v))
                        elif op == "reschedule":
                            s.reschedule_task(tid, trigger=trig(tid, v))
                        elif op == "pause":
                            s.pause_task(tid)
                        elif op == "resume":
                            s.resume_task(tid)
                        elif op == "run":
                            s.run_task(tid)
                        elif op == "delete":
                            s.delete_task(tid)
                        elif op == "clear":
                            s.remove_all_tasks(None)
                        elif op == "get":
                            res = seen(s.get_task_info(tid))
                        elif op == "list":
                            res = [(x.id, seen(x)) for x in s.get_task_infos()]
                        else:
                            res = listen(i, v, rec)
                    except (ConflictIdError, TaskLookupError) as exc:
                        res = type(exc).__name__
                    except Exception as exc:
                        import traceback
                        res = "ERROR " + repr(exc) + " " + " < ".join(f"{f.name}:{f.lineno}" for f in reversed(traceback.extract_tb(exc.__traceback__)[-4:]))
                    rec.update(res=res, end=time.monotonic_ns())
                    with lock:
                        recs.append(rec)
            finally:
                sys.settrace(None)

        ths = [threading.Thread(target=client, args=(i,), daemon=True) for i in range(n)]
        for t in ths:
            t.start()
        for t in ths:
            t.join(200)
            if t.is_alive():
                stuck = True
        if stuck:
            frames = sys._current_frames()
            where = [" < ".join(f"{os.path.basename(f.f_code.co_filename)}:{f.f_lineno}" for f in _walk(frames[t.ident])) for t in [*ths, lp] if t.ident in frames]
            case.fail(f"calls do not come back: {where}", key="stuck")
        now = time.monotonic_ns()
        s.pause()
        final = {x.id: seen(x) for x in s.get_task_infos()}
        sys.setswitchinterval(sw)
    finally:
        sys.setswitchinterval(sw)
        lg.removeHandler(h)
        if not stuck and lp.error is None and lp.s is not None:
            lp.loop.call_soon_threadsafe(lp.stop.set)
            lp.join(100)
            if lp.is_alive():
                case.fail("the scheduler's thread does not end", key="stuck")
        b.close()
    if lp.error:
        raise lp.error
    case.count("delays", slow[0])
    case.check(not logged, f"errors were logged: {logged[:3]}")
    for x in recs:
        case.check(not str(x["res"]).startswith("ERROR"), f"{x['op']} of {x['id']} failed: {x['res']}")
    case.count("processed", sum(1 for c, _ in events if c == TASK_SUBMITTED))
    case.count("listener_rounds", sum(1 for x in recs if x["op"] == "listen"))
    for tid in ids:
        ops = []
        for x in recs:
            if x["op"] == "list":
                got = [v for i, v in x["res"] if i == tid]
                case.check(len(got) <= 1, f"a listing shows {tid} twice: {x['res']}")
                ops.append(dict(op="read", arg=None, res=got[0] if got else None, start=x["start"], end=x["end"]))
            elif x["op"] == "clear":
                ops.append(dict(op="clear", arg=None, res=None, start=x["start"], end=x["end"]))
            elif x["id"] == tid and x["op"] != "listen":
                ops.append(dict(op="read" if x["op"] == "get" else x["op"], arg=x["arg"], res=x["res"], start=x["start"], end=x["end"]))
        case.count("reads", sum(o["op"] == "read" for o in ops))
        if tid in busy:
            case.count("busy_pauses", sum(o["op"] == "pause" for o in ops))
        for k in ("add", "delete"):
            xs = [o for o in ops if o["op"] == k]
            case.count(f"contended_{k}s", sum(1 for i, p in enumerate(xs) for q in xs[:i] if p["start"] < q["end"] and q["start"] < p["end"]))
        # events agree with the calls that worked
        done = lambda *k: sum(1 for o in ops if o["op"] in k and o["res"] == "ok")  # noqa: E731
        for code, want in ((TASK_ADDED, done("add", "replace") + (tid in init)), (TASK_REMOVED, done("delete")), (TASK_MODIFIED, done("name", "both", "reschedule", "pause", "resume"))):
            case.eq(sum(1 for c, i in events if (c, i) == (code, tid)), want, f"events {code} of {tid}")
            case.count("events_matched", want)
        ops.append(dict(op="read", arg=None, res=final.get(tid), start=now, end=now + 1))
        k = overlaps(ops)
        case.count("overlapping_pairs", k)
        st = (init[tid], init[tid], False) if tid in init else None
        try:
            ok = linearizable(ops, st, step)
        except Budget:
            case.count("undecided")
            continue
        t0 = min(o["start"] for o in ops)
        case.check(ok, f"{tid} ({kind}{', busy' if tid in busy else ''}): no order of the calls explains their results; initially {st}: "
                   + str([(o["op"], o["arg"], o["res"], (o["start"] - t0) // 1000, (o["end"] - t0) // 1000) for o in sorted(ops, key=lambda o: o["start"])]))
        case.count("histories")
        case.log.append([(o["op"], o["res"]) for o in sorted(ops, key=lambda o: o["start"])])


def _walk(f):
    while f is not None:
        yield f
        f = f.f_back


def run(ctx):
    ctx.cases("threads", scenario, quick=400, thorough=6000)
