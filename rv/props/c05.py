"""C05: listeners get exactly the events their mask selects, once, in registration order, and do no harm."""
import asyncio
import threading
from datetime import timedelta

from rv import fns
from rv.world import run_world

RULE = ("part model: random sequences of adding, removing and dispatching with listeners that raise anything, add, remove, dispatch again or call the "
        "scheduler, every delivery checked online against a registration list; part live: a real scheduler worked on in virtual time, each masked "
        "listener's record must equal the filter of an unmasked one's and the operations' documented events must appear, with hostile listeners "
        "present; part threads: concurrent registration and dispatch, each delivery counted; non-trivial when several listeners were involved")
ASSUMPTIONS = ["masks are integers made of event codes"]
REQUIRE = {"deliveries": 30000, "withheld": 20000, "raising": 1000, "base_raising": 300, "self_removed": 500, "added_inside": 500, "nested": 500,
           "removed": 1000, "not_removed": 200, "live_events": 3000, "live_ops": 1500, "thread_deliveries": 5000, "called_back": 500}

CODES = [1 << i for i in range(17)]


def event_for(r, code):
    from asyncz.events import TaskExecutionEvent, TaskSubmissionEvent
    from asyncz.events.base import SchedulerEvent, TaskEvent
    from asyncz.events import constants as C

    if code in (C.TASK_EXECUTED, C.TASK_ERROR, C.TASK_MISSED):
        return TaskExecutionEvent(code=code, task_id="t", store="s", scheduled_run_time=r.random())
    if code in (C.TASK_SUBMITTED, C.TASK_MAX_INSTANCES):
        return TaskSubmissionEvent(code=code, task_id="t", store="s", scheduled_run_times=[])
    if code >= C.TASK_ADDED:
        return TaskEvent(code=code, task_id="t", store="s")
    return SchedulerEvent(code=code, alias="a")


def mask(r):
    from asyncz.events.constants import ALL_EVENTS

    k = r.random()
    if k < 0.3:
        return ALL_EVENTS
    if k < 0.5:
        return r.choice(CODES)
    if k < 0.55:
        return 0
    m = 0
    for c in r.sample(CODES, r.randint(1, 10)):
        m |= c
    return m


def model_case(case):
    r = case.rng
    from asyncz.schedulers import AsyncIOScheduler

    s = AsyncIOScheduler(identity="me") if r.random() < 0.8 else AsyncIOScheduler()
    if r.random() < 0.3:
        s.add_task(fns.work, "interval", seconds=3, args=["x"], id="x")
    reg = []  # model: (listener, mask)
    expect = []  # stack of pending deliveries: each [event, [listeners left]]
    errs = []
    ops = [0]

    class L:
        def __init__(self, n):
            self.n = n
            self.how = r.choice(["ok", "ok", "raise", "base", "selfremove", "remove", "add", "nest", "call"])
            self.eq = None

        def __call__(self, ev):
            try:
                self.got(ev)
            except BaseException as exc:
                errs.append(exc)
                return
            ops[0] += 1
            if self.how == "raise":
                case.count("raising")
                raise r.choice([ValueError("x"), fns.TaskBoom(), StopIteration(), asyncio.CancelledError()])
            if self.how == "base":
                case.count("base_raising")
                raise r.choice([KeyboardInterrupt(), SystemExit(3), GeneratorExit()])
            if self.how == "selfremove":
                rem(self)
                case.count("self_removed")
            elif self.how == "remove" and reg:
                rem(r.choice(reg)[0])
            elif self.how == "add" and len(reg) < 12:
                add()
                case.count("added_inside")
            elif self.how == "nest" and len(expect) < 4 and ops[0] < 600:
                dispatch()
                case.count("nested")
            elif self.how == "call" and len(expect) < 3:
                s.get_tasks()
                s.get_task_infos()
                case.count("called_back")

        def got(self, ev):
            case.count("deliveries")
            case.check(bool(expect), f"listener {self.n} was called outside a dispatch")
            top = expect[-1]
            case.check(ev is top[0], f"listener {self.n} got another event than the one dispatched")
            case.check(bool(top[1]), f"listener {self.n} was called although no one was left to call")
            want = top[1].pop(0)
            case.check(want is self, f"listener {self.n} was called, listener {want.n} was next in order")

    def add():
        l = r.choice(reg)[0] if reg and r.random() < 0.15 else L(len(reg) + 100 * ops[0])
        m = mask(r)
        reg.append((l, m))
        s.add_listener(l, m) if r.random() < 0.7 or m != (1 << 17) - 1 else s.add_listener(l)

    def rem(l):
        idx = [i for i, (x, _) in enumerate(reg) if x is l]
        got = s.remove_listener(l)
        case.eq(got, bool(idx), "remove_listener's answer")
        if idx:
            del reg[idx[0]]
            case.count("removed")
        else:
            case.count("not_removed")

    def dispatch():
        code = r.choice(CODES)
        ev = event_for(r, code)
        want = [l for l, m in reg if m & code]
        case.count("withheld", len(reg) - len(want))
        expect.append([ev, list(want)])
        s.dispatch_event(ev)
        top = expect.pop()
        case.check(not top[1], f"listeners {[l.n for l in top[1]]} were not given an event of code {code}")
        if hasattr(ev, "scheduler_identity"):
            case.eq(ev.scheduler_identity, s.identity, "identity on the event")
        case.log.append((code, len(want)))

    for _ in range(r.randint(5, 40)):
        k = r.random()
        if k < 0.3 and len(reg) < 12:
            add()
        elif k < 0.42 and reg:
            rem(r.choice(reg)[0])
        elif k < 0.45:
            rem(L(-1))
        else:
            dispatch()
        if errs:
            raise errs[0]
    if not any(n > 1 for _, n in case.log):
        case.trivial = True


def live_case(case):
    r = case.rng

    async def main(w):
        from asyncz.events import constants as C
        from asyncz.executors.debug import DebugExecutor

        sim = w.sim
        kind = r.choice(["memory", "memory", "file", "sqlite"])
        s = w.scheduler(stores=w.stores({"default": kind}), executors={"debug": DebugExecutor()})
        allev, lists, errs = [], [], []
        s.add_listener(lambda ev: allev.append(ev))
        for _ in range(r.randint(1, 5)):
            m, rec = mask(r), []
            how = r.choice(["ok", "raise", "base", "callback"])

            def cb(ev, rec=rec, how=how):
                rec.append(ev)
                if how == "raise":
                    raise ValueError("bad listener")
                if how == "base":
                    raise SystemExit(2)
                if how == "callback":
                    s.get_tasks()
                    s.get_task("t0")

            s.add_listener(cb, m)
            lists.append((m, rec, len(allev)))

        def seen(what, since, code, **attrs):
            case.count("live_ops")
            evs = [e for e in allev[since:] if e.code == code and all(getattr(e, k, None) == v for k, v in attrs.items())]
            case.check(len(evs) == 1, f"{what}: {len(evs)} events of code {code} with {attrs}, expected one; got {allev[since:]}")

        def none(what, since, code):
            case.check(not [e for e in allev[since:] if e.code == code], f"{what} announced code {code}")

        n = len(allev)
        await w.start(s)
        seen("start", n, C.SCHEDULER_START)
        ids = []
        extra = set()
        for i in range(r.randint(4, 14)):
            n = len(allev)
            op = r.choice(["add", "add", "delete", "pause", "resume", "update", "reschedule", "sched_pause", "run", "wait", "store", "executor", "clear", "unknown"])
            case.log.append(op)
            if op == "add":
                tid = f"t{i}"
                s.add_task(fns.work, "interval", seconds=r.choice([5, 60]), args=[tid], id=tid, executor="debug")
                ids.append(tid)
                seen("add_task", n, C.TASK_ADDED, task_id=tid)
            elif op in ("delete", "pause", "resume", "update", "reschedule", "run") and ids:
                tid = r.choice(ids)
                if op == "delete":
                    s.delete_task(tid)
                    ids.remove(tid)
                    seen(op, n, C.TASK_REMOVED, task_id=tid, store="default")
                elif op == "run":
                    s.run_task(tid)
                    seen(op, n, C.TASK_SUBMITTED, task_id=tid, store="default", source="manual")
                    seen(op, n, C.TASK_EXECUTED, task_id=tid, store="default")
                else:
                    {"pause": s.pause_task, "resume": s.resume_task, "update": lambda t: s.update_task(t, name="n"),
                     "reschedule": lambda t: s.reschedule_task(t, trigger="interval", seconds=30)}[op](tid)
                    seen(op, n, C.TASK_MODIFIED, task_id=tid, store="default")
            elif op == "sched_pause":
                s.pause()
                s.pause()
                seen("pause", n, C.SCHEDULER_PAUSED)
                n = len(allev)
                s.resume()
                s.resume()
                seen("resume", n, C.SCHEDULER_RESUMED)
            elif op == "wait":
                await asyncio.sleep(r.choice([1, 7, 61]))
            elif op == "store":
                from asyncz.stores.memory import MemoryStore

                a = f"s{i}"
                s.add_store(MemoryStore(), a)
                seen("add_store", n, C.STORE_ADDED, alias=a)
                n = len(allev)
                s.remove_store(a)
                seen("remove_store", n, C.STORE_REMOVED, alias=a)
            elif op == "executor":
                a = f"e{i}"
                s.add_executor(DebugExecutor(), a)
                seen("add_executor", n, C.EXECUTOR_ADDED, alias=a)
                n = len(allev)
                s.remove_executor(a)
                seen("remove_executor", n, C.EXECUTOR_REMOVED, alias=a)
            elif op == "clear":
                if r.random() < 0.3:
                    s.remove_all_tasks(None)
                    ids.clear()
                    seen("remove_all_tasks", n, C.ALL_TASKS_REMOVED)
            elif op == "unknown":
                from asyncz.exceptions import TaskLookupError

                for f in (s.delete_task, s.pause_task, s.resume_task, s.run_task):
                    try:
                        f("nobody")
                        case.fail("an unknown task was accepted")
                    except TaskLookupError:
                        pass
                case.check(len(allev) == n, f"calls for an unknown task announced {allev[n:]}")
        n = len(allev)
        await sim.settle(10)
        await w.stop(s)
        seen("shutdown", n, C.SCHEDULER_SHUTDOWN)
        for m, rec, start in lists:
            want = [e for e in allev[start:] if e.code & m]
            case.check(len(want) == len(rec) and all(a is b for a, b in zip(want, rec)), f"mask {m}: got {[e.code for e in rec][:40]}, expected {[e.code for e in want][:40]}")
            case.count("live_events", len(rec))
        for e in allev:
            if hasattr(e, "task_id"):
                case.eq(e.scheduler_identity, s.identity, "identity")
        case.check(not sim.loop_errors, f"error in the event loop: {sim.loop_errors[:2]}")

    run_world(case, main)


def thread_case(case):
    """Dispatch from several threads while listeners come and go."""
    import sys

    from asyncz.events import constants as C
    from asyncz.schedulers import AsyncIOScheduler

    r = case.rng
    s = AsyncIOScheduler()
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        steady = [([], r.choice([C.ALL_EVENTS, C.TASK_ADDED, C.TASK_REMOVED])) for _ in range(3)]
        for rec, m in steady:
            s.add_listener(rec.append, m)
        nd, ne = r.randint(2, 3), r.randint(30, 80)
        dispatched = [[] for _ in range(nd)]
        errs = []

        def disp(k):
            import random

            rr = random.Random(f"{case.index}{k}")
            try:
                for i in range(ne):
                    ev = event_for(rr, rr.choice([C.TASK_ADDED, C.TASK_REMOVED, C.SCHEDULER_PAUSED]))
                    dispatched[k].append(ev)
                    s.dispatch_event(ev)
            except BaseException as exc:
                errs.append(exc)

        def churn():
            try:
                for i in range(100):
                    mine = []
                    cb = mine.append
                    s.add_listener(cb)
                    case_ok = s.remove_listener(cb)
                    if not case_ok:
                        errs.append(AssertionError("a registered listener was not found"))
            except BaseException as exc:
                errs.append(exc)

        ts = [threading.Thread(target=disp, args=(k,)) for k in range(nd)] + [threading.Thread(target=churn) for _ in range(2)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        case.check(not errs, f"{errs[:2]}")
        every = [e for d in dispatched for e in d]
        for rec, m in steady:
            want = [e for e in every if e.code & m]
            case.eq(sorted(map(id, rec)), sorted(map(id, want)), f"deliveries to a listener with mask {m}: {len(rec)} of {len(want)}")
            case.count("thread_deliveries", len(rec))
            for d in dispatched:
                mine = [id(e) for e in d if e.code & m]
                case.eq([id(e) for e in rec if id(e) in set(mine)], mine, "order of one thread's events")
        case.log.append((nd, ne, [m for _, m in steady]))
    finally:
        sys.setswitchinterval(old)


def run(ctx):
    ctx.cases("model", model_case, quick=12000, thorough=200000)
    ctx.cases("live", live_case, quick=2000, thorough=10000)
    ctx.cases("threads", thread_case, quick=240, thorough=1500)
