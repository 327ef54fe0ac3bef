"""C04: one faithful outcome event per submitted fire time; a raising function harms nothing else."""
import asyncio
import os
import random
import threading
from datetime import timedelta

from rv import fns, gen
from rv.core import Violation
from rv.world import Blocked, Ledger, run_world, us

RULE = ("part sim: random task sets in virtual time on the asyncio and debug executors (plain and coroutine functions, several stores sharing ids, two "
        "schedulers in one loop) with planned values, exceptions of many kinds, lateness; each submitted fire time must get exactly one outcome event "
        "agreeing with what the monitor recorded inside the function, and fire times must keep their schedule; parts threads/procs: real pools; "
        "non-trivial when an exception or missed run occurred; distinct by configuration and outcome sequence")
ASSUMPTIONS = ["functions end by returning or by an ordinary exception (not SystemExit, KeyboardInterrupt or cancellation)",
               "on process pools values and exceptions can be pickled both ways"]
REQUIRE = {"executed": 5000, "errors": 2500, "missed": 500, "values_identical": 5000, "exceptions_identical": 2500, "odd_exceptions": 500,
           "two_schedulers": 100, "batches": 300, "thread_outcomes": 800, "proc_outcomes": 100, "same_id_two_stores": 100}


class Awkward(Exception):
    def __str__(self):
        raise RuntimeError("no text")

    __repr__ = __str__


class TwoArgs(Exception):
    def __init__(self, a, b):
        super().__init__(a)
        self.b = b


class NoBool:
    def __bool__(self):
        raise RuntimeError("ambiguous")

    def __eq__(self, o):
        raise RuntimeError("not comparable")

    __hash__ = None


def make_exc(rr):
    k = rr.randrange(9)
    if k == 0:
        return StopIteration(3)
    if k == 1:
        return Awkward("x")
    if k == 2:
        return TwoArgs(1, 2)
    if k == 3:
        e = KeyError("k")
        e.__cause__ = ValueError("cause")
        return e
    if k == 4:
        return ExceptionGroup("g", [ValueError(1), TypeError(2)])
    if k == 5:
        return TimeoutError("slow")
    if k == 6:
        return StopAsyncIteration()
    if k == 7:
        return OSError(2, "no such thing")
    return fns.TaskBoom(rr.random())


def make_ret(rr):
    return rr.choice([None, False, 0, "", [], {}, object(), float("nan"), NoBool(), ValueError("returned"), (1, 2), b"x"])


def sim_case(case):
    r = case.rng
    blocked = Blocked()

    async def main(w):
        from asyncz.events import TaskExecutionEvent
        from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MAX_INSTANCES, TASK_MISSED, TASK_SUBMITTED
        from asyncz.executors.asyncio import AsyncIOExecutor
        from asyncz.executors.debug import DebugExecutor
        from asyncz.triggers import IntervalTrigger

        sim = w.sim
        plain_stall = sim.stall

        def stall(sec):
            a = sim.us
            plain_stall(sec)
            blocked.add(a, sim.us)

        sim.stall = stall
        n_sched = 2 if r.random() < 0.25 else 1
        case.count("two_schedulers", n_sched == 2)
        worlds = []
        errs = []
        conf = {}

        def plan(key, n):
            rr = random.Random(f"{case.index}:{key}:{n}")
            cf = conf[key]
            out = {"ret": make_ret(rr)}
            if cf["how"] == "dur" and rr.random() < 0.5:
                out["dur"] = rr.choice([0.1, 1, 4.5])
            if cf["how"] == "stall" and rr.random() < 0.3 and sum(b - a for a, b in blocked.iv) < 200e6:
                out["stall"] = rr.choice([0.5, 2, 8])
            if rr.random() < cf["bad"]:
                out["raise_"] = make_exc(rr)
                case.count("odd_exceptions", not isinstance(out["raise_"], fns.TaskBoom))
            return out

        sim.plan = plan
        case.describe(n=n_sched, tasks={})
        for k in range(n_sched):
            kinds = {"default": r.choice(["memory", "memory", "file", "sqlite"])}
            if r.random() < 0.5:
                kinds["b"] = r.choice(["memory", "memory", "file"])
            for a in list(kinds):
                if a in w.backends:
                    w.backends[f"old-{a}"] = w.backends.pop(a)
            s = w.scheduler(stores=w.stores(kinds), executors={"default": AsyncIOExecutor(), "debug": DebugExecutor()},
                            **({"identity": f"me-{k}"} if r.random() < 0.7 else {}))
            evs, leds = [], {}

            def on(ev, s=s, evs=evs, leds=leds, k=k):
                try:
                    if ev.code in (TASK_SUBMITTED, TASK_MAX_INSTANCES):
                        key = f"{k}/{ev.store}/{ev.task_id}"
                        case.check(ev.code == TASK_SUBMITTED, "refused below the limit")
                        leds[key].event(sim.us, ev, "submitted")
                        evs.append(("s", key, [us(x) for x in ev.scheduled_run_times], sim.next_seq()))
                        case.check(ev.scheduler_identity == s.identity, "submission names another scheduler")
                    elif ev.code in (TASK_EXECUTED, TASK_ERROR, TASK_MISSED):
                        key = f"{k}/{ev.store}/{ev.task_id}"
                        evs.append(("o", key, ev, sim.next_seq()))
                        case.check(key in conf, f"outcome for unknown task {ev.task_id} in store {ev.store}")
                        case.check(isinstance(ev, TaskExecutionEvent), "outcome event type")
                        case.eq(ev.scheduler_identity, s.identity, "outcome event: scheduler")
                except BaseException as exc:
                    errs.append(exc)

            s.add_listener(on)
            await w.start(s)
            worlds.append((s, evs, leds, kinds))
        for k, (s, evs, leds, kinds) in enumerate(worlds):
            for i in range(r.randint(1, 3)):
                for store in (kinds if r.random() < 0.4 else [r.choice(list(kinds))]):
                    tid = f"t{i}"
                    key = f"{k}/{store}/{tid}"
                    sync = r.random() < 0.5
                    ex = r.choice(["default", "debug"]) if sync else "default"
                    how = r.choice(["stall", "sync"]) if sync else r.choice(["dur", "none"])
                    kw = dict(coalesce=r.random() < 0.3, max_instances=10000, mistrigger_grace_time=r.choice([None, 1, 3, 60]), executor=ex, store=store)
                    sec = r.choice([1, 2, 5])
                    now = sim.now()
                    trig = IntervalTrigger(seconds=sec, start_at=now + timedelta(seconds=1), timezone=w.tz,
                                           **({"end_at": now + timedelta(seconds=30)} if r.random() < 0.3 else {}))
                    conf[key] = dict(kw, how=how, bad=r.choice([0, 0.3, 0.9]))
                    leds[key] = Ledger(case, tid, trig, trig.get_next_trigger_time(w.tz, None, now), w.tz, kw["coalesce"], us(now), blocked)
                    case.desc["tasks"][key] = f"{sec}s {how} {conf[key]['bad']} {kw}"
                    if r.random() < 0.15:
                        kw["next_run_time"] = now - timedelta(seconds=r.choice([2, 7]))
                        leds[key].next = kw["next_run_time"]
                    s.add_task(fns.work if sync else fns.awork, trig, args=[key], id=tid, **kw)
                    if store != "default" and f"{k}/default/{tid}" in conf:
                        case.count("same_id_two_stores")
        await sim.settle(10)
        for _ in range(r.randint(1, 4)):
            if r.random() < 0.6:
                stall(r.choice([0.7, 3.5, 12]))
            await asyncio.sleep(r.choice([3, 10, 17]))
            if errs:
                raise errs[0]
        for s, evs, leds, kinds in worlds:
            s.pause()
        stop_at = sim.us
        sim.plan = lambda key, n: {}
        await asyncio.sleep(200)
        if errs:
            raise errs[0]
        for s, evs, leds, kinds in worlds:
            for key, led in leds.items():
                led.finish(stop_at)
                judge(case, key, conf[key], [e for e in evs if e[1] == key], [c for c in sim.calls if c["key"] == key], (TASK_EXECUTED, TASK_ERROR, TASK_MISSED))
        for s, *_ in worlds:
            await w.stop(s)
        case.check(not sim.loop_errors, f"error in the event loop: {sim.loop_errors[:2]}")
        if not any(x[1] != TASK_EXECUTED for x in case.log):
            case.trivial = True

    run_world(case, main)


def judge(case, key, cf, evs, calls, codes):
    EXE, ERR, MISS = codes
    subs = [e for e in evs if e[0] == "s"]
    outs = [e[2] for e in evs if e[0] == "o"]
    fires = sorted(f for e in subs for f in e[2])
    case.count("batches", sum(len(e[2]) > 1 for e in subs))
    case.eq(sorted(us(o.scheduled_run_time) for o in outs), fires, f"{key}: fire times with an outcome versus submitted ones")
    # outcomes of one submission are reported oldest first and calls happen in that order; match each call by its recorded outcome
    by_fire = {us(o.scheduled_run_time): o for o in outs}
    order = [f for e in subs for f in e[2]]
    ran = [f for f in order if by_fire[f].code != MISS]
    case.eq(len(calls), len(ran), f"{key}: calls of the function versus outcomes executed or error")
    pool = list(calls)
    for f in order:
        o = by_fire[f]
        case.log.append((key, o.code))
        if o.code == MISS:
            case.count("missed")
            case.check(cf["mistrigger_grace_time"] is not None, f"{key}: missed without a grace time")
            case.check(o.exception is None and o.return_value is None, f"{key}: a missed run carries {o.exception!r} {o.return_value!r}")
            continue
        if o.code == EXE:
            case.count("executed")
            case.check(o.exception is None and o.traceback is None, f"{key}: an executed run carries an exception")
            hit = [c for c in pool if c["outcome"][0] == "return" and c["outcome"][1] is o.return_value]
            case.check(bool(hit), f"{key}: outcome of {f} carries {type(o.return_value)}, which no call returned")
            case.count("values_identical")
        else:
            case.count("errors")
            exc = o.exception
            hit = [c for c in pool if c["outcome"][0] == "raise" and (c["outcome"][1] is exc or (isinstance(c["outcome"][1], (StopIteration, StopAsyncIteration)) and isinstance(exc, RuntimeError) and exc.__cause__ is c["outcome"][1]))]
            case.check(bool(hit), f"{key}: outcome of {f} carries {type(exc)}, which no call raised")
            case.count("exceptions_identical")
            case.check(o.return_value is None, f"{key}: a failed run carries a value")
            case.check(isinstance(o.traceback, str) and ("in _leave" in o.traceback or isinstance(exc, RuntimeError) and "in awork" in o.traceback), f"{key}: the traceback does not lead to the raising line: {o.traceback!r}")
        # calls and fire times pair up in order unless submissions overlap
        c = hit[0]
        if cf["how"] in ("stall", "sync"):
            case.check(any(c is pool[0] for c in hit), f"{key}: outcome of fire time {f} carries the result of a later call")
            c = pool[0]
        case.check(c["at"] + 2000 >= f, f"{key}: outcome of fire time {f} carries the result of an earlier call (at {c['at']})")
        pool.remove(c)
    case.check(not pool, f"{key}: {len(pool)} calls without an outcome")


# ------------------------------------------------------------------ real pools
def pool_fn(kind, n, how, token):
    """how: value or exception by name."""
    if how == "boom":
        raise fns.TaskBoom(token)
    if how == "key":
        raise KeyError(token)
    if how == "stop":
        raise StopIteration(token)
    if how == "os":
        raise OSError(n, token)
    return (token, n)


def pool_case(kind):
    def fn(case):
        r = case.rng

        async def main(w):
            from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MISSED
            from asyncz.executors.pool import ThreadPoolExecutor
            from asyncz.executors.process_pool import ProcessPoolExecutor

            n = r.choice([1, 2, 4])
            ex = ThreadPoolExecutor(n) if kind == "thread" else ProcessPoolExecutor(n)
            s = w.scheduler(native=False, executors={"default": ex}, event_loop=w.sim.loop, identity="pooled")
            cv = threading.Condition()
            got, subs = [], {}

            def on(ev):
                with cv:
                    got.append(ev)
                    cv.notify_all()

            s.add_listener(on, TASK_EXECUTED | TASK_ERROR | TASK_MISSED)
            s.start()
            want = {}
            total = 0
            case.describe(workers=n)
            for i in range(r.randint(3, 14)):
                tid = f"p{i}"
                how = r.choice(["value", "boom", "key", "stop", "os"])
                grace = r.choice([None, None, 1])
                late = r.choice([0, 3, 8])
                s.add_task(pool_fn, "interval", seconds=2, args=[kind, i, how, f"tok-{i}"], id=tid, mistrigger_grace_time=grace,
                           coalesce=r.random() < 0.5, max_instances=50, next_run_time=w.sim.now() - timedelta(seconds=late))
                want[tid] = (how, grace, late)
            # the wake-up hands everything over; the loop stays blocked while pool threads work
            from asyncz.events.constants import TASK_SUBMITTED

            s.add_listener(lambda ev: subs.setdefault(ev.task_id, []).extend(us(x) for x in ev.scheduled_run_times), TASK_SUBMITTED)
            await w.sim.settle(5)
            s.pause()
            now = w.sim.us
            total = sum(len(v) for v in subs.values())
            with cv:
                if not cv.wait_for(lambda: len(got) >= total, 120):
                    case.fail(f"only {len(got)} of {total} submitted fire times were reported")
            await w.stop(s, wait=True)
            case.check(set(subs) == set(want), "not every due task was submitted")
            by = {}
            for ev in got:
                by.setdefault(ev.task_id, []).append(ev)
            for tid, (how, grace, late) in want.items():
                case.eq(sorted(us(e.scheduled_run_time) for e in by.get(tid, [])), sorted(subs[tid]), f"{tid}: fire times with an outcome")
                for e in by[tid]:
                    case.count(f"{kind}_outcomes")
                    case.log.append((tid, e.code))
                    case.eq((e.store, e.scheduler_identity), ("default", "pooled"), f"{tid}: store and scheduler of the outcome")
                    i = int(tid[1:])
                    if grace is not None and now - us(e.scheduled_run_time) > grace * 1e6:
                        case.eq(e.code, TASK_MISSED, f"{tid}: outcome of a run {late} s late with grace {grace}")
                        continue
                    if how == "value":
                        case.eq((e.code, e.return_value, e.exception, e.traceback), (TASK_EXECUTED, (f"tok-{i}", i), None, None), f"{tid}: outcome")
                    else:
                        case.eq(e.code, TASK_ERROR, f"{tid}: outcome of a raising function")
                        t = {"boom": fns.TaskBoom, "key": KeyError, "stop": StopIteration, "os": OSError}[how]
                        case.check(type(e.exception) in (t, FileNotFoundError, PermissionError, ProcessLookupError, InterruptedError) or isinstance(e.exception, t), f"{tid}: exception {e.exception!r}, raised {how}")
                        case.check(e.exception.args[-1] == f"tok-{i}", f"{tid}: exception {e.exception!r} is not its own")
                        case.check(isinstance(e.traceback, str) and "pool_fn" in e.traceback, f"{tid}: traceback {e.traceback!r}")
            if all(h[0] == "value" for h in want.values()):
                case.trivial = True

        run_world(case, main)

    return fn


def run(ctx):
    ctx.cases("sim", sim_case, quick=1200, thorough=25000)
    ctx.cases("threads", pool_case("thread"), quick=160, thorough=2000)
    ctx.cases("procs", pool_case("proc"), quick=32, thorough=300)
