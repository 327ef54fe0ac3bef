"""C14: starting, pausing and stopping nest correctly and gate processing."""
import asyncio
import threading
import time
from datetime import timedelta

from rv import fns, gen
from rv.world import TOL, Blocked, Ledger, run_world, us

RULE = ("a case drives a real scheduler in virtual time through 15-60 random starts, stops, pauses, resumes, waits, nested lifespans and task changes - also "
        "while it is stopped - next to a model of the nesting, of the tasks waiting for the start and of every fire time; return values, errors, announced events, "
        "listings and hand-overs are compared as they happen; further parts start and stop from many threads, fail the start, reuse executors after a stop "
        "and restart in new event loops; non-trivial when the scheduler was started and stopped at least twice; distinct by operations and hand-overs")
ASSUMPTIONS = ["the fire times a trigger yields are judged by C11-C13; here the trigger itself is asked", "an AsyncIOScheduler stops when its event loop handles the call",
               "a pass over the stores in progress when the scheduler is paused may finish"]
REQUIRE = {"op:start": 3000, "op:stop": 2500, "op:pause": 800, "op:resume": 800, "op:stop_stopped": 100, "op:pause_stopped": 80, "nested": 800, "restarts": 600,
           "handed": 5000, "gated_s": 5000, "committed": 1500, "pending:listed": 1500, "pending:deleted": 150, "pending:updated": 150, "pending:paused": 60,
           "pending:resumed": 60, "pending:conflict": 60, "pending:replaced": 60, "kept_over_stop": 300, "forgotten_over_stop": 200, "lifespans": 200,
           "thread_calls": 200, "failed_starts": 30, "reused_executors": 20, "new_loops": 10}


class T:
    """A task, waiting for the start or held by a store."""

    def __init__(self, tid, store, trigger, nxt, start, replace, version, obj=None):
        self.tid, self.store, self.trigger, self.replace, self.version = tid, store, trigger, replace, version
        self.next = nxt  # as set before the start
        self.start = start  # whether the start schedules it
        self.obj = obj
        self.led = None


def scenario(case):
    r = case.rng
    errs = []

    async def main(w):
        from asyncz.events.constants import SCHEDULER_PAUSED, SCHEDULER_RESUMED, SCHEDULER_SHUTDOWN, SCHEDULER_START, ALL_EVENTS, TASK_ADDED, TASK_SUBMITTED
        from asyncz.exceptions import ConflictIdError, SchedulerNotRunningError, TaskLookupError
        from asyncz.triggers import DateTrigger, IntervalTrigger

        NAMES = {SCHEDULER_START: "start", SCHEDULER_SHUTDOWN: "shutdown", SCHEDULER_PAUSED: "paused", SCHEDULER_RESUMED: "resumed"}
        sim, tz = w.sim, w.tz
        kinds = {"default": r.choice(["memory", "memory", "memory", "file", "sqlite"])}
        for a in ("b", "c")[: r.choice([0, 1, 1, 2])]:
            kinds[a] = r.choice(["memory", "file", "sqlite", "redis" if a == "b" else "mongo"])
        native = r.random() < 0.5
        kw = {}
        if kinds["default"] != "memory" or r.random() < 0.5:
            names = list(kinds)
        else:
            names = [a for a in kinds if a != "default"]
        delay = 0
        if r.random() < 0.15:
            delay = r.choice([0, 1, 2.5, 7])
            kw["lock_path"] = case.ctx.tmpdir("lk") + "/{pgrp}.lock"
            kw["startup_delay"] = delay
        s = w.scheduler(native=native, stores=w.stores({a: kinds[a] for a in names}), **kw)
        locked = bool(kw.get("lock_path"))
        case.describe(zone=str(tz), base=str(sim.now()), native=native, kinds=kinds, lock=kw.get("lock_path") and delay, ops=[])
        ops = case.desc["ops"]
        m = {"ref": 0, "state": "stopped", "starts": 0, "loopless": not native and s.event_loop is None}
        pending = []
        held = {}  # tid -> T
        blocked = Blocked()
        blocked.iv.append([0, 1 << 62])
        announced, added = [], []
        count = {"n": 0}

        def gate(open_):
            if open_:
                blocked.iv[-1][1] = sim.us
            elif blocked.iv[-1][1] != 1 << 62:
                if sim.us <= blocked.iv[-1][1] + TOL:
                    blocked.iv[-1][1] = 1 << 62
                else:
                    blocked.iv.append([sim.us, 1 << 62])

        def listener(ev):
            try:
                if ev.code in NAMES:
                    announced.append(NAMES[ev.code])
                elif ev.code == TASK_ADDED:
                    added.append(ev.task_id)
                elif ev.code == TASK_SUBMITTED:
                    case.check(m["state"] == "running", f"fire times of {ev.task_id} were handed over while the scheduler is {m['state']}: {ev.scheduled_run_times}")
                    t = held.get(ev.task_id)
                    case.check(t is not None, f"{ev.task_id} was handed over but is not among the tasks {sorted(held)}")
                    case.check(t.led is not None, f"{ev.task_id} is paused but was handed over")
                    case.eq(ev.store, t.store, f"store of the submission of {ev.task_id}")
                    t.led.event(sim.us, ev, "submitted")
                    case.count("handed")
                    count["n"] += 1
                    if t.led.next is None:
                        del held[ev.task_id]
            except BaseException as e:
                errs.append(e)

        s.add_listener(listener, ALL_EVENTS)

        def plan(key, n):
            return {}

        sim.plan = plan

        def check():
            if errs:
                raise errs[0]
            v = getattr(sim, "violation", None)
            if v:
                raise v

        def ledger(t, nxt):
            t.led = Ledger(case, t.tid, t.trigger, nxt, tz, True, sim.us, blocked) if nxt is not None else None

        def first(t):
            return t.trigger.get_next_trigger_time(tz, None, sim.now().astimezone(tz))

        def listing(what):
            got = s.get_tasks()
            if m["state"] == "stopped":
                case.eq([t.id for t in got], [t.tid for t in pending], f"{what}: tasks waiting for the start")
                for g, t in zip(got, pending):
                    case.eq(g.kwargs.get("v"), t.version, f"{what}: version of waiting task {t.tid}")
                    if t.next is not None or not t.start:
                        case.eq(us(g.next_run_time) if g.next_run_time else None, us(t.next) if t.next else None, f"{what}: next run time of waiting task {t.tid}")
                case.count("pending:listed", len(pending))
                for tid in list(held)[:2]:
                    if not any(p.tid == tid for p in pending):
                        case.check(s.get_task(tid) is None, f"{what}: {tid} is found in a stopped scheduler")
            else:
                case.eq(sorted(t.id for t in got), sorted(held), f"{what}: tasks held")
                for g in got:
                    t = held[g.id]
                    case.eq(g.kwargs.get("v"), t.version, f"{what}: version of {t.tid}")
                    case.eq(g.store_alias, t.store, f"{what}: store of {t.tid}")
                    if t.led is None:
                        case.check(g.next_run_time is None, f"{what}: {t.tid} is paused but is due at {g.next_run_time}")
                    else:
                        case.check(g.next_run_time is not None, f"{what}: {t.tid} is not scheduled, expected {t.led.next}")
                        case.eq(us(g.next_run_time), us(t.led.next), f"{what}: next run time of {t.tid} (trigger {t.trigger})")
            case.eq(s.running, m["state"] != "stopped", f"{what}: running")
            st = {"stopped": "STATE_STOPPED", "running": "STATE_RUNNING", "paused": "STATE_PAUSED"}[m["state"]]
            case.eq(s.state.name if hasattr(s.state, "name") else s.state, st, f"{what}: state")

        def said(expect, what):
            case.eq(announced, expect, f"{what}: announced")
            announced.clear()

        def commit():
            """What the first start does with the waiting tasks."""
            want = []
            now = sim.now().astimezone(tz)
            least = now + timedelta(seconds=delay) if locked else None
            for t in pending:
                nxt = t.next
                if nxt is None and t.start:
                    nxt = first(t)
                if nxt is not None and least is not None and us(nxt) < us(least):
                    nxt = least
                if t.tid in held:
                    if not t.replace:
                        case.count("pending:conflict")
                        continue
                    case.count("pending:replaced")
                held[t.tid] = t
                ledger(t, nxt)
                want.append(t.tid)
                case.count("committed")
            pending.clear()
            return want

        async def op_start(paused=None, via=None):
            paused = r.random() < 0.2 if paused is None else paused
            firststart = m["ref"] == 0
            m["ref"] += 1
            added.clear()
            want = []
            if firststart:
                want = commit()
                m["state"] = "paused" if paused else "running"
                if not paused:
                    gate(True)
                m["starts"] += 1
                if m["starts"] > 1:
                    case.count("restarts")
            else:
                case.count("nested")
            got = await (via() if via else w.start(s, **({"paused": True} if paused else {})))
            if via is None:
                case.eq(got, firststart, "start() returned")
            await sim.settle()
            check()
            said(["start"] if firststart else [], "start()")
            case.eq(added, want, "tasks committed by the start, in order")
            case.count("op:start")

        async def op_stop(via=None):
            last = m["ref"] == 1
            if last:
                m["ref"] = 0
                m["state"] = "stopped"
                gate(False)
                for tid in list(held):
                    if kinds[held[tid].store] == "memory":
                        del held[tid]
                        case.count("forgotten_over_stop")
                    else:
                        case.count("kept_over_stop")
            else:
                m["ref"] -= 1
            got = await (via() if via else w.stop(s, r.random() < 0.5))
            if via is None:
                case.eq(got, last, "shutdown() returned whether the scheduler was terminated", "shutdown-return")
            await sim.settle()
            check()
            said(["shutdown"] if last else [], "shutdown()")
            case.count("op:stop")

        async def op_stop_stopped():
            n = len(sim.loop_errors)
            try:
                await w.stop(s)
            except SchedulerNotRunningError:
                raised = True
            except Exception as e:
                raised = False
                case.fail(f"shutdown() of a stopped scheduler raised {e!r}", "shutdown-of-stopped")
            else:
                raised = any("SchedulerNotRunningError" in e[2] for e in sim.loop_errors[n:])
            case.check(raised, f"shutdown() of a stopped scheduler raised nothing ({sim.loop_errors[n:]})")
            said([], "shutdown() while stopped")
            case.count("op:stop_stopped")

        def expect_not_running(fn, what):
            try:
                fn()
            except SchedulerNotRunningError:
                return
            case.fail(f"{what} on a stopped scheduler raised nothing")

        def add():
            tid = f"t{r.randrange(7)}"
            store = list(kinds)[int(tid[1:]) % len(kinds)]
            now = sim.now().astimezone(tz)
            k = r.random()
            if k < 0.7:
                trig = IntervalTrigger(seconds=r.choice([1, 2, 3, 5, 9, 13.5]), timezone=tz, **({"end_at": now + timedelta(seconds=r.randint(5, 60))} if r.random() < 0.2 else {}))
            else:
                trig = DateTrigger(run_at=now + timedelta(seconds=r.choice([-5, 0, 1, 4, 20])), timezone=tz)
            version = r.randrange(10**6)
            replace = r.random() < 0.35
            args = dict(args=[tid], kwargs={"v": version}, id=tid, store=store, replace_existing=replace, coalesce=True, mistrigger_grace_time=None, max_instances=9)
            start, nxt = True, None
            k = r.random()
            if k < 0.15:
                args["next_run_time"] = None
                start = False
            elif k < 0.25:
                nxt = args["next_run_time"] = now + timedelta(seconds=r.choice([-3, 0, 2, 8]))
            if store == "default" and r.random() < 0.5:
                del args["store"]
            t = T(tid, store, trig, nxt, start, replace, version)
            fn = r.choice([fns.work, fns.awork, "rv.fns:work"])
            ops.append((secs(), "add", tid, store, str(trig), str(nxt), start, replace, m["state"]))
            if m["state"] == "stopped":
                x = s.add_task(fn, trig, **args)
                case.check(x.pending is not False, f"{tid} added before the start is not pending")
                t.obj = x
                pending.append(t)
                return
            if t.tid in held and not replace:
                try:
                    s.add_task(fn, trig, **args)
                except ConflictIdError:
                    return
                case.fail(f"adding {tid} a second time raised nothing")
            if nxt is None and start:
                nxt = first(t)
            held[tid] = t
            ledger(t, nxt)
            s.add_task(fn, trig, **args)

        def change():
            if m["state"] == "stopped" and pending and r.random() < 0.9:
                tid = r.choice(pending).tid
            elif m["state"] != "stopped" and held and r.random() < 0.9:
                tid = r.choice(sorted(held))
            else:
                tid = f"t{r.randrange(9)}"
            kind = r.choice(["delete", "update", "pause", "resume", "reschedule"])
            ops.append((secs(), kind, tid, m["state"]))
            if m["state"] == "stopped":
                t = next((p for p in pending if p.tid == tid), None)
            else:
                t = held.get(tid)
            if t is None:
                f = {"delete": lambda: s.delete_task(tid), "update": lambda: s.update_task(tid, name="n"), "pause": lambda: s.pause_task(tid),
                     "resume": lambda: s.resume_task(tid), "reschedule": lambda: s.reschedule_task(tid, trigger="interval", seconds=3)}[kind]
                try:
                    f()
                except TaskLookupError:
                    return
                case.fail(f"{kind} of the unknown task {tid} raised nothing ({m['state']})")
            waiting = m["state"] == "stopped"
            store = r.choice([None, t.store])
            byobj = waiting and t.obj is not None and r.random() < 0.3 and sum(p.tid == tid for p in pending) == 1
            now = sim.now().astimezone(tz)
            if kind == "delete":
                if waiting:
                    pending.remove(t)
                    case.count("pending:deleted")
                else:
                    del held[tid]
                t.obj.delete() if byobj else s.delete_task(tid, store)
            elif kind == "update":
                t.version = r.randrange(10**6)
                s.update_task(tid, store, kwargs={"v": t.version})
                if waiting:
                    case.count("pending:updated")
            elif kind == "pause":
                if waiting:
                    t.next, t.start = None, False
                    case.count("pending:paused")
                else:
                    t.led = None
                t.obj.pause() if byobj else s.pause_task(tid, store)
            elif kind == "resume":
                nxt = first(t)
                if nxt is None:
                    if waiting:
                        pending.remove(t)
                    else:
                        del held[tid]
                elif waiting:
                    t.next, t.start = nxt, True
                    case.count("pending:resumed")
                else:
                    ledger(t, nxt)
                t.obj.resume() if byobj else s.resume_task(tid, store)
            else:
                trig = IntervalTrigger(seconds=r.choice([2, 4, 7]), timezone=tz)
                t.trigger = trig
                nxt = first(t)
                if waiting:
                    t.next, t.start = nxt, True
                else:
                    ledger(t, nxt)
                s.reschedule_task(tid, store, trig)

        def clear():
            store = r.choice([None, *kinds])
            ops.append((secs(), "clear", store, m["state"]))
            if m["state"] == "stopped":
                pending[:] = [p for p in pending if store is not None and p.store != store]
            else:
                for tid in list(held):
                    if store in (None, held[tid].store):
                        del held[tid]
            s.remove_all_tasks(store)

        def secs():
            return round(sim.vt_us / 1e6, 3)

        async def lifespan():
            """One nested lifespan through the ASGI wrapper or a context manager."""
            how = r.choice(["asgi", "asgi_handled", "context"])
            ops.append((secs(), "lifespan", how))
            case.count("lifespans")
            gate_in, gate_out = asyncio.Event(), asyncio.Event()
            box = {}
            if how == "context":
                async def enter():
                    await s.__aenter__()

                async def leave():
                    await s.__aexit__(None, None, None)
            else:
                queue, sent = asyncio.Queue(), []

                async def receive():
                    return await queue.get()

                async def send(x):
                    sent.append(x["type"])

                async def app(scope, receive, send):
                    while True:
                        msg = await receive()
                        await send({"type": msg["type"] + ".complete"})
                        if msg["type"] == "lifespan.shutdown":
                            return

                if r.random() < 0.5:
                    wrapped = s.asgi(app, handle_lifespan=how == "asgi_handled", wait=r.random() < 0.5)
                else:
                    wrapped = s.asgi(handle_lifespan=how == "asgi_handled", wait=r.random() < 0.5)(app)

                async def enter():
                    box["task"] = asyncio.ensure_future(wrapped({"type": "lifespan", "asgi": {}}, receive, send))
                    queue.put_nowait({"type": "lifespan.startup"})
                    await sim.settle(12)

                async def leave():
                    queue.put_nowait({"type": "lifespan.shutdown"})
                    await box["task"]
                    await sim.settle(12)
                    case.check("lifespan.startup.complete" in sent and "lifespan.shutdown.complete" in sent, f"lifespan answered {sent}")
            await op_start(paused=False, via=enter)
            return leave

        open_spans = []
        for _ in range(r.randint(15, 60)):
            k = r.random()
            if m["state"] == "stopped" and r.random() < 0.5:
                k = r.uniform(0.76, 0.985)
            if k < 0.22:
                d = r.choice([0, 0.3, 1, 2, 5, 11, 30])
                ops.append((secs(), "sleep", d))
                if m["state"] != "running":
                    case.count("gated_s", int(d))
                await asyncio.sleep(d)
                await sim.settle()
                check()
            elif k < 0.37:
                if m["ref"] < 4:
                    ops.append((secs(), "start"))
                    await op_start()
            elif k < 0.55:
                free = m["ref"] - len(open_spans)
                if free > 0:
                    ops.append((secs(), "stop"))
                    await op_stop()
                elif open_spans and r.random() < 0.5:
                    ops.append((secs(), "leave"))
                    await op_stop(via=open_spans.pop())
                elif m["ref"] == 0:
                    if m["starts"] or native:
                        ops.append((secs(), "stop_stopped"))
                        await op_stop_stopped()
            elif k < 0.60:
                if m["ref"] < 4:
                    open_spans.append(await lifespan())
            elif k < 0.68:
                ops.append((secs(), "pause"))
                if m["state"] == "stopped":
                    expect_not_running(s.pause, "pause()")
                    expect_not_running(s.resume, "resume()")
                    said([], "pause() while stopped")
                    case.count("op:pause_stopped")
                else:
                    was = m["state"]
                    m["state"] = "paused"
                    gate(False)
                    s.pause()
                    said(["paused"] if was == "running" else [], "pause()")
                    case.count("op:pause")
            elif k < 0.76:
                if m["state"] != "stopped":
                    ops.append((secs(), "resume"))
                    was = m["state"]
                    m["state"] = "running"
                    gate(True)
                    s.resume()
                    said(["resumed"] if was == "paused" else [], "resume()")
                    case.count("op:resume")
                    await sim.settle()
            elif k < 0.9:
                add()
                await sim.settle()
            elif k < 0.985:
                change()
                await sim.settle()
            else:
                clear()
                await sim.settle()
            check()
            listing(f"after {ops[-1] if ops else '-'}")
            said([], "later")
        # wind up: run, look, stop completely
        if m["ref"] == 0:
            await op_start(paused=False)
        elif m["state"] == "paused":
            m["state"] = "running"
            gate(True)
            s.resume()
            said(["resumed"], "resume()")
        await asyncio.sleep(r.choice([3, 20]))
        await sim.settle()
        check()
        listing("at the end")
        for t in held.values():
            if t.led:
                t.led.finish(sim.us)
        while m["ref"]:
            if open_spans:
                await op_stop(via=open_spans.pop())
            else:
                await op_stop()
        n = len(sim.calls)
        await asyncio.sleep(30)
        check()
        case.eq(len(sim.calls), n, "calls of task functions long after the stop")
        listing("after the stop")
        if m["starts"] < 2:
            case.trivial = True
        ops.append(count["n"])

    run_world(case, main)


def threads(case):
    """Starts and stops from many threads: one start acts, one stop acts, in every round."""
    from asyncz.events.constants import SCHEDULER_SHUTDOWN, SCHEDULER_START
    from asyncz.schedulers import AsyncIOScheduler

    r = case.rng
    s = AsyncIOScheduler(isolated_event_loop=r.random() < 0.3)
    events, cond = [], threading.Condition()

    def cb(ev):
        with cond:
            events.append("start" if ev.code == SCHEDULER_START else "stop")
            cond.notify_all()

    s.add_listener(cb, SCHEDULER_START | SCHEDULER_SHUTDOWN)
    rounds = r.randint(1, 3)
    for k in range(rounds):
        n = r.randint(2, 6)
        out = []
        barrier = threading.Barrier(n)

        def go(fn):
            barrier.wait()
            time.sleep(r.random() * 0.0005)
            try:
                out.append(fn())
            except BaseException as e:
                out.append(repr(e))

        def all_(fn):
            del out[:]
            ts = [threading.Thread(target=go, args=(fn,)) for _ in range(n)]
            [t.start() for t in ts]
            [t.join(20) for t in ts]
            case.check(not any(t.is_alive() for t in ts), "a call from a thread does not return")
            case.count("thread_calls", n)

        case.describe(rounds=rounds, threads=n)
        # the loop is made by the first start; later ones join it
        first = s.start()
        case.eq(first, True, "the first start returned")
        all_(s.start)
        case.eq(sorted(map(str, out)), ["False"] * n, "nested starts returned")
        loop = s.event_loop

        def drain():
            done = threading.Event()
            loop.call_soon_threadsafe(done.set)
            case.check(done.wait(20), "the event loop of the scheduler does not react")

        with cond:
            case.eq(events, ["start", "stop"] * k + ["start"], "announced")
        all_(s.shutdown)
        drain()
        case.eq(s.running, True, "running until stopped as often as started")
        thread = s.event_loop_thread
        s.shutdown()
        with cond:
            ok = cond.wait_for(lambda: len(events) == 2 * k + 2, 20)
        case.check(ok, f"the last stop was not announced: {events}")
        thread.join(20)
        case.check(not thread.is_alive(), "the thread of the scheduler did not end with it")
        case.eq(s.running, False, "running after the last stop")
        case.count("restarts" if k else "started")


class Flaky(Exception):
    pass


def failstart(case):
    """A start that fails leaves the scheduler stopped: it can be started once the cause is gone."""
    r = case.rng

    async def main(w):
        from asyncz.events.constants import SCHEDULER_START, TASK_SUBMITTED
        from asyncz.executors.asyncio import AsyncIOExecutor

        sim = w.sim
        bad = {"on": True}
        where = r.choice(["executor", "store", "task"])
        store = w.backend("default", r.choice(["memory", "file", "sqlite"])).store()

        class E(AsyncIOExecutor):
            def start(self, scheduler, alias):
                if where == "executor" and bad["on"]:
                    raise Flaky("executor")
                super().start(scheduler, alias)

        class S(type(store)):
            def start(self, scheduler, alias):
                if where == "store" and bad["on"]:
                    raise Flaky("store")
                super().start(scheduler, alias)

            def add_task(self, task):
                if where == "task" and bad["on"] and task.id == "two":
                    raise Flaky("task")
                super().add_task(task)

        store.__class__ = S
        s = w.scheduler(stores={"default": store}, executors={"default": E()})
        events = []
        s.add_listener(lambda ev: events.append(ev), SCHEDULER_START | TASK_SUBMITTED)
        for tid in ("one", "two", "three"):
            s.add_task(fns.work, "interval", seconds=5, args=[tid], id=tid, mistrigger_grace_time=None, coalesce=True)
        tries = r.randint(1, 3)
        case.describe(where=where, tries=tries, kind=str(type(store).__mro__[1]))
        for _ in range(tries):
            try:
                await w.start(s)
            except Flaky:
                pass
            else:
                case.fail(f"start() with a failing {where} raised nothing")
            await sim.settle()
            case.eq(s.running, False, "running after a failed start")
            case.eq([e for e in events], [], "events of a failed start")
            case.count("failed_starts")
            await asyncio.sleep(r.random())
        bad["on"] = False
        got = await w.start(s)
        case.eq(got, True, "start() after the cause was removed returned")
        await sim.settle()
        case.eq(sorted(t.id for t in s.get_tasks()), ["one", "three", "two"], "tasks after the start")
        await asyncio.sleep(11)
        await sim.settle()
        for tid in ("one", "two", "three"):
            case.check(sum(1 for e in events if e.code == TASK_SUBMITTED and e.task_id == tid) >= 2, f"{tid} does not run after the start")
        case.eq(await w.stop(s), True, "shutdown() returned", "shutdown-return")
        case.eq(s.running, False, "running after the stop")

    run_world(case, main)


def reuse(case):
    """Executors work again when the scheduler is started again."""
    r = case.rng

    async def main(w):
        from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MISSED
        from asyncz.executors.asyncio import AsyncIOExecutor
        from asyncz.executors.debug import DebugExecutor
        from asyncz.executors.pool import ThreadPoolExecutor
        from asyncz.executors.process_pool import ProcessPoolExecutor

        sim = w.sim
        kind = r.choice(["asyncio", "debug", "thread", "thread", "process"])
        workers = r.randint(1, 3)
        ex = {"asyncio": AsyncIOExecutor, "debug": DebugExecutor, "thread": lambda: ThreadPoolExecutor(workers, pool_kwargs={"thread_name_prefix": "mine"}),
              "process": lambda: ProcessPoolExecutor(workers)}[kind]()
        s = w.scheduler(native=False, executors={"default": ex}, event_loop=sim.loop)
        rounds = r.randint(2, 4)
        cond, seen = threading.Condition(), []

        def cb(ev):
            with cond:
                seen.append((ev.task_id, ev.code, getattr(ev, "return_value", None)))
                cond.notify_all()

        s.add_listener(cb, TASK_EXECUTED | TASK_ERROR | TASK_MISSED)
        case.describe(kind=kind, rounds=rounds, workers=workers)
        for k in range(rounds):
            s.start()
            del seen[:]
            s.add_task(abs, "date", args=[-k], id="t", next_run_time=None)
            s.run_task("t")
            await sim.settle(10)
            if kind in ("thread", "process"):
                with cond:
                    cond.wait_for(lambda: seen, 40)
            case.eq(seen, [("t", TASK_EXECUTED, k)], f"outcomes in round {k} on a {kind} executor")
            await w.stop(s, r.random() < 0.5)
            if k:
                case.count("reused_executors")

    run_world(case, main)


def loops(case):
    """The same scheduler in one event loop after the other."""
    from asyncz.events.constants import TASK_EXECUTED
    from asyncz.schedulers import AsyncIOScheduler, NativeAsyncIOScheduler

    r = case.rng
    cls = r.choice([AsyncIOScheduler, NativeAsyncIOScheduler])
    s = cls()
    case.describe(cls=cls.__name__)
    for k in range(r.randint(2, 4)):
        async def main():
            got = asyncio.Event()
            s.add_listener(lambda ev: got.set(), TASK_EXECUTED)
            s.add_task(abs, "date", args=[-k], id=f"t{k}", mistrigger_grace_time=None)
            x = s.start()
            x = await x if asyncio.iscoroutine(x) else x
            case.eq(x, True, f"start() in event loop {k} returned")
            try:
                await asyncio.wait_for(got.wait(), 20)
            except asyncio.TimeoutError:
                case.fail(f"nothing runs after the start in event loop {k}")
            x = s.shutdown()
            x = await x if asyncio.iscoroutine(x) else x
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            case.eq(s.running, False, "running after the stop")
            if k:
                case.count("new_loops")

        asyncio.run(main())


def run(ctx):
    ctx.cases("life", scenario, quick=1600, thorough=20000)
    ctx.cases("threads", threads, quick=24, thorough=300)
    ctx.cases("failstart", failstart, quick=32, thorough=300)
    ctx.cases("reuse", reuse, quick=32, thorough=240)
    ctx.cases("loops", loops, quick=16, thorough=100)
