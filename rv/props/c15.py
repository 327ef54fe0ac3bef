"""C15: shutdown runs shutdown tasks exactly once and leaves persistent tasks alone."""
import asyncio
import threading
import time
from datetime import timedelta

from rv import fns
from rv.world import run_world

RULE = ("a case runs a real scheduler in virtual time through 1-4 nested lives on 1-3 stores of any kind with shutdown tasks of all sorts - plain, coroutine, long, "
        "raising, updated, deleted, left behind by a scheduler that died - beside ordinary tasks; every call is accounted, and the raw records of all other "
        "tasks are compared byte by byte around the stop; further parts stop schedulers with busy thread and process pools and schedulers owning their event loop "
        "thread; non-trivial when at least one shutdown task was due to run; distinct by tasks and calls")
ASSUMPTIONS = ["an AsyncIOScheduler stops when its event loop handles the call, and coroutines run on that loop afterwards", "MongoDB stand-in",
               "pool executors with their default settings (no cancel_futures)"]
REQUIRE = {"shutdown_tasks": 3000, "kind:sync": 800, "kind:async": 800, "raising": 500, "store:memory": 500, "store:file": 300, "store:sqlite": 300, "store:mongo": 100,
           "store:redis": 40, "left_behind": 150, "kept_records": 1500, "deleted_before": 80, "updated_before": 80, "pool_runs": 150, "pool_busy": 40, "owned_loop_tasks": 60,
           "due_after_stop": 1000, "nested_stops": 300}
EXCS = [RuntimeError("boom"), ValueError("no"), SystemExit(3), KeyboardInterrupt(), StopIteration(), StopAsyncIteration(), asyncio.CancelledError(), GeneratorExit()]


def scenario(case):
    r = case.rng
    specs = {}  # key -> behaviour
    errs = []

    async def main(w):
        from asyncz.events.constants import SCHEDULER_SHUTDOWN, TASK_MAX_INSTANCES, TASK_SUBMITTED
        from asyncz.triggers import IntervalTrigger, ShutdownTrigger

        sim = w.sim
        kinds = {"default": r.choice(["memory", "memory", "file", "sqlite", "mongo"])}
        for a in ("b", "c")[: r.choice([0, 1, 1, 2])]:
            kinds[a] = r.choice(["memory", "file", "sqlite", "redis" if a == "b" else "mongo"])
        for a in kinds:
            w.backend(a, kinds[a])
        lives = r.randint(1, 4)
        case.describe(kinds=kinds, base=str(sim.now()), lives=[])
        want = {}  # (store, id) -> (fn kind, key, args, kwargs): shutdown tasks not yet run
        done = []  # keys that had their one call
        state = {"on": False}
        n = {"id": 0}

        def plan(key, i):
            return specs.get(key, {})

        sim.plan = plan

        def listener(ev):
            if not state["on"]:
                errs.append(f"{ev.task_id} was handed over after the shutdown: {ev.scheduled_run_times}")

        def new():
            s = w.scheduler(stores=w.stores(kinds))
            s.add_listener(listener, TASK_SUBMITTED | TASK_MAX_INSTANCES)
            return s

        def add(s, log):
            n["id"] += 1
            key = f"s{n['id']}"
            store = r.choice(list(kinds))
            how = r.choice(["work", "awork", "meth", "work2", "awork2"])
            args, kwargs = [key, *[r.randrange(100) for _ in range(r.randint(0, 2))]], {"k": r.random()} if r.random() < 0.4 else {}
            fn = fns.Holder.cmeth if how == "meth" else getattr(fns, how)
            spec = specs[key] = {}
            if r.random() < 0.35:
                spec["raise_"] = r.choice(EXCS)
                if how.startswith("a") and isinstance(spec["raise_"], (StopIteration, GeneratorExit)):
                    spec["raise_"] = RuntimeError("boom")
                case.count("raising")
            if r.random() < 0.2:
                spec["stall"] = r.choice([0.5, 3])
            if how.startswith("a") and r.random() < 0.6:
                spec["dur"] = r.choice([0, 0.2, 4, 30])
            opts = {}
            if r.random() < 0.3:
                opts["executor"] = "nowhere"
            if r.random() < 0.2:
                opts["max_instances"] = 1
            if r.random() < 0.2:
                opts["next_run_time"] = None
            if store != "default" or r.random() < 0.5:
                opts["store"] = store
            trig = r.choice(["shutdown", ShutdownTrigger()])
            s.add_task(fn, trig, args=args, kwargs=kwargs, id=key, **opts)
            pre = {"work": (), "awork": (), "work2": ("work2",), "awork2": ("awork2",), "meth": ("cmeth",)}[how]
            if how == "awork2":
                pre = ("work2",)
            want[(store, key)] = (how, key, (*pre, *args[1:]), kwargs)
            log.append((how, store, {k: repr(v) for k, v in spec.items()}))

        def ordinary(s, log):
            n["id"] += 1
            tid = f"o{n['id']}"
            store = r.choice(list(kinds))
            nrt = {"next_run_time": None} if r.random() < 0.15 else {}
            trig = IntervalTrigger(seconds=r.choice([1, 2, 3, 7, 30]))
            if r.random() < 0.2:
                s.add_task(r.choice([fns.work, fns.awork]), "date", run_at=sim.now() + timedelta(seconds=r.choice([1, 5, 100])), args=[tid], id=tid, store=store, **nrt)
            else:
                s.add_task(r.choice([fns.work, fns.awork]), trig, args=[tid], id=tid, store=store, coalesce=True, mistrigger_grace_time=None, max_instances=5, **nrt)
            log.append(("ordinary", store))

        def account(what):
            """Calls of shutdown tasks so far are exactly those expected."""
            got = [c["key"] for c in sim.calls if c["key"].startswith("s")]
            case.eq(sorted(got), sorted(done), f"{what}: calls of shutdown tasks")
            if errs:
                case.fail(f"{what}: {errs[0]}")
            v = getattr(sim, "violation", None)
            if v:
                raise v

        s = new()
        for life in range(lives):
            log = []
            case.desc["lives"].append(log)
            for _ in range(r.randint(0, 3)):
                add(s, log)
            for _ in range(r.randint(0, 2)):
                ordinary(s, log)
            state["on"] = True
            nest = r.choice([1, 1, 2, 3])
            for _ in range(nest):
                await w.start(s)
            for _ in range(r.randint(0, 3)):
                add(s, log)
            for _ in range(r.randint(0, 4)):
                ordinary(s, log)
            if r.random() < 0.3:
                s.pause()
                log.append("paused")
            await asyncio.sleep(r.choice([0, 0.5, 2, 10]))
            mine = [k for k in want if k not in ()]
            for k in mine:
                if r.random() < 0.12:
                    s.delete_task(k[1], r.choice([None, k[0]]))
                    del want[k]
                    case.count("deleted_before")
                elif r.random() < 0.12:
                    how, key, a, kw = want[k]
                    s.update_task(k[1], k[0], kwargs={"new": life}, name="renamed")
                    want[k] = (how, key, a, {"new": life})
                    case.count("updated_before")
            await sim.settle()
            account("before the stop")
            if life < lives - 1 and r.random() < 0.3:
                # the scheduler dies: only its persistent tasks live on
                s.pause()
                await sim.settle()
                await asyncio.sleep(1)
                for k in list(want):
                    if kinds[k[0]] == "memory":
                        del want[k]
                    else:
                        case.count("left_behind")
                account("after the death")
                s = new()
                log.append("died")
                continue
            for _ in range(nest - 1):
                await w.stop(s, r.random() < 0.5)
                case.count("nested_stops")
                account("after a nested stop")
            await sim.settle()
            before = {a: w.backends[a].records() for a in kinds if kinds[a] != "memory"}
            for k in want:
                case.count("shutdown_tasks")
                case.count("store:" + kinds[k[0]])
                case.count("kind:async" if want[k][0].startswith("a") else "kind:sync")
                if kinds[k[0]] != "memory":
                    case.check(k[1] in before[k[0]], f"shutdown task {k} is not in its store before the stop")
            ncalls = len(sim.calls)
            x = s.shutdown(r.random() < 0.5)
            if asyncio.iscoroutine(x):
                await x
                state["on"] = False
                for c in sim.calls:
                    case.check(c["outcome"] is not None or not c["key"].startswith("s"), f"the coroutine of {c['key']} is still running when the awaited shutdown returns")
            else:
                await sim.settle(20)
                state["on"] = False
            after = {a: w.backends[a].records() for a in before}
            await asyncio.sleep(200)
            await sim.settle()
            for a in before:
                exp = {k: v for k, v in before[a].items() if (a, k) not in want}
                case.eq(sorted(after[a]), sorted(exp), f"tasks in the {kinds[a]} store after the shutdown")
                for k in exp:
                    case.check(after[a][k] == exp[k], f"{k} in the {kinds[a]} store changed during the shutdown")
                    case.count("kept_records")
                late = w.backends[a].records()
                case.check(late == after[a], f"the {kinds[a]} store changed after the shutdown")
                case.count("due_after_stop", len(exp))
            calls = {c["key"]: c for c in sim.calls[ncalls:] if c["key"].startswith("s")}
            done.extend(v[1] for v in want.values())
            account("after the stop")
            for (store, key), (how, _, a, kw) in want.items():
                c = calls[key]
                case.eq((c["args"], c["kwargs"]), (a, kw), f"arguments of shutdown task {key}")
                case.check(c["end"] is not None or c["outcome"] is not None or specs[key].get("raise_") is not None, f"{key} did not finish")
                case.check(c["outcome"] is not None, f"{key} ({how}, {specs[key]}) was cut off")
            want.clear()
            if any(c["key"].startswith("o") for c in sim.calls[ncalls:]) and any(c["at"] > calls_at(sim, ncalls) for c in sim.calls[ncalls:] if c["key"].startswith("o")):
                case.fail("an ordinary task function was called long after the stop")
            if r.random() < 0.4:
                s = new()
        case.desc["calls"] = sorted(done)
        if not done:
            case.trivial = True

    def calls_at(sim, n):
        # everything submitted before the stop may run in the same instant plus the stalls of the shutdown tasks
        return sim.calls[n]["at"] + 120 * 10**6

    run_world(case, main)


def pools(case):
    """A waiting shutdown returns after what runs in the pools has finished and was reported."""
    r = case.rng

    async def main(w):
        from asyncz.events.constants import SCHEDULER_SHUTDOWN, TASK_ERROR, TASK_EXECUTED, TASK_MISSED, TASK_SUBMITTED
        from asyncz.executors.pool import ThreadPoolExecutor
        from asyncz.executors.process_pool import ProcessPoolExecutor

        sim = w.sim
        native = r.random() < 0.5
        cfg, kinds = {}, {}
        for a in ("default", "x")[: r.randint(1, 2)]:
            kinds[a] = r.choice(["thread", "thread", "process"])
            cfg[a] = ThreadPoolExecutor(r.randint(1, 3)) if kinds[a] == "thread" else ProcessPoolExecutor(r.randint(1, 2))
        kw = {} if native else {"event_loop": sim.loop}
        s = w.scheduler(native=native, executors=cfg, **kw)
        cond, seen, at_stop = threading.Condition(), [], []

        def cb(ev):
            with cond:
                if ev.code == SCHEDULER_SHUTDOWN:
                    at_stop.append(len(seen))
                elif ev.code == TASK_SUBMITTED:
                    sent.append(ev.task_id)
                else:
                    seen.append(ev.task_id)

        sent = []
        s.add_listener(cb, TASK_EXECUTED | TASK_ERROR | TASK_MISSED | TASK_SUBMITTED | SCHEDULER_SHUTDOWN)
        x = s.start()
        if asyncio.iscoroutine(x):
            await x
        k = r.randint(2, 8)
        case.describe(kinds=kinds, native=native, runs=k)
        ended = []

        def slow(i, d):
            time.sleep(d)
            ended.append(i)

        ran, shutdowns = [], r.randint(0, 2)
        for i in range(k):
            a = r.choice(list(cfg))
            d = r.choice([0, 0.005, 0.02, 0.06])
            if kinds[a] == "thread":
                s.add_task(slow, "date", args=[i, d], id=f"t{i}", executor=a, mistrigger_grace_time=None)
            else:
                s.add_task(fns.nap, "date", args=[d], id=f"t{i}", executor=a, mistrigger_grace_time=None)
            ran.append((i, kinds[a]))
        state = {}
        for j in range(shutdowns):
            s.add_task(lambda: state.setdefault("outcomes", len(seen)), "shutdown", id=f"sd{j}")
        await sim.settle(10)
        case.eq(len(sent), k, "handed over")
        with cond:
            busy = k - len(seen)
        if busy:
            case.count("pool_busy")
        else:
            case.trivial = True
        x = s.shutdown(True)
        if asyncio.iscoroutine(x):
            await x
        else:
            await sim.settle(10)
        with cond:
            got = sorted(seen)
            case.eq(got, sorted(f"t{i}" for i in range(k)), "outcomes reported when the waiting shutdown returned")
            case.eq(at_stop, [k], "outcomes reported when the shutdown was announced")
        case.eq(sorted(ended), [i for i, kd in ran if kd == "thread"], "functions finished when the waiting shutdown returned")
        if shutdowns:
            case.eq(state.get("outcomes"), k, "outcomes reported when the shutdown tasks ran")
        case.count("pool_runs", k)

    run_world(case, main)


def owned(case):
    """A scheduler with its own event loop thread finishes its shutdown tasks before the thread ends."""
    from asyncz.events.constants import SCHEDULER_SHUTDOWN, TASK_SUBMITTED
    from asyncz.schedulers import AsyncIOScheduler, NativeAsyncIOScheduler

    r = case.rng
    native = r.random() < 0.3
    k = r.randint(1, 6)
    calls, ends = [], []
    after = []
    plans = [(r.choice(["sync", "async"]), r.randint(0, 4), r.random() < 0.3) for _ in range(k)]
    case.describe(native=native, plans=plans)

    def plain(i):
        calls.append(i)
        ends.append(i)
        if plans[i][2]:
            raise RuntimeError("boom")

    async def coro(i):
        calls.append(i)
        for _ in range(plans[i][1]):
            await asyncio.sleep(r.choice([0, 0.002]))
        ends.append(i)
        if plans[i][2]:
            raise RuntimeError("boom")

    s = (NativeAsyncIOScheduler if native else AsyncIOScheduler)(isolated_event_loop=True)
    stopped = threading.Event()

    def cb(ev):
        if ev.code == SCHEDULER_SHUTDOWN:
            stopped.set()
        elif stopped.is_set():
            after.append(ev.task_id)

    s.add_listener(cb, SCHEDULER_SHUTDOWN | TASK_SUBMITTED)
    for i, p in enumerate(plans):
        s.add_task(plain if p[0] == "sync" else coro, "shutdown", args=[i], id=f"s{i}")
    s.add_task(lambda: None, "interval", seconds=0.002, id="tick", coalesce=True)
    if native:
        async def main():
            await s.start()
            await asyncio.sleep(0.01)
            case.eq(calls, [], "calls before the shutdown")
            thread = s.event_loop_thread
            try:
                await asyncio.wait_for(s.shutdown(r.random() < 0.5), 60)
            except asyncio.TimeoutError:
                case.fail("the shutdown of an isolated native scheduler does not return", "isolated-shutdown-hangs")
            return thread

        thread = asyncio.run(main())
    else:
        s.start()
        time.sleep(0.01)
        case.eq(calls, [], "calls before the shutdown")
        thread = s.event_loop_thread
        s.shutdown(r.random() < 0.5)
    thread.join(30)
    case.check(not thread.is_alive() and stopped.is_set(), "the scheduler does not stop")
    time.sleep(0.01)
    case.eq(sorted(calls), list(range(k)), "calls of shutdown tasks")
    case.eq(sorted(ends), list(range(k)), f"shutdown tasks that finished {plans}")
    case.eq(after, [], "handed over after the shutdown")
    case.count("owned_loop_tasks", k)


def run(ctx):
    ctx.cases("sim", scenario, quick=700, thorough=9000)
    ctx.cases("pools", pools, quick=64, thorough=600)
    ctx.cases("owned", owned, quick=48, thorough=400)
