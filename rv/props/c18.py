"""C18: faults of stores, executors, locks and listeners stay local and heal."""
import datetime as D
import fcntl
import os
import threading
from datetime import timedelta

from rv import fns, gen
from rv.world import TOL, Blocked, Ledger, run_world, us

RULE = ("a case runs a scheduler in virtual time over two or three stores and executors while faults are injected: store operations raising before or after "
        "their effect (in windows of time or at chosen calls), executors refusing, missing executors, store locks held elsewhere or not openable, raising listeners; "
        "every fire time of unaffected tasks must be handed over on time, faulty stores must be tried again within the retry interval, and after a fault "
        "every task must be back on its schedule; non-trivial when a fault was injected during processing; distinct by faults and hand-overs")
ASSUMPTIONS = ["a fault is an ordinary exception raised by the store or executor", "fire times of tasks of a failing store may be repeated or late until the fault is gone",
               "fire times refused by an executor are skipped", "MongoDB stand-in"]
REQUIRE = {"handed": 5000, "faults_in_processing": 1500, "retries_seen": 1000, "recovered_tasks": 150, "recovered_handed": 800, "executor_faults": 200, "missing_executor": 40,
           "lock_faults": 40, "api_faults": 60, "listener_faults": 300, "thread_probes": 100}
OPS = ["get_due_tasks", "get_next_run_time", "update_task", "delete_task", "lookup_task", "add_task", "get_all_tasks"]


class Injected(Exception):
    pass


def faulty(cls, world):
    class Faulty(cls):
        pass

    def wrap(op):
        real = getattr(cls, op)

        def call(self, *a, **k):
            ctl = self.ctl
            ctl.calls[op] = ctl.calls.get(op, 0) + 1
            if op == "get_due_tasks":
                ctl.tried(ctl.sim.us)
            mode = ctl.fault(op)
            if mode == "before":
                raise ctl.exc(f"injected: {op}")
            x = real(self, *a, **k)
            if mode == "after":
                raise ctl.exc(f"injected after {op}")
            return x

        call.__name__ = op
        return call

    for op in OPS:
        setattr(Faulty, op, wrap(op))
    return Faulty


class Control:
    """When and how one store fails, and what was seen of its processing."""

    def __init__(self, case, sim, retry):
        self.case, self.sim, self.retry = case, sim, retry
        self.windows = []  # (from us, to us, ops, mode, probability)
        self.calls = {}
        self.open = None  # a fault during processing not yet followed by another try
        self.api = False
        self.faults = 0
        self.exc = Injected
        self.off = False
        self.rnd = __import__("random").Random(case.rng.random())

    def fault(self, op):
        if self.off:
            return None
        now = self.sim.us
        for a, b, ops, mode, p in self.windows:
            if a <= now < b and op in ops and self.rnd.random() < p:
                self.faults += 1
                if self.api:
                    self.case.count("api_faults")
                else:
                    self.case.count("faults_in_processing")
                    self.case.count("fault:" + op)
                    if self.open is None:
                        self.open = now
                return mode
        return None

    lock = None  # (from, to): its lock cannot be had

    def limit(self):
        t = self.open + self.retry * 10**6
        if self.lock and self.lock[0] <= t and self.open <= self.lock[1]:
            t = max(t, self.lock[1] + self.retry * 10**6)
        return t + TOL

    def tried(self, now):
        if self.open is not None:
            if now > self.limit():
                self.errs.append((now - self.open, self.open))
            self.case.count("retries_seen")
            self.open = None

    def overdue(self, now):
        return self.open is not None and now > self.limit()


def scenario(case):
    r = case.rng
    blocked = Blocked()

    async def main(w):
        import asyncio

        from asyncz.events.constants import ALL_EVENTS, TASK_ADDED, TASK_MAX_INSTANCES, TASK_REMOVED, TASK_SUBMITTED
        from asyncz.executors.asyncio import AsyncIOExecutor

        sim = w.sim
        retry = r.choice([1, 5, 10, 10, 60])
        kinds = {"good": r.choice(["memory", "memory", "file", "sqlite"]), "bad": r.choice(["file", "sqlite", "redis", "mongo", "memory"])}
        if r.random() < 0.4:
            kinds["bad2"] = r.choice(["file", "sqlite", "mongo"])
        names = list(kinds)
        r.shuffle(names)
        use_lock = r.random() < 0.2
        lockdir = case.ctx.tmpdir("locks")
        stores, ctls = {}, {}
        for a in names:
            st = w.backend(a, kinds[a]).store()
            if a != "good":
                st.__class__ = faulty(type(st), w)
                st.ctl = ctls[a] = Control(case, sim, retry)
                st.ctl.errs = []
                st.ctl.exc = r.choice([Injected, OSError, RuntimeError, KeyError])
            stores[a] = st
        case.describe(zone=str(w.tz), base=str(sim.now()), kinds=kinds, order=names, retry=retry, lock=use_lock, tasks={}, faults=[])

        exec_bad = {"on": [], "log": []}
        ledgers, errs, missing, spied = {}, [], {}, []
        submitted_bad = []

        class Spy(AsyncIOExecutor):
            def do_send_task(self, task, run_times):
                if self.flaky:
                    spied.append((task.id, list(run_times)))
                    led = ledgers[task.id]
                    if led.kind == "exec":
                        class Ev:
                            scheduled_run_times = list(run_times)
                            coalesced_run_count = 0
                        led.event(sim.us, Ev, "sent")
                    for a, b in exec_bad["on"]:
                        if a <= sim.us < b:
                            case.count("executor_faults")
                            exec_bad["log"].append((task.id, sim.us))
                            raise RuntimeError("executor does not accept")
                return super().do_send_task(task, run_times)

        ex, ex2 = Spy(), Spy()
        ex.flaky, ex2.flaky = False, True
        s = w.scheduler(stores=stores, executors={"default": ex, "flaky": ex2}, store_retry_interval=retry,
                        **({"lock_path": os.path.join(lockdir, "l-{store}")} if use_lock else {}))

        def on_event(ev):
            try:
                if ev.code in (TASK_SUBMITTED, TASK_MAX_INSTANCES):
                    tid = ev.task_id
                    case.check(tid not in missing, f"{tid}: submitted though its executor does not exist")
                    led = ledgers[tid]
                    if led.kind == "plain":
                        led.event(sim.us, ev, "submitted")
                        case.count("handed")
                    elif led.kind == "exec":
                        case.check((tid, sim.us) not in exec_bad["log"], f"{tid}: announced as submitted though the executor refused it")
                    elif led.kind == "bad" and led.live:
                        led.event(sim.us, ev, "submitted")
                        case.count("recovered_handed")
                elif ev.code == TASK_REMOVED and ev.task_id in missing:
                    missing[ev.task_id] = sim.us
            except BaseException as exc:
                errs.append(exc)

        def raising(ev):
            case.count("listener_faults")
            raise r.choice([RuntimeError, KeyError, Injected])("listener")

        order = r.random() < 0.5
        if order:
            s.add_listener(raising, ALL_EVENTS)
        s.add_listener(on_event)
        if not order:
            s.add_listener(raising, ALL_EVENTS)
        await w.start(s)

        def add(tid, store, executor="default", kind="plain"):
            for _ in range(20):
                trig, desc = gen.trigger(r, w.tz, sim.now(), 1, 0, pure=True)
                first = trig.get_next_trigger_time(w.tz, None, sim.now())
                if first is not None and (kind != "bad" or trig.get_next_trigger_time(w.tz, sim.now() + timedelta(seconds=4000), sim.now() + timedelta(seconds=4000))):
                    break
            else:
                return
            if kind == "missing":
                missing[tid] = None
            co = False if kind == "exec" else r.random() < 0.5
            case.desc["tasks"][tid] = f"{desc} {store} {executor} {co}"
            led = ledgers[tid] = Ledger(case, tid, trig, first, w.tz, co, sim.us, blocked)
            led.kind, led.store, led.live = kind, store, False
            s.add_task(r.choice([fns.work, fns.awork]), trig, args=[tid], id=tid, store=store, coalesce=co, mistrigger_grace_time=None, max_instances=100, executor=executor)
            led.next = s.get_task(tid, store).next_run_time

        for i in range(r.randint(1, 3)):
            add(f"g{i}", "good")
        for a in ctls:
            for i in range(r.randint(1, 3)):
                add(f"{a}{i}", a, kind="bad")
        if r.random() < 0.5:
            add("f0", "good", "flaky", "exec")
        for i in range(r.choice([0, 0, 1])):
            add(f"m{i}", "good", "nowhere", "missing")

        t0 = sim.us
        end_faults = t0
        for a, c in ctls.items():
            for _ in range(r.randint(1, 2)):
                x = t0 + r.randint(0, 300) * 10**6
                y = x + r.choice([1, 10, 60, 300]) * 10**6
                ops = r.sample(OPS, r.randint(1, 3)) if r.random() < 0.8 else OPS
                if kinds[a] == "memory":
                    ops = [o for o in ops if o in ("get_due_tasks", "get_next_run_time")] or ["get_next_run_time"]
                mode = r.choice(["before", "before", "after"])
                if kinds[a] == "memory":
                    mode = "before"
                c.windows.append((x, y, ops, mode, r.choice([1, 1, 0.5])))
                case.desc["faults"].append((a, (x - t0) / 1e6, (y - t0) / 1e6, ops, mode))
                end_faults = max(end_faults, y)
        for _ in range(r.randint(0, 2)):
            x = t0 + r.randint(0, 300) * 10**6
            exec_bad["on"].append((x, x + r.choice([1, 30, 200]) * 10**6))
        lockfault = None
        if use_lock:
            x = t0 + r.randint(0, 200) * 10**6
            y = x + r.choice([5, 60, 200]) * 10**6
            lockfault = (x, y, r.choice(["held", "held", "no file"]))
            for a, c in ctls.items():
                if lockfault[2] == "no file" or a == "bad":
                    c.lock = lockfault[:2]
            case.desc["faults"].append(("lock", (x - t0) / 1e6, (y - t0) / 1e6, lockfault[2]))
            end_faults = max(end_faults, y)
        held = None
        lock_ctl = "bad"

        def raise_pending():
            if errs:
                raise errs[0]
            for a, c in ctls.items():
                case.check(not c.errs, f"store {a} ({kinds[a]}) failed during processing and was tried again only after {c.errs and c.errs[0][0] / 1e6} s, the retry interval is {retry} s")
                case.check(not c.overdue(sim.us), f"store {a} ({kinds[a]}) failed during processing at {c.open and (c.open - t0) / 1e6} s and has not been tried again {(sim.us - (c.open or 0)) / 1e6} s later (retry interval {retry} s)")

        def thread_probe():
            out = []

            def go():
                try:
                    out.append(s.get_task("g0", "good"))
                except Exception as exc:
                    out.append(exc)

            t = threading.Thread(target=go, daemon=True)
            t.start()
            t.join(60)
            case.check(bool(out), "a call from another thread does not come back: a lock is still held")
            case.count("thread_probes")

        points = sorted([("api", t0 + r.randint(0, max(1, (end_faults - t0) // 10**6)) * 10**6 + 500000) for _ in range(r.randint(0, 5))] +
                        [("probe", t0 + r.randint(0, 400) * 10**6) for _ in range(3)] +
                        ([("lock", lockfault[0]), ("unlock", lockfault[1])] if lockfault else []) + [("end", end_faults)], key=lambda x: x[1])
        if lockfault and lockfault[2] == "no file":
            # every store of the scheduler is affected while the directory of the lock files is away
            blocked.add(lockfault[0], lockfault[1] + retry * 10**6)
        for what, at in points:
            await sim.sleep_until(at)
            raise_pending()
            if what == "lock":
                case.count("lock_faults")
                if lockfault[2] == "held":
                    held = open(os.path.join(lockdir, f"l-{lock_ctl}"), "w+")
                    fcntl.flock(held, fcntl.LOCK_EX | fcntl.LOCK_NB)
                else:
                    os.rename(lockdir, lockdir + ".away")
            elif what == "unlock":
                if held:
                    held.close()
                elif lockfault[2] == "no file":
                    os.rename(lockdir + ".away", lockdir)
            elif what == "api":
                a = r.choice(list(ctls))
                tid = r.choice([t for t, l in ledgers.items() if l.store == a] or ["none"])
                ctls[a].api = True
                try:
                    k = r.choice(["get", "list", "wake", "addbad"])
                    if k == "get":
                        s.get_task(tid, a)
                    elif k == "list":
                        s.get_tasks(a)
                    elif k == "addbad":
                        x = s.add_task(fns.work, "date", run_at=sim.now() + timedelta(days=900), args=["z"], id=f"z{at}", store=a)
                        s.delete_task(f"z{at}", a)
                    elif k == "wake":
                        ctls[a].api = False
                        s.wakeup()
                except ctls[a].exc as exc:
                    case.check("injected" in str(exc), f"unexpected {exc!r} from a call during a fault")
                except LookupError:
                    pass
                finally:
                    ctls[a].api = False
                thread_probe()
            elif what == "probe":
                await sim.settle(12)
                for tid, led in ledgers.items():
                    if led.kind == "plain" and (led.next is None or us(led.next) > sim.us):
                        t = s.get_task(tid, led.store)
                        case.check((t is None) == (led.next is None), f"{tid}: {t}, expected next run time {led.next}")
        # after the last fault and one retry interval everything is back on schedule
        await sim.sleep_until(end_faults + retry * 10**6 + 10 * TOL)
        await sim.settle(12)
        raise_pending()
        for c in ctls.values():
            c.off = True
        t1 = sim.us
        for tid, led in ledgers.items():
            if led.kind != "bad":
                continue
            t = s.get_task(tid, led.store)
            case.check(t is not None, f"{tid} is gone after the faults of store {led.store}; its trigger goes on")
            n = t.next_run_time
            case.check(n is not None and us(n) > t1 - 3 * TOL, f"{tid}: {(t1 - end_faults) / 1e6} s after the last fault it is still not handed over, next run time {n}, now {sim.now()}")
            led.trigger_ok = n == led.trigger.get_next_trigger_time(w.tz, n - timedelta(microseconds=1), n - timedelta(microseconds=1)) if "interval" not in case.desc["tasks"][tid] else True
            led.next, led.added, led.live = n, t1, True
            case.count("recovered_tasks")
        await asyncio.sleep(r.choice([100, 600]))
        await sim.settle(12)
        raise_pending()
        end = sim.us
        for tid, led in ledgers.items():
            if led.kind != "missing":
                led.finish(end)
            elif led.next is not None and blocked.free(us(led.next)) <= end:
                case.check(s.get_task(tid) is None, f"{tid}: its executor does not exist, it was due at {led.next}, yet it is still stored")
                case.check(not sim.ncalls.get(tid), f"{tid} was called without an executor")
                case.count("missing_executor")
        s.pause()
        await sim.settle(12)
        case.log.append((sorted((t, l.total) for t, l in ledgers.items()), [c.faults for c in ctls.values()]))
        case.check(not sim.loop_errors, f"error in the event loop: {sim.loop_errors[:2]}")
        thread_probe()
        await w.stop(s)
        case.trivial = not any(c.faults for c in ctls.values())

    run_world(case, main)


def run(ctx):
    ctx.cases("scenario", scenario, quick=700, thorough=10000)
