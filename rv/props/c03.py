"""C03: never more concurrent instances than allowed, never refused with free capacity."""
import asyncio
import os
import random
import threading
import time
from datetime import timedelta

from rv import fns, gates, gen
from rv.core import Violation
from rv.world import run_world, us

RULE = ("part sim: random task sets on the asyncio, debug and a harness-completed executor in virtual time, with returning, raising, cancelled, missed "
        "and nested runs, runs by hand, failing submissions, deletion and re-adding, restarts; every acceptance and refusal is compared with the "
        "exact number of submissions the slots of which were not yet given back. Parts threads/procs: real pools with gate-controlled functions, "
        "including queued work, killed workers; non-trivial when a refusal or a full task was seen; distinct by configuration and outcome sequence")
ASSUMPTIONS = ["task ids are distinct across stores (slots are counted by id)", "a slot counts as given back when the outcome event is dispatched"]
REQUIRE = {"accepted": 10000, "refused": 2500, "sim_hand": 1000, "sim_hand_refused": 200, "nested": 150, "nested_refused": 50, "manual_success": 1000,
           "manual_error": 500, "cancelled": 100, "missed": 200, "errors": 400, "submit_failures": 100, "thread_refused": 300, "thread_accepted": 500,
           "proc_refused": 20, "proc_accepted": 60, "worker_deaths": 8, "at_limit": 2000}


def sim_case(case):
    r = case.rng

    async def main(w):
        from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MAX_INSTANCES, TASK_MISSED, TASK_SUBMITTED
        from asyncz.exceptions import MaximumInstancesError
        from asyncz.executors.asyncio import AsyncIOExecutor
        from asyncz.executors.base import BaseExecutor
        from asyncz.executors.debug import DebugExecutor

        sim = w.sim
        held, errs = [], []
        submitted, rest = {}, {}
        active = {}  # tid -> list of open submissions (lists of fire times)
        conf = {}
        fail_submit = [0.0]

        class Manual(BaseExecutor):
            def do_send_task(self, task, run_times):
                if r.random() < fail_submit[0]:
                    case.count("submit_failures")
                    raise RuntimeError("submission refused by the harness")
                n = sum(1 for h in held if h[1] == task.id)
                case.check(n < task.max_instances, f"{task.id}: a submission was started while {n} were active, limit {task.max_instances}")
                held.append((self, task.id, [us(x) for x in run_times]))

        def nactive(tid, settled=0):
            if conf[tid]["executor"] == "man":
                return sum(1 for h in held if h[1] == tid)
            if conf[tid]["cancel"]:
                # one call per submission; a call that ended at this very instant may still hold its slot
                return submitted.get(tid, 0) - sum(1 for c in sim.calls if c["key"] == tid and c["end"] is not None and c["end"] < sim.us + settled)
            return len(active.get(tid, []))

        def on_event(ev):
            try:
                tid = getattr(ev, "task_id", None)
                if tid not in conf:
                    return
                ex = conf[tid]["executor"]
                if ev.code == TASK_SUBMITTED:
                    case.count("accepted")
                    case.log.append((tid, "s"))
                    submitted[tid] = submitted.get(tid, 0) + 1
                    if ex == "default":
                        active.setdefault(tid, []).append([us(x) for x in ev.scheduled_run_times])
                    if ex != "debug" and not conf[tid]["cancel"]:
                        n = nactive(tid)
                        case.check(n <= conf[tid]["max_instances"], f"{tid}: {n} submissions active, limit {conf[tid]['max_instances']}")
                        case.count("at_limit", n == conf[tid]["max_instances"])
                elif ev.code == TASK_MAX_INSTANCES and ev.source == "scheduled":
                    case.count("refused")
                    case.log.append((tid, "r"))
                    if ex == "debug":
                        case.fail(f"{tid}: refused on the debug executor though nothing of it was running")
                    n = nactive(tid)
                    case.check(n >= conf[tid]["max_instances"], f"{tid}: refused with {n} active submissions, limit {conf[tid]['max_instances']}")
                elif ev.code in (TASK_EXECUTED, TASK_ERROR, TASK_MISSED):
                    case.count({TASK_MISSED: "missed", TASK_ERROR: "errors"}.get(ev.code, "executed"))
                    f = us(ev.scheduled_run_time)
                    subs = active.get(tid, [])
                    if f in rest.get(tid, []):
                        rest[tid].remove(f)
                    else:
                        for s in subs:
                            if s[0] == f:
                                # the slot was given back before any outcome was announced
                                subs.remove(s)
                                rest.setdefault(tid, []).extend(s[1:])
                                break
            except BaseException as exc:
                errs.append(exc)

        def plan(key, n):
            rr = random.Random(f"{case.index}:{key}:{n}")
            cf = conf.get(key)
            out = {}
            if cf is None:
                return out
            if cf["how"] == "dur":
                out["dur"] = rr.choice([0.1, 0.5, 2, 7, 7.5, 25, 90])
            x = rr.random()
            if x < 0.2:
                out["raise_"] = fns.TaskBoom("x")
            elif x < 0.3 and cf["how"] == "dur" and cf["cancel"]:
                out["raise_"] = asyncio.CancelledError()
                case.count("cancelled")
            return out

        sim.plan = plan
        depth = {}

        def call_sync(key, args, kwargs, orig=sim.call_sync):
            if args and args[0] == "nest":
                running = sim.running.get(key, 0)
                rec = sim._enter(key, args, kwargs)
                try:
                    d = depth[key] = depth.get(key, 0) + 1
                    if d <= 4 and r.random() < 0.7:
                        case.count("nested")
                        want = running + 1 >= conf[key]["max_instances"]
                        try:
                            sched[0].run_task(key)
                            ok = True
                        except MaximumInstancesError:
                            ok = False
                            case.count("nested_refused")
                        if ok == want:
                            errs.append(Violation(f"{key}: run by hand from within itself with {running + 1} running and a limit of {conf[key]['max_instances']} was " + ("accepted" if ok else "refused")))
                finally:
                    depth[key] -= 1
                    sim.running[key] -= 1
                return None
            return orig(key, args, kwargs)

        sim.call_sync = call_sync
        kind = r.choice(["memory", "memory", "memory", "file", "sqlite"])
        sched = [w.scheduler(stores=w.stores({"default": kind}), executors={"default": AsyncIOExecutor(), "debug": DebugExecutor(), "man": Manual()})]
        s = sched[0]
        s.add_listener(on_event)
        await w.start(s)
        from asyncz.triggers import IntervalTrigger

        case.describe(kind=kind, tasks={})
        makers = {}
        for i in range(r.randint(1, 4)):
            tid = f"t{i}"
            ex = r.choice(["default", "default", "man", "man", "debug"])
            how = "nest" if ex == "debug" and r.random() < 0.7 and kind == "memory" else ("dur" if ex == "default" and r.random() < 0.8 else "plain")
            # cancelled submissions have a single fire time, so that their end is known
            cancel = how == "dur" and r.random() < 0.4
            kw = dict(coalesce=True if cancel else r.random() < 0.5, max_instances=r.choice([1, 1, 2, 3, 4]),
                      mistrigger_grace_time=None if cancel else r.choice([None, None, 1, 30]), executor=ex)
            sec = r.choice([1, 2, 3, 7])
            conf[tid] = dict(kw, how=how, cancel=cancel)
            case.desc["tasks"][tid] = f"{sec}s {how} {cancel} {kw}"

            def mk(tid=tid, kw=kw, sec=sec, how=how):
                fn = fns.awork if how == "dur" else fns.work
                # a nesting task runs seldom by itself
                trig = IntervalTrigger(seconds=sec if how != "nest" else 3600, start_at=sim.now() + timedelta(seconds=1), timezone=w.tz)
                s.add_task(fn, trig, args=[tid] + (["nest"] if how == "nest" else []), id=tid, **kw)

            makers[tid] = mk
            mk()
        await sim.settle(10)

        for step in range(r.randint(6, 16)):
            act = r.choice(["sleep", "sleep", "hand", "hand", "hand", "finish", "finish", "stall", "readd", "restart" if r.random() < 0.3 else "finish"])
            fail_submit[0] = r.choice([0, 0, 0.3])
            if act == "sleep":
                for _ in range(r.randint(1, 5)):
                    await sim.sleep_until(sim.us + r.choice([400_000, 1_000_000, 3_500_000, 9_000_000]))
                    fin(case, r, held)
            elif act == "stall":
                sim.stall(r.choice([0.5, 3, 40]))
            elif act == "finish":
                for _ in range(r.randint(1, 4)):
                    fin(case, r, held)
            elif act == "readd":
                tid = r.choice(sorted(conf))
                await sim.settle(10)
                try:
                    s.delete_task(tid)
                except Exception:
                    pass
                makers[tid]()
            elif act == "restart":
                await w.stop(s)
                await sim.settle(20)
                active.clear()
                await w.start(s)
                for tid in conf:
                    if s.get_task(tid) is None:
                        makers[tid]()
            else:
                tid = r.choice(sorted(conf))
                await sim.settle(10)
                if s.get_task(tid) is None:
                    continue
                n = nactive(tid, 1)
                case.count("sim_hand")
                want = n >= conf[tid]["max_instances"]
                try:
                    s.run_task(tid)
                    got = False
                except MaximumInstancesError:
                    got = True
                    case.count("sim_hand_refused")
                except RuntimeError as exc:
                    case.check("harness" in str(exc), f"run_task raised {exc!r}")
                    continue
                if errs:
                    raise errs[0]
                if got != want and conf[tid]["executor"] == "debug" and conf[tid]["how"] == "nest":
                    case.fail(f"{tid}: on the debug executor a run by hand was {'refused' if got else 'accepted'} with {n} running")
                case.check(got == want, f"{tid}: run by hand was {'refused' if got else 'accepted'} with {n} active submissions, limit {conf[tid]['max_instances']}")
            await sim.settle(10)
            if errs:
                raise errs[0]
        for key, m in sim.maxrunning.items():
            if conf[key]["how"] != "nest":
                case.check(m <= conf[key]["max_instances"], f"{key}: {m} function calls at once, limit {conf[key]['max_instances']}")
            else:
                case.check(m <= conf[key]["max_instances"], f"{key}: {m} nested calls at once, limit {conf[key]['max_instances']}")
        # at the end every slot must come back
        s.pause()
        sim.plan = None
        while held:
            fin(case, r, held)
        await sim.settle(10)
        await asyncio.sleep(100)
        for tid, cf in conf.items():
            if s.get_task(tid) is None or cf["how"] == "nest":
                continue
            fail_submit[0] = 0
            active[tid] = []
            before = sim.ncalls.get(tid, 0)
            for k in range(cf["max_instances"]):
                try:
                    s.run_task(tid, remove_finished=False)
                except MaximumInstancesError:
                    case.fail(f"{tid}: idle, but submission {k + 1} of {cf['max_instances']} was refused")
                if cf["executor"] == "default" and cf["how"] == "dur":
                    continue
            while held:
                fin(case, r, held)
        if errs:
            raise errs[0]
        await sim.settle(20)
        if not any(x[1] == "r" for x in case.log):
            case.trivial = True
        await w.stop(s)

    run_world(case, main)


def fin(case, r, held):
    if not held:
        return
    ex, tid, fires = held.pop(r.randrange(len(held)))
    if r.random() < 0.6:
        case.count("manual_success")
        ex.run_task_success(tid, [])
    else:
        case.count("manual_error")
        ex.run_task_error(tid)


class Outcomes:
    """Collects outcome events delivered from pool threads."""

    def __init__(self):
        self.cv = threading.Condition()
        self.by = {}

    def __call__(self, ev):
        with self.cv:
            self.by[ev.task_id] = self.by.get(ev.task_id, 0) + 1
            self.cv.notify_all()

    def wait(self, tid, n, what):
        with self.cv:
            if not self.cv.wait_for(lambda: self.by.get(tid, 0) >= n, 120):
                raise Violation(f"{what}: {tid} ended but only {self.by.get(tid, 0)} of {n} outcomes were announced")


def start_real(case, w, executor):
    from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MISSED

    s = w.scheduler(native=False, executors={"default": executor}, event_loop=w.sim.loop)
    out = Outcomes()
    s.add_listener(out, TASK_ERROR | TASK_EXECUTED | TASK_MISSED)
    s.start()
    return s, out


def threads_case(case):
    """Real threads; every step is synchronised through gates, so the number of active submissions is exact."""
    r = case.rng

    async def main(w):
        from asyncz.events.constants import TASK_MAX_INSTANCES, TASK_SUBMITTED
        from asyncz.exceptions import MaximumInstancesError
        from asyncz.executors.pool import ThreadPoolExecutor

        workers = r.choice([1, 2, 5])
        s, out = start_real(case, w, ThreadPoolExecutor(max_workers=workers))
        conf, open_, ended = {}, {}, {}
        lock = threading.Lock()
        queues = {}

        def nxt(tid):
            with lock:
                return queues[tid].pop(0)

        gates.GATES["next"] = nxt
        seen = []
        s.add_listener(lambda ev: seen.append((ev.code, ev.task_id)), TASK_MAX_INSTANCES | TASK_SUBMITTED)
        for i in range(r.randint(1, 3)):
            tid = f"t{i}"
            conf[tid] = r.choice([1, 1, 2, 3])
            queues[tid], open_[tid], ended[tid] = [], [], 0
            s.add_task(gates.tgate, "interval", seconds=3600, args=[tid], id=tid, max_instances=conf[tid], mistrigger_grace_time=None)
        await w.sim.settle(5)
        case.describe(workers=workers, conf=conf)

        def finish(tid, k):
            g = open_[tid].pop(k)
            g.how = r.choice(["return", "raise"])
            g.value = fns.TaskBoom("x") if g.how == "raise" else 7
            g.go.set()
            ended[tid] += 1
            return g

        for _ in range(r.randint(10, 40)):
            tid = r.choice(sorted(conf))
            if r.random() < 0.6:
                want = len(open_[tid]) < conf[tid]
                g = gates.Gate()
                with lock:
                    queues[tid].append(g)
                del seen[:]
                try:
                    s.run_task(tid)
                    got = True
                except MaximumInstancesError:
                    got = False
                case.check(got == want, f"{tid}: {len(open_[tid])} submissions active, limit {conf[tid]}, but a run was {'accepted' if got else 'refused'}")
                case.check([c for c, t in seen if t == tid] == [TASK_SUBMITTED if got else TASK_MAX_INSTANCES], f"{tid}: announced {seen} for an {'accepted' if got else 'refused'} run")
                case.log.append((tid, got))
                case.count("thread_accepted" if got else "thread_refused")
                if got:
                    open_[tid].append(g)
                else:
                    with lock:
                        queues[tid].remove(g)
            elif open_[tid]:
                # release the oldest (a younger one may still be queued behind it)
                finish(tid, 0)
                if started_all(open_):
                    pass
                release_wait(case, out, tid, ended, open_, workers)
        for tid in conf:
            while open_[tid]:
                finish(tid, 0)
        for tid in conf:
            out.wait(tid, ended[tid], "threads")
        if not any(not x[1] for x in case.log):
            case.trivial = True
        await w.stop(s, wait=True)

    run_world(case, main)


def started_all(open_):
    return all(g.started.is_set() for gs in open_.values() for g in gs)


def release_wait(case, out, tid, ended, open_, workers):
    """The oldest of one task may be queued behind runs of another: then wait for those first."""
    if sum(len(v) for v in open_.values()) >= workers:
        # its turn may not come before others end: release those in front
        for t, gs in open_.items():
            while gs:
                g = gs.pop(0)
                g.how, g.value = "return", 1
                g.go.set()
                ended[t] += 1
        for t in open_:
            if ended[t]:
                out.wait(t, ended[t], "threads")
    else:
        out.wait(tid, ended[tid], "threads")


def procs_case(case):
    """A real process pool with functions that return, raise, exit or are killed."""
    r = case.rng

    async def main(w):
        from rv import clock

        from asyncz.exceptions import MaximumInstancesError
        from asyncz.executors.process_pool import ProcessPoolExecutor

        workers = r.choice([1, 2, 3])
        ex = ProcessPoolExecutor(max_workers=workers, pool_kwargs=None)
        s, out = start_real(case, w, ex)
        limit = r.choice([1, 2, 3])
        d = case.ctx.tmpdir("gate")
        s.add_task(gates.pgate, "interval", seconds=3600, args=[d], id="p", max_instances=limit, mistrigger_grace_time=None)
        await w.sim.settle(5)
        case.describe(workers=workers, limit=limit)
        open_ = 0
        ticket = 0
        base = 0
        done = 0
        steps = r.randint(6, 12)
        killed = 0
        for i in range(steps):
            if r.random() < 0.6 or (open_ == 0):
                want = open_ < limit
                try:
                    s.run_task("p")
                    got = True
                except MaximumInstancesError:
                    got = False
                case.check(got == want, f"{open_} submissions active, limit {limit}, but a run was {'accepted' if got else 'refused'}")
                case.count("proc_accepted" if got else "proc_refused")
                case.log.append(got)
                if got:
                    open_ += 1
            else:
                kill = killed < 1 and r.random() < 0.35
                how = r.choice(["exit", "kill"]) if kill else r.choice(["return", "raise"])
                wait_file(os.path.join(d, f"{ticket}.started"))
                tmp = os.path.join(d, "tmp")
                with open(tmp, "w") as f:
                    f.write(how)
                os.rename(tmp, os.path.join(d, f"{ticket}.go"))
                case.log.append(how)
                if kill:
                    killed += 1
                    case.count("worker_deaths")
                    # every run in the pool fails with it; slots come back without an outcome event
                    t0 = time.monotonic()
                    while ex.instances.get("p", 0) > 0 and time.monotonic() - t0 < 60:
                        time.sleep(0.01)
                    n = len([x for x in os.listdir(d) if x.endswith(".started")])
                    d = case.ctx.tmpdir("gate")
                    s.update_task("p", args=[d])
                    open_ = ticket = 0
                    await w.sim.settle(5)
                    for k in range(limit):
                        try:
                            s.run_task("p")
                            open_ += 1
                        except MaximumInstancesError:
                            case.fail(f"after its worker died, submission {k + 1} of {limit} was refused")
                else:
                    ticket += 1
                    open_ -= 1
                    done += 1
                    out.wait("p", done, "procs")
        while open_:
            wait_file(os.path.join(d, f"{ticket}.started"))
            with open(os.path.join(d, "tmp"), "w") as f:
                f.write("return")
            os.rename(os.path.join(d, "tmp"), os.path.join(d, f"{ticket}.go"))
            ticket += 1
            open_ -= 1
            done += 1
            out.wait("p", done, "procs")
        await w.stop(s, wait=True)

    run_world(case, main)


def wait_file(path):
    for _ in range(24000):
        if os.path.exists(path):
            return
        time.sleep(0.005)
    raise Violation(f"an accepted run was never started in the pool ({os.path.basename(path)})")


def run(ctx):
    ctx.cases("sim", sim_case, quick=3000, thorough=20000)
    ctx.cases("threads", threads_case, quick=160, thorough=3000)
    ctx.cases("procs", procs_case, quick=40, thorough=500)
