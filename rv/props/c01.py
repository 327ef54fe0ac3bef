"""C01: every fire time is dispatched exactly once, on time."""
import asyncio
import datetime as D
from datetime import timedelta

from rv import clock, fns, gen
from rv.backends import KINDS
from rv.core import HarnessError
from rv.world import UTC, Blocked, Ledger, run_world, us

RULE = ("a case runs a real scheduler (both classes, 1-3 stores of any kind, several executors) on a virtual-time event loop with 1-8 tasks of "
        "random triggers, overlapping and blocking task functions, blocking application code and tasks added before and after start; every "
        "submission event, executor hand-over and function call is accounted online against the trigger's own fire times; non-trivial when at "
        "least 5 fire times were accounted; distinct by configuration and hand-over history")
ASSUMPTIONS = ["the fire times a trigger yields are judged by C11-C13; here the trigger itself is asked", "virtual time: the loop's timers and the "
               "wall clock are advanced together by rv/sim.py, tolerance 2 ms", "time spent in blocking functions (recorded) counts as blocking the scheduler"]
REQUIRE = {"handed": 8000, "folded": 200, "max_instances": 300, "late_after_block": 300, "finished_tasks": 150, "probes": 3000, "spied": 1000,
           "added_while_running": 300, "past_first": 100, "two_stores": 150, "jittered": 150}


def make_executors():
    from asyncz.executors.asyncio import AsyncIOExecutor
    from asyncz.executors.debug import DebugExecutor

    class SpyAsyncIO(AsyncIOExecutor):
        def do_send_task(self, task, run_times):
            self.spy.append((task.id, list(run_times)))
            return super().do_send_task(task, run_times)

    class SpyDebug(DebugExecutor):
        def do_send_task(self, task, run_times):
            self.spy.append((task.id, list(run_times)))
            return super().do_send_task(task, run_times)

    out = {"default": SpyAsyncIO(), "second": SpyAsyncIO(), "debug": SpyDebug()}
    for e in out.values():
        e.spy = []
    return out


class JitterLedger(Ledger):
    """The drawn fire time is the one the scheduler reports as next."""

    sched = None

    def event(self, at, ev, name):
        got = list(ev.scheduled_run_times)
        c = self.case
        c.check(self.next is not None, f"{self.tid}: handed over after the end of its schedule")
        if len(got) + ev.coalesced_run_count == 1:
            c.check(us(got[0]) == us(self.next), f"{self.tid}: handed over fire time {got[0]}, the scheduler announced {self.next}")
        for g in got:
            self.total += 1
            self.handed.append((us(g), at, name))
            c.check(at >= us(g), f"{self.tid}: fire time {g} was handed over early")
        self.late(got[0] if not ev.coalesced_run_count else got[-1], at, name)
        t = self.sched.get_task(self.tid)
        self.next = t.next_run_time if t is not None else None


def scenario(case):
    r = case.rng
    blocked = Blocked()

    async def main(w):
        from asyncz.events.constants import TASK_MAX_INSTANCES, TASK_SUBMITTED, TASK_REMOVED
        from asyncz.schedulers.types import SchedulerType

        sim = w.sim
        orig_stall = sim.stall

        def stall(seconds):
            a = sim.us
            orig_stall(seconds)
            blocked.add(a, sim.us)

        sim.stall = stall
        kinds = {"default": r.choice(["memory", "memory", "file", "sqlite", "redis", "mongo"])}
        for a in ("b", "c")[: r.choice([0, 0, 1, 2])]:
            kinds[a] = r.choice(["memory", "memory", "file", "sqlite", "mongo"])
        execs = make_executors()
        sched = w.scheduler(stores=w.stores(kinds), executors=execs)
        stalls = r.random() < 0.35
        base = sim.now()
        ledgers, grace_none, store_of, removed, exec_of = {}, set(), {}, set(), {}
        span = r.choice([120, 600, 1800])
        case.describe(zone=str(w.tz), base=str(base), stores=kinds, span=span, stalls=stalls, tasks={})
        per_task = {}

        def on_event(ev):
            tid = getattr(ev, "task_id", None)
            if ev.code in (TASK_SUBMITTED, TASK_MAX_INSTANCES):
                case.check(tid in ledgers, f"submission of unknown task {tid}")
                name = "submitted" if ev.code == TASK_SUBMITTED else "refused"
                case.check(ev.store == store_of[tid], f"{tid}: submission names store {ev.store}, it is in {store_of[tid]}")
                n0 = ledgers[tid].folded
                errs = per_task.setdefault("err", [])
                try:
                    ledgers[tid].event(sim.us, ev, name)
                except BaseException as exc:  # listeners' exceptions are swallowed by the library
                    errs.append(exc)
                    return
                case.count("handed", len(ev.scheduled_run_times))
                case.count("folded", ledgers[tid].folded - n0)
                case.count("max_instances", ev.code == TASK_MAX_INSTANCES)
                case.log.append((tid, sim.us, name, len(ev.scheduled_run_times), ev.coalesced_run_count))
                if sim.us > us(ev.scheduled_run_times[-1]) + 1000:
                    case.count("late_after_block")
                per_task.setdefault(tid, []).append((ev.code, list(ev.scheduled_run_times)))
            elif ev.code == TASK_REMOVED:
                removed.add(tid)

        def raise_pending():
            if per_task.get("err"):
                raise per_task["err"][0]

        sched.add_listener(on_event)
        durs = {}

        def plan(key, n):
            rr = __import__("random").Random(f"{case.index}:{key}:{n}")
            d = durs.get(key, "mix")
            out = {}
            if d == "long":
                out["dur"] = rr.choice([0.5, 3, 40, 130])
            elif d == "stall":
                if rr.random() < 0.3 and sum(b - a for a, b in blocked.iv) < 300e6:
                    out["stall"] = rr.choice([0.3, 2, 7, 65])
            if rr.random() < 0.1:
                out["raise_"] = fns.TaskBoom("x")
            return out

        sim.plan = plan

        def add(i, running):
            tid = f"t{i}"
            jit = r.random() < 0.16
            trig, desc = gen.trigger(r, w.tz, base, 1, 1.0 if jit else 0, pure=True)
            jit = jit and "jitter" in desc
            now = sim.now()
            sync = r.random() < 0.5
            ex = r.choice(["default", "default", "second", "debug"]) if sync else r.choice(["default", "second"])
            durs[tid] = ("stall" if stalls else "none") if sync else r.choice(["none", "long"])
            kw = dict(coalesce=r.random() < 0.5, max_instances=r.choice([1, 1, 2, 4]), mistrigger_grace_time=r.choice([None, None, 1, 30]), executor=ex)
            store = r.choice(list(kinds))
            first = None
            mode = r.choice(["trigger", "trigger", "given", "past"]) if running else "trigger"
            if mode == "given":
                first = now + timedelta(seconds=r.choice([0, 1, 30, 200]))
            elif mode == "past":
                if isinstance(trig.get_next_trigger_time(w.tz, now, now), type(None)):
                    mode = "given"
                    first = now
                else:
                    first = now - timedelta(seconds=r.choice([1, 5, 60, 200]))
                    case.count("past_first")
            if first is not None:
                kw["next_run_time"] = first
            case.desc["tasks"][tid] = f"{desc} {mode} {ex} {store} {durs[tid]} {kw['coalesce']} {kw['max_instances']}"
            store_of[tid], exec_of[tid] = store, ex
            cls = JitterLedger if jit else Ledger
            led = cls(case, tid, trig, None, w.tz, kw["coalesce"], us(now), blocked)
            led.sched = sched
            ledgers[tid] = led

            def go():
                import random as R

                ts = us(sim.now())
                led.added = ts
                seed = r.random()
                if jit:
                    case.count("jittered")
                if first is None:
                    if jit:
                        led.next = None
                    else:
                        led.next = trig.get_next_trigger_time(w.tz, None, sim.now())
                else:
                    led.next = first
                R.seed(seed)
                if kw["mistrigger_grace_time"] is None:
                    grace_none.add(tid)

            go()
            if running:
                sched.add_task(fns.work if sync else fns.awork, trig, args=[tid], id=tid, store=store, **kw)
            else:
                sched.add_task(fns.work if sync else fns.awork, trig, args=[tid], id=tid, store=store, **kw)
            return tid, led, trig, jit

        n0 = r.randint(0, 4)
        pend = [add(i, False) for i in range(n0)]
        if r.random() < 0.4:
            # time passes before the start
            await asyncio.sleep(r.choice([0.5, 10, 61]))
        now = sim.now()
        for tid, led, trig, jit in pend:
            led.added = us(now)
            led.next = None if jit else trig.get_next_trigger_time(w.tz, None, now)
        await w.start(sched)
        for tid, led, trig, jit in pend:
            if jit:
                t = sched.get_task(tid)
                led.next = t.next_run_time if t is not None else None
        todo = r.randint(1 if n0 == 0 else 0, 4)
        cuts = sorted(r.uniform(0, span) for _ in range(todo))
        probes = sorted([r.uniform(0, span) for _ in range(6)])
        t0 = sim.us
        actions = sorted([(c, "add") for c in cuts] + [(p, "probe") for p in probes] +
                         ([(r.uniform(0, span), "block") for _ in range(r.randint(1, 4))] if stalls else []) + [(span, "end")])
        idx = n0
        for at, what in actions:
            await sim.sleep_until(t0 + int(at * 1e6))
            raise_pending()
            if what == "add":
                tid, led, trig, jit = add(idx, True)
                if jit and led.next is None:
                    t = sched.get_task(tid)
                    led.next = t.next_run_time if t is not None else None
                idx += 1
                case.count("added_while_running")
            elif what == "block":
                sim.stall(r.choice([0.2, 1.5, 20, 70]))
            else:
                await sim.settle(12)
                raise_pending()
                for tid, led in ledgers.items():
                    if led.next is None and led.total == 0:
                        continue  # had no fire time left when it was added: stored as paused, not judged
                    if led.next is not None and us(led.next) <= sim.us:
                        continue  # being handed over at this very moment
                    t = sched.get_task(tid)
                    case.count("probes")
                    if led.next is None:
                        case.check(t is None, f"{tid}: its schedule is finished but it is still stored with next run time {t and t.next_run_time}")
                    else:
                        case.check(t is not None, f"{tid}: gone though its trigger yields {led.next}")
                        case.check(t.next_run_time is not None and us(t.next_run_time) == us(led.next), f"{tid}: next run time {t.next_run_time}, expected {led.next}")
        await sim.settle(12)
        raise_pending()
        end = sim.us
        for tid, led in ledgers.items():
            led.finish(end)
            if led.next is None:
                case.count("finished_tasks", led.total > 0)
            elif tid in removed:
                case.fail(f"{tid}: removed though its trigger still yields {led.next}")
        # whatever was submitted reaches the task's own executor, once
        sim.plan = None
        sched.pause()
        await sim.settle(12)
        await asyncio.sleep(301)
        raise_pending()
        await w.stop(sched)
        for name, ex in execs.items():
            by = {}
            for tid, times in ex.spy:
                by.setdefault(tid, []).append(times)
                case.check(exec_of[tid] == name, f"{tid} was handed to executor {name}, its executor is {exec_of[tid]}")
                case.count("spied")
            for tid in ledgers:
                if exec_of[tid] == name:
                    want = [t for code, t in per_task.get(tid, []) if code == TASK_SUBMITTED]
                    case.eq(by.get(tid, []), want, f"{tid}: hand-overs to executor {name} versus announced submissions")
        for tid in grace_none:
            want = sum(len(t) for code, t in per_task.get(tid, []) if code == TASK_SUBMITTED)
            got = sim.ncalls.get(tid, 0)
            case.check(got == want, f"{tid}: {want} fire times submitted, function called {got} times")
        if len(kinds) > 1:
            case.count("two_stores")
        case.check(not sim.loop_errors, f"error in the event loop: {sim.loop_errors[:2]}")
        if sum(l.total for l in ledgers.values()) < 5:
            case.trivial = True

    run_world(case, main)


def run(ctx):
    ctx.cases("scenario", scenario, quick=2500, thorough=40000)
