"""C07: running a task by hand submits it once and leaves the schedule consistent."""
import asyncio
import random
from datetime import timedelta

from rv import clock, fns, gen
from rv.world import Blocked, Ledger, run_world, us

RULE = ("a case runs a real scheduler in virtual time on 1-2 stores of any kind with tasks that are scheduled, overdue (the scheduler being paused), paused, "
        "finished, at their concurrency limit, without executor or on an executor that fails, and runs them by hand 12-30 times with every combination of "
        "options, by id or object, from outside and from listeners; hand-overs, events, the returned and the stored task are compared with a model and the "
        "ordinary schedule is accounted for in between; non-trivial when at least 6 runs by hand were submitted")
ASSUMPTIONS = ["the fire times a trigger yields are judged by C11-C13; here the trigger itself is asked", "when the trigger's next fire time is already past, any time within a second after the call is accepted as the next one"]
REQUIRE = {"forced": 3000, "due": 1500, "due_coalesced": 400, "due_many": 300, "not_forced": 800, "finished_removed": 150, "finished_kept": 100, "refused": 500,
           "no_executor": 250, "executor_failed": 300, "unknown": 400, "stopped": 300, "paused_run": 500, "by:listener": 300, "handed": 8000, "misplaced": 100}


def scenario(case):
    r = case.rng
    blocked = Blocked()
    errs = []

    async def main(w):
        from asyncz.events.constants import TASK_MAX_INSTANCES, TASK_MODIFIED, TASK_REMOVED, TASK_SUBMITTED
        from asyncz.exceptions import MaximumInstancesError, SchedulerNotRunningError, TaskLookupError
        from asyncz.executors.asyncio import AsyncIOExecutor
        from asyncz.executors.debug import DebugExecutor

        sim, tz = w.sim, w.tz
        kinds = {"default": r.choice(["memory", "memory", "file", "sqlite", "redis", "mongo"])}
        if r.random() < 0.5:
            kinds["b"] = r.choice(["memory", "file", "sqlite", "mongo"])
        T = {}  # tid -> dict(store, trigger, led, ...)
        hand = []  # hand-overs during a run by hand
        events = []
        st = {"manual": None, "fail": False, "busy": 0}

        def handed(alias, task, run_times):
            try:
                case.count("handed", len(run_times))
                if st["manual"] == task.id:
                    hand.append((alias, task.id, list(run_times)))
                    return
                m = T[task.id]
                led = m["led"]
                case.check(led is not None, f"{task.id} was handed over for {run_times} though it is paused")
                case.eq(alias, m["executor"], f"executor {task.id} was handed to")
                ev = type("E", (), {})()
                ev.scheduled_run_times, ev.coalesced_run_count = run_times, 0
                if led.coalesce:
                    x = led.next
                    while x is not None and us(x) < us(run_times[0]):
                        ev.coalesced_run_count += 1
                        x = led.trigger.get_next_trigger_time(tz, x, x)
                led.event(sim.us, ev, "handed")
            except BaseException as exc:
                errs.append(exc)

        def spy(cls):
            class Spy(cls):
                def start(self, scheduler, alias):
                    self.my_alias = alias
                    super().start(scheduler, alias)

                def send_task(self, task, run_times):
                    if st["manual"] != task.id:
                        handed(self.my_alias, task, list(run_times))
                    return super().send_task(task, run_times)

                def do_send_task(self, task, run_times):
                    if st["fail"]:
                        raise RuntimeError("the executor is broken")
                    if st["manual"] == task.id:
                        handed(self.my_alias, task, list(run_times))
                    recent = T[task.id].setdefault("recent", [])
                    recent[:] = [x for x in recent if x >= sim.us - 2]
                    recent.append(sim.us)
                    return super().do_send_task(task, run_times)
            return Spy()

        execs = {"default": spy(AsyncIOExecutor), "second": spy(AsyncIOExecutor), "debug": spy(DebugExecutor)}
        sched = w.scheduler(stores=w.stores(kinds), executors=execs)
        base = sim.now()
        case.describe(zone=str(tz), base=str(base), stores=kinds, ops=[])
        durs = {}
        sim.plan = lambda key, n: {"dur": durs[key]} if durs.get(key) else {}

        def on_event(ev):
            events.append(ev)
            if st["busy"] == 0 and ev.code == TASK_SUBMITTED and r.random() < 0.05 and not errs:
                try:
                    manual("listener")
                except BaseException as exc:
                    errs.append(exc)

        sched.add_listener(on_event)

        def raise_pending():
            if errs:
                raise errs[0]

        def add(tid, store, paused=False):
            t, d = gen.trigger(r, tz, sim.now(), 1, 0, pure=True)
            sync = r.random() < 0.5
            ex = r.choice(["default", "second", "debug"]) if sync else r.choice(["default", "second"])
            m = dict(store=store, trigger=t, executor=ex, coalesce=r.random() < 0.5, max=r.choice([1, 2, 3]), led=None, long=False)
            durs[tid] = 0
            if not sync and r.random() < 0.35:
                durs[tid] = 1e7  # never comes back
                m["long"] = True
            T[tid] = m
            case.desc["ops"].append(f"{(sim.us - us(base)) / 1e6:.3f} add {tid} {store} {d} {ex} coalesce={m['coalesce']} max={m['max']} long={m['long']} paused={paused}")
            now = sim.now()
            kw = {}
            if paused:
                kw["next_run_time"] = None
            else:
                nxt = t.get_next_trigger_time(tz, None, now)
                if nxt is not None:
                    m["led"] = Ledger(case, tid, t, nxt, tz, m["coalesce"], us(now), blocked)
            sched.add_task(fns.work if sync else fns.awork, t, args=[tid], id=tid, store=store, executor=ex, coalesce=m["coalesce"], max_instances=m["max"],
                           mistrigger_grace_time=None, **kw)
            return m

        def snap(tid=None):
            return sorted((i.store_alias, i.id, str(i.args), us(i.next_run_time) if i.next_run_time else None, i.trigger_description, i.executor) for i in sched.get_task_infos())

        def gone(m):
            return m["led"] is not None and m["led"].next is None

        def manual(by):
            st["busy"] += 1
            try:
                one(by)
            finally:
                st["busy"] -= 1
                st["manual"] = None
                st["fail"] = False

        def one(by):
            now = sim.now()
            live = [t for t, m in T.items() if not gone(m)]
            kind = r.choice(["run"] * 9 + ["unknown", "fail", "noexec"])
            if kind == "unknown" or not live:
                before = snap()
                store = r.choice([None, *kinds])
                tid = "nosuch"
                if live and r.random() < 0.4 and len(kinds) > 1:
                    tid = r.choice(live)
                    store = next(a for a in kinds if a != T[tid]["store"])
                    case.count("misplaced")
                n0 = len(events)
                try:
                    sched.run_task(tid, store, force=r.random() < 0.5)
                except TaskLookupError:
                    pass
                else:
                    case.fail(f"running the unknown task {tid} in {store} was accepted")
                case.eq(snap(), before, "tasks after running an unknown one")
                case.eq(len(events), n0, "events after running an unknown task")
                case.count("unknown")
                return
            tid = r.choice(live)
            m = T[tid]
            stored = sched.get_task(tid, m["store"])
            case.check(stored is not None, f"{tid} is gone")
            led = m["led"]
            nr = stored.next_run_time
            if led is not None and us(nr) != us(led.next):
                if by == "outside":
                    case.fail(f"{tid}: next run time {nr}, expected {led.next}")
                return  # just being handed over
            force = r.random() < 0.7
            remove_finished = r.random() < 0.6
            # what is due
            due = []
            x = led.next if led is not None else None
            while x is not None and us(x) <= us(now):
                due.append(x)
                if len(due) > 400:
                    return
                x = m["trigger"].get_next_trigger_time(tz, x, now)
            want, folded = due, 0
            if due and m["coalesce"]:
                want, folded = due[-1:], len(due) - 1
            idle = not due and not force
            if not due:
                want = [now]
            st["manual"] = tid
            hand.clear()
            n0 = len(events)
            before = snap()
            kw = {}
            if not force or r.random() < 0.3:
                kw["force"] = force
            if not remove_finished or r.random() < 0.3:
                kw["remove_finished"] = remove_finished
            arg = tid if r.random() < 0.6 else stored
            store = r.choice([None, m["store"]])
            case.desc["ops"].append(f"{(sim.us - us(base)) / 1e6:.3f} {by} {kind} {tid} {store} {kw} due={len(due)} led={led.next if led else None}")
            if kind == "noexec" and by == "outside":
                ex = execs[m["executor"]]
                sched.remove_executor(m["executor"], shutdown=False)
                events.clear()
                n0 = 0
                try:
                    got = sched.run_task(arg, store, **kw)
                except KeyError as exc:
                    case.check(not isinstance(exc, TaskLookupError), f"{tid}: a missing executor was reported as an unknown task")
                    case.check(not idle, f"{tid}: not due and not forced, but raised {exc!r}")
                else:
                    case.check(idle, f"{tid}: its executor is missing but running it was accepted: {got}")
                case.eq(snap(), before, f"tasks after running {tid}, whose executor is missing")
                case.eq(hand, [], "hand-overs")
                case.eq([e.code for e in events], [], "events of a run without executor")
                sched.add_executor(ex, m["executor"])
                if hasattr(ex, "pending_futures") and False:
                    pass
                case.count("no_executor")
                return
            if kind == "fail":
                st["fail"] = True
                try:
                    sched.run_task(arg, store, **kw)
                except MaximumInstancesError:
                    pass
                except RuntimeError:
                    case.check(not idle, f"{tid}: not due and not forced but handed over")
                    case.count("executor_failed")
                else:
                    case.check(idle, f"{tid}: the executor failed but no error was raised")
                st["fail"] = False
                case.eq(snap(), before, f"tasks after a failed run by hand of {tid}")
                case.eq([e.code for e in events[n0:] if e.code == TASK_SUBMITTED], [], "submissions announced by a failed run by hand")
                return
            try:
                got = sched.run_task(arg, store, **kw)
            except MaximumInstancesError:
                ev = events[n0:]
                running = m.get("open", 0) if m["long"] else len([x for x in m.get("recent", []) if x >= sim.us - 2])
                case.check(running >= m["max"], f"{tid}: refused with {running} of {m['max']} instances running")
                case.eq(snap(), before, f"tasks after {tid} was refused")
                case.eq(hand, [], f"{tid}: refused but handed over")
                case.eq([(e.code, e.task_id, e.store) for e in ev], [(TASK_MAX_INSTANCES, tid, m["store"])], f"{tid}: events of a refused run")
                case.eq([us(t) for t in ev[0].scheduled_run_times], [us(t) for t in want], f"{tid}: fire times refused")
                case.eq((ev[0].source, ev[0].coalesced_run_count), ("manual", folded), f"{tid}: source and folded fire times of the refusal")
                case.count("refused")
                return
            st["manual"] = None
            ev = events[n0:]
            if idle:
                case.eq(hand, [], f"{tid}: not due, not forced, but handed over")
                case.eq([e.code for e in ev], [], f"{tid}: events of a run that was not forced")
                case.eq(snap(), before, f"tasks after a run of {tid} that was not forced")
                case.check(got is not None and got.id == tid, f"{tid}: returned {got}")
                case.count("not_forced")
                return
            case.check(not (m["long"] and m.get("open", 0) >= m["max"]), f"{tid}: run by hand though {m.get('open')} of {m['max']} instances are running")
            if m["long"]:
                m["open"] = m.get("open", 0) + 1
            case.eq([(a, t, [us(q) for q in ts]) for a, t, ts in hand], [(m["executor"], tid, [us(q) for q in want])], f"{tid}: hand-overs of a run by hand (now {now})")
            subs = [e for e in ev if e.code == TASK_SUBMITTED and e.task_id == tid and e.source == "manual"]
            case.eq([(e.store, [us(q) for q in e.scheduled_run_times], e.coalesced_run_count) for e in subs], [(m["store"], [us(q) for q in want], folded)], f"{tid}: submission announced")
            for q in hand[0][2]:
                case.check(q.tzinfo is not None, f"{tid}: a naive fire time {q}")
            nxt = m["trigger"].get_next_trigger_time(tz, want[-1], now)
            after = sched.get_task(tid, m["store"])
            case.count("due" if due else "forced")
            case.count("due_coalesced", folded > 0)
            case.count("due_many", len(want) > 1)
            case.count("paused_run", led is None)
            case.count(f"by:{by}")
            case.count("submitted")
            st["n"] = st.get("n", 0) + 1
            if nxt is None and remove_finished:
                case.check(after is None, f"{tid}: its schedule is finished but it is still stored (next {after and after.next_run_time})")
                case.eq(got, None, f"{tid}: returned value for a finished task")
                case.check(any(e.code == TASK_REMOVED and e.task_id == tid for e in ev), f"{tid}: removed silently")
                del T[tid]
                case.count("finished_removed")
                return
            case.check(after is not None, f"{tid}: gone after a run by hand, next would be {nxt}")
            case.check(got is not None and got.id == tid, f"{tid}: returned {got}")
            gn = after.next_run_time
            case.check((got.next_run_time is None) == (gn is None) and (gn is None or us(got.next_run_time) == us(gn)), f"{tid}: the returned task says {got.next_run_time}, the stored one {gn}")
            if nxt is None:
                case.eq(gn, None, f"{tid}: next run time of a finished task that was to be kept")
                m["led"] = None
                case.count("finished_kept")
                return
            case.check(gn is not None and us(gn) > us(now), f"{tid}: next run time {gn} is not after the run by hand at {now}")
            if us(nxt) > us(now):
                case.check(us(gn) == us(nxt), f"{tid}: next run time {gn} after a run by hand for {want[-1]}, expected {nxt}")
            else:
                case.check(us(gn) <= us(now) + 10**6, f"{tid}: next run time {gn} after a run by hand, expected right after {now}")
            m["led"] = Ledger(case, tid, m["trigger"], gn, tz, m["coalesce"], us(now), blocked)

        # scheduled runs of tasks that never come back also take slots
        def count_open(ev):
            if ev.code == TASK_SUBMITTED and ev.source == "scheduled" and T.get(ev.task_id, {}).get("long"):
                m = T[ev.task_id]
                m["open"] = m.get("open", 0) + 1

        sched.add_listener(count_open)
        # ---- stopped
        n = 0
        for i in range(r.randint(2, 4)):
            add(f"t{n}", r.choice(list(kinds)), r.random() < 0.2)
            n += 1
        if r.random() < 0.5:
            infos = snap()
            n0 = len(events)
            try:
                sched.run_task(r.choice(["t0", "nosuch"]), force=r.random() < 0.5)
            except SchedulerNotRunningError:
                case.count("stopped")
            else:
                case.fail("a stopped scheduler accepted a run by hand")
            case.eq(snap(), infos, "tasks after a refused run by hand")
            case.eq(len(events), n0, "events of a refused run by hand")
        await w.start(sched)
        for _ in range(r.randint(12, 30)):
            k = r.random()
            if k < 0.2:
                nx = [us(m["led"].next) for m in T.values() if m["led"] is not None and m["led"].next is not None and us(m["led"].next) - sim.us < 300e6]
                if nx:
                    await sim.sleep_until(max(r.choice(nx) + r.choice([0, 0, 1000, -1000, 1]), sim.us))
            elif k < 0.55:
                await asyncio.sleep(r.choice([0, 0.4, 3, 29, 70]))
            else:
                sched.pause()
                a = sim.us
                for _ in range(r.randint(1, 3)):
                    await asyncio.sleep(r.choice([0.5, 10, 61, 200]))
                    await sim.settle(8)
                    raise_pending()
                    manual("outside")
                    raise_pending()
                blocked.add(a, sim.us)
                sched.resume()
            if r.random() < 0.4:
                await sim.settle(8)
            raise_pending()
            if len([1 for m in T.values() if not gone(m)]) < 3:
                add(f"t{n}", r.choice(list(kinds)), r.random() < 0.4)
                n += 1
            manual("outside")
            raise_pending()
        await asyncio.sleep(r.choice([1, 40]))
        await sim.settle(12)
        raise_pending()
        for tid, m in T.items():
            if m["led"] is not None:
                m["led"].finish(sim.us - 1)
            else:
                t = sched.get_task(tid, m["store"])
                case.check(t is not None and t.next_run_time is None, f"{tid}: is to be paused, stored: {t and t.next_run_time}")
        sched.pause()
        await w.stop(sched)
        raise_pending()
        try:
            sched.run_task("t0")
        except SchedulerNotRunningError:
            case.count("stopped")
        else:
            case.fail("a stopped scheduler accepted a run by hand")
        case.check(not sim.loop_errors, f"error in the event loop: {sim.loop_errors[:2]}")
        if st.get("n", 0) < 6:
            case.trivial = True

    run_world(case, main)


def run(ctx):
    ctx.cases("scenario", scenario, quick=1600, thorough=24000)
