"""C02: late runs obey grace time and coalescing."""
import asyncio
import random
from datetime import timedelta

from rv import clock, fns, gen
from rv.world import UTC, Blocked, Ledger, run_world, us

RULE = ("a case runs a scheduler in virtual time and makes fire times late - blocking functions, blocking application code, pauses, shutdown and "
        "restart on a persistent store, first run times in the past - often by exactly the grace time or one microsecond more; submissions are "
        "accounted against the trigger and each outcome against the lateness at the moment the function was or would have been called; "
        "non-trivial when a late fire time was judged; distinct by configuration and outcomes")
ASSUMPTIONS = ["a missed fire time's turn lies between the end of the run before it in the same submission and the start of the run after it (or the "
               "report); it is judged against the later bound, which usually coincides with the earlier one", "trigger fire times are judged by C11-C13"]
REQUIRE = {"executed": 3000, "missed": 1500, "late_executed": 800, "boundary_in": 100, "boundary_out": 100, "folded": 300, "multi": 400,
           "restarts": 150, "pauses": 200, "no_grace_late": 300, "turn_exact": 1000}


def scenario(case):
    r = case.rng
    blocked = Blocked()

    async def main(w):
        from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MAX_INSTANCES, TASK_MISSED, TASK_SUBMITTED

        sim = w.sim
        plain_stall = sim.stall

        def stall(sec):
            a = sim.us
            plain_stall(sec)
            blocked.add(a, sim.us)

        sim.stall = stall
        kind = r.choice(["memory", "memory", "file", "sqlite", "redis", "mongo"])
        kinds = {"default": kind}
        from asyncz.executors.asyncio import AsyncIOExecutor
        from asyncz.executors.debug import DebugExecutor

        def executors():
            return {"default": AsyncIOExecutor(), "debug": DebugExecutor()}

        ledgers, conf, subs, outs, errs = {}, {}, {}, {}, []

        def on_event(ev):
            try:
                tid = getattr(ev, "task_id", None)
                if ev.code in (TASK_SUBMITTED, TASK_MAX_INSTANCES):
                    n0 = ledgers[tid].folded
                    ledgers[tid].event(sim.us, ev, "submitted" if ev.code == TASK_SUBMITTED else "refused")
                    case.count("folded", ledgers[tid].folded - n0)
                    case.count("multi", len(ev.scheduled_run_times) > 1)
                    if ev.code == TASK_SUBMITTED:
                        subs.setdefault(tid, []).append((sim.us, [us(x) for x in ev.scheduled_run_times]))
                elif ev.code in (TASK_EXECUTED, TASK_ERROR, TASK_MISSED):
                    outs.setdefault(tid, []).append((us(ev.scheduled_run_time), ev.code, sim.us))
            except BaseException as exc:
                errs.append(exc)

        def mk():
            s = w.scheduler(stores=w.stores(kinds), executors=executors())
            s.add_listener(on_event)
            return s

        plans = {}

        def plan(key, n):
            rr = random.Random(f"{case.index}:{key}:{n}")
            out = {}
            how = plans.get(key)
            if how == "dur" and rr.random() < 0.6:
                out["dur"] = rr.choice([0.3, 2, 15])
            elif how == "stall" and rr.random() < 0.3 and sum(b - a for a, b in blocked.iv) < 200e6:
                out["stall"] = rr.choice([0.5, 1, 1.000001, 3, 30])
            if rr.random() < 0.1:
                out["raise_"] = fns.TaskBoom("x")
            return out

        sim.plan = plan
        sched = mk()
        await w.start(sched)
        base = sim.now()
        case.describe(zone=str(w.tz), base=str(base), kind=kind, tasks={}, acts=[])
        for i in range(r.randint(1, 4)):
            tid = f"t{i}"
            trig, desc = gen.trigger(r, w.tz, base, 1, 0, pure=True)
            if r.random() < 0.5:
                from asyncz.triggers import IntervalTrigger

                sec = r.choice([1, 2, 5, 10])
                trig = IntervalTrigger(seconds=sec, timezone=w.tz, start_at=base + timedelta(seconds=r.choice([0, 1])))
                desc = f"every {sec} s"
            sync = r.random() < 0.4
            ex = r.choice(["default", "debug"]) if sync else "default"
            plans[tid] = r.choice(["stall", None]) if sync else r.choice(["dur", None, None])
            kw = dict(coalesce=r.random() < 0.4, max_instances=1, mistrigger_grace_time=r.choice([None, 1, 1, 5, 0.5, 2.5, 60]), executor=ex)
            now = sim.now()
            first = trig.get_next_trigger_time(w.tz, None, now)
            if r.random() < 0.3:
                first = now - timedelta(seconds=r.choice([0.5, 1, 2.5, 5, 60, 7]), microseconds=r.choice([0, 0, 1]))
                kw["next_run_time"] = first
            if first is None:
                continue
            ledgers[tid] = Ledger(case, tid, trig, first, w.tz, kw["coalesce"], us(now), blocked)
            conf[tid] = dict(kw, sync=sync)
            case.desc["tasks"][tid] = f"{desc} {kw}"
            sched.add_task(fns.work if sync else fns.awork, trig, args=[tid], id=tid, **kw)
        await sim.settle(10)
        for _ in range(r.randint(2, 6)):
            await sim.sleep_until(sim.us + r.choice([0, 500_000, 3_000_000, 17_000_000, 45_000_001]))
            if errs:
                raise errs[0]
            # be late for some fire time by its grace time, exactly or nearly
            live = [l for t, l in ledgers.items() if l.next is not None]
            length = r.choice([0.7, 3, 12, 70])
            if live and r.random() < 0.7:
                led = r.choice(live)
                g = conf[led.tid]["mistrigger_grace_time"] or 1
                end = us(led.next) + round(g * 1e6) + r.choice([0, 0, 1, -1, 1])
                if 0 < end - sim.us < 90e6:
                    length = (end - sim.us) / 1e6
            how = r.choice(["stall", "stall", "pause", "restart" if kind != "memory" else "stall"])
            case.desc["acts"].append((how, length))
            target = sim.us + round(length * 1e6)
            if how == "stall":
                sim.stall((target - sim.us) / 1e6)
            elif how == "pause":
                sched.pause()
                a = sim.us
                await sim.sleep_until(target)
                blocked.add(a, sim.us)
                sched.resume()
                case.count("pauses")
            else:
                a = sim.us
                # let submitted runs finish first: stopping cancels them
                sched.pause()
                sim.plan = None
                await asyncio.sleep(16)
                await w.stop(sched)
                sim.plan = plan
                await sim.sleep_until(max(target, sim.us))
                blocked.add(a, sim.us)
                sched = mk()
                await w.start(sched)
                case.count("restarts")
            await sim.settle(10)
        await asyncio.sleep(3.3)
        sched.pause()
        sim.plan = None
        await sim.settle(10)
        await asyncio.sleep(60)
        if errs:
            raise errs[0]
        await w.stop(sched)
        judged_late = judge(case, sim, conf, subs, outs, (TASK_EXECUTED, TASK_ERROR, TASK_MISSED))
        if not judged_late:
            case.trivial = True
        case.check(not sim.loop_errors, f"error in the event loop: {sim.loop_errors[:2]}")

    run_world(case, main)


def judge(case, sim, conf, subs, outs, codes):
    EXE, ERR, MISS = codes
    n = 0
    calls = {}
    for c in sim.calls:
        calls.setdefault(c["key"], []).append(c)
    for tid, cf in conf.items():
        grace = cf["mistrigger_grace_time"]
        g = None if grace is None else round(grace * 1e6)
        out = {}
        for f, code, at in outs.get(tid, []):
            case.check(f not in out, f"{tid}: two outcomes for fire time {clock.from_us(f)}")
            out[f] = (code, at)
        cs = list(calls.get(tid, []))
        for at, fires in subs.get(tid, []):
            case.check(fires == sorted(fires), f"{tid}: fire times of a submission not oldest first")
            items = []
            for f in fires:
                case.check(f in out, f"{tid}: fire time {clock.from_us(f)} was submitted but has no outcome")
                code, rep = out[f]
                call = None
                if code != MISS:
                    case.check(bool(cs), f"{tid}: fire time {clock.from_us(f)} is reported run but the function was not called for it")
                    call = cs.pop(0)
                items.append((f, code, rep, call))
            for i, (f, code, rep, call) in enumerate(items):
                case.log.append((tid, f, code))
                if call is not None:
                    late = call["at"] - f
                    case.check(g is None or late <= g, f"{tid}: called {late / 1e6} s late for {clock.from_us(f)}, grace time {grace}")
                    case.count("executed")
                    case.count("late_executed", late > 1000)
                    case.count("no_grace_late", g is None and late > 1_000_000)
                    case.count("boundary_in", late == g)
                    n += late > 1000
                else:
                    lo = max([at if False else f] + [x[3]["end"] for x in items[:i] if x[3] and x[3]["end"]])
                    hi = min([rep] + [x[3]["at"] for x in items[i + 1:] if x[3]])
                    case.check(g is not None, f"{tid}: fire time {clock.from_us(f)} reported missed without a grace time")
                    case.check(hi - f > g, f"{tid}: fire time {clock.from_us(f)} reported missed though at most {(hi - f) / 1e6} s late, grace time {grace}")
                    case.count("missed")
                    case.count("turn_exact", lo == hi or at == hi)
                    case.count("boundary_out", hi - f == g + 1)
                    n += 1
        case.check(not cs, f"{tid}: the function was called {len(cs)} more times than fire times are reported run")
    return n


def run(ctx):
    ctx.cases("scenario", scenario, quick=1500, thorough=30000)
