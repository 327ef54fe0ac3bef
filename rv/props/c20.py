"""C20: a preview shows what will run, and changes nothing."""
import asyncio
import itertools
from datetime import timedelta

from rv import fns, gen
from rv.world import run_world, us

RULE = ("a case runs a real scheduler in virtual time, often around a clock change, on 1-3 stores with tasks that are pending, scheduled, overdue (the scheduler paused), paused "
        "or finished; previews with all counts are taken at random moments, for paused and pending tasks also for a later moment, and every fire time later handed over is held "
        "against all previews outstanding for that task; a deep picture of tasks, records, triggers, events and timers is compared around each preview; non-trivial when at "
        "least 10 previewed fire times were handed over")
ASSUMPTIONS = ["tasks without jitter and without a missed-start limit, on executors that are never full"]
REQUIRE = {"previews": 7000, "matched": 20000, "exhausted": 800, "ended_as_previewed": 100, "went_on_as_previewed": 1500, "state:scheduled": 5000, "state:paused": 800, "state:pending": 800,
           "state:overdue": 300, "resumed": 200, "later_moment": 150, "refused_counts": 500, "unknown": 500, "none_left": 100, "across_clock_change": 200, "full_50": 200,
           "pictures": 7000, "kind:memory": 2000, "kind:file": 500, "kind:sqlite": 500, "kind:redis": 300, "kind:mongo": 300}


def scenario(case):
    r = case.rng
    errs = []

    async def main(w):
        from asyncz.events.constants import TASK_MAX_INSTANCES, TASK_MISSED, TASK_SUBMITTED
        from asyncz.executors.asyncio import AsyncIOExecutor
        from asyncz.executors.debug import DebugExecutor
        from asyncz.triggers import ShutdownTrigger

        sim, tz = w.sim, w.tz
        kinds = {"default": r.choice(["memory", "memory", "file", "sqlite", "redis", "mongo"])}
        for a in ("b", "c")[: r.choice([0, 1, 1, 2])]:
            kinds[a] = r.choice(["memory", "file", "sqlite", "mongo"])
        stores = w.stores(kinds)
        s = w.scheduler(stores=stores, executors={"default": AsyncIOExecutor(), "debug": DebugExecutor()})
        base = sim.now()
        case.describe(zone=str(tz), base=str(base), kinds=kinds, ops=[])
        ops = case.desc["ops"]
        log = lambda *a: ops.append([round((sim.us - us(base)) / 1e6, 6), *map(str, a)])  # noqa: E731
        T, events = {}, []
        st = {"on": False, "paused": False}
        ids = itertools.count()
        sim.plan = lambda key, n: {}

        def on_event(ev):
            events.append(ev)
            try:
                if ev.code == TASK_SUBMITTED:
                    m = T[ev.task_id]
                    got = [us(x) for x in ev.scheduled_run_times]
                    m["handed"] += len(got)
                    for g in got:
                        for p in list(m["previews"]):
                            held(m, p, g, ev)
                elif ev.code in (TASK_MAX_INSTANCES, TASK_MISSED):
                    case.fail(f"{ev.task_id} was not run for {ev.scheduled_run_times}")
            except BaseException as exc:
                errs.append(exc)

        def held(m, p, g, ev):
            """One fire time handed over, against one preview of the task."""
            tid, left = m["id"], p["left"]
            if not left:
                case.check(not p["exhausted"], f"{tid}: {ev.scheduled_run_times} handed over after the end of the schedule according to {p['text']}")
                case.count("went_on_as_previewed")
                m["previews"].remove(p)
                return
            skipped = 0
            if m["coalesce"]:
                # of several overdue fire times a coalescing task hands over the last
                while len(left) > 1 and left[0] < g:
                    left.pop(0)
                    skipped += 1
                case.check(skipped <= ev.coalesced_run_count, f"{tid}: previewed fire times were left out at {ev.scheduled_run_times}: {p['text']}")
                if left[0] < g and not p["exhausted"]:
                    m["previews"].remove(p)
                    return
            x = left.pop(0)
            case.check(x == g, f"{tid}: handed over {ev.scheduled_run_times} where the preview {p['text']} says {x}")
            case.count("matched")
            if not left and p["exhausted"]:
                m["ending"] = True

        s.add_listener(on_event)

        def add():
            k = r.random()
            if k < 0.06:
                t, d = ShutdownTrigger(), "shutdown"
            else:
                t, d = gen.trigger(r, tz, sim.now(), 1, 0, pure=True, fast=True)
            store = r.choice(list(kinds))
            tid = f"t{next(ids)}"
            sync = r.random() < 0.5
            m = dict(id=tid, store=store, coalesce=r.random() < 0.3, previews=[], handed=0, paused=False, d=d, ending=False, shutdown=d == "shutdown", given=False)
            kw = {}
            if r.random() < 0.3 and d != "shutdown":
                kw["next_run_time"] = None
                m["paused"] = True
            elif r.random() < 0.15 and d != "shutdown":
                kw["next_run_time"] = gen.express(r, sim.now() + timedelta(seconds=r.choice([0.5, 3, 60, 1000])), tz)
                m["given"] = True
            T[tid] = m
            log("add", tid, store, d, "coalesce" if m["coalesce"] else "", kw)
            s.add_task(fns.work if sync else fns.awork, t, args=[tid], id=tid, store=store, coalesce=m["coalesce"], max_instances=10**6, mistrigger_grace_time=None,
                       executor=r.choice(["default", "debug"]) if sync else "default", **kw)

        def picture():
            out = [repr(s.get_task_infos()), len(events), s.state, len(s.pending_tasks)]
            for i in s.get_task_infos():
                t = s.get_task(i.id, i.store_alias)
                out.append((i.id, type(t.trigger).__name__, deep(t.trigger), sorted((k, repr(v)) for k, v in vars(t).items() if k not in ("scheduler", "trigger", "fn", "logger"))))
            for a, b in w.backends.items():
                out.append((a, b.records() if st["on"] else None))
            return out

        def deep(x):
            if isinstance(x, (list, tuple)):
                return [deep(y) for y in x]
            d = getattr(x, "__dict__", None)
            if d is None or type(x).__module__.split(".")[0] != "asyncz":
                return repr(x)
            return type(x).__name__, sorted((k, deep(v)) for k, v in d.items())

        def preview(tid=None):
            live = [m for m in T.values() if s.get_task(m["id"], m["store"]) is not None]
            if not live:
                return
            m = T[tid] if tid else r.choice(live)
            tid = m["id"]
            info = s.get_task_info(tid, m["store"])
            if info is None:
                return
            state = info.schedule_state.value
            overdue = bool(info.next_run_time) and us(info.next_run_time) <= sim.us
            count = r.choice([1, 2, 3, 5, 10, 50, r.randint(1, 50)])
            kw = {"count": count} if count != 5 or r.random() < 0.5 else {}
            if r.random() < 0.6:
                kw["store"] = m["store"]
            ahead = None
            if not info.next_run_time:
                if r.random() < 0.35:
                    ahead = sim.now() + timedelta(seconds=r.choice([1, 30, 600, 1800, 3600]))
                    kw["now"] = gen.express(r, ahead, tz)
            elif r.random() < 0.2:
                kw["now"] = gen.express(r, sim.now(), tz)
            before = picture()
            p = s.preview_task_runs(tid, **kw)
            after = picture()
            case.check(before == after, f"the preview {kw} of {tid} changed something: {[(a, b) for a, b in zip(before, after) if a != b][:2]}")
            case.count("pictures")
            case.check(p is not None, f"no preview of {tid}")
            case.eq(p.task, info, f"the task in a preview of {tid}")
            case.eq(p.requested_count, count, "requested count")
            case.eq(p.timezone, str(tz), "time zone of a preview")
            case.eq(us(p.generated_at), us(ahead) if ahead else sim.us, "moment of a preview")
            left = [us(x) for x in p.run_times]
            text = f"of {tid} at {sim.now()} {kw} {state}: {[str(x) for x in p.run_times][:4]} ({len(left)}) exhausted={p.exhausted}"
            log("preview", text)
            case.check(len(left) <= count, f"more fire times than asked for: {text}")
            case.check(len(left) == count or p.exhausted, f"fewer fire times than asked for though the schedule goes on: {text}")
            case.check(left == sorted(set(left)), f"fire times out of order: {text}")
            if info.next_run_time:
                case.eq(left[:1], [us(info.next_run_time)], f"first fire time of {text}")
            case.count("previews")
            case.count("state:" + ("overdue" if overdue else state))
            case.count("kind:" + kinds[m["store"]])
            if p.exhausted:
                case.count("exhausted")
            if len(left) == 50:
                case.count("full_50")
            if len({x.utcoffset() for x in p.run_times}) > 1:
                case.count("across_clock_change")
            e = dict(left=left, exhausted=p.exhausted, text=text)
            if ahead or (not info.next_run_time and not (state == "pending" and not m["paused"])):
                m["later"] = e  # becomes binding if the task is resumed at that moment
                e["at"] = us(ahead) if ahead else sim.us
            elif state == "pending" and not m["given"]:
                m["later"] = e
                e["at"] = sim.us
            else:
                m["previews"].append(e)

        def bind(m):
            """The task begins now: a preview for this very moment must hold."""
            e = m.pop("later", None)
            m["previews"].clear()
            if e and e["at"] == sim.us:
                case.count("resumed")
                if not e["left"]:
                    case.count("none_left")
                m["previews"].append(e)
                return e
            return None

        def resume(m):
            log("resume", m["id"])
            e = bind(m)
            x = s.resume_task(m["id"], m["store"])
            m["paused"] = False
            if e is not None:
                case.eq(x is None, not e["left"], f"resume of {m['id']} finished the task; preview {e['text']}")
            if x is None:
                T.pop(m["id"])

        def refused():
            live = list(T) or ["zz"]
            n = r.choice([0, -1, 51, 1000, -50])
            try:
                s.preview_task_runs(r.choice([r.choice(live), "unknown"]), count=n)
            except ValueError:
                case.count("refused_counts")
            else:
                case.fail(f"a preview of {n} fire times was accepted")
            x = s.preview_task_runs("unknown", count=r.randint(1, 50))
            case.eq(x, None, "preview of an unknown id")
            if T and len(kinds) > 1:
                m = r.choice(list(T.values()))
                case.eq(s.preview_task_runs(m["id"], r.choice([k for k in kinds if k != m["store"]])), None, "preview of an id in another store")
            case.count("unknown")

        def raise_errs():
            v = getattr(sim, "violation", None) or (errs[0] if errs else None)
            if v:
                raise v

        def ended():
            for m in list(T.values()):
                if m["ending"]:
                    case.eq(s.get_task(m["id"], m["store"]), None, f"{m['id']}, whose schedule ended according to its previews")
                    case.count("ended_as_previewed")
                    T.pop(m["id"])
                elif not m["shutdown"] and s.get_task(m["id"], m["store"]) is None:
                    for p in m["previews"]:
                        case.fail(f"{m['id']} is gone; preview {p['text']}, left {p['left'][:3]}")
                    T.pop(m["id"])

        async def sleep(d):
            log("sleep", d)
            await asyncio.sleep(d)
            await sim.settle()
            raise_errs()
            if st["on"] and not st["paused"]:
                ended()

        for _ in range(r.randint(2, 5)):
            add()
        for _ in range(r.randint(18, 32)):
            k = r.random()
            if k < 0.08:
                add()
            elif k < 0.5:
                for _ in range(r.randint(1, 3)):
                    preview()
            elif k < 0.56:
                refused()
            elif k < 0.66 and T:
                m = r.choice(list(T.values()))
                if m["shutdown"]:
                    continue
                if m["paused"]:
                    e = m.get("later")
                    if not e or e["at"] < sim.us:
                        preview(m["id"])
                        e = m.get("later")
                    if e and e["at"] > sim.us:
                        case.count("later_moment")
                        await sleep((e["at"] - sim.us) / 1e6)
                    if m["id"] in T:
                        resume(m)
                else:
                    log("pause", m["id"])
                    s.pause_task(m["id"], m["store"])
                    m["previews"].clear()
                    m.pop("later", None)
                    m["paused"], m["given"] = True, False
            elif k < 0.72 and T:
                m = r.choice(list(T.values()))
                log("rename", m["id"])
                s.update_task(m["id"], m["store"], name=f"n{next(ids)}")
            elif not st["on"]:
                if r.random() < 0.7:
                    for m in T.values():
                        if not m["paused"] and not m["shutdown"]:
                            preview(m["id"])
                    log("start")
                    for m in list(T.values()):
                        if not m["paused"] and not m["given"]:
                            e = bind(m)
                            if e is not None and not e["left"]:
                                m["paused"] = True  # without any fire time a task is kept, as if paused
                        elif m["given"]:
                            m["given"] = False
                    st["on"] = True
                    await w.start(s)
                    await sim.settle()
                    raise_errs()
                    ended()
                else:
                    await sleep(r.choice([1, 100]))
            elif k < 0.78:
                st["paused"] = not st["paused"]
                log("scheduler", "pause" if st["paused"] else "resume")
                s.pause() if st["paused"] else s.resume()
                await sim.settle()
                raise_errs()
                if not st["paused"]:
                    ended()
            else:
                await sleep(r.choice([0.4, 3, 31, 200, 900, 900, 3700]))
        if st["on"]:
            if st["paused"]:
                s.resume()
            await sleep(r.choice([600, 4000]))
            s.pause()
            await sim.settle()
        case.trivial = sum(m["handed"] for m in T.values()) < 10 and len(events) < 25
        if st["on"]:
            await w.stop(s)
        raise_errs()

    run_world(case, main)


def run(ctx):
    ctx.cases("previews", scenario, quick=700, thorough=9000)
