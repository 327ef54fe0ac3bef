"""C19: inspection reports the truth, filtered and sorted as asked, and detached."""
import asyncio
import functools
import itertools
from datetime import timedelta

from rv import clock, fns, gen
from rv.world import UTC, run_world, us

RULE = ("a case builds a real scheduler (virtual time, often around a clock change) with 1-3 stores and several executors, and adds, pauses, renames, reschedules, "
        "runs and removes tasks of all sorts before and after the start; after each change listings, single lookups, random filters and orders, scheduler counts "
        "and older snapshots are compared with the harness's own book of the tasks; non-trivial when at least 3 tasks were listed; distinct by tasks and queries")
ASSUMPTIONS = ["fire times a trigger yields and its description are taken from the trigger itself", "snapshots hold the argument objects themselves, not copies of them"]
REQUIRE = {"listings": 15000, "entries": 40000, "filtered": 8000, "filter:q": 2500, "filter:schedule_state": 2500, "filter:trigger": 2500, "filter:executor": 2500,
           "filter:store": 2000, "hits": 4000, "sorted:next_run_time": 1000, "sorted:name": 800, "descending": 3000, "across_clock_change": 300, "invalid": 1500,
           "old_snapshots": 5000, "infos": 3000, "mutation_refused": 800, "pending_listed": 2000, "same_id_twice": 200}
STATE = {True: "paused", False: "scheduled"}
SORTS = ["id", "name", "next_run_time", "schedule_state", "executor", "store", "trigger"]


def scenario(case):
    r = case.rng

    async def main(w):
        from asyncz.enums import TaskScheduleState
        from asyncz.executors.asyncio import AsyncIOExecutor
        from asyncz.executors.debug import DebugExecutor
        from asyncz.triggers import AndTrigger, CronTrigger, DateTrigger, IntervalTrigger, OrTrigger, ShutdownTrigger

        sim, tz = w.sim, w.tz
        kinds = {"default": r.choice(["memory", "memory", "file", "sqlite", "mongo"])}
        for a in ("Backup", "b2")[: r.choice([0, 1, 1, 2])]:
            kinds[a] = r.choice(["memory", "file", "sqlite", "redis" if a == "b2" else "mongo"])
        execs = {"default": AsyncIOExecutor(), **{a: DebugExecutor() for a in ("Pool", "x")[: r.randint(0, 2)]}}
        s = w.scheduler(stores=w.stores(kinds), executors=execs, identity=r.choice(["", "me", "node-1"]) or None) if r.random() < 0.5 else \
            w.scheduler(stores=w.stores(kinds), executors=execs)
        case.describe(zone=str(tz), base=str(sim.now()), kinds=kinds, ops=[])
        ops = case.desc["ops"]
        book = []  # records, in the order they were added
        state = {"on": False, "paused": False, "started": None}
        old = []
        sim.plan = lambda key, n: {}
        ids = itertools.count()

        def now():
            return sim.now().astimezone(tz)

        def find(tid, store=None):
            return [b for b in book if b["id"] == tid and store in (None, b["store"])]

        def trigger():
            k = r.choice(["interval", "interval", "cron", "date", "or", "and", "shutdown"])
            if k == "interval":
                return IntervalTrigger(seconds=r.choice([30, 600, 3600, 7200]), timezone=tz)
            if k == "cron":
                return CronTrigger(hour="*", minute=r.choice(["*/7", "5,35", "0"]), timezone=tz)
            if k == "date":
                return DateTrigger(run_at=sim.now() + timedelta(seconds=r.choice([40, 1900, 3700, 5500])), timezone=tz)
            if k == "or":
                return OrTrigger(triggers=[IntervalTrigger(seconds=900, timezone=tz), CronTrigger(minute="3", timezone=tz)])
            if k == "and":
                return AndTrigger(triggers=[CronTrigger(minute="*/6", timezone=tz), CronTrigger(minute="*/4", timezone=tz)])
            return ShutdownTrigger()

        def add():
            store = r.choice(list(kinds))
            persistent = kinds[store] != "memory"
            h = fns.Holder("h")
            lam = lambda *a, **k: None  # noqa: E731
            fn, name, ref = r.choice([
                (fns.work, "work", "rv.fns:work"), (fns.awork, "awork", "rv.fns:awork"), ("rv.fns:work2", "work2", "rv.fns:work2"),
                (fns.Holder.cmeth, "Holder.cmeth", "rv.fns:Holder.cmeth"), (fns.Holder.smeth, "Holder.smeth", "rv.fns:Holder.smeth")]
                + ([] if persistent else [(h.meth, "Holder.meth", "rv.fns:Holder.meth"), (lam, lam.__qualname__, None), (functools.partial(fns.work), "partial", None)]))
            trig = trigger()
            tid = r.choice([f"t{next(ids)}", f"T{next(ids)}-Clean", f"ü{next(ids)}"])
            if book and r.random() < 0.15:
                same = r.choice(book)["id"]
                if not find(same, store):
                    tid = same
                    case.count("same_id_twice")
            given = {}
            if r.random() < 0.6:
                given["name"] = r.choice(["alpha", "Alpha", "beta", "Zed", "cleanup job", "ärger", "x" * 60])
            grace = r.choice([1, 5, 2.5, None, 3600])
            given.update(mistrigger_grace_time=grace, coalesce=r.random() < 0.5, max_instances=r.randint(1, 4))
            ex = r.choice(list(execs))
            if ex != "default" or r.random() < 0.5:
                given["executor"] = ex
            args, kwargs = ["k", *r.choice([[], [1], ["a", None]])], r.choice([{}, {"x": 1}, {"y": [1, 2], "z": "q"}])
            nxt, start = None, True
            k = r.random()
            if k < 0.25:
                given["next_run_time"], start = None, False
            elif k < 0.6:
                nxt = given["next_run_time"] = now() + timedelta(seconds=r.choice([60, 600, 1799, 3600, 3599, 4000, 5400, 7200]))
            rec = dict(id=tid, store=store, name=given.get("name", name), callable=name, ref=ref, trigger=trig, executor=ex, grace=grace, coalesce=given["coalesce"],
                       max=given["max_instances"], args=tuple(args), kwargs=dict(kwargs), next=nxt, start=start, pending=not state["on"])
            ops.append(("add", tid, store, str(trig), rec["name"], str(nxt), start))
            if state["on"]:
                schedule(rec)
            s.add_task(fn, trig, args=args, kwargs=kwargs, id=tid, store=store, **given)
            book.append(rec)

        def schedule(rec):
            if rec["next"] is None and rec["start"]:
                rec["next"] = rec["trigger"].get_next_trigger_time(tz, None, now())
            rec["pending"] = False

        def advance():
            if not state["on"] or state["paused"]:
                return
            for b in list(book):
                while b["next"] is not None and us(b["next"]) <= sim.us:
                    b["next"] = b["trigger"].get_next_trigger_time(tz, b["next"], now())
                    if b["next"] is None:
                        book.remove(b)

        def label(b):
            return "pending" if b["pending"] else STATE[b["next"] is None]

        def verify(info, b):
            where = f"{b['store']}/{b['id']}"
            case.eq((info.id, info.store_alias), (b["id"], b["store"]), f"identity of {where}")
            case.eq(info.name, b["name"], f"name of {where}")
            case.eq(info.callable_name, b["callable"], f"callable name of {where}")
            case.eq(info.callable_reference, b["ref"], f"callable reference of {where}")
            t = b["trigger"]
            case.eq((info.trigger_alias, info.trigger_name), (t.alias, type(t).__name__), f"trigger of {where}")
            if t.alias != "shutdown":
                case.eq(info.trigger_description, str(t), f"trigger description of {where}")
            case.eq(info.executor, b["executor"], f"executor of {where}")
            case.eq(info.schedule_state.value, label(b), f"state of {where}")
            case.eq(us(info.next_run_time) if info.next_run_time else None, us(b["next"]) if b["next"] else None, f"next run time of {where}")
            case.eq((info.coalesce, info.max_instances, info.mistrigger_grace_time), (b["coalesce"], b["max"], b["grace"]), f"safeguards of {where}")
            case.eq((tuple(info.args), dict(info.kwargs)), (b["args"], b["kwargs"]), f"arguments of {where}")
            case.eq(info.pending, b["pending"], f"pending flag of {where}")
            case.eq(info.paused, label(b) == "paused", f"paused flag of {where}") if not b["pending"] else None
            case.eq(info.submitted, True, f"submitted flag of {where}")
            case.count("entries")

        def key(by, b):
            low = str.lower
            n = (b["next"] is None, us(b["next"]) if b["next"] else 0)
            return {"id": lambda: (low(b["id"]),), "name": lambda: (low(b["name"]), low(b["id"])), "next_run_time": lambda: (*n, low(b["name"]), low(b["id"])),
                    "schedule_state": lambda: (label(b), *n, low(b["id"])), "executor": lambda: (low(b["executor"]), low(b["id"])),
                    "store": lambda: (low(b["store"]), low(b["id"])), "trigger": lambda: (low(b["trigger"].alias), low(b["id"]))}[by]()

        def visible():
            return [b for b in book if b["pending"] or state["on"]]

        def match(b, q):
            q = q.strip().lower()
            t = b["trigger"]
            return any(q in x.lower() for x in (b["id"], b["name"], b["callable"], b["ref"] or "", t.alias, type(t).__name__, *([str(t)] if t.alias != "shutdown" else []), b["executor"], b["store"], label(b)))

        def query(full=False):
            kw, want = {}, visible()
            if not full:
                if r.random() < 0.3:
                    kw["store"] = r.choice([*kinds, "nowhere"])
                    want = [b for b in want if b["store"] == kw["store"]]
                if r.random() < 0.35:
                    st = r.choice(["pending", "paused", "scheduled"])
                    kw["schedule_state"] = r.choice([st, TaskScheduleState(st), st.upper(), f" {st} "])
                    want = [b for b in want if label(b) == st]
                if r.random() < 0.35:
                    kw["executor"] = r.choice([*execs, *execs, "nowhere"])
                    want = [b for b in want if b["executor"] == kw["executor"]]
                if r.random() < 0.35:
                    v = r.choice(["interval", "cron", "date", "or", "and", "shutdown", "IntervalTrigger", "crontrigger", "OrTrigger", "nothing"])
                    kw["trigger"] = r.choice([v, v.upper(), f" {v}"])
                    want = [b for b in want if v.lower() in (b["trigger"].alias, type(b["trigger"]).__name__.lower())]
                if r.random() < 0.4:
                    q = "zz"
                    if book and r.random() < 0.85:
                        b = r.choice(book)
                        src = r.choice([b["id"], b["name"], b["callable"], b["ref"] or "-", b["trigger"].alias, type(b["trigger"]).__name__, str(b["trigger"]), b["executor"],
                                        b["store"], label(b)])
                        i = r.randrange(len(src))
                        q = src[i: i + r.randint(1, 8)]
                        if not q.strip():
                            q = "a"
                    kw["q"] = r.choice([q, q.upper(), f"  {q} "])
                    if any(b["trigger"].alias == "shutdown" and kw["q"].strip().lower() in str(b["trigger"]).lower() for b in book):
                        del kw["q"]  # what the description of a shutdown trigger says is not judged
                    else:
                        want = [b for b in want if match(b, kw["q"])]
                for k in kw:
                    case.count("filter:" + k)
                if kw:
                    case.count("filtered")
                if r.random() < 0.8:
                    kw["sort_by"] = r.choice(SORTS)
                if r.random() < 0.4:
                    kw["descending"] = True
            by = kw.get("sort_by", "next_run_time")
            infos = s.get_task_infos(**kw)
            case.count("listings")
            case.eq(sorted((i.id, i.store_alias) for i in infos), sorted((b["id"], b["store"]) for b in want), f"entries of the listing {kw}")
            case.count("hits", len(infos) if kw else 0)
            recs = {(b["id"], b["store"]): b for b in want}
            for i in infos:
                verify(i, recs[(i.id, i.store_alias)])
            ks = [key(by, recs[(i.id, i.store_alias)]) for i in infos]
            case.eq(ks, sorted(ks, reverse=bool(kw.get("descending"))), f"order of the listing {kw}")
            case.count("sorted:" + by)
            if kw.get("descending"):
                case.count("descending")
            if by == "next_run_time" and len({i.next_run_time.utcoffset() for i in infos if i.next_run_time}) > 1:
                case.count("across_clock_change")
            case.count("pending_listed", sum(b["pending"] for b in want))
            for i in infos[:3]:
                if r.random() < 0.3:
                    old.append((i, repr(i), i.model_dump()))
            if len(infos) >= 3:
                case.trivial = False

        def singles():
            for b in r.sample(book, min(len(book), 2)):
                x = s.get_task_info(b["id"], b["store"])
                if b not in visible():
                    case.eq(x, None, f"{b['id']} in a stopped scheduler")
                    continue
                case.check(x is not None, f"{b['id']} is not found")
                verify(x, b)
                if len(find(b["id"])) == 1:
                    verify(s.get_task_info(b["id"]), b)
                other = r.choice([k for k in [*kinds, "nowhere"] if k != b["store"]])
                if not find(b["id"], other):
                    case.eq(s.get_task_info(b["id"], other), None, f"{b['id']} looked up in the wrong store {other}")
                # snapshots refuse changes and are no way to change the task
                for f, v in (("name", "hacked"), ("next_run_time", None), ("max_instances", 99)):
                    try:
                        setattr(x, f, v)
                    except Exception:
                        case.count("mutation_refused")
                    else:
                        case.fail(f"a snapshot of {b['id']} could be modified: {f}")
                x.kwargs["hacked"] = True
                verify(s.get_task_info(b["id"], b["store"]), b)
            case.eq(s.get_task_info("unknown id"), None, "lookup of an unknown id")

        def invalid():
            bad = r.choice([dict(sort_by=r.choice(["ID", "", "when", "next-run-time", "args"])), dict(schedule_state=r.choice(["", "running", "done", "sched"]))])
            try:
                s.get_task_infos(**bad)
            except ValueError:
                case.count("invalid")
                return
            case.fail(f"get_task_infos accepted {bad}")

        def overall():
            i = s.get_scheduler_info()
            vis = visible()
            labels = [label(b) for b in vis]
            on = "stopped" if not state["on"] else "paused" if state["paused"] else "running"
            case.eq((i.state_label, i.running), (on, state["on"]), "scheduler state")
            case.eq((i.task_count, i.scheduled_task_count, i.paused_task_count, i.pending_task_count, i.submitted_task_count),
                    (len(vis), labels.count("scheduled"), labels.count("paused"), labels.count("pending"), len(vis)), "scheduler counts")
            al = sorted({*kinds, *(["default"] if state["started"] else [])})
            case.eq((list(i.store_aliases), list(i.executor_aliases)), (al, sorted(execs)), "aliases")
            case.eq(i.timezone, str(tz), "time zone")
            case.eq(us(i.started_at) if i.started_at else None, state["started"] if state["on"] else None, "started at")
            if state["on"]:
                case.check(abs(i.uptime_seconds - (sim.us - state["started"]) / 1e6) < 0.001, f"uptime {i.uptime_seconds}")
            else:
                case.eq(i.uptime_seconds, None, "uptime of a stopped scheduler")
            case.eq(i.identity, s.identity, "identity")
            for x in s.get_scheduler_instance_infos():
                for f in ("identity", "state_label", "started_at", "timezone", "executor_aliases", "store_aliases", "task_count", "scheduled_task_count", "paused_task_count",
                          "pending_task_count", "submitted_task_count", "uptime_seconds"):
                    case.eq(getattr(x, f), getattr(i, f), f"instance {f}")
                case.eq((x.active, x.stale), (state["on"], not state["on"]), "instance activity")
                case.eq(us(x.last_seen_at), sim.us, "instance last seen")
            for x, f in ((i, "task_count"), (i, "state_label")):
                try:
                    setattr(x, f, 1)
                except Exception:
                    pass
                else:
                    case.fail("a scheduler snapshot could be modified")
            old.append((i, repr(i), i.model_dump()))
            case.count("infos")

        def change():
            b = r.choice(book)
            if b not in visible():
                return
            k = r.choice(["pause", "resume", "name", "reschedule", "delete", "fields", "run"])
            ops.append((k, b["id"], b["store"]))
            tid, st = b["id"], b["store"]
            if k == "pause":
                b["next"], b["start"] = None, False
                s.pause_task(tid, st)
            elif k == "resume":
                nxt = b["trigger"].get_next_trigger_time(tz, None, now())
                if nxt is None:
                    book.remove(b)
                else:
                    b["next"], b["start"] = nxt, True
                s.resume_task(tid, st)
            elif k == "name":
                b["name"] = r.choice(["renamed", "Omega", "beta"])
                s.update_task(tid, st, name=b["name"])
            elif k == "reschedule":
                t = IntervalTrigger(seconds=r.choice([60, 3000, 5000]), timezone=tz)
                b["trigger"] = t
                b["next"], b["start"] = t.get_next_trigger_time(tz, None, now()), True
                s.reschedule_task(tid, st, t)
            elif k == "delete":
                book.remove(b)
                s.delete_task(tid, st)
            elif k == "fields":
                b["max"], b["grace"], b["coalesce"] = r.randint(1, 9), r.choice([None, 7]), r.random() < 0.5
                b["executor"] = r.choice(list(execs))
                b["kwargs"] = {"n": r.randrange(99)}
                s.update_task(tid, st, max_instances=b["max"], mistrigger_grace_time=b["grace"], coalesce=b["coalesce"], executor=b["executor"], kwargs=dict(b["kwargs"]))
            elif state["on"] and b["next"] is not None and us(b["next"]) > sim.us + 1000:
                nxt = b["trigger"].get_next_trigger_time(tz, now(), now())
                if nxt is None:
                    book.remove(b)
                elif us(nxt) > sim.us:
                    b["next"] = nxt
                s.run_task(tid, st)

        case.trivial = True
        for _ in range(r.randint(12, 45)):
            k = r.random()
            if k < 0.4 or not book:
                add()
            elif k < 0.75:
                change()
            elif k < 0.83:
                d = r.choice([0.5, 7, 31, 200, 1800])
                ops.append(("sleep", d))
                await asyncio.sleep(d)
            elif k < 0.92:
                if not state["on"]:
                    ops.append(("start",))
                    for b in book:
                        if b["pending"]:
                            schedule(b)
                    state.update(on=True, paused=False, started=sim.us)
                    await w.start(s)
                elif r.random() < 0.5:
                    state["paused"] = not state["paused"]
                    s.pause() if state["paused"] else s.resume()
                elif r.random() < 0.3:
                    ops.append(("stop",))
                    book[:] = [b for b in book if kinds[b["store"]] != "memory" and b["trigger"].alias != "shutdown"]
                    state["on"] = False
                    await w.stop(s)
            await sim.settle()
            advance()
            v = getattr(sim, "violation", None)
            if v:
                raise v
            query(full=True)
            for _ in range(2):
                query()
            if r.random() < 0.3:
                singles()
            if r.random() < 0.2:
                invalid()
            if r.random() < 0.3:
                overall()
            for x, rep, dump in r.sample(old, min(len(old), 4)):
                case.eq(repr(x), rep, "an older snapshot reads")
                case.check(x.model_dump() == dump, "an older snapshot changed")
                case.count("old_snapshots")
        if state["on"]:
            await w.stop(s)

    run_world(case, main)


def run(ctx):
    ctx.cases("views", scenario, quick=420, thorough=6000)
