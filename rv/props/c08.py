"""C08: one store contract, five stores in lockstep with a dict model."""
import datetime as D

from rv import clock, fns
from rv.backends import KINDS, Backend

RULE = ("a case drives the memory, file, SQL (sqlite), Redis and MongoDB (stand-in client) stores with one random sequence of add, update, delete, "
        "clear, lookup, due, next-run-time and list calls, through one or two open handles and across reopening, and compares every answer "
        "with a dictionary model; non-trivial when at least one query was compared; distinct by sequence and answers")
ASSUMPTIONS = ["the MongoDB server is replaced by rv/fakemongo.py", "ties in next run time may come in any order",
               "updating an id that does not exist is judged for the persistent stores only (the memory store documents inserting it)",
               "next run times between 1965 and 2200, microsecond resolution"]
REQUIRE = {"op:add": 2000, "op:add_conflict": 500, "op:update": 1500, "op:delete": 500, "op:delete_unknown": 200, "op:clear": 100,
           "q:lookup": 2000, "q:due": 2000, "q:next": 1000, "q:all": 2000, "due_nonempty": 500, "due_boundary": 200, "reopened": 100,
           "isolation": 100}
UTC = D.timezone.utc
POOL = ["a", "A", "b", "job-1", "job-2", "job 1", "x.y", "x.task", "näme", "[z]*?", "50%", "quote'\"", "z" * 60, "_id", "0"]
NY = __import__("zoneinfo").ZoneInfo("America/New_York")
TZS = [UTC, NY, NY, D.timezone(D.timedelta(hours=5, minutes=30)), D.timezone(D.timedelta(hours=-8))]


def mk(sched, rng, tid, nrt):
    from asyncz.tasks import Task
    from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger

    t = rng.randrange(3)
    trig = [lambda: IntervalTrigger(seconds=rng.randint(1, 9999), timezone=UTC, start_at=D.datetime(2024, 1, 1, tzinfo=UTC)),
            lambda: CronTrigger(minute=str(rng.randint(0, 59)), timezone=UTC),
            lambda: DateTrigger(run_at=D.datetime(2030, 1, rng.randint(1, 28), tzinfo=UTC))][t]()
    f = dict(args=tuple(rng.choice([1, "s", None, (1, 2), b"\0\xff"]) for _ in range(rng.randint(1, 3))),
             kwargs={k: rng.randint(0, 9) for k in rng.sample(["p", "q", "r"], rng.randint(0, 2))},
             name=rng.choice(["n", "name é", "x" * 30]), coalesce=rng.random() < 0.5, max_instances=rng.randint(1, 9),
             mistrigger_grace_time=rng.choice([None, 1, 5, 77, 2.5]), executor=rng.choice(["default", "other"]))
    task = Task(fns.work, id=tid, trigger=trig, scheduler=sched, store_alias="s", next_run_time=nrt, **f)
    task.submitted = True
    task.pending = False
    f.update(nrt=nrt and nrt.astimezone(UTC), trig=str(trig), fn=fns.work)
    return task, f


def rec(t):
    return dict(args=tuple(t.args), kwargs=dict(t.kwargs), name=t.name, coalesce=t.coalesce, max_instances=t.max_instances,
                mistrigger_grace_time=t.mistrigger_grace_time, executor=t.executor, nrt=t.next_run_time and t.next_run_time.astimezone(UTC), trig=str(t.trigger), fn=t.fn)


def moment(rng, style):
    if style == "old" and rng.random() < 0.3:
        base = D.datetime(1965, 1, 1, tzinfo=UTC) + D.timedelta(days=rng.randint(0, 9000))
    elif rng.random() < 0.1:
        base = D.datetime(2024 + rng.randint(0, 175), 6, 1, tzinfo=UTC)
    elif style == "dst":
        base = D.datetime(2024, 11, 3, 5, 59, 58, tzinfo=UTC) + D.timedelta(seconds=rng.choice([0, 600, 1800, 3000, 3600, 4200, 5400]))
    else:
        base = D.datetime(2024, 3, 10, 9, 59, 58, tzinfo=UTC) + D.timedelta(seconds=rng.randint(0, 4))
    us = rng.choice([0, 0, 1, 999999, 500000, rng.randrange(10**6)])
    return (base + D.timedelta(microseconds=us)).astimezone(rng.choice(TZS))


def lockstep(case):
    from asyncz.exceptions import ConflictIdError, TaskLookupError
    from asyncz.schedulers import AsyncIOScheduler

    rng, ctx = case.rng, case.ctx
    sched = AsyncIOScheduler(timezone="UTC")
    backs = {k: Backend(ctx, k) for k in KINDS}
    handles = {}
    for k, b in backs.items():
        hs = [b.store()]
        if k != "memory" and rng.random() < 0.6:
            hs.append(b.store())
        for h in hs:
            h.start(sched, "s")
        handles[k] = hs
    model = {}
    style = rng.choice(["old", "new", "dst", "dst"])
    ids = rng.sample(POOL, rng.randint(3, 9))
    case.describe(ids=ids, style=style)
    times = [moment(rng, style) for _ in range(rng.randint(2, 7))]

    def pick(k):
        return rng.choice(handles[k])

    def outcome(fn):
        try:
            return ("ok", fn())
        except (ConflictIdError, TaskLookupError) as e:
            return (type(e).__name__,)

    def verify(what):
        now = rng.choice([moment(rng, style), rng.choice(times), rng.choice(times) - D.timedelta(microseconds=1)])
        boundary = any(r["nrt"] == now for r in model.values() if r["nrt"])
        tid = rng.choice(ids)
        qs = rng.sample(["lookup", "due", "next", "all"], rng.randint(1, 4))
        for k in KINDS:
            st = pick(k)
            for q in qs:
                if q == "lookup":
                    t = st.lookup_task(tid)
                    case.eq(None if t is None else (t.id, rec(t)), None if tid not in model else (tid, model[tid]), f"{k}: lookup of {tid!r} after {what}")
                elif q == "next":
                    want = min((r["nrt"].astimezone(UTC) for r in model.values() if r["nrt"]), default=None)
                    got = st.get_next_run_time()
                    case.eq(got and clock.to_us(got), want and clock.to_us(want), f"{k}: next run time after {what}")
                else:
                    ts = st.get_due_tasks(now) if q == "due" else st.get_all_tasks()
                    got = {}
                    for t in ts:
                        case.check(t.id not in got, f"{k}: {q} shows {t.id!r} twice after {what}")
                        got[t.id] = rec(t)
                    want = {i: r for i, r in model.items() if q == "all" or (r["nrt"] and r["nrt"].astimezone(UTC) <= now.astimezone(UTC))}
                    case.eq(got, want, f"{k}: {q} tasks at {now.isoformat()} after {what}")
                    keys = [(t.next_run_time is None, clock.to_us(t.next_run_time or now)) for t in ts]
                    case.check(keys == sorted(keys), f"{k}: {q} tasks out of order after {what}: {keys}")
                    if q == "due":
                        case.count("due_nonempty", bool(want))
                        case.count("due_boundary", boundary)
                case.count("q:" + q)
        case.log.append((what, qs, str(now), tid, sorted(model)))

    try:
        for step in range(rng.randint(15, 40)):
            op = rng.choices(["add", "update", "delete", "clear", "reopen", "foreign"], [10, 7, 4, 0.7, 1, 0.3])[0]
            tid = rng.choice(ids)
            nrt = None if rng.random() < 0.25 else rng.choice(times)
            seed = rng.random()
            if op == "add":
                want = ("ConflictIdError",) if tid in model else ("ok", None)
                for k in KINDS:
                    t, r = mk(sched, __import__("random").Random(seed), tid, nrt)
                    case.eq(outcome(lambda: pick(k).add_task(t)), want, f"{k}: adding {tid!r} (known: {tid in model})")
                if tid not in model:
                    model[tid] = r
                    case.count("op:add")
                else:
                    case.count("op:add_conflict")
            elif op == "update":
                if tid not in model and rng.random() < 0.7 and model:
                    tid = rng.choice(sorted(model))
                for k in KINDS:
                    if tid not in model and k == "memory":
                        continue
                    t, r = mk(sched, __import__("random").Random(seed), tid, nrt)
                    case.eq(outcome(lambda: pick(k).update_task(t)), ("ok", None) if tid in model else ("TaskLookupError",), f"{k}: updating {tid!r} (known: {tid in model})")
                if tid in model:
                    model[tid] = r
                    case.count("op:update")
            elif op == "delete":
                for k in KINDS:
                    case.eq(outcome(lambda: pick(k).delete_task(tid)), ("ok", None) if tid in model else ("TaskLookupError",), f"{k}: deleting {tid!r} (known: {tid in model})")
                case.count("op:delete" if tid in model else "op:delete_unknown")
                model.pop(tid, None)
            elif op == "clear":
                for k in KINDS:
                    pick(k).remove_all_tasks()
                model.clear()
                case.count("op:clear")
            elif op == "reopen":
                for k in KINDS:
                    if k == "memory":
                        continue
                    i = rng.randrange(len(handles[k]))
                    handles[k][i].shutdown()
                    handles[k][i] = backs[k].store()
                    handles[k][i].start(sched, "s")
                case.count("reopened")
            elif op == "foreign":
                import os

                with open(os.path.join(backs["file"].dir, "README"), "w") as f:
                    f.write("not a task")
            verify(f"{op} {tid!r}")
    finally:
        for k in KINDS:
            for h in handles[k]:
                h.shutdown()
            backs[k].close()


def isolation(case):
    """Two stores of one kind in one location under different names do not touch each other."""
    import os

    from asyncz.exceptions import TaskLookupError
    from asyncz.schedulers import AsyncIOScheduler
    from asyncz.stores.file import FileStore
    from asyncz.stores.mongo import MongoDBStore
    from asyncz.stores.redis import RedisStore
    from asyncz.stores.sqlalchemy import SQLAlchemyStore

    rng, ctx = case.rng, case.ctx
    kind = rng.choice(["file", "sqlite", "redis", "mongo", "memory"])
    b = Backend(ctx, kind)
    sched = AsyncIOScheduler(timezone="UTC")
    if kind == "file":
        sub = rng.random() < 0.5
        mks = [lambda: FileStore(b.dir, suffix=".one"), lambda: FileStore(os.path.join(b.dir, "d.sub") if sub else b.dir, suffix=".[x]*")]
    elif kind == "sqlite":
        mks = [lambda: SQLAlchemyStore(database=f"sqlite:///{b.path}", tablename="one"), lambda: SQLAlchemyStore(database=f"sqlite:///{b.path}", tablename="two")]
    elif kind == "redis":
        mks = [lambda: RedisStore(unix_socket_path=b.sock, tasks_key="k1", run_times_key="r1"),
               (lambda: RedisStore(unix_socket_path=b.sock, tasks_key="k2", run_times_key="r2")) if rng.random() < 0.5 else
               (lambda: RedisStore(unix_socket_path=b.sock, database=3, tasks_key="k1", run_times_key="r1"))]
    elif kind == "mongo":
        mks = [lambda: MongoDBStore(client=b.client, collection="one"),
               (lambda: MongoDBStore(client=b.client, collection="two")) if rng.random() < 0.5 else (lambda: MongoDBStore(client=b.client, database="db2", collection="one"))]
    else:
        mks = [b.store, b.store]
    case.describe(kind=kind)
    if kind == "redis":
        import redis

        redis.Redis(unix_socket_path=b.sock, db=3).flushdb()
    stores = [m() for m in mks]
    for s in stores:
        s.start(sched, "s")
    models = [{}, {}]
    t0 = D.datetime(2024, 1, 1, tzinfo=UTC)
    try:
        for _ in range(rng.randint(8, 20)):
            w = rng.randrange(2)
            st, m = stores[w], models[w]
            tid = rng.choice(["a", "b", "c"])
            r = rng.random()
            if r < 0.55:
                nrt = t0 + D.timedelta(seconds=rng.randint(0, 50)) if rng.random() < 0.8 else None
                t, f = mk(sched, rng, tid, nrt)
                if tid in m:
                    st.update_task(t)
                else:
                    st.add_task(t)
                m[tid] = f
            elif r < 0.85:
                try:
                    st.delete_task(tid)
                    case.check(tid in m, f"{kind}: store {w} deleted {tid!r} it does not hold")
                except TaskLookupError:
                    case.check(tid not in m, f"{kind}: store {w} does not find {tid!r}")
                m.pop(tid, None)
            else:
                st.remove_all_tasks()
                m.clear()
            for s, mm in zip(stores, models):
                case.eq({t.id: rec(t) for t in s.get_all_tasks()}, mm, f"{kind}: tasks of a store next to another one")
                case.eq(s.get_next_run_time(), min((f["nrt"] for f in mm.values() if f["nrt"]), default=None), f"{kind}: next run time")
                case.eq(sorted(t.id for t in s.get_due_tasks(t0 + D.timedelta(seconds=25))),
                        sorted(i for i, f in mm.items() if f["nrt"] and f["nrt"] <= t0 + D.timedelta(seconds=25)), f"{kind}: due tasks")
                case.count("isolation")
            case.log.append((w, tid, round(r, 2)))
    finally:
        for s in stores:
            s.shutdown()
        b.close()


def run(ctx):
    clock.set_dt(D.datetime(2024, 3, 10, 10, 0, 0, tzinfo=UTC))
    ctx.cases("isolation", isolation, quick=300, thorough=2500)
    ctx.cases("lockstep", lockstep, quick=700, thorough=7000)
