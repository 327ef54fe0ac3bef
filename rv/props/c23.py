"""C23: run history has one record per run, with its true final state."""
import datetime as D
from datetime import timedelta

from rv import clock, fns, gen
from rv.delays import Delays, together
from rv.world import UTC, run_world, us

RULE = ("a case feeds a history with submissions and outcomes - random sequences in any order over look-alike ids and stores with the same instants in several zones; "
        "a real scheduler in virtual time with failing, late, refused, bundled and manually started runs; or threads that report submission and outcome of the same "
        "runs at the same time while others read, with random delays at the lines of the history - and compares every answer with the harness's own book; "
        "non-trivial when at least 2 runs were recorded; distinct by the sequence of events")
ASSUMPTIONS = ["a run reported by two different outcomes may show either", "an outcome of a run already dropped from the bounded history is not judged",
               "runs with the same time of last activity may be listed in any order"]
REQUIRE = {"records": 15000, "trimmed": 2500, "outcome_first": 1000, "duplicate_submissions": 800, "lookalikes": 120, "zones": 1500, "queries": 6000, "hits": 12000,
           "sched_runs": 3000, "sched:failed": 200, "sched:missed": 100, "sched:max_instances": 60, "sched:manual": 150, "sched:coalesced": 60, "reinstalls": 200,
           "races": 2000, "reads": 3000, "delays": 5000, "limit0": 400, "run_logs": 2000}
FILES = ("asyncz/contrib/dashboard/history.py",)
TERMINAL = {"succeeded", "failed", "missed", "max_instances"}


class Book:
    """What the history should hold."""

    def __init__(self, case, maxlen, metadata):
        self.case, self.maxlen, self.metadata = case, maxlen, metadata
        self.d, self.gone, self.unsure = {}, set(), False

    @staticmethod
    def key(task_id, store, at):
        if at.tzinfo is None:
            at = at.replace(tzinfo=UTC)
        return task_id, store, us(at)

    def at(self, key, identity):
        if key in self.gone and key not in self.d:
            self.unsure = True
        b = self.d.get(key)
        if b is None:
            b = self.d[key] = dict(status={"running"}, source=None, coalesced=0, submitted=None, finished=None, event=None, name=None, ref=None, executor=None, identity=identity)
            self.case.count("records")
        for k, v in self.metadata(key).items():
            b[k] = b[k] or v
        while len(self.d) > self.maxlen:
            k = next(iter(self.d))
            self.gone.add(k)
            del self.d[k]
            self.case.count("trimmed")
        return b

    def submission(self, ev, now):
        from asyncz.events.constants import TASK_MAX_INSTANCES

        for t in ev.scheduled_run_times:
            b = self.at(self.key(ev.task_id, ev.store, t), ev.scheduler_identity)
            b["source"] = ev.source or "scheduled"
            b["coalesced"] = max(b["coalesced"], ev.coalesced_run_count)
            if b["submitted"] is None:
                b["submitted"] = now if b["finished"] is None else b["finished"]
            else:
                self.case.count("duplicate_submissions")
            if ev.code == TASK_MAX_INSTANCES:
                b["status"] = {"max_instances"} if b["status"] == {"running"} else b["status"] | {"max_instances"}
                b["finished"] = b["finished"] or now

    def execution(self, ev, now):
        from asyncz.events.constants import TASK_EXECUTED, TASK_MISSED

        b = self.at(self.key(ev.task_id, ev.store, ev.scheduled_run_time), ev.scheduler_identity)
        if b["submitted"] is None:
            self.case.count("outcome_first")
        st = {TASK_EXECUTED: "succeeded", TASK_MISSED: "missed"}.get(ev.code, "failed")
        b["status"] = {st} if b["status"] == {"running"} else b["status"] | {st}
        b["submitted"] = b["submitted"] or now
        b["finished"] = now
        b["event"] = ev

    def feed(self, ev, now):
        from asyncz.events.base import TaskSubmissionEvent

        (self.submission if isinstance(ev, TaskSubmissionEvent) else self.execution)(ev, now)

    # ---- comparison
    def verify(self, hist, r, full=True):
        case = self.case
        if self.unsure:
            return
        recs = hist.query(limit=10**6)
        got = {}
        for x in recs:
            k = self.key(x.task_id, x.store, x.scheduled_run_time)
            case.check(k not in got, f"two records for the run {k}")
            got[k] = x
        case.eq(sorted(map(str, got)), sorted(map(str, self.d)), "the runs in the history")
        idents = [x.run_id for x in recs]
        case.check(len(set(idents)) == len(idents), f"distinct runs share an identifier: {idents}")
        when = {}
        for k, b in self.d.items():
            x = got[k]
            case.check(x.status in b["status"], f"status of {k} is {x.status}, reported was {sorted(b['status'])}")
            if len(b["status"]) > 1:
                when[k] = None
                continue
            case.check(hist.get(x.run_id) is not None and self.key(hist.get(x.run_id).task_id, hist.get(x.run_id).store, hist.get(x.run_id).scheduled_run_time) == k, f"record {x.run_id} found by its identifier is another run than {k}")
            if b["source"] is not None:
                case.eq(x.source, b["source"], f"source of {k}")
            case.eq(x.coalesced_run_count, b["coalesced"], f"bundled runs of {k}")
            case.eq(us(x.submitted_at) if x.submitted_at else None, b["submitted"], f"time of submission of {k}")
            case.eq(us(x.finished_at) if x.finished_at else None, b["finished"], f"time of the end of {k}")
            case.eq((x.task_name, x.callable_reference, x.executor), (b["name"], b["ref"], b["executor"]), f"task data of {k}")
            if b["identity"]:
                case.eq(x.scheduler_identity, b["identity"], f"identity of {k}")
            ev = b["event"]
            if ev is not None:
                case.eq(x.return_value, None if ev.return_value is None else repr(ev.return_value), f"return value of {k}")
                case.eq(x.exception_message, None if ev.exception is None else str(ev.exception), f"error of {k}")
                case.eq((x.exception_type or "-").rsplit(".", 1)[-1], "-" if ev.exception is None else type(ev.exception).__name__, f"error type of {k}")
                case.eq(x.traceback, ev.traceback, f"traceback of {k}")
            when[k] = b["finished"] or b["submitted"]
        if any(v is None for v in when.values()):
            return
        s = hist.summary()
        want = dict(total=len(self.d), **{st: sum(b["status"] == {st} for b in self.d.values()) for st in ("running", "succeeded", "failed", "missed", "max_instances")})
        case.eq(s, want, "summary")
        for _ in range(3 if full else 1):
            self.query(hist, r, got, when)

    def query(self, hist, r, got, when):
        case, kw, want = self.case, {}, list(self.d)
        if r.random() < 0.4:
            kw["task_id"] = r.choice([r.choice(want)[0], "nothing"]) if want else "a"
            want = [k for k in want if k[0] == kw["task_id"]]
        if r.random() < 0.4:
            st = r.choice(["running", *TERMINAL])
            kw["status"] = r.choice([st, st.upper(), f" {st}"])
            want = [k for k in want if self.d[k]["status"] == {st}]
        if r.random() < 0.3 and all(b["source"] for b in self.d.values()):
            so = r.choice(["scheduled", "manual", "other"])
            kw["source"] = r.choice([so, so.title()])
            want = [k for k in want if self.d[k]["source"] == so]
        if r.random() < 0.4:
            words = [w for k in self.d for w in (k[0], self.d[k]["name"], self.d[k]["ref"], self.d[k]["identity"], *self.d[k]["status"], self.d[k]["source"], got[k].run_id) if w] or ["zz"]
            w = r.choice(words)
            i = r.randrange(len(w))
            q = w[i: i + r.randint(1, 6)].strip() or "a"
            if " " not in q:
                kw["q"] = r.choice([q, q.upper(), f" {q} "])

                def hit(k):
                    b = self.d[k]
                    return any(q.lower() in (x or "").lower() for x in (k[0], b["name"], b["ref"], b["identity"] or got[k].scheduler_identity, "coalesced" if b["coalesced"] else "", *b["status"], b["source"] or got[k].source, got[k].run_id))
                want = [k for k in want if hit(k)]
        limit = r.choice([0, 1, 2, 3, 10, 10**6, 200])
        if limit == 0:
            case.count("limit0")
        rows = hist.query(**kw, limit=limit)
        keys = [self.key(x.task_id, x.store, x.scheduled_run_time) for x in rows]
        case.count("queries")
        case.count("hits", len(keys))
        case.check(len(set(keys)) == len(keys) and set(keys) <= set(want), f"query {kw} limit {limit} returned {keys}, matching are {want}")
        # exactly the newest of them, newest first
        case.eq([when[k] for k in keys], sorted((when[k] for k in want), reverse=True)[:limit], f"times of the rows of query {kw} limit {limit}")
        if self.d:
            tid = r.choice([k[0] for k in self.d])
            x = hist.latest_for_task(tid)
            case.eq(when[self.key(x.task_id, x.store, x.scheduled_run_time)], max(when[k] for k in self.d if k[0] == tid), f"latest run of {tid}")
            case.eq(x.task_id, tid, "task of the latest run")
        case.eq(hist.latest_for_task("nothing"), None, "latest run of an unknown task")
        case.eq(hist.get("nothing"), None, "unknown run")


IDS = ["a", "b", "a|b", "a|", "|b", "c|b", "job 1", "Job", "ü", "a'", "('a', 'b')", "a,b"]
STORES = ["default", "b|default", "b", "|b", "s,b", None]


def lookalike(keys):
    return any(len({sep.join((k[0], k[1] or "", str(k[2]))) for k in keys}) < len(keys) for sep in "|,:/ -_.#'")


def exceptions(r):
    return r.choice([ValueError("bad"), fns.TaskBoom("x" * 40), KeyError("k"), RuntimeError(""), OSError(2, "no")])


def outcome(r, ids, at):
    from asyncz.events.base import TaskExecutionEvent
    from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MISSED

    code = r.choice([TASK_EXECUTED, TASK_EXECUTED, TASK_ERROR, TASK_MISSED])
    kw = {}
    if code == TASK_EXECUTED:
        kw["return_value"] = r.choice([None, 1, 0, "text", [1, 2], {"a": None}, False])
    elif code == TASK_ERROR:
        kw.update(exception=exceptions(r), traceback=r.choice(["Traceback ...", "line\nline"]))
    return TaskExecutionEvent(code=code, task_id=ids[0], store=ids[1], scheduled_run_time=at, **kw)


def events(case):
    from asyncz.contrib.dashboard.history import MemoryRunHistoryStorage, logs_for_run
    from asyncz.contrib.dashboard.logs.storage import MemoryLogStorage
    from asyncz.events.base import TaskSubmissionEvent
    from asyncz.events.constants import TASK_MAX_INSTANCES, TASK_SUBMITTED
    from asyncz.schedulers import NativeAsyncIOScheduler

    r = case.rng
    clock.set_dt(D.datetime(2024, r.randint(1, 12), r.randint(1, 28), 10, tzinfo=UTC))
    maxlen = r.choice([1, 2, 3, 5, 8, 1000, 1000])
    hist = MemoryRunHistoryStorage(maxlen=maxlen)
    logs = MemoryLogStorage()
    written = {}
    s = NativeAsyncIOScheduler(timezone="UTC", stores={"default": {"type": "memory"}, "b": {"type": "memory"}, "b|default": {"type": "memory"}}, identity="idy")
    ids = r.sample(IDS, r.randint(1, 6))
    if r.random() < 0.5:
        ids += ["a", "a|b"]
    stores = [st for st in STORES if r.random() < 0.7] or [None]
    if r.random() < 0.4:
        # two runs whose id and store look alike once joined
        sep = r.choice("|,:/ -_.#'")
        x, y, z = (r.choice(["a", "b", "job", "default"]) for _ in range(3))
        ids, stores = [x + sep + y, x], [z, y + sep + z]
    meta = {}
    for i in ids:
        for st in ("default", "b", "b|default"):
            if (i, st) not in meta and r.random() < 0.3:
                s.add_task(fns.work, "interval", seconds=50, args=("k",), id=i, store=st, name=f"name {i}", executor="x")
                meta[i, st] = dict(name=f"name {i}", ref="rv.fns:work", executor="x")

    def metadata(k):
        if k[1] is None:
            hits = [v for (i, st), v in meta.items() if i == k[0]]
            return hits[0] if hits else {}
        return meta.get((k[0], k[1]), {})

    book = Book(case, maxlen, metadata)
    base = D.datetime(2024, 10, 27, 0, 30, tzinfo=UTC)
    zones = [UTC, D.timezone(timedelta(hours=5, minutes=30)), *(gen.zone(r) for _ in range(2))]

    def say(t):
        z = r.choice([*zones, None])
        case.count("zones")
        return t.replace(tzinfo=None) if z is None else t.astimezone(z)

    times = [base + timedelta(seconds=x) for x in r.sample([0, 1, 60, 1800, 3600, 3601, 7200, 0.000001, 0.5, 86400], r.randint(1, 6))]
    done, had_max, log = set(), set(), []
    for _ in range(r.randint(4, 40)):
        clock.add_us(r.choice([1, 1000, 10**6, 3 * 10**6, 0]) if r.random() < 0.2 else r.choice([1, 1000, 10**6]))
        i, st = r.choice(ids), r.choice(stores)
        now = clock.get_us()
        if r.random() < 0.55:
            ts = r.sample(times, min(len(times), r.choice([1, 1, 1, 2, 3])))
            ts = [t for t in ts if not ((k := book.key(i, st, t)) in book.gone and k not in book.d)]
            full = r.random() < 0.12
            if full:
                ts = [t for t in ts if book.key(i, st, t) not in done]
                had_max |= {book.key(i, st, t) for t in ts}
            else:
                ts = [t for t in ts if book.key(i, st, t) not in had_max]
            if not ts or len(ts) > maxlen:
                continue
            ev = TaskSubmissionEvent(code=TASK_MAX_INSTANCES if full else TASK_SUBMITTED, task_id=i, store=st, scheduled_run_times=[say(t) for t in ts],
                                     source=r.choice([None, "scheduled", "manual"]), coalesced_run_count=r.choice([0, 0, 0, 3]), scheduler_identity=r.choice([None, "one", "two"]))
            if len(ts) > 1 and maxlen < 1000:
                continue
            rows = hist.record_submission(ev, scheduler=s, log_storage=logs)
            if full:
                for x in rows:
                    written.setdefault(x.run_id, []).append("WARNING")
            case.eq([book.key(x.task_id, x.store, x.scheduled_run_time) for x in rows], [book.key(i, st, t) for t in ev.scheduled_run_times], "records of a submission")
        else:
            t = r.choice(times)
            k = book.key(i, st, t)
            if k in done or k in had_max or (k in book.gone and k not in book.d):
                continue
            done.add(k)
            ev = outcome(r, (i, st), say(t))
            x = hist.record_execution(ev, scheduler=s, log_storage=logs)
            written.setdefault(x.run_id, []).append({"succeeded": "INFO", "missed": "WARNING", "failed": "ERROR"}[x.status])
            case.eq(book.key(x.task_id, x.store, x.scheduled_run_time), k, "record of an outcome")
        log.append((type(ev).__name__, i, st, str(getattr(ev, "scheduled_run_times", None) or ev.scheduled_run_time), ev.code))
        book.feed(ev, now)
        if r.random() < 0.02:
            hist.clear()
            book.d.clear()
            book.gone.clear()
            had_max.clear()
            done.clear()
        if r.random() < 0.5:
            case.describe(events=log, maxlen=maxlen, ids=ids, stores=stores)
            book.verify(hist, r)
    case.describe(events=log, maxlen=maxlen, ids=ids, stores=stores)
    book.verify(hist, r)
    for x in hist.query(limit=10**6):
        mine = list(logs.query(run_id=x.run_id, limit=10**6))
        shown = logs_for_run(x, logs, limit=10**6)
        case.eq({id(e) for e in shown if e.extra["run_id"] == x.run_id} - {id(e) for e in mine}, set(), "entries of other runs shown as a run's own")
        case.eq({(e.ts, e.message) for e in mine} - {(e.ts, e.message) for e in shown}, set(), "a run's entries not shown")
        case.check(all(e.task_id == x.task_id for e in mine), f"log entries of the run of {x.task_id} belong to {[e.task_id for e in mine]}")
        if x.run_id in written:
            case.eq(sorted(e.level for e in mine if not (e.level == "INFO" and "submitted" in e.message)), sorted(written[x.run_id]), f"log entries of the outcomes of {x.run_id}")
            case.count("run_logs")
    if lookalike(book.d):
        case.count("lookalikes")
    case.trivial = len(book.d) < 2 and maxlen > 1


def sched(case):
    r = case.rng

    async def main(w):
        from asyncz.contrib.dashboard.history import MemoryRunHistoryStorage, install_run_history_listener
        from asyncz.events.base import TaskExecutionEvent, TaskSubmissionEvent
        from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MAX_INSTANCES, TASK_MISSED, TASK_SUBMITTED
        from asyncz.executors.asyncio import AsyncIOExecutor
        from asyncz.executors.debug import DebugExecutor

        sim, tz = w.sim, w.tz
        kinds = {"default": r.choice(["memory", "memory", "file", "sqlite"]), **({"b2": r.choice(["memory", "redis"])} if r.random() < 0.5 else {})}
        s = w.scheduler(stores=w.stores(kinds), executors={"default": AsyncIOExecutor(), "x": DebugExecutor()}, **({"identity": "node"} if r.random() < 0.5 else {}))
        maxlen = r.choice([5, 20, 5000, 5000, 5000])
        hist = MemoryRunHistoryStorage(maxlen=maxlen)
        tasks, errors = {}, []
        book = Book(case, maxlen, lambda k: {})
        codes = {TASK_SUBMITTED, TASK_MAX_INSTANCES, TASK_EXECUTED, TASK_ERROR, TASK_MISSED}
        log = []

        def mine(ev):
            if ev.code not in codes or not isinstance(ev, (TaskSubmissionEvent, TaskExecutionEvent)):
                return
            try:
                log.append((ev.code, ev.task_id, ev.store, sim.us))
                book.feed(ev, sim.us)
                case.count("sched_runs", isinstance(ev, TaskExecutionEvent))
                for name, c in (("failed", TASK_ERROR), ("missed", TASK_MISSED), ("max_instances", TASK_MAX_INSTANCES)):
                    case.count("sched:" + name, ev.code == c)
                case.count("sched:manual", getattr(ev, "source", None) == "manual")
                case.count("sched:coalesced", bool(getattr(ev, "coalesced_run_count", 0)))
            except Exception as exc:
                errors.append(exc)

        def compare():
            # names and references are known only while the task exists and are not compared here
            for x in hist.query(limit=10**6):
                b = book.d.get(book.key(x.task_id, x.store, x.scheduled_run_time))
                if b is not None:
                    b.update(name=x.task_name, ref=x.callable_reference, executor=x.executor)
            book.verify(hist, r)

        # both listeners see the same events; the clock stands still within one dispatch
        install_run_history_listener(s, storage=hist)
        s.add_listener(mine)
        case.describe(zone=str(tz), kinds=kinds, maxlen=maxlen, log=log)

        def plan(key, n):
            t = tasks[key]
            out = {}
            if r.random() < t["fail"]:
                out["raise_"] = exceptions(r)
            else:
                out["ret"] = r.choice([None, 1, "x", [1]])
            if t["dur"]:
                out["dur"] = r.choice([0, t["dur"]])
            if r.random() < t["stall"]:
                out["stall"] = r.choice([3, 12])
            return out
        sim.plan = plan
        if r.random() < 0.5:
            await w.start(s)
            on = True
        else:
            on = False
        for n in range(r.randint(1, 5)):
            st = r.choice(list(kinds))
            tid = r.choice([f"t{n}", "same|" + "x" * n, f"T {n}"])
            tasks[tid] = dict(fail=r.choice([0, 0.3, 1]), dur=r.choice([0, 0, 2, 9, 40]), stall=r.choice([0, 0, 0, 0.2]))
            kw = dict(seconds=r.choice([1, 2, 5, 10, 30]))
            s.add_task(r.choice([fns.work, fns.awork]), "interval", args=(tid,), id=tid, store=st, coalesce=r.random() < 0.5, max_instances=r.choice([1, 1, 3]),
                       mistrigger_grace_time=r.choice([1, 5, None, None]), **({"executor": "x"} if r.random() < 0.25 and tasks[tid]["dur"] == 0 else {}), **kw)
            tasks[tid]["store"] = st
        if not on:
            await w.start(s)
        for _ in range(r.randint(2, 8)):
            k = r.random()
            tid = r.choice(list(tasks))
            try:
                if k < 0.2:
                    s.run_task(tid, tasks[tid]["store"])
                elif k < 0.3:
                    s.run_task(tid)
                elif k < 0.4:
                    s.pause_task(tid)
                elif k < 0.5:
                    s.resume_task(tid)
                elif k < 0.55:
                    s.delete_task(tid)
                elif k < 0.8:
                    install_run_history_listener(s, storage=hist)
                    case.count("reinstalls")
                elif k < 0.9:
                    sim.stall(r.choice([7, 30]))
            except Exception as exc:
                if type(exc).__name__ not in ("TaskLookupError", "MaximumInstancesError"):
                    raise
            await sim.sleep_until(sim.us + round(r.choice([0.5, 1, 5, 12]) * 1e6))
            if errors:
                raise errors[0]
            compare()
        s.pause()
        await sim.settle()
        compare()
        await w.stop(s)
        if errors:
            raise errors[0]
        compare()

        case.trivial = len(book.d) < 2

    return run_world(case, main)


def race(case):
    from asyncz.contrib.dashboard.history import MemoryRunHistoryStorage
    from asyncz.events.base import TaskSubmissionEvent
    from asyncz.events.constants import TASK_MAX_INSTANCES, TASK_SUBMITTED

    r = case.rng
    clock.off()
    nruns = r.randint(5, 40)
    maxlen = r.choice([1000, 1000, 3, 10])
    hist = MemoryRunHistoryStorage(maxlen=maxlen)
    base = D.datetime(2024, 5, 5, tzinfo=UTC)
    runs = [(r.choice(["a", "b"]), r.choice(["default", "x"]), base + timedelta(seconds=n)) for n in range(nruns)]
    outs = [outcome(r, (i, st), t) for i, st, t in runs]
    full = [r.random() < 0.1 for _ in runs]
    intensity = r.choice([0.01, 0.1, 0.3])
    d = Delays(FILES, intensity, r.choice([[0], [0, 0.0001, 0.001]]))
    case.describe(runs=nruns, maxlen=maxlen, intensity=intensity)

    class S:
        identity = "x"

        def get_task(self, *a):
            return None
    s = S()

    def submit():
        for n, (i, st, t) in enumerate(runs):
            hist.record_submission(TaskSubmissionEvent(code=TASK_MAX_INSTANCES if full[n] else TASK_SUBMITTED, task_id=i, store=st, scheduled_run_times=[t], source="scheduled", scheduler_identity="x"), scheduler=s)

    def execute(part):
        def f():
            for n in part:
                if not full[n]:
                    hist.record_execution(outs[n], scheduler=s)
        return f

    bad = []
    reads = [0]

    def read():
        seen = {}
        for _ in range(30):
            x = hist.summary()
            if x["total"] > maxlen or x["total"] != sum(v for k, v in x.items() if k != "total"):
                bad.append(f"summary {x} (bound {maxlen})")
            rows = hist.query(limit=10**6)
            if len(rows) > maxlen:
                bad.append(f"{len(rows)} records with a bound of {maxlen}")
            for y in rows:
                st = y.status
                if maxlen >= nruns and seen.get(y.run_id) in TERMINAL and st == "running":
                    bad.append(f"{y.run_id} went from {seen[y.run_id]} back to running")
                seen[y.run_id] = st
            reads[0] += 2

    idx = list(range(nruns))
    together(case, [submit, execute(idx[::2]), execute(idx[1::2]), *([read] * r.randint(1, 2))], d, f"{case.ctx.seed}:{case.index}")
    case.count("delays", d.slow)
    case.count("reads", reads[0])
    case.count("races", nruns)
    case.check(not bad, f"readers saw: {bad[:3]}")
    rows = hist.query(limit=10**6)
    case.check(len({x.run_id for x in rows}) == len(rows) <= maxlen, "records")
    case.eq(hist.summary()["total"], len(rows), "total of the summary")
    if maxlen >= nruns:
        got = {(x.task_id, x.store, x.scheduled_run_time): x for x in rows}
        case.eq((len(rows), sorted(got)), (nruns, sorted(runs)), "the runs in the history")
        for n, k in enumerate(runs):
            x = got[k]
            want = "max_instances" if full[n] else {"executed": "succeeded"}.get(_status(outs[n].code), _status(outs[n].code))
            case.eq(x.status, want, f"final status of run {n}")
            if not full[n]:
                case.eq(x.return_value, None if outs[n].return_value is None else repr(outs[n].return_value), f"return value of run {n}")
                case.check(x.finished_at is not None and x.submitted_at is not None, f"times of run {n}")
            case.eq(x.source, "scheduled", f"source of run {n}")
    case.log.append(sorted((x.run_id, x.status) for x in rows))


def _status(code):
    from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED

    return "succeeded" if code == TASK_EXECUTED else "failed" if code == TASK_ERROR else "missed"


def run(ctx):
    ctx.cases("events", events, quick=1600, thorough=20000)
    ctx.cases("sched", sched, quick=400, thorough=8000)
    ctx.cases("race", race, quick=160, thorough=2500)
