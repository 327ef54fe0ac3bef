"""C24: event, log and audit trails are bounded, complete and correctly filtered."""
import datetime as D
import itertools
import logging
from datetime import timedelta

from rv import clock, fns
from rv.delays import Delays, together
from rv.world import UTC, run_world, us

RULE = ("a case appends random entries to an event, audit or log trail with a small or large bound and compares every query with random filters and limits with the "
        "harness's own list; or lets a real scheduler in virtual time report to event trails installed once or often and compares them with an own listener; or "
        "writes to task loggers; or lets threads write, read and clear at once with random delays at the lines of the trail; non-trivial when at least 3 entries "
        "were written; distinct by the entries")
ASSUMPTIONS = ["what the text filter of events and audit records looks at: their textual fields", "the level of the asyncz logger is only changed by the installation"]
REQUIRE = {"entries": 20000, "dropped": 8000, "queries": 15000, "hits": 40000, "limit0": 1000, "events_seen": 8000, "reinstalls": 400, "own_listener_codes": 1, "log_records": 3000,
           "shared_extra": 200, "race_writes": 5000, "race_reads": 2000, "full_reads": 300, "delays": 20000, "tail_exact": 60, "swaps": 60, "install_races": 40}
FILES = ("asyncz/contrib/dashboard/events.py", "asyncz/contrib/dashboard/audit.py", "asyncz/contrib/dashboard/logs/storage.py", "asyncz/contrib/dashboard/logs/handler.py")
IDS = ["a", "b", "A", "task 1", "Ärger", "a|b", "%s", "<b>"]


def part_of(r, w):
    i = r.randrange(len(w))
    q = w[i: i + r.randint(1, 7)].strip() or "a"
    return q


class Trail:
    """One of the three trails behind the same face."""

    def __init__(self, kind, maxlen, r):
        from asyncz.contrib.dashboard.audit import MemoryAuditTrailStorage
        from asyncz.contrib.dashboard.events import MemorySchedulerEventStorage
        from asyncz.contrib.dashboard.logs.storage import MemoryLogStorage

        self.kind, self.r, self.maxlen = kind, r, maxlen
        self.st = {"events": MemorySchedulerEventStorage, "audit": MemoryAuditTrailStorage, "logs": MemoryLogStorage}[kind](maxlen=maxlen)
        self.n = itertools.count()

    def entry(self, at):
        """A random entry: (what to append, what is expected of it)."""
        from asyncz.events.base import SchedulerEvent, TaskEvent, TaskExecutionEvent, TaskSubmissionEvent
        from asyncz.events import constants as C

        r, n = self.r, next(self.n)
        if self.kind == "audit":
            e = dict(action=r.choice(["task.run", "task.pause", "task.delete", "login"]), status=r.choice(["succeeded", "failed", "warning"]))
            for k, v in (("target_type", r.choice(["task", "scheduler"])), ("target_id", r.choice([*IDS, None])), ("message", r.choice([None, f"Message {n}", "boom <x>"])),
                         ("actor", r.choice(["dashboard", "Ann"])), ("details", r.choice([None, {"n": n}]))):
                if r.random() < 0.7:
                    e[k] = v
            want = dict(dict(target_type="task", target_id=None, message=None, actor="dashboard", details=None), **e)
            want["details"] = want["details"] or {}
            return e, want
        if self.kind == "logs":
            e = dict(level=r.choice(["INFO", "ERROR", "warning", "DEBUG"]), message=r.choice(["", f"Message {n}", "Timeout <b>"]), logger=r.choice(["asyncz", "x.y"]))
            if r.random() < 0.7:
                e["ts"] = at - timedelta(seconds=r.choice([0, 0, 1, 3600]))
            if r.random() < 0.7:
                e["task_id"] = r.choice([*IDS, None])
            if r.random() < 0.6:
                e["extra"] = r.choice([{"run_id": r.choice(["r1", "r2", 7])}, {}, None, {"n": n}])
            want = dict(dict(ts=clock.now(), task_id=None, extra=None), **e)
            want["n"] = n
            if "ts" in e and r.random() < 0.3:
                e = dict(e, ts=e["ts"].replace(tzinfo=None))  # naive times are UTC
            elif "ts" in e:
                e = dict(e, ts=e["ts"].astimezone(D.timezone(timedelta(hours=r.choice([0, 5, -8])))))
            if "ts" in e and r.random() < 0.4:
                from asyncz.contrib.dashboard.logs.storage import LogEntry

                e = LogEntry(**e)
            return e, want
        k = r.random()
        store = r.choice(["default", "b", None])
        tid = r.choice(IDS)
        ident = r.choice([None, "one"])
        if k < 0.3:
            code = r.choice([C.SCHEDULER_STARTED, C.SCHEDULER_SHUTDOWN, C.EXECUTOR_ADDED, C.STORE_REMOVED, C.SCHEDULER_PAUSED])
            ev = SchedulerEvent(code=code, alias=r.choice([None, "pool"]))
            return ev, dict(code=code, alias=ev.alias, task_id=None, store=None, texts=[ev.alias or ""])
        if k < 0.5:
            code = r.choice([C.TASK_ADDED, C.TASK_REMOVED, C.TASK_MODIFIED])
            ev = TaskEvent(code=code, task_id=tid, store=store, scheduler_identity=ident)
            return ev, dict(code=code, alias=None, task_id=tid, store=store, texts=[])
        t = at + timedelta(seconds=n)
        if k < 0.75:
            code = r.choice([C.TASK_SUBMITTED, C.TASK_MAX_INSTANCES])
            ev = TaskSubmissionEvent(code=code, task_id=tid, store=store, scheduled_run_times=[t, t + timedelta(hours=1)][: r.randint(1, 2)], source=r.choice([None, "manual"]), coalesced_run_count=r.choice([0, 4]))
            return ev, dict(code=code, alias=None, task_id=tid, store=store, times=[x.isoformat() for x in ev.scheduled_run_times], texts=[ev.source or "", *(x.isoformat() for x in ev.scheduled_run_times)],
                            source=ev.source, coalesced=ev.coalesced_run_count)
        code = r.choice([C.TASK_EXECUTED, C.TASK_ERROR, C.TASK_MISSED])
        kw = {C.TASK_EXECUTED: dict(return_value=r.choice([None, 5, "res"])), C.TASK_ERROR: dict(exception=ValueError(f"bad {n}")), C.TASK_MISSED: {}}[code]
        ev = TaskExecutionEvent(code=code, task_id=tid, store=store, scheduled_run_time=t, **kw)
        return ev, dict(code=code, alias=None, task_id=tid, store=store, time=t.isoformat(), exc=kw.get("exception"), ret=kw.get("return_value"), texts=[t.isoformat(), str(kw.get("exception") or "")])

    def append(self, e):
        if self.kind == "audit":
            return self.st.append(**e)
        if self.kind == "logs":
            return self.st.append(e)
        return self.st.append(e, scheduler=None)

    def same(self, x, w):
        if self.kind == "audit":
            return {k: getattr(x, k) for k in w} == w
        if self.kind == "logs":
            return (x.ts.tzinfo is not None and us(x.ts) == us(w["ts"]) and (x.level, x.message, x.logger, x.task_id) == (w["level"], w["message"], w["logger"], w["task_id"])
                    and x.extra == w["extra"])
        ok = (x.code, x.alias, x.task_id, x.store) == (w["code"], w["alias"], w["task_id"], w["store"])
        d = x.details
        if "times" in w:
            ok = ok and d.get("scheduled_run_times") == w["times"] and d.get("coalesced_run_count") == w["coalesced"] and (w["source"] is None or d.get("source") == w["source"])
        if "time" in w:
            ok = ok and d.get("scheduled_run_time") == w["time"] and d.get("exception_message") == (str(w["exc"]) if w["exc"] else None) and d.get("return_value") == (repr(w["ret"]) if w["ret"] is not None else None)
        return ok

    def category(self, w):
        from asyncz.events import constants as C

        return "task" if w["task_id"] else {C.EXECUTOR_ADDED: "executor", C.STORE_REMOVED: "store"}.get(w["code"], "scheduler")

    def filters(self, entries, rows):
        """(arguments, predicate over expected entries); rows: the stored records in the same order."""
        r, kw, tests = self.r, {}, []
        rowof = {id(w): x for w, x in zip(entries, rows)}

        def use(p=0.35):
            return r.random() < p
        if self.kind == "audit":
            if use():
                v = r.choice(["task.run", "task.pause", "task.delete", "login", "none"])
                kw["action"] = r.choice([v, v.upper(), f" {v}"])
                tests.append(lambda w, v=v: w["action"] == v)
            if use():
                st = r.choice(["succeeded", "failed", "warning"])
                kw["status"] = r.choice([st, st.title()])
                tests.append(lambda w: w["status"] == st)
            text = lambda w: [w["action"], w["status"], w["target_type"], w["target_id"] or "", w["message"] or "", w["actor"], rowof[id(w)].event_id]  # noqa: E731
        elif self.kind == "logs":
            if use():
                t = kw["task_id"] = r.choice(IDS)
                tests.append(lambda w: w["task_id"] == t)
            if use(0.25):
                u = kw["run_id"] = r.choice(["r1", "r2", "7", "None"])
                tests.append(lambda w: str((w["extra"] or {}).get("run_id")) == u and bool(w["extra"]) and (u != "None" or "run_id" not in w["extra"]) if u != "None" else False)
                if u == "None":
                    del kw["run_id"]
                    tests.pop()
            if use():
                lv = r.choice(["INFO", "ERROR", "WARNING", "DEBUG"])
                kw["level"] = r.choice([lv, lv.lower()])
                tests.append(lambda w: w["level"].upper() == lv)
            if use(0.25) and entries:
                a = kw["since"] = r.choice(entries)["ts"] + timedelta(microseconds=r.choice([0, 0, 1, -1]))
                tests.append(lambda w: us(w["ts"]) >= us(a))
            if use(0.25) and entries:
                b = kw["until"] = r.choice(entries)["ts"] + timedelta(microseconds=r.choice([0, 0, 1, -1]))
                tests.append(lambda w: us(w["ts"]) <= us(b))
            text = lambda w: [w["message"]]  # noqa: E731
        else:
            names = self.names()
            if use():
                c = r.choice(["task", "scheduler", "executor", "store", "none"])
                kw["category"] = r.choice([c, c.upper(), f"{c} "])
                tests.append(lambda w: self.category(w) == c)
            if use(0.3):
                nm = r.choice([*names.values(), "none"])
                kw["name"] = r.choice([nm, nm.upper()])
                tests.append(lambda w: names[w["code"]] == nm)
            if use():
                t = kw["task_id"] = r.choice(IDS)
                tests.append(lambda w: w["task_id"] == t)
            text = lambda w: [names[w["code"]], self.category(w), w["task_id"] or "", w["store"] or "", rowof[id(w)].scheduler_identity or "", rowof[id(w)].event_id, *w["texts"]]  # noqa: E731
        if use(0.35) and entries:
            words = [x for x in text(r.choice(entries)) if x]
            if words:
                q = part_of(r, r.choice(words))
                # only texts that decide: no blanks, and long enough not to hit labels the harness does not know
                if " " not in q and (self.kind != "events" or len(q) > 3):
                    kw["q"] = r.choice([q, q.upper(), f" {q} "]) if q.upper().lower() == q.lower() else q
                    tests.append(lambda w: any(q.lower() in x.lower() for x in text(w)))
        return kw, lambda w: all(t(w) for t in tests)

    @staticmethod
    def names():
        from asyncz.contrib.dashboard.events import EVENT_NAMES

        return EVENT_NAMES


def seq(case):
    r = case.rng
    kind = r.choice(["events", "audit", "logs"])
    clock.set_dt(D.datetime(2024, r.randint(1, 12), r.randint(1, 28), 10, tzinfo=UTC))
    maxlen = r.choice([1, 2, 3, 10, 10, 5000])
    t = Trail(kind, maxlen, r)
    have = []
    total = 0
    log = []
    case.describe(kind=kind, maxlen=maxlen, entries=log)
    for _ in range(r.randint(3, 50)):
        clock.add_us(r.choice([0, 1, 10**6]))
        e, w = t.entry(clock.now())
        log.append(str(e)[:120])
        t.append(e)
        have.append(w)
        total += 1
        case.count("entries")
        if len(have) > maxlen:
            have.pop(0)
            case.count("dropped")
        if r.random() < 0.02:
            t.st.clear()
            have.clear()
        if r.random() > 0.4:
            continue
        rows = list(t.st.query(limit=10**6))[::-1]
        case.eq(len(rows), len(have), "entries in the trail")
        for x, y in zip(rows, have):
            case.check(t.same(x, y), f"entry {x}, written was {y}")
        for _ in range(3):
            kw, ok = t.filters(have, rows)
            limit = r.choice([0, 1, 2, 5, 200, 10**6])
            if limit == 0:
                case.count("limit0")
            got = list(t.st.query(**kw, limit=limit))
            if kind == "events" and "q" in kw:
                # which labels the text filter looks at besides the event's own texts is not known to the harness
                full = list(t.st.query(**kw, limit=10**6))
                pos = {id(x): i for i, x in enumerate(rows)}
                case.check([pos[id(x)] for x in full] == sorted((pos[id(x)] for x in full), reverse=True), f"order of query {kw}: {full}")
                must = {id(x) for x, y in zip(rows, have) if ok(y)}
                q = kw.pop("q")
                pool = {id(x) for x in t.st.query(**kw, limit=10**6)}
                may = {id(x) for x in rows if q.strip().lower() in str(x).lower()} & pool
                case.check(must <= {id(x) for x in full} <= may, f"query {kw} q={q}: got {full}")
                case.check([id(x) for x in got] == [id(x) for x in full[:limit]], f"query {kw} q={q} limit {limit}: got {got}, without limit {full}")
                case.count("queries")
                case.count("hits", len(got))
                continue
            want = [x for x, y in list(zip(rows, have))[::-1] if ok(y)][:limit]
            case.count("queries")
            case.count("hits", len(want))
            case.check([id(x) for x in got] == [id(x) for x in want] or got == want, f"query {kw} limit {limit}: got {got}, matching are {want}")
        if kind == "audit":
            case.eq(t.st.summary(), dict(total=len(have), **{s: sum(w["status"] == s for w in have) for s in ("succeeded", "failed", "warning")}), "summary")
        if kind == "events":
            s = t.st.summary()
            case.eq((s["total"], s["task"], s["scheduler"]), (len(have), sum(t.category(w) == "task" for w in have), sum(t.category(w) == "scheduler" for w in have)), "summary")
    case.trivial = total < 3


def sched(case):
    r = case.rng

    async def main(w):
        from asyncz.contrib.dashboard.events import MemorySchedulerEventStorage, install_scheduler_event_listener
        from asyncz.events.base import TaskEvent, TaskExecutionEvent, TaskSubmissionEvent
        from asyncz.executors.asyncio import AsyncIOExecutor
        from asyncz.executors.debug import DebugExecutor

        sim = w.sim
        st = MemorySchedulerEventStorage(maxlen=r.choice([5, 10000, 10000]))
        pairs = []
        for n in range(r.choice([1, 1, 2])):
            s = w.scheduler(stores=w.stores({"default": r.choice(["memory", "memory", "sqlite", "file"])}), executors={"default": AsyncIOExecutor()}, **({"identity": f"node{n}"} if r.random() < 0.7 else {}))
            pairs.append(s)
        seen, marks, errors = [], [], []
        log = []
        case.describe(maxlen=st.maxlen, schedulers=len(pairs), ops=log)

        def own(s):
            def f(ev):
                seen.append((s, ev))
            return f

        target = [st]
        for s in pairs:
            install_scheduler_event_listener(s, storage=st)
            s.add_listener(own(s))
        expect = seen  # everything since the last swap goes to the current trail
        sim.plan = lambda key, n: r.choice([{}, {}, {"raise_": ValueError("boom")}, {"ret": None}, {"ret": [1]}])
        ids = {id(s): [] for s in pairs}

        def verify():
            rows = list(target[0].query(limit=10**6))[::-1]
            want = [x for x in expect[marks[-1] if marks else 0:]][-target[0].maxlen:]
            case.eq([(x.code, x.task_id, x.alias) for x in rows], [(e.code, getattr(e, "task_id", None), e.alias) for _, e in want], "events in the trail")
            for x, (s, e) in zip(rows, want):
                case.count("events_seen")
                case.eq(x.store, getattr(e, "store", None), f"store of {x.name}")
                case.eq(x.category == "task", isinstance(e, TaskEvent), f"category of {x.name}") if x.name != "task.all_removed" else None
                if isinstance(e, TaskEvent):
                    case.eq(x.scheduler_identity, e.scheduler_identity, f"identity of {x.name}")
                case.check(x.scheduler_identity == s.identity, f"{x.name} came from {s.identity}, shown is {x.scheduler_identity}")
                if isinstance(e, TaskSubmissionEvent):
                    case.eq((x.details["scheduled_run_times"], x.details["coalesced_run_count"], x.details["source"]), ([t.isoformat() for t in e.scheduled_run_times], e.coalesced_run_count, e.source or "unknown"), f"content of {x.name}")
                elif isinstance(e, TaskExecutionEvent):
                    case.eq((x.details["scheduled_run_time"], x.details["exception_message"], x.details["return_value"]),
                            (e.scheduled_run_time.isoformat(), str(e.exception) if e.exception is not None else None, repr(e.return_value) if e.return_value is not None else None), f"content of {x.name}")
            for k in {e.code for _, e in want}:
                case.ctx.counters.setdefault("own_listener_codes", 0)
                case.count("own_listener_codes")
        counter = itertools.count()
        started = set()
        for _ in range(r.randint(6, 25)):
            s = r.choice(pairs)
            mine = ids[id(s)]
            k = r.choice(["add", "add", "run", "pause", "resume", "update", "delete", "clear", "start", "start", "spause", "sresume", "store", "unstore", "exec", "wait", "wait", "wait", "reinstall", "reinstall", "swap"])
            log.append(k)
            try:
                if k == "add":
                    mine.append(f"t{next(counter)}")
                    s.add_task(r.choice([fns.work, fns.awork]), "interval", seconds=r.choice([1, 3, 10]), args=(mine[-1],), id=mine[-1], mistrigger_grace_time=r.choice([1, None]), max_instances=r.choice([1, 5]))
                elif k in ("run", "pause", "resume", "update", "delete") and mine:
                    tid = r.choice(mine)
                    f = {"run": s.run_task, "pause": s.pause_task, "resume": s.resume_task, "delete": s.delete_task, "update": lambda i: s.update_task(i, name="n")}[k]
                    f(tid)
                    if k == "delete":
                        mine.remove(tid)
                elif k == "clear":
                    s.remove_all_tasks(r.choice([None, "default"]))
                    mine.clear()
                elif k == "start" and s not in started:
                    await w.start(s)
                    started.add(s)
                elif k == "spause":
                    s.pause()
                elif k == "sresume":
                    s.resume()
                elif k == "store":
                    s.add_store("memory", alias=r.choice(["m1", "m2"]))
                elif k == "unstore":
                    s.remove_store(r.choice(["m1", "m2"]))
                elif k == "exec":
                    s.add_executor(DebugExecutor(), alias=f"x{next(counter)}")
                elif k == "wait":
                    await sim.sleep_until(sim.us + r.choice([0.2, 2, 8]) * 1_000_000)
                elif k == "reinstall":
                    for _ in range(r.randint(1, 3)):
                        install_scheduler_event_listener(s, storage=target[0])
                    case.count("reinstalls")
                elif k == "swap" and len(pairs) == 1:
                    verify()
                    target[0] = MemorySchedulerEventStorage(maxlen=r.choice([3, 10000]))
                    install_scheduler_event_listener(s, storage=target[0])
                    marks.append(len(seen))
                    case.count("swaps")
            except Exception as exc:
                if type(exc).__name__ not in ("TaskLookupError", "MaximumInstancesError", "SchedulerNotRunningError") and not isinstance(exc, (KeyError, ValueError)):
                    raise
            if r.random() < 0.5:
                verify()
        for s in pairs:
            if s in started:
                s.pause()
                await sim.settle()
                await w.stop(s)
        if errors:
            raise errors[0]
        verify()
        case.trivial = len(seen) < 3

    return run_world(case, main, tz=UTC)


def logs(case):
    from asyncz.contrib.dashboard.logs import handler as H
    from asyncz.contrib.dashboard.logs.storage import MemoryLogStorage

    r = case.rng
    clock.set_dt(D.datetime(2024, r.randint(1, 12), r.randint(1, 28), 10, tzinfo=UTC))
    st = MemoryLogStorage(maxlen=r.choice([3, 1000]))
    root = logging.getLogger("asyncz")
    before = root.level
    root.setLevel(r.choice([logging.NOTSET, logging.INFO, logging.WARNING]))
    level = None
    for _ in range(r.randint(1, 3)):
        level = r.choice([logging.INFO, logging.INFO, logging.DEBUG, logging.WARNING])
        h = H.install_task_log_handler(st, level=level)
    log = []
    case.describe(level=level, maxlen=st.buffer.maxlen, entries=log)
    try:
        case.eq(sum(x is h for x in root.handlers), 1, "times the handler is installed")
        want = []
        shared = {"tag": 1}
        for n in range(r.randint(3, 30)):
            clock.add_us(r.choice([0, 1, 10**6]))
            lv = r.choice([logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR])
            name = r.choice(["asyncz", "asyncz.task", "asyncz.a.b"])
            tid = r.choice([*IDS, None])
            extra, used = None, tid
            msg, args = r.choice([("Message %s", (n,)), (f"done {n}", ()), ("100% <b>", ())])
            if tid is not None and r.random() < 0.7:
                lg = H.get_task_logger(tid, name)
                k = r.random()
                if k < 0.3:
                    extra = shared
                    case.count("shared_extra")
                elif k < 0.5:
                    extra = {"tag": n}
                elif k < 0.65:
                    extra = {"task_id": "other", "tag": n}
                    used = "other"
            else:
                lg = logging.getLogger(name)
                key = r.choice(["task_id", "job_id", "asyncz_task_id"])
                extra = None if tid is None else {key: tid, "run_id": f"r{n % 3}"}
            before_extra = dict(extra) if extra is not None else None
            lg.log(lv, msg, *args, **({"extra": extra} if extra is not None else {}))
            if extra is shared:
                case.eq(extra, before_extra, "the caller's own extra data after a log call")
            log.append((lv, name, used))
            case.count("log_records")
            if lv >= level:
                want.append((clock.get_us(), logging.getLevelName(lv), msg % args if args else msg, name, used, (before_extra or {}).get("tag"), (before_extra or {}).get("run_id")))
        want = want[-st.buffer.maxlen:]
        got = [(us(x.ts), x.level, x.message, x.logger, x.task_id, (x.extra or {}).get("tag"), (x.extra or {}).get("run_id")) for x in st.query(limit=10**6)][::-1]
        case.eq([x[1:] for x in got], [x[1:] for x in want], "log entries")
        case.check(all(abs(a[0] - b[0]) <= 2 for a, b in zip(got, want)), f"times of the log entries: {got}, {want}")
        for tid in IDS:
            case.eq([x.message for x in st.query(task_id=tid, limit=10**6)][::-1], [x[2] for x in want if x[4] == tid], f"log entries of {tid}")
        case.trivial = len(want) < 3
    finally:
        root.setLevel(before)
        h.storage = MemoryLogStorage(maxlen=1)


def race(case):
    from asyncz.events.base import TaskEvent
    from asyncz.events.constants import TASK_ADDED

    r = case.rng
    clock.off()
    kind = r.choice(["events", "audit", "logs"])
    maxlen = r.choice([5, 20, 10000])
    t = Trail(kind, maxlen, r)
    nw, per = r.randint(2, 4), r.randint(8, 30)
    d = Delays(FILES, r.choice([0.01, 0.1, 0.3]), r.choice([[0], [0, 0.0001, 0.001]]))
    started, done = [0] * nw, [0] * nw
    case.describe(kind=kind, maxlen=maxlen, writers=nw, per=per)
    bad, reads, full = [], [0], [0]

    def put(i, n):
        name = f"{i}:{n}"
        if kind == "audit":
            t.st.append(action="a", status="succeeded", target_id=name)
        elif kind == "logs":
            t.st.append({"message": name, "task_id": name})
        else:
            t.st.append(TaskEvent(code=TASK_ADDED, task_id=name), scheduler=None)

    def write(i):
        def f():
            for n in range(per):
                started[i] = n + 1
                put(i, n)
                done[i] = n + 1
        return f

    def names(rows):
        return [tuple(map(int, (x.target_id if kind == "audit" else x.task_id).split(":"))) for x in rows]

    def look(final=False):
        lo = list(done)
        rows = names(list(t.st.query(limit=10**6)))
        hi = list(started)
        reads[0] += 1
        if len(rows) > maxlen:
            bad.append(f"{len(rows)} entries with a bound of {maxlen}")
        if len(set(rows)) < len(rows):
            bad.append(f"an entry shows twice: {rows}")
        if len(rows) < min(maxlen, sum(lo)):
            bad.append(f"only {len(rows)} entries after {sum(lo)} were written (bound {maxlen})")
        if len(rows) == maxlen:
            full[0] += 1
        for i in range(nw):
            ns = [n for j, n in rows if j == i]
            if ns != sorted(ns, reverse=True):
                bad.append(f"entries of writer {i} out of order: {ns}")
            if ns and ns != list(range(ns[0], ns[-1] - 1, -1)):
                bad.append(f"entries of writer {i} with a gap: {ns}")
            if ns and ns[0] + 1 > hi[i]:
                bad.append(f"entry {ns[0]} of writer {i} before it was written")
            if len(rows) < maxlen and (len(ns) < lo[i]):
                bad.append(f"{len(ns)} entries of writer {i} after {lo[i]} were written")
        if kind != "logs":
            s = t.st.summary()
            if s["total"] > maxlen or s["total"] != s["succeeded" if kind == "audit" else "task"]:
                bad.append(f"summary {s}")
        return rows

    def read():
        for _ in range(25):
            look()

    together(case, [*(write(i) for i in range(nw)), *([read] * r.randint(1, 2))], d, f"{case.ctx.seed}:{case.index}")
    rows = look(True)
    case.count("race_writes", nw * per)
    case.count("race_reads", reads[0])
    case.count("full_reads", full[0])
    case.count("delays", d.slow)
    case.check(not bad, f"readers saw: {bad[:3]}")
    if maxlen >= nw * per:
        case.eq(sorted(rows), sorted((i, n) for i in range(nw) for n in range(per)), "entries written")
        case.count("tail_exact")
    case.log.append(rows)


def install_race(case):
    """Installing the same trail again and again while events happen loses and repeats none."""
    from asyncz.contrib.dashboard.events import MemorySchedulerEventStorage, install_scheduler_event_listener
    from asyncz.schedulers import NativeAsyncIOScheduler

    r = case.rng
    clock.off()
    d = Delays(FILES, r.choice([0.01, 0.1]), r.choice([[0], [0, 0.0001, 0.001]]))
    st = MemorySchedulerEventStorage()
    s = NativeAsyncIOScheduler(timezone="UTC", stores={"default": {"type": "memory"}})
    install_scheduler_event_listener(s, storage=st)
    n = r.randint(20, 60)

    def fire():
        # executors added to a scheduler that is not running: one event each
        for i in range(n):
            s.add_executor("debug", alias=f"x{i}")

    def install():
        for _ in range(r.randint(3, 10)):
            install_scheduler_event_listener(s, storage=st)

    together(case, [fire, install, install], d, f"{case.ctx.seed}:{case.index}")
    names = [x.alias for x in st.query(limit=10**6)][::-1]
    case.eq(names, [f"x{i}" for i in range(n)], "executors announced in the trail")
    case.count("install_races")
    case.count("delays", d.slow)
    case.describe(n=n)
    case.log.append(n)


def run(ctx):
    ctx.cases("seq", seq, quick=1600, thorough=30000)
    ctx.cases("sched", sched, quick=400, thorough=8000)
    ctx.cases("logs", logs, quick=300, thorough=6000)
    ctx.cases("race", race, quick=240, thorough=4000)
    ctx.cases("install_race", install_race, quick=80, thorough=1000)
