"""C17: many users of one persistent store: a directory, an SQLite database, a Redis server."""
import datetime as D
import json
import os
import random
import signal
import sys
import threading
import time

from rv import clock, fns9
from rv.backends import Backend, StubScheduler
from rv.linear import INF, Budget, linearizable, overlaps, task_step

RULE = ("a case lets several processes or threads add, update, read, list, delete and clear tasks with shared ids in one directory (or SQLite database, or Redis server), with delays injected at "
        "random lines of the store's code (and sometimes a process killed there); the recorded history of every id must be linearizable and every task "
        "read must be complete as one writer wrote it; non-trivial when operations on one id overlapped; distinct by history")
ASSUMPTIONS = ["flock and rename work as on a local POSIX file system", "interleavings are those reached by random delays between lines of library code"]
REQUIRE = {"histories": 1200, "overlapping_pairs": 16000, "reads": 6500, "contended_adds": 1200, "killed": 80, "thread_cases": 300, "process_cases": 300, "fresh": 120, "kind:file": 270, "kind:redis": 150, "kind:sqlite": 150}
UTC = D.timezone.utc
BASE = D.datetime(2024, 3, 1, tzinfo=UTC)


def mk(tid, ver, pad):
    from asyncz.tasks import Task
    from asyncz.triggers import IntervalTrigger

    t = Task(fns9.plain, id=tid, trigger=IntervalTrigger(seconds=ver + 1, start_at=BASE, timezone="UTC"), args=(ver, "x" * pad, ver),
             store_alias="s", coalesce=False, mistrigger_grace_time=None, max_instances=1, executor="default", name=f"v{ver}")
    t.next_run_time = BASE + D.timedelta(seconds=ver)
    return t


def version(t):
    """The version a task shows, or a description of what is wrong with it."""
    v = t.args[0]
    ok = (t.name == f"v{v}" and t.args[2] == v and t.trigger.interval == D.timedelta(seconds=v + 1) and t.next_run_time == BASE + D.timedelta(seconds=v)
          and t.fn is fns9.plain)
    return v if ok else f"mixture {t.name} {t.args[0]} {t.trigger} {t.next_run_time}"


def actor(store, ops, seed, intensity, kill_at, out):
    """Run ops with random delays at lines of store code; report each to out(dict)."""
    from asyncz.exceptions import ConflictIdError, TaskLookupError

    rnd = random.Random(seed)
    files = tuple(os.sep + "asyncz" + os.sep + x for x in ("stores" + os.sep + "file.py", "stores" + os.sep + "sqlalchemy.py", "stores" + os.sep + "redis.py", "file_locking.py"))
    left = [kill_at]

    def local(frame, ev, arg):
        left[0] -= 1
        if left[0] == 0:
            os.kill(os.getpid(), signal.SIGKILL)
        x = rnd.random()
        if x < intensity:
            time.sleep(rnd.choice([0, 0, 0.0002, 0.001, 0.003]))
        return local

    def tracer(frame, ev, arg):
        return local if frame.f_code.co_filename.endswith(files) else None

    prepared = [(op, tid, ver, mk(tid, ver, pad) if op in ("add", "update") else None) for op, tid, ver, pad in ops]
    sys.settrace(tracer)
    try:
        for op, tid, ver, task in prepared:
            rec = dict(op=op, id=tid, arg=ver, start=time.monotonic_ns())
            out({**rec, "begin": True})
            try:
                if op == "add":
                    store.add_task(task)
                    res = "ok"
                elif op == "update":
                    store.update_task(task)
                    res = "ok"
                elif op == "delete":
                    store.delete_task(tid)
                    res = "ok"
                elif op == "clear":
                    store.remove_all_tasks()
                    res = "ok"
                elif op == "lookup":
                    t = store.lookup_task(tid)
                    res = None if t is None else version(t)
                else:
                    ts = store.get_all_tasks() if op == "list" else store.get_due_tasks(BASE + D.timedelta(days=999))
                    res = [(t.id, version(t)) for t in ts]
            except (ConflictIdError, TaskLookupError) as exc:
                res = type(exc).__name__
            except Exception as exc:
                res = "ERROR " + repr(exc)
            rec.update(res=res, end=time.monotonic_ns())
            out(rec)
    finally:
        sys.settrace(None)


def scenario(case):
    r = case.rng
    kind = r.choice(["file", "file", "redis", "sqlite"])
    home = Backend(case.ctx, kind)
    case.count(f"kind:{kind}")
    threads = case.index % 2 == 0
    d = case.ctx.tmpdir("shared")
    ids = ["a", "b", "c"][: r.choice([1, 2, 3])]
    n = r.randint(2, 4)
    ver = [0]

    def nv():
        ver[0] += 1
        return ver[0]

    mixes = [dict(add=3, update=3, delete=2, lookup=3, list=2, due=1, clear=0.2), dict(add=4, delete=4, lookup=2, list=2), dict(update=5, lookup=3, list=3, delete=0.3, add=0.5),
             dict(add=5, lookup=1, list=1, delete=3), dict(update=3, delete=2, add=2, list=4), dict(add=4, delete=4, due=5)]
    mix = r.choice(mixes)
    scripts = [[(op, r.choice(ids), nv(), r.choice([0, 0, 3000, 70000])) for op in r.choices(list(mix), list(mix.values()), k=r.randint(4, 9))] for _ in range(n)]
    intensity = r.choice([0.05, 0.3, 0.6])
    kills = [0] * n
    if not threads and r.random() < 0.35:
        kills[r.randrange(n)] = r.randint(5, 120)
    case.describe(kind=kind, threads=threads, ids=ids, scripts=[[(o, i, v) for o, i, v, p in s] for s in scripts], intensity=intensity, kills=kills)
    history = []
    init = {}
    fresh = not threads and r.random() < 0.4
    st0 = home.store()
    if not fresh:
        st0.start(StubScheduler(UTC), "s")
    for tid in ids:
        if not fresh and r.random() < 0.5:
            init[tid] = nv()
            st0.add_task(mk(tid, init[tid], 10))
    if threads:
        shared = st0 if r.random() < 0.6 else None
        lock = threading.Lock()
        ths = []
        recs = []

        def out(x):
            with lock:
                if not x.get("begin"):
                    recs.append(x)

        for i in range(n):
            st = shared
            if st is None:
                st = home.store()
                st.start(StubScheduler(UTC), "s")
            ths.append(threading.Thread(target=actor, args=(st, scripts[i], f"{case.index}:{i}", intensity, 0, out), daemon=True))
        sw = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            for t in ths:
                t.start()
            for t in ths:
                t.join(240)
                case.check(not t.is_alive(), "a thread using the file store does not come back", key="stuck")
        finally:
            sys.setswitchinterval(sw)
        history = recs
        case.count("thread_cases")
    else:
        pids = []
        rp, wp = os.pipe()
        for i in range(n):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    os.close(rp)
                    signal.alarm(0)
                    st = home.store()
                    if not fresh:
                        st.start(StubScheduler(UTC), "s")
                    fd = os.open(os.path.join(d, f"{i}.log"), os.O_WRONLY | os.O_CREAT, 0o600)
                    while not os.path.exists(os.path.join(d, "go")):
                        time.sleep(0.0005)
                    if fresh:
                        try:
                            st.start(StubScheduler(UTC), "s")
                        except Exception as exc:
                            os.write(fd, json.dumps(dict(op="start", id="-", arg=0, start=0, end=1, res="ERROR " + repr(exc))).encode() + b"\n")
                            os._exit(0)
                    actor(st, scripts[i], f"{case.index}:{i}", intensity, kills[i], lambda x: os.write(fd, json.dumps(x).encode() + b"\n"))
                    code = 0
                finally:
                    os._exit(code)
            pids.append(pid)
        os.close(wp)
        open(os.path.join(d, "go"), "w").close()
        # all ends of the pipe are closed when every child is gone
        import select

        deadline = time.monotonic() + 240
        while time.monotonic() < deadline:
            rd, _, _ = select.select([rp], [], [], 1.0)
            if rd:
                break
        else:
            for p in pids:
                os.kill(p, signal.SIGKILL)
            case.fail("processes using the file store do not come back", key="stuck")
        os.close(rp)
        for i, p in enumerate(pids):
            _, status = os.waitpid(p, 0)
            code = os.waitstatus_to_exitcode(status)
            if code == -9:
                case.count("killed")
            else:
                case.eq(code, 0, "exit of a user of the store")
            open_op = None
            for line in open(os.path.join(d, f"{i}.log")):
                x = json.loads(line)
                if x.pop("begin", None):
                    open_op = x
                else:
                    history.append(x)
                    open_op = None
            if open_op is not None:
                open_op.update(res=None, end=INF)
                history.append(open_op)
        case.count("process_cases")
    # a last look, alone
    now = time.monotonic_ns()
    if fresh:
        st0.start(StubScheduler(UTC), "s")
        case.count("fresh")
    final = {t.id: version(t) for t in st0.get_all_tasks()}
    st0.shutdown()
    for x in history:
        case.check(not str(x["res"]).startswith("ERROR"), f"{x['op']} of {x['id']} failed: {x['res']}")
    for tid in ids:
        ops = []
        for x in history:
            if x["op"] in ("list", "due"):
                if x["end"] == INF:
                    continue
                seen = [v for i, v in x["res"] if i == tid]
                case.check(len(seen) <= 1, f"a listing shows {tid} twice: {x['res']}")
                ops.append(dict(op="read", arg=None, res=seen[0] if seen else None, start=x["start"], end=x["end"]))
                case.count("reads")
            elif x["op"] == "clear":
                ops.append(dict(op="clear", arg=None, res=x["res"], start=x["start"], end=x["end"]))
            elif x["id"] == tid:
                ops.append(dict(op="read" if x["op"] == "lookup" else x["op"], arg=x["arg"], res=x["res"], start=x["start"], end=x["end"]))
                case.count("reads", x["op"] == "lookup")
        ops.append(dict(op="read", arg=None, res=final.get(tid), start=now, end=now + 1))
        for o in ops:
            case.check(not str(o["res"]).startswith("mixture"), f"{tid}: a reader saw a {o['res']}")
        adds = [o for o in ops if o["op"] == "add"]
        case.count("contended_adds", sum(1 for i, a in enumerate(adds) for b in adds[:i] if a["start"] < b["end"] and b["start"] < a["end"]))
        k = overlaps(ops)
        case.count("overlapping_pairs", k)
        try:
            ok = linearizable(ops, init.get(tid), task_step)
        except Budget:
            case.count("undecided")
            continue
        t0 = min(o["start"] for o in ops)
        case.check(ok, f"{tid}: no order of the operations explains their results; initially {init.get(tid)}: "
                   + str([(o["op"], o["arg"], o["res"], (o["start"] - t0) // 1000, (min(o["end"], now) - t0) // 1000) for o in sorted(ops, key=lambda o: o["start"])]))
        case.count("histories")
        if not k:
            case.trivial = len(ids) == 1
        case.log.append([(o["op"], o["res"]) for o in sorted(ops, key=lambda o: o["start"])])
    import shutil

    shutil.rmtree(d, ignore_errors=True)
    home.close()


def run(ctx):
    clock.set_dt(D.datetime(2024, 3, 10, 10, 0, 0, tzinfo=UTC))
    ctx.cases("scenario", scenario, quick=1000, thorough=16000)
