"""C09: tasks written to a persistent store and read back elsewhere are the same tasks."""
import base64
import datetime as D
import json
import os
import pickle
import random
import subprocess
import sys
from datetime import timedelta
from zoneinfo import ZoneInfo

from rv import clock, fns, fns9, gen
from rv.backends import PERSISTENT, Backend, StubScheduler
from rv.readback import chain, us, view
from rv.world import TOL, Blocked, Ledger, run_world

RULE = ("a case stores random tasks (callable kinds, argument types, triggers with options, fields, pickle protocol, shape, encryption key) through a real scheduler "
        "and reads them back through a new scheduler, another process, or after a crash at a random line of store code; or loads records written by an earlier "
        "version; every field, the effect of calling the task and the later fire times are compared; non-trivial when at least one task was compared; distinct by contents")
ASSUMPTIONS = ["argument values are picklable and compare by value", "a crash is an abrupt end of the process (not of the machine)",
               "random draws are repeatable with random.seed", "MongoDB stand-in"]
REQUIRE = {"compared": 3000, "refused_unstorable": 60, "otherproc": 100, "legacy": 300, "restarts": 150, "restart_handed": 1500, "late_after_restart": 100,
           "crashes": 150, "crash_hit": 80, "nested_triggers": 200, "jitter": 200, "with_key": 300}
UTC = D.timezone.utc
KEY = "ASYNCZ_STORE_ENCRYPTION_KEY"


def set_key(k):
    os.environ.pop(KEY, None)
    if k:
        os.environ[KEY] = k


def bound(r, dt, tz):
    """A trigger bound as aware datetime, or naive / text in the trigger's zone."""
    n = gen.unambiguous_naive(dt, tz)
    if n is None or r.random() < 0.5:
        return gen.express(r, dt, tz)
    return n if r.random() < 0.5 else str(n)


def make_trigger(r, tz, base, depth=2):
    """A zero-argument maker, so that independent but equal triggers can be built."""
    from asyncz.triggers import AndTrigger, CronTrigger, DateTrigger, IntervalTrigger, OrTrigger

    k = r.choices(["interval", "cron", "date", "or", "and", "crontab"], [4, 4, 2, 2 if depth else 0, 1 if depth else 0, 1])[0]
    kw = {}
    if r.random() < 0.4 and k not in ("date", "crontab"):
        kw["jitter"] = r.choice([1, 30, 600])
    if k in ("interval", "cron"):
        if r.random() < 0.6:
            kw["timezone"] = r.choice([tz, tz, str(tz)]) if isinstance(tz, ZoneInfo) else tz
        else:
            tz = UTC
        if r.random() < 0.6 or k == "interval":
            kw["start_at"] = bound(r, base + timedelta(seconds=r.randint(-10**6, 10**6), microseconds=r.choice([0, 0, 1, 999999])), tz)
        if r.random() < 0.4:
            kw["end_at"] = bound(r, base + timedelta(seconds=r.randint(0, 3 * 10**6)), tz)
    if k == "interval":
        per = r.choice([dict(seconds=r.randint(1, 10**5)), dict(minutes=7, seconds=3), dict(hours=5), dict(days=1), dict(weeks=1, days=2, hours=3), dict(seconds=0.5)])
        return lambda: IntervalTrigger(**per, **kw)
    if k == "cron":
        f = r.choice([dict(minute="*/7"), dict(hour=r.randint(0, 23), minute="30"), dict(day="last", hour=2), dict(day="2nd sun,4th mon", hour="1-4"),
                      dict(week="*/3", day_of_week="mon-fri"), dict(month="jan-mar,11", second="7,33"), dict(year="2020-2040", hour="*/6"),
                      dict(day_of_week="sun", hour="1,2,3", minute=30), dict(second="*/20", minute=5)])
        return lambda: CronTrigger(**f, **kw)
    if k == "crontab":
        s = r.choice(["0,30 8-18 * * mon-fri", "*/5 * * * *", "1 2 3 * *", "0 0 * * 0"])
        return lambda: CronTrigger.from_crontab(s, timezone=tz)
    if k == "date":
        at = bound(r, base + timedelta(seconds=r.randint(1, 10**6), microseconds=r.choice([0, 123456])), tz)
        return lambda: DateTrigger(run_at=at, timezone=tz)
    if k == "or":
        parts = [make_trigger(r, tz, base, depth - 1) for _ in range(r.randint(1, 3))]
        return lambda: OrTrigger(triggers=[p() for p in parts], **kw)
    a, b = r.choice([("*/3", "*/4"), ("*/2", "*/2"), ("0", "*/5")])
    return lambda: AndTrigger(triggers=[CronTrigger(minute=a, timezone=tz), CronTrigger(minute=b, timezone=tz)], **kw)


def make_task(r, tz, base):
    kind, given, stands = fns9.callables(r)
    args = [fns9.value(r) for _ in range(r.randint(0, 3))]
    kwargs = {k: fns9.value(r) for k in r.sample(["p", "q", "é"], r.randint(0, 2))}
    if kind == "unbound":
        args = [fns9.Sub(5), *args]
    if kind == "class":
        args, kwargs = [3], {}
    if kind == "builtin bound":
        args, kwargs = ["-"], {}
    if kind == "builtin":
        kwargs = {}
    maker = make_trigger(r, tz, base)
    opts = dict(name=r.choice(["n", "nämé \u2603", "x" * 200]), coalesce=r.random() < 0.5, max_instances=r.randint(1, 99),
                mistrigger_grace_time=r.choice([None, 1, 0.5, 3600]), executor=r.choice(["default", "other"]))
    nrt = r.choice(["trigger", "trigger", None, base + timedelta(seconds=r.randint(-5000, 5000), microseconds=r.choice([0, 1, 999999]))])
    return dict(kind=kind, given=given, stands=stands, args=args, kwargs=kwargs, maker=maker, opts=opts, nrt=nrt)


def expected(spec, tid, tz, base, seed, first):
    """view() of the task as it was asked for."""
    class T:
        pass

    t = T()
    fn, args = spec["stands"], list(spec["args"])
    t.fn, t.args, t.kwargs, t.id = fn, args, spec["kwargs"], tid
    for k, v in spec["opts"].items():
        setattr(t, k, v)
    t.next_run_time, t.trigger = first, spec["maker"]()
    return view(t, UTC, us(base), seed)


def same(case, got, want, spec, what):
    for k in want:
        g = got[k]
        if k == "args" and "bound" in spec["kind"] and len(g) == len(want[k]) + 1:
            g = g[1:]  # the instance travels as first argument
        case.eq(g, want[k], f"{what} [{spec['kind']}, {want['text']}]: {k}")
    case.count("compared")
    case.count("kind:" + spec["kind"])


def open_two(case, run):
    """run(w, kind) inside a simulated world with a random key in the environment."""
    old = os.environ.get(KEY)
    r = case.rng
    key = r.choice([None, "k", "long key é" * 20])
    set_key(key)
    case.count("with_key", bool(key))
    try:
        run_world(case, lambda w: run(w, key))
    finally:
        set_key(old)


SHAPES = [None, "pydantic", "dataclass", "msgspec", "attrs", "any"]


def shapes():
    from asyncz.shapes import resolve_shape

    out = [None]
    for s in SHAPES[1:]:
        try:
            resolve_shape(s)
            out.append(s)
        except Exception:
            pass
    return out


def roundtrip(case, other=False):
    r = case.rng

    async def main(w, key):
        kind = r.choice(["file", "sqlite", "redis"] if other else PERSISTENT)
        proto = r.choice([None, 4, 5])
        b = w.backends["default"] = Backend(case.ctx, kind, protocol=proto)
        base = w.sim.now()
        s1 = w.scheduler(stores={"default": b.store()}, executors={"default": "asyncio" if False else _asyncio(), "other": _asyncio()})
        await w.start(s1, paused=True)
        specs, wants = {}, {}
        seed = r.random()
        case.describe(kind=kind, proto=proto, key=bool(key), tasks={})
        for i in range(r.randint(1, 5)):
            tid = r.choice([f"t{i}", f"id {i} é", f"{i}[*]?.x"])
            spec = make_task(r, w.tz, base)
            kw = dict(spec["opts"])
            if spec["nrt"] != "trigger":
                kw["next_run_time"] = spec["nrt"]
            trig = spec["maker"]()
            case.desc["tasks"][tid] = f"{spec['kind']} {trig} {spec['nrt']} {len(spec['args'])}"
            random.seed(f"{seed}:{tid}")
            first = spec["nrt"] if spec["nrt"] != "trigger" else spec["maker"]().get_next_trigger_time(w.tz, None, w.sim.now())
            random.seed(f"{seed}:{tid}")
            before = b.records()
            try:
                s1.add_task(spec["given"], trig, args=spec["args"], kwargs=spec["kwargs"], id=tid, **kw)
            except (ValueError, TypeError, LookupError, AttributeError, pickle.PicklingError) as exc:
                case.check(spec["kind"] in ("partial", "lambda", "nested function", "instance", "builtin bound", "module instance"),
                           f"a task on {spec['kind']} was refused: {exc!r}")
                case.eq(set(b.records()), set(before), f"records after a refused add ({spec['kind']})")
                case.check(tid in before or s1.get_task(tid) is None, f"{tid} exists though adding it was refused")
                case.count("refused_unstorable")
                continue
            specs[tid] = spec
            wants[tid] = expected(spec, tid, w.tz, base, seed, first)
            txt = str(trig)
            case.count("nested_triggers", "[" in txt and type(trig).__name__ in ("OrTrigger", "AndTrigger"))
            case.count("jitter", bool(getattr(trig, "jitter", None)))
        hard = r.random() < 0.5
        if not hard:
            await w.stop(s1)
        if other:
            await w.sim.settle()
            q = dict(kind=kind, where={"file": b.dir, "sqlite": getattr(b, "path", None), "redis": getattr(b, "sock", None)}[kind], key=key, base=us(base), seed=seed)
            got = ask(case.ctx, q)
            case.eq(sorted(t["id"] for t in got), sorted(specs), "tasks another process finds")
            for t in got:
                # what crosses the pipe is JSON
                same(case, t, json.loads(json.dumps(wants[t["id"]])), specs[t["id"]], f"{t['id']} in another process ({kind})")
            case.count("otherproc")
            return
        for gen_no in range(r.choice([1, 1, 2, 3])):
            if r.random() < 0.4:
                await __import__("asyncio").sleep(r.choice([0.5, 100, 5000]))
            cfg = {"default": b.store() if r.random() < 0.5 or kind == "mongo" else b.config()}
            shape = r.choice(shapes())
            s2 = w.scheduler(stores=cfg, executors={"default": _asyncio(), "other": _asyncio()}, **({"shape": shape} if shape else {}))
            await w.start(s2, paused=True)
            got = s2.get_tasks()
            case.eq(sorted(t.id for t in got), sorted(specs), "tasks after the restart")
            for t in got:
                same(case, view(t, UTC, us(base), seed), wants[t.id], specs[t.id], f"{t.id} after restart {gen_no} ({kind}, shape {shape})")
            if specs and r.random() < 0.5:  # written again by the new scheduler
                tid = r.choice(sorted(specs))
                s2.update_task(tid, name="renamed")
                specs[tid]["opts"]["name"] = "renamed"
                wants[tid]["name"] = "renamed"
            if r.random() < 0.6:
                await w.stop(s2)

    open_two(case, main)


def _asyncio():
    from asyncz.executors.asyncio import AsyncIOExecutor

    return AsyncIOExecutor()


_helper = {}


def ask(ctx, q):
    """One question to this worker's second process (ended and started anew every 20 questions)."""
    h = _helper.get("p")
    if h is None or _helper["n"] >= 20:
        if h:
            h.stdin.close()
            h.wait()
        env = dict(os.environ)
        env.pop("LD_PRELOAD", None)
        env["PYTHONHASHSEED"] = "random"
        h = _helper["p"] = subprocess.Popen([sys.executable, "-m", "rv.readback"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True)
        _helper["n"] = 0
    _helper["n"] += 1
    h.stdin.write(json.dumps(q) + "\n")
    h.stdin.flush()
    line = h.stdout.readline()
    if not line:
        raise RuntimeError("the second process died")
    return json.loads(line)


def otherproc(case):
    roundtrip(case, other=True)


# ---------------------------------------------------------------- records of earlier versions
_fix = []


def legacy(case):
    import pytz  # noqa: F401
    from asyncz import triggers as TR

    r = case.rng
    if not _fix:
        _fix.extend(json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "fixtures", "records.json"))))
    kind = PERSISTENT[case.index % 4]
    old = os.environ.get(KEY)
    key = r.choice([None, None, "k2"])
    set_key(key)
    try:
        b = Backend(case.ctx, kind)
        recs = r.sample(_fix, r.randint(4, 12))
        recs = list({x["id"]: x for x in recs}.values())
        tmp = b.store()
        tmp.start(StubScheduler(UTC), "s")  # creates the table
        for x in recs:
            blob = tmp.conditional_encrypt(base64.b64decode(x["blob"])) if key else base64.b64decode(x["blob"])
            nrt = x["nrt"] and D.datetime.fromisoformat(x["nrt"])
            b.put(x["id"], blob, nrt and nrt.timestamp())
        tmp.shutdown()
        st = b.store()
        st.start(StubScheduler(UTC), "s")
        case.describe(kind=kind, key=bool(key), ids=[(x["id"], x["kind"]) for x in recs])
        got = {t.id: t for t in (st.get_all_tasks() if r.random() < 0.7 else [st.lookup_task(x["id"]) for x in recs]) if t is not None}
        case.eq(sorted(got), sorted(x["id"] for x in recs), f"records of an earlier version in the {kind} store")
        base = D.datetime(2024, 3, 1, 9, 0, tzinfo=UTC)
        env = dict(vars(TR), D=D, UTC=UTC, ZoneInfo=ZoneInfo, pytz=pytz)
        for x in recs:
            t = got[x["id"]]
            for k in ("name", "coalesce", "max_instances", "mistrigger_grace_time", "executor"):
                case.eq(getattr(t, k), x[k], f"{x['id']} ({x['kind']}): {k}")
            case.eq(list(t.args), x["args"], f"{x['id']}: args")
            case.eq(dict(t.kwargs), x["kwargs"], f"{x['id']}: kwargs")
            case.eq(us(t.next_run_time), us(x["nrt"] and D.datetime.fromisoformat(x["nrt"])) if x["nrt"] else None, f"{x['id']}: next run time")
            from asyncz.utils import ref_to_obj

            case.check(t.fn == ref_to_obj(x["fn"]), f"{x['id']}: callable {t.fn}, stored was {x['fn']}")
            want = chain(eval(x["trigger"], env), UTC, us(base), 10, "s")
            case.eq(chain(t.trigger, UTC, us(base), 10, "s"), want, f"{x['id']} ({x['kind']}): fire times of {x['trigger']}")
            case.count("legacy")
        # and they can be written back
        t = got[r.choice(sorted(got))]
        t.name = "again"
        st.update_task(t)
        case.eq(st.lookup_task(t.id).name, "again", f"{t.id}: name after writing it back")
        st.shutdown()
        b.close()
    finally:
        set_key(old)


# ---------------------------------------------------------------- schedules across restarts
def restart(case):
    r = case.rng
    blocked = Blocked()

    async def main(w):
        import asyncio

        from asyncz.events.constants import TASK_MAX_INSTANCES, TASK_SUBMITTED

        sim = w.sim
        kinds = {"default": r.choice(PERSISTENT), **({"b": r.choice(PERSISTENT)} if r.random() < 0.3 else {})}
        if list(kinds.values()).count("redis") > 1:
            kinds["b"] = "file"
        for a, k in kinds.items():
            w.backend(a, k)
        ledgers, errs = {}, []
        base = sim.now()
        case.describe(zone=str(w.tz), base=str(base), kinds=kinds, tasks={}, restarts=[])

        def on_event(ev):
            if ev.code in (TASK_SUBMITTED, TASK_MAX_INSTANCES):
                try:
                    case.check(ev.task_id in ledgers, f"submission of unknown task {ev.task_id}")
                    led = ledgers[ev.task_id]
                    if us(ev.scheduled_run_times[0]) < led.epoch:
                        case.count("late_after_restart")
                    led.event(sim.us, ev, "handed")
                    case.count("restart_handed")
                except BaseException as exc:
                    errs.append(exc)

        def raise_pending():
            if errs:
                raise errs[0]

        s = None
        n = 0
        for phase in range(r.randint(2, 4)):
            s = w.scheduler(stores={a: (b.store() if r.random() < 0.5 or b.kind == "mongo" else b.config()) for a, b in w.backends.items()},
                            executors={"default": _asyncio()})
            s.add_listener(on_event)
            if phase == 0 or r.random() < 0.5:
                await w.start(s)
            else:
                await w.start(s, paused=True)
                got = sorted(t.id for t in s.get_tasks())
                case.eq(got, sorted(i for i, l in ledgers.items() if l.next is not None), "tasks after a restart")
                s.resume()
            blocked_end = sim.us
            if phase:
                blocked.add(down, blocked_end)
                await sim.settle(12)
                raise_pending()
            for _ in range(r.randint(1, 3) if phase == 0 else r.randint(0, 1)):
                tid = f"t{n}"
                n += 1
                trig, desc = gen.trigger(r, w.tz, sim.now(), 1, 0, pure=True)
                first = trig.get_next_trigger_time(w.tz, None, sim.now())
                if first is None:
                    continue
                co = r.random() < 0.5
                case.desc["tasks"][tid] = f"{desc} {co}"
                led = ledgers[tid] = Ledger(case, tid, trig, first, w.tz, co, sim.us, blocked)
                led.epoch = 0
                s.add_task(r.choice([fns.work, fns.awork]), trig, args=[tid], id=tid, store=r.choice(list(kinds)), coalesce=co,
                           mistrigger_grace_time=r.choice([None, None, 5]), max_instances=50)
            await asyncio.sleep(r.choice([0.001, 3, 60, 200, 700]) + r.choice([0, 0.123456]))
            s.pause()  # nothing is in progress
            await sim.settle(12)
            raise_pending()
            end = sim.us
            for led in ledgers.values():
                led.finish(end)
            for tid, led in ledgers.items():
                if led.next is not None and us(led.next) <= end:
                    continue
                t = s.get_task(tid)
                case.check((t is None) == (led.next is None), f"{tid}: stored {t}, expected next run time {led.next}")
                if t is not None:
                    case.eq(us(t.next_run_time), us(led.next), f"{tid}: stored next run time")
            down = end
            clean = r.random() < 0.5
            if clean:
                await w.stop(s)
            gap = r.choice([0, 0.5, 30, 300, 1000])
            case.desc["restarts"].append((clean, gap))
            if gap:
                await asyncio.sleep(gap)
            for led in ledgers.values():
                led.epoch = sim.us
            case.count("restarts")
        case.check(not sim.loop_errors, f"error in the event loop: {sim.loop_errors[:2]}")
        if not any(l.total for l in ledgers.values()):
            case.trivial = True

    run_world(case, main)


# ---------------------------------------------------------------- crashes inside store code
def crash(case):
    """A child process drives a store and dies at a random line of library code; the parent looks at what is left."""
    r = case.rng
    ctx = case.ctx
    kind = r.choice(["file", "file", "sqlite", "redis"])
    old = os.environ.get(KEY)
    set_key(r.choice([None, "kk"]))
    b = Backend(ctx, kind)
    try:
        sched = StubScheduler(UTC)
        st = b.store()
        st.start(sched, "s")
        from asyncz.tasks import Task
        from asyncz.triggers import IntervalTrigger

        base = D.datetime(2024, 3, 1, tzinfo=UTC)

        def mk(tid, ver, pad):
            from asyncz.schedulers import AsyncIOScheduler  # noqa: F401

            t = Task(fns9.plain, id=tid, trigger=IntervalTrigger(seconds=ver + 1, start_at=base, timezone="UTC"), args=(ver, "x" * pad),
                     store_alias="s", coalesce=False, mistrigger_grace_time=None, max_instances=1, executor="default", name=f"v{ver}")
            t.next_run_time = base + timedelta(seconds=ver)
            return t

        def vers(s):
            out = {}
            for t in s.get_all_tasks():
                ok = t.name == f"v{t.args[0]}" and t.trigger.interval == timedelta(seconds=t.args[0] + 1) and us(t.next_run_time) == us(base) + t.args[0] * 10**6
                case.check(ok, f"{kind}: {t.id} is a mixture of versions: {t.name} {t.args[:1]} {t.trigger} {t.next_run_time}")
                out[t.id] = t.args[0]
            return out

        model = {}
        ids = ["a", "b", "c"]
        ver = 0
        for tid in ids[: r.randint(1, 3)]:
            ver += 1
            st.add_task(mk(tid, ver, r.choice([0, 100, 20000])))
            model[tid] = ver
        st.shutdown()
        ops = []
        m = dict(model)
        for _ in range(r.randint(1, 4)):
            ver += 1
            tid = r.choice(ids)
            if tid in m:
                op = r.choices(["update", "delete"], [4, 1])[0]
            else:
                op = "add"
            pad = r.choice([0, 50, 9000, 50000])  # AES-CCM with this nonce takes up to 64 KiB
            ops.append((op, tid, ver, pad))
            m = dict(m)
            if op == "delete":
                m.pop(tid)
            else:
                m[tid] = ver
        case.describe(kind=kind, ops=ops, key=bool(os.environ.get(KEY)))
        lines = r.choice([r.randint(1, 60), r.randint(1, 400), 10**9])
        rp, wp = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rp)
                pkg = os.path.dirname(__import__("asyncz").__file__)
                left = [lines]
                st = b.store()
                st.start(sched, "s")
                st.get_all_tasks()

                def local(frame, ev, arg):
                    left[0] -= 1
                    if left[0] <= 0:
                        os._exit(77)
                    return local

                stores = os.path.join(pkg, "stores")
                locking = os.path.join(pkg, "file_locking.py")

                def tracer(frame, ev, arg):
                    f = frame.f_code.co_filename
                    if f.startswith(stores) or f == locking:
                        return local(frame, ev, arg)
                    return None

                tasks = [(op, tid, None if op == "delete" else mk(tid, v, pad)) for op, tid, v, pad in ops]
                sys.settrace(tracer)
                for i, (op, tid, t) in enumerate(tasks):
                    if op == "add":
                        st.add_task(t)
                    elif op == "update":
                        st.update_task(t)
                    else:
                        st.delete_task(tid)
                    os.write(wp, b".")
                sys.settrace(None)
                os._exit(0)
            except BaseException as exc:
                sys.settrace(None)
                os.write(wp, b"E" + repr(exc).encode()[:500])
                os._exit(1)
        os.close(wp)
        done = b""
        while chunk := os.read(rp, 4096):
            done += chunk
        os.close(rp)
        _, status = os.waitpid(pid, 0)
        case.check(b"E" not in done, f"{kind}: a store operation failed: {done!r}")
        code = os.waitstatus_to_exitcode(status)
        n = len(done)
        # states: after the n operations known to have returned, or with one more
        states = []
        m = dict(model)
        for i, (op, tid, v, pad) in enumerate(ops):
            if i == n:
                states.append(dict(m))
            if op == "delete":
                m.pop(tid)
            else:
                m[tid] = v
            if i == n or (i == len(ops) - 1 and n == len(ops)):
                states.append(dict(m))
                break
        st = b.store()
        st.start(sched, "s")
        got = vers(st)
        case.check(got in states, f"{kind}: after a process died in operation {n} of {ops}, the store holds {got}, expected one of {states}")
        # indexes agree with the records
        due = {t.id for t in st.get_due_tasks(base + timedelta(days=1))}
        case.eq(due, set(got), f"{kind}: due tasks after the crash")
        nxt = st.get_next_run_time()
        want = min((us(base) + v * 10**6 for v in got.values()), default=None)
        case.eq(us(nxt), want, f"{kind}: next run time after the crash")
        # and it can be used
        for tid in ids:
            ver += 1
            if tid in got:
                st.update_task(mk(tid, ver, 3))
            else:
                st.add_task(mk(tid, ver, 3))
            got[tid] = ver
        case.eq(vers(st), got, f"{kind}: store after going on")
        st.shutdown()
        case.count("crashes")
        case.count("crash_hit", code == 77)
        case.log.append((code, n))
    finally:
        set_key(old)
        b.close()


def run(ctx):
    clock.set_dt(D.datetime(2024, 3, 10, 10, 0, 0, tzinfo=UTC))
    ctx.cases("legacy", legacy, quick=120, thorough=600)
    ctx.cases("otherproc", otherproc, quick=160, thorough=1200)
    ctx.cases("roundtrip", roundtrip, quick=1200, thorough=15000)
    ctx.cases("restart", restart, quick=300, thorough=4000)
    ctx.cases("crash", crash, quick=320, thorough=4000)
    h = _helper.get("p")
    if h:
        h.stdin.close()
        h.wait()
