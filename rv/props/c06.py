"""C06: pause, resume, reschedule, update and delete take effect and persist."""
import asyncio
import random
from datetime import timedelta

from rv import clock, fns, gen
from rv.world import UTC, Blocked, Ledger, run_world, us

RULE = ("a case runs a real scheduler in virtual time on 1-3 stores of any kind and applies 15-40 pause, resume, reschedule, update, delete, clear and "
        "re-add calls, from outside, from listeners and from running task functions, through the scheduler or the task object, with known, unknown "
        "and misplaced ids; every hand-over and every call of a task function is accounted online against a model of the tasks, the reported tasks are compared "
        "after each call and once more by a second scheduler on the same stores; non-trivial when at least 8 calls acted on existing tasks")
ASSUMPTIONS = ["the fire times a trigger yields are judged by C11-C13; here the trigger itself is asked", "a task paused by hand stays in its store; one whose "
               "schedule is finished by rescheduling may be removed or kept paused", "task functions take no time, so that every hand-over is carried out before the next call"]
REQUIRE = {"op:pause": 2000, "op:resume": 1500, "op:reschedule": 1000, "op:update": 2500, "op:delete": 600, "op:clear": 100, "op:unknown": 800,
           "op:readd": 300, "by:outside": 5000, "by:listener": 800, "by:function": 500, "handed": 20000, "calls": 20000, "resumed_finished": 60,
           "reopened_tasks": 800, "silent_paused": 500, "updated_function": 300, "misplaced": 200}


class Model:
    def __init__(self, case, tz, store, tid, blocked):
        self.case, self.tz, self.store, self.tid = case, tz, store, tid
        self.key = f"{store}/{tid}"
        self.blocked = blocked
        self.led = None
        self.exists = True
        self.f = {}  # name -> value: fn,args,kwargs,name,coalesce,max_instances,grace,executor,trigger
        self.versions = []
        self.pending = []  # (fire us, handed at us, version)
        self.finished_ok = False
        self.handed_at = None

    def schedule(self, nxt, now):
        self.led = Ledger(self.case, self.key, self.f["trigger"], nxt, self.tz, self.f["coalesce"], now, self.blocked)

    def version(self):
        self.versions.append((self.f["fn"], self.f["args"], self.f["kwargs"]))


FNS = {"work": "work", "work2": "work2", "awork": "awork", "awork2": "awork2", "meth": "meth"}


def scenario(case):
    r = case.rng
    blocked = Blocked()
    errs = []

    async def main(w):
        from asyncz.events.constants import TASK_REMOVED
        from asyncz.exceptions import TaskLookupError
        from asyncz.executors.asyncio import AsyncIOExecutor
        from asyncz.executors.debug import DebugExecutor
        from asyncz.tasks.types import TaskType

        sim, tz = w.sim, w.tz
        kinds = {"default": r.choice(["memory", "memory", "file", "sqlite", "redis", "mongo"])}
        for a in ("b", "c")[: r.choice([0, 1, 1, 2])]:
            kinds[a] = r.choice(["memory", "memory", "file", "sqlite", "mongo"])
        models = {}  # (store, tid) -> Model of the task existing there
        state = {"depth": 0, "nested": 0, "opened": True}

        def guard(fn):
            def inner(*a):
                try:
                    return fn(*a)
                except BaseException as exc:
                    errs.append(exc)
                    raise
            return inner

        @guard
        def handed(alias, task, run_times):
            case.count("handed", len(run_times))
            m = models.get((task.store_alias, task.id))
            case.check(m is not None and m.exists, f"{task.store_alias}/{task.id} was handed over though it was deleted or never added")
            led = m.led
            case.check(led is not None, f"{m.key} was handed over for {run_times} though it is paused")
            case.check(alias == m.f["executor"], f"{m.key} was handed to executor {alias}, its executor is {m.f['executor']}")
            ev = type("E", (), {})()
            ev.scheduled_run_times, ev.coalesced_run_count = run_times, 0
            if led.coalesce:
                case.eq(len(run_times), 1, f"{m.key} coalesces, fire times submitted at once")
                x = led.next
                while x is not None and us(x) < us(run_times[0]):
                    ev.coalesced_run_count += 1
                    x = led.trigger.get_next_trigger_time(tz, x, x)
            led.event(sim.us, ev, "handed")
            m.finished_ok = True
            m.handed_at = sim.us
            for g in run_times:
                m.pending.append((us(g), sim.us, len(m.versions) - 1))
            case.log.append((m.key, sim.us, len(run_times)))

        def spy(cls):
            class Spy(cls):
                def start(self, scheduler, alias):
                    self.my_alias = alias
                    super().start(scheduler, alias)

                def do_send_task(self, task, run_times):
                    handed(self.my_alias, task, list(run_times))
                    return super().do_send_task(task, run_times)
            return Spy()

        execs = {"default": spy(AsyncIOExecutor), "second": spy(AsyncIOExecutor), "debug": spy(DebugExecutor)}
        sched = w.scheduler(stores=w.stores(kinds), executors=execs)
        base = sim.now()
        case.describe(zone=str(tz), base=str(base), stores=kinds, ops=[])
        all_models = []

        # ---- function calls
        def called(key, n):
            rec_at = sim.us
            case.count("calls")
            ms = [m for m in all_models if m.key == key]
            case.check(bool(ms), f"function called for unknown task {key}")
            for m in ms:
                g = m.f["grace"]
                while m.pending and g is not None and rec_at - m.pending[0][0] > g * 1e6:
                    m.pending.pop(0)
                if m.pending:
                    return m, m.pending.pop(0)[2]
            case.fail(f"the function of {key} was called without a fire time handed over that is within its grace time")

        @guard
        def plan(key, n):
            m, vi = called(key, n)
            state["check_call"] = (m, vi)
            if r.random() < 0.16 and state["depth"] == 0 and state["in_debug_ok"](m):
                act("function")
            return {}

        def in_debug_ok(m):
            return m.f["executor"] == "debug" or m.f["fn"].startswith("a")

        state["in_debug_ok"] = in_debug_ok
        sim.plan = plan
        orig_enter = sim._enter

        def enter(key, args, kwargs):
            rec = orig_enter(key, args, kwargs)
            try:
                m, vi = state.pop("check_call")
                ok = False
                for fn, a, k in m.versions[vi:]:
                    want = a[1:]
                    if fn in ("work2", "awork2"):
                        want = ("work2", *want)
                    elif fn == "cmeth":
                        want = ("cmeth", *want)
                    ok = ok or (tuple(args) == tuple(want) and dict(kwargs) == dict(k))
                case.check(ok, f"{m.key}: the function was called with {args} {kwargs}; the task has {m.versions[-1]}")
            except BaseException as exc:
                errs.append(exc)
            return rec

        sim._enter = enter

        def on_event(ev):
            if ev.code == TASK_REMOVED:
                m = models.get((ev.store, ev.task_id))
                if m is not None and m.exists and not (m.led is not None and m.led.next is None):
                    errs.append(AssertionError(f"{m.key} was removed though its trigger still yields {m.led and m.led.next}"))
            if state["opened"] and state["depth"] == 0 and r.random() < 0.06:
                try:
                    act("listener")
                except BaseException as exc:
                    errs.append(exc)

        def raise_pending():
            if errs:
                e = errs[0]
                if isinstance(e, AssertionError):
                    case.fail(str(e))
                raise e

        sched.add_listener(on_event)

        # ---- building
        def new_fn(ex):
            return r.choice(["work", "work2", "cmeth"] if ex == "debug" else ["work", "work2", "awork", "awork2", "cmeth"])

        def fn_of(name):
            return {"cmeth": fns.Holder.cmeth}.get(name) or getattr(fns, name)

        def new_args(key):
            return (key, *[r.choice([1, "x", None, (1, 2)]) for _ in range(r.randint(0, 2))]), {k: r.randint(0, 99) for k in r.sample(["p", "q"], r.randint(0, 2))}

        def trig():
            t, d = gen.trigger(r, tz, sim.now(), 1, 0, pure=True)
            return t, d

        def as_arg(t):
            return t

        def add(store, tid):
            m = Model(case, tz, store, tid, blocked)
            ex = r.choice(["default", "default", "second", "debug"])
            fn = new_fn(ex)
            a, k = new_args(m.key)
            t, d = trig()
            m.f = dict(fn=fn, args=a, kwargs=k, name=r.choice(["n1", "n2"]), coalesce=r.random() < 0.5, max_instances=r.choice([5, 9]), grace=r.choice([None, None, 1, 30.5]),
                       executor=ex, trigger=t)
            m.version()
            now = sim.now()
            m.schedule(t.get_next_trigger_time(tz, None, now), us(now))
            if m.led.next is None:
                m.led = None  # stored paused
            models[(store, tid)] = m
            all_models.append(m)
            case.desc["ops"].append(f"{(sim.us - us(base)) / 1e6:.3f} add {m.key} {d} {fn} {ex}")
            sched.add_task(fn_of(fn), t, args=list(a), kwargs=k, id=tid, name=m.f["name"], store=store, executor=ex, coalesce=m.f["coalesce"],
                           max_instances=m.f["max_instances"], mistrigger_grace_time=m.f["grace"])
            return m

        def first_with(tid):
            for alias in kinds:
                m = models.get((alias, tid))
                if m is not None and m.exists and not gone(m):
                    return m
            return None

        def gone(m):
            return m.led is not None and m.led.next is None

        def compare(m, t, what):
            case.check(t is not None, f"{m.key}: not found after {what}")
            want = dict(id=m.tid, name=m.f["name"], kwargs=m.f["kwargs"], coalesce=m.f["coalesce"], max_instances=m.f["max_instances"],
                        mistrigger_grace_time=m.f["grace"], executor=m.f["executor"])
            for k, v in want.items():
                case.eq(getattr(t, k), v, f"{m.key}: {k} after {what}")
            case.eq(tuple(t.args)[-len(m.f["args"]):], m.f["args"], f"{m.key}: args after {what}")
            case.eq(t.fn, fn_of(m.f["fn"]), f"{m.key}: function after {what}")
            case.eq(str(t.trigger), str(m.f["trigger"]), f"{m.key}: trigger after {what}")
            nxt = m.led.next if m.led is not None else None
            got = t.next_run_time
            if state["depth"] and m.handed_at == sim.us and state["by"] != "outside":
                return  # possibly just being handed over
            case.check((got is None) == (nxt is None) and (got is None or us(got) == us(nxt)), f"{m.key}: next run time {got} after {what}, expected {nxt}")

        def act(by):
            """One operation, chosen by the case's generator; the model is moved first."""
            if by != "outside" and any(gone(m) for m in models.values() if m.exists):
                return  # a finished task is just being removed
            state["depth"] += 1
            state["by"] = by
            nest0 = state["nested"]
            state["nested"] += 1
            try:
                one_act(by, lambda: state["nested"] == nest0 + 1)
            finally:
                state["depth"] -= 1

        def one_act(by, quiet):
            now = sim.now()
            live = [m for m in models.values() if m.exists and not gone(m)]
            op = r.choices(["pause", "resume", "reschedule", "update", "delete", "unknown", "readd", "clear"], [6, 5, 4, 8, 1.6, 2, 1.6, 0.3])[0]
            if not live and op not in ("unknown", "readd"):
                op = "readd"
            if op == "clear" and by != "outside":
                op = "update"
            head = f"{(sim.us - us(base)) / 1e6:.3f} {by} {op}"
            if op == "unknown":
                misplaced = [(a, m) for a in kinds for m in live if m.store != a and not (models.get((a, m.tid)) and models[(a, m.tid)].exists)]
                if misplaced and r.random() < 0.4:
                    store, m = r.choice(misplaced)
                    tid = m.tid
                    case.count("misplaced")
                else:
                    tid, store = "nosuch", r.choice([None, *kinds])
                before = snapshot()
                what = r.choice(["pause", "resume", "reschedule", "update", "delete"])
                case.desc["ops"].append(f"{head} {what} {tid} {store}")
                try:
                    call(what, tid, store, m=None)
                except TaskLookupError:
                    pass
                else:
                    case.fail(f"{what} of the unknown task {tid} in store {store} was accepted")
                case.eq(snapshot(), before, f"{what} of the unknown task {tid}: the tasks changed")
                case.count("op:unknown")
                case.count(f"by:{by}")
                return
            if op == "readd":
                free = [(a, t) for a in kinds for t in ("t0", "t1", "t2", "t3") if not ((a, t) in models and models[(a, t)].exists)]
                if not free or len(live) > 7:
                    return
                add(*r.choice(free))
                case.count("op:readd")
                case.count(f"by:{by}")
                return
            if op == "clear":
                store = r.choice(list(kinds))
                case.desc["ops"].append(f"{head} {store}")
                for m in live:
                    if m.store == store:
                        m.exists = False
                        del models[(m.store, m.tid)]
                sched.remove_all_tasks(store)
                case.eq(sched.get_tasks(store), [], f"tasks of {store} after removing all")
                case.count("op:clear")
                case.count(f"by:{by}")
                return
            m = r.choice(live)
            first = first_with(m.tid)
            store = m.store if first is not m or r.random() < 0.5 else None
            inline = by == "function"
            if op == "delete":
                case.desc["ops"].append(f"{head} {m.key}")
                m.exists = False
                del models[(m.store, m.tid)]
                call("delete", m.tid, store, m)
                if quiet():
                    case.eq(sched.get_task(m.tid, m.store), None, f"{m.key} after delete")
                    case.check(m.tid not in [t.id for t in sched.get_tasks(m.store)], f"{m.key} is still listed after delete")
            elif op == "pause":
                case.desc["ops"].append(f"{head} {m.key}")
                m.led = None
                got = call("pause", m.tid, store, m)
                if quiet():
                    compare(m, sched.get_task(m.tid, store), "pause")
                    if got is not None:
                        compare(m, got, "pause (returned)")
            elif op == "resume":
                nxt = m.f["trigger"].get_next_trigger_time(tz, None, now)
                if inline and nxt is not None and us(nxt) <= us(now):
                    return
                if by == "listener" and nxt is not None and us(nxt) <= us(now):
                    return
                case.desc["ops"].append(f"{head} {m.key} -> {nxt}")
                if nxt is None:
                    m.exists = False
                    del models[(m.store, m.tid)]
                    case.count("resumed_finished")
                else:
                    m.schedule(nxt, us(now))
                got = call("resume", m.tid, store, m)
                if quiet():
                    if nxt is None:
                        case.eq(sched.get_task(m.tid, m.store), None, f"{m.key} whose schedule is finished, after resume")
                    else:
                        compare(m, sched.get_task(m.tid, store), "resume")
            elif op == "reschedule":
                for _ in range(20):
                    t, d = trig()
                    nxt = t.get_next_trigger_time(tz, None, now)
                    if nxt is not None and not (by != "outside" and us(nxt) <= us(now)):
                        break
                else:
                    return
                case.desc["ops"].append(f"{head} {m.key} {d} -> {nxt}")
                m.f["trigger"] = t
                m.schedule(nxt, us(now))
                call("reschedule", m.tid, store, m, t)
                if quiet():
                    compare(m, sched.get_task(m.tid, store), "reschedule")
            else:
                up = {}
                ch = r.sample(["args", "kwargs", "fn", "name", "coalesce", "max_instances", "mistrigger_grace_time", "executor", "next_run_time", "trigger"], r.choice([1, 1, 2, 4]))
                new = dict(m.f)
                if "fn" in ch or "executor" in ch:
                    if "executor" in ch:
                        new["executor"] = up["executor"] = r.choice(["default", "second", "debug"])
                    new["fn"] = new_fn(new["executor"])
                    up["fn"] = fn_of(new["fn"]) if r.random() < 0.6 else {"cmeth": "rv.fns:Holder.cmeth"}.get(new["fn"], f"rv.fns:{new['fn']}")
                    case.count("updated_function")
                if "args" in ch or "kwargs" in ch:
                    a, k = new_args(m.key)
                    if "args" in ch:
                        up["args"] = list(a) if r.random() < 0.5 else a
                        new["args"] = a
                    if "kwargs" in ch:
                        up["kwargs"] = k
                        new["kwargs"] = k
                if "name" in ch:
                    new["name"] = up["name"] = r.choice(["n3", "N", "é"])
                if "coalesce" in ch:
                    new["coalesce"] = up["coalesce"] = r.random() < 0.5
                if "max_instances" in ch:
                    new["max_instances"] = up["max_instances"] = r.choice([4, 6, 7])
                if "mistrigger_grace_time" in ch and not any(m.f["grace"] is None or p[1] - p[0] <= m.f["grace"] * 1e6 for p in m.pending):
                    m.pending.clear()
                    new["grace"] = up["mistrigger_grace_time"] = r.choice([None, 1, 2.5, 60, 0.25])
                nxt = m.led.next if m.led is not None else None
                if "trigger" in ch and (by == "outside" or m.handed_at != sim.us):
                    new["trigger"], d = trig()
                    up["trigger"] = new["trigger"]
                if "next_run_time" in ch:
                    nxt = now + timedelta(seconds=r.choice([0.5, 1, 30, 300] + ([0, -1, -20.25, -3] if by == "outside" else [])))
                    nxt = gen.express(r, nxt, tz)
                    if new["trigger"].get_next_trigger_time(tz, nxt, now) is not None and us(now) - us(nxt) > 0:
                        x, n = nxt, 0
                        while x is not None and x <= now and n < 100:
                            x, n = new["trigger"].get_next_trigger_time(tz, x, x), n + 1
                        if n >= 100:
                            return
                    up["next_run_time"] = nxt
                case.desc["ops"].append(f"{head} {m.key} {up}")
                had = m.led
                m.f = new
                m.version()
                m.schedule(nxt, us(now) if "next_run_time" in ch or had is None else had.added)
                if nxt is None:
                    m.led = None
                call("update", m.tid, store, m, up)
                if quiet():
                    compare(m, sched.get_task(m.tid, store), f"update of {sorted(up)}")
            case.count(f"op:{op}")
            case.count(f"by:{by}")
            state["acted"] = state.get("acted", 0) + 1

        def snapshot():
            return sorted((a, i.id, i.name, str(i.args), str(i.kwargs), str(i.next_run_time), i.trigger_description, i.executor, i.coalesce, i.max_instances,
                           i.mistrigger_grace_time) for a in kinds for i in sched.get_task_infos(a))

        def call(what, tid, store, m, x=None):
            how = r.choice(["id", "id", "task", "method"]) if m is not None else "id"
            t = sched.get_task(tid, m.store) if how != "id" else None
            if how != "id":
                case.check(t is not None, f"{m.key} is not found by its id")
                if t.scheduler is None or t.store_alias != m.store:
                    case.fail(f"{m.key}: the task found has scheduler {t.scheduler} and store {t.store_alias}")
            if how == "task" and what == "update":
                how = "id"  # a task object as an id also carries its fields
            if what == "pause":
                if how == "method":
                    t.pause()
                    return None
                return sched.pause_task(t if how == "task" else tid, store)
            if what == "resume":
                return t.resume() if how == "method" else sched.resume_task(t if how == "task" else tid, store)
            if what == "delete":
                return t.delete() if how == "method" else sched.delete_task(t if how == "task" else tid, store)
            if what == "update":
                up = x if x is not None else {"name": "zz"}
                return t.update(**up) if how == "method" else sched.update_task(tid, store, **up)
            tr = x if x is not None else "interval"
            if x is None:
                return sched.reschedule_task(t if how == "task" else tid, store, "interval", seconds=5)
            return t.reschedule(tr) if how == "method" else sched.reschedule_task(t if how == "task" else tid, store, tr)

        # ---- run
        for i in range(r.randint(1, 3)):
            state["opened"] = False
            add(r.choice(list(kinds)), f"t{i}")
        now = sim.now()
        await w.start(sched)
        state["opened"] = True
        n = r.randint(15, 40)
        for _ in range(n):
            k = r.random()
            if k < 0.25:
                nx = [us(m.led.next) for m in models.values() if m.led is not None and m.led.next is not None and us(m.led.next) - sim.us < 600e6]
                at = r.choice(nx) if nx else sim.us
                at += r.choice([0, 0, -1000, 1, 1000])
                await sim.sleep_until(max(at, sim.us))
            elif k < 0.9:
                await asyncio.sleep(r.choice([0, 0.01, 1, 7, 31, 90]))
            else:
                # the scheduler pauses for a while
                sched.pause()
                a = sim.us
                for _ in range(r.randint(0, 3)):
                    await asyncio.sleep(r.choice([0.5, 4, 33]))
                    act("outside")
                blocked.add(a, sim.us)
                sched.resume()
                for m in models.values():
                    if m.led is not None:
                        m.led.blocked = blocked
            raise_pending()
            if r.random() < 0.5:
                await sim.settle(12)
                raise_pending()
            act("outside")
            raise_pending()
            if r.random() < 0.4:
                await sim.settle(12)
                raise_pending()
                for m in list(models.values()):
                    if m.led is None and m.exists:
                        compare(m, sched.get_task(m.tid, m.store), "being paused for a while")
                        case.count("silent_paused")
                    elif m.led is not None:
                        m.led.finish(sim.us - 1)
                        if not gone(m) and us(m.led.next) > sim.us:
                            compare(m, sched.get_task(m.tid, m.store), "running for a while")
        await asyncio.sleep(r.choice([1, 30, 100]))
        await sim.settle(12)
        raise_pending()
        state["opened"] = False
        for m in all_models:
            g = m.f["grace"]
            left = [p for p in m.pending if g is None or p[1] - p[0] <= g * 1e6]
            case.check(not left, f"{m.key}: {len(left)} fire times handed over but the function was not called")
        for m in list(models.values()):
            if gone(m):
                t = sched.get_task(m.tid, m.store)
                case.check(t is None or not m.finished_ok, f"{m.key}: its schedule is finished but it is still there")
                del models[(m.store, m.tid)]
            elif m.led is not None:
                m.led.finish(sim.us - 1)
        sched.pause()
        await sim.settle(12)
        await w.stop(sched)
        raise_pending()
        case.check(not sim.loop_errors, f"error in the event loop: {sim.loop_errors[:2]}")
        # a second scheduler on the same stores sees the same tasks
        keep = {a: k for a, k in kinds.items() if k != "memory"}
        if keep:
            s2 = w.scheduler(native=False, stores={a: w.backends[a].store() for a in keep}, executors={a: DebugExecutor() for a in execs})
            await w.start(s2, paused=True)
            for a in keep:
                want = {m.tid: m for m in models.values() if m.store == a}
                got = {t.id: t for t in s2.get_tasks(a)}
                case.eq(sorted(got), sorted(want), f"tasks in store {a} after a restart")
                for tid, m in want.items():
                    compare(m, got[tid], "a restart")
                    case.count("reopened_tasks")
            await w.stop(s2)
        if state.get("acted", 0) < 8:
            case.trivial = True

    run_world(case, main)


def run(ctx):
    ctx.cases("scenario", scenario, quick=1600, thorough=24000)
