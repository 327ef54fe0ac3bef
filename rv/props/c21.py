"""C21: a task update applies completely or not at all."""
import asyncio
import functools
import inspect
import itertools
from datetime import timedelta

from rv import fns, gen
from rv.world import run_world, us

RULE = ("signatures: random function signatures (all parameter kinds, defaults, methods, partials, wrappers, classes, callable objects) and argument sets, the oracle being an actual call; "
        "updates: random combinations of valid and invalid values given to update_task, reschedule_task, task.update and Task.update_task on pending, scheduled and paused tasks of every store, "
        "some with values or stores on which saving fails; after a refusal a deep picture of all tasks, records and events is unchanged, after a success exactly the given fields differ; "
        "distinct by signature and arguments or by update")
ASSUMPTIONS = ["booleans as numbers, not-a-number and the store alias are outside the documented domains judged here", "callables whose signature Python does not know are refused by design"]
REQUIRE = {"calls:bind": 6000, "calls:refuse": 6000, "kind:method": 300, "kind:partial": 300, "kind:class": 300, "kind:wrapped": 300, "kind:object": 300, "accepted": 4000, "refused": 5000,
           "refused_mixed": 2500, "bad:id": 300, "bad:unknown": 300, "bad:name": 300, "bad:mistrigger_grace_time": 300, "bad:max_instances": 300, "bad:trigger": 300, "bad:executor": 300,
           "bad:args": 300, "bad:kwargs": 200, "bad:next_run_time": 300, "bad:fn": 200, "bad:unstorable": 200, "bad:store": 200, "via:scheduler": 3000, "via:object": 600, "via:task": 600, "via:direct": 150,
           "state:pending": 1500, "state:paused": 1500, "state:scheduled": 3000, "ran": 700, "iterator_args": 100}


# ---- signatures
def make_fn(r):
    """(function, source): a random signature whose body does nothing."""
    names = iter("abcdefgh")
    parts, default = [], False

    def p(kind):
        nonlocal default
        n = next(names)
        d = r.random() < 0.35 or (default and kind != "k")
        if d and kind != "k":
            default = True
        parts.append(n + ("=0" if d else ""))

    for _ in range(r.choice([0, 0, 1, 2])):
        p("p")
    if parts:
        parts.append("/")
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        p("n")
    star = r.random() < 0.25
    ks = r.choice([0, 0, 0, 1, 2])
    if star:
        parts.append("*rest")
    elif ks:
        parts.append("*")
    for _ in range(ks):
        p("k")
    if r.random() < 0.25:
        parts.append("**more")
    src = ", ".join(parts)
    return src


def define(r, src):
    """A callable of one of several kinds with (about) this signature."""
    kind = r.choice(["function"] * 4 + ["lambda", "coroutine", "method", "classmethod", "staticmethod", "class", "object", "partial", "wrapped"])
    ns = {"functools": functools}
    first = "self" + (", " + src if src else "")
    code = {
        "function": f"def f({src}): pass",
        "lambda": f"f = lambda {src}: None",
        "coroutine": f"async def f({src}): pass",
        "method": f"class C:\n def m({first}): pass\nf = C().m",
        "classmethod": f"class C:\n @classmethod\n def m({first}): pass\nf = C.m",
        "staticmethod": f"class C:\n @staticmethod\n def m({src}): pass\nf = C.m",
        "class": f"class f:\n def __init__({first}): pass",
        "object": f"class C:\n def __call__({first}): pass\nf = C()",
        "partial": f"def g({src}): pass\nf = functools.partial(g)",
        "wrapped": f"def g({src}): pass\n@functools.wraps(g)\ndef f(*args, **kwargs): return g(*args, **kwargs)\nf.strict = g",
    }[kind]
    exec(code, ns)
    f = ns["f"]
    if kind == "partial":
        g = ns["g"]
        a = [1] * (r.choice([0, 1]) if "**" not in src else 0)  # Python itself misjudges these
        kw = {k: 1 for k in r.sample("abcd", r.choice([0, 0, 1]))}
        try:
            f = functools.partial(g, *a, **kw)
            inspect.signature(f)
        except (TypeError, ValueError):
            f = functools.partial(g)
    return kind, f


def binds(f, args, kwargs):
    try:
        x = f(*args, **kwargs)
    except TypeError:
        return False
    if asyncio.iscoroutine(x):
        x.close()
    return True


def signatures(case):
    r = case.rng
    from asyncz.exceptions import AsynczException
    from asyncz.schedulers import NativeAsyncIOScheduler
    from asyncz.tasks import Task

    rows = []
    s = NativeAsyncIOScheduler()
    s.add_task(fns.work, "interval", args=["k"], seconds=60, id="t")
    for i in range(60):
        src = make_fn(r)
        kind, f = define(r, src)
        args = [r.randrange(9) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4]))]
        kwargs = {k: 1 for k in r.sample("abcdefgxy", r.choice([0, 0, 0, 1, 1, 2, 3]))}
        # a wrapper takes what its own signature says, not what the function inside does
        want = binds(f, args, kwargs) if kind != "wrapped" else True
        how = r.choice(["constructor", "add", "update", "update_args"])
        given = r.choice([tuple, list, iter if how == "update" else tuple])(args)
        try:
            if how == "constructor":
                t = Task(f, args=given, kwargs=kwargs)
            elif how == "add":
                t = s.add_task(f, "interval", args=given, kwargs=kwargs, seconds=5, id=f"a{i}")
            elif how == "update":
                t = s.update_task("t", fn=f, args=given, kwargs=kwargs)
            else:
                t = Task(fns.work, args=["k"])
                t.fn = f
                t.update_task(args=given, kwargs=kwargs)
            got = True
        except (TypeError, ValueError, AsynczException) as exc:
            got, why = False, exc
        text = f"{how} of {kind} ({src}) with {args} {kwargs}"
        case.check(got == want, f"{text} was {'accepted' if got else f'refused ({why})'}, a call with them {'works' if want else 'fails'}")
        if got:
            case.eq((list(t.args), dict(t.kwargs)), (args, kwargs), f"arguments after {text}")
            if iter is type(given) or not isinstance(given, (list, tuple)):
                case.count("iterator_args")
        case.count("calls:bind" if want else "calls:refuse")
        case.count("kind:" + kind)
        rows.append([kind, src, len(args), sorted(kwargs)])
    case.describe(rows=rows)


# ---- updates
def updates(case):
    r = case.rng

    async def main(w):
        from asyncz.events.constants import TASK_MODIFIED
        from asyncz.executors.asyncio import AsyncIOExecutor
        from asyncz.executors.debug import DebugExecutor
        from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger

        sim, tz = w.sim, w.tz
        kinds = {"default": r.choice(["memory", "memory", "file", "sqlite", "redis", "mongo"])}
        if r.random() < 0.5:
            kinds["b"] = r.choice(["memory", "file", "sqlite", "mongo"])
        s = w.scheduler(stores=w.stores(kinds), executors={"default": AsyncIOExecutor(), "debug": DebugExecutor()})
        case.describe(zone=str(tz), base=str(sim.now()), kinds=kinds, ops=[])
        ops = case.desc["ops"]
        events, book = [], {}
        st = {"on": False, "fault": False}
        ids = itertools.count()
        sim.plan = lambda key, n: {}
        s.add_listener(events.append)

        def far():
            return (sim.now() + timedelta(seconds=r.randint(10**6, 10**7))).astimezone(tz)

        def add():
            tid, store = f"t{next(ids)}", r.choice(list(kinds))
            k = r.choice(["pending", "paused", "scheduled"])
            trig = r.choice([IntervalTrigger(weeks=500, timezone=tz), CronTrigger(year="2160", timezone=tz), DateTrigger(run_at=far())])
            kw = {}
            if k == "paused":
                kw["next_run_time"] = None
            elif k == "scheduled":
                kw["next_run_time"] = far()
            s.add_task(fns.work, trig, args=[tid], kwargs={"x": 1}, id=tid, store=store, name="first", executor="debug", **kw)
            book[tid] = store

        def picture():
            out = [len(events), s.state, len(s.pending_tasks)]
            for i in s.get_task_infos(sort_by="id"):
                t = s.get_task(i.id, i.store_alias)
                d = dict(vars(t))
                d.pop("scheduler", None)
                trig = d.pop("trigger", None)
                out.append((i.id, i.store_alias, repr(i), type(trig).__name__, repr(sorted(vars(trig).items(), key=lambda x: x[0])) if kinds[i.store_alias] == "memory" else str(trig),
                            sorted((k, repr(v)) for k, v in d.items())))
            out.append(sorted((a, b.records()) for a, b in w.backends.items()) if st["on"] else None)
            return out

        def good(field, store):
            if field == "name":
                return r.choice(["n1", "Grüße", "x" * 300, None])
            if field == "mistrigger_grace_time":
                return r.choice([None, 1, 0.25, 10**6])
            if field == "coalesce":
                return r.choice([True, False, 1, 0, "", "yes", None])
            if field == "max_instances":
                return r.choice([1, 2, 10**6])
            if field == "trigger":
                return IntervalTrigger(weeks=r.randint(200, 400), timezone=tz)
            if field == "executor":
                return r.choice(["default", "debug", "not there"])
            if field == "args":
                return r.choice([["k"], ("k", 1), ["k", [1, 2]], iter(["k", 2])])
            if field == "kwargs":
                return r.choice([{}, {"y": 5}, {"a": None, "b": [1]}])
            if field == "next_run_time":
                return r.choice([None, far(), gen.express(r, far(), tz)])
            if field == "fn":
                return r.choice([fns.awork, fns.work2, "rv.fns:work", fns.Holder.cmeth])
            raise KeyError(field)

        def bad(kind, u, tid):
            store = book[tid]
            if kind == "id":
                u["id"] = r.choice([tid, "other", None])
            elif kind == "unknown":
                u[r.choice(["foo", "pending", "submitted", "fn_reference", "next", "store"] if r.random() < 0.5 else ["bar"])] = r.choice([1, None, "x"])
                if "store" in u:
                    u["stores"] = u.pop("store")
            elif kind == "name":
                u["name"] = r.choice(["", 5, ["n"], b"n"])
            elif kind == "mistrigger_grace_time":
                u["mistrigger_grace_time"] = r.choice([0, -1, -0.5, "5", [1]])
            elif kind == "max_instances":
                u["max_instances"] = r.choice([0, -1, 1.5, "2", None])
            elif kind == "trigger":
                u["trigger"] = r.choice(["interval", None, 5, IntervalTrigger])
            elif kind == "executor":
                u["executor"] = r.choice([None, 5, b"default"])
            elif kind == "args":
                u["args"] = r.choice(["k", None, 5, []] if "fn" not in u and "kwargs" not in u else ["k", None, 5])
            elif kind == "kwargs":
                u["kwargs"] = r.choice([None, 5, "x=1", [1], {"key": 1}] if "fn" not in u and "args" not in u else [None, 5, "x=1", [1]])
            elif kind == "next_run_time":
                u["next_run_time"] = r.choice(["soon", 5j, object(), [1]])
            elif kind == "fn":
                u["fn"] = r.choice([5, "rv.fns:nothing", "rv.nowhere:work", "nonsense", ["rv.fns:work"]])
            elif kind == "unstorable":  # fits, but cannot be saved
                if kinds[store] == "memory" or not st["on"]:
                    return False
                k = r.choice(["args", "kwargs", "fn"])
                u.pop("fn", None)
                if k == "args":
                    u["args"] = ["k", lambda: 0]
                elif k == "kwargs":
                    u["kwargs"] = {"x": (i for i in ())}
                else:
                    u["fn"] = lambda *a, **k: None  # noqa: E731
            elif kind == "store":  # the store fails to save
                if kinds[store] == "memory" or not st["on"]:
                    return False
                st["fault"] = True
            return True

        FIELDS = ["name", "mistrigger_grace_time", "coalesce", "max_instances", "trigger", "executor", "args", "kwargs", "next_run_time", "fn"]
        BAD = ["id", "unknown", "name", "mistrigger_grace_time", "max_instances", "trigger", "executor", "args", "kwargs", "next_run_time", "fn", "unstorable", "store"]

        def one():
            tid = r.choice(list(book))
            store = book[tid]
            info = s.get_task_info(tid, store)
            u = {}
            for f in r.sample(FIELDS, r.choice([0, 1, 1, 2, 3, 5, len(FIELDS)])):
                u[f] = good(f, store)
            wrong = []
            st["fault"] = False
            if r.random() < 0.55:
                for k in r.sample(BAD, r.choice([1, 1, 1, 2])):
                    if bad(k, u, tid):
                        wrong.append(k)
            items = list(u.items())
            r.shuffle(items)
            u = dict(items)
            via = r.choice(["scheduler"] * 5 + ["object", "task"] + (["direct"] if kinds[store] == "memory" else []))
            if via == "direct" and (set(u) & {"next_run_time"} or {"store", "unstorable"} & set(wrong)):
                via = "scheduler"
            text = f"{via} {tid} ({kinds[store]}, {info.schedule_state.value}) {u}" + (f" bad: {wrong}" if wrong else "")
            ops.append(text)
            task = s.get_task(tid, store)
            before = picture()
            n = len(events)
            backend = s.stores.get(store)
            undo = None
            if st["fault"]:
                undo = broken(backend)
            try:
                if via == "scheduler":
                    ret = s.update_task(tid, r.choice([store, None]), **u)
                elif via == "object":
                    ret = s.update_task(task, r.choice([store, None]), **u)
                elif via == "task":
                    task.update(**u)
                    ret = None
                else:
                    task.update_task(**u)
                    ret = None
                error = None
            except Exception as exc:
                error = exc
            finally:
                if undo:
                    undo()
            case.check(not (wrong and error is None), f"accepted: {text}")
            case.check(not (error is not None and not wrong), f"refused ({type(error).__name__}: {error}): {text}")
            case.count("state:" + info.schedule_state.value)
            case.count("via:" + via)
            if wrong:
                after = picture()
                case.check(before == after, f"the refused update {text} ({type(error).__name__}: {error}) changed {[(a, b) for a, b in zip(before, after) if a != b][:2]}")
                case.count("refused")
                for k in wrong:
                    case.count("bad:" + k)
                if len(u) > len(wrong):
                    case.count("refused_mixed")
                return
            case.count("accepted")
            case.eq([(e.code, e.task_id) for e in events[n:]], [(TASK_MODIFIED, tid)] if via != "direct" else [], f"events of {text}")
            now = s.get_task(tid, store)
            want = dict(name=info.name, mistrigger_grace_time=info.mistrigger_grace_time, coalesce=info.coalesce, max_instances=info.max_instances, executor=info.executor,
                        args=list(info.args), kwargs=dict(info.kwargs), next_run_time=us(info.next_run_time) if info.next_run_time else None, trigger=info.trigger_description,
                        ref=info.callable_reference)
            for k, v in u.items():
                if k == "name":
                    want[k] = v if v is not None else want[k]
                elif k == "coalesce":
                    want[k] = bool(v)
                elif k == "args":
                    want[k] = {"k": None}.get(v, v) if isinstance(v, str) else (list(v) if isinstance(v, (list, tuple)) else ["k", 2])
                elif k == "next_run_time":
                    want[k] = us(v) if v is not None else None
                elif k == "trigger":
                    want[k] = str(v)
                elif k == "fn":
                    want["ref"] = {"awork": "rv.fns:awork", "work2": "rv.fns:work2", "rv.fns:work": "rv.fns:work"}.get(getattr(v, "__name__", v), "rv.fns:Holder.cmeth")
                else:
                    want[k] = v
            for o, what in ((now, "stored"), (ret, "returned")):
                if o is None:
                    continue
                i = o.snapshot()
                got = dict(name=i.name, mistrigger_grace_time=i.mistrigger_grace_time, coalesce=i.coalesce, max_instances=i.max_instances, executor=i.executor, args=list(i.args),
                           kwargs=dict(i.kwargs), next_run_time=us(i.next_run_time) if i.next_run_time else None, trigger=i.trigger_description, ref=i.callable_reference)
                case.eq(got, want, f"the {what} task after {text}")
            # nothing else changed
            after = picture()
            case.eq([x[:2] for x in before[3:-1]], [x[:2] for x in after[3:-1]], f"tasks after {text}")
            for x, y in zip(before[3:-1], after[3:-1]):
                if x[0] != tid:
                    case.check(x == y, f"{text} changed another task: {x} -> {y}")
            if st["on"]:
                for (a, x), (_, y) in zip(before[-1], after[-1]):
                    case.check({k: v for k, v in x.items() if k != tid} == {k: v for k, v in y.items() if k != tid}, f"{text} changed another record in {a}")
            # it runs as it now reads
            if st["on"] and r.random() < 0.3 and want["executor"] in ("debug", "default") and want["ref"] != "rv.fns:Holder.cmeth" and not (want["ref"] == "rv.fns:awork" and want["executor"] == "debug"):
                calls = len(sim.calls)
                s.run_task(tid, store, remove_finished=False)
                return calls, tid, want

        def broken(store):
            def fail(*a, **k):
                raise ConnectionError("the store is gone")
            old = store.__dict__.get("update_task")
            store.update_task = fail

            def undo():
                del store.update_task
            return undo

        for _ in range(r.randint(2, 4)):
            add()
        for step in range(r.randint(14, 26)):
            if not st["on"] and r.random() < 0.2:
                await w.start(s)
                st["on"] = True
            elif r.random() < 0.05:
                add()
            x = one()
            if x:
                calls, tid, want = x
                await sim.settle()
                case.eq(len(sim.calls), calls + 1, f"calls of {tid}")
                rec = sim.calls[-1]
                first = ["work2"] if want["ref"] == "rv.fns:work2" else []
                case.eq((rec["key"], list(rec["args"]), dict(rec["kwargs"])), (want["args"][0], first + want["args"][1:], want["kwargs"]), f"call of {tid}")
                case.count("ran")
        await sim.settle()
        v = getattr(sim, "violation", None)
        if v:
            raise v
        if st["on"]:
            s.pause()
            await sim.settle()
            await w.stop(s)

    run_world(case, main)


def run(ctx):
    ctx.cases("signatures", signatures, quick=500, thorough=8000)
    ctx.cases("updates", updates, quick=700, thorough=9000)
