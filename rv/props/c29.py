"""C29: adding a task applies defaults, conflicts and replacement exactly as documented."""
import asyncio
import itertools
import warnings
from datetime import timedelta

from rv import clock, fns, gen
from rv.world import run_world, us

RULE = ("a case builds a real scheduler (virtual time) with random task defaults, given as a mapping, with text values or by prefixed options, 1-3 stores of any kind and a stopped, running or paused "
        "state, and adds tasks with random subsets of all options in every form (callable, reference, old keyword, task object, decorator), onto free and onto taken ids; the resulting "
        "task, the returned object, the stored copy, the events and all other tasks are compared with a model; distinct by defaults and options")
ASSUMPTIONS = ["first fire times a trigger yields are judged by C11-C13", "a task object or a direct Task decorator brings its own values, not the scheduler's defaults", "decorated functions always start scheduled"]
REQUIRE = {"added": 9000, "form:callable": 3000, "form:reference": 800, "form:oldname": 400, "form:object": 1200, "form:decorator": 800, "form:bare_object": 300, "default_used": 4000, "given_used": 8000,
           "grace_none_default": 500, "explicit_next": 1200, "paused": 1200, "trigger_next": 4000, "never": 50, "conflict": 500, "replaced": 500, "replaced_pending": 150, "same_id_other_store": 100,
           "pending_committed": 2500, "on:running": 3000, "on:paused": 800, "on:stopped": 2500, "bad_store": 150, "no_trigger": 300, "generated_id": 800,
           "kind:memory": 2000, "kind:file": 700, "kind:sqlite": 700, "kind:redis": 300, "kind:mongo": 700, "twice": 150}
UNSET = object()


def scenario(case):
    r = case.rng

    async def main(w):
        from asyncz.events.constants import TASK_ADDED
        from asyncz.exceptions import ConflictIdError
        from asyncz.executors.asyncio import AsyncIOExecutor
        from asyncz.executors.debug import DebugExecutor
        from asyncz.tasks import Task
        from asyncz.triggers import AndTrigger, CronTrigger, DateTrigger, IntervalTrigger, OrTrigger

        sim, tz = w.sim, w.tz
        kinds = {"default": r.choice(["memory", "memory", "file", "sqlite", "redis", "mongo"])}
        for a in ("b", "c")[: r.choice([0, 1, 1, 2])]:
            kinds[a] = r.choice(["memory", "file", "sqlite", "mongo"])
        # ---- defaults
        D = dict(mistrigger_grace_time=1.0, coalesce=True, max_instances=1)
        given = {}
        if r.random() < 0.8:
            for k, vs in dict(mistrigger_grace_time=[None, None, 5, 2.5, 3600], coalesce=[True, False], max_instances=[1, 2, 7]).items():
                if r.random() < 0.6:
                    given[k] = r.choice(vs)
            D.update(given)
        shown = dict(given)
        if r.random() < 0.3:
            shown = {k: v if v is None else {True: r.choice(["true", "Yes", "on"]), False: r.choice(["false", "no", "0"])}[v] if k == "coalesce" else str(v) for k, v in given.items()}
        case.describe(zone=str(tz), base=str(sim.now()), kinds=kinds, defaults=shown, ops=[])
        ops = case.desc["ops"]
        kw = dict(stores=w.stores(kinds), executors={"default": AsyncIOExecutor(), "debug": DebugExecutor()})
        if given:
            if r.random() < 0.3 and all(v is not None for v in shown.values()):
                kw["global_config"] = {f"asyncz.task_defaults.{k}": v for k, v in shown.items()}
            else:
                kw["task_defaults"] = shown
        s = w.scheduler(**kw)
        sim.plan = lambda key, n: {}
        events, book, st = [], {}, {"on": False, "paused": False}
        ids = itertools.count()
        s.add_listener(events.append)

        def model_trigger():
            """(arguments to pass, the trigger they mean)"""
            at = sim.now() + timedelta(days=r.randint(5, 300), seconds=r.randint(0, 86400))
            k = r.choice(["interval", "cron", "date", "none", "past", "or", "and", "end"])
            if k == "interval":
                a = r.choice([dict(weeks=r.randint(1, 9)), dict(days=r.randint(4, 9), hours=5), dict(weeks=1, start_at=at), dict(days=30, jitter=None)])
                t = IntervalTrigger(timezone=tz, **a)
                return (dict(trigger="interval", **a) if r.random() < 0.7 else dict(trigger=t)), t
            if k == "end":
                a = dict(weeks=3, end_at=sim.now() + timedelta(days=r.choice([1, 60])))
                t = IntervalTrigger(timezone=tz, **a)
                return dict(trigger="interval", **a), t
            if k == "cron":
                a = r.choice([dict(month=str((sim.now().month + 5) % 12 + 1), day="3"), dict(year="2100"), dict(year="1999")])
                t = CronTrigger(timezone=tz, **a)
                return (dict(trigger="cron", **a) if r.random() < 0.7 else dict(trigger=t)), t
            if k == "date":
                x = gen.express(r, at, tz) if r.random() < 0.5 else at.isoformat()
                t = DateTrigger(run_at=at)
                return (dict(trigger="date", run_at=x) if r.random() < 0.7 else dict(trigger=t)), t
            if k == "past":
                t = DateTrigger(run_at=sim.now() - timedelta(seconds=r.choice([0, 0, 100])))
                return dict(trigger="date", run_at=t.run_at), t
            if k == "none":
                case.count("no_trigger")
                return r.choice([{}, dict(trigger=None), dict(trigger="date")]), DateTrigger(timezone=tz)
            inner = [IntervalTrigger(weeks=r.randint(1, 3), timezone=tz), CronTrigger(month="1-12", day="5", timezone=tz)]
            t = OrTrigger(triggers=inner) if k == "or" else AndTrigger(triggers=[CronTrigger(day="5,9", timezone=tz), CronTrigger(day="*", hour="0,7", timezone=tz)])
            return dict(trigger=t), t

        def view(i):
            return dict(id=i.id, name=i.name, ref=i.callable_reference, args=list(i.args), kwargs=dict(i.kwargs), grace=i.mistrigger_grace_time, coalesce=i.coalesce, max=i.max_instances,
                        executor=i.executor, store=i.store_alias, trigger=i.trigger_name, next=us(i.next_run_time) if i.next_run_time else None, state=i.schedule_state.value)

        def expected(m):
            state = "pending" if m["pending"] else "paused" if m["next"] is None else "scheduled"
            return dict(id=m["id"], name=m["name"], ref=m["ref"], args=m["args"], kwargs=m["kwargs"], grace=m["grace"], coalesce=m["coalesce"], max=m["max"], executor=m["executor"],
                        store=m["store"], trigger=type(m["trigger"]).__name__, next=m["next"], state=state)

        def compare():
            """all tasks the scheduler holds, against the book"""
            infos = s.get_task_infos()
            got = {}
            for i in infos:
                case.check((i.store_alias, i.id) not in got or i.pending, f"{i.id} exists twice in {i.store_alias}")
                got.setdefault((i.store_alias, i.id), []).append(i)
            case.eq(sorted((k, len(v)) for k, v in got.items()), sorted((k, len(v)) for k, v in book.items()), "the tasks there are")
            for k, v in book.items():
                for i, m in zip(sorted(got[k], key=lambda i: str(sorted(view(i).items(), key=str))), sorted(v, key=lambda m: str(sorted(expected(m).items(), key=str)))):
                    case.eq(view(i), expected(m), f"task {k} after {m['text']}")
                    if i.trigger_name != "DateTrigger":
                        case.eq(i.trigger_description, str(m["trigger"]), f"trigger of {k} after {m['text']}")
                    t = s.get_task(m["id"], m["store"])
                    if len(v) == 1 and r.random() < 0.3:
                        n, x, y = sim.now(), None, None
                        for _ in range(3):
                            x = t.trigger.get_next_trigger_time(tz, x, n)
                            y = m["trigger"].get_next_trigger_time(tz, y, n)
                            case.eq(us(x) if x else None, us(y) if y else None, f"fire times of {k} after {m['text']}")
                            if x is None:
                                break

        def first(m):
            """the first fire time of a task committed now"""
            if m["explicit"] is not UNSET:
                return m["explicit"]
            n = m["trigger"].get_next_trigger_time(tz, None, sim.now())
            case.count("trigger_next" if n else "never")
            return us(n) if n else None

        def add(tid=None, store=None):
            form = r.choice(["callable"] * 5 + ["reference"] * 2 + ["oldname", "object", "object", "bare_object", "decorator", "decorator"])
            targs, trig = model_trigger()
            opts, m = dict(targs), dict(trigger=trig, pending=not st["on"], explicit=UNSET, n=len(events))
            fn, ref, name = r.choice([(fns.work, "rv.fns:work", "work"), (fns.awork, "rv.fns:awork", "awork"), (fns.Holder.smeth, "rv.fns:Holder.smeth", "Holder.smeth")])
            m.update(ref=ref, name=name, store=store or r.choice([*kinds, *kinds, None]), executor=None, args=["k"], kwargs={})
            own = form in ("object", "bare_object")
            m.update(grace=D["mistrigger_grace_time"], coalesce=D["coalesce"], max=D["max_instances"]) if not own else m.update(grace=1, coalesce=True, max=1)
            if trig.allow_mistrigger_by_default and not own:
                m["grace"] = None
            m["executor"] = r.choice([None, None, "default", "debug"])
            for k in ("store", "executor"):
                if m[k] is not None:
                    opts[k] = m[k]
                else:
                    m[k] = "default"
            used = []

            def opt(k, field, vs, p=0.4):
                if r.random() < p:
                    m[field] = opts[k] = r.choice(vs)
                    used.append(k)
            opt("name", "name", ["alpha", "Ü b"])
            opt("mistrigger_grace_time", "grace", [None, 3, 0.5, 10**6])
            opt("coalesce", "coalesce", [True, False])
            opt("max_instances", "max", [1, 3, 50])
            m["args"] = r.choice([["k"], ["k", 1, "x"]])
            opts["args"] = r.choice([list, tuple])(m["args"])
            opt("kwargs", "kwargs", [{}, {"z": [1]}, {"a": None}])
            opts["kwargs"] = dict(m["kwargs"]) if "kwargs" in opts else None
            if opts["kwargs"] is None:
                del opts["kwargs"]
            if tid is None and r.random() < 0.85:
                tid = f"t{next(ids)}"
            m["id"] = tid
            if tid is not None:
                opts["id"] = tid
            if form != "decorator" and r.random() < 0.35:
                if r.random() < 0.5:
                    m["explicit"] = opts["next_run_time"] = None
                    case.count("paused")
                else:
                    x = (sim.now() + timedelta(days=r.randint(2, 400))).astimezone(tz)
                    opts["next_run_time"] = gen.express(r, x, tz)
                    m["explicit"] = us(x)
                    case.count("explicit_next")
            replace = r.random() < 0.4
            if replace:
                opts["replace_existing"] = True
            for k in ("mistrigger_grace_time", "coalesce", "max_instances"):
                case.count("given_used" if k in used else "default_used")
            if not own and "mistrigger_grace_time" not in used and D["mistrigger_grace_time"] is None:
                case.count("grace_none_default")
            m["text"] = f"{form} {ref} {opts} ({'stopped' if not st['on'] else 'paused' if st['paused'] else 'running'}, default {D})"
            ops.append(m["text"])
            case.count("form:" + form)
            case.count("on:" + ("stopped" if not st["on"] else "paused" if st["paused"] else "running"))
            case.count("kind:" + kinds[m["store"]])
            taken = book.get((m["store"], tid)) if tid is not None else None
            if tid is not None and any(k[1] == tid and k[0] != m["store"] for k in book):
                case.count("same_id_other_store")
            replace = replace or (form == "decorator" and tid is not None)
            before = len(events)
            ret, error = None, None
            if m["pending"]:
                m["next"] = m["explicit"] if m["explicit"] is not UNSET else None
            else:
                m["next"] = first(m)
            try:
                if form == "callable":
                    ret = s.add_task(fn, **opts)
                elif form == "reference":
                    ret = s.add_task(ref, **opts)
                elif form == "oldname":
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        ret = s.add_task(fn=fn, **opts)
                elif form == "object":
                    # some values on the object, the others (overriding) with the call
                    obj, call = {}, {}
                    call.update({k: opts.pop(k) for k in ("replace_existing", "next_run_time") if k in opts})
                    t = opts.pop("trigger", None)
                    extra = {k: opts.pop(k) for k in list(opts) if k not in ("store", "executor", "name", "mistrigger_grace_time", "coalesce", "max_instances", "args", "kwargs", "id")}
                    if t is None or isinstance(t, str) or extra:
                        call.update(trigger=t or "date", **extra)
                    else:
                        (obj if r.random() < 0.5 else call)["trigger"] = t
                    args, kwargs = opts.pop("args"), opts.pop("kwargs", {})
                    if r.random() < 0.5:
                        obj.update(args=tuple(args), kwargs=kwargs)
                    else:
                        obj.update(args=("other",))
                        call.update(args=args, kwargs=kwargs)
                    for k, v in opts.items():
                        if k == "id":
                            obj[k] = v
                        elif r.random() < 0.5:
                            obj["store_alias" if k == "store" else k] = v
                        else:
                            call[k] = v
                            if k in ("name", "coalesce", "max_instances", "mistrigger_grace_time") and r.random() < 0.5:
                                obj[k] = {"name": "zz", "coalesce": True, "max_instances": 9, "mistrigger_grace_time": 77}[k]
                    ret = s.add_task(Task(fn, **obj), **call)
                elif form == "bare_object":
                    # a definition without an id becomes a task when it is added with one
                    opts.setdefault("id", f"t{next(ids)}")
                    m["id"] = opts["id"]
                    opts.setdefault("trigger", "date")
                    if opts["trigger"] is None:
                        opts["trigger"] = "date"
                    ret = s.add_task(bare(Task, fn), **opts)
                else:
                    definition = s.add_task(**opts)
                    case.eq(len(events), before, "events of a mere definition")
                    f = fn
                    back = definition(f)
                    case.check(back is f, "a decorated function is given back unchanged")
                    if tid is None:
                        ret = f.asyncz_tasks[-1]
                    else:
                        ret = s.get_task(tid, m["store"]) if not taken or st["on"] else None
            except ConflictIdError as exc:
                error = exc
            conflict = bool(taken) and not replace and st["on"]
            case.check((error is not None) == conflict, f"{m['text']} with {'a taken' if taken else 'a free'} id: {'conflict' if error else 'no conflict'}")
            if conflict:
                case.count("conflict")
                case.eq(len(events), before, f"events of the refused {m['text']}")
                compare()
                return
            case.check(ret is not None or (form == "decorator" and m["pending"] and bool(taken)), f"{m['text']} gave no task")
            m["replace"] = replace
            if m["id"] is None:
                case.count("generated_id")
                m["id"] = ret.id
                case.check(isinstance(ret.id, str) and len(ret.id) >= 8 and not any(k[1] == ret.id for k in book), f"generated id {ret.id!r}")
            key = (m["store"], m["id"])
            if m["pending"]:
                case.eq(len(events), before, f"events of {m['text']}")
                if taken:
                    case.count("twice")
                book.setdefault(key, []).append(m)
            else:
                added(before, [m])
                if taken:
                    case.count("replaced")
                book[key] = [m]
            if ret is not None and form not in ("decorator",):
                case.eq(view(ret.snapshot()), expected(m), f"the task returned by {m['text']}")
            compare()
            case.count("added")

        def bare(Task, fn):
            t = Task(None)
            t.fn, t.fn_reference, t.name = fn, ref_of(fn), fn.__qualname__
            return t

        def ref_of(fn):
            return f"rv.fns:{fn.__qualname__}"

        def added(n, ms):
            es = [e for e in events[n:] if e.code == TASK_ADDED]
            case.eq([(e.task_id, e.store) for e in es], [(m["id"], m["store"]) for m in ms], "TASK_ADDED events")

        async def start():
            st["on"] = True
            n = len(events)
            # conflicts among pending tasks are judged by C14: keep only replacing ones
            for key, v in list(book.items()):
                for m in v[1:]:
                    assert m["replace"]
            now_in = []
            for key, v in book.items():
                for m in v:
                    m["pending"] = False
                    m["next"] = first(m)
                    now_in.append(m)
                    case.count("pending_committed")
                if len(v) > 1:
                    case.count("replaced_pending")
                book[key] = v[-1:]
            await w.start(s)
            await sim.settle()
            case.eq(sorted((e.task_id, e.store) for e in events[n:] if e.code == TASK_ADDED), sorted((m["id"], m["store"]) for m in now_in), "TASK_ADDED events of the start")
            forget()
            compare()

        def forget():
            """tasks that were due were run, and are gone if that was the last time"""
            for key, v in list(book.items()):
                m = v[0]
                while m["next"] is not None and m["next"] <= sim.us and st["on"] and not st["paused"]:
                    n = m["trigger"].get_next_trigger_time(tz, clock.from_us(m["next"]).astimezone(tz), sim.now())
                    m["next"] = us(n) if n else None
                    if n is None:
                        del book[key]

        for step in range(r.randint(12, 22)):
            k = r.random()
            if not st["on"] and step > 3 and k < 0.25:
                await start()
            elif st["on"] and k < 0.08:
                st["paused"] = not st["paused"]
                s.pause() if st["paused"] else s.resume()
                await sim.settle()
                forget()
            elif st["on"] and k < 0.14:
                n = len(events)
                try:
                    s.add_task(fns.work, "interval", weeks=9, args=["k"], store="nowhere", id=f"t{next(ids)}")
                except Exception:
                    case.count("bad_store")
                else:
                    case.fail("a task was added to an unknown store")
                case.eq(len(events), n, "events of a refused task")
                compare()
            elif k < 0.4 and book:
                store, tid = r.choice(list(book))
                if st["on"]:
                    add(tid, store if r.random() < 0.8 else None)
                else:
                    before = {a: list(b) for a, b in book.items()}
                    add(tid, store)
                    m = book[(store, tid)][-1]
                    if len(book[(store, tid)]) > 1 and not m["replace"]:
                        # it would be a conflict at the start
                        s.pending_tasks.pop()
                        book[(store, tid)].pop()
            else:
                add()
            await asyncio.sleep(r.choice([0, 0, 1, 3600]))
            await sim.settle()
            forget()
            v = getattr(sim, "violation", None)
            if v:
                raise v
        if not st["on"]:
            await start()
        compare()
        s.pause()
        await sim.settle()
        await w.stop(s)

    run_world(case, main)


def run(ctx):
    ctx.cases("adding", scenario, quick=1100, thorough=14000)
