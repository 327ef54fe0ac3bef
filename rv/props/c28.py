"""C28: the command line does what the scheduler API does, and dry runs change nothing."""
import asyncio
import json
import os
import shutil
import subprocess
import sys
import threading
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

from rv import clock, cliapp, fns
from rv.world import us

RULE = ("a case fills two equal sets of stores (SQLite, files) with tasks - scheduled, due, overdue, paused -, performs a random sequence of commands on one and the corresponding scheduler calls on the other at the same moments, "
        "and after every command compares exit status, reported data, performed calls and the whole contents of both; a second part does this with real processes, a third loads job modules and files; non-trivial when at least 4 commands were compared; distinct by the commands")
REQUIRE = {"commands": 4000, "compared": 4000, "read": 1200, "json": 900, "text": 700, "dry_run": 100, "declined": 40, "confirmed": 30, "updated": 200, "added": 250, "add_refused": 120, "unknown_id": 250, "ran": 250, "ran_coroutine": 100, "ran_failing": 40, "paused": 80, "resumed": 80, "removed": 80,
           "several_stores": 800, "file_store": 1500, "bootstrap": 700, "due_while_reading": 800, "hostile_ids": 800, "processes": 60, "process_failed": 5, "loaded": 150, "load_refused": 20}
ASSUMPTIONS = ["ids do not begin with - and contain no emoji codes", "positional and keyword arguments are given as JSON", "store aliases are lower case", "the scheduler process owning the tasks is not running at the time of the command",
               "naive date-times and cron expressions are in the local zone of the command", "messages are judged up to white space and for the id only"]
IDS = ["a", "b", "c3", "a b", "a/b", "ü", "日本", "[x]", "[/x]", "[bold]", "a]b", "x[/]", 'q"q', "q'q", "a\\", "a\\[b]", "100%", "a:1", "{}", "%s", "#x", "nightly-cleanup", "x" * 90, "[red]a[/red]", "[link=x]y", "*", "$HOME", ";"]
NAMES = ["alpha", "Beta", "x y", "ü", "[n]", "[/n]", "a&b", "\\", "n" * 40, "[/]"]
VALUES = [None, 1, -3, 0, 2.5, True, "", "x", "ü[/]", [], [1, [2]], {"k": "v"}, 10**18, "[/b]"]
UTC = timezone.utc


class Sink:
    """Performed calls, in order."""

    def __init__(self):
        self.calls = []
        self.sleep = 0.0
        self.bad = set()
        self.finished = 0

    def call_sync(self, key, args, kwargs):
        self.calls.append([key, repr(args), repr(sorted(kwargs.items()))])
        if key in self.bad:
            raise fns.TaskBoom("[/boom]")
        self.finished += 1

    async def call_async(self, key, args, kwargs):
        self.calls.append([key, repr(args), repr(sorted(kwargs.items()))])
        await asyncio.sleep(self.sleep)
        if key in self.bad:
            raise fns.TaskBoom("[/boom]")
        self.finished += 1


class Side:
    """One set of stores, and the API calls on it."""

    def __init__(self, root, kinds):
        self.root, self.kinds = root, kinds
        os.makedirs(root, exist_ok=True)

    def config(self):
        return {a: {"type": "sqlalchemy", "database": f"sqlite:///{self.root}/{a}.db"} if k == "sqlite" else {"type": "file", "directory": f"{self.root}/{a}"} for a, k in self.kinds.items()}

    def specs(self):
        return [f"{a}=sqlite:///{self.root}/{a}.db" if k == "sqlite" else f"{a}=file://{self.root}/{a}" for a, k in self.kinds.items()]

    def scheduler(self):
        from asyncz.schedulers import AsyncIOScheduler

        return AsyncIOScheduler(stores=self.config())

    def call(self, fn, run=None):
        """fn(scheduler) on a paused scheduler over the stores; ("ok", result) or ("error", exception).  run: wait for the outcome of that task's run."""
        from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MISSED

        async def main():
            s = self.scheduler()
            s.start(paused=True)
            try:
                done = asyncio.Event()
                loop = asyncio.get_running_loop()
                s.add_listener(lambda e: e.task_id == run and loop.call_soon_threadsafe(done.set), TASK_ERROR | TASK_EXECUTED | TASK_MISSED)
                x = fn(s)
                if run is not None:
                    await asyncio.wait_for(done.wait(), 60)
                return "ok", x
            except Exception as e:
                return "error", e
            finally:
                s.shutdown()

        loop = asyncio.new_event_loop()
        try:
            return loop.run_until_complete(main())
        finally:
            loop.run_until_complete(loop.shutdown_default_executor())
            loop.close()

    def dump(self):
        from asyncz.tasks.types import TaskType

        def read(s):
            out = {}
            for a in self.kinds:
                for t in s.get_tasks(a):
                    chain, prev, now = [], None, clock.now()
                    for _ in range(3):
                        prev = t.trigger.get_next_trigger_time(s.timezone, prev, now)
                        if prev is None:
                            break
                        now = prev
                        chain.append(us(prev))
                    out[f"{a}|{t.id}"] = [t.name, t.fn_reference, repr(list(t.args)), repr(dict(t.kwargs)), t.executor, t.coalesce, t.max_instances, t.mistrigger_grace_time, us(t.next_run_time) if t.next_run_time else None, type(t.trigger).__name__, str(t.trigger), chain]
            return out

        kind, x = self.call(read)
        if kind != "ok":
            raise x
        return x


def public(info):
    """A task as the commands report it, from its snapshot."""
    return {"id": info.id, "name": info.name, "state": info.schedule_state.value, "trigger": info.trigger_name, "trigger_alias": info.trigger_alias, "trigger_description": info.trigger_description, "next_run_time": info.next_run_time, "store": info.store_alias, "executor": info.executor,
            "callable_name": info.callable_name, "callable_reference": info.callable_reference, "coalesce": info.coalesce, "max_instances": info.max_instances, "mistrigger_grace_time": info.mistrigger_grace_time, "pending": info.pending, "paused": info.paused}


def plain(x):
    return json.loads(json.dumps(x, default=str))


def included(case, got, want, what):
    """Everything reported agrees with what the API says, and the important parts are reported."""
    case.check(isinstance(got, dict), f"{what}: not an object: {got!r}")
    for k, v in got.items():
        case.check(k in want, f"{what}: nothing known about {k!r}")
        case.eq(v, plain(want[k]), f"{what}: {k}")
    for k in ("id", "name", "state", "trigger", "store", "executor"):
        case.check(k in got, f"{what}: {k} is missing")


FIELDS = {"name": "name", "executor": "executor", "callable_reference": "fn_reference", "args": "args", "kwargs": "kwargs", "coalesce": "coalesce", "max_instances": "max_instances", "mistrigger_grace_time": "mistrigger_grace_time"}


def fields(task):
    return plain({k: list(getattr(task, v)) if k == "args" else getattr(task, v) for k, v in FIELDS.items()})


class Twin:
    def __init__(self, case, base):
        r = self.r = case.rng
        self.case = case
        kinds = {r.choice(["durable", "main", "sql", "sqlite", "jobs"]): "sqlite"} if r.random() < 0.6 else {r.choice(["files", "durable", "default"]): "file"}
        if r.random() < 0.35:
            kinds.update({r.choice(["second", "archive"]): r.choice(["sqlite", "file"])})
        self.kinds = kinds
        self.near, self.far = Side(base + "/near", kinds), Side(base + "/far", kinds)
        self.base = base
        self.log = []
        self.sink = {"near": Sink(), "far": Sink()}
        self.fresh = 0

    def fill(self):
        r = self.r
        now = clock.now()
        plan = []
        for i in r.sample(IDS, r.randrange(2, 7)):
            key = f"k{len(plan)}"
            kw = dict(args=[key, *r.sample(VALUES, r.randrange(2))], kwargs={f"kw{n}": v for n, v in enumerate(r.sample(VALUES, r.randrange(2)))}, id=i, name=r.choice([None, *NAMES]), store=r.choice(list(self.kinds)),
                      coalesce=r.random() < 0.5, max_instances=r.randrange(1, 4), mistrigger_grace_time=r.choice([None, None, 1, 30, 86400]))
            kind = r.choice(["interval", "interval", "cron", "date"])
            when = r.choice([-86400, -200, -1, 0, 1, 300, 86400])
            t = {"interval": dict(seconds=r.choice([300, 3600, 86400]), start_at=now), "cron": dict(minute=r.choice(["*/7", "*/5", "0"]), timezone="UTC"), "date": dict(run_at=now + timedelta(seconds=when))}[kind]
            kw["next_run_time"] = None if r.random() < 0.2 else now + timedelta(seconds=when)
            if kind == "date" and kw["next_run_time"]:
                kw["next_run_time"] = t["run_at"]
            fn = r.choice([fns.work, fns.awork, fns.work2])
            plan.append((fn, kind, t, kw))
            if r.random() < 0.15:
                self.sink["near"].bad.add(key)
                self.sink["far"].bad.add(key)
        for side in (self.near, self.far):
            def fill(s):
                for fn, kind, t, kw in plan:
                    try:
                        s.add_task(fn, kind, **t, **kw)
                    except RuntimeError as e:
                        # file stores refuse some ids
                        if "Invalid character" not in str(e):
                            raise

            kind, x = side.call(fill)
            if kind != "ok":
                raise x
        self.same("after filling both")

    def same(self, what):
        n, f = self.near.dump(), self.far.dump()
        self.case.eq(f, n, f"{what}: store contents")
        self.case.count("compared")
        return n

    def api(self, fn, run=None, side=None):
        fns.SINK = self.sink["near"]
        return (side or self.near).call(fn, run)

    def command(self, argv, input=None, boot=None):
        """Run a command on the far side; (exit status, output)."""
        from sayer.testing import SayerTestClient

        from asyncz.cli.app import asyncz_cli

        fns.SINK = self.sink["far"]
        scheduler = None
        if boot:
            scheduler = self.far.scheduler()
            extra = ["--bootstrap", cliapp.new(scheduler, boot)]
        else:
            extra = [w for s in self.far.specs() for w in ("--store", s)]
        argv = [argv[0], *extra, *argv[1:]] if self.r.random() < 0.5 else [*argv, *extra]
        x = SayerTestClient(asyncz_cli).invoke(argv, input=input)
        if scheduler is not None:
            # the application ends as well
            async def end():
                try:
                    scheduler.shutdown()
                except Exception:
                    pass

            loop = getattr(scheduler, "event_loop", None) or asyncio.new_event_loop()
            loop.run_until_complete(end())
        try:
            loop = asyncio.get_event_loop_policy().get_event_loop()
            if not loop.is_closed():
                # as at the end of the process
                for t in asyncio.all_tasks(loop):
                    t.cancel()
                loop.run_until_complete(loop.shutdown_default_executor())
                loop.close()
        except RuntimeError:
            pass
        if x.exception is not None and not isinstance(x.exception, (Exception, SystemExit)):
            raise x.exception
        return x.exit_code, x.output

    # --- one step --------------------------------------------------------------------------------------------------------------------
    def ident(self, contents):
        if contents and self.r.random() > 0.1:
            i = self.r.choice(sorted(contents)).partition("|")[2]
        else:
            i = self.r.choice([v for v in [*IDS, "missing", "[/missing]"] if not any(c.endswith("|" + v) for c in contents)])
            self.case.count("unknown_id")
        if any(c in i for c in "[]\\/ %'\"$"):
            self.case.count("hostile_ids")
        return i

    def status(self, code, outcome, what, output=""):
        kind, x = outcome
        if kind == "error":
            self.case.check(code != 0, f"{what}: exit status 0 although the scheduler call fails with {x!r}", output=output[:500])
        else:
            self.case.eq(code, 0, f"{what}: exit status (the scheduler call succeeds)", output=output[-800:])

    def mentions(self, output, what, *texts):
        shown = "".join(output.split())
        for t in texts:
            self.case.check("".join(t.split()) in shown, f"{what}: {t!r} is not in the output", output=output[:600])
        self.case.count("text")

    def step(self, contents):
        case, r = self.case, self.r
        op = r.choice(["list", "list", "inspect", "preview", "timeline", "status", "doctor", "update", "update", "update", "add", "add", "run", "run", "pause", "resume", "remove", "instances"])
        boot = r.choice(["object", "function", "class"]) if r.random() < 0.2 and op not in ("status", "doctor", "instances") else None
        due = any(v[8] is not None and v[8] <= clock.get_us() for v in contents.values())
        before = dict(contents)
        what = ""
        if op in ("list", "inspect", "preview", "timeline", "status", "doctor", "instances"):
            what = self.read(op, contents, boot)
            case.count("read")
            if due:
                case.count("due_while_reading")
            after = self.same(what)
            case.eq(after, before, f"{what}: store contents before and after")
        else:
            what, changed = getattr(self, op)(contents, boot)
            after = self.same(what)
            if not changed:
                case.eq(after, before, f"{what}: store contents before and after")
        case.count("commands")
        if boot:
            case.count("bootstrap")
        if len(self.kinds) > 1:
            case.count("several_stores")
        if "file" in self.kinds.values():
            case.count("file_store")
        case.eq(self.sink["far"].calls, self.sink["near"].calls, f"{what}: performed calls")
        case.eq(self.sink["far"].finished, self.sink["near"].finished, f"{what}: finished calls")
        return after

    def show(self, argv):
        self.log.append([argv[0], *[a[:40] for a in argv[1:]]])
        return f"asyncz {' '.join(argv)} at {clock.now()}"

    def read(self, op, contents, boot):
        case, r = self.case, self.r
        js = r.random() < 0.6
        argv = [op] + (["--json"] if js else [])
        if op == "list":
            kw = {}
            if r.random() < 0.25:
                kw["schedule_state"] = r.choice(["paused", "scheduled", "pending", "bogus"])
                argv += ["--state", kw["schedule_state"]]
            if r.random() < 0.2:
                kw["executor"] = r.choice(["default", "x"])
                argv += ["--executor", kw["executor"]]
            if r.random() < 0.25:
                kw["trigger"] = r.choice(["interval", "cron", "date", "IntervalTrigger", "x"])
                argv += ["--trigger", kw["trigger"]]
            if r.random() < 0.25:
                kw["q"] = r.choice(["a", "ü", "[", "work", "zzz", "alpha"])
                argv += ["--query", kw["q"]]
            if r.random() < 0.4:
                kw["sort_by"] = r.choice(["id", "name", "next_run_time", "schedule_state", "executor", "store", "trigger", "bogus"])
                argv += ["--sort-by", kw["sort_by"]]
            if r.random() < 0.3:
                kw["descending"] = True
                argv += ["--desc"]
            what = self.show(argv)
            want = self.api(lambda s: s.get_task_infos(**kw))
            code, out = self.command(argv, boot=boot)
            self.status(code, want, what, out)
            if want[0] == "ok":
                if js:
                    got = json.loads(out.strip().splitlines()[-1])
                    case.eq([g.get("id") for g in got], [i.id for i in want[1]], f"{what}: tasks and their order")
                    for g, i in zip(got, want[1]):
                        included(case, g, public(i), f"{what}: task {i.id!r}")
                    case.count("json")
                else:
                    self.mentions(out, what, *[i.id for i in want[1]])
                    shown = "".join(out.split())
                    at = 0
                    for i in want[1]:
                        at = shown.find("".join(i.id.split()), at)
                        case.check(at >= 0, f"{what}: tasks are not listed in the order of the scheduler", output=out[:600])
                    case.check(out.count("ℹ") == len(want[1]) + bool(boot and 0), f"{what}: lines for {len(want[1])} tasks", output=out[:600])
            return what
        if op in ("inspect", "preview"):
            i = self.ident(contents)
            count = r.choice([None, 1, 3, 50, 50, 0, 51]) if r.random() < 0.5 else None
            argv += [i] + ([] if count is None else ["--count", str(count)])
            n = 5 if count is None else count
            what = self.show(argv)

            def call(s):
                t = s.get_task(i)
                p = s.preview_task_runs(i, count=n)
                if t is None or p is None:
                    raise LookupError(i)
                return t.snapshot(), p

            want = self.api(call)
            code, out = self.command(argv, boot=boot)
            self.status(code, want, what, out)
            if want[0] == "ok":
                snap, p = want[1]
                if js:
                    got = json.loads(out.strip().splitlines()[-1])
                    included(case, got["task"], public(snap), f"{what}: task")
                    case.eq([got["requested_count"], got["returned_count"], got["exhausted"], got["run_times"]], [n, len(p.run_times), p.exhausted, plain(list(p.run_times))], f"{what}: run times")
                    case.count("json")
                else:
                    self.mentions(out, what, i, *[str(t) for t in p.run_times])
            return what
        if op == "timeline":
            per, limit = r.choice([None, 1, 10, 4]), r.choice([None, 1, 5, 500])
            argv += ([] if per is None else ["--per-task", str(per)]) + ([] if limit is None else ["--limit", str(limit)])
            what = self.show(argv)

            def call(s):
                rows, spent, infos = [], 0, s.get_task_infos()
                for info in infos:
                    p = s.preview_task_runs(info.id, info.store_alias, count=3 if per is None else per)
                    spent += p.exhausted
                    rows += [(t, info) for t in p.run_times]
                return infos, rows, spent

            want = self.api(call)
            code, out = self.command(argv, boot=boot)
            self.status(code, want, what, out)
            if want[0] == "error":
                raise want[1]
            infos, rows, spent = want[1]
            rows.sort(key=lambda v: us(v[0]))
            shown = rows[:100 if limit is None else limit]
            if js:
                got = json.loads(out.strip().splitlines()[-1])
                case.eq([got["task_count"], got["total_count"], got["returned_count"], got["exhausted_task_count"], len(got["rows"])], [len(infos), len(rows), len(shown), spent, len(shown)], f"{what}: counts")
                case.eq([us(datetime.fromisoformat(g["run_time"])) for g in got["rows"]], [us(t) for t, _ in shown], f"{what}: times")
                known = {(i.store_alias, i.id): i for i in infos}
                for g in got["rows"]:
                    included(case, g["task"], public(known[g["task"]["store"], g["task"]["id"]]), f"{what}: task")
                if len(shown) == len(rows):
                    case.eq(sorted((us(datetime.fromisoformat(g["run_time"])), g["task"]["store"], g["task"]["id"]) for g in got["rows"]), sorted((us(t), i.store_alias, i.id) for t, i in rows), f"{what}: rows")
                case.count("json")
            else:
                self.mentions(out, what, *{i.id for n, (t, i) in enumerate(shown) if n == 0 or us(t) < us(shown[-1][0]) or len(shown) == len(rows)} if shown and us(shown[0][0]) < us(shown[-1][0]) else [])
            return what
        # status, doctor, instances
        what = self.show(argv)
        want = self.api(lambda s: s.get_scheduler_info())
        code, out = self.command(argv)
        self.status(code, want, what, out)
        if js:
            got = json.loads(out.strip().splitlines()[-1])
            if op == "doctor":
                got = got["scheduler"]
            if op == "instances":
                case.eq([got["count"], len(got["instances"])], [1, 1], f"{what}: schedulers")
                got = got["instances"][0]
            w = want[1]
            case.eq([got["task_count"], got["scheduled_task_count"], got["paused_task_count"], got["pending_task_count"], got["submitted_task_count"], got["stores"], got["executors"], got["timezone"]],
                    [w.task_count, w.scheduled_task_count, w.paused_task_count, w.pending_task_count, w.submitted_task_count, list(w.store_aliases), list(w.executor_aliases), plain(w.timezone)], f"{what}: counts, stores and executors")
            case.count("json")
        return what

    def update(self, contents, boot):
        case, r = self.case, self.r
        i = self.ident(contents)
        argv, kw = ["update", i], {}
        key = f"k{r.randrange(4)}"
        if r.random() < 0.35:
            kw["name"] = r.choice(NAMES)
            argv += ["--name", kw["name"]]
        if r.random() < 0.25:
            kw["fn"] = r.choice(["rv.fns:work", "rv.fns:awork", "rv.fns:work2", "rv.fns:awork2"])
            argv += ["--callable", kw["fn"]]
            if r.random() < 0.1:
                kw["fn"] = argv[-1] = r.choice(["rv.fns:nothing", "nomodule:x", "x"])
        if r.random() < 0.3:
            kw["args"] = [key, *r.sample(VALUES, r.randrange(3))]
            argv += ["--args", json.dumps(kw["args"])]
        if r.random() < 0.3:
            kw["kwargs"] = {f"kw{n}": v for n, v in enumerate(r.sample(VALUES, r.randrange(3)))}
            argv += ["--kwargs", json.dumps(kw["kwargs"])]
        if r.random() < 0.1:
            kw["executor"] = r.choice(["default", "default", "other"])
            argv += ["--executor", kw["executor"]]
        if r.random() < 0.3:
            v = r.choice(["true", "false", "yes", "no", "1", "0", "True", "OFF", " on "])
            kw["coalesce"] = v.strip().lower() in ("true", "yes", "1", "on")
            argv += ["--coalesce", v]
        if r.random() < 0.25:
            kw["max_instances"] = r.choice([1, 2, 5, 1, 2, 0, -1])
            argv += ["--max-instances", str(kw["max_instances"])]
        if r.random() < 0.3:
            if r.random() < 0.4:
                kw["mistrigger_grace_time"] = None
                argv += ["--clear-mistrigger-grace-time"]
            else:
                kw["mistrigger_grace_time"] = r.choice([1.0, 60.0, 2.0, 86400.0, 0.0, -1.0])
                argv += ["--mistrigger-grace-time", str(kw["mistrigger_grace_time"])]
        bad = None
        if r.random() < 0.1:
            bad = r.choice([["--args", "{}"], ["--args", "[1"], ["--args", '"x"'], ["--kwargs", "[]"], ["--kwargs", "{"], ["--coalesce", "maybe"], ["--max-instances", "x"], ["--mistrigger-grace-time", "soon"]])
            argv += bad
        how = r.choice(["yes", "yes", "yes", "dry", "dry", "ask-y", "ask-n", "ask-eof"])
        js = r.random() < 0.4
        argv += {"yes": [r.choice(["--yes", "-y"])], "dry": r.choice([["--dry-run"], ["--dry-run", "--yes"]])}.get(how, []) + (["--json"] if js else [])
        what = self.show(argv)
        # what the call does, on a copy for the runs that must not do it
        applied = how in ("yes", "ask-y") and bad is None
        side = self.near
        if not applied:
            shutil.copytree(self.near.root, self.base + "/copy")
            side = Side(self.base + "/copy", self.kinds)

        def call(s):
            if not kw:
                raise ValueError("nothing to update")
            old = fields(s.lookup_task(i, None)[0])
            s.update_task(i, **kw)
            return old, fields(s.lookup_task(i, None)[0])

        want = self.api(call, side=side) if bad is None else ("error", bad)
        if not applied:
            shutil.rmtree(self.base + "/copy")
        changed = want[0] == "ok" and want[1][0] != want[1][1]
        code, out = self.command(argv, boot=boot, input={"ask-y": "y\n", "ask-n": "n\n"}.get(how, ""))
        if how in ("ask-n", "ask-eof") and changed:
            case.check(code != 0, f"{what}: exit status 0 for an update that was declined", output=out[:500])
            case.count("declined")
        else:
            self.status(code, want, what, out)
        if want[0] == "ok":
            old, new = want[1]
            if js and how in ("yes", "dry"):
                got = json.loads(out.strip().splitlines()[-1])
                diff = {k: {"before": old[k], "after": new[k]} for k in old if old[k] != new[k]}
                case.eq([got["id"], got["dry_run"], got["applied"], got["changed"], got["diff"]], [i, how == "dry", how == "yes" and changed, changed, diff], f"{what}: report")
                if got["applied"]:
                    case.eq(got.get("after"), new, f"{what}: reported result")
                case.count("json")
            elif not js:
                self.mentions(out, what, i)
            if how == "dry":
                case.count("dry_run")
            elif applied:
                case.count("updated")
                if how == "ask-y":
                    case.count("confirmed")
        return what, applied

    def add(self, contents, boot):
        case, r = self.case, self.r
        path = r.choice(["rv.fns:work", "rv.fns:awork", "rv.fns:work2"])
        kind = r.choice(["interval", "interval", "cron", "at"])
        n = r.randrange(1, 100)
        unit = r.choice("smhSMH")
        given = [v for v in IDS if any(c.endswith("|" + v) for c in contents)]
        now = clock.now()
        kw, argv, bad = {}, ["add", path], None
        if kind == "interval":
            argv += ["--interval", f"{n}{unit}"]
            trig = ("interval", dict(seconds=n * {"s": 1, "m": 60, "h": 3600}[unit.lower()]))
        elif kind == "cron":
            f = [r.choice(["*", "*/5", "0", "10-20", "59"]), r.choice(["*", "3", "*/6"]), r.choice(["*", "1", "15"]), r.choice(["*", "1-6"]), r.choice(["*", "mon", "0", "mon-fri"])]
            argv += ["--cron", " ".join(f)]
            trig = (f,)
        else:
            when = now + timedelta(seconds=r.choice([60, 86400, 10**6, -60]), microseconds=r.choice([0, 0, 123456]))
            if r.random() < 0.3:
                when = when.replace(tzinfo=None)
            elif r.random() < 0.3:
                when = when.astimezone(timezone(timedelta(hours=r.choice([-7, 5.5, 2]))))
            argv += ["--at", when.isoformat()]
            trig = ("date", dict(run_at=when))
        if r.random() < 0.75:
            kw["id"] = r.choice(given) if given and r.random() < 0.15 else r.choice(IDS)
            argv += ["--id", kw["id"]]
            if any(c in kw["id"] for c in "[]\\/ %'\"$"):
                case.count("hostile_ids")
        if r.random() < 0.6:
            kw["name"] = r.choice(NAMES)
            argv += ["--name", kw["name"]]
        self.fresh += 1
        kw["args"] = [f"n{self.fresh}", *r.sample(VALUES, r.randrange(3))]
        argv += ["--args", json.dumps(kw["args"])]
        if r.random() < 0.4:
            kw["kwargs"] = {f"kw{n}": v for n, v in enumerate(r.sample(VALUES, r.randrange(3)))}
            argv += ["--kwargs", json.dumps(kw["kwargs"])]
        if r.random() < 0.25:
            bad = r.choice([["--interval", "10x"], ["--interval", "s"], ["--interval", "-5s"], ["--interval", "1.5h"], ["--interval", ""], ["--cron", "* * *"], ["--cron", "61 * * * *"], ["--cron", "x * * * *"], ["--at", "tomorrow"], ["--at", "2027-13-01T00:00:00"], [], "both", "args", "kwargs", "callable", "module", "params"])
            if isinstance(bad, list):
                at = 2
                argv[at:at + 2] = bad
            elif bad == "both":
                argv += ["--cron", "* * * * *"] if kind != "cron" else ["--interval", "5s"]
            elif bad == "args":
                argv[argv.index("--args") + 1] = r.choice(["[1", "nope", "{'a': 1}"])
            elif bad == "kwargs":
                argv += ["--kwargs", r.choice(["{", "nope"])] if "--kwargs" not in argv else []
                argv[argv.index("--kwargs") + 1] = "{"
            elif bad == "params":
                argv[argv.index("--args") + 1] = "[]"
            else:
                argv[1] = "rv.fns:nothing" if bad == "callable" else r.choice(["no.such.module:f", "rv.fns"])
        what = self.show(argv)
        store = list(self.kinds)[0]

        def call(s):
            from asyncz.triggers import CronTrigger

            if bad is not None:
                raise ValueError(bad)
            fn = getattr(fns, path.partition(":")[2])
            t = s.add_task(fn, CronTrigger.from_crontab(" ".join(trig[0])), store=store, **kw) if len(trig) == 1 else s.add_task(fn, trig[0], **trig[1], store=store, **kw)
            return t.id, t.name

        if "id" in kw or bad is not None:
            want = self.api(call)
            code, out = self.command(argv, boot=boot)
            self.status(code, want, what, out)
        else:
            old = set(self.far.dump())
            code, out = self.command(argv, boot=boot)
            new = [v.partition("|")[2] for v in set(self.far.dump()) - old]
            if code == 0:
                case.eq(len(new), 1, f"{what}: new tasks")
                kw["id"] = new[0]
            want = self.api(call)
            self.status(code, want, what, out)
        if want[0] == "ok":
            self.mentions(out, what, *want[1])
            case.count("added")
        else:
            case.count("add_refused")
        return what, want[0] == "ok"

    def run(self, contents, boot):
        case, r = self.case, self.r
        i = self.ident(contents)
        argv = ["run", i]
        what = self.show(argv)
        self.sink["near"].sleep = self.sink["far"].sleep = r.choice([0, 0, 0.001, 0.005])
        row = next((v for k, v in contents.items() if k.endswith("|" + i)), None)
        want = self.api(lambda s: s.run_task(i), run=i)
        code, out = self.command(argv, boot=boot)
        self.status(code, want, what, out)
        if want[0] == "ok":
            self.mentions(out, what, i)
            case.count("ran")
            if row[1].startswith("rv.fns:a"):
                case.count("ran_coroutine")
            if self.sink["near"].calls and self.sink["near"].calls[-1][0] in self.sink["near"].bad:
                case.count("ran_failing")
        return what, want[0] == "ok"

    def simple(self, op, contents, boot, fn, word):
        i = self.ident(contents)
        argv = [op, i]
        what = self.show(argv)
        want = self.api(lambda s: fn(s, i))
        code, out = self.command(argv, boot=boot)
        self.status(code, want, what, out)
        if want[0] == "ok":
            self.mentions(out, what, i)
            self.case.count(word)
        return what, want[0] == "ok"

    def pause(self, contents, boot):
        return self.simple("pause", contents, boot, lambda s, i: s.pause_task(i) and None, "paused")

    def resume(self, contents, boot):
        return self.simple("resume", contents, boot, lambda s, i: s.resume_task(i) and None, "resumed")

    def remove(self, contents, boot):
        return self.simple("remove", contents, boot, lambda s, i: s.delete_task(i), "removed")


def start_time(r):
    return clock.to_us(datetime(2024, 1, 1, tzinfo=UTC) + timedelta(seconds=r.randrange(3 * 365 * 86400), microseconds=r.choice([0, 0, 1, 654321])))


def twin(case):
    r = case.rng
    base = case.ctx.tmpdir("cli")
    clock.set_us(start_time(r))
    t = Twin(case, base)
    case.log = t.log
    case.describe(stores=t.kinds)
    try:
        t.fill()
        contents = t.near.dump()
        for n in range(r.randrange(5, 14)):
            if r.random() < 0.5:
                clock.add_us(r.choice([1, 10**6, 60 * 10**6, 3600 * 10**6, 86400 * 10**6]))
                contents = t.near.dump()
            contents = t.step(contents)
        case.trivial = len(t.log) < 4
        return json.dumps(t.log)
    finally:
        fns.SINK = None
        clock.off()
        shutil.rmtree(base, ignore_errors=True)


CODE = """
import sys
sys.path.insert(0, {verif!r})
from zoneinfo import ZoneInfo

from rv import clock, fns
class Sink:
    def call_sync(self, key, a, k): self.note(key, a, k)
    async def call_async(self, key, a, k):
        import asyncio
        await asyncio.sleep(0.01)
        self.note(key, a, k)
    def note(self, key, a, k):
        open({calls!r}, "a").write(repr([key, repr(a), repr(sorted(k.items()))]) + "\\n")
        if key in {bad!r}: raise fns.TaskBoom("boom")
fns.SINK = Sink()
clock.set_us({now})
from asyncz.cli.app import main
sys.argv = ["asyncz", *sys.argv[1:]]
sys.exit(main())
"""


def process(case):
    """The same, each command in a process of its own."""
    r = case.rng
    base = case.ctx.tmpdir("cli")
    clock.set_us(start_time(r))
    t = Twin(case, base)
    case.log = t.log
    calls = base + "/calls"
    open(calls, "w").close()
    count = 0

    def command(argv, input=None, boot=None):
        nonlocal count
        argv = [*argv, *[w for s in t.far.specs() for w in ("--store", s)]]
        code = CODE.format(verif=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), calls=calls, bad=sorted(t.sink["far"].bad), now=clock.get_us())
        p = subprocess.run([sys.executable, "-c", code, *argv], input=input or "", capture_output=True, text=True, timeout=120, env={**os.environ, "COLUMNS": r.choice(["80", "200"])})
        case.check(p.returncode >= 0, f"asyncz {argv} was killed by signal {-p.returncode}", stderr=p.stderr[-500:])
        case.count("processes")
        if p.returncode:
            case.count("process_failed")
        t.sink["far"].calls = [eval(v) for v in open(calls)]
        t.sink["far"].finished = sum(v[0] not in t.sink["far"].bad for v in t.sink["far"].calls)
        return p.returncode, p.stdout

    t.command = command
    try:
        t.fill()
        contents = t.near.dump()
        for n in range(5):
            contents = t.step(contents)
        case.trivial = False
        return json.dumps(t.log)
    finally:
        fns.SINK = None
        clock.off()
        shutil.rmtree(base, ignore_errors=True)


REGISTRY = []


def registry(scheduler=None):
    return list(REGISTRY)


def load(case):
    """Job modules and files give the tasks they describe."""
    from asyncz.cli.loader import load_jobs_from_config, load_jobs_from_module
    from asyncz.schedulers import AsyncIOScheduler
    from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger

    r = case.rng
    base = case.ctx.tmpdir("load")
    clock.set_us(start_time(r))
    now = clock.now()
    try:
        jobs, wanted = [], []
        zone = r.choice([UTC, ZoneInfo("Europe/Zurich"), ZoneInfo("America/New_York")])
        for n in range(r.randrange(1, 6)):
            kind = r.choice(["interval", "cron", "at"])
            if kind == "interval":
                k, u = r.randrange(1, 50), r.choice("smh")
                v, make = f"{k}{u}", lambda k=k, u=u: IntervalTrigger(seconds=k * {"s": 1, "m": 60, "h": 3600}[u])
            elif kind == "cron":
                v = r.choice(["*/5 * * * *", "0 3 * * mon", "1 2 3 * *"])
                make = lambda v=v: CronTrigger.from_crontab(v)
            else:
                at = now + timedelta(seconds=r.randrange(1, 10**6))
                if r.random() < 0.4:
                    at = at.replace(tzinfo=None)
                v, make = at.isoformat(), lambda at=at: DateTrigger(run_at=at, timezone=zone)
            job = {"func": r.choice(["rv.fns:work", "rv.fns:awork", "rv.fns:work2"]), kind: v}
            if r.random() < 0.7:
                job["name"] = r.choice(NAMES)
            job["args"] = [f"k{n}", *r.sample(VALUES, r.randrange(2))]
            if r.random() < 0.4:
                job["kwargs"] = {"kw": r.choice(VALUES)}
            jobs.append(job)
            wanted.append((job, make))
        how = r.choice(["json", "json", "module", "callable"])
        bad = r.random() < 0.15
        if bad:
            x = r.choice(jobs)
            if r.random() < 0.5 or how in ("module", "callable"):
                x["func"] = "rv.fns:nothing"
            else:
                for k in ("interval", "cron", "at"):
                    x.pop(k, None)
                if r.random() < 0.5:
                    x.update(interval="5s", cron="* * * * *")

        async def main():
            near, far = AsyncIOScheduler(timezone=zone), AsyncIOScheduler(timezone=zone)
            n = err = None
            try:
                if how == "json":
                    open(base + "/jobs.json", "w").write(json.dumps({"jobs": jobs}))
                    n = await load_jobs_from_config(far, base + "/jobs.json")
                else:
                    REGISTRY[:] = [{**{k: v for k, v in j.items() if k in ("func", "name", "args", "kwargs")}, "trigger": m()} for j, m in wanted]
                    n = await load_jobs_from_module(far, "rv.props.c28:" + ("registry" if how == "callable" else "REGISTRY"))
            except Exception as e:
                err = e
            if bad:
                case.check(err is not None, f"{how}: a job that cannot be loaded was accepted", jobs=jobs)
                case.count("load_refused")
                return
            case.check(err is None, f"{how}: loading failed with {err!r}", jobs=jobs)
            case.eq(n, len(jobs), "loaded tasks")
            for j, m in wanted:
                near.add_task(getattr(fns, j["func"].partition(":")[2]), m(), name=j.get("name"), args=j["args"], kwargs=j.get("kwargs", {}))
            near.start(paused=True)
            far.start(paused=True)

            def view(s):
                out = []
                for t in s.get_tasks():
                    chain, prev, at = [], None, now
                    for _ in range(3):
                        prev = t.trigger.get_next_trigger_time(s.timezone, prev, at)
                        if prev is None:
                            break
                        at = prev
                        chain.append(us(prev))
                    out.append([t.args[0], t.name, t.fn_reference, repr(list(t.args)), repr(dict(t.kwargs)), us(t.next_run_time), type(t.trigger).__name__, chain, t.coalesce, t.max_instances, t.mistrigger_grace_time, t.executor])
                return sorted(out, key=lambda v: v[0])

            case.eq(view(far), view(near), f"{how}: tasks", jobs=jobs)
            case.count("loaded")
            near.shutdown()
            far.shutdown()

        loop = asyncio.new_event_loop()
        loop.run_until_complete(main())
        loop.close()
        case.log = [how, jobs]
        return json.dumps([how, jobs])
    finally:
        clock.off()
        shutil.rmtree(base, ignore_errors=True)


def run(ctx):
    ctx.cases("twin", twin, quick=560, thorough=9000)
    ctx.cases("process", process, quick=16, thorough=240, cpu=400)
    ctx.cases("load", load, quick=240, thorough=3000)
