"""C16: schedulers sharing a locked store run each fire time once between them."""
import asyncio
import json
import os
import shutil
import subprocess
import sys
import time
from datetime import timedelta

from rv import fns
from rv.backends import Backend
from rv.core import HarnessError, Violation
from rv.world import TOL, UTC, chain, run_world, us

RULE = ("'sim': 2-4 schedulers of one virtual-time simulation share one or two stores under a common lock path; while one is in the middle of a processing pass others process, start, pause, stop, are added "
        "to or the process dies; every hand-over to an executor is accounted online against the triggers' own fire times; 'procs': real worker processes with random pauses inside their passes, started, "
        "stopped, paused and killed at random instants; distinct by configuration and history")
ASSUMPTIONS = ["fire times a trigger yields are judged by C11-C13", "a process that dies between handing a fire time over and noting it in the store leaves that fire time to be handed over again",
               "local file locks (flock) work; network file systems are out of reach here"]
REQUIRE = {"handed": 35000, "added_within": 4000, "died_in_pass": 220, "killed": 2000, "known_pending": 4000, "passes": 60000, "paused": 280, "pending_tasks": 600, "refused_passes": 12000,
           "repeated_after_death": 15, "shutdown_tasks": 300, "started": 1500, "started_within": 5000, "stopped": 380, "stopped_together": 80, "stopped_within": 3800, "tasks": 5000,
           "procs": 230, "procs_handed": 600, "procs_joined": 110, "procs_killed": 50, "procs_passes": 2000, "procs_paused": 40, "procs_sharing": 25, "procs_stopped": 60}


class Died(BaseException):
    """The process of a scheduler ends here."""


class Slot:
    def __init__(self, i):
        self.i, self.s, self.state = i, None, "off"  # off | running | paused
        self.inside = None  # alias of the store whose pass is running
        self.in_pass = False
        self.open = []  # fire times of this pass the store does not know of yet
        self.die = False
        self.busy = False  # on its way up or down


class Task:
    def __init__(self, tid, alias, trigger, first, tz):
        self.tid, self.alias, self.first = tid, alias, first
        self.chain = chain(trigger, first, tz)
        self.next = next(self.chain)
        self.repeat, self.handed = [], 0
        self.gone = False


def scenario(case):
    r = case.rng

    async def main(w):
        from asyncz.executors.asyncio import AsyncIOExecutor
        from asyncz.exceptions import ConflictIdError
        from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger, OrTrigger, ShutdownTrigger
        from asyncz.schedulers import AsyncIOScheduler, NativeAsyncIOScheduler

        sim, tz = w.sim, w.tz
        kinds = {"default": r.choice(["file", "file", "sqlite", "redis", "mongo"])}
        if r.random() < 0.3:
            kinds["b"] = r.choice(["file", "sqlite", "mongo"])
        d = case.ctx.tmpdir("locks")
        path = os.path.join(d, r.choice(["{store}.lock", "{store}.lock", "{pgrp}-{store}", "{ppid}_{store}.l", "one.lock"]))
        retry = r.choice([1, 3, 10])
        delay = r.choice([None, 0, 2.5])
        fuss = r.choice([0, 0.1, 0.3, 0.6])
        case.describe(zone=str(tz), base=str(sim.now()), kinds=kinds, path=os.path.basename(path), retry=retry, delay=delay, fuss=fuss, ops=[])
        ops = case.desc["ops"]
        slots = [Slot(i) for i in range(r.randint(2, 4))]
        tasks, errs, st = {}, [], {"disturbed": sim.us, "alive": None, "held": {}, "depth": 0, "n": 0}
        sim.plan = lambda key, n: {}
        ends = {}  # shutdown tasks: id -> executions

        class Spy(AsyncIOExecutor):
            slot = None

            def do_send_task(self, task, run_times):
                try:
                    if not errs:
                        handed(self.slot, task.id, list(run_times))
                except Violation as exc:
                    exc.witness = dict(exc.witness or {}, history=case.log[-40:])
                    errs.append(exc)
                except BaseException as exc:
                    errs.append(exc)
                return super().do_send_task(task, run_times)

        def note():
            st["disturbed"] = sim.us
            live = any(x.state == "running" for x in slots)
            st["alive"] = (st["alive"] or sim.us) if live else None

        def handed(slot, tid, times):
            case.check(slot.state == "running", f"scheduler {slot.i} hands over {tid} while it is {slot.state}", "not_running")
            case.check(slot.in_pass, f"{tid} is handed over outside of a pass", "outside")
            t = tasks.get(tid)
            case.check(t is not None, f"an unknown task {tid} is handed over", "unknown")
            for f in times:
                case.log.append((slot.i, tid, us(f), sim.us))
                if us(f) in t.repeat:
                    t.repeat.remove(us(f))
                    case.count("repeated_after_death")
                    continue
                case.check(t.next is not None and us(f) == us(t.next), f"{tid}: scheduler {slot.i} hands over the fire time {f}, the next of the schedule not yet handed over is {t.next}",
                           "twice" if t.next is None or us(f) < us(t.next) else "lost")
                case.check(sim.us >= us(f), f"{tid}: fire time {f} handed over early", "early")
                late = sim.us - max(us(f), st["disturbed"], st["alive"] or 0, us(t.first))
                case.check(late <= retry * 1e6 + TOL, f"{tid}: fire time {f} handed over {late / 1e6} s after a running scheduler could have looked", "late")
                t.handed += 1
                case.count("handed")
                slot.open.append((tid, us(f)))
                t.next = next(t.chain, None)

        def fussy(slot, alias, where):
            """Something happens elsewhere while this scheduler is in its pass."""
            if st["depth"] or not slot.in_pass or slot.inside != alias:
                return
            if slot.die and r.random() < 0.5:
                slot.die = False
                raise Died()
            if r.random() >= fuss:
                return
            st["depth"] += 1
            try:
                for _ in range(r.choice([1, 1, 2, 3])):
                    o = r.choice([x for x in slots if x is not slot])
                    if o.busy:
                        continue
                    act = r.choice(["process", "process", "process", "stop", "start", "pause", "resume", "add", "kill", "process_all"])
                    case.log.append((where, act, o.i))
                    nested(o, act)
            except Exception as exc:
                errs.append(exc)
            finally:
                st["depth"] -= 1

        def nested(o, act):
            if act == "process_all":
                for x in slots:
                    if x.state == "running" and not x.in_pass and not x.busy:
                        nested(x, "process")
                return
            if act == "process" and o.state == "running":
                wait = o.s.process_tasks()
                case.check(o.state != "running" or (wait is not None and wait <= retry + 0.01), f"a scheduler that was refused the store looks again in {wait} s", "no_retry")
                case.count("refused_passes")
            elif act == "stop" and o.state != "off" and isinstance(o.s, NativeAsyncIOScheduler):
                try:
                    o.s.shutdown(False).send(None)
                except StopIteration:
                    pass
                off(o)
                case.count("stopped_within")
            elif act == "kill" and o.state != "off" and r.random() < 0.4:
                kill(o)
            elif act == "start" and o.state == "off":
                make(o)
                if isinstance(o.s, NativeAsyncIOScheduler):
                    pend(o)
                    o.state = "running"
                    note()
                    try:
                        o.s.start().send(None)
                    except StopIteration:
                        pass
                    settle_pending(o)
                    case.count("started_within")
            elif act == "pause" and o.state == "running":
                o.s.pause()
                o.state = "paused"
                note()
            elif act == "resume" and o.state == "paused":
                o.state = "running"
                note()
                o.s.resume()
            elif act == "add" and o.state != "off":
                add(o)
                case.count("added_within")

        def wire(slot):
            """Watch the passes and the stores of a scheduler."""
            s = slot.s
            process = s.process_tasks

            def process_tasks():
                if slot.s is not s or slot.state == "off":
                    return None
                if slot.in_pass:
                    raise HarnessError("pass within a pass")
                slot.in_pass, slot.open = True, []
                try:
                    return process()
                except Died:
                    for tid, f in slot.open:
                        tasks[tid].repeat.append(f)
                    leave(slot)
                    slot.in_pass = False
                    kill(slot)
                    case.count("died_in_pass")
                    return None
                finally:
                    leave(slot)
                    slot.in_pass = False

            s.process_tasks = process_tasks
            for alias, store in s.stores.items():
                watch(slot, alias, store)

        def leave(slot):
            if slot.inside is not None:
                st["held"].pop(slot.inside, None)
                slot.inside = None

        def watch(slot, alias, store):
            def patch(name, before, after):
                real = getattr(store, name)

                def call(*a, **k):
                    before()
                    out = real(*a, **k)
                    after(a)
                    return out

                setattr(store, name, call)

            def enter():
                if not slot.in_pass:
                    return
                leave(slot)
                o = st["held"].get(alias)
                if o is not None:
                    exc = Violation(f"schedulers {o} and {slot.i} process the store {alias} at the same time", "together", {})
                    errs.append(exc)
                    return
                st["held"][alias] = slot.i
                slot.inside = alias
                case.count("passes")

            def noted(a):
                if slot.inside == alias and not st["depth"]:
                    tid = getattr(a[0], "id", a[0])
                    slot.open = [x for x in slot.open if x[0] != tid]
                fussy(slot, alias, "after")

            patch("get_due_tasks", enter, lambda a: fussy(slot, alias, "due"))
            patch("lookup_task", lambda: None, lambda a: fussy(slot, alias, "lookup"))
            patch("update_task", lambda: fussy(slot, alias, "before"), noted)
            patch("delete_task", lambda: fussy(slot, alias, "before"), noted)

            def outside():
                if slot.inside == alias:
                    leave(slot)

            patch("get_next_run_time", outside, lambda a: None)

            def listed(a):
                # two going down at once
                if slot.busy and not st["depth"] and slot.s is s and ends and r.random() < 0.7:
                    st["depth"] += 1
                    try:
                        for o in slots:
                            if o is not slot and not o.busy and r.random() < 0.6:
                                nested(o, "stop")
                                case.count("stopped_together")
                    except Exception as exc:
                        errs.append(exc)
                    finally:
                        st["depth"] -= 1

            s = slot.s
            patch("get_all_tasks", lambda: None, listed)

        def make(slot):
            ex = Spy()
            ex.slot = slot
            kw = {} if delay is None else {"startup_delay": delay}
            slot.s = w.scheduler(native=r.random() < 0.7, stores=w.stores(kinds), executors={"default": ex}, lock_path=path, store_retry_interval=retry, **kw)
            slot.in_pass, slot.inside, slot.die = False, None, False
            wire(slot)
            slot.pending = []

        def trigger():
            k = r.choice(["interval", "interval", "interval", "cron", "date", "or", "bounded"])
            if k == "interval":
                return IntervalTrigger(seconds=r.randint(1, 40), timezone=tz)
            if k == "bounded":
                return IntervalTrigger(seconds=r.randint(1, 9), end_at=sim.now() + timedelta(seconds=r.randint(5, 60)), timezone=tz)
            if k == "cron":
                return CronTrigger(second=r.choice(["*/5", "1,2,31", "0", "*/17"]), timezone=tz)
            if k == "date":
                return DateTrigger(run_at=sim.now() + timedelta(seconds=r.choice([0.5, 3, 20, 70])), timezone=tz)
            return OrTrigger([IntervalTrigger(seconds=r.randint(3, 30), timezone=tz), DateTrigger(run_at=sim.now() + timedelta(seconds=r.randint(1, 40)), timezone=tz)])

        def options():
            return dict(args=["k"], mistrigger_grace_time=None, coalesce=False, max_instances=10**6)

        def add(slot):
            st["n"] += 1
            tid, alias = f"t{st['n']}", r.choice(list(kinds))
            if r.random() < 0.06:
                slot.s.add_task(fns.work, ShutdownTrigger(), id=tid, store=alias, args=[tid])
                ends[tid] = 0
                return
            trig = trigger()
            t = slot.s.add_task("rv.fns:work", trig, id=tid, store=alias, **options())
            if t.next_run_time is None:
                return
            tasks[tid] = Task(tid, alias, trig, t.next_run_time, tz)
            ops.append([sim.us, "add", slot.i, tid, alias, str(trig)])
            if slot.state == "paused":
                pass
            case.count("tasks")

        def pend(slot):
            """Tasks a program adds before it starts its scheduler, the same in all processes."""
            for k in range(r.choice([0, 0, 1, 2])):
                tid = f"p{k}"
                if tid in tasks and tasks[tid].next is None:
                    continue  # it may be added again, out of the model
                trig = IntervalTrigger(seconds=5 + k, timezone=tz)
                slot.s.add_task("rv.fns:work", trig, id=tid, store="default", **options())
                slot.pending.append((tid, trig))

        def settle_pending(slot):
            now = sim.now()
            for tid, trig in slot.pending:
                if tid in tasks:
                    case.count("known_pending")
                    continue
                t = slot.s.stores["default"].lookup_task(tid)
                first = trig.get_next_trigger_time(tz, None, now)
                least = now + timedelta(seconds=1 if delay is None else delay)
                case.eq(us(t.next_run_time), max(us(first), us(least)), "first fire time of a task added before the start (us)", "startup_delay")
                tasks[tid] = Task(tid, "default", trig, t.next_run_time, tz)
                case.count("pending_tasks")

        def off(slot):
            slot.state = "off"
            note()

        def kill(slot):
            """The process ends without any chance to clean up."""
            s = slot.s
            slot.state = "off"
            if getattr(s, "timer", None):
                s.timer.cancel()
            s.process_tasks = lambda: None
            s.wakeup = lambda: None
            note()
            case.count("killed")

        def overdue():
            for exc in errs:
                raise exc
            v = getattr(sim, "violation", None)
            if v:
                raise v
            if st["alive"] is None:
                return
            for t in tasks.values():
                if t.next is not None:
                    late = sim.us - max(us(t.next), st["disturbed"], st["alive"])
                    case.check(late <= retry * 1e6 + TOL, f"{t.tid}: the fire time {t.next} has not been handed over {late / 1e6} s after a running scheduler could have looked", "lost")

        async def step():
            o = r.choice(slots)
            act = r.choice(["start", "start", "start", "stop", "pause", "resume", "add", "add", "add", "kill", "die", "wait", "wait"])
            ops.append([sim.us, act, o.i, o.state])
            if act == "start" and o.state == "off":
                make(o)
                pend(o)
                paused = r.random() < 0.15
                o.state = "paused" if paused else "running"
                note()
                o.busy = True
                await w.start(o.s, paused=paused)
                settle_pending(o)
                o.busy = False
                case.count("started")
            elif act == "stop" and o.state != "off":
                # an AsyncIOScheduler stops when the loop handles the call
                o.busy = True
                await w.stop(o.s)
                off(o)
                o.busy = False
                case.count("stopped")
            elif act == "pause" and o.state == "running":
                o.s.pause()
                o.state = "paused"
                note()
                case.count("paused")
            elif act == "resume" and o.state == "paused":
                o.state = "running"
                note()
                o.s.resume()
            elif act == "add" and o.state != "off":
                add(o)
                if o.state == "paused":
                    note()
            elif act == "kill" and o.state != "off" and r.random() < 0.5:
                kill(o)
            elif act == "die" and o.state == "running":
                o.die = True

        for _ in range(r.randint(15, 50)):
            await step()
            await asyncio.sleep(r.choice([0, 0, 0.3, 1, 2, 5, 20, retry]))
            overdue()
        # in the end somebody has to catch up with everything
        o = slots[0]
        if o.state == "off":
            make(o)
            o.state = "running"
            note()
            o.busy = True
            await w.start(o.s)
            o.busy = False
        elif o.state == "paused":
            o.state = "running"
            note()
            o.s.resume()
        await asyncio.sleep(retry * 3 + 1)
        overdue()
        for o in slots:
            if o.state != "off":
                o.s.pause()
                o.state = "paused"
        await sim.settle()
        for o in slots:
            if o.state != "off":
                await w.stop(o.s)
        overdue()
        runs = {}
        for c in sim.calls:
            if c["key"] in ends:
                runs[c["key"]] = runs.get(c["key"], 0) + 1
        for tid in ends:
            case.eq(runs.get(tid, 0), 1, f"executions of the shutdown task {tid} by all schedulers", "shutdown_task")
            case.count("shutdown_tasks")

    run_world(case, main)


def real():
    """The machine's wall clock, which is not the virtual one of this process."""
    os.utime(STAMP["path"])
    return os.stat(STAMP["path"]).st_mtime


STAMP = {}
mono, pause = time.monotonic, time.sleep


def procs(case):
    """Real worker processes; the same accounting over the log they share."""
    r = case.rng
    kind = r.choice(["file", "file", "sqlite", "redis"])
    home = Backend(case.ctx, kind)
    d = case.ctx.tmpdir("mp")
    log = os.path.join(d, "log")
    STAMP["path"] = os.path.join(d, "stamp")
    open(STAMP["path"], "w").close()
    env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD" and not k.startswith("RV_CLOCK")}
    base = dict(log=log, store=home.config(), lock=os.path.join(d, r.choice(["{store}.lock", "{ppid}-{store}", "x.lock"])), retry=r.choice([0.1, 0.3]), nap=r.choice([0, 0.3, 0.8]), longest=r.choice([0.002, 0.02, 0.1]))
    workers, live = [], {}
    script = []
    case.describe(kind=kind, retry=base["retry"], nap=base["nap"], longest=base["longest"], script=script)

    def spawn(me, **kw):
        p = subprocess.Popen([sys.executable, "-m", "rv.mpworker", json.dumps({**base, "me": me, "seed": f"{case.index}:{me}", **kw})], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                             stderr=open(os.path.join(d, f"err{me}"), "w"), env=env, text=True)
        workers.append(p)
        return p

    def entries():
        try:
            return [json.loads(x) for x in open(log) if x.endswith("\n")]
        except FileNotFoundError:
            return []

    def until(what, cond, limit=60):
        end = mono() + limit
        while mono() < end:
            if cond():
                return True
            pause(0.02)
        return False

    try:
        now = real()
        tasks = [(f"t{k}", r.choice([1, 1, 1, 2, 3]), now + 2.5 + r.random() * 1.5) for k in range(r.randint(3, 10))]
        base["tasks"] = tasks
        p = spawn(-1)
        case.check(until("setup", lambda: p.poll() is not None) and p.returncode == 0, f"the setup process failed: {open(os.path.join(d, 'err-1')).read()[-600:]}", "setup")
        first = next(x[3] for x in entries() if x[2] == "first")
        case.eq(sorted(first), sorted(t[0] for t in tasks), "stored tasks", "setup")
        n = r.randint(2, 5)
        count = 0
        for _ in range(n):
            live[count] = spawn(count)
            count += 1
        horizon = max(t[2] for t in tasks) + r.uniform(3, 5)
        killed, paused = set(), set()

        def tell(i, cmd):
            try:
                live[i].stdin.write(cmd + "\n")
                live[i].stdin.flush()
            except BrokenPipeError:
                case.fail(f"worker {i} ended on its own: {open(os.path.join(d, f'err{i}')).read()[-600:]}", "worker")

        until("up", lambda: sum(x[2] == "started" for x in entries()) >= n)
        while real() < horizon:
            pause(r.choice([0.05, 0.2, 0.5]))
            act = r.choice(["kill", "stop", "pause", "resume", "spawn", "spawn", "none", "none"])
            up = [i for i in live if i not in paused]
            if act in ("kill", "stop", "pause") and len(up) > 1:
                i = r.choice(up)
                if act == "kill":
                    live[i].kill()
                    live.pop(i).wait()
                    killed.add(i)
                    case.count("procs_killed")
                elif act == "stop":
                    tell(i, "stop")
                    p = live.pop(i)
                    if r.random() < 0.5:
                        p.wait(60)
                    case.count("procs_stopped")
                else:
                    tell(i, "pause")
                    paused.add(i)
                    case.count("procs_paused")
            elif act == "resume" and paused:
                i = r.choice(sorted(paused))
                paused.discard(i)
                tell(i, "resume")
            elif act == "spawn" and len(live) < 5:
                live[count] = spawn(count)
                count += 1
                case.count("procs_joined")
            else:
                continue
            script.append([round(real() - now, 2), act, i if act != "spawn" else count - 1])
        # every fire time up to the horizon has to come
        wanted = {tid: [f for f in range(first[tid], int(horizon * 1e6), sec * 10**6)] for tid, sec, _ in tasks}

        def missing():
            got = {(x[3], f) for x in entries() if x[2] == "hand" for f in x[4]}
            return [(tid, f) for tid, fs in wanted.items() for f in fs if (tid, f) not in got]

        until("all", lambda: not missing(), 45)
        for i in list(live):
            tell(i, "stop")
        for i, p in live.items():
            try:
                p.wait(60)
            except subprocess.TimeoutExpired:
                case.fail(f"worker {i} does not stop", "stuck")
        es = entries()
        lost = missing()
        case.check(not lost, f"fire times never handed over by any process: {lost[:5]} of {len(lost)}; errors: " + "".join(open(os.path.join(d, x)).read()[-200:] for x in os.listdir(d) if x.startswith("err")), "lost", log=es[-60:])
        for i, p in enumerate(workers[1:]):
            if i not in killed:
                case.check(p.wait(60) == 0, f"worker {i} failed: {open(os.path.join(d, f'err{i}')).read()[-600:]}", "worker")
        # accounting in the order of the log
        inside, last, open_passes, seen = {}, {}, {}, {}
        fatal = set()
        for x in es:
            t, me, what = x[:3]
            if what == "enter":
                open_passes[me] = []
                inside[me] = t
            elif what == "leave":
                open_passes.pop(me, None)
            elif what == "hand" and me in open_passes:
                open_passes[me] += [(x[3], f) for f in x[4]]
        for me, hs in open_passes.items():
            if me in killed:
                fatal |= set(hs)
        for x in es:
            if x[2] != "hand":
                continue
            tid = x[3]
            case.log.append((x[1], tid, x[4]))
            for f in x[4]:
                case.count("procs_handed")
                if f in seen.setdefault(tid, {}):
                    case.check((tid, f) in fatal, f"{tid}: fire time {f} handed over by process {seen[tid][f]} and by process {x[1]}", "twice", log=es[-80:])
                    case.count("procs_repeated")
                    continue
                seen[tid][f] = x[1]
                want = first[tid] if tid not in last else last[tid] + dict((a, b) for a, b, _ in tasks)[tid] * 10**6
                case.check(f == want, f"{tid}: fire time {f} handed over, {want} was next", "order")
                case.check(x[0] > 0, "clock")
                last[tid] = f
        # passes of different processes never overlap
        spans = []
        start = {}
        for t, me, what, *more in es:
            if what == "enter":
                start[me] = t
            elif what == "leave" and me in start:
                spans.append((start.pop(me), t, me))
        spans.sort()
        for a, b in zip(spans, spans[1:]):
            case.check(b[0] > a[1] or a[2] == b[2], f"processes {a[2]} and {b[2]} process the store at the same time ({a}, {b})", "together")
        case.count("procs_passes", len(spans))
        case.count("procs", count)
        who = {m for fs in seen.values() for m in fs.values()}
        case.count("procs_sharing", len(who) > 1)
    finally:
        for p in workers:
            if p.poll() is None:
                p.kill()
                p.wait()
            if p.stdin:
                try:
                    p.stdin.close()
                except OSError:
                    pass
        shutil.rmtree(d, ignore_errors=True)
        home.close()


def run(ctx):
    ctx.cases("sim", scenario, quick=600, thorough=12000)
    ctx.cases("procs", procs, quick=48, thorough=800)
