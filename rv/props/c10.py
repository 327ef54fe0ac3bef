"""C10: what lies in a store is sealed when a key is set, and a bad record harms nothing else."""
import datetime as D
import os
import pickle
from datetime import timedelta

from rv import clock, fns, fns9, gen
from rv.backends import PERSISTENT, Backend, StubScheduler
from rv.props.c09 import KEY, set_key
from rv.world import Blocked, Ledger, run_world, us

RULE = ("sealed: tasks with marker values go through adds, updates and runs under a key and every byte of the store's location is searched for the markers; "
        "tamper: records are flipped, truncated, extended, re-keyed or replaced by foreign and unsupported records, and every store call, and a running "
        "scheduler in virtual time, is watched: the bad ones are never shown nor called, the good ones are listed and handed over on time; "
        "non-trivial when a record was searched or tampered with; distinct by contents and tampering")
ASSUMPTIONS = ["ids and next run times are index data and may be readable", "a record moved as a whole to another id is not judged",
               "without a key, only records that cannot be a task are judged", "MongoDB stand-in"]
REQUIRE = {"searched": 1200, "tampered": 900, "never_shown": 2500, "others_intact": 900, "live_tampered": 150, "live_handed": 1500, "other_key": 80, "foreign": 300}
UTC = D.timezone.utc


def everything(b):
    """All bytes a store keeps."""
    out = b""
    if b.dir:
        for root, _, names in os.walk(b.dir):
            for n in names:
                with open(os.path.join(root, n), "rb") as f:
                    out += f.read()
    elif b.kind == "redis":
        r = b.raw_redis()
        for k in r.keys():
            t = r.type(k)
            if t == b"hash":
                out += b"".join(r.hgetall(k).values())
            elif t == b"string":
                out += r.get(k)
    elif b.kind == "mongo":
        for db in b.client.dbs.values() if hasattr(b.client, "dbs") else [b.client["asyncz"]]:
            for c in getattr(db, "colls", {"tasks": b.client["asyncz"]["tasks"]}).values():
                for d in c.docs.values():
                    out += repr(sorted(d.items(), key=str)).encode() + b"".join(v for v in d.values() if isinstance(v, bytes))
    return out


def mk(sched, tid, marker, r, nrt, fn=None, trig=None, **kw):
    from asyncz.tasks import Task
    from asyncz.triggers import IntervalTrigger

    t = Task(fn or fns9.plain, id=tid, name=f"name-{marker}", args=(f"arg-{marker}", f"blob-{marker}".encode()), kwargs={"kw": [f"val-{marker}"]},
             trigger=trig or IntervalTrigger(seconds=r.randint(1, 99), start_at=D.datetime(2024, 1, 1, tzinfo=UTC), timezone="UTC"),
             scheduler=sched, store_alias="s", next_run_time=nrt, coalesce=False, max_instances=1, mistrigger_grace_time=None, executor=f"exec-{marker}", **kw)
    t.pending, t.submitted = False, True
    return t


def real_sched():
    from asyncz.schedulers import AsyncIOScheduler

    return AsyncIOScheduler(timezone="UTC")


def sealed(case):
    r = case.rng
    kind = PERSISTENT[case.index % 4]
    old = os.environ.get(KEY)
    set_key(r.choice(["k", "secret-" * 9, "\u2603", " "]))
    b = Backend(case.ctx, kind)
    try:
        st = b.store()
        sched = real_sched()
        st.start(sched, "s")
        marks, prev = [], {}
        base = D.datetime(2024, 3, 1, tzinfo=UTC)
        case.describe(kind=kind)
        for step in range(r.randint(3, 9)):
            tid = r.choice(["a", "b", "c"])
            m = f"M{r.getrandbits(60):x}"
            nrt = r.choice([None, base + timedelta(seconds=r.randint(0, 99))])
            t = mk(sched, tid, m, r, nrt)
            marks.append(m)
            if tid in prev:
                st.update_task(t)
                if r.random() < 0.5:  # the same content once more
                    one = b.records()[tid]
                    st.update_task(t)
                    case.check(b.records()[tid] != one, f"{kind}: writing the same task twice gives equal bytes")
            else:
                st.add_task(t)
            prev[tid] = m
            recs = b.records()
            case.eq(sorted(recs), sorted(prev), f"{kind}: stored ids")
            if r.random() < 0.4:
                st = b.store()
                st.start(sched, "s")
            for got in st.get_all_tasks():
                case.eq(got.name, f"name-{prev[got.id]}", f"{kind}: {got.id} read back")
            raw = everything(b)
            case.check(all(v in raw for v in recs.values()) or kind in ("sqlite", "mongo"), "the search does not cover the records")
            for mm in marks:
                case.check(mm.encode() not in raw, f"{kind}: {mm} of a task is readable in the store")
            for word in (b"rv.fns9", b"TaskState", b"asyncz.datastructures", b"IntervalTrigger", b"fn_reference", b"max_instances"):
                case.check(not any(word in v for v in recs.values()), f"{kind}: a record shows {word!r}")
            nonces = [v[:13] for v in recs.values()]
            case.check(len(set(nonces)) == len(nonces), f"{kind}: two records start with the same bytes")
            case.count("searched", len(recs))
            case.log.append((tid, bool(nrt)))
        # same payload under two ids
        for tid in ("x", "y"):
            st.add_task(mk(sched, tid, "same", __import__("random").Random(1), None))
        recs = b.records()
        a, c = recs["x"], recs["y"]
        case.check(sum(p == q for p, q in zip(a, c)) < len(a) / 4, f"{kind}: records of two tasks with equal content resemble each other")
    finally:
        set_key(old)
        b.close()


class Unloadable:
    """Pickles fine; cannot be loaded."""

    def __reduce__(self):
        return (int, ("not a number",))


def vanished(tid):
    """A record of a class that no longer exists."""
    return b"cno_such_module_rv\nThing\n."


def bad_blobs(r, st, sched, tid, nrt, key):
    """(name, bytes) of records that must not be restored, given the store's present configuration."""
    from asyncz.stores.persistence import TaskStateEnvelope

    def enc(b):
        return st.conditional_encrypt(b)

    good = st.serialize_task_state(mk(sched, tid, "evil", r, nrt, fn=fns.work))
    plain = pickle.dumps(good, 5)
    out = [("empty", b""), ("short", os.urandom(r.randint(1, 12))), ("noise", os.urandom(r.randint(13, 400))), ("text", b"hello world, not a task\n"),
           ("dict", enc(pickle.dumps({"id": tid, "fn": "rv.fns:work"}, 5))), ("none", enc(pickle.dumps(None, 5))), ("truncated", enc(plain[: r.randint(1, len(plain) - 1)])),
           ("unloadable", enc(pickle.dumps(Unloadable(), 5))), ("vanished class", enc(vanished(tid)))]

    def env(**kw):
        d = dict(entity=good.entity, version=good.version, shape=good.shape, payload=good.payload)
        d.update(kw)
        return enc(pickle.dumps(TaskStateEnvelope(**d), 5))

    out += [("other entity", env(entity="asyncz.other")), ("newer version", env(version=good.version + 1)), ("older version", env(version=0)),
            ("unknown shape", env(shape="no-such-shape")), ("payload of another kind", env(payload={"id": tid})), ("no payload", env(payload=None))]
    st2 = good.payload.model_copy() if hasattr(good.payload, "model_copy") else good.payload
    for name, ref in (("module gone", "no_such_module_rv:f"), ("function gone", "rv.fns:no_such_function"), ("no reference", "nonsense")):
        p = st2.model_copy(update={"fn": ref, "fn_reference": ref})
        out.append((name, env(payload=p)))
        out.append((name + " (raw)", enc(pickle.dumps(p, 4))))
    if key:
        out += [("not encrypted", plain), ("not encrypted raw", pickle.dumps(good.payload, 4))]
        from cryptography.hazmat.primitives.ciphers.aead import AESCCM
        import hashlib

        n = os.urandom(13)
        for name, k in (("other key", "another key"), ("key of other case", key.upper() + "x")):
            out.append((name, n + AESCCM(hashlib.sha256(k.encode()).digest()).encrypt(n, plain, None)))
        blob = enc(plain)
        for _ in range(4):
            i = r.randrange(len(blob))
            out.append((f"flip {i}/{len(blob)}", blob[:i] + bytes([blob[i] ^ (1 << r.randrange(8))]) + blob[i + 1:]))
        out += [("cut", blob[: r.randrange(len(blob))]), ("extended", blob + b"\0"), ("cut front", blob[r.randint(1, 20):])]
    else:
        from cryptography.hazmat.primitives.ciphers.aead import AESCCM

        n = os.urandom(13)
        out.append(("encrypted", n + AESCCM(b"k" * 32).encrypt(n, plain, None)))
    return out


def view(t):
    return (t.id, t.name, tuple(t.args), t.next_run_time and us(t.next_run_time), str(t.trigger))


def tamper(case):
    """Store calls on a location with bad records, no scheduler running."""
    from asyncz.exceptions import ConflictIdError, TaskLookupError

    r = case.rng
    kind = PERSISTENT[case.index % 4]
    old = os.environ.get(KEY)
    key = r.choice([None, "k", "kk"])
    set_key(key)
    b = Backend(case.ctx, kind)
    try:
        sched = real_sched()
        st = b.store()
        st.start(sched, "s")
        base = D.datetime(2024, 3, 1, tzinfo=UTC)
        good, bad = {}, {}
        ids = ["a", "b", "c", "d", "e", "f"][: r.randint(2, 6)]
        for tid in ids:
            nrt = r.choice([None, base, base + timedelta(seconds=r.randint(-50, 50))])
            t = mk(sched, tid, "g" + tid, r, nrt)
            st.add_task(t)
            good[tid] = (view(t), nrt)
        for tid in r.sample(ids, r.randint(1, len(ids) - 1)):
            nrt = good.pop(tid)[1]
            name, blob = r.choice(bad_blobs(r, st, sched, tid, nrt, key))
            bad[tid] = name
            b.put(tid, blob, nrt and nrt.timestamp())
            case.count("tampered")
            case.count("other_key", "key" in name)
            case.count("foreign", "flip" not in name and "cut" not in name)
        case.describe(kind=kind, key=key, bad=bad, good=sorted(good))
        if r.random() < 0.7:
            st = b.store()
            st.start(sched, "s")
        now = base + timedelta(seconds=r.choice([-100, 0, 100]))
        steps = r.sample(["all", "due", "next", "lookup", "lookup", "delete", "update", "readd"], r.randint(3, 8))
        for q in steps:
            if q in ("all", "due"):
                got = st.get_all_tasks() if q == "all" else st.get_due_tasks(now)
                want = {i: v for i, (v, n) in good.items() if q == "all" or (n is not None and n <= now)}
                case.eq({t.id: view(t) for t in got}, want, f"{kind}: {q} tasks next to bad records {bad}")
                case.count("never_shown", len(bad))
                case.count("others_intact")
            elif q == "next":
                st.get_next_run_time()
            elif q == "lookup":
                tid = r.choice(ids)
                try:
                    t = st.lookup_task(tid)
                except Exception:  # refusing loudly is as good as not finding it
                    case.check(tid in bad, f"{kind}: lookup of the good record {tid} fails")
                    case.count("lookup_refused")
                    t = None
                case.eq(t and view(t), good[tid][0] if tid in good else None, f"{kind}: lookup of {tid} ({bad.get(tid, 'good')})")
                case.count("never_shown", tid in bad)
            elif q == "delete" and bad:
                tid = r.choice(sorted(bad))
                try:
                    st.delete_task(tid)
                except TaskLookupError:
                    pass
                case.check(tid not in b.records(), f"{kind}: bad record {tid} ({bad[tid]}) is still there after deleting it")
                bad.pop(tid)
            elif q == "update" and bad:  # overwritten by a good one, or already gone
                tid = r.choice(sorted(bad))
                t = mk(sched, tid, "new" + tid, r, base)
                try:
                    st.update_task(t)
                    good[tid] = (view(t), base)
                    bad.pop(tid)
                except TaskLookupError:
                    case.check(tid not in b.records(), f"{kind}: update of {tid} says unknown, its record is there")
            elif q == "readd" and bad:
                tid = r.choice(sorted(bad))
                t = mk(sched, tid, "new" + tid, r, base)
                try:
                    st.add_task(t)
                    good[tid] = (view(t), base)
                    bad.pop(tid)
                except ConflictIdError:
                    case.check(tid in b.records(), f"{kind}: adding {tid} conflicts with nothing")
        case.eq({t.id: view(t) for t in st.get_all_tasks()}, {i: v for i, (v, n) in good.items()}, f"{kind}: tasks at the end next to {bad}")
        st.remove_all_tasks()
        case.eq(st.get_all_tasks(), [], f"{kind}: tasks after removing all")
    finally:
        set_key(old)
        b.close()


def live(case):
    """A running scheduler whose store is tampered with."""
    r = case.rng
    blocked = Blocked()
    old = os.environ.get(KEY)
    key = r.choice([None, "k", "kk"])
    set_key(key)

    async def main(w):
        import asyncio

        from asyncz.events.constants import TASK_MAX_INSTANCES, TASK_SUBMITTED
        from asyncz.executors.asyncio import AsyncIOExecutor

        sim = w.sim
        kind = r.choice(PERSISTENT)
        b = w.backend("default", kind)
        ledgers, errs, bad = {}, [], {}

        def on_event(ev):
            if ev.code in (TASK_SUBMITTED, TASK_MAX_INSTANCES):
                try:
                    case.check(ev.task_id not in bad, f"{kind}: {ev.task_id} was handed over from a bad record ({bad.get(ev.task_id)})")
                    ledgers[ev.task_id].event(sim.us, ev, "handed")
                    case.count("live_handed")
                except BaseException as exc:
                    errs.append(exc)

        s = w.scheduler(stores={"default": b.store()}, executors={"default": AsyncIOExecutor()})
        s.add_listener(on_event)
        await w.start(s)
        helper = b.store()
        helper.start(StubScheduler(UTC), "s")
        case.describe(kind=kind, key=key, zone=str(w.tz), base=str(sim.now()), tasks={}, bad=[])

        def add(tid):
            trig, desc = gen.trigger(r, w.tz, sim.now(), 1, 0, pure=True)
            first = trig.get_next_trigger_time(w.tz, None, sim.now())
            if first is None:
                return
            co = r.random() < 0.5
            case.desc["tasks"][tid] = f"{desc} {co}"
            ledgers[tid] = Ledger(case, tid, trig, first, w.tz, co, sim.us, blocked)
            s.add_task(r.choice([fns.work, fns.awork]), trig, args=[tid], id=tid, coalesce=co, mistrigger_grace_time=None, max_instances=50)

        for i in range(r.randint(2, 5)):
            add(f"t{i}")
        calls = {}
        for _ in range(r.randint(2, 5)):
            await asyncio.sleep(r.choice([5, 40, 120, 300]) + r.choice([0, 0.25]))
            await sim.settle(12)
            if errs:
                raise errs[0]
            recs = b.records()
            live_ids = [i for i in ledgers if i in recs and i not in bad and (ledgers[i].next is not None and us(ledgers[i].next) > sim.us)]
            act = r.choice(["bad", "bad", "new bad", "list"])
            if act == "bad" and live_ids:
                tid = r.choice(live_ids)
                nrt = ledgers[tid].next
            elif act == "new bad":
                tid = f"x{len(bad)}"
                nrt = sim.now() + timedelta(seconds=r.choice([0, 3, -3, 50]))
            else:
                got = {t.id for t in s.get_tasks()}
                want = {i for i, l in ledgers.items() if l.next is not None and us(l.next) > sim.us and i not in bad}
                case.check(want <= got, f"{kind}: tasks {want - got} are not listed next to bad records {bad}")
                case.check(not (got & set(bad)), f"{kind}: bad records are listed: {got & set(bad)}")
                continue
            name, blob = r.choice(bad_blobs(r, helper, s, tid, nrt, key))
            b.put(tid, blob, nrt.timestamp())
            bad[tid] = name
            case.desc["bad"].append((tid, name, str(nrt)))
            case.count("live_tampered")
            calls[tid] = sim.ncalls.get(tid, 0)
            if r.random() < 0.5:
                s.wakeup()
        await asyncio.sleep(r.choice([60, 400]))
        await sim.settle(12)
        if errs:
            raise errs[0]
        end = sim.us
        for tid, led in ledgers.items():
            if tid not in bad:
                led.finish(end)
        s.pause()
        await sim.settle(12)
        got = {t.id for t in s.get_tasks()}
        case.eq(got, {i for i, l in ledgers.items() if l.next is not None and i not in bad}, f"{kind}: tasks at the end next to {bad}")
        for tid, n in calls.items():
            case.check(sim.ncalls.get(tid, 0) == n, f"{kind}: {tid} was called from a bad record")
        case.check(not sim.ncalls.get("arg-evil"), f"{kind}: a bad record was executed")
        case.check(not sim.loop_errors, f"error in the event loop: {sim.loop_errors[:2]}")
        await w.stop(s)
        case.trivial = not bad

    try:
        run_world(case, main)
    finally:
        set_key(old)


def run(ctx):
    clock.set_dt(D.datetime(2024, 3, 10, 10, 0, 0, tzinfo=UTC))
    ctx.cases("sealed", sealed, quick=200, thorough=2000)
    ctx.cases("tamper", tamper, quick=1600, thorough=15000)
    ctx.cases("live", live, quick=600, thorough=4000)
