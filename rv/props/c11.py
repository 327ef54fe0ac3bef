"""C11: interval and date triggers against an exact-arithmetic model."""
import datetime as D
import pickle
from datetime import timedelta

from rv import clock, gen
from rv import models as M

RULE = ("a case builds one interval (or date) trigger from randomised units, bounds (aware, naive, string, date, none) and time zone "
        "(zoneinfo, pytz, fixed offset, near clock changes) and asks it for a chain of fire times, each instant expressed in a random "
        "zone, possibly after pickling; non-trivial when at least one fire time was compared with the model; distinct by parameters and answers")
ASSUMPTIONS = ["the model (rv/models.py) does exact timedelta arithmetic on UTC instants", "zoneinfo, pytz and pickle are correct"]
REQUIRE = {"fire_times_compared": 4000, "exhausted": 100, "chains_across_clock_change": 100, "restored": 200, "dates": 300}

UTC = D.timezone.utc


def bound(r, dt, tz, allow_str=True):
    """A way to write instant dt as a trigger bound, or None if this way cannot."""
    k = r.randint(0, 3 if allow_str else 1)
    if k == 0:
        return gen.express(r, dt, tz)
    n = gen.unambiguous_naive(dt, tz)
    if n is None:
        return gen.express(r, dt, tz)
    if k == 1:
        return n
    if k == 2:
        return n.isoformat(r.choice([" ", "T"]))
    u = dt.astimezone(UTC).replace(tzinfo=None)
    if r.random() < 0.5:
        return u.isoformat(" ") + "Z"
    m = r.choice([-330, -60, 60, 345])
    return (u + timedelta(minutes=m)).isoformat("T") + f"{'+' if m >= 0 else '-'}{abs(m) // 60:02d}:{abs(m) % 60:02d}"


def interval_case(case):
    from asyncz.triggers import IntervalTrigger

    r = case.rng
    tz = gen.zone(r)
    sched_tz = tz if r.random() < 0.7 else gen.zone(r)
    kw = {}
    for unit, hi in (("weeks", 3), ("days", 9), ("hours", 30), ("minutes", 90), ("seconds", 4000)):
        if r.random() < 0.35:
            kw[unit] = r.randint(0, hi)
    if r.random() < 0.1:
        kw["seconds"] = r.choice([0.5, 0.25, 1.5, 0.1])
    interval = timedelta(**kw)
    if interval == timedelta(0):
        interval = timedelta(seconds=1)
    base = gen.instant(r, tz)
    clock.set_dt(base)
    args = dict(kw)
    explicit_tz = r.random() < 0.6
    ztz = tz if explicit_tz else sched_tz
    if explicit_tz:
        args["timezone"] = str(tz) if isinstance(tz, type(gen.ZoneInfo("UTC"))) and r.random() < 0.4 else tz
    start = None
    if r.random() < 0.75:
        start = base + timedelta(seconds=r.randint(-400000, 100000))
        args["start_at"] = bound(r, start, ztz)
    end = None
    if r.random() < 0.5:
        ref = start or base
        k = r.randint(0, 2)
        end = ref + (interval * r.randint(0, 6) if k else timedelta(seconds=r.randint(0, 300000)))
        end += timedelta(microseconds=r.choice([0, 0, -1, 1]))
        args["end_at"] = bound(r, end, ztz)
    # a naive or textual bound is read in the trigger's zone: explicit, else that of an aware bound, else the scheduler's
    if not explicit_tz:
        known = [v.tzinfo for v in (args.get("start_at"), args.get("end_at")) if isinstance(v, D.datetime) and v.tzinfo]
        if known:
            for key, inst in (("start_at", start), ("end_at", end)):
                if inst is not None and not (isinstance(args[key], D.datetime) and args[key].tzinfo):
                    args[key] = gen.express(r, inst, ztz)
        if start is None and isinstance(args.get("end_at"), (str,)) and not known:
            args["end_at"] = gen.express(r, end, ztz)
    case.describe(args={k: str(v) for k, v in args.items()}, zone=str(ztz), now=str(base))
    t = IntervalTrigger(**args)
    if start is None:
        start = base + interval
    model = M.IntervalModel(interval, start, end)
    if r.random() < 0.3:
        t = pickle.loads(pickle.dumps(t, r.choice([4, 5])))
        case.count("restored")
    now = base + timedelta(seconds=r.choice([0, 0, 1, -1, r.randint(-500000, 500000)]))
    if r.random() < 0.3:  # exactly on, or next to, the grid
        now = start + interval * r.randint(-2, 40) + timedelta(microseconds=r.choice([0, 0, 1, -1]))
    prev = None
    if r.random() < 0.2:
        prev = now - timedelta(seconds=r.randint(0, 100000))
    offs = set()
    for k in range(r.choice([3, 6, 12])):
        want = model.next(prev, now)
        pw = gen.express(r, prev, ztz) if prev is not None else None
        if r.random() < 0.2:
            clock.set_dt(now)
            got = t.get_next_trigger_time(sched_tz, pw)
        else:
            got = t.get_next_trigger_time(sched_tz, pw, gen.express(r, now, ztz))
        case.log.append(str(got))
        if got is not None:
            case.check(isinstance(got, D.datetime) and got.tzinfo is not None and got.utcoffset() is not None, "fire time without time zone", got=got)
            got_u = got.astimezone(UTC)
            offs.add(got_u.astimezone(ztz).utcoffset())
            case.check(want is not None and got_u == want, f"interval {interval}, start {start}, end {end}: asked with previous={pw} now={now} yields {got} ({got_u}), expected {want}")
        else:
            case.check(want is None, f"interval {interval}, start {start}, end {end}: asked with previous={pw} now={now} yields nothing, expected {want}")
        case.count("fire_times_compared")
        if want is None:
            case.count("exhausted")
            break
        prev = want
        if r.random() < 0.7:
            now = max(now, prev + timedelta(seconds=r.choice([0, 0, 1, 100])))
    if len(offs) > 1:
        case.count("chains_across_clock_change")


def date_case(case):
    from asyncz.triggers import DateTrigger

    r = case.rng
    tz = gen.zone(r)
    at = gen.instant(r, tz)
    k = r.randint(0, 4)
    clock.set_dt(at)
    kw = {}
    if k == 0:
        kw["run_at"] = at.astimezone(tz)
    elif k == 1:
        day = at.astimezone(tz).date()
        ins = M.local_instants(D.datetime(day.year, day.month, day.day), tz)
        if len(ins) != 1:
            case.trivial = True
            return
        at = ins[0]
        kw.update(run_at=day, timezone=tz)
    elif k == 2:
        kw["timezone"] = tz
    else:
        kw.update(run_at=bound(r, at, tz), timezone=tz)
    case.describe(**{x: str(v) for x, v in kw.items()})
    t = DateTrigger(**kw)
    if r.random() < 0.3:
        t = pickle.loads(pickle.dumps(t))
        case.count("restored")
    for _ in range(2):
        now = gen.express(r, at + timedelta(seconds=r.randint(-1000, 1000)), tz)
        got = t.get_next_trigger_time(gen.zone(r), None, now)
        case.check(got is not None and got.tzinfo is not None and got.astimezone(UTC) == at, f"date trigger {kw} yields {got}, expected {at}")
        case.check(t.get_next_trigger_time(gen.zone(r), gen.express(r, at, tz), now) is None, f"date trigger {kw} yields a second time")
        case.count("fire_times_compared")
        case.count("dates")
    case.log.append(str(got))


def run(ctx):
    ctx.cases("interval", interval_case, quick=6000, thorough=200000)
    ctx.cases("date", date_case, quick=1500, thorough=30000)
