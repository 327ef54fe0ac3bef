"""C12: cron triggers against an independent matcher, across clock changes."""
import datetime as D
import pickle
from datetime import timedelta

from rv import clock, gen
from rv import models as M

RULE = ("a case builds a cron trigger from random expressions over all fields and forms (or a crontab line), a zone (zoneinfo, pytz, fixed) "
        "and bounds, and walks its fire times from an instant mostly near a clock change; other cases feed malformed expressions; "
        "non-trivial when a fire time was compared or an expression judged; distinct by fields, zone and answers")
ASSUMPTIONS = ["rv/models.py CronModel enumerates local days and times and maps them to instants by round trip through the zone",
               "a matching local time removed by a forward clock change may fire at its shifted instant or not at all",
               "instants beyond a 12 year horizon are not judged"]
REQUIRE = {"fire_times_compared": 15000, "exhausted": 200, "repeated_hour_fires": 200, "chains_across_clock_change": 300,
           "rejected": 1500, "crontab": 500, "gap_cases": 300}

UTC = D.timezone.utc


def special_fields(r, tz):
    """Fields picked so that they match local times removed or repeated by a clock change of tz."""
    ts = gen.transitions(tz)
    t = r.choice(ts)
    before = (t - timedelta(seconds=1)).astimezone(tz).utcoffset()
    off = r.choice([before, t.astimezone(tz).utcoffset()])
    loc = (t + off + timedelta(minutes=r.randint(-75, 75))).replace(tzinfo=None, microsecond=0)
    f = {}
    if r.random() < 0.3:
        f["month"] = loc.month
    if r.random() < 0.4:
        f["day"] = r.choice([str(loc.day), f"{max(1, loc.day - 1)}-{min(28, loc.day) if loc.day <= 28 else loc.day}"])
    if r.random() < 0.2:
        f["day_of_week"] = loc.weekday()
    f["hour"] = r.choice([str(loc.hour), "*", f"{max(0, loc.hour - 1)}-{loc.hour}", f"{loc.hour},{(loc.hour + 1) % 24}"])
    f["minute"] = r.choice([str(loc.minute), "*", "*/15", "0", "59", f"{min(loc.minute, 50)}-{min(loc.minute, 50) + 5}"])
    if r.random() < 0.2:
        f["second"] = r.choice(["0", "59", "*/20"])
    return f, t - timedelta(seconds=r.randint(0, 100000)) + timedelta(seconds=r.choice([0, 90000]))


def walk(case, t, model, tz, now, steps, desc):
    r = case.rng
    prev = None
    if r.random() < 0.15:
        prev = now
        now = now + timedelta(seconds=r.choice([0, 0, 30, 5000]))
    offs = set()
    for _ in range(steps):
        lower = (prev + M.US) if prev is not None else now
        want = model.next(lower)
        if want == "far":
            case.count("beyond_horizon")
            break
        pw = gen.express(r, prev, tz) if prev is not None else None
        if r.random() < 0.15:
            clock.set_dt(now)
            got = t.get_next_trigger_time(tz, pw)
        else:
            got = t.get_next_trigger_time(tz, pw, gen.express(r, now, tz))
        case.log.append(str(got))
        case.count("fire_times_compared")
        if got is None:
            case.check(want is None, f"{desc}: with previous={pw} now={now} yields nothing, expected {want} = {want and want.astimezone(tz)}")
            case.count("exhausted")
            break
        case.check(isinstance(got, D.datetime) and got.utcoffset() is not None, "fire time without time zone", got=got)
        g = got.astimezone(UTC)
        if g != want:
            ok = (want is None or g < want) and g >= lower and model.is_gap_shift(g) and (model.end is None or g <= model.end.astimezone(UTC))
            case.check(ok, f"{desc}: with previous={pw} now={now} yields {got} = {g}, expected {want} = {want and want.astimezone(tz)}")
            case.count("gap_shifted")
        else:
            case.check(True, "")
        loc = g.astimezone(tz)
        ins = M.local_instants(loc.replace(tzinfo=None, fold=0), tz)
        if len(ins) == 2 and g == ins[1]:
            case.count("repeated_hour_fires")
        offs.add(loc.utcoffset())
        prev = g
        if r.random() < 0.6:
            now = max(now, prev + timedelta(seconds=r.choice([0, 0, 1, 100, 4000])))
        elif now < prev:
            now = prev
    if len(offs) > 1:
        case.count("chains_across_clock_change")


def bounds(r, now, tz, args):
    start = end = None
    if r.random() < 0.25:
        start = now + timedelta(seconds=r.randint(-50000, 300000), microseconds=r.choice([0, 0, 1]))
        n = gen.unambiguous_naive(start, tz)
        args["start_at"] = n if n is not None and r.random() < 0.4 else gen.express(r, start, tz)
    if r.random() < 0.25:
        end = max(now, start or now) + timedelta(seconds=r.choice([0, 3600, 86400, r.randint(0, 4000000)]))
        end = end.replace(microsecond=0) if r.random() < 0.7 else end
        n = gen.unambiguous_naive(end, tz)
        args["end_at"] = n if n is not None and r.random() < 0.4 else gen.express(r, end, tz)
    return start, end


def fields_case(case):
    from asyncz.triggers import CronTrigger

    r = case.rng
    special = r.random() < 0.4
    if special:
        tz = gen.zone(r, ("zi", "zi", "pytz"))
        while not gen.transitions(tz):
            tz = gen.zone(r, ("zi", "zi", "pytz"))
        fields, now = special_fields(r, tz)
        case.count("gap_cases")
    else:
        tz = gen.zone(r)
        fields = gen.cron_fields(r)
        now = gen.instant(r, tz)
    args = {}
    start, end = bounds(r, now, tz, args)
    explicit = r.random() < 0.7 or any(isinstance(v, D.datetime) and v.tzinfo is not None for v in args.values())
    if explicit:
        args["timezone"] = tz.key if hasattr(tz, "key") and r.random() < 0.3 else tz
    case.describe(fields=fields, zone=str(tz), now=str(now), bounds={k: str(v) for k, v in args.items()})
    t = CronTrigger(**fields, **args)
    if r.random() < 0.2:
        t = pickle.loads(pickle.dumps(t))
    model = M.CronModel(fields, tz, start, end)
    walk(case, t, model, tz, now, r.choice([2, 4, 10]), f"cron {fields} {args}")


def crontab_case(case):
    from asyncz.triggers import CronTrigger

    r = case.rng
    tz = gen.zone(r)
    names = ["minute", "hour", "day", "month", "day_of_week"]
    vals = []
    for f in names:
        e = gen.cron_expr(r, f, simple=r.random() < 0.7) if r.random() < 0.6 else "*"
        e = ",".join(x.strip() for x in e.split(","))
        vals.append("*" if " " in e else e)
    line = r.choice([" ", "  ", "\t"]).join(vals)
    now = gen.instant(r, tz)
    case.describe(line=line, zone=str(tz), now=str(now))
    t = CronTrigger.from_crontab(line, timezone=tz)
    case.count("crontab")
    walk(case, t, M.CronModel(dict(zip(names, vals)), tz), tz, now, r.choice([2, 5]), f"crontab '{line}'")


def bad_expr(r, f):
    lo, hi = M.MIN[f], M.MAX[f]
    k = r.randint(0, 11)
    a = r.randint(lo, hi - 1)
    if k == 0:
        return str(hi + r.choice([1, 2, 50]))
    if k == 1:
        return f"{a + 1}-{a}"
    if k == 2:
        return f"{a}-{hi + 1}"
    if k == 3:
        return f"*/{(hi - lo) + r.randint(1, 5)}"
    if k == 4:
        return "*/0"
    if k == 5 and lo > 0:
        return str(lo - 1)
    if k == 6:
        return r.choice(["", "abc", "-", "-5", "1-", "*-3", "*/", "/2", "1//2", "1/2/3", "1-2-3", "#", "1.5", "* *", "1 2", "**"])
    if k == 7 and f in ("month", "day_of_week"):
        return r.choice(["foo", "jan-foo" if f == "month" else "mon-foo", "mon" if f == "month" else "jan",
                         "mar-jan" if f == "month" else "sun-mon", "january", "dec/2" if f == "month" else "mon/2",
                         "jan-mar/2" if f == "month" else "mon-fri/2", "jan-" if f == "month" else "tue-"])
    if k == 8 and f == "day":
        return r.choice(["6th mon", "1st foo", "0th fri", "lastx", "last fo", "2nd", "2nd mon/2", "last mon tue", "31 mon", "1st 3"])
    if k == 9:
        return f"{lo + 1}-{lo + 3}/{r.randint(3, 9)}"
    if k == 10:
        return f"{lo},{hi + 1}"
    return f"{hi - 2}/{r.randint(3, 9)}"


def reject_case(case):
    from asyncz.triggers import CronTrigger

    r = case.rng
    f = r.choice(M.ORDER)
    e = bad_expr(r, f)
    others = {g: gen.cron_expr(r, g) for g in r.sample(M.ORDER, 2) if g != f}
    fields = {**others, f: e}
    case.describe(field=f, expression=e, others=others)
    try:
        if r.random() < 0.2 and f in ("minute", "hour", "day", "month", "day_of_week") and " " not in e and e:
            line = " ".join(e if f == g else "*" for g in ("minute", "hour", "day", "month", "day_of_week"))
            t = CronTrigger.from_crontab(line)
        else:
            t = CronTrigger(**fields)
    except Exception:
        case.count("rejected")
        case.check(True, "")
        return
    case.fail(f"{f} expression {e!r} is accepted (as {t!r})")


def crontab_bad(case):
    from asyncz.triggers import CronTrigger

    r = case.rng
    n = r.choice([0, 1, 3, 4, 6, 7])
    line = " ".join(["*"] * n)
    case.describe(line=line)
    try:
        t = CronTrigger.from_crontab(line)
    except Exception:
        case.count("rejected")
        case.check(True, "")
        return
    case.fail(f"crontab line of {n} fields is accepted as {t!r}")


def run(ctx):
    ctx.cases("fields", fields_case, quick=9000, thorough=300000)
    ctx.cases("crontab", crontab_case, quick=2000, thorough=60000)
    ctx.cases("reject", reject_case, quick=3000, thorough=50000)
    ctx.cases("crontab_bad", crontab_bad, quick=40, thorough=100)
