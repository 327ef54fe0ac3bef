"""C13: any-of / all-of combinations and jitter."""
import datetime as D
import pickle
from datetime import timedelta

from rv import clock, gen
from rv import models as M

RULE = ("a case builds an any-of or all-of combination (2-4 interval, cron, date or nested parts, optional jitter, bounds, pickling) or a "
        "jittered interval/cron trigger, walks its fire times and compares with the parts' models; non-trivial when a fire time was "
        "compared; distinct by parameters and answers")
ASSUMPTIONS = ["rv/models.py gives the parts' fire times", "all-of cases whose parts do not agree within 600 model steps are not judged",
               "an any-of asks every part with the same previous fire time (documented call-level behaviour)"]
REQUIRE = {"or_compared": 4000, "and_compared": 3000, "and_finished": 150, "or_finished": 50, "jittered": 4000, "jitter_delayed": 1500, "jitter_end_hit": 100}
UTC = D.timezone.utc


class Part:
    def __init__(self, trig, model, desc):
        self.trig, self.model, self.desc = trig, model, desc


class OrModel:
    def __init__(self, parts):
        self.parts = parts

    def next(self, prev, now):
        xs = [nxt(p, prev, now) for p in self.parts]
        xs = [x for x in xs if x is not None]
        return "far" if "far" in xs else (min(xs) if xs else None)


def nxt(part, prev, now):
    m = part.model
    if isinstance(m, M.CronModel):
        return m.next(prev + M.US if prev is not None else now)
    return m.next(prev, now)


class AndModel:
    def __init__(self, parts):
        self.parts = parts

    def next(self, prev, now):
        xs = [nxt(p, prev, now) for p in self.parts]
        for _ in range(600):
            if "far" in xs:
                return "far"
            if None in xs:
                return None
            if min(xs) == max(xs):
                return xs[0]
            x = max(xs)
            new = []
            for p in self.parts:
                y = nxt(p, None, x)
                if y is not None and y != "far" and y < x:
                    y = None  # a moment that has passed
                new.append(y)
            xs = new
        return "far"


def simple_cron(r):
    f = {}
    if r.random() < 0.25:
        f["day_of_week"] = gen.cron_expr(r, "day_of_week", True)
    if r.random() < 0.6:
        f["hour"] = r.choice(["*", "*/2", "*/3", str(r.randint(0, 23)), "8-18"])
    f["minute"] = r.choice(["0", "*/5", "*/10", "*/15", "30", "*", str(r.randint(0, 59))])
    if r.random() < 0.2:
        f["second"] = r.choice(["0", "*/30", "15"])
    return f


def leaf(case, tz, base, kinds=("interval", "cron", "date"), grid=None, end=None):
    from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger

    r = case.rng
    k = r.choice(kinds)
    kw = {}
    if end is not None:
        kw["end_at"] = end
    elif r.random() < 0.2:
        kw["end_at"] = base + timedelta(seconds=r.randint(0, 200000))
    if k == "interval":
        mins = r.choice([1, 5, 10, 15, 30, 60, 120, 180]) if grid else r.randint(1, 300)
        start = (grid or base) + timedelta(minutes=mins * r.randint(0, 6)) + (timedelta(0) if grid else timedelta(seconds=r.randint(-5000, 5000)))
        t = IntervalTrigger(minutes=mins, start_at=gen.express(r, start, tz), timezone=tz, **kw)
        return Part(t, M.IntervalModel(timedelta(minutes=mins), start, kw.get("end_at")), f"interval {mins} min from {start} {kw}")
    if k == "cron":
        f = simple_cron(r)
        return Part(CronTrigger(timezone=tz, **f, **kw), M.CronModel(f, tz, None, kw.get("end_at")), f"cron {f} {kw}")
    at = (grid or base) + timedelta(minutes=r.choice([0, 5, 60, 600, -30, r.randint(-1000, 1000)]))
    return Part(DateTrigger(run_at=at), M.DateModel(at), f"date {at}")


def near_gap(parts, g, jitter):
    models = [q.model for p in parts for q in ([p] + (getattr(p.model, "parts", None) or []))]
    g = g.replace(microsecond=0)
    return any(isinstance(m, M.CronModel) and any(m.is_gap_shift(g - timedelta(seconds=k)) for k in range(0, jitter + 1)) for m in models)


def combo_case(case):
    from asyncz.triggers import AndTrigger, OrTrigger

    r = case.rng
    tz = gen.zone(r, ("zi", "zi", "fixed"))
    base = gen.instant(r, tz, 0.4).replace(microsecond=0, second=0, minute=0)
    clock.set_dt(base)
    kind = r.choice(["or", "and"])
    n = r.randint(1, 4)
    grid = base if kind == "and" or r.random() < 0.3 else None
    kinds = ("interval", "cron", "cron") if kind == "and" and r.random() < 0.85 else ("interval", "cron", "date")
    parts = [leaf(case, tz, base, kinds, grid) for _ in range(n)]
    if r.random() < 0.2:
        inner = parts[: max(1, n - 1)]
        if kind == "or" and r.random() < 0.5:
            parts = [Part(AndTrigger(triggers=[p.trig for p in inner]), AndModel(inner), f"and{[p.desc for p in inner]}"), *parts[len(inner):]]
        else:
            parts = [Part(OrTrigger(triggers=[p.trig for p in inner]), OrModel(inner), f"or{[p.desc for p in inner]}"), *parts[len(inner):]]
    jitter = r.choice([None, None, None, 0, 5, 600])
    cls, model = (OrTrigger, OrModel(parts)) if kind == "or" else (AndTrigger, AndModel(parts))
    t = cls(triggers=[p.trig for p in parts], jitter=jitter)
    case.describe(kind=kind, parts=[p.desc for p in parts], jitter=jitter, zone=str(tz))
    if r.random() < 0.25:
        t = pickle.loads(pickle.dumps(t))
    desc = f"{kind} {[p.desc for p in parts]} jitter={jitter}"
    prev, now = None, base + timedelta(minutes=r.choice([0, 0, 7, -100, 90]))
    jittered_prev = False
    for _ in range(r.choice([2, 4, 7])):
        want = model.next(prev, now)
        if want == "far":
            case.count("not_judged")
            break
        got = t.get_next_trigger_time(tz, gen.express(r, prev, tz) if prev is not None else None, gen.express(r, now, tz))
        case.log.append(str(got))
        case.count(f"{kind}_compared")
        if want is None or got is None:
            case.check(want is None and got is None, f"{desc}: previous={prev} now={now} yields {got}, expected {want}")
            case.count(f"{kind}_finished")
            break
        g = got.astimezone(UTC)
        if jitter:
            if not timedelta(0) <= g - want <= timedelta(seconds=jitter) and g < want and near_gap(parts, g, jitter):
                case.count("gap_shifted")
                break
            case.check(timedelta(0) <= g - want <= timedelta(seconds=jitter), f"{desc}: previous={prev} now={now} yields {g}, expected {want} delayed by at most {jitter} s")
            case.count("jittered")
            if g > want:
                case.count("jitter_delayed")
            if kind == "and":
                break
            prev = g
            jittered_prev = True
        else:
            shift = g != want and near_gap(parts, g, 0)
            if g != want and shift:
                case.count("gap_shifted")
                break
            case.check(g == want, f"{desc}: previous={prev} now={now} yields {g}, expected {want}")
            prev = g
        now = max(now, prev + timedelta(seconds=r.choice([0, 0, 1, 600])))
    del jittered_prev


def jitter_case(case):
    from asyncz.triggers import CronTrigger, IntervalTrigger

    r = case.rng
    tz = gen.zone(r)
    base = gen.instant(r, tz).replace(microsecond=0)
    clock.set_dt(base)
    j = r.choice([1, 2, 10, 60, 3600])
    end = base + timedelta(seconds=r.choice([0, 30, 600, 5000, 90000])) if r.random() < 0.5 else None
    kw = {"end_at": end} if end is not None else {}
    kind = r.choice(["interval", "cron"])
    if kind == "interval":
        sec = r.choice([1, 30, 600, 5000])
        t = IntervalTrigger(seconds=sec, start_at=base, timezone=tz, jitter=j, **kw)
        model = M.IntervalModel(timedelta(seconds=sec), base)
        desc = f"interval {sec} s jitter={j} end={end}"
    else:
        f = simple_cron(r)
        t = CronTrigger(timezone=tz, jitter=j, **f, **kw)
        model = M.CronModel(f, tz)
        desc = f"cron {f} jitter={j} end={end}"
    if r.random() < 0.3:
        t = pickle.loads(pickle.dumps(t))
    case.describe(trigger=desc, base=str(base), zone=str(tz))
    prev, now = None, base
    for _ in range(r.choice([3, 8])):
        want = model.next(prev + M.US if prev is not None else now) if kind == "cron" else model.next(prev, now)
        if want == "far" or want is None:
            break
        got = t.get_next_trigger_time(tz, gen.express(r, prev, tz) if prev is not None else None, gen.express(r, now, tz))
        case.log.append(str(got))
        case.count("jittered")
        if got is None:
            if kind == "cron":
                gap = end is not None and any(model.is_gap_shift(want + timedelta(hours=h)) for h in (0, 1))
                case.check(end is not None and (want > end or gap), f"{desc}: previous={prev} now={now} yields nothing, expected from {want}")
            else:  # a delayed fire may fall behind the end
                case.check(end is not None and want + timedelta(seconds=j) > end, f"{desc}: previous={prev} now={now} yields nothing, expected from {want}")
            case.count("jitter_end_hit")
            break
        g = got.astimezone(UTC)
        if end is not None:
            case.check(g <= end, f"{desc}: previous={prev} now={now} yields {g}, past its end")
            if g == end:
                case.count("jitter_end_hit")
        lo, hi = want, want + timedelta(seconds=j)
        ok = lo <= g <= hi
        if not ok and kind == "cron":  # the shifted reading of a removed local time
            ok = any(model.is_gap_shift(g.replace(microsecond=0) - timedelta(seconds=k)) for k in range(0, j + 1, 1 if j < 100 else 1))
        case.check(ok, f"{desc}: previous={prev} now={now} yields {g}, expected between {lo} and {hi}")
        if g > lo:
            case.count("jitter_delayed")
        prev = g
        now = max(now, g + timedelta(seconds=r.choice([0, 1, 400])))


def run(ctx):
    ctx.cases("combo", combo_case, quick=4000, thorough=150000)
    ctx.cases("jitter", jitter_case, quick=2500, thorough=80000)
