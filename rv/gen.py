"""Shared generators: time zones, instants near clock changes, cron expressions, triggers."""
from __future__ import annotations

import datetime as D
from datetime import timedelta
from zoneinfo import ZoneInfo

import pytz

from rv import models as M

UTC = D.timezone.utc
ZONES = ["UTC", "America/New_York", "Europe/London", "Europe/Berlin", "Australia/Lord_Howe", "America/Sao_Paulo",
         "America/Toronto", "Africa/Casablanca", "Asia/Kathmandu", "America/Havana", "Pacific/Apia", "Asia/Beirut",
         "Asia/Tokyo", "America/Los_Angeles"]
DST_ZONES = [z for z in ZONES if z not in ("UTC", "Asia/Tokyo", "Asia/Kathmandu")]


def zone(r, kinds=("zi", "zi", "zi", "pytz", "fixed")):
    k = r.choice(kinds)
    if k == "fixed":
        return D.timezone(timedelta(minutes=r.choice([-720, -570, -60, 0, 0, 30, 330, 345, 840])))
    z = r.choice(ZONES if r.random() < 0.4 else DST_ZONES)
    return pytz.timezone(z) if k == "pytz" else ZoneInfo(z)


_trans = {}


def transitions(tz, y0=1990, y1=2032):
    """Instants (UTC) at which the offset of tz changes."""
    key = str(tz)
    if key not in _trans:
        out = []
        t = D.datetime(y0, 1, 1, tzinfo=UTC)
        end = D.datetime(y1, 1, 1, tzinfo=UTC)
        step = timedelta(days=7)
        while t < end:
            n = t + step
            if t.astimezone(tz).utcoffset() != n.astimezone(tz).utcoffset():
                lo, hi = t, n
                while hi - lo > timedelta(seconds=1):
                    mid = lo + (hi - lo) / 2
                    mid = mid.replace(microsecond=0)
                    if mid in (lo, hi):
                        break
                    if mid.astimezone(tz).utcoffset() == lo.astimezone(tz).utcoffset():
                        lo = mid
                    else:
                        hi = mid
                out.append(hi)
            t = n
        _trans[key] = out
    return _trans[key]


def instant(r, tz=None, near_dst=0.6):
    if tz is not None and r.random() < near_dst:
        ts = transitions(tz)
        if ts:
            t = r.choice(ts)
            k = r.randint(0, 3)
            span = [120, 7200, 40000, 200000][k]
            return t + timedelta(seconds=r.randint(-span, span // 2), microseconds=r.choice([0, 0, 0, 1, 999999, r.randint(0, 999999)]))
    return D.datetime(r.randint(1995, 2030), 1, 1, tzinfo=UTC) + timedelta(
        seconds=r.randint(0, 366 * 86400), microseconds=r.choice([0, 0, 1, 500000, r.randint(0, 999999)]))


def express(r, dt, tz=None):
    """The same instant, written in some time zone."""
    k = r.randint(0, 3)
    if k == 0:
        return dt.astimezone(UTC)
    if k == 1 and tz is not None:
        return dt.astimezone(tz)
    if k == 2:
        return dt.astimezone(ZoneInfo(r.choice(ZONES)))
    return dt.astimezone(zone(r))


def unambiguous_naive(dt, tz):
    """Local reading of dt in tz, or None when that reading does not identify it."""
    n = dt.astimezone(tz).replace(tzinfo=None, fold=0)
    return n if len(M.local_instants(n, tz)) == 1 else None


def cron_expr(r, f, simple=False):
    lo, hi = M.MIN[f], M.MAX[f]
    if f == "year":
        lo, hi = 1995, 2035

    def one():
        k = r.randint(0, 8)
        if k == 0:
            return "*"
        if k == 1:
            return f"*/{r.randint(1, min(M.MAX[f] - M.MIN[f], 13))}"
        a, b = sorted((r.randint(lo, hi), r.randint(lo, hi)))
        if k in (2, 3):
            return str(a)
        if k == 4:
            if b - a >= 1:
                return f"{a}-{b}/{r.randint(1, b - a)}"
            return str(a)
        if k == 5 and hi - a >= 1:
            return f"{a}/{r.randint(1, hi - a)}"
        if k == 6 and f == "day":
            j = r.randint(0, 2)
            if j == 0:
                return r.choice(["last", "LAST", "Last"])
            return f"{r.choice(M.POS)}{' ' * r.randint(1, 2)}{r.choice(M.DOW)}"
        if k in (6, 7) and f in ("month", "day_of_week"):
            names = M.MON if f == "month" else M.DOW
            x, y = sorted((r.randrange(len(names)), r.randrange(len(names))))
            t = names[x] if r.random() < 0.5 else f"{names[x]}-{names[y]}"
            return r.choice([t, t.upper(), t.title()]) if "-" not in t else t
        return f"{a}-{b}"

    n = 1 if simple or r.random() < 0.6 else r.randint(2, 3)
    return r.choice([",", ", ", " , "]).join(one() for _ in range(n))


def cron_fields(r):
    k = r.randint(1, 5)
    fs = r.sample(M.ORDER, k)
    if "year" in fs and r.random() < 0.6:
        fs.remove("year")
        fs.append(r.choice(["minute", "hour"]))
    fields = {}
    for f in M.ORDER:
        if f in fs:
            e = cron_expr(r, f)
            fields[f] = int(e) if e.isdigit() and r.random() < 0.5 else e
    return fields


def trigger(r, tz, base, depth=1, jitter=0.0, pure=False, fast=True):
    """A random trigger (library object) around `base`, with a description.

    pure: only parts whose chain depends on the previous fire alone (no date parts inside combinations).
    """
    from asyncz.triggers import AndTrigger, CronTrigger, DateTrigger, IntervalTrigger, OrTrigger

    k = r.choices(["interval", "cron", "date", "or", "and"], [5, 5, 1.5, 1.2 if depth else 0, 1.2 if depth else 0])[0]
    kw = {}
    if r.random() < jitter:
        kw["jitter"] = r.choice([1, 7, 60])
    if k in ("interval", "cron"):
        if r.random() < 0.25:
            kw["end_at"] = express(r, base + timedelta(seconds=r.choice([0, 60, 600, 1500, 4000, 86400])), tz)
        if r.random() < 0.2:
            kw["start_at"] = express(r, base + timedelta(seconds=r.choice([-7200, -60, 0, 61, 900, 1800])), tz)
    if k == "interval":
        per = r.choice([dict(seconds=r.randint(1, 20)), dict(seconds=r.randint(20, 600)), dict(minutes=r.randint(1, 15)),
                        dict(minutes=1, seconds=r.randint(0, 59)), dict(hours=1), dict(weeks=1, days=1)] if not fast else
                       [dict(seconds=r.randint(1, 60)), dict(seconds=r.randint(20, 600)), dict(minutes=r.randint(1, 10)), dict(minutes=1, seconds=r.randint(0, 59))])
        t = IntervalTrigger(timezone=tz, **per, **kw)
        return t, f"interval {per} {kw}"
    if k == "cron":
        if r.random() < 0.15:
            s = f"{r.choice(['*', '*/2', '*/7', '0', '15,45'])} {r.choice(['*', '*/3', '8-20'])} * {r.choice(['*', '1-6'])} {r.choice(['*', 'mon-fri', '0'])}"
            return CronTrigger.from_crontab(s, timezone=tz), f"crontab {s}"
        f = r.choice([dict(second=r.choice(["*/5", "*/20", "7,33", "0"])), dict(minute=r.choice(["*", "*/2", "*/5", "3-40/4"])),
                      dict(minute=r.choice(["*", "*/3"]), second=str(r.randint(0, 59))), dict(hour="*", minute=r.choice(["0", "30", "*/10"])),
                      dict(day_of_week=r.choice(["mon-sun", "sat,sun", "mon"]), minute="*/2"), dict(day=r.choice(["*", "last", "2nd sun"]), minute="*/3"),
                      dict(month="1-12", hour="*/2", minute="*/15"), dict(year="2020-2030", minute="*/4"), dict(week="*/2", minute="*/4")])
        return CronTrigger(timezone=tz, **f, **kw), f"cron {f} {kw}"
    if k == "date":
        at = base + timedelta(seconds=r.choice([0, 1, 5, 77, 600, 1799, -5]))
        return DateTrigger(run_at=express(r, at, tz)), f"date {at}"
    if k == "or":
        parts = []
        while len(parts) < r.randint(1, 3):
            p = trigger(r, tz, base, depth - 1, 0, pure, fast)
            if not (pure and p[1].startswith("date")):
                parts.append(p)
        return OrTrigger(triggers=[p[0] for p in parts], **kw), f"or {[p[1] for p in parts]} {kw}"
    fs = [dict(minute=r.choice(["*/2", "*/3", "*", "*/5"])) for _ in range(r.randint(1, 3))]
    return AndTrigger(triggers=[CronTrigger(timezone=tz, **f) for f in fs], **kw), f"and {fs} {kw}"
