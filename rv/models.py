"""Independent reference models: what triggers ought to yield (no library code used)."""
from __future__ import annotations

import calendar
import datetime as D
from datetime import timedelta

UTC = D.timezone.utc
SEC = timedelta(seconds=1)
US = timedelta(microseconds=1)

MIN = dict(year=1970, month=1, day=1, week=1, day_of_week=0, hour=0, minute=0, second=0)
MAX = dict(year=9999, month=12, day=31, week=53, day_of_week=6, hour=23, minute=59, second=59)
ORDER = ("year", "month", "day", "week", "day_of_week", "hour", "minute", "second")
DEFAULT = dict(year="*", month="1", day="1", week="*", day_of_week="*", hour="0", minute="0", second="0")
DOW = ["mon", "tue", "wed", "thu", "fri", "sat", "sun"]
MON = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]
POS = ["1st", "2nd", "3rd", "4th", "5th", "last"]


def utc(dt):
    return dt.astimezone(UTC)


def local_instants(naive, tz):
    """All instants (aware UTC, ascending) whose local time in tz is `naive`."""
    if hasattr(tz, "localize") and hasattr(tz, "zone"):  # pytz
        out = set()
        for is_dst in (True, False):
            u = tz.localize(naive, is_dst=is_dst).astimezone(UTC)
            if u.astimezone(tz).replace(tzinfo=None, fold=0) == naive:
                out.add(u)
        return sorted(out)
    out = set()
    for fold in (0, 1):
        u = naive.replace(tzinfo=tz, fold=fold).astimezone(UTC)
        if u.astimezone(tz).replace(tzinfo=None, fold=0) == naive:
            out.add(u)
    return sorted(out)


# ------------------------------------------------------------------ cron
def _num_or_name(tok, names, base):
    if tok.isdigit():
        return int(tok)
    return names.index(tok.lower()) + base


class CronModel:
    """fields: mapping field name -> expression text (only the given ones)."""

    def __init__(self, fields, tz, start=None, end=None):
        self.tz = tz
        self.start = start  # aware or None
        self.end = end
        given = [f for f in ORDER if f in fields]
        last_given = ORDER.index(given[-1]) if given else -1
        self.expr = {}
        for i, f in enumerate(ORDER):
            if f in fields:
                self.expr[f] = str(fields[f])
            elif given and i > last_given:
                self.expr[f] = DEFAULT[f]
            else:
                self.expr[f] = "*"
        self.sets = {}
        self.daypos = []
        for f in ORDER:
            s = set()
            for part in self.expr[f].split(","):
                part = part.strip()
                step = None
                if f == "day" and (part.lower() == "last" or " " in part):
                    self.daypos.append(part.lower().split())
                    continue
                body = part
                if "/" in part:
                    body, st = part.split("/")
                    step = int(st)
                if body == "*":
                    lo, hi = MIN[f], MAX[f]
                elif "-" in body:
                    a, b = body.split("-")
                    lo, hi = self._val(f, a), self._val(f, b)
                else:
                    lo = self._val(f, body)
                    hi = lo if step is None else MAX[f]
                s.update(range(lo, hi + 1, step or 1))
            self.sets[f] = s
        self.secs = sorted(self.sets["second"])
        self.mins = sorted(self.sets["minute"])
        self.hours = sorted(self.sets["hour"])
        self.years = self.sets["year"]

    @staticmethod
    def _val(f, tok):
        if f == "month" and not tok.isdigit():
            return MON.index(tok.lower()) + 1
        if f == "day_of_week" and not tok.isdigit():
            return DOW.index(tok.lower())
        return int(tok)

    def day_ok(self, d):
        if d.year not in self.years or d.month not in self.sets["month"]:
            return False
        if d.weekday() not in self.sets["day_of_week"] or d.isocalendar()[1] not in self.sets["week"]:
            return False
        if d.day in self.sets["day"]:
            return True
        n = calendar.monthrange(d.year, d.month)[1]
        for p in self.daypos:
            if p == ["last"]:
                if d.day == n:
                    return True
                continue
            pos, wd = POS.index(p[0]), DOW.index(p[1])
            if d.weekday() != wd:
                continue
            if pos < 5 and (d.day - 1) // 7 == pos:
                return True
            if pos == 5 and d.day + 7 > n:
                return True
        return False

    def matches(self, instant):
        loc = instant.astimezone(self.tz)
        return (loc.microsecond == 0 and self.day_ok(loc.date()) and loc.hour in self.sets["hour"]
                and loc.minute in self.sets["minute"] and loc.second in self.sets["second"])

    def _day_first(self, d, lower):
        """Earliest matching instant on local day d that is >= lower (UTC), or None."""
        if not self.day_ok(d):
            return None
        mid = D.datetime(d.year, d.month, d.day)
        try:
            offs = set()
            base = mid.replace(tzinfo=UTC)
            for h in range(-15, 40, 5):
                offs.add((base + timedelta(hours=h)).astimezone(self.tz).utcoffset())
        except OverflowError:
            return None
        if len(offs) == 1:
            off = offs.pop()
            lo = (lower + off).replace(tzinfo=None)
            if lo.microsecond:
                lo = lo.replace(microsecond=0) + SEC
            if lo.date() > d:
                return None
            if lo.date() < d:
                return (D.datetime(d.year, d.month, d.day, self.hours[0], self.mins[0], self.secs[0]) - off).replace(tzinfo=UTC)
            for h in self.hours:
                if h < lo.hour:
                    continue
                for m in self.mins:
                    if h == lo.hour and m < lo.minute:
                        continue
                    for s in self.secs:
                        if (h, m, s) >= (lo.hour, lo.minute, lo.second):
                            return (D.datetime(d.year, d.month, d.day, h, m, s) - off).replace(tzinfo=UTC)
            return None
        best = None
        lo = lower.replace(tzinfo=None)
        slack = timedelta(minutes=1)
        for h in self.hours:
            for m in self.mins:
                n = D.datetime(d.year, d.month, d.day, h, m)
                if n + slack - min(offs) < lo:  # every reading of this minute is over
                    continue
                if best is not None and n - max(offs) > best.replace(tzinfo=None):
                    return best
                for u in self._first_in_minute(n, lower):
                    if best is None or u < best:
                        best = u
        return best

    def _first_in_minute(self, minute, lower):
        out = []
        for sec in self.secs:
            out.extend(u for u in local_instants(minute.replace(second=sec), self.tz) if u >= lower)
        return out

    def is_gap_shift(self, instant):
        """Is it the shifted instant of a matching local time that a forward change removes?"""
        instant = utc(instant)
        for h in range(1, 27):
            off = (instant - timedelta(hours=h)).astimezone(self.tz).utcoffset()
            naive = (instant + off).replace(tzinfo=None)
            if self._naive_ok(naive) and not local_instants(naive, self.tz):
                return True
        return False

    def _naive_ok(self, n):
        return (n.microsecond == 0 and self.day_ok(n.date()) and n.hour in self.sets["hour"]
                and n.minute in self.sets["minute"] and n.second in self.sets["second"])

    def next(self, lower, horizon_days=366 * 12):
        """Earliest matching instant >= lower within start/end.  'far' if beyond the horizon."""
        lower = utc(lower)
        if self.start is not None and utc(self.start) > lower:
            lower = utc(self.start)
        d = lower.astimezone(self.tz).date() - timedelta(days=1)
        end = utc(self.end) if self.end is not None else None
        maxyear = max(self.years)
        for _ in range(horizon_days + 2):
            if d.year > maxyear:
                return None
            if end is not None and d > end.astimezone(self.tz).date() + timedelta(days=1):
                return None
            if self.day_ok(d):
                r = self._day_first(d, lower)
                if r is not None:
                    nxt = self._day_first(d + timedelta(days=1), lower) if d < D.date.max else None
                    r = min(r, nxt) if nxt is not None else r
                    return None if end is not None and r > end else r
            d += timedelta(days=1)
        return "far"


# ------------------------------------------------------------------ interval
class IntervalModel:
    def __init__(self, interval, start, end=None):
        self.interval = interval if interval > timedelta(0) else timedelta(seconds=1)
        self.start, self.end = utc(start), utc(end) if end is not None else None

    def next(self, prev, now):
        if prev is not None:
            r = utc(prev) + self.interval
        else:
            now = utc(now)
            if self.start >= now:
                r = self.start
            else:
                n = -((self.start - now) // self.interval)  # ceil((now-start)/interval)
                r = self.start + n * self.interval
        return None if self.end is not None and r > self.end else r


class DateModel:
    def __init__(self, at):
        self.at = utc(at)

    def next(self, prev, now):
        return self.at if prev is None else None
