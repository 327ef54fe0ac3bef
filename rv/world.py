"""Shared pieces of the scheduler simulations: bases, schedulers, fire-time accounting."""
from __future__ import annotations

import asyncio
import bisect
import datetime as D
from datetime import timedelta

from rv import clock, fns, gen
from rv.backends import Backend
from rv.sim import Sim

UTC = D.timezone.utc
TOL = 2000  # microseconds of virtual time: float rounding of loop timers


def start_instant(r, tz):
    """A moment to start a simulation at: often shortly before a clock change of tz."""
    ts = [t for t in gen.transitions(tz) if t.year >= 2000] if r.random() < 0.5 else []
    if ts:
        t = r.choice(ts) - timedelta(seconds=r.choice([900, 300, 1800, 3700, 60]))
    else:
        t = D.datetime(2024, r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), tzinfo=UTC)
    return t + timedelta(microseconds=r.choice([0, 0, 1, 250000, 999999, r.randrange(10**6)]))


class World:
    """A virtual-time simulation with its stores' locations."""

    def __init__(self, case, tz=None, start=None):
        self.case, self.r = case, case.rng
        self.tz = tz if tz is not None else gen.zone(case.rng)
        self.sim = Sim(case, start or start_instant(case.rng, self.tz))
        self.backends = {}
        self.schedulers = []

    def backend(self, alias, kind):
        b = self.backends[alias] = Backend(self.case.ctx, kind)
        return b

    def stores(self, specs):
        """alias -> kind; the configuration mapping for a scheduler."""
        out = {}
        for alias, kind in specs.items():
            b = self.backends.get(alias) or self.backend(alias, kind)
            out[alias] = b.store() if self.r.random() < 0.5 or kind == "mongo" else b.config()
        return out

    def scheduler(self, native=None, **kw):
        from asyncz.schedulers import AsyncIOScheduler, NativeAsyncIOScheduler

        native = self.r.random() < 0.4 if native is None else native
        cls = NativeAsyncIOScheduler if native else AsyncIOScheduler
        kw.setdefault("timezone", self.tz)
        if not native and self.r.random() < 0.5:
            kw["event_loop"] = self.sim.loop
        s = cls(**kw)
        self.schedulers.append(s)
        return s

    async def start(self, s, **kw):
        x = s.start(**kw)
        return await x if asyncio.iscoroutine(x) else x

    async def stop(self, s, wait=False):
        x = s.shutdown(wait)
        if asyncio.iscoroutine(x):
            x = await x
        await self.sim.settle(10)
        return x

    def close(self):
        self.sim.close()
        for b in self.backends.values():
            b.close()


def run_world(case, main, **kw):
    """main(world) is a coroutine function."""
    w = World(case, **kw)
    try:
        w.sim.run(main(w))
        v = getattr(w.sim, "violation", None)
        if v:
            raise v
        return w
    finally:
        w.close()


def chain(trigger, first, tz):
    x = first
    while x is not None:
        yield x
        x = trigger.get_next_trigger_time(tz, x, x)


def us(dt):
    return clock.to_us(dt)


class Blocked:
    """Intervals (us) in which nothing can be expected of the scheduler; added in order of their start."""

    def __init__(self):
        self.iv = []

    def add(self, a, b):
        if self.iv and a <= self.iv[-1][1] + TOL:
            self.iv[-1][1] = max(self.iv[-1][1], b)
            while len(self.iv) > 1 and self.iv[-1][0] <= self.iv[-2][1] + TOL:
                x = self.iv.pop()
                self.iv[-1][1] = max(self.iv[-1][1], x[1])
        else:
            self.iv.append([a, b])

    def free(self, t):
        """First moment at or after t that is not blocked."""
        i = bisect.bisect_right(self.iv, [t + TOL, 1 << 62]) - 1
        if i >= 0 and self.iv[i][1] >= t:
            return self.iv[i][1]
        return t


class Ledger:
    """Accounts, online, for every fire time of one task from a given moment on."""

    def __init__(self, case, tid, trigger, first, tz, coalesce, added, blocked=None):
        self.case, self.tid, self.trigger, self.tz, self.coalesce = case, tid, trigger, tz, coalesce
        self.next = first  # next fire time not yet accounted for
        self.added = added  # us
        self.blocked = blocked if blocked is not None else Blocked()
        self.total = 0
        self.handed = []  # (fire us, at us, code)
        self.folded = 0
        self.order = []

    def advance(self):
        f = self.next
        self.next = self.trigger.get_next_trigger_time(self.tz, f, f)
        self.total += 1
        return f

    def event(self, at, ev, code_name):
        """One TASK_SUBMITTED or TASK_MAX_INSTANCES event of this task."""
        c, tid = self.case, self.tid
        got = list(ev.scheduled_run_times)
        c.check(bool(got), f"{tid}: a submission without fire times")
        folded = ev.coalesced_run_count
        if self.coalesce:
            c.check(len(got) == 1, f"{tid} coalesces but {len(got)} fire times were submitted at once: {got}")
        else:
            c.check(folded == 0, f"{tid} does not coalesce but reports {folded} fire times folded")
        for _ in range(folded):
            c.check(self.next is not None, f"{tid}: more fire times folded than due")
            f = self.advance()
            self.late(f, at, "folded")
            self.folded += 1
        for g in got:
            c.check(self.next is not None, f"{tid}: fire time {g} handed over but the schedule is finished")
            f = self.advance()
            c.check(us(g) == us(f), f"{tid}: handed over fire time {g}, expected {f} (trigger {self.trigger}) [{code_name}, folded {folded}]")
            self.late(f, at, code_name)
            self.handed.append((us(f), at, code_name))

    def late(self, f, at, what):
        fu = us(f)
        self.case.check(at >= fu, f"{self.tid}: fire time {f} was {what} {fu - at} us early")
        limit = self.blocked.free(max(fu, self.added))
        self.case.check(at <= limit + TOL, f"{self.tid}: fire time {f} was {what} {(at - limit) / 1e6:.6f} s late though nothing blocked the scheduler")

    def finish(self, now_us):
        """Nothing due may be left."""
        if self.next is not None:
            limit = self.blocked.free(max(us(self.next), self.added))
            self.case.check(limit + TOL >= now_us, f"{self.tid}: fire time {self.next} was never handed over (now {clock.from_us(now_us)}, trigger {self.trigger})")
