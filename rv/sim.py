"""Deterministic simulation: real AsyncIOScheduler code on a virtual-time event loop.

Both the loop's monotonic time and the process wall clock are virtual and advance only when
the loop has nothing left to do, or when a task 'blocks' (stall).  Whatever the library asks
of asyncio or of datetime.now() it gets in virtual time, so verdicts never depend on load.
"""
from __future__ import annotations

import asyncio
import concurrent.futures
import selectors
from datetime import datetime, timedelta

from rv import clock, fns
from rv.clock import UTC
from rv.core import Violation


class SimStuck(Exception):
    pass


class SimSelector(selectors.SelectSelector):
    sim = None

    def select(self, timeout=None):
        ev = super().select(0)
        if ev:
            return ev
        if timeout is None:
            raise SimStuck("nothing scheduled")
        if timeout > 0:
            self.sim.loop_advance(timeout)
        else:
            self.sim.loop_spin()
        return []


class SimLoop(asyncio.SelectorEventLoop):
    def __init__(self, sim):
        sel = SimSelector()
        sel.sim = sim
        self._sim = sim
        super().__init__(sel)

    def time(self):
        return self._sim.vt_us / 1e6


class InlineExecutor(concurrent.futures.ThreadPoolExecutor):
    """Default executor of the loop: runs the function at once, in the loop's thread."""

    def __init__(self):
        super().__init__(1)

    def submit(self, fn, /, *args, **kwargs):
        f = concurrent.futures.Future()
        try:
            f.set_result(fn(*args, **kwargs))
        except BaseException as exc:
            f.set_exception(exc)
        return f


class Sim:
    def __init__(self, case, start=datetime(2024, 3, 5, 10, 0, 0, tzinfo=UTC)):
        self.case = case
        self.base_us = clock.to_us(start)
        self.vt_us = 0
        self.spins = 0
        clock.set_us(self.base_us)
        self.calls = []  # dicts: key,args,kwargs,at,(end),outcome
        self.events = []  # (at_us, event)
        self.plan = None  # key, n -> dict(dur=,stall=,raise_=,ret=)
        self.ncalls = {}
        self.running = {}
        self.maxrunning = {}
        self.loop = SimLoop(self)
        self.loop.set_default_executor(InlineExecutor())
        self.loop_errors = []
        self.loop.set_exception_handler(self._loop_exc)
        fns.SINK = self
        self.seq = 0

    # ---- time
    def loop_advance(self, seconds):
        self.spins = 0
        self._move(max(1, round(seconds * 1e6)))

    def loop_spin(self):
        self.spins += 1
        if self.spins > 50_000:
            raise Violation("the event loop spins without time advancing (50000 iterations)", "livelock")

    def _move(self, us):
        self.vt_us += us
        clock.set_us(self.base_us + self.vt_us)

    def stall(self, seconds):
        """Blocking work: time passes while the loop cannot react."""
        self._move(round(seconds * 1e6))

    def jump_wall(self, seconds):
        self.base_us += round(seconds * 1e6)
        clock.set_us(self.base_us + self.vt_us)

    @property
    def us(self):
        return self.base_us + self.vt_us

    def now(self):
        return clock.from_us(self.us)

    def _loop_exc(self, loop, context):
        exc = context.get("exception")
        if isinstance(exc, Violation):
            self.violation = exc
        self.loop_errors.append((self.us, context.get("message"), repr(exc)))

    # ---- task functions
    def call_sync(self, key, args, kwargs):
        rec = self._enter(key, args, kwargs)
        spec = rec["spec"]
        try:
            if spec.get("stall"):
                self.stall(spec["stall"])
            return self._leave(rec)
        finally:
            self.running[key] -= 1

    async def call_async(self, key, args, kwargs):
        rec = self._enter(key, args, kwargs)
        spec = rec["spec"]
        try:
            if spec.get("stall"):
                self.stall(spec["stall"])
            if spec.get("dur") is not None:
                await asyncio.sleep(spec["dur"])
            return self._leave(rec)
        except asyncio.CancelledError:
            rec["outcome"] = ("cancelled",)
            rec["end"] = self.us
            raise
        finally:
            self.running[key] -= 1

    def _enter(self, key, args, kwargs):
        n = self.ncalls.get(key, 0)
        self.ncalls[key] = n + 1
        r = self.running[key] = self.running.get(key, 0) + 1
        self.maxrunning[key] = max(self.maxrunning.get(key, 0), r)
        rec = dict(key=key, n=n, args=args, kwargs=kwargs, at=self.us, end=None, outcome=None, seq=self.next_seq())
        rec["spec"] = (self.plan(key, n) if self.plan else None) or {}
        self.calls.append(rec)
        return rec

    def _leave(self, rec):
        rec["end"] = self.us
        spec = rec["spec"]
        if spec.get("raise_") is not None:
            rec["outcome"] = ("raise", spec["raise_"])
            raise spec["raise_"]
        ret = spec.get("ret", (rec["key"], rec["n"]))
        rec["outcome"] = ("return", ret)
        return ret

    def next_seq(self):
        self.seq += 1
        return self.seq

    # ---- events
    def listen(self, scheduler, store=None):
        from asyncz.events.constants import ALL_EVENTS

        sink = self.events if store is None else store

        def cb(ev):
            sink.append((self.us, self.next_seq(), ev))

        scheduler.add_listener(cb, ALL_EVENTS)
        return cb

    # ---- run
    def run(self, coro):
        loop = self.loop
        asyncio.set_event_loop(loop)
        try:
            try:
                return loop.run_until_complete(coro)
            except SimStuck as exc:
                raise Violation(f"the simulated program is stuck: {exc}", "stuck")
        finally:
            asyncio.set_event_loop(None)

    def close(self):
        import contextlib

        loop = self.loop
        try:
            with contextlib.suppress(BaseException):
                pending = [t for t in asyncio.all_tasks(loop) if not t.done()]
                for t in pending:
                    t.cancel()
                if pending:
                    loop.run_until_complete(asyncio.gather(*pending, return_exceptions=True))
        finally:
            with contextlib.suppress(BaseException):
                loop.close()
            fns.SINK = None

    async def sleep_until(self, us):
        while self.us < us:
            await asyncio.sleep((us - self.us) / 1e6)

    async def settle(self, n=6):
        for _ in range(n):
            await asyncio.sleep(0)


def secs(us):
    return us / 1e6
