"""Check framework: case running, verdicts, counters, watchdogs, evidence.

A check module (rv/props/cNN.py) exposes

    RULE: str            how cases are made and what makes one non-trivial
    ASSUMPTIONS: list    what the verdict trusts
    REQUIRE: dict        counter name -> minimum; fewer observed = inconclusive (exit 2)
    def run(ctx)         calls ctx.cases(part, quick=N, thorough=M, fn=case_fn) ...

`run` executes in several worker processes (shards); the parent merges them.
"""
from __future__ import annotations

import hashlib
import json
import os
import random
import signal
import sys
import threading
import time
import traceback

REPO = os.environ.get("RV_REPO", "/repo")
PKG = os.path.join(REPO, "asyncz") + os.sep


class Violation(Exception):
    def __init__(self, message, key=None, witness=None):
        super().__init__(message)
        self.key = key
        self.witness = witness


class CaseHang(BaseException):
    """Raised into the main thread by the watchdog."""


class HarnessError(Exception):
    pass


def jsonable(x, depth=0):
    import datetime as D

    if depth > 8:
        return repr(x)[:200]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:400]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:400]]
    if isinstance(x, D.datetime):
        return x.isoformat()
    return repr(x)[:400]


class Case:
    """One generated case: a seeded rng, failure reporting and observation notes."""

    def __init__(self, ctx, part, index):
        self.ctx = ctx
        self.part = part
        self.index = index
        self.rng = random.Random(f"{ctx.prop}:{ctx.seed}:{part}:{index}")
        self.desc = {}
        self.log = []
        self.trivial = False

    def fail(self, message, key=None, **witness):
        raise Violation(message, key, witness)

    def check(self, cond, message, key=None, **witness):
        self.ctx.counters["oracle_checks"] = self.ctx.counters.get("oracle_checks", 0) + 1
        if not cond:
            raise Violation(message, key, witness)

    def eq(self, got, want, what, key=None, **witness):
        self.check(got == want, f"{what}: got {got!r}, expected {want!r}", key, **witness)

    def count(self, name, n=1):
        self.ctx.count(name, n)

    def describe(self, **kw):
        self.desc.update(kw)


class Ctx:
    def __init__(self, prop, seed, tier, shard, nshards, scratch, only=None):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.shard, self.nshards, self.scratch = shard, nshards, scratch
        self.only = only
        self.counters = {}
        self.evaluations = 0
        self.sigs = set()
        self.nontrivial_overflow = 0
        self.samples = []
        self.violations = []
        self.known = {}
        self.max_violations = 2
        self.known_keys = load_known(prop)
        self.deadline = float(os.environ.get("RV_DEADLINE", "0")) or None
        self.cut_short = False

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def tmpdir(self, name="d"):
        import tempfile

        return tempfile.mkdtemp(prefix=name + "-", dir=self.scratch)

    def cases(self, part, fn, quick, thorough=None, cpu=60.0):
        """Run fn(case) for this shard's share of the case indices."""
        if os.environ.get("RV_PART") not in (None, "", part):
            return
        n = quick
        if self.thorough:
            n = thorough if thorough is not None else quick * 10
        if os.environ.get("RV_SCALE"):
            n = max(1, int(n * float(os.environ["RV_SCALE"])))
        for i in range(n):
            if self.only is not None:
                if (part, i) != self.only:
                    continue
            elif i % self.nshards != self.shard:
                continue
            if len(self.violations) >= self.max_violations:
                return
            if self.deadline and time.monotonic() > self.deadline:
                self.cut_short = True
                self.count("cases_not_run_for_time")
                return
            self.one(part, i, fn, cpu)

    def one(self, part, i, fn, cpu=60.0, again=True):
        case = Case(self, part, i)
        self.evaluations += 1
        self.count(f"cases:{part}")
        try:
            with Watchdog(cpu) as dog:
                fn(case)
            if dog.fired:
                raise CaseHang(dog.fired)  # swallowed on its way up
        except Violation as v:
            self._violation(case, str(v), v.key, v.witness)
        except CaseHang as v:
            if again and "quiescent" in str(v):
                # forked worker processes may hang without any fault of the library, very rarely:
                # a deadlock is reported when the same case runs into one again
                self.count("hangs_tried_again")
                self.evaluations -= 1
                return self.one(part, i, fn, cpu, again=False)
            self._violation(case, f"no progress: {v}", "hang", {"stack": str(v)})
        except HarnessError:
            raise
        except Exception as exc:
            tb = traceback.extract_tb(exc.__traceback__)
            if any(f.filename.startswith(PKG) for f in tb):
                self._violation(
                    case,
                    f"unexpected {type(exc).__name__} from the library: {exc}",
                    "unexpected-exception",
                    {"traceback": traceback.format_exc()[-4000:]},
                )
            else:
                raise HarnessError(f"case {part}:{i}: {traceback.format_exc()}") from exc
        else:
            if not case.trivial:
                blob = json.dumps(jsonable(case.desc), sort_keys=True) + repr(
                    hashlib.sha256(repr(case.log).encode()).hexdigest()
                )
                self.sigs.add(hashlib.sha1((part + blob).encode()).hexdigest()[:16])
            if len(self.samples) < 2 or (self.evaluations % 97 == 0 and len(self.samples) < 4):
                self.samples.append({"part": part, "index": i, "case": jsonable(case.desc)})

    def _violation(self, case, message, key, witness):
        if key is not None and key in self.known_keys:
            self.known[key] = self.known.get(key, 0) + 1
            return
        self.violations.append(
            {
                "property": self.prop,
                "seed": self.seed,
                "tier": self.tier,
                "part": case.part,
                "index": case.index,
                "message": message,
                "key": key,
                "case": jsonable(case.desc),
                "witness": jsonable(witness or {}),
                "log": jsonable(case.log[-200:]),
                "replay": f"cd /verif && VERIF_SEED={self.seed} VERIF_TIER={self.tier} ./check {self.prop} --only {case.part}:{case.index}",
            }
        )

    def result(self):
        return {
            "evaluations": self.evaluations,
            "sigs": sorted(self.sigs),
            "counters": self.counters,
            "samples": self.samples,
            "violations": self.violations,
            "known": self.known,
            "cut_short": self.cut_short,
        }


def load_known(prop):
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    try:
        data = json.load(open(path))
    except FileNotFoundError:
        return {}
    return {e["key"]: e for e in data.get("findings", []) if e["property"] == prop}


class Watchdog:
    """Turns an endless loop or a quiescent deadlock inside the library into a verdict.

    The limits are logical, not wall-clock: an endless loop is called after `cpu` seconds
    of CPU time burnt by one case (normal cases use milliseconds), a deadlock when the main
    thread sits in library code and the whole process has used no CPU over 4 looks 5 s apart (12 looks
    when it waits in the harness for something the library has to do).
    """

    def __init__(self, cpu):
        self.cpu = cpu

    def __enter__(self):
        self.t0 = time.process_time()
        self.last = self.t0
        self.idle = 0
        self.laststack = None
        self.fired = None
        if threading.current_thread() is threading.main_thread():
            signal.signal(signal.SIGALRM, self.tick)
            signal.setitimer(signal.ITIMER_REAL, 5.0, 5.0)
        return self

    def __exit__(self, *a):
        if threading.current_thread() is threading.main_thread():
            signal.setitimer(signal.ITIMER_REAL, 0)
        return False

    def tick(self, signum, frame):
        now = time.process_time()
        stack = traceback.extract_stack(frame)
        in_pkg = any(f.filename.startswith(PKG) for f in stack)
        if now - self.t0 > self.cpu:
            if not in_pkg:
                # driving loop of the harness without library code on the stack: still no progress
                pass
            self.fire(
                f"case burnt {now - self.t0:.0f} s of CPU: " + " < ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in stack[::-1][:8])
            )
        sig = [(f.filename, f.lineno) for f in stack]
        if now - self.last < 0.05 and sig == self.laststack:
            self.idle += 1
            # waiting in the harness for the library counts as well, after a longer time
            if self.idle >= (4 if in_pkg else 12):
                self.fire(
                    "quiescent deadlock: " + " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in stack[::-1][:8])
                )
        else:
            self.idle = 0
        self.last, self.laststack = now, sig

    def fire(self, what):
        self.fired = self.fired or what
        raise CaseHang(what)


def main_worker():
    import importlib

    spec = json.loads(os.environ["RV_SPEC"])
    import logging

    import faulthandler

    faulthandler.register(signal.SIGUSR1, all_threads=True)
    logging.raiseExceptions = False
    logging.lastResort = None
    logging.getLogger("asyncz").addHandler(logging.NullHandler())
    ctx = Ctx(spec["prop"], spec["seed"], spec["tier"], spec["shard"], spec["nshards"], spec["scratch"],
              tuple(spec["only"]) if spec.get("only") else None)
    mod = importlib.import_module(f"rv.props.{spec['prop'].lower()}")
    err = None
    try:
        mod.run(ctx)
    except BaseException:
        err = traceback.format_exc()
    try:
        from rv import backends

        backends.stop_all()
    except BaseException:
        pass
    out = ctx.result()
    out["error"] = err
    tmp = spec["out"] + ".tmp"
    with open(tmp, "w") as f:
        json.dump(out, f)
    os.replace(tmp, spec["out"])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    from rv import core

    core.main_worker()
