"""Entry point: ./check C01 [--only part:index] [--seed N] [--tier quick|thorough]"""
from __future__ import annotations

import argparse
import importlib.util
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"


def build_shim(scratch):
    out = os.path.join(scratch, "vclock.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", out, os.path.join(HERE, "vclock.c")], check=True)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--only")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick")
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    prop = a.prop.upper()
    t0 = time.monotonic()
    meta = json.load(open(os.path.join(HERE, "props.json")))[prop]
    scratch = tempfile.mkdtemp(prefix=f"rv-{prop}-")
    os.chmod(scratch, 0o755)
    code = 3
    procs = []
    signal.signal(signal.SIGTERM, lambda *x: sys.exit(3))
    try:
        shim = build_shim(scratch)
        n = 1 if a.only else (a.workers or meta.get("workers", 8))
        budget = meta.get("budget_quick", 600) if a.tier == "quick" else meta.get("budget_thorough", 3000)
        for s in range(n):
            spec = dict(prop=prop, seed=a.seed, tier=a.tier, shard=s, nshards=n, scratch=os.path.join(scratch, f"w{s}"),
                        out=os.path.join(scratch, f"out{s}.json"))
            if a.only:
                p, i = a.only.rsplit(":", 1)
                spec["only"] = [p, int(i)]
            os.mkdir(spec["scratch"])
            env = {k: v for k, v in os.environ.items() if not k.startswith(("ASYNCZ_", "PYTHON"))}
            env.update(
                RV_SPEC=json.dumps(spec), LD_PRELOAD=shim, PYTHONHASHSEED="0", PYTHONNOUSERSITE="1",
                PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=ROOT + ":" + os.environ.get("RV_REPO", "/repo"), TMPDIR=spec["scratch"], HOME=spec["scratch"],
                LANG="C.UTF-8", TZ="UTC", RV_DEADLINE=str(time.monotonic() + budget), PYTHONWARNINGS="ignore",
            )
            log = open(os.path.join(scratch, f"log{s}.txt"), "wb")
            procs.append((subprocess.Popen(
                [PY, "-X", f"pycache_prefix={os.path.join(scratch, 'pyc')}", "-m", "rv.core"],
                cwd=spec["scratch"], env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True), spec, log))
        hard = t0 + budget + 150
        for p, spec, log in procs:
            try:
                p.wait(timeout=max(1, hard - time.monotonic()))
            except subprocess.TimeoutExpired:
                pass
        results, errors = [], []
        for p, spec, log in procs:
            if p.poll() is None:
                errors.append(f"worker {spec['shard']} did not finish in time (inconclusive)")
            try:
                results.append(json.load(open(spec["out"])))
                if results[-1].get("error"):
                    errors.append(f"worker {spec['shard']}: {results[-1]['error']}")
            except FileNotFoundError:
                log.flush()
                tail = open(os.path.join(scratch, f"log{spec['shard']}.txt"), errors="replace").read()[-3000:]
                errors.append(f"worker {spec['shard']} left no result (rc={p.poll()}):\n{tail}")
            if a.verbose:
                sys.stderr.write(open(os.path.join(scratch, f"log{spec['shard']}.txt"), errors="replace").read()[-20000:])
        code = report(prop, a, meta, results, errors, time.monotonic() - t0)
    finally:
        for p, spec, log in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def constants(prop):
    """RULE / ASSUMPTIONS / REQUIRE of the check module, without importing the library."""
    import ast

    tree = ast.parse(open(os.path.join(HERE, "props", prop.lower() + ".py")).read())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("RULE", "ASSUMPTIONS", "REQUIRE"):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


def report(prop, a, meta, results, errors, wall):
    const = constants(prop)
    counters, sigs, samples, viol, known, ev = {}, set(), [], [], {}, 0
    cut = False
    for r in results:
        ev += r["evaluations"]
        sigs.update(r["sigs"])
        samples.extend(r["samples"])
        viol.extend(r["violations"])
        cut = cut or r["cut_short"]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
    sys.path.insert(0, ROOT)
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evidence = dict(
        property=prop, tier=a.tier, seed=a.seed, level=meta.get("level", "exploration"),
        coverage=dict(evaluations=ev, distinct_nontrivial=len(sigs), rule=const.get("RULE", ""), samples=samples[:6],
                      observed=dict(sorted(counters.items())), workers=len(results), stopped_early_for_time=cut),
        assumptions=const.get("ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(viol),
    )
    if not a.only:
        with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
            f.write("\n")
    # every listed finding must be reported on the tree that still has it
    kf = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"] if os.path.exists(os.path.join(ROOT, "known_findings.json")) else []
    for e in kf:
        if e["property"] == prop and known.get(e["key"]):
            print(f"KNOWN-FINDING: property={prop} {e['what']}")
    if viol:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-seed{a.seed}-{a.tier}.json")
        with open(path, "w") as f:
            json.dump(viol, f, indent=1)
        for v in viol[:3]:
            print(f"  {v['part']}:{v['index']}: {v['message'][:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors[:2]:
            print("CHECK ERROR:", e[-1500:])
        return 3
    if not a.only:
        missing = {k: (counters.get(k, 0), m) for k, m in const.get("REQUIRE", {}).items() if counters.get(k, 0) < m}
        if missing or ev == 0:
            print(f"INCONCLUSIVE property={prop}: observed too little: {missing}")
            return 2
    print(f"HELD property={prop} evaluations={ev} distinct={len(sigs)} checks={counters.get('oracle_checks', 0)} wall={wall:.1f}s" + (" (stopped early)" if cut else ""))
    return 0


if __name__ == "__main__":
    main()
