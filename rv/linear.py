"""Offline linearizability checking of small recorded histories (Wing & Gong with memoisation)."""
from __future__ import annotations

INF = 1 << 62


class Budget(Exception):
    pass


def linearizable(ops, init, step, budget=400_000):
    """ops: dicts with start, end (INF when it never returned), op, arg, res (None with end INF = unknown).

    step(state, op) -> (ok, new state); for an unknown result it must say ok with the effect, and the
    operation may also be left out.  Returns True/False; raises Budget when it would take too long.
    """
    ops = sorted(ops, key=lambda o: o["start"])
    n = len(ops)
    must = 0
    for i, o in enumerate(ops):
        if o["end"] < INF:
            must |= 1 << i
    seen = set()
    stack = [(0, init)]
    count = 0
    while stack:
        done, state = stack.pop()
        if done & must == must:
            return True
        if (done, state) in seen:
            continue
        seen.add((done, state))
        count += 1
        if count > budget:
            raise Budget()
        # an operation may come next if no other pending one ended before it started
        first_end = INF
        for i, o in enumerate(ops):
            if done >> i & 1:
                continue
            if o["start"] > first_end:
                break
            if o["end"] < first_end:
                first_end = o["end"]
        for i, o in enumerate(ops):
            if done >> i & 1:
                continue
            if o["start"] > first_end:
                break
            ok, new = step(state, o)
            if ok:
                stack.append((done | 1 << i, new))
    return False


def overlaps(ops):
    """How many pairs of operations ran at the same time."""
    k = 0
    for i, a in enumerate(ops):
        for b in ops[:i]:
            if a["start"] < b["end"] and b["start"] < a["end"]:
                k += 1
    return k


def task_step(state, o):
    """One id of a task store: state is the version stored, or None."""
    op, arg, res = o["op"], o["arg"], o["res"]
    unknown = o["end"] == INF
    if op == "add":
        if unknown:
            return state is None, arg
        return (res == "ok") == (state is None), (arg if state is None else state)
    if op == "update":
        if unknown:
            return state is not None, arg
        return (res == "ok") == (state is not None), (arg if state is not None else None)
    if op == "delete":
        if unknown:
            return True, None
        return (res == "ok") == (state is not None), None
    if op == "clear":
        return True, None
    if op == "read":
        return unknown or res == state, state
    raise ValueError(op)
