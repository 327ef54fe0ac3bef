"""A separate process reading a store back: one JSON request per line on stdin, one JSON answer per line."""
import datetime as D
import json
import os
import random
import sys

UTC = D.timezone.utc


def us(x):
    if x is None:
        return None
    d = x.astimezone(UTC) - D.datetime(1970, 1, 1, tzinfo=UTC)
    return (d.days * 86400 + d.seconds) * 10**6 + d.microseconds


def chain(trigger, tz, first_us, n, seed):
    """Fire times (us) of a trigger from a moment on; random draws are seeded call by call."""
    out, prev = [], None
    now = D.datetime.fromtimestamp(0, UTC) + D.timedelta(microseconds=first_us)
    for i in range(n):
        random.seed(f"{seed}:{i}")
        nxt = trigger.get_next_trigger_time(tz, prev, now)
        out.append(us(nxt))
        if nxt is None:
            break
        prev = now = nxt
    return out


def view(t, tz, base_us, seed):
    from rv import fns9

    args = list(t.args)
    return dict(id=t.id, name=t.name, args=[f"{type(a).__name__}:{shown(a)}" for a in args], kwargs={k: f"{type(v).__name__}:{shown(v)}" for k, v in t.kwargs.items()},
                coalesce=t.coalesce, max_instances=t.max_instances, grace=t.mistrigger_grace_time, executor=t.executor, nrt=us(t.next_run_time),
                call=fns9.shown(t.fn, args, dict(t.kwargs)), trigger=type(t.trigger).__name__, text=str(t.trigger), chain=chain(t.trigger, tz, base_us, 8, seed))


def shown(v):
    if isinstance(v, (set, frozenset)):
        return repr(sorted(map(repr, v)))
    r = repr(v)
    return "an object" if " object at 0x" in r else r


def main():
    import logging

    logging.raiseExceptions = False
    logging.lastResort = None
    from rv.backends import StubScheduler

    for line in sys.stdin:
        q = json.loads(line)
        os.environ.pop("ASYNCZ_STORE_ENCRYPTION_KEY", None)
        if q["key"]:
            os.environ["ASYNCZ_STORE_ENCRYPTION_KEY"] = q["key"]
        if q["kind"] == "file":
            from asyncz.stores.file import FileStore

            st = FileStore(q["where"])
        elif q["kind"] == "sqlite":
            from asyncz.stores.sqlalchemy import SQLAlchemyStore

            st = SQLAlchemyStore(database=f"sqlite:///{q['where']}")
        else:
            from asyncz.stores.redis import RedisStore

            st = RedisStore(unix_socket_path=q["where"])
        st.start(StubScheduler(UTC), "s")
        out = [view(t, UTC, q["base"], q["seed"]) for t in st.get_all_tasks()]
        st.shutdown()
        print(json.dumps(out), flush=True)


if __name__ == "__main__":
    main()
