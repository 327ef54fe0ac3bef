"""Stores under test and their raw contents: memory, file, sqlite, redis, mongo (stand-in)."""
from __future__ import annotations

import os
import shutil
import socket
import subprocess
import time

from rv.fakemongo import FakeMongoClient

_redis = {}
KINDS = ("memory", "file", "sqlite", "redis", "mongo")
PERSISTENT = ("file", "sqlite", "redis", "mongo")


def redis_socket(ctx):
    """A redis-server private to this worker, on a unix socket in its scratch directory."""
    if "sock" in _redis:
        return _redis["sock"]
    exe = shutil.which("redis-server")
    if not exe:
        raise RuntimeError("redis-server not installed")
    d = ctx.tmpdir("redis")
    sock = os.path.join(d, "r.sock")
    env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
    _redis["proc"] = subprocess.Popen(
        [exe, "--port", "0", "--unixsocket", sock, "--save", "", "--appendonly", "no", "--databases", "16", "--dir", d],
        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=d)
    for _ in range(400):
        try:
            s = socket.socket(socket.AF_UNIX)
            s.connect(sock)
            s.sendall(b"PING\r\n")
            if s.recv(16).startswith(b"+PONG"):
                s.close()
                break
        except OSError:
            pass
        time.sleep(0.05)
    else:
        raise RuntimeError("redis-server did not come up")
    _redis["sock"] = sock
    return sock


def stop_all():
    p = _redis.pop("proc", None)
    if p:
        p.kill()
        p.wait()
    _redis.clear()


class Backend:
    """One persistent location; `store()` opens a fresh store object on it."""

    def __init__(self, ctx, kind, protocol=None):
        self.ctx, self.kind, self.protocol = ctx, kind, protocol
        self.dir = None
        if kind == "file":
            self.dir = ctx.tmpdir("fs")
        elif kind == "sqlite":
            self.dir = ctx.tmpdir("sql")
            self.path = os.path.join(self.dir, "t.db")
        elif kind == "redis":
            self.sock = redis_socket(ctx)
            self.raw_redis().flushdb()
        elif kind == "mongo":
            self.client = FakeMongoClient()

    def raw_redis(self):
        import redis

        return redis.Redis(unix_socket_path=self.sock, db=0)

    def store(self):
        kw = {} if self.protocol is None else {"pickle_protocol": self.protocol}
        if self.kind == "memory":
            from asyncz.stores.memory import MemoryStore

            return MemoryStore()
        if self.kind == "file":
            from asyncz.stores.file import FileStore

            return FileStore(self.dir, **kw)
        if self.kind == "sqlite":
            from asyncz.stores.sqlalchemy import SQLAlchemyStore

            return SQLAlchemyStore(database=f"sqlite:///{self.path}", **kw)
        if self.kind == "redis":
            from asyncz.stores.redis import RedisStore

            return RedisStore(unix_socket_path=self.sock, **kw)
        if self.kind == "mongo":
            from asyncz.stores.mongo import MongoDBStore

            return MongoDBStore(client=self.client, **kw)
        raise ValueError(self.kind)

    def config(self):
        """The same location as a scheduler configuration mapping."""
        kw = {} if self.protocol is None else {"pickle_protocol": self.protocol}
        return {
            "memory": {"type": "memory"},
            "file": {"type": "file", "directory": self.dir, **kw},
            "sqlite": {"type": "sqlalchemy", "database": f"sqlite:///{getattr(self, 'path', '')}", **kw},
            "redis": {"type": "redis", "unix_socket_path": getattr(self, "sock", ""), **kw},
            "mongo": {"type": "mongodb", "client": getattr(self, "client", None), **kw},
        }[self.kind]

    # ---- raw record access: id -> bytes
    def records(self):
        if self.kind == "file":
            out = {}
            for n in os.listdir(self.dir):
                if not n.endswith(".task"):
                    continue
                with open(os.path.join(self.dir, n), "rb") as f:
                    out[n[: -len(".task")]] = f.read()
            return out
        if self.kind == "sqlite":
            import sqlite3

            c = sqlite3.connect(self.path)
            try:
                return {r[0]: bytes(r[1]) for r in c.execute("select id, state from asyncz_store")}
            finally:
                c.close()
        if self.kind == "redis":
            r = self.raw_redis()
            return {k.decode(): v for k, v in r.hgetall("asyncz.tasks").items()}
        if self.kind == "mongo":
            return {d["_id"]: bytes(d["state"]) for d in self.client["asyncz"]["tasks"].docs.values()}
        return {}

    def put(self, task_id, blob, ts=None):
        """Overwrite (or create) the stored bytes of one record."""
        if self.kind == "file":
            with open(os.path.join(self.dir, f"{task_id}.task"), "wb") as f:
                f.write(blob)
        elif self.kind == "sqlite":
            import sqlite3

            c = sqlite3.connect(self.path)
            with c:
                if c.execute("update asyncz_store set state=? where id=?", (blob, task_id)).rowcount == 0:
                    c.execute("insert into asyncz_store (id, next_run_time, state) values (?,?,?)", (task_id, ts, blob))
            c.close()
        elif self.kind == "redis":
            r = self.raw_redis()
            new = not r.hexists("asyncz.tasks", task_id)
            r.hset("asyncz.tasks", task_id, blob)
            if new and ts is not None:
                r.zadd("asyncz.run_times", {task_id: ts})
        elif self.kind == "mongo":
            docs = self.client["asyncz"]["tasks"].docs
            if task_id in docs:
                docs[task_id]["state"] = blob
            else:
                docs[task_id] = {"_id": task_id, "next_run_time": ts, "state": blob}

    def close(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)


class StubScheduler:
    """What a store needs of its scheduler when it is used on its own."""

    lock_path = ""
    identity = "stub"
    shape = None

    def __init__(self, tz):
        import logging
        from collections import defaultdict

        self.timezone = tz
        self.loggers = defaultdict(lambda: logging.getLogger("asyncz.stub"))
