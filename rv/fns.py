"""Task functions importable by reference.  All report to the current SINK."""
from __future__ import annotations

import asyncio

SINK = None


def work(key, *args, **kwargs):
    return SINK.call_sync(key, args, kwargs)


async def awork(key, *args, **kwargs):
    return await SINK.call_async(key, args, kwargs)


def work2(key, *args, **kwargs):
    return SINK.call_sync(key, ("work2", *args), kwargs)


async def awork2(key, *args, **kwargs):
    return await SINK.call_async(key, ("work2", *args), kwargs)


class Holder:
    """Bound methods and class methods as task callables."""

    def __init__(self, tag="h"):
        self.tag = tag

    def meth(self, key, *args, **kwargs):
        return SINK.call_sync(key, ("meth", self.tag, *args), kwargs)

    @classmethod
    def cmeth(cls, key, *args, **kwargs):
        return SINK.call_sync(key, ("cmeth", *args), kwargs)

    @staticmethod
    def smeth(key, *args, **kwargs):
        return SINK.call_sync(key, ("smeth", *args), kwargs)


class TaskBoom(Exception):
    pass


def nap(seconds):
    import time

    time.sleep(seconds)


def nothing():
    pass
