"""Gate-controlled task functions for real thread and process pools."""
from __future__ import annotations

import os
import signal
import threading
import time

GATES = {}


class Gate:
    def __init__(self):
        self.started = threading.Event()
        self.go = threading.Event()
        self.how = "return"
        self.value = None


class GateBoom(Exception):
    pass


def tgate(seq):
    """Thread function: waits for its gate."""
    g = GATES["next"](seq)
    g.started.set()
    if not g.go.wait(300):
        raise RuntimeError("gate never opened")
    if g.how == "raise":
        raise g.value
    return g.value


def pgate(d, *a, **k):
    """Process function: takes the next ticket in directory d and waits for its instructions."""
    n = 0
    while True:
        try:
            fd = os.open(os.path.join(d, f"{n}.started"), os.O_CREAT | os.O_EXCL | os.O_WRONLY)
            os.write(fd, str(os.getpid()).encode())
            os.close(fd)
            break
        except FileExistsError:
            n += 1
    go = os.path.join(d, f"{n}.go")
    for _ in range(60000):
        if os.path.exists(go):
            break
        time.sleep(0.005)
    else:
        raise RuntimeError("gate never opened")
    how = open(go).read()
    if how == "raise":
        raise GateBoom(f"ticket {n}")
    if how == "exit":
        os._exit(3)
    if how == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
    return ("ticket", n)
