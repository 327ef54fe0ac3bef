"""One worker process of C16: a scheduler on a shared store that reports what it does in a common log."""
import json
import os
import random
import sys
import threading
import time
from datetime import datetime, timezone


def main():
    cfg = json.loads(sys.argv[1])
    import logging

    logging.disable(logging.CRITICAL)
    from asyncz.executors.asyncio import AsyncIOExecutor
    from asyncz.schedulers import AsyncIOScheduler
    from asyncz.triggers import IntervalTrigger

    me = cfg["me"]
    fd = os.open(cfg["log"], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
    rnd = random.Random(cfg["seed"])

    def log(what, *more):
        os.write(fd, (json.dumps([time.monotonic_ns(), me, what, *more]) + "\n").encode())

    class Spy(AsyncIOExecutor):
        def do_send_task(self, task, run_times):
            log("hand", task.id, [round(x.timestamp() * 1e6) for x in run_times])
            return super().do_send_task(task, run_times)

    s = AsyncIOScheduler(stores={"default": cfg["store"]}, executors={"default": Spy()}, lock_path=cfg["lock"], store_retry_interval=cfg["retry"], timezone="UTC", isolated_event_loop=True)
    trigs = {}
    for tid, seconds, start in cfg["tasks"]:
        trigs[tid] = IntervalTrigger(seconds=seconds, start_at=datetime.fromtimestamp(start, timezone.utc), timezone="UTC")
    if me == -1:
        s.start(paused=True)
        for tid, t in trigs.items():
            s.add_task("rv.fns:nothing", t, id=tid, coalesce=False, mistrigger_grace_time=None, max_instances=10**6)
        log("first", {t.id: round(t.next_run_time.timestamp() * 1e6) for t in s.get_tasks()})
        s.shutdown()
        return
    store = s.stores["default"]
    holding = threading.local()

    def patch(name, before, after):
        real = getattr(store, name)

        def call(*a, **k):
            before()
            out = real(*a, **k)
            after()
            return out
        setattr(store, name, call)

    process = s.process_tasks

    def process_tasks():
        holding.mine = True
        try:
            return process()
        finally:
            holding.mine = holding.inside = False

    s.process_tasks = process_tasks

    def enter():
        if getattr(holding, "mine", False):
            holding.inside = True
            log("enter")

    def leave():
        if getattr(holding, "inside", False):
            holding.inside = False
            log("leave")

    def nap():
        if getattr(holding, "inside", False) and rnd.random() < cfg["nap"]:
            time.sleep(rnd.random() * cfg["longest"])

    patch("get_due_tasks", enter, nap)
    patch("update_task", nap, nap)
    patch("get_next_run_time", leave, lambda: None)
    s.start(paused=cfg.get("paused", False))
    log("started")
    for line in sys.stdin:
        cmd = line.strip()
        if cmd == "pause":
            s.pause()
            log("paused")
        elif cmd == "resume":
            log("resuming")
            s.resume()
        elif cmd == "stop":
            break
    log("stopping")
    thread = s.event_loop_thread
    s.shutdown()
    # the scheduler stops when its loop handles the call
    thread.join(60)
    log("stopped")


if __name__ == "__main__":
    main()
