"""Writes rv/fixtures/records.json with the code of the base commit (run with a worktree of it first on PYTHONPATH):
records as earlier versions stored them, raw TaskState pickles and envelopes."""
import base64, datetime as D, json, pickle, sys, os
from zoneinfo import ZoneInfo
sys.path.insert(1, "/verif")
import asyncz
assert asyncz.__file__.startswith(sys.argv[1]), asyncz.__file__
import pytz
from asyncz.schedulers import AsyncIOScheduler
from asyncz.stores.memory import MemoryStore
from asyncz.tasks import Task
from asyncz.triggers import *
from asyncz.triggers import ShutdownTrigger
from rv import fns
UTC = D.timezone.utc
# (constructor expression evaluated both here and by the check)
TRIGS = [
 "IntervalTrigger(seconds=37, start_at=D.datetime(2024,3,1,10,0,tzinfo=UTC), timezone='UTC')",
 "IntervalTrigger(weeks=1, days=2, hours=3, minutes=4, seconds=5, start_at='2024-03-01 10:00:00', timezone=ZoneInfo('Europe/Berlin'))",
 "IntervalTrigger(minutes=7, start_at=D.datetime(2024,3,1,10,0), end_at=D.datetime(2024,3,1,12,0), timezone=pytz.timezone('America/New_York'))",
 "IntervalTrigger(minutes=7, start_at=D.datetime(2024,3,1,10,0,tzinfo=D.timezone(D.timedelta(hours=5,minutes=30))), jitter=20)",
 "CronTrigger(minute='*/5', timezone='UTC')",
 "CronTrigger(day='last', hour=3, timezone=ZoneInfo('America/New_York'))",
 "CronTrigger(day='2nd sun, 4th mon', hour='1-4', timezone=pytz.timezone('Europe/London'), start_at='2024-01-01', end_at='2030-01-01 00:00:00')",
 "CronTrigger(week='*/3', day_of_week='mon-fri,sun', second='7,33', timezone='Asia/Tokyo', jitter=9)",
 "CronTrigger(year='2020-2035', month='jan-mar,7', hour='*/6', timezone=D.timezone(D.timedelta(hours=-8)))",
 "CronTrigger.from_crontab('0,30 8-18 * * mon-fri', timezone='UTC')",
 "DateTrigger(run_at=D.datetime(2030,5,6,7,8,9,123456,tzinfo=UTC))",
 "DateTrigger(run_at='2030-05-06 07:08:09', timezone='Europe/Berlin')",
 "OrTrigger(triggers=[CronTrigger(hour=5, timezone='UTC'), IntervalTrigger(hours=5, start_at=D.datetime(2024,3,1,tzinfo=UTC), timezone='UTC')])",
 "AndTrigger(triggers=[CronTrigger(minute='*/3', timezone='UTC'), CronTrigger(minute='*/4', timezone='UTC')])",
 "OrTrigger(triggers=[CronTrigger(hour=5, timezone='UTC')], jitter=30)",
]
FNS = ["rv.fns:work", "rv.fns:awork2", "rv.fns:Holder.cmeth", "rv.fns:Holder.smeth", "os.path:basename"]
out = []
sched = AsyncIOScheduler(timezone="UTC")
store = MemoryStore(); store.start(sched, "s")
for i, expr in enumerate(TRIGS):
    for j in range(3):
        f = FNS[(i + j) % len(FNS)]
        args = [["k", 1], ["k"], ["k"]][j] if "basename" not in f else ["/a/b"]
        nrt = [None, D.datetime(2031, 1, 2, 3, 4, 5, 678901, tzinfo=UTC), D.datetime(2024, 11, 3, 1, 30, fold=1, tzinfo=ZoneInfo("America/New_York"))][j]
        kw = dict(name=["nämé", "n", "x y"][j], coalesce=bool(j % 2), max_instances=j + 1, mistrigger_grace_time=[None, 5, 77][j], executor=["default", "other", "default"][j])
        trig = eval(expr)
        kwargs = {"z": i} if j == 0 and "basename" not in f else {}
        t = Task(f, id=f"t{i}-{j}", trigger=trig, scheduler=sched, store_alias="s", next_run_time=nrt, args=args, kwargs=kwargs, **kw)
        for kind in ("raw", "envelope"):
            obj = t.__getstate__() if kind == "raw" else store.serialize_task_state(t)
            proto = [4, 5, 5][(i + j) % 3]
            out.append(dict(kind=kind, proto=proto, blob=base64.b64encode(pickle.dumps(obj, proto)).decode(), id=t.id, fn=f, args=args, kwargs=kwargs,
                            nrt=None if nrt is None else nrt.astimezone(UTC).isoformat(), trigger=expr, **kw))
os.makedirs("/verif/rv/fixtures", exist_ok=True)
json.dump(out, open("/verif/rv/fixtures/records.json", "w"), indent=0)
print(len(out))
