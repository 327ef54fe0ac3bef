From c4b9c08e0075223e8e2e937bbc7afc3cfe473fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 01/84] fix: interval triggers count elapsed time across clock
 changes, also once restored

---
 asyncz/triggers/base.py     |  4 ++--
 asyncz/triggers/interval.py | 22 +++++++++++-----------
 asyncz/utils.py             | 21 +++++++++++++++++++++
 3 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/asyncz/triggers/base.py b/asyncz/triggers/base.py
index 278db54..f6e460c 100644
--- a/asyncz/triggers/base.py
+++ b/asyncz/triggers/base.py
@@ -5,7 +5,7 @@ from typing import Any, Optional, Union, overload
 from asyncz.datastructures import CombinationState
 from asyncz.state import BaseStateExtra
 from asyncz.triggers.types import TriggerType
-from asyncz.utils import obj_to_ref, ref_to_obj
+from asyncz.utils import elapse, obj_to_ref, ref_to_obj
 
 
 class BaseTrigger(BaseStateExtra, TriggerType):
@@ -36,7 +36,7 @@ class BaseTrigger(BaseStateExtra, TriggerType):
         """
         if next_trigger_time is None or not jitter:
             return next_trigger_time
-        return next_trigger_time + timedelta(seconds=random.uniform(0, jitter))
+        return elapse(next_trigger_time, timedelta(seconds=random.uniform(0, jitter)))
 
 
 class BaseCombinationTrigger(BaseTrigger):
diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index 6573031..ee0c9a0 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -1,10 +1,10 @@
 from datetime import datetime, timedelta, tzinfo
-from math import ceil
+from datetime import timezone as dttz
 from typing import Any, ClassVar, Optional, Union
 
 from asyncz.datastructures import IntervalState
 from asyncz.triggers.base import BaseTrigger
-from asyncz.utils import datetime_repr, normalize, timedelta_seconds, to_datetime, to_timezone
+from asyncz.utils import datetime_repr, elapse, localize, timedelta_seconds, to_datetime, to_timezone
 
 
 class IntervalTrigger(BaseTrigger):
@@ -73,31 +73,31 @@ class IntervalTrigger(BaseTrigger):
             now = datetime.now(timezone)
         next_trigger_time: Optional[datetime]
         start_at = (
-            self.start_at.replace(tzinfo=timezone)
+            localize(self.start_at, timezone)
             if self.start_at and self.start_at.tzinfo is None
             else self.start_at
         )
         if previous_time:
-            next_trigger_time = previous_time + self.interval
-        elif start_at > now:
+            next_trigger_time = elapse(previous_time, self.interval)
+        elif start_at.astimezone(dttz.utc) > now.astimezone(dttz.utc):
             next_trigger_time = start_at
         else:
-            time_difference_seconds = timedelta_seconds(now - start_at)
-            next_interval_number = int(ceil(time_difference_seconds / self.interval_size))
-            next_trigger_time = start_at + self.interval * next_interval_number
+            difference = now.astimezone(dttz.utc) - start_at.astimezone(dttz.utc)
+            next_interval_number = -(-difference // self.interval)
+            next_trigger_time = elapse(start_at, self.interval * next_interval_number)
 
         if self.jitter is not None:
             next_trigger_time = self.apply_jitter(
                 next_trigger_time=next_trigger_time, jitter=self.jitter, now=now
             )
         end_at = (
-            self.end_at.replace(tzinfo=timezone)
+            localize(self.end_at, timezone)
             if self.end_at and self.end_at.tzinfo is None
             else self.end_at
         )
 
-        if not end_at or next_trigger_time <= end_at:
-            return normalize(value=next_trigger_time)
+        if not end_at or next_trigger_time.astimezone(dttz.utc) <= end_at.astimezone(dttz.utc):
+            return next_trigger_time
         return None
 
     def __getstate__(self) -> IntervalState:  # type: ignore
diff --git a/asyncz/utils.py b/asyncz/utils.py
index 6401b6a..b251654 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -427,6 +427,27 @@ def normalize(value: datetime) -> datetime:
     return datetime.fromtimestamp(value.timestamp(), value.tzinfo)
 
 
+def elapse(value: datetime, delta: timedelta) -> datetime:
+    """
+    Adds elapsed time. A plain addition moves the wall clock, which is not the same when the
+    timezone changes its offset in between.
+    """
+    return (value.astimezone(dttz.utc) + delta).astimezone(value.tzinfo)
+
+
+def local_times(value: datetime, tzinfo: tzinfo) -> list[datetime]:
+    """
+    Returns the moments (in UTC) when the wall clock of the timezone shows the given time: none
+    when the clocks are set forward over it, two when they are set back over it.
+    """
+    if hasattr(tzinfo, "localize"):
+        candidates = [tzinfo.localize(value, is_dst=is_dst) for is_dst in (True, False)]
+    else:
+        candidates = [value.replace(tzinfo=tzinfo, fold=fold) for fold in (0, 1)]
+    moments = {candidate.astimezone(dttz.utc) for candidate in candidates}
+    return sorted(m for m in moments if m.astimezone(tzinfo).replace(tzinfo=None) == value)
+
+
 def localize(value: datetime, tzinfo: tzinfo) -> datetime:
     if hasattr(tzinfo, "localize"):
         # pytz localize
-- 
2.43.0


From 32c0499c6337994334afe91166dfb15e0125f986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 02/84] fix: cron triggers visit both passes of a repeated hour
 and never go back in time

---
 asyncz/triggers/cron/trigger.py | 71 +++++++++++++++++++++++++--------
 1 file changed, 54 insertions(+), 17 deletions(-)

diff --git a/asyncz/triggers/cron/trigger.py b/asyncz/triggers/cron/trigger.py
index b828db1..4a38097 100644
--- a/asyncz/triggers/cron/trigger.py
+++ b/asyncz/triggers/cron/trigger.py
@@ -1,4 +1,5 @@
 from datetime import datetime, timedelta, tzinfo
+from datetime import timezone as dttz
 from typing import Any, ClassVar, Optional, Union
 
 from asyncz.datastructures import CronState
@@ -14,8 +15,9 @@ from asyncz.triggers.cron.fields import (
 from asyncz.utils import (
     datetime_ceil,
     datetime_repr,
+    elapse,
+    local_times,
     localize,
-    normalize,
     to_datetime,
     to_timezone,
 )
@@ -202,12 +204,12 @@ class CronTrigger(BaseTrigger):
                     values[field.name] = value + 1
                     count += 1
 
-        difference = datetime(**values) - dateval.replace(tzinfo=None)
-        return normalize(dateval + difference), field_number
+        next_date, repeated = self.move_forward(dateval, datetime(**values), dateval.tzinfo)
+        return next_date, 0 if repeated and field_number >= 0 else field_number
 
     def set_field_value(
         self, dateval: datetime, field_number: int, new_value: Any, timezone: tzinfo
-    ) -> datetime:
+    ) -> tuple[datetime, bool]:
         values = {}
         for i, field in enumerate(self.fields):
             if field.real:
@@ -218,7 +220,35 @@ class CronTrigger(BaseTrigger):
                 else:
                     values[field.name] = new_value
 
-        return localize(datetime(**values), timezone)
+        return self.move_forward(dateval, datetime(**values), timezone)
+
+    def move_forward(
+        self, dateval: datetime, target: datetime, timezone: Any
+    ) -> tuple[datetime, bool]:
+        """
+        Moves forward to the first time the wall clock shows `target`.
+
+        When the clocks are set back on the way and the time since `dateval` is about to be shown
+        again, moves only to the beginning of the repetition and returns True as second value.
+        """
+        start = dateval.astimezone(dttz.utc)
+        later = [value for value in local_times(target, timezone) if value > start]
+        end = later[0] if later else localize(target, timezone).astimezone(dttz.utc)
+
+        for repeated in local_times(dateval.replace(tzinfo=None), timezone):
+            if repeated > start:
+                # find the moment the clocks are set back
+                low, high = 0, int((repeated - start).total_seconds())
+                offset = dateval.utcoffset()
+                while high - low > 1:
+                    middle = (low + high) // 2
+                    if elapse(dateval, timedelta(seconds=middle)).utcoffset() == offset:
+                        low = middle
+                    else:
+                        high = middle
+                if start + timedelta(seconds=high) <= end:
+                    return elapse(dateval, timedelta(seconds=high)), True
+        return end.astimezone(timezone), False
 
     def get_next_trigger_time(
         self, timezone: tzinfo, previous_time: Optional[datetime], now: Optional[datetime] = None
@@ -227,26 +257,29 @@ class CronTrigger(BaseTrigger):
         if now is None:
             now = datetime.now(timezone)
         start_at_field = (
-            self.start_at.replace(tzinfo=timezone)
+            localize(self.start_at, timezone)
             if self.start_at and self.start_at.tzinfo is None
             else self.start_at
         )
         end_at_field = (
-            self.end_at.replace(tzinfo=timezone)
+            localize(self.end_at, timezone)
             if self.end_at and self.end_at.tzinfo is None
             else self.end_at
         )
         if previous_time:
-            start_at = min(now, previous_time + timedelta(microseconds=1))
-            if start_at == previous_time:
+            start_at = min(
+                now.astimezone(dttz.utc),
+                previous_time.astimezone(dttz.utc) + timedelta(microseconds=1),
+            )
+            if start_at == previous_time.astimezone(dttz.utc):
                 start_at += timedelta(microseconds=1)
         else:
-            start_at = max(now, start_at_field) if start_at_field else now
-        if start_at.tzinfo != timezone:
-            start_at = start_at.astimezone(timezone)
+            start_at = now.astimezone(dttz.utc)
+            if start_at_field:
+                start_at = max(start_at, start_at_field.astimezone(dttz.utc))
 
         fieldnum = 0
-        next_date = datetime_ceil(start_at)
+        next_date = datetime_ceil(start_at).astimezone(timezone)
 
         while 0 <= fieldnum < len(self.fields):
             field = self.fields[fieldnum]
@@ -257,19 +290,23 @@ class CronTrigger(BaseTrigger):
                 next_date, fieldnum = self.increment_field_value(next_date, fieldnum - 1)
             elif next_value > curr_value:
                 if field.real:
-                    next_date = self.set_field_value(next_date, fieldnum, next_value, timezone)
-                    fieldnum += 1
+                    next_date, repeated = self.set_field_value(
+                        next_date, fieldnum, next_value, timezone
+                    )
+                    fieldnum = 0 if repeated else fieldnum + 1
                 else:
                     next_date, fieldnum = self.increment_field_value(next_date, fieldnum)
             else:
                 fieldnum += 1
 
-            if end_at_field and next_date > end_at_field:
+            if end_at_field and next_date.astimezone(dttz.utc) > end_at_field.astimezone(dttz.utc):
                 return None
 
         if fieldnum >= 0:
             next_date = self.apply_jitter(next_date, self.jitter, now)
-            return min(next_date, end_at_field) if end_at_field else next_date
+            if end_at_field and next_date.astimezone(dttz.utc) > end_at_field.astimezone(dttz.utc):
+                return end_at_field
+            return next_date
         return None
 
     def __getstate__(self) -> Any:
-- 
2.43.0


From bd56c0f42cf1278d24ccb2d60fd547baf4f0e21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 03/84] fix: reject cron expressions with trailing characters
 instead of ignoring them

---
 asyncz/triggers/cron/expressions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncz/triggers/cron/expressions.py b/asyncz/triggers/cron/expressions.py
index fdc6cf3..826874c 100644
--- a/asyncz/triggers/cron/expressions.py
+++ b/asyncz/triggers/cron/expressions.py
@@ -150,7 +150,7 @@ class RangeExpression(AllExpression):
 
 class MonthRangeExpression(RangeExpression):
     regex: ClassVar[re.Pattern] = re.compile(
-        r"(?P<first>[a-z]+)(?:-(?P<last>[a-z]+))?", re.IGNORECASE
+        r"(?P<first>[a-z]+)(?:-(?P<last>[a-z]+))?$", re.IGNORECASE
     )
     step: Optional[int] = None
 
@@ -195,7 +195,7 @@ class MonthRangeExpression(RangeExpression):
 
 class WeekdayRangeExpression(RangeExpression):
     regex: ClassVar[re.Pattern] = re.compile(
-        r"(?P<first>[a-z]+)(?:-(?P<last>[a-z]+))?", re.IGNORECASE
+        r"(?P<first>[a-z]+)(?:-(?P<last>[a-z]+))?$", re.IGNORECASE
     )
 
     def __init__(
@@ -238,7 +238,7 @@ class WeekdayRangeExpression(RangeExpression):
 
 class WeekdayPositionExpression(AllExpression):
     regex: ClassVar[re.Pattern] = re.compile(
-        r"(?P<option_name>{}) +(?P<weekday_name>(?:\d+|\w+))".format("|".join(OPTIONS)),
+        r"(?P<option_name>{}) +(?P<weekday_name>(?:\d+|\w+))$".format("|".join(OPTIONS)),
         re.IGNORECASE,
     )
 
@@ -288,7 +288,7 @@ class WeekdayPositionExpression(AllExpression):
 
 
 class LastDayOfMonthExpression(AllExpression):
-    regex: ClassVar[re.Pattern] = re.compile(r"last", re.IGNORECASE)
+    regex: ClassVar[re.Pattern] = re.compile(r"last$", re.IGNORECASE)
 
     def __init__(self, **kwargs: Any) -> None:
         super().__init__(step=None, **kwargs)
-- 
2.43.0


From a7ddeabf8410ac5f2712e1d1fdfe1760b1bf99de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 04/84] fix: read the fraction of a date string as a decimal
 fraction

---
 asyncz/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asyncz/utils.py b/asyncz/utils.py
index b251654..53df4da 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -147,6 +147,8 @@ def to_datetime(
             sign = 1 if tzname[0] == "+" else -1
             tz = dttz(sign * timedelta(hours=hours, minutes=minutes))
 
+        # the digits of a fraction count from the left
+        values["microsecond"] = (values["microsecond"] or "0").ljust(6, "0")
         values = {k: int(v or 0) for k, v in values.items()}
         _datetime = datetime(**values)  # type: ignore
     else:
-- 
2.43.0


From 19da786977c909e2cee82f1c308030d5b7f47f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 05/84] fix: an and-trigger no longer loops forever once it has
 fired

---
 asyncz/triggers/combination.py | 14 ++++++++++----
 asyncz/utils.py                |  8 ++++++++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/asyncz/triggers/combination.py b/asyncz/triggers/combination.py
index 7fa2244..6f90794 100644
--- a/asyncz/triggers/combination.py
+++ b/asyncz/triggers/combination.py
@@ -2,6 +2,7 @@ from datetime import datetime, tzinfo
 from typing import ClassVar, Optional, Union
 
 from asyncz.triggers.base import BaseCombinationTrigger
+from asyncz.utils import to_utc
 
 
 class AndTrigger(BaseCombinationTrigger):
@@ -29,11 +30,16 @@ class AndTrigger(BaseCombinationTrigger):
                 if next_trigger_time is None:
                     return None
                 trigger_times.append(next_trigger_time)
-            if min(trigger_times) == max(trigger_times):
+            latest = max(trigger_times, key=to_utc)
+            if to_utc(min(trigger_times, key=to_utc)) == to_utc(latest):
                 return self.apply_jitter(trigger_times[0], self.jitter, now)
+            elif previous_time is None and to_utc(latest) <= to_utc(now):
+                # the lagging triggers have nothing at or after the latest time
+                return None
             else:
-                # recheck
-                now = max(trigger_times)
+                # recheck, from the latest time on: the previous time would hold the triggers back
+                previous_time = None
+                now = latest
 
 
 class OrTrigger(BaseCombinationTrigger):
@@ -60,6 +66,6 @@ class OrTrigger(BaseCombinationTrigger):
                 trigger_times.append(next_trigger_time)
 
         if trigger_times:
-            return self.apply_jitter(min(trigger_times), self.jitter, now)
+            return self.apply_jitter(min(trigger_times, key=to_utc), self.jitter, now)
         else:
             return None
diff --git a/asyncz/utils.py b/asyncz/utils.py
index 53df4da..13a6dc5 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -429,6 +429,14 @@ def normalize(value: datetime) -> datetime:
     return datetime.fromtimestamp(value.timestamp(), value.tzinfo)
 
 
+def to_utc(value: datetime) -> datetime:
+    """
+    Converts to UTC. Datetimes of one timezone compare by their wall clock, which does not order
+    them when an hour is repeated.
+    """
+    return value.astimezone(dttz.utc)
+
+
 def elapse(value: datetime, delta: timedelta) -> datetime:
     """
     Adds elapsed time. A plain addition moves the wall clock, which is not the same when the
-- 
2.43.0


From f0c435bb4e03a572ba7687d7dda5124737ea997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 06/84] fix: compare instants, not wall clock readings, when
 processing across a repeated hour

---
 asyncz/schedulers/base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index b8f0695..d8455e1 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -11,6 +11,7 @@ from abc import abstractmethod
 from collections import defaultdict
 from collections.abc import Callable, Mapping, Sequence
 from datetime import datetime, timedelta
+from datetime import timezone as dttz
 from importlib import import_module
 from inspect import isawaitable
 from threading import TIMEOUT_MAX, Lock, RLock
@@ -789,13 +790,13 @@ class BaseScheduler(SchedulerType):
             task_id = task_id.id
 
         task, store_alias = self.lookup_task(task_id, store)
-        now = datetime.now(self.timezone)
+        now = datetime.now(dttz.utc)
         run_times = task.get_run_times(self.timezone, now)
         coalesced_run_count = 0
         if not run_times:
             if not force:
                 return task
-            run_times = [now]
+            run_times = [now.astimezone(self.timezone)]
         else:
             run_times, coalesced_run_count = self._coalesce_run_times(task, run_times)
 
@@ -849,7 +850,7 @@ class BaseScheduler(SchedulerType):
         if next_run_time is not None and next_run_time <= now:
             # Manual runs must always advance strictly forward so admin actions do
             # not create zero-delay feedback loops in tests or dashboards.
-            next_run_time = now + timedelta(milliseconds=1)
+            next_run_time = (now + timedelta(milliseconds=1)).astimezone(self.timezone)
 
         if next_run_time is None and remove_finished:
             self.delete_task(task_id, store_alias)
@@ -1642,7 +1643,7 @@ class BaseScheduler(SchedulerType):
             if store_next_run_time and (
                 next_wakeup_time is None or store_next_run_time < next_wakeup_time
             ):
-                next_wakeup_time = store_next_run_time.astimezone(self.timezone)
+                next_wakeup_time = store_next_run_time.astimezone(dttz.utc)
             return next_wakeup_time
 
     def process_tasks(self) -> Optional[float]:
@@ -1658,7 +1659,7 @@ class BaseScheduler(SchedulerType):
             return None
 
         self.loggers[self.logger_name].debug("Looking for tasks to run.")
-        now = datetime.now(self.timezone)
+        now = datetime.now(dttz.utc)
         next_wakeup_time: Optional[datetime] = None
         events: list[SchedulerEvent] = []
 
-- 
2.43.0


From 004e8fc5911faa2b395f3bfca979ad1f78cb0a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 07/84] fix: the default start of an interval trigger is one
 interval from now in every timezone

---
 asyncz/triggers/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index ee0c9a0..3093f5f 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -58,7 +58,7 @@ class IntervalTrigger(BaseTrigger):
         else:
             self.timezone = None
 
-        start_at = start_at or (datetime.now(self.timezone) + self.interval)
+        start_at = start_at or elapse(datetime.now(self.timezone or dttz.utc), self.interval)
         self.start_at = to_datetime(start_at, self.timezone, "start_at", require_tz=False)
         self.end_at = to_datetime(end_at, self.timezone, "end_at", require_tz=False)
 
-- 
2.43.0


From f5b0ef3904b7e26074bd471d991021b2c1b71d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 08/84] fix: a cron trigger never fires before its start, also
 after a run by hand

---
 asyncz/triggers/cron/trigger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asyncz/triggers/cron/trigger.py b/asyncz/triggers/cron/trigger.py
index 4a38097..46859f8 100644
--- a/asyncz/triggers/cron/trigger.py
+++ b/asyncz/triggers/cron/trigger.py
@@ -275,8 +275,8 @@ class CronTrigger(BaseTrigger):
                 start_at += timedelta(microseconds=1)
         else:
             start_at = now.astimezone(dttz.utc)
-            if start_at_field:
-                start_at = max(start_at, start_at_field.astimezone(dttz.utc))
+        if start_at_field:
+            start_at = max(start_at, start_at_field.astimezone(dttz.utc))
 
         fieldnum = 0
         next_date = datetime_ceil(start_at).astimezone(timezone)
-- 
2.43.0


From 8c9080d73780194369d33f198c8c8b61626e6057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 09/84] fix: an and-trigger is finished when one of its
 triggers has passed

---
 asyncz/triggers/combination.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/asyncz/triggers/combination.py b/asyncz/triggers/combination.py
index 6f90794..299342a 100644
--- a/asyncz/triggers/combination.py
+++ b/asyncz/triggers/combination.py
@@ -22,6 +22,7 @@ class AndTrigger(BaseCombinationTrigger):
     ) -> Union[datetime, None]:
         if now is None:
             now = datetime.now(timezone)
+        earliest: Optional[datetime] = None
         while True:
             trigger_times = []
             for trigger in self.triggers:
@@ -29,17 +30,17 @@ class AndTrigger(BaseCombinationTrigger):
                 # bail out early
                 if next_trigger_time is None:
                     return None
+                # the trigger has nothing left at or after the time to recheck
+                if earliest is not None and to_utc(next_trigger_time) < to_utc(earliest):
+                    return None
                 trigger_times.append(next_trigger_time)
             latest = max(trigger_times, key=to_utc)
             if to_utc(min(trigger_times, key=to_utc)) == to_utc(latest):
                 return self.apply_jitter(trigger_times[0], self.jitter, now)
-            elif previous_time is None and to_utc(latest) <= to_utc(now):
-                # the lagging triggers have nothing at or after the latest time
-                return None
             else:
                 # recheck, from the latest time on: the previous time would hold the triggers back
                 previous_time = None
-                now = latest
+                now = earliest = latest
 
 
 class OrTrigger(BaseCombinationTrigger):
-- 
2.43.0


From 551484bacbb9f2add2f575687ce17044be2cf89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 10/84] fix: a task with a fractional grace time can be stored

---
 asyncz/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/datastructures.py b/asyncz/datastructures.py
index afcac42..4de6e22 100644
--- a/asyncz/datastructures.py
+++ b/asyncz/datastructures.py
@@ -67,7 +67,7 @@ class TaskState(BaseDatastructureState):  # type: ignore
     coalesce: Optional[bool] = None
     trigger: Optional[TriggerType] = None
     executor: Optional[str] = None
-    mistrigger_grace_time: Optional[int] = None
+    mistrigger_grace_time: Optional[Union[int, float]] = None
     max_instances: Optional[int] = None
     next_run_time: Optional[datetime] = None
     scheduler: Optional[Any] = None
-- 
2.43.0


From 938539e42c82c90f15dcd8c51d54c2eacbcccc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 11/84] fix: the redis store finds due tasks with a next run
 time before 1970

---
 asyncz/stores/redis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index 3bfb0df..0dba240 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -67,7 +67,7 @@ class RedisStore(BaseStore):
 
     def get_due_tasks(self, now: datetime) -> list["TaskType"]:
         timestamp = datetime_to_utc_timestamp(now)
-        ids: list[str] = self.redis.zrangebyscore(self.run_times_key, 0, timestamp)  # type: ignore
+        ids: list[str] = self.redis.zrangebyscore(self.run_times_key, "-inf", timestamp)  # type: ignore
         if not ids:
             return []
         states: list[Any] = self.redis.hmget(self.tasks_key, ids)  # type: ignore
-- 
2.43.0


From f47f77873594b6ef73fe72a4188c800b6bd0c258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:04 +0000
Subject: [PATCH 12/84] fix: a shutdown task in a persistent store can be read
 back

---
 asyncz/datastructures.py    | 6 ++++++
 asyncz/triggers/shutdown.py | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/asyncz/datastructures.py b/asyncz/datastructures.py
index 4de6e22..f5848a5 100644
--- a/asyncz/datastructures.py
+++ b/asyncz/datastructures.py
@@ -24,6 +24,12 @@ class DateState(BaseDatastructureState):
     run_at: datetime
 
 
+class ShutdownState(BaseDatastructureState):
+    """
+    Handles the state for a ShutdownTrigger.
+    """
+
+
 class IntervalState(BaseDatastructureState):
     """
     Handles the state for a IntervalTrigger.
diff --git a/asyncz/triggers/shutdown.py b/asyncz/triggers/shutdown.py
index c09ca4c..ee073e7 100644
--- a/asyncz/triggers/shutdown.py
+++ b/asyncz/triggers/shutdown.py
@@ -1,6 +1,7 @@
 from datetime import datetime, tzinfo
-from typing import ClassVar, Optional
+from typing import Any, ClassVar, Optional
 
+from asyncz.datastructures import ShutdownState
 from asyncz.triggers.base import BaseTrigger
 
 
@@ -11,3 +12,9 @@ class ShutdownTrigger(BaseTrigger):
         self, timezone: tzinfo, previous_time: Optional[datetime], now: Optional[datetime] = None
     ) -> None:
         return None
+
+    def __getstate__(self) -> Any:
+        """
+        Handles the conversion to a state object to be able to pickle.
+        """
+        return ShutdownState()
-- 
2.43.0


From 7bc024c2ca784d4d4463df6541979492e492e5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 13/84] fix: the time spent processing does not delay the next
 wakeup

---
 asyncz/schedulers/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index d8455e1..8a2aef7 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1693,7 +1693,9 @@ class BaseScheduler(SchedulerType):
                 self.loggers[self.logger_name].debug("No tasks. Waiting until task is added.")
 
         else:
-            wait_seconds = min(max(timedelta_seconds(next_wakeup_time - now), 0), TIMEOUT_MAX)
+            # the processing itself took time
+            remaining = next_wakeup_time - datetime.now(dttz.utc)
+            wait_seconds = min(max(timedelta_seconds(remaining), 0), TIMEOUT_MAX)
             self.loggers[self.logger_name].debug(
                 f"Next wakeup is due at {next_wakeup_time} (in {wait_seconds} seconds)."
             )
-- 
2.43.0


From ff3608009d67e4394731568d583e03e91dbdac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 14/84] fix: order stored tasks by instant, not by wall clock
 reading, across a repeated hour

---
 asyncz/stores/file.py  | 7 ++++---
 asyncz/stores/redis.py | 7 +++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index 0bbb060..723e097 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -14,6 +14,7 @@ from asyncz.file_locking import LOCK_EX, LOCK_SH, with_lock
 from asyncz.stores.base import BaseStore
 from asyncz.tasks import Task
 from asyncz.tasks.types import TaskType
+from asyncz.utils import to_utc
 
 if TYPE_CHECKING:
     from asyncz.schedulers.types import SchedulerType
@@ -94,7 +95,7 @@ class FileStore(BaseStore):
         return [
             task
             for task in self.get_all_tasks()
-            if task.next_run_time is not None and task.next_run_time <= now
+            if task.next_run_time is not None and to_utc(task.next_run_time) <= to_utc(now)
         ]
 
     def get_tasks(self) -> list[TaskType]:
@@ -116,7 +117,7 @@ class FileStore(BaseStore):
                     tasks,
                     key=lambda task_stat: (
                         int(task_stat[0].next_run_time is None),
-                        task_stat[0].next_run_time,
+                        task_stat[0].next_run_time and to_utc(task_stat[0].next_run_time),
                         # sort for task creation not update
                         task_stat[1].st_ctime,
                     ),
@@ -128,7 +129,7 @@ class FileStore(BaseStore):
         for task in self.get_all_tasks():
             if task.next_run_time is None:
                 break
-            if next_run_time is None or next_run_time >= task.next_run_time:
+            if next_run_time is None or to_utc(next_run_time) >= to_utc(task.next_run_time):
                 next_run_time = task.next_run_time
         return next_run_time
 
diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index 0dba240..44c0393 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -8,7 +8,7 @@ from asyncz.exceptions import AsynczException, ConflictIdError, TaskLookupError
 from asyncz.stores.base import BaseStore
 from asyncz.tasks import Task
 from asyncz.tasks.types import TaskType
-from asyncz.utils import datetime_to_utc_timestamp, utc_timestamp_to_datetime
+from asyncz.utils import datetime_to_utc_timestamp, to_utc, utc_timestamp_to_datetime
 
 try:
     from redis import Redis
@@ -104,7 +104,10 @@ class RedisStore(BaseStore):
         states: list[tuple[str, Any]] = self.redis.hgetall(self.tasks_key)  # type: ignore
         tasks = self.rebuild_tasks(states.items())
         paused_sort_key = datetime(9999, 12, 31, tzinfo=tz.utc)
-        return sorted(tasks, key=lambda task: task.next_run_time or paused_sort_key)
+        return sorted(
+            tasks,
+            key=lambda task: to_utc(task.next_run_time) if task.next_run_time else paused_sort_key,
+        )
 
     def add_task(self, task: "TaskType") -> None:
         assert task.id
-- 
2.43.0


From 6b33250c6c812cd2b3cf1f2931314d9766c6f448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 15/84] fix: a submission takes its instance slot before it
 runs

---
 asyncz/executors/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asyncz/executors/base.py b/asyncz/executors/base.py
index eef1cae..dff60a5 100644
--- a/asyncz/executors/base.py
+++ b/asyncz/executors/base.py
@@ -65,8 +65,13 @@ class BaseExecutor(ExecutorType):
             if self.instances[task.id] >= task.max_instances:
                 raise MaximumInstancesError(task.id, task.max_instances)
 
-            self.do_send_task(task, run_times)
+            # take the slot first, the task may be submitted again before do_send_task returns
             self.instances[task.id] += 1
+            try:
+                self.do_send_task(task, run_times)
+            except BaseException:
+                self.instances[task.id] -= 1
+                raise
 
     def run_task_success(self, task_id: str, events: list[TaskExecutionEvent]) -> None:
         """
-- 
2.43.0


From 48cc7cea813dcb151cfc1944a9d28621585dde13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 16/84] fix: replace a broken process pool

---
 asyncz/executors/pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/executors/pool.py b/asyncz/executors/pool.py
index 2931f97..78d732e 100644
--- a/asyncz/executors/pool.py
+++ b/asyncz/executors/pool.py
@@ -43,7 +43,7 @@ class BasePoolExecutor(BaseExecutor):
             self.scheduler.loggers[self.logger_name].warning(
                 "Process pool is broken. Replacing pool with a new instance."
             )
-            self.pool = self.pool.__class__(self.pool.max_workers)
+            self.pool = self.pool.__class__(self.pool._max_workers)
             fn = self.pool.submit(run_task, task, task.store_alias, run_times, self.logger)
 
         fn.add_done_callback(callback)
-- 
2.43.0


From 705f1bddc7995b0e9879d960a7a6b77493b9393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 17/84] fix: waiting for a process pool to shut down can no
 longer hang on its log pipe

---
 asyncz/executors/process_pool.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/asyncz/executors/process_pool.py b/asyncz/executors/process_pool.py
index dadc051..b16ed88 100644
--- a/asyncz/executors/process_pool.py
+++ b/asyncz/executors/process_pool.py
@@ -34,7 +34,7 @@ class ProcessPoolLoggerSender:
 
 class ProcessPoolReceiver(Thread):
     def __init__(self, receive_pipe: connection.Connection, logger: "logging.Logger") -> None:
-        super().__init__()
+        super().__init__(daemon=True)
         self.receive_pipe = receive_pipe
         self.logger = logger
         self.start()
@@ -42,7 +42,10 @@ class ProcessPoolReceiver(Thread):
     def run(self) -> None:
         try:
             while True:
-                fn_name, args, kwargs = self.receive_pipe.recv()
+                message = self.receive_pipe.recv()
+                if message is None:
+                    break
+                fn_name, args, kwargs = message
                 if not fn_name.startswith("_"):
                     getattr(self.logger, fn_name)(*args, **kwargs)
         except EOFError:
@@ -77,5 +80,11 @@ class ProcessPoolExecutor(BasePoolExecutor):
 
     def shutdown(self, wait: bool = True) -> None:
         super().shutdown(wait=wait)
+        # the pipe may stay open elsewhere: in the workers of another pool or for runs which
+        # were never picked up by a worker, so don't rely on the end of file
+        finished = wait if self.overwrite_wait is None else self.overwrite_wait
+        if finished and not self.send_pipe.closed:
+            self.send_pipe.send(None)
         self.send_pipe.close()
-        self.logger_receiver.join()
+        if finished:
+            self.logger_receiver.join()
-- 
2.43.0


From c31066a0c4b3719af0f9a7663bc4c4d3ea59e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:40 +0000
Subject: [PATCH 18/84] fix: a task that changes itself or others while it is
 handed over keeps the change

---
 asyncz/schedulers/base.py | 56 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 8a2aef7..6467cd4 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -59,7 +59,13 @@ from asyncz.tasks.inspection import TaskInfo, TaskRunPreview
 from asyncz.tasks.types import TaskType
 from asyncz.triggers.types import TriggerType
 from asyncz.typing import Undefined, undefined
-from asyncz.utils import maybe_ref, timedelta_seconds, to_datetime, to_timezone_with_fallback
+from asyncz.utils import (
+    datetime_to_utc_timestamp,
+    maybe_ref,
+    timedelta_seconds,
+    to_datetime,
+    to_timezone_with_fallback,
+)
 
 if TYPE_CHECKING:
     from asyncz.protocols import LockProtectedProtocol
@@ -782,6 +788,17 @@ class BaseScheduler(SchedulerType):
             KeyError: If the configured executor cannot be found.
         """
 
+        # keep others from handing over or changing the task meanwhile
+        with self.store_lock:
+            return self._run_task(task_id, store, force, remove_finished)
+
+    def _run_task(
+        self,
+        task_id: Union[TaskType, str],
+        store: Optional[str],
+        force: bool,
+        remove_finished: bool,
+    ) -> Union[TaskType, None]:
         if self.state == SchedulerState.STATE_STOPPED:
             raise SchedulerNotRunningError()
 
@@ -803,6 +820,7 @@ class BaseScheduler(SchedulerType):
         assert task.executor is not None, "Task has no executor configured."
         executor = self.lookup_executor(task.executor)
 
+        scheduled_for = datetime_to_utc_timestamp(task.next_run_time)
         try:
             executor.send_task(task, run_times)
         except MaximumInstancesError:
@@ -841,6 +859,14 @@ class BaseScheduler(SchedulerType):
                 )
             )
 
+        # an executor may have run the task already and the task can have changed itself
+        current = self.get_task(task_id, store_alias)
+        if current is None:
+            return None
+        task = current
+        if datetime_to_utc_timestamp(task.next_run_time) != scheduled_for:
+            return task
+
         next_run_time = task.trigger.get_next_trigger_time(  # type: ignore[union-attr]
             self.timezone,
             run_times[-1],
@@ -1558,6 +1584,23 @@ class BaseScheduler(SchedulerType):
         """
         return RLockProtected()
 
+    def _reload_due_task(
+        self, store: StoreType, task: TaskType, scheduled_for: Optional[float]
+    ) -> Optional[TaskType]:
+        """
+        Returns the current version of a due task, None when it was removed or rescheduled.
+
+        An executor or listener running in this thread can change tasks during the processing.
+        """
+        current = store.lookup_task(cast(str, task.id))
+        if current is None:
+            return None
+        if isinstance(current, TaskType):
+            task = current
+        if datetime_to_utc_timestamp(task.next_run_time) != scheduled_for:
+            return None
+        return task
+
     def _process_tasks_of_store(
         self,
         now: datetime,
@@ -1585,7 +1628,12 @@ class BaseScheduler(SchedulerType):
                     next_wakeup_time = retry_wakeup_time
                 return next_wakeup_time
 
-            for task in due_tasks:
+            schedules = [datetime_to_utc_timestamp(task.next_run_time) for task in due_tasks]
+            for due_task, scheduled_for in zip(due_tasks, schedules):
+                task = self._reload_due_task(store, due_task, scheduled_for)
+                if task is None:
+                    continue
+
                 try:
                     executor = self.lookup_executor(task.executor)  # type: ignore
                 except Exception:
@@ -1630,6 +1678,10 @@ class BaseScheduler(SchedulerType):
                         )
                         events.append(event)
 
+                    task = self._reload_due_task(store, task, scheduled_for)
+                    if task is None:
+                        continue
+
                     next_run = task.trigger.get_next_trigger_time(  # type: ignore
                         self.timezone, run_times[-1], now
                     )
-- 
2.43.0


From 1f14a97ba752b057a3529026a9953baee361c840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:40 +0000
Subject: [PATCH 19/84] fix: no tasks are processed by a wakeup that arrives
 after the scheduler stopped

---
 asyncz/schedulers/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 6467cd4..d4e3538 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1709,6 +1709,9 @@ class BaseScheduler(SchedulerType):
         if self.state == SchedulerState.STATE_PAUSED:
             self.loggers[self.logger_name].debug("Scheduler is paused. Not processing tasks.")
             return None
+        if self.state == SchedulerState.STATE_STOPPED:
+            # a wakeup was still on its way when the scheduler was stopped
+            return None
 
         self.loggers[self.logger_name].debug("Looking for tasks to run.")
         now = datetime.now(dttz.utc)
-- 
2.43.0


From 2c7424a013b1361d0051e015ce730288f709eefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 20/84] fix: a run by hand wakes the scheduler for the task's
 new next run time

---
 asyncz/schedulers/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index d4e3538..34d0530 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -887,6 +887,10 @@ class BaseScheduler(SchedulerType):
             with self.store_lock:
                 self.lookup_store(store_alias).update_task(task)
 
+        # the task may be due earlier than whatever the scheduler is waiting for
+        if self.state == SchedulerState.STATE_RUNNING:
+            self.wakeup()
+
         return task
 
     def _coalesce_run_times(
-- 
2.43.0


From 7a5475d03a830c9a5dad8e731516adf0916c297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 21/84] fix: a file store never shows or keeps a half written
 task

---
 asyncz/file_locking.py |  6 ++--
 asyncz/stores/file.py  | 80 ++++++++++++++++++++++++++----------------
 2 files changed, 53 insertions(+), 33 deletions(-)

diff --git a/asyncz/file_locking.py b/asyncz/file_locking.py
index c5705f0..c2724e7 100644
--- a/asyncz/file_locking.py
+++ b/asyncz/file_locking.py
@@ -123,5 +123,7 @@ else:
 @contextmanager
 def with_lock(f: IO, flags: int) -> Generator[IO, None, None]:
     lock(f, flags)
-    yield f
-    unlock(f)
+    try:
+        yield f
+    finally:
+        unlock(f)
diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index 723e097..e06f256 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -4,7 +4,8 @@ import glob
 import os
 import pickle
 import shutil
-from contextlib import suppress
+from collections.abc import Generator
+from contextlib import contextmanager, suppress
 from datetime import datetime
 from pathlib import Path
 from typing import TYPE_CHECKING, Any, Optional, Union, cast
@@ -58,6 +59,25 @@ class FileStore(BaseStore):
             if char in self.forbidden_characters:
                 raise RuntimeError(f'Invalid character in task id: "{task_id}".')
 
+    @contextmanager
+    def lock_directory(self, flags: int) -> Generator[None, None, None]:
+        """
+        Keeps other users of the directory out while task files are read (shared) or changed.
+        """
+        with open(self.directory / ".lock", "ab") as lock_ob, with_lock(lock_ob, flags):
+            yield
+
+    def write_task(self, task_path: Path, task: TaskType) -> None:
+        """
+        Replaces the task file as a whole, so neither a reader nor a crash sees a part of it.
+        """
+        data = self.conditional_encrypt(
+            pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
+        )
+        temporary_path = self.directory / ".writing"
+        temporary_path.write_bytes(data)
+        os.replace(temporary_path, task_path)
+
     def start(self, scheduler: Any, alias: str) -> None:
         """
         When starting omits from the index any documents that lack next_run_time field.
@@ -75,12 +95,16 @@ class FileStore(BaseStore):
     def lookup_task(self, task_id: str) -> Optional[TaskType]:
         self.check_task_id(task_id)
         task_path = self.directory / f"{task_id}{self.suffix}"
-        try:
-            with open(task_path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
-                task = self.rebuild_task(read_ob.read())
-        except Exception:
-            task_path.unlink(missing_ok=True)
-            task = None
+        with self.lock_directory(LOCK_SH):
+            try:
+                with open(task_path, "rb") as read_ob:
+                    task = self.rebuild_task(read_ob.read())
+            except OSError:
+                # missing or not readable now, this says nothing about its content
+                task = None
+            except Exception:
+                task_path.unlink(missing_ok=True)
+                task = None
         return task
 
     def rebuild_task(self, state: Any) -> TaskType:
@@ -100,14 +124,17 @@ class FileStore(BaseStore):
 
     def get_tasks(self) -> list[TaskType]:
         tasks: list[tuple[TaskType, os.stat_result]] = []
-        with os.scandir(self.directory) as scanner:
+        with self.lock_directory(LOCK_SH), os.scandir(self.directory) as scanner:
             for entry in scanner:
                 if not entry.name.endswith(self.suffix) or not entry.is_file():
                     continue
                 try:
-                    with open(entry.path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
+                    with open(entry.path, "rb") as read_ob:
                         task = self.rebuild_task(read_ob.read())
                     tasks.append((task, entry.stat()))
+                except OSError:
+                    # missing or not readable now, this says nothing about its content
+                    continue
                 except Exception:
                     with suppress(FileNotFoundError):
                         os.unlink(entry.path)
@@ -139,41 +166,32 @@ class FileStore(BaseStore):
     def add_task(self, task: TaskType) -> None:
         self.check_task_id(task.id)
         task_path = self.directory / f"{task.id}{self.suffix}"
-        try:
-            with task_path.open("xb") as write_ob, with_lock(write_ob, LOCK_EX):
-                write_ob.write(
-                    self.conditional_encrypt(
-                        pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                    )
-                )
-        except FileExistsError:
-            raise ConflictIdError(task.id) from None
+        with self.lock_directory(LOCK_EX):
+            if task_path.exists():
+                raise ConflictIdError(task.id)
+            self.write_task(task_path, task)
 
     def update_task(self, task: TaskType) -> None:
         self.check_task_id(task.id)
         task_path = self.directory / f"{task.id}{self.suffix}"
-        try:
-            with task_path.open("r+b") as write_ob, with_lock(write_ob, LOCK_EX):
-                write_ob.truncate()
-                write_ob.write(
-                    self.conditional_encrypt(
-                        pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                    )
-                )
-        except FileNotFoundError:
-            raise TaskLookupError(task.id) from None
+        with self.lock_directory(LOCK_EX):
+            if not task_path.exists():
+                raise TaskLookupError(task.id)
+            self.write_task(task_path, task)
 
     def delete_task(self, task_id: str) -> None:
         self.check_task_id(task_id)
         task_path = self.directory / f"{task_id}{self.suffix}"
         try:
-            task_path.unlink(missing_ok=False)
+            with self.lock_directory(LOCK_EX):
+                task_path.unlink(missing_ok=False)
         except FileNotFoundError:
             raise TaskLookupError(task_id) from None
 
     def remove_all_tasks(self) -> None:
-        for task_path in self.directory.glob(f"*{glob.escape(self.suffix)}"):
-            task_path.unlink(missing_ok=True)
+        with self.lock_directory(LOCK_EX):
+            for task_path in self.directory.glob(f"*{glob.escape(self.suffix)}"):
+                task_path.unlink(missing_ok=True)
 
     def __repr__(self) -> str:
         return f"<{self.__class__.__name__} (directory={self.directory})>"
-- 
2.43.0


From f255998b84ded3c122478e1f6c5c98a17f78c624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:33 +0000
Subject: [PATCH 22/84] fix: a reference to a callable leads back to that
 callable

---
 asyncz/utils.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/asyncz/utils.py b/asyncz/utils.py
index 13a6dc5..d52c106 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -261,6 +261,9 @@ def obj_to_ref(obj: Any) -> str:
         raise ValueError("Cannot create a reference to a partial()")
 
     name = get_callable_name(obj)
+    if inspect.ismethod(obj) and inspect.isclass(obj.__self__):
+        # an inherited class method is named after the class it is defined in
+        name = f"{obj.__self__.__qualname__}.{obj.__name__}"
     if "<lambda>" in name:
         raise ValueError("Cannot create a reference to a lambda")
     if "<locals>" in name:
@@ -271,11 +274,20 @@ def obj_to_ref(obj: Any) -> str:
             module = obj.im_self.__module__
         elif hasattr(obj, "im_class") and obj.im_class:
             module = obj.im_class.__module__
+        elif inspect.isclass(obj.__self__):
+            module = obj.__self__.__module__
         else:
             module = obj.__module__
     else:
         module = obj.__module__
-    return f"{module}:{name}"
+    reference = f"{module}:{name}"
+    try:
+        target = ref_to_obj(reference)
+    except LookupError:
+        target = None
+    if target != obj and target is not getattr(obj, "__func__", obj):
+        raise ValueError(f"Cannot create a reference that leads back to {obj!r}")
+    return reference
 
 
 def ref_to_obj(ref: str) -> Any:
-- 
2.43.0


From 92ad8ae2ac76b476510a11f5625d492f64692f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:34 +0000
Subject: [PATCH 23/84] fix: a failing store does not stop the processing of
 the others

---
 asyncz/locks.py           |  8 +++++---
 asyncz/schedulers/base.py | 15 ++++++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/asyncz/locks.py b/asyncz/locks.py
index d9412a0..ad0e088 100644
--- a/asyncz/locks.py
+++ b/asyncz/locks.py
@@ -36,9 +36,11 @@ class LockProtected(LockProtectedProtocol):
         self, blocking: bool = False, timeout: Optional[int] = None
     ) -> Generator[bool, None, None]:
         locked = self.lock.acquire(blocking, -1 if timeout is None else timeout)
-        yield locked
-        if locked:
-            self.lock.release()
+        try:
+            yield locked
+        finally:
+            if locked:
+                self.lock.release()
 
 
 class RLockProtected(LockProtected):
diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 34d0530..49d9cd7 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1728,9 +1728,18 @@ class BaseScheduler(SchedulerType):
                 # threading lock
                 with self.store_lock:
                     for store_alias, store in self.stores.items():
-                        next_wakeup_time = self._process_tasks_of_store(
-                            now, next_wakeup_time, store_alias, store, events
-                        )
+                        try:
+                            next_wakeup_time = self._process_tasks_of_store(
+                                now, next_wakeup_time, store_alias, store, events
+                            )
+                        except Exception as e:
+                            # the other stores are processed and this one is retried
+                            self.loggers[self.logger_name].exception(
+                                f'Error processing the tasks of the store "{store_alias}": {e}.'
+                            )
+                            retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
+                            if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
+                                next_wakeup_time = retry_wakeup_time
             else:
                 retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
                 if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
-- 
2.43.0


From 6a40d5b0928ce023fb800747da9b350c2f1be612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:44 +0000
Subject: [PATCH 24/84] fix: shutdown of the asyncio schedulers returns whether
 it terminated them

---
 asyncz/schedulers/asyncio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index bc75208..d4f2671 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -71,7 +71,7 @@ class AsyncIOScheduler(BaseScheduler):
         # not decremented yet so +1
         result = self.ref_counter
         self._shutdown(wait)
-        return result > 1
+        return result == 1
 
     def _setup(self, config: Any) -> None:
         self.event_loop = maybe_ref(config.pop("event_loop", None))
@@ -142,7 +142,7 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
                 self.event_loop.stop()
                 self.event_loop = self.event_loop_thread = None
                 await asyncio.to_thread(thread.join)
-        return result > 1
+        return result == 1
 
     def _setup(self, config: Any) -> None:
         self.isolated_event_loop = bool(config.pop("isolated_event_loop", False))
-- 
2.43.0


From 51659e600f97d1d7296fd494bc25b2fafa83f35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:44 +0000
Subject: [PATCH 25/84] fix: a refused shutdown does not count against later
 starts

---
 asyncz/schedulers/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 49d9cd7..5604366 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -280,6 +280,8 @@ class BaseScheduler(SchedulerType):
             return False
 
         if self.state == SchedulerState.STATE_STOPPED:
+            # a refused shutdown does not count
+            self.inc_refcount()
             raise SchedulerNotRunningError()
 
         self.state = SchedulerState.STATE_STOPPED
-- 
2.43.0


From 4066f618c1b43c45ba95abe7fe10708a66e22f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:55 +0000
Subject: [PATCH 26/84] fix: a task paused before the start stays paused

---
 asyncz/schedulers/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 5604366..f61b5cb 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -689,6 +689,14 @@ class BaseScheduler(SchedulerType):
 
             if store:
                 self.lookup_store(store).update_task(task)
+            elif "next_run_time" in updates:
+                # a task paused before the start stays paused
+                self.pending_tasks = [
+                    (pending[0], pending[1], task.next_run_time is not None)
+                    if pending[0] is task
+                    else pending
+                    for pending in self.pending_tasks
+                ]
 
         self.dispatch_event(TaskEvent(code=TASK_MODIFIED, task_id=task_id, store=store))
 
-- 
2.43.0


From 7ba6aa2357431c6721fb13e3a5452e9bdcd0d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:32 +0000
Subject: [PATCH 27/84] fix: a failed start does not count as a start

---
 asyncz/schedulers/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index f61b5cb..a6d0674 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -205,6 +205,15 @@ class BaseScheduler(SchedulerType):
         """
         if not self.inc_refcount():
             return False
+        try:
+            return self._start(paused)
+        except BaseException:
+            if self.state == SchedulerState.STATE_STOPPED:
+                # a failed start does not count
+                self.decr_refcount()
+            raise
+
+    def _start(self, paused: bool) -> bool:
         # should not happen, ref_counter should protect
         assert self.state == SchedulerState.STATE_STOPPED
 
-- 
2.43.0


From c46b24ce9570a84a55edc5a2669de0ed56cb3616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 28/84] fix: a pool executor takes tasks again when its
 scheduler is started again

---
 asyncz/executors/pool.py         | 17 +++++++++++++++--
 asyncz/executors/process_pool.py |  4 +++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/asyncz/executors/pool.py b/asyncz/executors/pool.py
index 78d732e..6900298 100644
--- a/asyncz/executors/pool.py
+++ b/asyncz/executors/pool.py
@@ -16,12 +16,24 @@ class BasePoolExecutor(BaseExecutor):
     model_config = ConfigDict(extra="allow", arbitrary_types_allowed=True, populate_by_name=True)
     cancel_futures: bool = False
     overwrite_wait: Optional[bool] = None
+    pool_kwargs: Optional[Any] = None
+    pool_is_shutdown: bool = False
 
     @abstractmethod
     def __init__(self, pool: Any, **kwargs: Any) -> None:
         super().__init__(**kwargs)
         self.pool = pool
 
+    def start(self, scheduler: Any, alias: str) -> None:
+        super().start(scheduler, alias)
+        if self.pool_is_shutdown:
+            # a pool which was shut down doesn't take tasks anymore
+            self.pool = self.create_pool()
+            self.pool_is_shutdown = False
+
+    def create_pool(self) -> Any:
+        return self.pool.__class__(self.pool._max_workers, **(self.pool_kwargs or {}))
+
     def do_send_task(self, task: "TaskType", run_times: list[datetime]) -> Any:
         task_id = task.id
         assert task_id is not None, "Cannot send decorator type task"
@@ -43,7 +55,7 @@ class BasePoolExecutor(BaseExecutor):
             self.scheduler.loggers[self.logger_name].warning(
                 "Process pool is broken. Replacing pool with a new instance."
             )
-            self.pool = self.pool.__class__(self.pool._max_workers)
+            self.pool = self.create_pool()
             fn = self.pool.submit(run_task, task, task.store_alias, run_times, self.logger)
 
         fn.add_done_callback(callback)
@@ -51,6 +63,7 @@ class BasePoolExecutor(BaseExecutor):
     def shutdown(self, wait: bool = True) -> None:
         if self.overwrite_wait is not None:
             wait = self.overwrite_wait
+        self.pool_is_shutdown = True
         self.pool.shutdown(wait, cancel_futures=self.cancel_futures)
 
 
@@ -64,6 +77,6 @@ class ThreadPoolExecutor(BasePoolExecutor):
     """
 
     def __init__(self, max_workers: int = 10, pool_kwargs: Optional[Any] = None, **kwargs: Any):
-        pool_kwargs = pool_kwargs or {}
+        self.pool_kwargs = pool_kwargs = pool_kwargs or {}
         pool = concurrent.futures.ThreadPoolExecutor(int(max_workers), **pool_kwargs)
         super().__init__(pool, **kwargs)
diff --git a/asyncz/executors/process_pool.py b/asyncz/executors/process_pool.py
index b16ed88..732e156 100644
--- a/asyncz/executors/process_pool.py
+++ b/asyncz/executors/process_pool.py
@@ -66,13 +66,15 @@ class ProcessPoolExecutor(BasePoolExecutor):
         self, max_workers: int = 10, pool_kwargs: Optional[Any] = None, **kwargs: Any
     ) -> None:
         self.receive_pipe, self.send_pipe = Pipe(False)
-        pool_kwargs = pool_kwargs or {}
+        self.pool_kwargs = pool_kwargs = pool_kwargs or {}
         pool = concurrent.futures.ProcessPoolExecutor(int(max_workers), **pool_kwargs)
         super().__init__(pool, **kwargs)
 
     def start(self, scheduler: "SchedulerType", alias: str) -> None:
         super().start(scheduler, alias)
         assert self.logger is not None, "logger is None"
+        if self.send_pipe.closed:
+            self.receive_pipe, self.send_pipe = Pipe(False)
         # move the old logger to logger_receiver
         self.logger_receiver = ProcessPoolReceiver(self.receive_pipe, self.logger)
         # and send the process logger instead
-- 
2.43.0


From 15aba48ef810a951ea7e5451b88d2b8e59466193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:18 +0000
Subject: [PATCH 29/84] fix: an asyncio scheduler can be started again after
 its event loop was closed

---
 asyncz/schedulers/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index d4f2671..291be00 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -42,7 +42,7 @@ class AsyncIOScheduler(BaseScheduler):
             loop.close()
 
     def start(self, paused: bool = False) -> bool:
-        if not self.event_loop:
+        if not self.event_loop or self.event_loop.is_closed():
             try:
                 if self.isolated_event_loop:
                     raise RuntimeError()
-- 
2.43.0


From 1196cea4a70f2e5b9ed79fdec83f3e7e0b4e82b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:43 +0000
Subject: [PATCH 30/84] fix: a scheduler owning its event loop finishes its
 coroutine shutdown tasks

---
 asyncz/schedulers/asyncio.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index 291be00..b1ff04a 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -30,6 +30,7 @@ class AsyncIOScheduler(BaseScheduler):
     isolated_event_loop: bool = False
     event_loop_thread: Optional[Thread] = None
     timer: Optional[Any] = None
+    _shutdown_handle: Any = None
 
     def _init_new_loop(self, event: Event) -> None:
         # called in thread
@@ -56,13 +57,21 @@ class AsyncIOScheduler(BaseScheduler):
                 event.wait()
         return super().start(paused)
 
+    def handle_shutdown_coros(self, coros: Sequence[Any]) -> None:
+        self._shutdown_handle = asyncio.gather(*coros) if coros else None
+
     @run_in_event_loop
     def _shutdown(self, wait: bool = True) -> None:
         if super().shutdown(wait):
             self.stop_timer()
             thread = self.event_loop_thread
             if thread:
-                self.event_loop.stop()
+                loop = self.event_loop
+                if self._shutdown_handle is None:
+                    loop.stop()
+                else:
+                    # the thread ends when the coroutines have finished
+                    self._shutdown_handle.add_done_callback(lambda _: loop.stop())
                 self.event_loop = self.event_loop_thread = None
                 with contextlib.suppress(RuntimeError):
                     thread.join()
-- 
2.43.0


From fb9a1470c312f00d29e1654c3473d4fd15df8bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 31/84] fix: the shutdown of an isolated native scheduler does
 not hang

---
 asyncz/schedulers/asyncio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index b1ff04a..41b07cd 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -148,7 +148,8 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
             self.stop_timer()
             thread = self.event_loop_thread
             if thread:
-                self.event_loop.stop()
+                # the event loop runs in another thread
+                self.event_loop.call_soon_threadsafe(self.event_loop.stop)
                 self.event_loop = self.event_loop_thread = None
                 await asyncio.to_thread(thread.join)
         return result == 1
-- 
2.43.0


From fc8857f793f3c8f9dc793c7c540b629647eb5046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:19 +0000
Subject: [PATCH 32/84] fix: the uptime of a scheduler counts elapsed time
 across clock changes

---
 asyncz/schedulers/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index a6d0674..c885812 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1146,7 +1146,7 @@ class BaseScheduler(SchedulerType):
         task_infos = self.get_task_infos()
         started_at = self.started_at if state != SchedulerState.STATE_STOPPED else None
         uptime_seconds = (
-            max(0.0, (datetime.now(self.timezone) - started_at).total_seconds())
+            max(0.0, (datetime.now(dttz.utc) - started_at).total_seconds())
             if started_at is not None
             else None
         )
-- 
2.43.0


From 6d7a9830ed8bc4ab14e2da14275c6e2937c73035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 33/84] fix: task listings are sorted by instant across clock
 changes

---
 asyncz/schedulers/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index c885812..04119b4 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1047,14 +1047,14 @@ class BaseScheduler(SchedulerType):
             "name": lambda info: ((info.name or "").lower(), (info.id or "").lower()),
             "next_run_time": lambda info: (
                 info.next_run_time is None,
-                info.next_run_time or datetime.max.replace(tzinfo=self.timezone),
+                datetime_to_utc_timestamp(info.next_run_time) or 0,
                 (info.name or "").lower(),
                 (info.id or "").lower(),
             ),
             "schedule_state": lambda info: (
                 info.schedule_state.value,
                 info.next_run_time is None,
-                info.next_run_time or datetime.max.replace(tzinfo=self.timezone),
+                datetime_to_utc_timestamp(info.next_run_time) or 0,
                 (info.id or "").lower(),
             ),
             "executor": lambda info: ((info.executor or "").lower(), (info.id or "").lower()),
-- 
2.43.0


From e43ad8fe309b97639cbf271f64210c6171e9983c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:45 +0000
Subject: [PATCH 34/84] fix: resuming a pending task resumes the one in the
 given store

---
 asyncz/schedulers/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 04119b4..b0b522e 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -759,7 +759,8 @@ class BaseScheduler(SchedulerType):
             assert task_id.id, "Cannot resume decorator style Task"
             task_id = task_id.id
         with self.store_lock:
-            task, store = self.lookup_task(task_id, store)
+            task, found_in = self.lookup_task(task_id, store)
+            store = found_in or store
             now = datetime.now(self.timezone)
             next_run_time = task.trigger.get_next_trigger_time(self.timezone, None, now)  # type: ignore
 
-- 
2.43.0


From 0f11b01961ed801d1e68b41cbc68b59ad1c7f3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 35/84] fix: keyword arguments named like a positional-only
 parameter are accepted by functions taking any

---
 asyncz/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asyncz/utils.py b/asyncz/utils.py
index d52c106..5d6d036 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -382,6 +382,8 @@ def check_callable_args(func: Callable[..., Any], args: Any, kwargs: Any) -> Non
             elif param.name in unmatched_kwargs:
                 unmatched_kwargs.remove(param.name)
                 positional_only_kwargs.append(param.name)
+                if param.default is param.empty:
+                    unsatisfied_args.append(param.name)
             elif param.default is param.empty:
                 unsatisfied_args.append(param.name)
         elif param.kind == param.KEYWORD_ONLY:
@@ -401,7 +403,8 @@ def check_callable_args(func: Callable[..., Any], args: Any, kwargs: Any) -> Non
             )
         )
 
-    if positional_only_kwargs:
+    # otherwise they are collected by the var-keyword parameter
+    if positional_only_kwargs and not has_var_kwargs:
         raise ValueError(
             "The following arguments cannot be given as keyword arguments: {}".format(
                 ", ".join(positional_only_kwargs)
-- 
2.43.0


From 8428ea2c92360af61e116882ab349174ca9546fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 36/84] fix: an iterator given as the arguments of a task is
 not used up by the validation

---
 asyncz/tasks/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asyncz/tasks/base.py b/asyncz/tasks/base.py
index 20ffc8f..6d07a1e 100644
--- a/asyncz/tasks/base.py
+++ b/asyncz/tasks/base.py
@@ -119,6 +119,8 @@ class Task(BaseState, TaskType):  # type: ignore
 
             if isinstance(args, str) or not isinstance(args, Iterable):
                 raise TypeError("args must be a non-string iterable.")
+            if not isinstance(args, Sequence):
+                args = tuple(args)  # an iterator can be read only once
             if isinstance(kwargs, str) or not isinstance(kwargs, Mapping):
                 raise TypeError("kwargs must be a dict-like object.")
 
-- 
2.43.0


From baaa64ae5bdd949714c75338a277d8a83f5386f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 37/84] fix: updating, pausing and rescheduling a task given as
 object

---
 asyncz/schedulers/base.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index b0b522e..d2275f3 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -686,7 +686,23 @@ class BaseScheduler(SchedulerType):
             )
             if not isinstance(new_updates, Mapping):
                 raise TypeError("Task snapshots must dump to a mapping.")
-            new_updates = dict(new_updates)
+            # the dump holds also fields which cannot be updated, and triggers as mappings
+            new_updates = {
+                key: getattr(task_id, key)
+                for key in (
+                    "fn",
+                    "args",
+                    "kwargs",
+                    "name",
+                    "coalesce",
+                    "trigger",
+                    "executor",
+                    "mistrigger_grace_time",
+                    "max_instances",
+                    "next_run_time",
+                )
+                if key in new_updates
+            }
             new_updates.update(**updates)
             task_id = task_id.id
         else:
@@ -730,6 +746,9 @@ class BaseScheduler(SchedulerType):
             store: Alias of the task store that contains the task.
             trigger: Alias of the trigger type or a trigger instance.
         """
+        if isinstance(task_id, TaskType):
+            assert task_id.id, "Cannot reschedule decorator style Task"
+            task_id = task_id.id
         trigger = self.create_trigger(trigger, trigger_args)
         now = datetime.now(self.timezone)
         next_run_time = trigger.get_next_trigger_time(self.timezone, None, now)
@@ -743,6 +762,9 @@ class BaseScheduler(SchedulerType):
             task_id: The identifier of the task.
             store: Alias of the task store that contains the task.
         """
+        if isinstance(task_id, TaskType):
+            assert task_id.id, "Cannot pause decorator style Task"
+            task_id = task_id.id
         return self.update_task(task_id, store, next_run_time=None)
 
     def resume_task(
-- 
2.43.0


From c34ae5d440060a86fd9a6bb5ba8e423438722f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:05 +0000
Subject: [PATCH 38/84] fix: a default of no missed-start limit is used for new
 tasks

---
 asyncz/schedulers/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index d2275f3..7069154 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -648,7 +648,6 @@ class BaseScheduler(SchedulerType):
         task_defaults = self.shape.dump(
             self.task_defaults,
             context=task_default_context,
-            exclude_none=True,
         )
         if not isinstance(task_defaults, Mapping):
             raise TypeError("Task defaults must dump to a mapping.")
-- 
2.43.0


From 5e8ac6118f55041b3ad038f5360820bc4b245477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:05 +0000
Subject: [PATCH 39/84] fix: a task definition can be submitted with an id

---
 asyncz/schedulers/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 7069154..f1c7c30 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -577,6 +577,8 @@ class BaseScheduler(SchedulerType):
             # tweak task before submitting
             # WARNING: in contrast to the decorator mode this really updates the task
             # by providing an id (e.g. autogenerated) you can make a real task from decorator type task while submitting
+            if id and fn_or_task.id is None:
+                fn_or_task.id, id = id, None
             task_update_kwargs: dict[str, Any] = {
                 "scheduler": self,
                 "args": tuple(args) if args is not None else undefined,
-- 
2.43.0


From 8e642323e9c64ef8f1cfb4b43dd0aa33cd1c34da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:05 +0000
Subject: [PATCH 40/84] fix: the event of an added task names its store

---
 asyncz/schedulers/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index f1c7c30..ac2aa7f 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1545,7 +1545,9 @@ class BaseScheduler(SchedulerType):
                 raise exc
         task.pending = False
 
-        event = TaskEvent(code=TASK_ADDED, task_id=task.id, alias=task.store_alias)
+        event = TaskEvent(
+            code=TASK_ADDED, task_id=task.id, alias=task.store_alias, store=task.store_alias
+        )
         self.dispatch_event(event)
 
         self.loggers[self.logger_name].info(
-- 
2.43.0


From c4e36366001e562cdfeba252d9f0a27adb6cacc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:56 +0000
Subject: [PATCH 41/84] fix: task snapshots are not taken in the middle of an
 update

---
 asyncz/schedulers/base.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index ac2aa7f..c98ad4a 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -990,8 +990,9 @@ class BaseScheduler(SchedulerType):
         scheduler metadata.
         """
 
-        task = self.get_task(task_id, store)
-        return task.snapshot() if task is not None else None
+        with self.store_lock:
+            task = self.get_task(task_id, store)
+            return task.snapshot() if task is not None else None
 
     def get_task_infos(
         self,
@@ -1033,7 +1034,8 @@ class BaseScheduler(SchedulerType):
                 else TaskScheduleState(str(schedule_state).strip().lower())
             )
 
-        infos = [task.snapshot() for task in self.get_tasks(store)]
+        with self.store_lock:
+            infos = [task.snapshot() for task in self.get_tasks(store)]
         if resolved_state is not None:
             infos = [info for info in infos if info.schedule_state is resolved_state]
 
@@ -1116,16 +1118,17 @@ class BaseScheduler(SchedulerType):
         if not 1 <= count <= 50:
             raise ValueError("count must be between 1 and 50.")
 
-        task = self.get_task(task_id, store)
-        if task is None:
-            return None
+        with self.store_lock:
+            task = self.get_task(task_id, store)
+            if task is None:
+                return None
+            info, trigger, next_run_time = task.snapshot(), task.trigger, task.next_run_time
 
         preview_now = to_datetime(now or datetime.now(self.timezone), self.timezone, "now")
         assert preview_now is not None
-        trigger = task.trigger
         if trigger is None:
             return TaskRunPreview(
-                task=task.snapshot(),
+                task=info,
                 timezone=str(self.timezone),
                 generated_at=preview_now,
                 requested_count=count,
@@ -1134,7 +1137,7 @@ class BaseScheduler(SchedulerType):
             )
 
         run_times: list[datetime] = []
-        next_run_time = task.next_run_time or trigger.get_next_trigger_time(
+        next_run_time = next_run_time or trigger.get_next_trigger_time(
             self.timezone, None, preview_now
         )
         exhausted = next_run_time is None
@@ -1148,7 +1151,7 @@ class BaseScheduler(SchedulerType):
             exhausted = next_run_time is None
 
         return TaskRunPreview(
-            task=task.snapshot(),
+            task=info,
             timezone=str(self.timezone),
             generated_at=preview_now,
             requested_count=count,
-- 
2.43.0


From 9dedb21cc0ef72e97008d2f9e4bbd8b855cf8909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:39 +0000
Subject: [PATCH 42/84] fix: a limit of zero returns no trail entries

---
 asyncz/contrib/dashboard/audit.py        | 4 ++--
 asyncz/contrib/dashboard/events.py       | 4 ++--
 asyncz/contrib/dashboard/history.py      | 4 ++--
 asyncz/contrib/dashboard/logs/storage.py | 7 +++----
 4 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/asyncz/contrib/dashboard/audit.py b/asyncz/contrib/dashboard/audit.py
index 4f4b1f2..25d0716 100644
--- a/asyncz/contrib/dashboard/audit.py
+++ b/asyncz/contrib/dashboard/audit.py
@@ -89,6 +89,8 @@ class MemoryAuditTrailStorage:
 
         out: list[AuditRecord] = []
         for record in records:
+            if len(out) >= limit:
+                break
             if action_filter and record.action != action_filter:
                 continue
             if status_filter and record.status != status_filter:
@@ -109,8 +111,6 @@ class MemoryAuditTrailStorage:
                 if needle not in haystack:
                     continue
             out.append(record)
-            if len(out) >= limit:
-                break
         return out
 
     def summary(self) -> dict[str, int]:
diff --git a/asyncz/contrib/dashboard/events.py b/asyncz/contrib/dashboard/events.py
index 7dc4147..a158180 100644
--- a/asyncz/contrib/dashboard/events.py
+++ b/asyncz/contrib/dashboard/events.py
@@ -125,6 +125,8 @@ class MemorySchedulerEventStorage:
 
         out: list[SchedulerEventRecord] = []
         for record in reversed(records):
+            if len(out) >= limit:
+                break
             if category_filter and record.category != category_filter:
                 continue
             if name_filter and record.name != name_filter:
@@ -148,8 +150,6 @@ class MemorySchedulerEventStorage:
                 if needle not in haystack:
                     continue
             out.append(record)
-            if len(out) >= limit:
-                break
         return out
 
     def summary(self) -> dict[str, int]:
diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index 0bc53e4..438aca8 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -114,6 +114,8 @@ class MemoryRunHistoryStorage:
 
         out: list[RunRecord] = []
         for record in sorted(records, key=sort_key, reverse=True):
+            if len(out) >= limit:
+                break
             if task_id and record.task_id != task_id:
                 continue
             if status_filter and record.status != status_filter:
@@ -137,8 +139,6 @@ class MemoryRunHistoryStorage:
                 if needle not in haystack:
                     continue
             out.append(record)
-            if len(out) >= limit:
-                break
         return out
 
     def summary(self) -> dict[str, int]:
diff --git a/asyncz/contrib/dashboard/logs/storage.py b/asyncz/contrib/dashboard/logs/storage.py
index e8a8a1c..9bee2f2 100644
--- a/asyncz/contrib/dashboard/logs/storage.py
+++ b/asyncz/contrib/dashboard/logs/storage.py
@@ -192,6 +192,9 @@ class MemoryLogStorage(LogStorage):
         with self.mutex:
             # Iterate in reverse order (newest first)
             for e in reversed(self.buffer):
+                # Check limit and break if reached
+                if len(out) >= limit:
+                    break
                 # Filter 1: task_id
                 if task_id and e.task_id != task_id:
                     continue
@@ -212,10 +215,6 @@ class MemoryLogStorage(LogStorage):
 
                 out.append(e)
 
-                # Check limit and break if reached
-                if len(out) >= limit:
-                    break
-
         # Returns a list, which is a common pattern for returning a finite result set from a query
         return out
 
-- 
2.43.0


From 86e89fd5674a70c588e9c165fa8935742b89ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:02 +0000
Subject: [PATCH 43/84] fix: run identifiers of look-alike task and store names
 differ

---
 asyncz/contrib/dashboard/history.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index 438aca8..d2066a1 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -428,8 +428,7 @@ def _run_key(
 
 
 def _run_id(key: tuple[str, str | None, str]) -> str:
-    raw = "|".join(part or "" for part in key)
-    return hashlib.sha256(raw.encode()).hexdigest()[:20]
+    return hashlib.sha256(repr(key).encode()).hexdigest()[:20]
 
 
 def _task_metadata(scheduler: Any, task_id: str, store: str | None) -> dict[str, Any]:
-- 
2.43.0


From a8a9da7e5c84277691d4cb6416c4c396177190e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:12 +0000
Subject: [PATCH 44/84] fix: a run's record is read and changed as a whole

---
 asyncz/contrib/dashboard/history.py | 105 +++++++++++++++-------------
 1 file changed, 55 insertions(+), 50 deletions(-)

diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index d2066a1..941c0be 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -5,7 +5,7 @@ import hashlib
 import threading
 import weakref
 from collections import deque
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from datetime import datetime, timedelta, timezone
 from typing import Any
 
@@ -72,7 +72,7 @@ class MemoryRunHistoryStorage:
         self._records: dict[str, RunRecord] = {}
         self._order: deque[str] = deque()
         self._key_index: dict[tuple[str, str | None, str], str] = {}
-        self._lock = threading.Lock()
+        self._lock = threading.RLock()
 
     def clear(self) -> None:
         with self._lock:
@@ -82,7 +82,8 @@ class MemoryRunHistoryStorage:
 
     def get(self, run_id: str) -> RunRecord | None:
         with self._lock:
-            return self._records.get(run_id)
+            record = self._records.get(run_id)
+            return replace(record) if record is not None else None
 
     def latest_for_task(self, task_id: str) -> RunRecord | None:
         matches = self.query(task_id=task_id, limit=1)
@@ -101,7 +102,7 @@ class MemoryRunHistoryStorage:
         status_filter = (status or "").strip().lower()
         source_filter = (source or "").strip().lower()
         with self._lock:
-            records = list(self._records.values())
+            records = [replace(record) for record in self._records.values()]
 
         def sort_key(record: RunRecord) -> datetime:
             return (
@@ -143,7 +144,7 @@ class MemoryRunHistoryStorage:
 
     def summary(self) -> dict[str, int]:
         with self._lock:
-            records = list(self._records.values())
+            records = [replace(record) for record in self._records.values()]
         return {
             "total": len(records),
             "running": sum(1 for record in records if record.status == "running"),
@@ -163,29 +164,32 @@ class MemoryRunHistoryStorage:
         now = _utc_now()
         source = str(getattr(event, "source", None) or "scheduled")
         status = "max_instances" if event.code == TASK_MAX_INSTANCES else "running"
+        metadata = _task_metadata(scheduler, event.task_id, event.store)
+        identity = event.scheduler_identity or _scheduler_identity(scheduler)
         records: list[RunRecord] = []
 
         for scheduled_run_time in event.scheduled_run_times:
-            record = self._upsert(
-                task_id=event.task_id,
-                store=event.store,
-                scheduled_run_time=scheduled_run_time,
-                scheduler=scheduler,
-                scheduler_identity=event.scheduler_identity,
-                now=now,
-            )
-            was_terminal = record.status in TERMINAL_STATUSES
-            record.source = source
-            record.coalesced_run_count = max(
-                record.coalesced_run_count,
-                event.coalesced_run_count,
-            )
-            record.submitted_at = record.submitted_at or (record.finished_at or now)
-            if record.status not in TERMINAL_STATUSES:
-                record.status = status
-            if status == "max_instances":
-                record.finished_at = record.finished_at or now
-            record.updated_at = now
+            with self._lock:
+                record = self._upsert(
+                    task_id=event.task_id,
+                    store=event.store,
+                    scheduled_run_time=scheduled_run_time,
+                    metadata=metadata,
+                    scheduler_identity=identity,
+                    now=now,
+                )
+                was_terminal = record.status in TERMINAL_STATUSES
+                record.source = source
+                record.coalesced_run_count = max(
+                    record.coalesced_run_count,
+                    event.coalesced_run_count,
+                )
+                record.submitted_at = record.submitted_at or (record.finished_at or now)
+                if record.status not in TERMINAL_STATUSES:
+                    record.status = status
+                if status == "max_instances":
+                    record.finished_at = record.finished_at or now
+                record.updated_at = now
             records.append(record)
 
             if log_storage is not None:
@@ -214,25 +218,28 @@ class MemoryRunHistoryStorage:
         log_storage: LogStorage | None = None,
     ) -> RunRecord:
         now = _utc_now()
-        record = self._upsert(
-            task_id=event.task_id,
-            store=event.store,
-            scheduled_run_time=event.scheduled_run_time,
-            scheduler=scheduler,
-            scheduler_identity=event.scheduler_identity,
-            now=now,
-        )
-        record.finished_at = now
-        record.submitted_at = record.submitted_at or now
-        record.status = _status_from_execution_code(event.code)
-        record.return_value = (
-            _safe_repr(event.return_value) if event.return_value is not None else None
-        )
-        record.exception_type = _exception_type(event.exception)
-        record.exception_message = _safe_str(event.exception)
-        record.exception = _safe_repr(event.exception) if event.exception is not None else None
-        record.traceback = event.traceback
-        record.updated_at = now
+        metadata = _task_metadata(scheduler, event.task_id, event.store)
+        identity = event.scheduler_identity or _scheduler_identity(scheduler)
+        with self._lock:
+            record = self._upsert(
+                task_id=event.task_id,
+                store=event.store,
+                scheduled_run_time=event.scheduled_run_time,
+                metadata=metadata,
+                scheduler_identity=identity,
+                now=now,
+            )
+            record.finished_at = now
+            record.submitted_at = record.submitted_at or now
+            record.status = _status_from_execution_code(event.code)
+            record.return_value = (
+                _safe_repr(event.return_value) if event.return_value is not None else None
+            )
+            record.exception_type = _exception_type(event.exception)
+            record.exception_message = _safe_str(event.exception)
+            record.exception = _safe_repr(event.exception) if event.exception is not None else None
+            record.traceback = event.traceback
+            record.updated_at = now
 
         if log_storage is not None:
             if record.status == "succeeded":
@@ -267,14 +274,12 @@ class MemoryRunHistoryStorage:
         task_id: str,
         store: str | None,
         scheduled_run_time: Any,
-        scheduler: Any,
+        metadata: dict[str, Any],
         scheduler_identity: str | None,
         now: datetime,
     ) -> RunRecord:
         normalized_run_time = _normalize_run_time(scheduled_run_time)
         key = _run_key(task_id, store, normalized_run_time)
-        metadata = _task_metadata(scheduler, task_id, store)
-        run_scheduler_identity = scheduler_identity or _scheduler_identity(scheduler)
 
         with self._lock:
             run_id = self._key_index.get(key)
@@ -286,7 +291,7 @@ class MemoryRunHistoryStorage:
                     task_id=task_id,
                     store=store,
                     scheduled_run_time=normalized_run_time,
-                    scheduler_identity=run_scheduler_identity,
+                    scheduler_identity=scheduler_identity,
                     created_at=now,
                     updated_at=now,
                     **metadata,
@@ -299,8 +304,8 @@ class MemoryRunHistoryStorage:
                 for field, value in metadata.items():
                     if value and not getattr(record, field):
                         setattr(record, field, value)
-                if run_scheduler_identity and not record.scheduler_identity:
-                    record.scheduler_identity = run_scheduler_identity
+                if scheduler_identity and not record.scheduler_identity:
+                    record.scheduler_identity = scheduler_identity
             return record
 
     def _trim(self) -> None:
-- 
2.43.0


From 3561481e167b1efd6f1c1982a22dfb995efc8ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:04 +0000
Subject: [PATCH 45/84] fix: reinstalled trail listeners miss and repeat no
 events

---
 asyncz/contrib/dashboard/events.py  | 15 ++++++++-------
 asyncz/contrib/dashboard/history.py | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/asyncz/contrib/dashboard/events.py b/asyncz/contrib/dashboard/events.py
index a158180..c15701d 100644
--- a/asyncz/contrib/dashboard/events.py
+++ b/asyncz/contrib/dashboard/events.py
@@ -185,16 +185,17 @@ def install_scheduler_event_listener(
 ) -> MemorySchedulerEventStorage:
     event_storage = get_scheduler_event_storage(storage)
     key = id(scheduler)
-    installed = _installed_listeners.get(key)
-    if installed is not None and installed[0]() is scheduler:
-        with contextlib.suppress(Exception):
-            scheduler.remove_listener(installed[1])
-
     def _listener(event: SchedulerEvent) -> None:
         event_storage.append(event, scheduler=scheduler)
 
-    scheduler.add_listener(_listener, mask=ALL_EVENTS)
-    _installed_listeners[key] = (weakref.ref(scheduler), _listener)
+    # Replace the previous listener in one step: no event is seen by both or by none.
+    with getattr(scheduler, "listeners_lock", None) or contextlib.nullcontext():
+        installed = _installed_listeners.get(key)
+        if installed is not None and installed[0]() is scheduler:
+            with contextlib.suppress(Exception):
+                scheduler.remove_listener(installed[1])
+        scheduler.add_listener(_listener, mask=ALL_EVENTS)
+        _installed_listeners[key] = (weakref.ref(scheduler), _listener)
     return event_storage
 
 
diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index 941c0be..d83ba76 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -342,11 +342,6 @@ def install_run_history_listener(
 ) -> MemoryRunHistoryStorage:
     history_storage = get_run_history_storage(storage)
     key = id(scheduler)
-    installed = _installed_listeners.get(key)
-    if installed is not None and installed[0]() is scheduler:
-        with contextlib.suppress(Exception):
-            scheduler.remove_listener(installed[1])
-
     def _listener(event: SchedulerEvent) -> None:
         if isinstance(event, TaskSubmissionEvent) and event.code in {
             TASK_SUBMITTED,
@@ -360,8 +355,14 @@ def install_run_history_listener(
         }:
             history_storage.record_execution(event, scheduler=scheduler, log_storage=log_storage)
 
-    scheduler.add_listener(_listener, mask=RUN_EVENT_MASK)
-    _installed_listeners[key] = (weakref.ref(scheduler), _listener)
+    # Replace the previous listener in one step: no event is seen by both or by none.
+    with getattr(scheduler, "listeners_lock", None) or contextlib.nullcontext():
+        installed = _installed_listeners.get(key)
+        if installed is not None and installed[0]() is scheduler:
+            with contextlib.suppress(Exception):
+                scheduler.remove_listener(installed[1])
+        scheduler.add_listener(_listener, mask=RUN_EVENT_MASK)
+        _installed_listeners[key] = (weakref.ref(scheduler), _listener)
     return history_storage
 
 
-- 
2.43.0


From 9a4db96d5a0b5289f5a6150dea5691c2f919c822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:04 +0000
Subject: [PATCH 46/84] fix: task loggers leave the caller's extra data alone

---
 asyncz/contrib/dashboard/logs/handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/logs/handler.py b/asyncz/contrib/dashboard/logs/handler.py
index 8173ec6..85993e9 100644
--- a/asyncz/contrib/dashboard/logs/handler.py
+++ b/asyncz/contrib/dashboard/logs/handler.py
@@ -92,7 +92,8 @@ class TaskLoggerAdapter(logging.LoggerAdapter):
         Returns:
             The original message and the modified kwargs dictionary.
         """
-        extra: dict[str, Any] = kwargs.setdefault("extra", {})
+        extra: dict[str, Any] = dict(kwargs.get("extra") or {})
+        kwargs["extra"] = extra
 
         # Inject the task_id from the adapter's context, but do not clobber an
         # existing, explicit task_id provided in the log call itself.
-- 
2.43.0


From 06db284c6385e72efa38a35376f27dde6e6e330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:04 +0000
Subject: [PATCH 47/84] fix: naive times of log entries are UTC

---
 asyncz/contrib/dashboard/logs/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/logs/storage.py b/asyncz/contrib/dashboard/logs/storage.py
index 9bee2f2..889fa88 100644
--- a/asyncz/contrib/dashboard/logs/storage.py
+++ b/asyncz/contrib/dashboard/logs/storage.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import threading
 from collections import deque
 from collections.abc import Iterable
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from datetime import datetime, timezone
 from typing import Any
 
@@ -112,6 +112,8 @@ class MemoryLogStorage(LogStorage):
             TypeError: If the input type is neither `LogEntry` nor a dictionary.
         """
         if isinstance(entry, LogEntry):
+            if entry.ts.tzinfo is None:
+                entry = replace(entry, ts=entry.ts.replace(tzinfo=timezone.utc))
             return entry
         if not isinstance(entry, dict):
             raise TypeError(f"Unsupported log entry type: {type(entry)!r}")
-- 
2.43.0


From d665cfb8334aa6aa1e094abb747d7b4300f57594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:59 +0000
Subject: [PATCH 48/84] fix: installing the task log handler again applies its
 level

---
 asyncz/contrib/dashboard/logs/handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asyncz/contrib/dashboard/logs/handler.py b/asyncz/contrib/dashboard/logs/handler.py
index 85993e9..2576e9c 100644
--- a/asyncz/contrib/dashboard/logs/handler.py
+++ b/asyncz/contrib/dashboard/logs/handler.py
@@ -140,6 +140,8 @@ def install_task_log_handler(storage: LogStorage, level: int = logging.INFO) ->
     """
     global _handler
     storage = storage or get_log_storage()
+    root = logging.getLogger("asyncz")
+    root.setLevel(min(root.level or level, level))
     if _handler is not None:
         if isinstance(_handler, TaskLogHandler):
             _handler.storage = storage
@@ -148,8 +150,6 @@ def install_task_log_handler(storage: LogStorage, level: int = logging.INFO) ->
 
     _handler = TaskLogHandler(storage, level=level)
 
-    root = logging.getLogger("asyncz")
-    root.setLevel(min(root.level or level, level))
     root.addHandler(_handler)
     root.propagate = True  # let parent/handlers still receive if needed
     return _handler
-- 
2.43.0


From 3e59feee8290feb12a5aa579e6f50ac6144e308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:13 +0000
Subject: [PATCH 49/84] fix: remote task ids may contain any character

---
 asyncz/contrib/dashboard/remote.py | 41 ++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index ec53e29..80a8537 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -52,6 +52,25 @@ class RemoteSchedulerError(AsynczException):
     """
 
 
+def _quote_task_id(task_id: Any) -> str:
+    """
+    Encode a task id as one URL path segment.
+
+    Servers decode the request path before it is routed, so the id is quoted
+    twice: ids containing a slash stay within their segment.
+    """
+
+    return urllib.parse.quote(urllib.parse.quote(str(task_id), safe=""), safe="")
+
+
+def _path_task_id(request: Request) -> str:
+    """
+    Restore the task id a client encoded with `_quote_task_id`.
+    """
+
+    return urllib.parse.unquote(request.path_params["task_id"])
+
+
 class RemoteTask:
     """
     Snapshot-backed task proxy used by the remote dashboard client.
@@ -385,7 +404,7 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        task_id = request.path_params["task_id"]
+        task_id = _path_task_id(request)
         task = scheduler.get_task_info(task_id, request.query_params.get("store") or None)
         if task is None:
             return _error(TaskLookupError(task_id), status_code=404, task_id=task_id)
@@ -401,7 +420,7 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        task_id = request.path_params["task_id"]
+        task_id = _path_task_id(request)
         count = int(request.query_params.get("count") or 5)
         result = scheduler.preview_task_runs(
             task_id,
@@ -462,7 +481,7 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        task_id = request.path_params["task_id"]
+        task_id = _path_task_id(request)
         body = await _json_body(request)
         try:
             task = scheduler.update_task(
@@ -484,7 +503,7 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        task_id = request.path_params["task_id"]
+        task_id = _path_task_id(request)
         action = request.path_params["action"]
         body = await _json_body(request)
         store = body.get("store")
@@ -750,7 +769,7 @@ class RemoteSchedulerClient:
         try:
             data = self._request(
                 "GET",
-                f"/tasks/{urllib.parse.quote(task_id, safe='')}",
+                f"/tasks/{_quote_task_id(task_id)}",
                 query={"store": store} if store else None,
             )
         except TaskLookupError:
@@ -804,7 +823,7 @@ class RemoteSchedulerClient:
         try:
             data = self._request(
                 "GET",
-                f"/tasks/{urllib.parse.quote(task_id, safe='')}/preview",
+                f"/tasks/{_quote_task_id(task_id)}/preview",
                 query=query,
             )
         except TaskLookupError:
@@ -881,7 +900,7 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         data = self._request(
             "PATCH",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}",
+            f"/tasks/{_quote_task_id(task_id)}",
             {"store": store, "updates": updates},
         )
         task = self._task_from_data(data)
@@ -907,7 +926,7 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         data = self._request(
             "POST",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/run",
+            f"/tasks/{_quote_task_id(task_id)}/run",
             {"store": store, "force": force, "remove_finished": remove_finished},
         )
         return self._task_from_data(data)
@@ -923,7 +942,7 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         data = self._request(
             "POST",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/pause",
+            f"/tasks/{_quote_task_id(task_id)}/pause",
             {"store": store},
         )
         task = self._task_from_data(data)
@@ -942,7 +961,7 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         data = self._request(
             "POST",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/resume",
+            f"/tasks/{_quote_task_id(task_id)}/resume",
             {"store": store},
         )
         return self._task_from_data(data)
@@ -959,6 +978,6 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         self._request(
             "POST",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/remove",
+            f"/tasks/{_quote_task_id(task_id)}/remove",
             {"store": store},
         )
-- 
2.43.0


From fe6a336b1c568ee2ebed0f345098b24853c58c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:31 +0000
Subject: [PATCH 50/84] fix: errors of remote lookups and previews reach the
 client

---
 asyncz/contrib/dashboard/remote.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index 80a8537..1bcc625 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -405,7 +405,10 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
         if response := _require_token(request, token):
             return response
         task_id = _path_task_id(request)
-        task = scheduler.get_task_info(task_id, request.query_params.get("store") or None)
+        try:
+            task = scheduler.get_task_info(task_id, request.query_params.get("store") or None)
+        except Exception as exc:
+            return _error(exc, status_code=400, task_id=task_id)
         if task is None:
             return _error(TaskLookupError(task_id), status_code=404, task_id=task_id)
         return _success(task)
@@ -421,12 +424,14 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
         if response := _require_token(request, token):
             return response
         task_id = _path_task_id(request)
-        count = int(request.query_params.get("count") or 5)
-        result = scheduler.preview_task_runs(
-            task_id,
-            request.query_params.get("store") or None,
-            count=count,
-        )
+        try:
+            result = scheduler.preview_task_runs(
+                task_id,
+                request.query_params.get("store") or None,
+                count=int(request.query_params.get("count") or 5),
+            )
+        except Exception as exc:
+            return _error(exc, status_code=400, task_id=task_id)
         if result is None:
             return _error(TaskLookupError(task_id), status_code=404, task_id=task_id)
         return _success(result)
-- 
2.43.0


From 7c33aa38643e1f31c96cba45dd4811e5e91425c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:31 +0000
Subject: [PATCH 51/84] fix: remote previews start from the given time

---
 asyncz/contrib/dashboard/remote.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index 1bcc625..21fc9a7 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -429,6 +429,7 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
                 task_id,
                 request.query_params.get("store") or None,
                 count=int(request.query_params.get("count") or 5),
+                now=request.query_params.get("now") or None,  # type: ignore[arg-type]
             )
         except Exception as exc:
             return _error(exc, status_code=400, task_id=task_id)
-- 
2.43.0


From 924397745697ffbdeb6eaee14162829424d16a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:31 +0000
Subject: [PATCH 52/84] fix: remote clients report conflicting ids as such

---
 asyncz/contrib/dashboard/remote.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index 21fc9a7..1f41833 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -25,6 +25,7 @@ from lilya.routing import RoutePath, Router
 
 from asyncz.exceptions import (
     AsynczException,
+    ConflictIdError,
     MaximumInstancesError,
     SchedulerNotRunningError,
     TaskLookupError,
@@ -474,7 +475,7 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
         try:
             task = scheduler.add_task(body.get("fn"), trigger=trigger, **kwargs, **trigger_args)
         except Exception as exc:
-            return _error(exc, status_code=400)
+            return _error(exc, status_code=400, task_id=body.get("id"))
         return _success(task.snapshot())
 
     async def update_task(request: Request) -> JSONResponse:
@@ -687,6 +688,8 @@ class RemoteSchedulerClient:
         task_id = response.get("task_id")
         if error == "TaskLookupError":
             raise TaskLookupError(task_id)
+        if error == "ConflictIdError":
+            raise ConflictIdError(task_id)
         if error == "SchedulerNotRunningError":
             raise SchedulerNotRunningError()
         if error == "MaximumInstancesError":
-- 
2.43.0


From 19148f23688afdc782ce98e7918fc2fffdd6849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:31 +0000
Subject: [PATCH 53/84] fix: tasks added remotely can be paused or without
 limit

---
 asyncz/contrib/dashboard/remote.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index 1f41833..f3bc756 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -890,7 +890,9 @@ class RemoteSchedulerClient:
             "store": store,
             "executor": executor,
         }.items():
-            if value is not undefined and value is not None:
+            if value is None and key not in {"mistrigger_grace_time", "next_run_time"}:
+                continue
+            if value is not undefined:
                 payload[key] = value
         data = self._request("POST", "/tasks", payload)
         task = self._task_from_data(data)
-- 
2.43.0


From 98cc0778e8c90e24a3a99a6f5844fe0c56443839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:31 +0000
Subject: [PATCH 54/84] fix: remote payloads are dumped for every transport

---
 asyncz/contrib/dashboard/remote.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index f3bc756..6592044 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -639,7 +639,7 @@ class RemoteSchedulerClient:
         url = f"{self.base_url}{path}"
         if query:
             url = f"{url}?{urllib.parse.urlencode(query)}"
-        data = None if payload is None else json.dumps(_dump_json(payload)).encode()
+        data = None if payload is None else json.dumps(payload).encode()
         request = urllib.request.Request(url, data=data, method=method, headers=headers)
         try:
             with urllib.request.urlopen(request, timeout=10) as response:
@@ -667,6 +667,7 @@ class RemoteSchedulerClient:
         """
 
         headers = self._headers()
+        payload = _dump_json(payload)
         if self.transport is not None:
             status_code, response = self.transport(method, path, payload, headers, query)
         else:
-- 
2.43.0


From fe1707ceff5367bdfd6f56e2a7c114c91e816056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:31 +0000
Subject: [PATCH 55/84] fix: remote updates accept callables

---
 asyncz/contrib/dashboard/remote.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index 6592044..a03049e 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -910,6 +910,8 @@ class RemoteSchedulerClient:
 
         if isinstance(task_id, RemoteTask):
             task_id = task_id.id
+        if callable(updates.get("fn")):
+            updates["fn"] = obj_to_ref(updates["fn"])
         data = self._request(
             "PATCH",
             f"/tasks/{_quote_task_id(task_id)}",
-- 
2.43.0


From 9cc4480a7778273110b0cab26a7ef25afaefb0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 56/84] fix: a dashboard mounted at the root has its login
 pages

---
 asyncz/contrib/dashboard/admin/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncz/contrib/dashboard/admin/core.py b/asyncz/contrib/dashboard/admin/core.py
index 3fc2e63..c7113d9 100644
--- a/asyncz/contrib/dashboard/admin/core.py
+++ b/asyncz/contrib/dashboard/admin/core.py
@@ -262,12 +262,12 @@ class AsynczAdmin:
         ]
 
         # 2. Build Top-Level Routes (Mounting everything under the final prefix)
-        routes: list[Path | Include] = [
-            Include(path=base_norm, routes=inner_routes, name="dashboard")
-        ]
+        routes: list[Path | Include] = []
         if self.enable_login:
-            # Add /login and /logout handlers if authentication is enabled at root level
+            # Add /login and /logout handlers if authentication is enabled at root level,
+            # before the dashboard, which takes every other path when it is mounted at "/"
             routes.extend(self.add_sign_in_pages())
+        routes.append(Include(path=base_norm, routes=inner_routes, name="dashboard"))
 
         # 3. Build Middleware Stack (Order is critical)
         middlewares: list[DefineMiddleware] = []
-- 
2.43.0


From 33d8fed3d030f1e041e4d862dbe7ee474fcc095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 57/84] fix: redirects to the login page quote the requested
 path

---
 asyncz/contrib/dashboard/admin/middleware/auth_gate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
index 61303bd..3539522 100644
--- a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
+++ b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from collections.abc import Awaitable, Callable, Iterable
 from typing import Any
+from urllib.parse import quote
 
 from lilya.requests import Request
 from lilya.responses import PlainText, RedirectResponse, Response
@@ -90,7 +91,7 @@ class AuthGateMiddleware:
         login_url: str = f"{mount_prefix}{self.login_path}"
 
         # Determine the target URL after login
-        next_q: str = f"?next={path}"
+        next_q: str = f"?next={quote(path)}"
 
         response: Response
         if request.headers.get("hx-request") == "true":
-- 
2.43.0


From e243ba395d2c938073ee064b7f21370a21d63663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:02 +0000
Subject: [PATCH 58/84] fix: failing dashboard actions are reported and
 recorded

---
 asyncz/contrib/dashboard/controllers/tasks.py | 232 +++++++++++-------
 1 file changed, 137 insertions(+), 95 deletions(-)

diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index ba805fa..49459c8 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import contextlib
 import json
 from collections.abc import Callable
+from functools import partial
 from typing import Any
 
 from lilya.controllers import Controller
@@ -216,6 +217,33 @@ def _audit_task_action(
     )
 
 
+def _perform_task_action(
+    request: Request,
+    action: str,
+    task_id: str,
+    call: Callable[[], Any],
+    message: str,
+) -> None:
+    """
+    Apply one action to one task and record its outcome in the audit trail.
+
+    A failing action is reported and recorded and never keeps the other tasks
+    of a bulk action from being handled.
+    """
+    try:
+        call()
+    except MaximumInstancesError as exc:
+        add_message(request, "warning", str(exc))
+        _audit_task_action(action, task_id, status="warning", message=str(exc))
+    except TaskLookupError:
+        _audit_task_action(action, task_id, status="failed", message="Task was not found.")
+    except Exception as exc:
+        add_message(request, "error", str(exc))
+        _audit_task_action(action, task_id, status="failed", message=str(exc))
+    else:
+        _audit_task_action(action, task_id, message=message)
+
+
 class TasklistController(DashboardMixin, TemplateController):
     """
     Renders the main task management dashboard page, displaying a list of all scheduled tasks.
@@ -262,14 +290,13 @@ class TaskRunController(_BaseTaskAction):
     async def post(self, request: Request) -> Any:
         """Trigger the specified task immediately through the scheduler API."""
         task_id: str = request.path_params["task_id"]
-        try:
-            self.scheduler.run_task(task_id, remove_finished=False)
-            _audit_task_action("run", task_id, message=f"Triggered task {task_id} manually.")
-        except MaximumInstancesError as exc:
-            add_message(request, "warning", str(exc))
-            _audit_task_action("run", task_id, status="warning", message=str(exc))
-        except TaskLookupError:
-            _audit_task_action("run", task_id, status="failed", message="Task was not found.")
+        _perform_task_action(
+            request,
+            "run",
+            task_id,
+            partial(self.scheduler.run_task, task_id, remove_finished=False),
+            f"Triggered task {task_id} manually.",
+        )
         return await self._redirect()
 
 
@@ -279,11 +306,13 @@ class TaskPauseController(_BaseTaskAction):
     async def post(self, request: Request) -> Any:
         """Pause the specified task through the scheduler API."""
         task_id: str = request.path_params["task_id"]
-        try:
-            self.scheduler.pause_task(task_id)
-            _audit_task_action("pause", task_id, message=f"Paused task {task_id}.")
-        except TaskLookupError:
-            _audit_task_action("pause", task_id, status="failed", message="Task was not found.")
+        _perform_task_action(
+            request,
+            "pause",
+            task_id,
+            partial(self.scheduler.pause_task, task_id),
+            f"Paused task {task_id}.",
+        )
         return await self._redirect()
 
 
@@ -293,11 +322,13 @@ class TaskResumeController(_BaseTaskAction):
     async def post(self, request: Request) -> Any:
         """Resume the specified task through the scheduler API."""
         task_id: str = request.path_params["task_id"]
-        try:
-            self.scheduler.resume_task(task_id)
-            _audit_task_action("resume", task_id, message=f"Resumed task {task_id}.")
-        except TaskLookupError:
-            _audit_task_action("resume", task_id, status="failed", message="Task was not found.")
+        _perform_task_action(
+            request,
+            "resume",
+            task_id,
+            partial(self.scheduler.resume_task, task_id),
+            f"Resumed task {task_id}.",
+        )
         return await self._redirect()
 
 
@@ -307,11 +338,13 @@ class TaskRemoveController(_BaseTaskAction):
     async def post(self, request: Request) -> Any:
         """Permanently removes the specified task from its store."""
         task_id: str = request.path_params["task_id"]
-        try:
-            self.scheduler.delete_task(task_id)
-            _audit_task_action("remove", task_id, message=f"Removed task {task_id}.")
-        except TaskLookupError:
-            _audit_task_action("remove", task_id, status="failed", message="Task was not found.")
+        _perform_task_action(
+            request,
+            "remove",
+            task_id,
+            partial(self.scheduler.delete_task, task_id),
+            f"Removed task {task_id}.",
+        )
         return await self._redirect()
 
 
@@ -409,20 +442,28 @@ class TaskCreateController(DashboardMixin, Controller):
         trigger_type: str = (form.get("trigger_type") or "interval").strip()
         trigger_value: str = (form.get("trigger_value") or "10s").strip()
 
-        # Parse args/kwargs JSON
         raw_args: str = (form.get("args") or "").strip()
         raw_kwargs: str = (form.get("kwargs") or "").strip()
-        args: list[Any] = json.loads(raw_args) if raw_args else []
-        kwargs: dict[str, Any] = json.loads(raw_kwargs) if raw_kwargs else {}
 
-        # Import callable and parse trigger
+        # Parse the arguments, import callable, parse trigger and add task to the scheduler
         try:
+            args: list[Any] = json.loads(raw_args) if raw_args else []
+            kwargs: dict[str, Any] = json.loads(raw_kwargs) if raw_kwargs else {}
             func: Callable[..., Any] | str
             if getattr(self.scheduler, "is_remote", False):
                 func = callable_path
             else:
                 func = import_callable(callable_path)
             trigger_alias, trigger_args = parse_trigger_config(trigger_type, trigger_value)
+            task = self.scheduler.add_task(
+                func,
+                trigger=trigger_alias,
+                args=args,
+                kwargs=kwargs,
+                name=name,
+                store=store_alias,
+                **trigger_args,
+            )
         except Exception as e:
             message = str(e)
             add_message(request, "error", f"{message}")
@@ -436,16 +477,6 @@ class TaskCreateController(DashboardMixin, Controller):
             context = await self.get_context_data(request)
             return await render_table(self.scheduler, request, context)
 
-        # Add task to the scheduler
-        task = self.scheduler.add_task(
-            func,
-            trigger=trigger_alias,
-            args=args,
-            kwargs=kwargs,
-            name=name,
-            store=store_alias,
-            **trigger_args,
-        )
         _audit_task_action(
             "create",
             task.id,
@@ -571,7 +602,19 @@ class TaskEditController(DashboardMixin, Controller):
                 diff=diff,
             )
 
-        updated = self.scheduler.update_task(task_id, store_alias, **updates)
+        try:
+            updated = self.scheduler.update_task(task_id, store_alias, **updates)
+        except Exception as exc:
+            _audit_task_action("update", task_id, status="failed", message=str(exc))
+            return await self._render(
+                request,
+                task=task,
+                store_alias=store_alias,
+                form=form,
+                diff=diff,
+                errors=[str(exc)],
+                status_code=400,
+            )
         _audit_task_action(
             "update",
             task_id,
@@ -600,14 +643,13 @@ class TaskBulkPauseController(DashboardMixin, Controller):
         ids: list[str] = parse_ids_from_request_form(form)
 
         for task_id in ids:
-            try:
-                self.scheduler.pause_task(task_id)
-                _audit_task_action("pause", task_id, message=f"Paused task {task_id}.")
-            except TaskLookupError:
-                _audit_task_action(
-                    "pause", task_id, status="failed", message="Task was not found."
-                )
-                continue
+            _perform_task_action(
+                request,
+                "pause",
+                task_id,
+                partial(self.scheduler.pause_task, task_id),
+                f"Paused task {task_id}.",
+            )
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -626,15 +668,13 @@ class TaskBulkRunController(DashboardMixin, Controller):
         ids: list[str] = parse_ids_from_request_form(form)
 
         for task_id in ids:
-            try:
-                self.scheduler.run_task(task_id, remove_finished=False)
-                _audit_task_action("run", task_id, message=f"Triggered task {task_id} manually.")
-            except MaximumInstancesError as exc:
-                add_message(request, "warning", str(exc))
-                _audit_task_action("run", task_id, status="warning", message=str(exc))
-            except TaskLookupError:
-                _audit_task_action("run", task_id, status="failed", message="Task was not found.")
-                continue
+            _perform_task_action(
+                request,
+                "run",
+                task_id,
+                partial(self.scheduler.run_task, task_id, remove_finished=False),
+                f"Triggered task {task_id} manually.",
+            )
 
         # Return refreshed table fragment for HTMX swap
         context = await self.get_context_data(request)
@@ -656,14 +696,13 @@ class TaskBulkResumeController(DashboardMixin, Controller):
         ids: list[str] = parse_ids_from_request_form(form)
 
         for task_id in ids:
-            try:
-                self.scheduler.resume_task(task_id)
-                _audit_task_action("resume", task_id, message=f"Resumed task {task_id}.")
-            except TaskLookupError:
-                _audit_task_action(
-                    "resume", task_id, status="failed", message="Task was not found."
-                )
-                continue
+            _perform_task_action(
+                request,
+                "resume",
+                task_id,
+                partial(self.scheduler.resume_task, task_id),
+                f"Resumed task {task_id}.",
+            )
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -681,15 +720,13 @@ class TaskBulkRemoveController(DashboardMixin, Controller):
         ids: list[str] = parse_ids_from_request_form(form)
 
         for task_id in ids:
-            try:
-                self.scheduler.delete_task(task_id)
-                _audit_task_action("remove", task_id, message=f"Removed task {task_id}.")
-            except TaskLookupError:
-                # Already removed or not found; keep operation idempotent.
-                _audit_task_action(
-                    "remove", task_id, status="failed", message="Task was not found."
-                )
-                continue
+            _perform_task_action(
+                request,
+                "remove",
+                task_id,
+                partial(self.scheduler.delete_task, task_id),
+                f"Removed task {task_id}.",
+            )
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -704,14 +741,13 @@ class TaskHXRunController(DashboardMixin, Controller):
     async def post(self, request: Request) -> HTMLResponse:
         """Trigger the specified task immediately and return the refreshed table."""
         task_id: str = request.path_params["task_id"]
-        try:
-            self.scheduler.run_task(task_id, remove_finished=False)
-            _audit_task_action("run", task_id, message=f"Triggered task {task_id} manually.")
-        except MaximumInstancesError as exc:
-            add_message(request, "warning", str(exc))
-            _audit_task_action("run", task_id, status="warning", message=str(exc))
-        except TaskLookupError:
-            _audit_task_action("run", task_id, status="failed", message="Task was not found.")
+        _perform_task_action(
+            request,
+            "run",
+            task_id,
+            partial(self.scheduler.run_task, task_id, remove_finished=False),
+            f"Triggered task {task_id} manually.",
+        )
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -726,11 +762,13 @@ class TaskHXPauseController(DashboardMixin, Controller):
     async def post(self, request: Request) -> HTMLResponse:
         """Pause the specified task and return the refreshed task table."""
         task_id: str = request.path_params["task_id"]
-        try:
-            self.scheduler.pause_task(task_id)
-            _audit_task_action("pause", task_id, message=f"Paused task {task_id}.")
-        except TaskLookupError:
-            _audit_task_action("pause", task_id, status="failed", message="Task was not found.")
+        _perform_task_action(
+            request,
+            "pause",
+            task_id,
+            partial(self.scheduler.pause_task, task_id),
+            f"Paused task {task_id}.",
+        )
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -745,11 +783,13 @@ class TaskHXResumeController(DashboardMixin, Controller):
     async def post(self, request: Request) -> HTMLResponse:
         """Resume the specified task and return the refreshed task table."""
         task_id: str = request.path_params["task_id"]
-        try:
-            self.scheduler.resume_task(task_id)
-            _audit_task_action("resume", task_id, message=f"Resumed task {task_id}.")
-        except TaskLookupError:
-            _audit_task_action("resume", task_id, status="failed", message="Task was not found.")
+        _perform_task_action(
+            request,
+            "resume",
+            task_id,
+            partial(self.scheduler.resume_task, task_id),
+            f"Resumed task {task_id}.",
+        )
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -765,11 +805,13 @@ class TaskHXRemoveController(DashboardMixin, Controller):
         """Permanently removes the specified task and returns the updated task table."""
         task_id: str = request.path_params["task_id"]
 
-        try:
-            self.scheduler.delete_task(task_id)
-            _audit_task_action("remove", task_id, message=f"Removed task {task_id}.")
-        except TaskLookupError:
-            _audit_task_action("remove", task_id, status="failed", message="Task was not found.")
+        _perform_task_action(
+            request,
+            "remove",
+            task_id,
+            partial(self.scheduler.delete_task, task_id),
+            f"Removed task {task_id}.",
+        )
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
-- 
2.43.0


From 61cf2838f4494ce96feb7a4a8a600a876e502f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:02 +0000
Subject: [PATCH 59/84] fix: dashboard messages are escaped

---
 asyncz/contrib/dashboard/controllers/_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/controllers/_helpers.py b/asyncz/contrib/dashboard/controllers/_helpers.py
index 35e0a0c..7d717fb 100644
--- a/asyncz/contrib/dashboard/controllers/_helpers.py
+++ b/asyncz/contrib/dashboard/controllers/_helpers.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import json
 from collections.abc import Mapping
 from datetime import datetime
+from html import escape
 from typing import TYPE_CHECKING, Any
 from urllib.parse import urlencode
 
@@ -227,7 +228,7 @@ def _render_messages_oob(request: Request, context: dict[str, Any]) -> str:
             else:
                 color = "blue"
                 icon = "info"
-            text = str(m.get("text", ""))
+            text = escape(str(m.get("text", "")))
             parts.append(
                 f"""
                   <div id="flash-{i}" class="relative flex items-start gap-3 p-4 bg-{color}-50
-- 
2.43.0


From 1b4c022bc359a369e77da11126f58dbe4454d20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:17 +0000
Subject: [PATCH 60/84] fix: dashboard links to tasks quote the task id

---
 asyncz/contrib/dashboard/controllers/tasks.py | 26 +++++++++----------
 asyncz/contrib/dashboard/engine.py            | 23 ++++++++++++++++
 .../dashboard/templates/tasks/_table.html     | 14 +++++-----
 .../dashboard/templates/tasks/detail.html     | 10 +++----
 .../dashboard/templates/tasks/edit.html       |  4 +--
 5 files changed, 50 insertions(+), 27 deletions(-)

diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index 49459c8..26a5c67 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -20,7 +20,7 @@ from asyncz.contrib.dashboard.controllers._helpers import (
     render_table,
 )
 from asyncz.contrib.dashboard.controllers.logs import get_log_storage
-from asyncz.contrib.dashboard.engine import templates
+from asyncz.contrib.dashboard.engine import path_task_id, templates
 from asyncz.contrib.dashboard.history import get_run_history_storage
 from asyncz.contrib.dashboard.messages import add_message
 from asyncz.contrib.dashboard.mixins import DashboardMixin
@@ -289,7 +289,7 @@ class TaskRunController(_BaseTaskAction):
 
     async def post(self, request: Request) -> Any:
         """Trigger the specified task immediately through the scheduler API."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         _perform_task_action(
             request,
             "run",
@@ -305,7 +305,7 @@ class TaskPauseController(_BaseTaskAction):
 
     async def post(self, request: Request) -> Any:
         """Pause the specified task through the scheduler API."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         _perform_task_action(
             request,
             "pause",
@@ -321,7 +321,7 @@ class TaskResumeController(_BaseTaskAction):
 
     async def post(self, request: Request) -> Any:
         """Resume the specified task through the scheduler API."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         _perform_task_action(
             request,
             "resume",
@@ -337,7 +337,7 @@ class TaskRemoveController(_BaseTaskAction):
 
     async def post(self, request: Request) -> Any:
         """Permanently removes the specified task from its store."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         _perform_task_action(
             request,
             "remove",
@@ -382,7 +382,7 @@ class TaskDetailController(DashboardMixin, Controller):
             page_header="Task Detail",
             active_page="tasks",
         )
-        task_id = request.path_params["task_id"]
+        task_id = path_task_id(request)
         preview = None
         recent_runs = []
         recent_logs = []
@@ -414,7 +414,7 @@ class TaskDetailController(DashboardMixin, Controller):
         )
 
     async def get(self, request: Request) -> HTMLResponse:
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         try:
             task, store_alias = self.scheduler.lookup_task(task_id, None)
         except TaskLookupError:
@@ -543,7 +543,7 @@ class TaskEditController(DashboardMixin, Controller):
 
     async def get(self, request: Request) -> HTMLResponse:
         """Render the task edit form with values from the live scheduler task."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         try:
             task, store_alias = self._lookup_task(task_id)
         except TaskLookupError:
@@ -552,7 +552,7 @@ class TaskEditController(DashboardMixin, Controller):
 
     async def post(self, request: Request) -> HTMLResponse:
         """Validate, preview, or apply task metadata updates."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         try:
             task, store_alias = self._lookup_task(task_id)
         except TaskLookupError:
@@ -740,7 +740,7 @@ class TaskHXRunController(DashboardMixin, Controller):
 
     async def post(self, request: Request) -> HTMLResponse:
         """Trigger the specified task immediately and return the refreshed table."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         _perform_task_action(
             request,
             "run",
@@ -761,7 +761,7 @@ class TaskHXPauseController(DashboardMixin, Controller):
 
     async def post(self, request: Request) -> HTMLResponse:
         """Pause the specified task and return the refreshed task table."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         _perform_task_action(
             request,
             "pause",
@@ -782,7 +782,7 @@ class TaskHXResumeController(DashboardMixin, Controller):
 
     async def post(self, request: Request) -> HTMLResponse:
         """Resume the specified task and return the refreshed task table."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         _perform_task_action(
             request,
             "resume",
@@ -803,7 +803,7 @@ class TaskHXRemoveController(DashboardMixin, Controller):
 
     async def post(self, request: Request) -> HTMLResponse:
         """Permanently removes the specified task and returns the updated task table."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
 
         _perform_task_action(
             request,
diff --git a/asyncz/contrib/dashboard/engine.py b/asyncz/contrib/dashboard/engine.py
index a0171ed..b68d50b 100644
--- a/asyncz/contrib/dashboard/engine.py
+++ b/asyncz/contrib/dashboard/engine.py
@@ -1,5 +1,6 @@
 from pathlib import Path
 from typing import Any
+from urllib.parse import quote, unquote
 
 from lilya.apps import Lilya
 from lilya.compat import reverse
@@ -8,6 +9,27 @@ from lilya.routing import NoMatchFound, Router
 from lilya.templating import Jinja2Template
 
 
+def quote_task_id(task_id: Any) -> str:
+    """
+    Encode a task id as one URL path segment.
+
+    Servers decode the request path before it is routed, so the id is quoted
+    twice: ids containing a slash stay within their segment, and ids made of
+    dots are no relative path.
+    """
+    quoted = quote(str(task_id), safe="")
+    if not quoted.strip("."):
+        quoted = quoted.replace(".", "%2E")
+    return quote(quoted, safe="")
+
+
+def path_task_id(request: Request) -> str:
+    """
+    Restore the task id encoded with `quote_task_id` in the path of a request.
+    """
+    return unquote(request.path_params["task_id"])
+
+
 def safe_url_for(request: Request, name: str, **params: Any) -> str | None:
     """
     Safely generates a full URL for a given route name within the current request's scope.
@@ -40,3 +62,4 @@ def safe_url_for(request: Request, name: str, **params: Any) -> str | None:
 templates = Jinja2Template(directory=str(Path(__file__).resolve().parent / "templates"))
 templates.env.globals["getattr"] = getattr
 templates.env.globals["safe_url_for"] = safe_url_for
+templates.env.filters["task_path"] = quote_task_id
diff --git a/asyncz/contrib/dashboard/templates/tasks/_table.html b/asyncz/contrib/dashboard/templates/tasks/_table.html
index b414186..682963b 100644
--- a/asyncz/contrib/dashboard/templates/tasks/_table.html
+++ b/asyncz/contrib/dashboard/templates/tasks/_table.html
@@ -106,7 +106,7 @@
 
             <td style="text-align: right">
               <div class="az-actions">
-                <form hx-post="{{ t.id }}/run{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
+                <form hx-post="{{ t.id|task_path }}/run{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
                   <button class="az-icon-button az-action-button az-icon-button--primary" aria-label="Run {{ t.name or t.id }} now" title="Run now">
                     <svg viewBox="0 0 24 24" fill="none" stroke="currentColor" stroke-width="1.9" stroke-linecap="round" stroke-linejoin="round" aria-hidden="true">
                       <path d="M8 5v14l11-7z"/>
@@ -115,7 +115,7 @@
                   </button>
                 </form>
 
-                <a href="{{ url_prefix }}/tasks/{{ t.id }}"
+                <a href="{{ url_prefix }}/tasks/{{ t.id|task_path }}"
                    class="az-icon-button az-action-button"
                    aria-label="Open details for {{ t.name or t.id }}"
                    title="Details">
@@ -128,7 +128,7 @@
                 </a>
 
                 {% if t.state == "scheduled" %}
-                  <form hx-post="{{ t.id }}/pause{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
+                  <form hx-post="{{ t.id|task_path }}/pause{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
                     <button class="az-icon-button az-action-button az-icon-button--warning" aria-label="Pause {{ t.name or t.id }}" title="Pause">
                       <svg viewBox="0 0 24 24" fill="none" stroke="currentColor" stroke-width="1.9" stroke-linecap="round" stroke-linejoin="round" aria-hidden="true">
                         <path d="M9 6v12"/>
@@ -138,7 +138,7 @@
                     </button>
                   </form>
                 {% else %}
-                  <form hx-post="{{ t.id }}/resume{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
+                  <form hx-post="{{ t.id|task_path }}/resume{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
                     <button class="az-icon-button az-action-button az-icon-button--success" aria-label="Resume {{ t.name or t.id }}" title="Resume">
                       <svg viewBox="0 0 24 24" fill="none" stroke="currentColor" stroke-width="1.9" stroke-linecap="round" stroke-linejoin="round" aria-hidden="true">
                         <path d="M8 5v14l11-7z"/>
@@ -148,7 +148,7 @@
                   </form>
                 {% endif %}
 
-                <a href="{{ url_prefix }}/logs?task_id={{ t.id }}"
+                <a href="{{ url_prefix }}/logs?task_id={{ t.id|urlencode }}"
                    class="az-icon-button az-action-button"
                    aria-label="Open logs for {{ t.name or t.id }}"
                    title="Logs">
@@ -163,7 +163,7 @@
                   <span>Logs</span>
                 </a>
 
-                <a href="{{ url_prefix }}/tasks/{{ t.id }}/edit"
+                <a href="{{ url_prefix }}/tasks/{{ t.id|task_path }}/edit"
                    class="az-icon-button az-action-button"
                    aria-label="Edit {{ t.name or t.id }}"
                    title="Edit">
@@ -187,7 +187,7 @@
                   <span>Copy</span>
                 </button>
 
-                <form hx-post="{{ t.id }}/remove{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML"
+                <form hx-post="{{ t.id|task_path }}/remove{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML"
                       data-confirm-label="{{ t.name or t.id }}"
                       x-on:submit="confirmRemove">
                   <button class="az-icon-button az-action-button az-icon-button--danger" aria-label="Remove {{ t.name or t.id }}" title="Remove">
diff --git a/asyncz/contrib/dashboard/templates/tasks/detail.html b/asyncz/contrib/dashboard/templates/tasks/detail.html
index 0944d22..eed0325 100644
--- a/asyncz/contrib/dashboard/templates/tasks/detail.html
+++ b/asyncz/contrib/dashboard/templates/tasks/detail.html
@@ -19,9 +19,9 @@
           <div class="az-panel-meta az-mono">{{ task.id }}</div>
         </div>
         <div class="az-actions">
-          <a href="{{ url_prefix }}/tasks/{{ task.id }}/edit" class="az-button">Edit</a>
-          <a href="{{ url_prefix }}/history?task_id={{ task.id }}" class="az-button">History</a>
-          <a href="{{ url_prefix }}/logs?task_id={{ task.id }}" class="az-button az-button--primary">Logs</a>
+          <a href="{{ url_prefix }}/tasks/{{ task.id|task_path }}/edit" class="az-button">Edit</a>
+          <a href="{{ url_prefix }}/history?task_id={{ task.id|urlencode }}" class="az-button">History</a>
+          <a href="{{ url_prefix }}/logs?task_id={{ task.id|urlencode }}" class="az-button az-button--primary">Logs</a>
           <a href="{{ url_for('dashboard:tasks:index') }}" class="az-button">Back</a>
         </div>
       </div>
@@ -124,7 +124,7 @@
           <h2 class="az-panel-title">Recent Runs</h2>
           <div class="az-panel-meta">Latest run records for this task.</div>
         </div>
-        <a href="{{ url_prefix }}/history?task_id={{ task.id }}" class="az-button">Open History</a>
+        <a href="{{ url_prefix }}/history?task_id={{ task.id|urlencode }}" class="az-button">Open History</a>
       </div>
       <div class="az-table-wrap">
         <table class="az-table">
@@ -176,7 +176,7 @@
           <h2 class="az-panel-title">Recent Logs</h2>
           <div class="az-panel-meta">Latest captured log records for this task id.</div>
         </div>
-        <a href="{{ url_prefix }}/logs?task_id={{ task.id }}" class="az-button">Open Logs</a>
+        <a href="{{ url_prefix }}/logs?task_id={{ task.id|urlencode }}" class="az-button">Open Logs</a>
       </div>
       <div class="az-table-wrap">
         <table class="az-table">
diff --git a/asyncz/contrib/dashboard/templates/tasks/edit.html b/asyncz/contrib/dashboard/templates/tasks/edit.html
index a9335a8..b64d0ed 100644
--- a/asyncz/contrib/dashboard/templates/tasks/edit.html
+++ b/asyncz/contrib/dashboard/templates/tasks/edit.html
@@ -19,7 +19,7 @@
           <div class="az-panel-meta az-mono">{{ task.id }}</div>
         </div>
         <div class="az-actions">
-          <a href="{{ url_prefix }}/history?task_id={{ task.id }}" class="az-button">History</a>
+          <a href="{{ url_prefix }}/history?task_id={{ task.id|urlencode }}" class="az-button">History</a>
           <a href="{{ url_for('dashboard:tasks:index') }}" class="az-button">Back</a>
         </div>
       </div>
@@ -58,7 +58,7 @@
       </div>
     {% endif %}
 
-    <form method="post" action="{{ url_for('dashboard:tasks:edit', task_id=task.id) }}" class="az-panel" data-no-loading>
+    <form method="post" action="{{ url_for('dashboard:tasks:edit', task_id=task.id|task_path) }}" class="az-panel" data-no-loading>
       <div class="az-panel-header">
         <div>
           <h2 class="az-panel-title">Task Metadata</h2>
-- 
2.43.0


From 3c7cdb2424247fda46d0fd64ed70975e8dd5ccf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:17 +0000
Subject: [PATCH 61/84] fix: tasks created in the dashboard need a callable

---
 asyncz/contrib/dashboard/controllers/tasks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index 26a5c67..501bf58 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -450,6 +450,8 @@ class TaskCreateController(DashboardMixin, Controller):
             args: list[Any] = json.loads(raw_args) if raw_args else []
             kwargs: dict[str, Any] = json.loads(raw_kwargs) if raw_kwargs else {}
             func: Callable[..., Any] | str
+            if not callable_path:
+                raise ValueError("callable path is required.")
             if getattr(self.scheduler, "is_remote", False):
                 func = callable_path
             else:
-- 
2.43.0


From 601db37588d76dfa3bc68bd5441564bc8d25b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:17 +0000
Subject: [PATCH 62/84] fix: dashboard pages show and keep arguments JSON does
 not know

---
 asyncz/contrib/dashboard/controllers/tasks.py | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index 501bf58..cacb880 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -40,7 +40,20 @@ def _string_form_value(form: Any, key: str, default: str = "") -> str:
 
 
 def _json_text(value: Any) -> str:
-    return json.dumps(value, indent=2, sort_keys=True)
+    try:
+        return json.dumps(value, indent=2, sort_keys=True, default=repr)
+    except (TypeError, ValueError):
+        # mappings with other keys than strings
+        return repr(value)
+
+
+def _is_unchanged(text: str, value: Any) -> bool:
+    """
+    Whether a form field still holds the text rendered for a value.
+
+    Arguments that JSON cannot represent are left alone unless they are edited.
+    """
+    return text.splitlines() == _json_text(value).splitlines()
 
 
 def _task_update_snapshot(task: TaskType) -> dict[str, Any]:
@@ -61,6 +74,8 @@ def _build_update_diff(before: dict[str, Any], after: dict[str, Any]) -> dict[st
         key: {"before": before.get(key), "after": after.get(key)}
         for key in before
         if before.get(key) != after.get(key)
+        # true and 1 are different arguments
+        or (key in ("args", "kwargs") and _json_text(before.get(key)) != _json_text(after.get(key)))
     }
 
 
@@ -168,12 +183,14 @@ def _parse_task_edit_updates(form: Any, task: TaskType) -> tuple[dict[str, Any],
         errors.append("executor is required.")
 
     try:
-        updates["args"] = _parse_json_list(str(values["args"]))
+        if not _is_unchanged(str(values["args"]), list(task.args)):
+            updates["args"] = _parse_json_list(str(values["args"]))
     except (TypeError, ValueError, json.JSONDecodeError) as exc:
         errors.append(str(exc))
 
     try:
-        updates["kwargs"] = _parse_json_object(str(values["kwargs"]))
+        if not _is_unchanged(str(values["kwargs"]), dict(task.kwargs)):
+            updates["kwargs"] = _parse_json_object(str(values["kwargs"]))
     except (TypeError, ValueError, json.JSONDecodeError) as exc:
         errors.append(str(exc))
 
-- 
2.43.0


From b5c28ac7ceae2d86eee966cc815513479b533c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:15 +0000
Subject: [PATCH 63/84] fix: commands on a store leave its due tasks alone

---
 asyncz/cli/commands/add.py       | 4 ++--
 asyncz/cli/commands/doctor.py    | 2 ++
 asyncz/cli/commands/inspect.py   | 4 ++--
 asyncz/cli/commands/instances.py | 2 ++
 asyncz/cli/commands/list.py      | 4 ++--
 asyncz/cli/commands/pause.py     | 4 ++--
 asyncz/cli/commands/preview.py   | 4 ++--
 asyncz/cli/commands/remove.py    | 4 ++--
 asyncz/cli/commands/resume.py    | 4 ++--
 asyncz/cli/commands/run.py       | 4 ++--
 asyncz/cli/commands/status.py    | 2 ++
 asyncz/cli/commands/timeline.py  | 4 ++--
 asyncz/cli/commands/update.py    | 4 ++--
 13 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/asyncz/cli/commands/add.py b/asyncz/cli/commands/add.py
index 20fee74..62f453c 100644
--- a/asyncz/cli/commands/add.py
+++ b/asyncz/cli/commands/add.py
@@ -66,7 +66,7 @@ def add(
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
 
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
 
             # Determine a target store alias from the framework scheduler (best effort)
             target_store_alias: str | None = None
@@ -88,7 +88,7 @@ def add(
             cfg: dict[str, Any] = {"stores": stores_cfg}
             target_store_alias = next(iter(stores_cfg.keys()))
             scheduler = AsyncIOScheduler(**cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         # 4) Resolve callable and add task
         func: Callable[..., Any] = import_callable(callable_path)
diff --git a/asyncz/cli/commands/doctor.py b/asyncz/cli/commands/doctor.py
index ce5f0a3..9e67d33 100644
--- a/asyncz/cli/commands/doctor.py
+++ b/asyncz/cli/commands/doctor.py
@@ -158,6 +158,8 @@ def doctor(
             return payload if as_json else None
         finally:
             if not bootstrap_mode:
+                # due tasks are left to the schedulers of the application
+                scheduler.pause()
                 await maybe_await(scheduler.shutdown())
 
     return loop.run_until_complete(main())
diff --git a/asyncz/cli/commands/inspect.py b/asyncz/cli/commands/inspect.py
index d9e4955..bdb3b9b 100644
--- a/asyncz/cli/commands/inspect.py
+++ b/asyncz/cli/commands/inspect.py
@@ -64,13 +64,13 @@ def inspect_task(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             scheduler = AsyncIOScheduler(stores=stores_cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         try:
             task = await maybe_await(scheduler.get_task(job_id))
diff --git a/asyncz/cli/commands/instances.py b/asyncz/cli/commands/instances.py
index 94b8906..515e8f2 100644
--- a/asyncz/cli/commands/instances.py
+++ b/asyncz/cli/commands/instances.py
@@ -90,6 +90,8 @@ def instances(
             return None
         finally:
             if not bootstrap_mode:
+                # due tasks are left to the schedulers of the application
+                scheduler.pause()
                 await maybe_await(scheduler.shutdown())
 
     return loop.run_until_complete(main())
diff --git a/asyncz/cli/commands/list.py b/asyncz/cli/commands/list.py
index 1a7cf38..db93ff9 100644
--- a/asyncz/cli/commands/list.py
+++ b/asyncz/cli/commands/list.py
@@ -78,7 +78,7 @@ def list_jobs(
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
 
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
 
         else:
             # Default to an in-memory store if none provided to make the command useful out of the box
@@ -87,7 +87,7 @@ def list_jobs(
             )
             cfg: dict[str, dict[str, dict[str, Any]]] = {"stores": stores_cfg}
             scheduler = AsyncIOScheduler(**cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         try:
             # 2) Fetch task snapshots
diff --git a/asyncz/cli/commands/pause.py b/asyncz/cli/commands/pause.py
index 59957b5..426b464 100644
--- a/asyncz/cli/commands/pause.py
+++ b/asyncz/cli/commands/pause.py
@@ -44,7 +44,7 @@ def pause(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
 
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
@@ -52,7 +52,7 @@ def pause(
             )
             cfg: dict[str, dict[str, Any]] = {"stores": stores_cfg}
             scheduler = AsyncIOScheduler(**cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         # 2) Delegate to the scheduler API.
         await maybe_await(scheduler.pause_task(job_id))
diff --git a/asyncz/cli/commands/preview.py b/asyncz/cli/commands/preview.py
index c7336f1..0c10c1b 100644
--- a/asyncz/cli/commands/preview.py
+++ b/asyncz/cli/commands/preview.py
@@ -65,13 +65,13 @@ def preview(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             scheduler = AsyncIOScheduler(stores=stores_cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         try:
             preview_result = scheduler.preview_task_runs(job_id, count=count)
diff --git a/asyncz/cli/commands/remove.py b/asyncz/cli/commands/remove.py
index 699d965..95c1540 100644
--- a/asyncz/cli/commands/remove.py
+++ b/asyncz/cli/commands/remove.py
@@ -47,11 +47,11 @@ def remove(
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
 
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             cfg: dict[str, dict[str, Any]] = {"stores": build_stores_map(store)} if store else {}
             scheduler = AsyncIOScheduler(**cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         # 2) Determine the store alias that holds the job (so delete works across multi-store setups)
         #    If your scheduler supports delete by ID only, this lookup is still safe and provides validation.
diff --git a/asyncz/cli/commands/resume.py b/asyncz/cli/commands/resume.py
index 931fef0..7cae644 100644
--- a/asyncz/cli/commands/resume.py
+++ b/asyncz/cli/commands/resume.py
@@ -44,14 +44,14 @@ def resume(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             cfg: dict[str, dict[str, Any]] = {"stores": stores_cfg}
             scheduler = AsyncIOScheduler(**cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         # 2) Delegate to the scheduler API and mirror the resulting state in the message.
         resumed_task = await maybe_await(scheduler.resume_task(job_id))
diff --git a/asyncz/cli/commands/run.py b/asyncz/cli/commands/run.py
index 5b1a8f7..5d9636d 100644
--- a/asyncz/cli/commands/run.py
+++ b/asyncz/cli/commands/run.py
@@ -46,12 +46,12 @@ def run(
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             # Try starting the scheduler if not already running
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             # 1. Build configuration and initialize a temporary scheduler
             cfg: dict[str, dict[str, Any]] = {"stores": build_stores_map(store)} if store else {}
             scheduler = AsyncIOScheduler(**cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         # 2. Delegate the "run now" flow to the scheduler itself.
         await maybe_await(scheduler.run_task(job_id))
diff --git a/asyncz/cli/commands/status.py b/asyncz/cli/commands/status.py
index 37a3ac2..067c027 100644
--- a/asyncz/cli/commands/status.py
+++ b/asyncz/cli/commands/status.py
@@ -94,6 +94,8 @@ def status(
             return None
         finally:
             if not bootstrap_mode:
+                # due tasks are left to the schedulers of the application
+                scheduler.pause()
                 await maybe_await(scheduler.shutdown())
 
     return loop.run_until_complete(main())
diff --git a/asyncz/cli/commands/timeline.py b/asyncz/cli/commands/timeline.py
index 435d3cc..cdf57a4 100644
--- a/asyncz/cli/commands/timeline.py
+++ b/asyncz/cli/commands/timeline.py
@@ -104,13 +104,13 @@ def timeline(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             scheduler = AsyncIOScheduler(stores=stores_cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         try:
             payload = _timeline_payload(
diff --git a/asyncz/cli/commands/update.py b/asyncz/cli/commands/update.py
index e52c8ea..21bbfeb 100644
--- a/asyncz/cli/commands/update.py
+++ b/asyncz/cli/commands/update.py
@@ -133,13 +133,13 @@ def update(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             scheduler = AsyncIOScheduler(stores=stores_cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         try:
             task, store_alias = scheduler.lookup_task(job_id, None)
-- 
2.43.0


From efdcd746c9a8464d5089b5023da81afdc50f170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:05 +0000
Subject: [PATCH 64/84] fix: the run command waits for the run

---
 asyncz/cli/commands/run.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/asyncz/cli/commands/run.py b/asyncz/cli/commands/run.py
index 5d9636d..c5276af 100644
--- a/asyncz/cli/commands/run.py
+++ b/asyncz/cli/commands/run.py
@@ -8,6 +8,7 @@ from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MISSED
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -54,9 +55,21 @@ def run(
             await maybe_await(scheduler.start(paused=True))
 
         # 2. Delegate the "run now" flow to the scheduler itself.
+        finished = asyncio.Event()
+
+        def on_outcome(event: Any) -> None:
+            if event.task_id == job_id:
+                loop.call_soon_threadsafe(finished.set)
+
+        scheduler.add_listener(on_outcome, TASK_EXECUTED | TASK_ERROR | TASK_MISSED)
         await maybe_await(scheduler.run_task(job_id))
         info(f"Triggered job {job_id}")
 
+        # the run ends with the event loop of this command
+        if getattr(scheduler, "event_loop", None) is loop:
+            await finished.wait()
+        scheduler.remove_listener(on_outcome)
+
         # 3. Shutdown the temporary scheduler
         if not bootstrap_mode:
             await maybe_await(scheduler.shutdown())
-- 
2.43.0


From 35fc48f358d902626982321316c7b889c3e9c4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:05 +0000
Subject: [PATCH 65/84] fix: job modules and configurations can be loaded

---
 asyncz/cli/loader.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/asyncz/cli/loader.py b/asyncz/cli/loader.py
index e5f18fa..cdc9b15 100644
--- a/asyncz/cli/loader.py
+++ b/asyncz/cli/loader.py
@@ -6,7 +6,6 @@ from pathlib import Path
 from typing import Any
 
 from asyncz.schedulers import AsyncIOScheduler
-from asyncz.tasks import Task
 
 
 async def load_jobs_from_module(scheduler: AsyncIOScheduler, module_path: str) -> int:
@@ -21,10 +20,10 @@ async def load_jobs_from_module(scheduler: AsyncIOScheduler, module_path: str) -
 
     added = 0
     for item in entries:  # type: ignore
-        task = Task(func=item["func"], name=item.get("name"))
         scheduler.add_task(
-            task,
+            item["func"],
             trigger=item["trigger"],
+            name=item.get("name"),
             args=item.get("args", []),
             kwargs=item.get("kwargs", {}),
         )
@@ -57,9 +56,12 @@ async def load_jobs_from_config(scheduler: AsyncIOScheduler, path: str) -> int:
     added = 0
     for job in data.get("jobs", []):
         trig = parse_trigger(cron=job.get("cron"), interval=job.get("interval"), at=job.get("at"))
-        task = Task(func=job["func"], name=job.get("name"))
         scheduler.add_task(
-            task, trigger=trig, args=job.get("args", []), kwargs=job.get("kwargs", {})
+            job["func"],
+            trigger=trig,
+            name=job.get("name"),
+            args=job.get("args", []),
+            kwargs=job.get("kwargs", {}),
         )
         added += 1
     return added
-- 
2.43.0


From 7065aa4b24bab7ad75ba402fa3f6d6ea04191178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:35 +0000
Subject: [PATCH 66/84] fix: store specifications work as documented

---
 asyncz/cli/_parsers.py | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/asyncz/cli/_parsers.py b/asyncz/cli/_parsers.py
index e605ff2..da69b59 100644
--- a/asyncz/cli/_parsers.py
+++ b/asyncz/cli/_parsers.py
@@ -1,5 +1,8 @@
 from __future__ import annotations
 
+from typing import Any
+from urllib.parse import unquote, urlsplit
+
 import click
 
 _STORE_ALIASES = {
@@ -11,11 +14,38 @@ _STORE_ALIASES = {
 }
 
 
+def _parse_store_url(value: str) -> tuple[str, dict[str, Any]]:
+    """
+    Translates the value of "alias=value" into a store plugin and its arguments.
+    """
+    if value == "memory":
+        return "memory", {}
+
+    scheme = urlsplit(value).scheme
+    if scheme == "file":
+        return "file", {"directory": value.removeprefix("file://")}
+
+    if scheme == "redis":
+        from redis.connection import parse_url
+
+        options: dict[str, Any] = dict(parse_url(value))
+        return "redis", {"database": options.pop("db", 0), **options}
+
+    if scheme in ("mongodb", "mongodb+srv"):
+        database = unquote(urlsplit(value).path.strip("/"))
+        return "mongodb", {"host": value, **({"database": database} if database else {})}
+
+    # anything else is a database URL
+    return "sqlalchemy", {"database": value}
+
+
 def parse_store_option(spec: str) -> tuple[str, dict, str | None]:
     """
     Accepts things like:
       - "durable=sqlite:///file.db"
       - "sqlalchemy=sqlite:///file.db"
+      - "cache=redis://localhost:6379/0"
+      - "default=memory"
       - "memory"
     Returns (plugin_id, kwargs, alias_hint) suitable for scheduler configuration.
     """
@@ -40,11 +70,16 @@ def parse_store_option(spec: str) -> tuple[str, dict, str | None]:
                 "SQLAlchemy store requires a database URL, e.g. durable=sqlite:///file.db"
             )
         # IMPORTANT: SQLAlchemyStore(database=...)
-        return "sqlalchemy", {"database": value}, alias_hint
+        plugin, kwargs = _parse_store_url(value)
+        return plugin, kwargs, alias_hint
 
     if plugin == "memory":
         return "memory", {}, alias_hint
 
+    if value:
+        plugin, kwargs = _parse_store_url(value)
+        return plugin, kwargs, alias_hint
+
     raise click.BadParameter(
         f"Unknown store '{kind}'. Try one of: {', '.join(sorted(_STORE_ALIASES))}."
     )
-- 
2.43.0


From bff6ad0a0ee01cead8f954553dec8ff2567a871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:35 +0000
Subject: [PATCH 67/84] fix: command messages show names as they are

---
 asyncz/cli/commands/add.py       |  3 ++-
 asyncz/cli/commands/doctor.py    |  3 ++-
 asyncz/cli/commands/inspect.py   |  3 ++-
 asyncz/cli/commands/instances.py |  3 ++-
 asyncz/cli/commands/list.py      |  3 ++-
 asyncz/cli/commands/pause.py     |  3 ++-
 asyncz/cli/commands/preview.py   |  3 ++-
 asyncz/cli/commands/remove.py    |  3 ++-
 asyncz/cli/commands/resume.py    |  3 ++-
 asyncz/cli/commands/run.py       |  3 ++-
 asyncz/cli/commands/start.py     |  3 ++-
 asyncz/cli/commands/status.py    |  3 ++-
 asyncz/cli/commands/timeline.py  |  3 ++-
 asyncz/cli/commands/update.py    |  3 ++-
 asyncz/cli/messages.py           | 14 ++++++++++++++
 15 files changed, 42 insertions(+), 14 deletions(-)
 create mode 100644 asyncz/cli/messages.py

diff --git a/asyncz/cli/commands/add.py b/asyncz/cli/commands/add.py
index 62f453c..d7986fb 100644
--- a/asyncz/cli/commands/add.py
+++ b/asyncz/cli/commands/add.py
@@ -6,10 +6,11 @@ import json
 from collections.abc import Callable
 from typing import Annotated, Any
 
-from sayer import Argument, Option, command, info
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.types import parse_trigger
+from asyncz.cli.messages import info
 from asyncz.cli.utils import build_stores_map, ensure_loop, import_callable, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.triggers.base import BaseTrigger
diff --git a/asyncz/cli/commands/doctor.py b/asyncz/cli/commands/doctor.py
index 9e67d33..02fb6e2 100644
--- a/asyncz/cli/commands/doctor.py
+++ b/asyncz/cli/commands/doctor.py
@@ -4,10 +4,11 @@ import json
 from typing import Annotated, Any
 
 import click
-from sayer import Option, command, info
+from sayer import Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.commands.status import _serialize_scheduler_info
+from asyncz.cli.messages import info
 from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.schedulers.inspection import SchedulerInfo
diff --git a/asyncz/cli/commands/inspect.py b/asyncz/cli/commands/inspect.py
index bdb3b9b..f32e69e 100644
--- a/asyncz/cli/commands/inspect.py
+++ b/asyncz/cli/commands/inspect.py
@@ -5,9 +5,10 @@ import json
 from typing import Annotated, Any
 
 import click
-from sayer import Argument, Option, command, info
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.messages import info
 from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskInfo
diff --git a/asyncz/cli/commands/instances.py b/asyncz/cli/commands/instances.py
index 515e8f2..5044f53 100644
--- a/asyncz/cli/commands/instances.py
+++ b/asyncz/cli/commands/instances.py
@@ -3,9 +3,10 @@ from __future__ import annotations
 import json
 from typing import Annotated, Any
 
-from sayer import Option, command, info
+from sayer import Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.messages import info
 from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.schedulers.inspection import SchedulerInstanceInfo
diff --git a/asyncz/cli/commands/list.py b/asyncz/cli/commands/list.py
index db93ff9..796bb9e 100644
--- a/asyncz/cli/commands/list.py
+++ b/asyncz/cli/commands/list.py
@@ -4,9 +4,10 @@ import contextlib
 import json
 from typing import Annotated, Any
 
-from sayer import Option, command, info
+from sayer import Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.messages import info
 from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
 from asyncz.enums import TaskScheduleState
 from asyncz.schedulers import AsyncIOScheduler
diff --git a/asyncz/cli/commands/pause.py b/asyncz/cli/commands/pause.py
index 426b464..0a11e3d 100644
--- a/asyncz/cli/commands/pause.py
+++ b/asyncz/cli/commands/pause.py
@@ -4,9 +4,10 @@ import asyncio
 import contextlib
 from typing import Annotated, Any
 
-from sayer import Argument, Option, command, info, success
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.messages import info, success
 from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 
diff --git a/asyncz/cli/commands/preview.py b/asyncz/cli/commands/preview.py
index 0c10c1b..833368a 100644
--- a/asyncz/cli/commands/preview.py
+++ b/asyncz/cli/commands/preview.py
@@ -5,9 +5,10 @@ import json
 from typing import Annotated, Any
 
 import click
-from sayer import Argument, Option, command, info
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.messages import info
 from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskRunPreview
diff --git a/asyncz/cli/commands/remove.py b/asyncz/cli/commands/remove.py
index 95c1540..31c73df 100644
--- a/asyncz/cli/commands/remove.py
+++ b/asyncz/cli/commands/remove.py
@@ -4,9 +4,10 @@ import asyncio
 import contextlib
 from typing import Annotated, Any
 
-from sayer import Argument, Option, command, info, success
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.messages import info, success
 from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 
diff --git a/asyncz/cli/commands/resume.py b/asyncz/cli/commands/resume.py
index 7cae644..822d46d 100644
--- a/asyncz/cli/commands/resume.py
+++ b/asyncz/cli/commands/resume.py
@@ -4,9 +4,10 @@ import asyncio
 import contextlib
 from typing import Annotated, Any
 
-from sayer import Argument, Option, command, info, success
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.messages import info, success
 from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 
diff --git a/asyncz/cli/commands/run.py b/asyncz/cli/commands/run.py
index c5276af..55aa7d6 100644
--- a/asyncz/cli/commands/run.py
+++ b/asyncz/cli/commands/run.py
@@ -4,9 +4,10 @@ import asyncio
 import contextlib
 from typing import Annotated, Any
 
-from sayer import Argument, Option, command, info
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.messages import info
 from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
 from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MISSED
 from asyncz.schedulers import AsyncIOScheduler
diff --git a/asyncz/cli/commands/start.py b/asyncz/cli/commands/start.py
index 492743f..4906e7a 100644
--- a/asyncz/cli/commands/start.py
+++ b/asyncz/cli/commands/start.py
@@ -6,10 +6,11 @@ import importlib
 import sys
 from typing import Annotated, Any
 
-from sayer import Option, command, info, success
+from sayer import Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.loader import load_jobs_from_config, load_jobs_from_module
+from asyncz.cli.messages import info, success
 from asyncz.cli.utils import (
     WatchTarget,
     _call_hook,
diff --git a/asyncz/cli/commands/status.py b/asyncz/cli/commands/status.py
index 067c027..edd3ded 100644
--- a/asyncz/cli/commands/status.py
+++ b/asyncz/cli/commands/status.py
@@ -3,9 +3,10 @@ from __future__ import annotations
 import json
 from typing import Annotated, Any
 
-from sayer import Option, command, info
+from sayer import Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.messages import info
 from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.schedulers.inspection import SchedulerInfo
diff --git a/asyncz/cli/commands/timeline.py b/asyncz/cli/commands/timeline.py
index cdf57a4..55413cb 100644
--- a/asyncz/cli/commands/timeline.py
+++ b/asyncz/cli/commands/timeline.py
@@ -5,9 +5,10 @@ import json
 from datetime import datetime, timezone
 from typing import Annotated, Any
 
-from sayer import Option, command, info
+from sayer import Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.messages import info
 from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskInfo
diff --git a/asyncz/cli/commands/update.py b/asyncz/cli/commands/update.py
index 21bbfeb..39c5c82 100644
--- a/asyncz/cli/commands/update.py
+++ b/asyncz/cli/commands/update.py
@@ -5,9 +5,10 @@ import json
 from typing import Annotated, Any
 
 import click
-from sayer import Argument, Option, command, info, success
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.messages import info, success
 from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.types import TaskType
diff --git a/asyncz/cli/messages.py b/asyncz/cli/messages.py
new file mode 100644
index 0000000..7be028f
--- /dev/null
+++ b/asyncz/cli/messages.py
@@ -0,0 +1,14 @@
+from __future__ import annotations
+
+import sayer
+from rich.markup import escape
+
+
+def info(message: str) -> None:
+    """Prints an informational message whose text is shown as it is."""
+    sayer.info(escape(message))
+
+
+def success(message: str) -> None:
+    """Prints a success message whose text is shown as it is."""
+    sayer.success(escape(message))
-- 
2.43.0


From 209ee65cadf9f1306a30ba8564f1b231c99a549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:27 +0000
Subject: [PATCH 68/84] fix: failed commands end with their exit code

---
 asyncz/cli/app.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asyncz/cli/app.py b/asyncz/cli/app.py
index 441f8ca..d21f089 100644
--- a/asyncz/cli/app.py
+++ b/asyncz/cli/app.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import sys
+
 from sayer import Sayer
 
 from asyncz.cli.commands.add import add
@@ -39,4 +41,8 @@ asyncz_cli.add_command(update)
 
 
 def main() -> None:
-    asyncz_cli()
+    result = asyncz_cli()
+
+    # usage and command errors are reported as an exit code
+    if isinstance(result, int):
+        sys.exit(result)
-- 
2.43.0


From 30253344259e8fe2284950a40ddb73b4604f1317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 69/84] fix: run times without a zone are local on the command
 line

---
 asyncz/cli/commands/add.py |  7 +++++--
 asyncz/cli/loader.py       |  7 ++++++-
 asyncz/cli/types.py        | 12 ++++++++++--
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/asyncz/cli/commands/add.py b/asyncz/cli/commands/add.py
index d7986fb..6bd160d 100644
--- a/asyncz/cli/commands/add.py
+++ b/asyncz/cli/commands/add.py
@@ -52,8 +52,8 @@ def add(
     async def main() -> None:
         """The core asynchronous logic for submitting the job."""
 
-        # 1) Parse trigger (mutually exclusive)
-        t: BaseTrigger = parse_trigger(cron=cron, interval=interval, at=at)
+        # 1) Check the trigger (mutually exclusive)
+        parse_trigger(cron=cron, interval=interval, at=at)
 
         # 2) Parse JSON args/kwargs
         pos: list[Any] = json.loads(args) if args else []
@@ -93,6 +93,9 @@ def add(
 
         # 4) Resolve callable and add task
         func: Callable[..., Any] = import_callable(callable_path)
+        t: BaseTrigger = parse_trigger(
+            cron=cron, interval=interval, at=at, timezone=scheduler.timezone
+        )
         job = await maybe_await(
             scheduler.add_task(
                 func,
diff --git a/asyncz/cli/loader.py b/asyncz/cli/loader.py
index cdc9b15..fb72491 100644
--- a/asyncz/cli/loader.py
+++ b/asyncz/cli/loader.py
@@ -55,7 +55,12 @@ async def load_jobs_from_config(scheduler: AsyncIOScheduler, path: str) -> int:
 
     added = 0
     for job in data.get("jobs", []):
-        trig = parse_trigger(cron=job.get("cron"), interval=job.get("interval"), at=job.get("at"))
+        trig = parse_trigger(
+            cron=job.get("cron"),
+            interval=job.get("interval"),
+            at=job.get("at"),
+            timezone=scheduler.timezone,
+        )
         scheduler.add_task(
             job["func"],
             trigger=trig,
diff --git a/asyncz/cli/types.py b/asyncz/cli/types.py
index d69e152..b6680b7 100644
--- a/asyncz/cli/types.py
+++ b/asyncz/cli/types.py
@@ -6,6 +6,7 @@ from typing import Literal
 
 from asyncz.triggers.base import BaseTrigger
 from asyncz.triggers.cron import CronTrigger
+from asyncz.utils import to_timezone_with_fallback
 
 
 def parse_interval(text: str) -> float:
@@ -40,7 +41,13 @@ def parse_interval(text: str) -> float:
     return float(value * mult[unit])
 
 
-def parse_trigger(*, cron: str | None, interval: str | None, at: str | None) -> BaseTrigger:
+def parse_trigger(
+    *,
+    cron: str | None,
+    interval: str | None,
+    at: str | None,
+    timezone: dt.tzinfo | None = None,
+) -> BaseTrigger:
     """
     Parses mutually exclusive job scheduling arguments into the appropriate Asyncz trigger object.
 
@@ -50,6 +57,7 @@ def parse_trigger(*, cron: str | None, interval: str | None, at: str | None) ->
         cron: A cron expression string (e.g., '0 0 * * *').
         interval: A human-readable duration string (e.g., '10m', '2h').
         at: An ISO 8601 formatted datetime string indicating a single run time.
+        timezone: The timezone of a run time without one (defaults to the local timezone).
 
     Returns:
         An instantiated subclass of `BaseTrigger` (CronTrigger, IntervalTrigger, or DateTrigger).
@@ -75,4 +83,4 @@ def parse_trigger(*, cron: str | None, interval: str | None, at: str | None) ->
     when: dt.datetime = dt.datetime.fromisoformat(at)  # type: ignore[arg-type]
     from asyncz.triggers.date import DateTrigger
 
-    return DateTrigger(run_at=when)
+    return DateTrigger(run_at=when, timezone=to_timezone_with_fallback(timezone))
-- 
2.43.0


From ee7ed88e9f946db695f2d810814987f1edb1e227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:53 +0000
Subject: [PATCH 70/84] fix: the timeline command tells tasks of different
 stores apart

---
 asyncz/cli/commands/timeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/cli/commands/timeline.py b/asyncz/cli/commands/timeline.py
index 55413cb..34ece27 100644
--- a/asyncz/cli/commands/timeline.py
+++ b/asyncz/cli/commands/timeline.py
@@ -48,7 +48,7 @@ def _timeline_payload(
         if task.id is None:
             continue
 
-        preview = scheduler.preview_task_runs(task.id, count=per_task)
+        preview = scheduler.preview_task_runs(task.id, task.store_alias, count=per_task)
         if preview is None:
             continue
         if preview.exhausted:
-- 
2.43.0


From a5107ff460ffbbf901f1dce471bd2627952e76a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:29 +0000
Subject: [PATCH 71/84] fix: file stores do not stop the search for ids they
 refuse

---
 asyncz/schedulers/base.py |  6 +++++-
 asyncz/stores/file.py     | 10 ++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index c98ad4a..43cd7c2 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1462,7 +1462,11 @@ class BaseScheduler(SchedulerType):
         else:
             for alias, store in self.stores.items():
                 if store_alias in (None, alias):
-                    task2 = store.lookup_task(task_id)
+                    try:
+                        task2 = store.lookup_task(task_id)
+                    except TaskLookupError:
+                        # the store cannot contain it, another one may
+                        continue
                     if task2 is not None:
                         return task2, alias
 
diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index e06f256..2532443 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -21,6 +21,12 @@ if TYPE_CHECKING:
     from asyncz.schedulers.types import SchedulerType
 
 
+class InvalidTaskIdError(TaskLookupError, RuntimeError):
+    """An id no task of a file store can have."""
+
+    detail = 'Invalid character in task id: "{task_id}".'
+
+
 class FileStore(BaseStore):
     """
     Stores tasks via sqlalchemy in a database.
@@ -54,10 +60,10 @@ class FileStore(BaseStore):
         if task_id is None:
             raise RuntimeError("Task id is None")
         if task_id.startswith("."):
-            raise RuntimeError(f'Invalid character in task id: "{task_id}".')
+            raise InvalidTaskIdError(task_id)
         for char in task_id:
             if char in self.forbidden_characters:
-                raise RuntimeError(f'Invalid character in task id: "{task_id}".')
+                raise InvalidTaskIdError(task_id)
 
     @contextmanager
     def lock_directory(self, flags: int) -> Generator[None, None, None]:
-- 
2.43.0


From 5e2af6d851985b06372f43c58efe679eff61f246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:18 +0000
Subject: [PATCH 72/84] fix: a shape name is taken by one of concurrent
 registrations

---
 asyncz/shapes/registry.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/asyncz/shapes/registry.py b/asyncz/shapes/registry.py
index 4c8c8f1..9479001 100644
--- a/asyncz/shapes/registry.py
+++ b/asyncz/shapes/registry.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from inspect import isclass
+from threading import Lock
 from typing import Any
 
 from asyncz.shapes.base import Shape
@@ -17,6 +18,7 @@ class ShapeRegistry:
     """
 
     _registry: dict[str, type[Shape]] = {}
+    _lock = Lock()
 
     @classmethod
     def register(cls, name: str, shape: type[Shape], *, replace: bool = False) -> type[Shape]:
@@ -32,9 +34,12 @@ class ShapeRegistry:
             raise ShapeRegistrationError("Shape names must be non-empty strings.")
         if not isclass(shape) or not issubclass(shape, Shape):
             raise ShapeRegistrationError("Only Shape classes can be registered.")
-        if name in cls._registry and not replace:
-            raise ShapeRegistrationError(f'An Asyncz Shape named "{name}" is already registered.')
-        cls._registry[name] = shape
+        with cls._lock:
+            if name in cls._registry and not replace:
+                raise ShapeRegistrationError(
+                    f'An Asyncz Shape named "{name}" is already registered.'
+                )
+            cls._registry[name] = shape
         return shape
 
     @classmethod
-- 
2.43.0


From 277f3aff1e5b226cac54cced208448ece959733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:18 +0000
Subject: [PATCH 73/84] fix: tasks stored under a custom shape are restored

---
 asyncz/shapes/registry.py | 5 ++++-
 asyncz/stores/base.py     | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/asyncz/shapes/registry.py b/asyncz/shapes/registry.py
index 9479001..babd6ab 100644
--- a/asyncz/shapes/registry.py
+++ b/asyncz/shapes/registry.py
@@ -70,7 +70,10 @@ class ShapeRegistry:
             shape_class = cls._registry[name]
         except KeyError:
             raise ShapeNotFoundError(name) from None
-        return shape_class()
+        shape = shape_class()
+        # persisted records name the registration, whatever the class calls itself
+        shape.name = name  # type: ignore[misc]
+        return shape
 
     @classmethod
     def available(cls) -> tuple[str, ...]:
diff --git a/asyncz/stores/base.py b/asyncz/stores/base.py
index 70d3cfd..5c69424 100644
--- a/asyncz/stores/base.py
+++ b/asyncz/stores/base.py
@@ -163,7 +163,12 @@ class BaseStore(BaseStateExtra, StoreType):
                 f"Unsupported Asyncz task state version: {stored_state.version}."
             )
 
-        shape = resolve_shape(stored_state.shape)
+        # the selected Shape needs no registration to restore what it has written
+        shape = (
+            self.shape
+            if stored_state.shape == self.shape.name
+            else resolve_shape(stored_state.shape)
+        )
         context = ShapeContext(
             entity=stored_state.entity,
             operation="restore",
-- 
2.43.0


From 1d78c8784b43d67356978983796f85f604b83d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:18 +0000
Subject: [PATCH 74/84] fix: the msgspec shape can leave out None

---
 asyncz/shapes/builtins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/shapes/builtins.py b/asyncz/shapes/builtins.py
index 64adcc4..39c6b29 100644
--- a/asyncz/shapes/builtins.py
+++ b/asyncz/shapes/builtins.py
@@ -397,11 +397,12 @@ class MsgspecShape(Shape):
         msgspec = self._msgspec()
         if self.supports(value):
             try:
-                return msgspec.to_builtins(value)
+                payload = msgspec.to_builtins(value)
             except Exception as exc:
                 raise ShapeSerializationError(
                     f'Shape "{self.name}" could not dump {value.__class__.__name__}.'
                 ) from exc
+            return dump_plain(payload, exclude_none=True) if exclude_none else payload
         return super().dump(value, mode=mode, context=context, exclude_none=exclude_none)
 
     def fields(
-- 
2.43.0


From 5290f0c41e662793d054312ded22b4c5a46df9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:18 +0000
Subject: [PATCH 75/84] fix: field descriptions of shapes show no markers of
 the libraries

---
 asyncz/shapes/builtins.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/asyncz/shapes/builtins.py b/asyncz/shapes/builtins.py
index 39c6b29..f9cdcb5 100644
--- a/asyncz/shapes/builtins.py
+++ b/asyncz/shapes/builtins.py
@@ -106,7 +106,8 @@ class PydanticShape(Shape):
             result: list[ShapeField] = []
             for name, field in model_type.model_fields.items():
                 required = field.is_required()
-                default = None if required else field.default
+                has_default = not required and field.default_factory is None
+                default = field.default if has_default else None
                 result.append(
                     ShapeField(
                         name=name,
@@ -195,7 +196,7 @@ class DataclassShape(Shape):
                 field.default is dataclasses.MISSING
                 and field.default_factory is dataclasses.MISSING
             )
-            default = None if required else field.default
+            default = None if field.default is dataclasses.MISSING else field.default
             result.append(
                 ShapeField(
                     name=field.name,
@@ -311,7 +312,9 @@ class AttrsShape(Shape):
             ShapeField(
                 name=field.name,
                 annotation=field.type,
-                default=None if field.default is attr.NOTHING else field.default,
+                default=None
+                if field.default is attr.NOTHING or isinstance(field.default, attr.Factory)
+                else field.default,
                 required=field.default is attr.NOTHING,
             )
             for field in attr.fields(model_type)
@@ -423,7 +426,7 @@ class MsgspecShape(Shape):
             ShapeField(
                 name=field.name,
                 annotation=field.type,
-                default=field.default,
+                default=None if field.default is msgspec.NODEFAULT else field.default,
                 required=field.required,
             )
             for field in msgspec.structs.fields(model_type)
-- 
2.43.0


From e6ec76c1ee87893f9698c1d90628c6ba22fbf858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:07 +0000
Subject: [PATCH 76/84] fix: the pydantic shape restores fields with aliases

---
 asyncz/shapes/builtins.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/asyncz/shapes/builtins.py b/asyncz/shapes/builtins.py
index f9cdcb5..6409639 100644
--- a/asyncz/shapes/builtins.py
+++ b/asyncz/shapes/builtins.py
@@ -9,6 +9,7 @@ from asyncz.shapes.base import Shape, ShapeContext, ShapeField, dump_plain
 from asyncz.shapes.errors import (
     ShapeCapabilityError,
     ShapeDependencyError,
+    ShapeDeserializationError,
     ShapeSerializationError,
     ShapeValidationError,
 )
@@ -64,6 +65,26 @@ class PydanticShape(Shape):
                 ) from exc
         return super().construct(model_type, values, context=context)
 
+    def load(
+        self, model_type: type[Any], value: Any, *, context: ShapeContext | None = None
+    ) -> Any:
+        """
+        Restore a model from its dump, which names fields rather than aliases.
+        """
+
+        if isinstance(value, model_type) or not self.supports(model_type):
+            return super().load(model_type, value, context=context)
+        try:
+            try:
+                return model_type.model_validate(value, by_alias=True, by_name=True)
+            except TypeError:
+                # Pydantic before 2.11 has no validation by name
+                return model_type.model_validate(value)
+        except Exception as exc:
+            raise ShapeDeserializationError(
+                f'Shape "{self.name}" could not restore {model_type.__name__}.'
+            ) from exc
+
     def dump(
         self,
         value: Any,
-- 
2.43.0


From 04fdd86ec7bbb6cd8bb6d57c67a1290f1482509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:08 +0000
Subject: [PATCH 77/84] fix: the attrs and dataclass shapes restore every
 attribute they dump

---
 asyncz/shapes/builtins.py | 48 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/asyncz/shapes/builtins.py b/asyncz/shapes/builtins.py
index 6409639..c081f33 100644
--- a/asyncz/shapes/builtins.py
+++ b/asyncz/shapes/builtins.py
@@ -198,6 +198,25 @@ class DataclassShape(Shape):
                     ) from exc
         return super().construct(model_type, values, context=context)
 
+    def load(
+        self, model_type: type[Any], value: Any, *, context: ShapeContext | None = None
+    ) -> Any:
+        """
+        Restore a dataclass, including the fields its constructor does not take.
+        """
+
+        if not dataclasses.is_dataclass(model_type) or not isinstance(value, Mapping):
+            return super().load(model_type, value, context=context)
+        late = [f.name for f in dataclasses.fields(model_type) if not f.init and f.name in value]
+        instance = super().load(
+            model_type,
+            {key: item for key, item in value.items() if key not in late},
+            context=context,
+        )
+        for name in late:
+            object.__setattr__(instance, name, value[name])
+        return instance
+
     def fields(
         self, model_type: type[Any], *, context: ShapeContext | None = None
     ) -> tuple[ShapeField, ...]:
@@ -292,6 +311,35 @@ class AttrsShape(Shape):
                     ) from exc
         return super().construct(model_type, values, context=context)
 
+    def load(
+        self, model_type: type[Any], value: Any, *, context: ShapeContext | None = None
+    ) -> Any:
+        """
+        Restore an attrs class from its dump, which names attributes.
+
+        The initializer knows private attributes by other names and does not
+        take all attributes.
+        """
+
+        attr = self._attrs()
+        if not attr.has(model_type) or not isinstance(value, Mapping):
+            return super().load(model_type, value, context=context)
+        fields = {field.name: field for field in attr.fields(model_type)}
+        values: dict[Any, Any] = {}
+        late: dict[str, Any] = {}
+        for key, item in value.items():
+            field = fields.get(key)
+            if field is None:
+                values[key] = item
+            elif field.init:
+                values[getattr(field, "alias", None) or key.lstrip("_")] = item
+            else:
+                late[key] = item
+        instance = super().load(model_type, values, context=context)
+        for key, item in late.items():
+            object.__setattr__(instance, key, item)
+        return instance
+
     def dump(
         self,
         value: Any,
-- 
2.43.0


From 7d8a8d3a929d431d668b781707b4d8c4f07ef2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:33 +0000
Subject: [PATCH 78/84] fix: only the lock of the present lock file protects a
 store

---
 asyncz/locks.py | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/asyncz/locks.py b/asyncz/locks.py
index ad0e088..4911407 100644
--- a/asyncz/locks.py
+++ b/asyncz/locks.py
@@ -59,21 +59,40 @@ class FileLockProtected(LockProtectedProtocol):
             kwargs["ppid"] = os.getppid()
         self.file_path = file_path.format(**kwargs)
 
+    def _is_current(self, file: Any) -> bool:
+        # the file could have been removed or replaced since it was opened
+        try:
+            return os.path.samestat(os.fstat(file.fileno()), os.stat(self.file_path))
+        except FileNotFoundError:
+            return False
+
     @contextmanager
     def protected(
         self, blocking: bool = False, timeout: Optional[int] = None
     ) -> Generator[bool, None, None]:
-        with open(self.file_path, "w+") as file:
-            flags = LOCK_EX
-            if not blocking:
-                flags |= LOCK_NB
-            locked = lock(file, flags)
-            try:
-                yield locked
-            finally:
-                if locked:
+        flags = LOCK_EX
+        if not blocking:
+            flags |= LOCK_NB
+        while True:
+            with open(self.file_path, "w+") as file:
+                locked = lock(file, flags)
+                if locked and not self._is_current(file):
+                    # only the lock of the present file protects
                     unlock(file)
+                    continue
+                try:
+                    yield locked
+                finally:
+                    if locked:
+                        unlock(file)
+                return
 
     def shutdown(self) -> None:
-        with suppress(FileNotFoundError):
-            os.remove(self.file_path)
+        # another scheduler could hold the lock, its file stays then
+        with suppress(OSError), open(self.file_path, "r+") as file:
+            if lock(file, LOCK_EX | LOCK_NB):
+                try:
+                    if self._is_current(file):
+                        os.remove(self.file_path)
+                finally:
+                    unlock(file)
-- 
2.43.0


From 04eebd16f69d7c9675e2c54b6d64d1cf5c750f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 79/84] fix: changes of redis stores are atomic

---
 asyncz/stores/redis.py | 71 ++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 38 deletions(-)

diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index 44c0393..fe4b92e 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -1,5 +1,5 @@
 import pickle
-from collections.abc import Iterable
+from collections.abc import Callable, Iterable
 from datetime import datetime
 from datetime import timezone as tz
 from typing import TYPE_CHECKING, Any, Optional, cast
@@ -16,6 +16,8 @@ except ImportError:
     raise ImportError("You must install redis to be able to use this store.") from None
 
 if TYPE_CHECKING:
+    from redis.client import Pipeline
+
     from asyncz.schedulers.types import SchedulerType
 
 
@@ -109,59 +111,52 @@ class RedisStore(BaseStore):
             key=lambda task: to_utc(task.next_run_time) if task.next_run_time else paused_sort_key,
         )
 
-    def add_task(self, task: "TaskType") -> None:
-        assert task.id
-        if self.redis.hexists(self.tasks_key, task.id):
-            raise ConflictIdError(task.id)
+    def change_task(
+        self, task_id: str, exists: bool, change: Callable[["Pipeline"], None]
+    ) -> None:
+        """
+        Changes the task when it still (or not yet) exists, without others in between.
+        """
 
-        with self.redis.pipeline() as pipe:
+        def transaction(pipe: "Pipeline") -> None:
+            if bool(pipe.hexists(self.tasks_key, task_id)) is not exists:
+                raise TaskLookupError(task_id) if exists else ConflictIdError(task_id)
             pipe.multi()
-            pipe.hset(
-                self.tasks_key,
-                task.id,
-                self.conditional_encrypt(
-                    pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                ),  # type: ignore
-            )
+            change(pipe)
 
-            if task.next_run_time:
-                pipe.zadd(
-                    self.run_times_key,
-                    {task.id: datetime_to_utc_timestamp(task.next_run_time)},
-                )
-            pipe.execute()
+        self.redis.transaction(transaction, self.tasks_key)
 
-    def update_task(self, task: "TaskType") -> None:
+    def write_task(self, task: "TaskType", exists: bool) -> None:
         assert task.id
-        if not self.redis.hexists(self.tasks_key, task.id):
-            raise TaskLookupError(task.id)
+        task_id = task.id
+        state = self.conditional_encrypt(
+            pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
+        )
 
-        with self.redis.pipeline() as pipe:
-            pipe.hset(
-                self.tasks_key,
-                task.id,
-                self.conditional_encrypt(
-                    pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                ),  # type: ignore
-            )
+        def change(pipe: "Pipeline") -> None:
+            pipe.hset(self.tasks_key, task_id, state)  # type: ignore
             if task.next_run_time:
                 pipe.zadd(
                     self.run_times_key,
-                    {task.id: datetime_to_utc_timestamp(task.next_run_time)},
+                    {task_id: datetime_to_utc_timestamp(task.next_run_time)},
                 )
             else:
-                pipe.zrem(self.run_times_key, task.id)
+                pipe.zrem(self.run_times_key, task_id)
 
-            pipe.execute()
+        self.change_task(task_id, exists, change)
 
-    def delete_task(self, task_id: str) -> None:
-        if not self.redis.hexists(self.tasks_key, task_id):
-            raise TaskLookupError(task_id)
+    def add_task(self, task: "TaskType") -> None:
+        self.write_task(task, exists=False)
 
-        with self.redis.pipeline() as pipe:
+    def update_task(self, task: "TaskType") -> None:
+        self.write_task(task, exists=True)
+
+    def delete_task(self, task_id: str) -> None:
+        def change(pipe: "Pipeline") -> None:
             pipe.hdel(self.tasks_key, task_id)
             pipe.zrem(self.run_times_key, task_id)
-            pipe.execute()
+
+        self.change_task(task_id, True, change)
 
     def remove_all_tasks(self) -> None:
         with self.redis.pipeline() as pipe:
-- 
2.43.0


From 5a1d969f1e58bc8f60edaed3f0ca2fbd0022f348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 80/84] fix: schedulers sharing stores look regularly for tasks
 of the others

---
 asyncz/schedulers/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 43cd7c2..87abdb9 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1816,6 +1816,9 @@ class BaseScheduler(SchedulerType):
             # the processing itself took time
             remaining = next_wakeup_time - datetime.now(dttz.utc)
             wait_seconds = min(max(timedelta_seconds(remaining), 0), TIMEOUT_MAX)
+            if self.lock_path:
+                # tasks added by schedulers which are gone since are due earlier
+                wait_seconds = min(wait_seconds, self.store_retry_interval)
             self.loggers[self.logger_name].debug(
                 f"Next wakeup is due at {next_wakeup_time} (in {wait_seconds} seconds)."
             )
-- 
2.43.0


From 7d30782a28c53a5015bd5c94243f9b62d6b2919f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:20 +0000
Subject: [PATCH 81/84] fix: schedulers sharing a store can be shut down at
 once

---
 asyncz/schedulers/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 87abdb9..709e8f0 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -305,7 +305,11 @@ class BaseScheduler(SchedulerType):
                 for task in _store.get_all_tasks():
                     assert task.trigger is not None
                     if task.trigger.alias == "shutdown":
-                        _store.delete_task(cast(str, task.id))
+                        try:
+                            _store.delete_task(cast(str, task.id))
+                        except TaskLookupError:
+                            # another scheduler sharing the store executes it
+                            continue
                         if inspect.iscoroutinefunction(task.fn):
                             coros.append(self._ashutdown_fn_helper(task))
                         else:
-- 
2.43.0


From 60fb7cb9564ae35376897bbf86d5d83400ed073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:56 +0000
Subject: [PATCH 82/84] fix: redis stores remove only the record they could not
 restore

---
 asyncz/stores/redis.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index fe4b92e..bda4c03 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -77,7 +77,7 @@ class RedisStore(BaseStore):
 
     def rebuild_tasks(self, states: Iterable[tuple[str, Any]]) -> list["TaskType"]:
         tasks = []
-        failed_task_ids = []
+        failed: dict[str, Any] = {}
 
         for task_id, state in states:
             try:
@@ -86,13 +86,22 @@ class RedisStore(BaseStore):
                 cast("SchedulerType", self.scheduler).loggers[self.logger_name].exception(
                     f"Unable to restore task '{task_id}'. Removing it..."
                 )
-                failed_task_ids.append(task_id)
-
-        if failed_task_ids:
-            with self.redis.pipeline() as pipe:
-                pipe.hdel(self.tasks_key, *failed_task_ids)
-                pipe.zrem(self.run_times_key, *failed_task_ids)
-                pipe.execute()
+                failed[task_id] = state
+
+        if failed:
+            # what was written meanwhile stays
+            def transaction(pipe: "Pipeline") -> None:
+                unchanged = [
+                    task_id
+                    for task_id, state in failed.items()
+                    if pipe.hget(self.tasks_key, cast(str, task_id)) == state
+                ]
+                pipe.multi()
+                if unchanged:
+                    pipe.hdel(self.tasks_key, *unchanged)
+                    pipe.zrem(self.run_times_key, *unchanged)
+
+            self.redis.transaction(transaction, self.tasks_key)
 
         return tasks
 
-- 
2.43.0


From 555d1898478c2d4c105c3c0b34bce77319763ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:56 +0000
Subject: [PATCH 83/84] fix: an interrupt while tasks are restored does not
 remove them

---
 asyncz/stores/mongo.py | 2 +-
 asyncz/stores/redis.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asyncz/stores/mongo.py b/asyncz/stores/mongo.py
index 10327c0..a696a35 100644
--- a/asyncz/stores/mongo.py
+++ b/asyncz/stores/mongo.py
@@ -86,7 +86,7 @@ class MongoDBStore(BaseStore):
         ):
             try:
                 tasks.append(self.rebuild_task(document["state"]))
-            except BaseException:
+            except Exception:
                 doc_id = document["_id"]
                 cast("SchedulerType", self.scheduler).loggers[self.logger_name].exception(
                     f"Unable to restore task '{doc_id}'. Removing it..."
diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index bda4c03..3adf335 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -82,7 +82,7 @@ class RedisStore(BaseStore):
         for task_id, state in states:
             try:
                 tasks.append(self.rebuild_task(state))
-            except BaseException:
+            except Exception:
                 cast("SchedulerType", self.scheduler).loggers[self.logger_name].exception(
                     f"Unable to restore task '{task_id}'. Removing it..."
                 )
-- 
2.43.0


From 48ded24005e28aa961916f3f7ba3e82108c7825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:56 +0000
Subject: [PATCH 84/84] fix: processes can start on a fresh database at once

---
 asyncz/stores/sqlalchemy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asyncz/stores/sqlalchemy.py b/asyncz/stores/sqlalchemy.py
index f8b8c85..313373c 100644
--- a/asyncz/stores/sqlalchemy.py
+++ b/asyncz/stores/sqlalchemy.py
@@ -12,7 +12,7 @@ from asyncz.utils import datetime_to_utc_timestamp, utc_timestamp_to_datetime
 
 try:
     import sqlalchemy
-    from sqlalchemy.exc import IntegrityError
+    from sqlalchemy.exc import IntegrityError, OperationalError, ProgrammingError
 except ImportError:
     raise ImportError("SQLALchemyStore requires SQLALchemy to be installed") from None
 
@@ -61,7 +61,11 @@ class SQLAlchemyStore(BaseStore):
         When starting omits from the index any documents that lack next_run_time field.
         """
         super().start(scheduler, alias)
-        self.metadata.create_all(self.engine)
+        try:
+            self.metadata.create_all(self.engine)
+        except (OperationalError, ProgrammingError):
+            # another process could have created the table at the same time
+            self.metadata.create_all(self.engine)
 
     def shutdown(self) -> None:
         self.engine.dispose()
-- 
2.43.0

