"""Writes /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, pathlib
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
B="asyncz/schedulers/base.py"; A="asyncz/schedulers/asyncio.py"; EX="asyncz/executors/base.py"
ST="asyncz/stores/"; TR="asyncz/triggers/"; DB="asyncz/contrib/dashboard/"
p("C01","Every fire time of a scheduled task is dispatched exactly once, on time",
 "While a scheduler is running, each fire time its trigger yields for a scheduled task is accounted for exactly once and in chronological order - handed to the task's executor, folded into a later one by coalescing, or reported as skipped because the concurrency limit was reached - and none is handed over before its time, twice, or not at all. When nothing blocks the scheduler the hand-over happens at the fire time itself, whatever other tasks, stores and fire times exist. A task whose trigger yields no further fire time is removed from its store, and only then.",
 ["schedules","inputs","histories"],"all sets of tasks, triggers, stores and delays of the event loop, and all orders in which they become due",
 "The tests run a handful of tasks for a second or two on the real clock; they cannot cover the interleavings of fire times, stalls and wake-ups over long virtual time, nor notice one lost or doubled fire time.",
 [B,A,"asyncz/tasks/base.py"],[("process_tasks / _process_tasks_of_store","asyncz/schedulers/base.py"),("wakeup / start_timer","asyncz/schedulers/asyncio.py"),("Task.get_run_times","asyncz/tasks/base.py")],
 ["task function invocations","TASK_SUBMITTED / TASK_MAX_INSTANCES events","virtual clock"])
p("C02","Late runs obey the grace time and the coalescing policy",
 "When fire times come due late, a coalescing task is submitted once, for the latest of them, with the number folded away reported, and a non-coalescing task is submitted for every one of them, oldest first. Each submitted fire time is executed if and only if, when its turn comes, it is late by no more than the task's grace time (no grace time: always); otherwise it is reported missed and the function is not called for it.",
 ["inputs","schedules"],"all grace times (none, whole, fractional), coalesce settings, stall lengths and fire-time patterns, including lateness exactly equal to the grace time",
 "The tests check one late run with mocked datetimes; the boundary and the interaction of several overdue runs with slow functions need a controlled clock and many schedules.",
 [EX,B,"asyncz/tasks/base.py"],[("run_task / run_coroutine_task","asyncz/executors/base.py"),("_coalesce_run_times","asyncz/schedulers/base.py")],
 ["task function invocations with virtual time","TASK_SUBMITTED/TASK_MISSED/TASK_EXECUTED events"])
p("C03","A task never runs more instances at once than its limit allows",
 "At no moment are more submissions of one task being executed than its configured maximum number of instances, on every executor type. A submission over the limit is refused and reported without being executed, and every way a submission can end - return, exception, missed run, cancellation, failure of the worker - gives its slot back, so a task with free capacity is never refused.",
 ["schedules","histories","fault_sequences"],"all run durations, outcomes and submission times, on the debug, asyncio, thread-pool and process-pool executors",
 "Tests try one overrun with one executor; a leaked or doubly released slot only shows after particular sequences of outcomes and overlaps.",
 [EX,"asyncz/executors/asyncio.py","asyncz/executors/pool.py","asyncz/executors/debug.py","asyncz/executors/process_pool.py"],[("send_task counting","asyncz/executors/base.py"),("run_task_success / run_task_error","asyncz/executors/base.py")],
 ["concurrent entries of the task function","TASK_MAX_INSTANCES events"],state=[("instances","running submissions per task id","asyncz/schedulers/base.py")])
p("C04","Every executed fire time is reported by exactly one faithful outcome event",
 "For every submitted fire time the scheduler dispatches exactly one outcome event (unless a shutdown cancels the run) - executed, error or missed - that names the same task, store and fire time, carries the value the function returned or the exception it raised with a traceback, and names the scheduler that ran it. A function that raises an ordinary exception affects nothing else: other fire times of the same submission, other tasks and the task's own schedule go on.",
 ["inputs","schedules","fault_sequences"],"all outcomes (values, exceptions, missed), executors, plain and coroutine functions, batch sizes and interleavings",
 "The tests look at single events for single runs; conservation between submissions and outcomes over mixed histories is not checked anywhere.",
 [EX,"asyncz/executors/asyncio.py","asyncz/executors/pool.py","asyncz/events/base.py",B],[("run_task","asyncz/executors/base.py"),("dispatch_event","asyncz/schedulers/base.py")],
 ["listener callbacks","task function invocations"])
p("C05","Listeners receive exactly the events their mask selects, and cannot do harm",
 "Every event is delivered exactly once to each listener that was registered when it was dispatched and whose mask includes the event's code, in registration order, and to no other. A listener that raises, or that adds or removes listeners or calls back into the scheduler, neither prevents delivery to the others nor disturbs the scheduler; a removed listener receives nothing more.",
 ["inputs","histories"],"all listener sets, masks, add/remove sequences and raising listeners, over all event kinds",
 "Tests use one or two listeners with fixed masks; delivery is a relation between all events, all masks and the registration history.",
 [B,"asyncz/events/constants.py","asyncz/events/base.py"],[("dispatch_event, add_listener, remove_listener","asyncz/schedulers/base.py")],["listener callbacks"])
p("C06","Pause, resume, reschedule, update and delete take effect and persist",
 "From the moment such a call returns, the task follows it: a paused task is never handed over until resumed (or run by hand), a resumed task continues with its trigger's next fire time from then (or is removed if none is left), a rescheduled task follows only its new trigger, an updated task runs with its new function arguments and settings, and a deleted task is never handed over again. The task reported by the scheduler agrees, in every store; an unknown task is reported as a lookup error and changes nothing.",
 ["histories","schedules"],"all sequences of control calls interleaved with fire times, on every store, by id or by task object",
 "Tests issue one call at a time and look at the stored record; they do not check that later fire times obey a history of calls, on each store.",
 [B,"asyncz/tasks/base.py",ST+"memory.py",ST+"file.py",ST+"redis.py",ST+"sqlalchemy.py",ST+"mongo.py"],[("update_task, pause_task, resume_task, reschedule_task, delete_task","asyncz/schedulers/base.py")],["task function invocations","get_task / get_tasks","events"])
p("C07","Running a task by hand submits it once and leaves the schedule consistent",
 "Running a task on demand submits it exactly once to its own executor: for its due fire times (coalesced as configured) or, when none is due, for the current time - unless told not to force it, in which case nothing happens. Afterwards the task's next fire time lies strictly after the call, or the task is removed (or kept paused when asked) if its trigger is finished; when the concurrency limit refuses the run, or the scheduler is stopped, the task is unknown or its executor is missing, an error is raised and the stored task is unchanged.",
 ["inputs","histories"],"all tasks (due, not due, paused, finished), flags, triggers and stores",
 "Tests cover a few mocked cases on one store; they do not compare the stored schedule before and after over many triggers and times.",
 [B],[("run_task","asyncz/schedulers/base.py")],["events","task function invocations","get_task"])
p("C08","All task stores obey one contract",
 "Under any sequence of add, update, delete, clear and query operations every store - memory, file, SQL, Redis, MongoDB - gives the same answers: adding an existing id is a conflict and changes nothing, deleting an unknown id is a lookup error, lookups return the task as last written, due tasks are exactly those whose next run time is not later than the given time, earliest first, the next run time is the minimum over tasks that have one, and the list of all tasks is ordered by next run time with paused tasks last.",
 ["histories","inputs"],"all operation sequences over small id sets and all run times (ties, paused, fractional seconds, past and far future)",
 "Each store's tests use three fixed tasks; equivalence over operation histories, ties and boundaries is untested.",
 [ST+"memory.py",ST+"file.py",ST+"sqlalchemy.py",ST+"redis.py",ST+"mongo.py"],[("store methods","asyncz/stores/")],["return values and exceptions of store methods"])
p("C09","Persisted tasks survive a restart unchanged and keep their schedule",
 "A task written to a persistent store and read back by a new scheduler, in the same or another process, has the same identity, callable, arguments, name, grace time, coalescing, instance limit, executor and next run time, and its trigger - of any kind, with any options - yields the same fire times as before. Nothing is lost or invented by the restart, tasks due meanwhile are handled as late runs, and records in the earlier raw format still load.",
 ["inputs","crash_points"],"all task fields, trigger kinds and options (nested combinations included), stores, pickle protocols, and restart instants including abrupt ends of the process",
 "Tests pickle single triggers or tasks and compare a few attributes; they never ask the restored trigger for its later fire times, and never kill a process.",
 ["asyncz/tasks/base.py","asyncz/state.py","asyncz/datastructures.py",ST+"base.py",TR+"interval.py",TR+"base.py",TR+"cron/trigger.py",TR+"date.py"],[("__getstate__/__setstate__","asyncz/tasks/base.py, asyncz/triggers/"),("serialize_task_state / deserialize_task_state","asyncz/stores/base.py")],["get_tasks after restart","fire times of restored triggers"])
p("C10","Records at rest are sealed when a key is set, and bad records are contained",
 "With an encryption key configured, every persistent store writes only ciphertext: no part of a task's identity-bearing payload is readable at rest, equal payloads differ, and a record that was altered or written under another key is never restored. A record that cannot be restored - corrupt, foreign, of unknown format or version - is never executed and never prevents the other tasks of the store from being listed and run.",
 ["inputs","fault_sequences"],"all payloads, keys, bit flips, truncations and foreign records, in each persistent store",
 "The suite runs with a key set but never looks at the stored bytes or tampers with them.",
 [ST+"base.py",ST+"file.py",ST+"sqlalchemy.py",ST+"redis.py",ST+"mongo.py",ST+"persistence.py"],[("conditional_encrypt / conditional_decrypt","asyncz/stores/base.py"),("rebuild_task","asyncz/stores/")],["raw store contents","get_all_tasks / get_due_tasks / lookup_task"])
p("C11","Interval and date triggers yield exactly the promised fire times",
 "An interval trigger fires at its start and then at whole multiples of its interval after the previous fire; asked without a previous fire it yields the first grid point not before now, and it yields nothing after its end (inclusive). A date trigger yields its one moment once. Results are timezone-aware, do not depend on how the instant passed in is expressed, and naive bounds are read in the trigger's timezone.",
 ["inputs"],"all intervals, starts, ends, timezones, previous fires and instants",
 "Tests are tables of a few instants; alignment, boundary and timezone behaviour hold or fail on particular combinations.",
 [TR+"interval.py",TR+"date.py","asyncz/utils.py"],[("get_next_trigger_time","asyncz/triggers/interval.py, asyncz/triggers/date.py")],["get_next_trigger_time"])
p("C12","Cron triggers yield exactly the matching instants, across DST",
 "A cron trigger yields the earliest instant, not before the one it is asked for (strictly after the previous fire) and within its start and end, whose local date and time fields all match the expressions, and nothing when no such instant exists. This holds for every documented expression form, for crontab strings, and across daylight-saving changes; a repeated local hour is visited both times, a matching local time that a clock change removes may fire at its shifted instant or not at all, and iterating visits matching instants in strictly increasing order and skips none. Malformed or out-of-range expressions are rejected.",
 ["inputs"],"all field expressions and combinations, instants and timezones",
 "Tests list about fifty expressions with expected values; the search over fields, month lengths, leap years, ISO weeks and DST is only exercised at those points.",
 [TR+"cron/trigger.py",TR+"cron/fields.py",TR+"cron/expressions.py","asyncz/utils.py"],[("get_next_trigger_time","asyncz/triggers/cron/trigger.py"),("get_next_value","asyncz/triggers/cron/expressions.py")],["get_next_trigger_time"])
p("C13","Combined triggers and jitter keep their promises",
 "An any-of combination yields the earliest fire time its parts yield and is finished only when all parts are; an all-of combination yields a time that every part yields, the earliest such, and is finished as soon as one part is. Jitter only ever delays a fire time, by no more than the configured number of seconds, and never moves a fire past the trigger's end.",
 ["inputs"],"all combinations (nested included) of triggers, instants and jitters",
 "Tests use two or three fixed combinations and one jitter seed.",
 [TR+"combination.py",TR+"base.py",TR+"interval.py",TR+"cron/trigger.py"],[("AndTrigger / OrTrigger","asyncz/triggers/combination.py"),("apply_jitter","asyncz/triggers/base.py")],["get_next_trigger_time"])
p("C14","Starting, pausing and stopping nest correctly and gate processing",
 "A scheduler started several times runs until it has been shut down as many times; only the first start and the last shutdown act and are announced. Tasks added before the start are committed by it, in order, and can be listed, changed and deleted until then. No fire time is handed over while the scheduler is stopped or paused, pausing and resuming twice is the same as once, doing either on a stopped scheduler is an error, and after a stop it can be started again.",
 ["histories"],"all sequences of start, shutdown, pause, resume and task calls, on the asyncio and the native asyncio scheduler",
 "Tests check one or two nested starts; the counter, state and pending list only go wrong in particular sequences.",
 [B,A],[("inc_refcount / decr_refcount, start, shutdown","asyncz/schedulers/base.py"),("start / shutdown","asyncz/schedulers/asyncio.py")],["return values and exceptions","events","task function invocations"],state=[("ref_counter","open starts","asyncz/schedulers/base.py"),("state","stopped/paused/running","asyncz/schedulers/base.py")])
p("C15","Shutdown runs shutdown tasks exactly once and leaves persistent tasks alone",
 "The final shutdown runs every task registered for shutdown exactly once with its arguments - plain and coroutine functions, from any store, whether or not one of them raises - and never before; other tasks in persistent stores are still there afterwards, unchanged. Once shutdown has returned no fire time is handed over, and a waiting shutdown of a pool executor returns only after its running functions have finished and their outcomes were reported.",
 ["histories","fault_sequences"],"all mixes of shutdown tasks, ordinary tasks, stores, executors, raising functions and shutdown instants",
 "Tests register one shutdown task on the memory store.",
 [B,A,"asyncz/executors/pool.py",TR+"shutdown.py"],[("shutdown, _shutdown_fn_helper, handle_shutdown_coros","asyncz/schedulers/base.py"),("BasePoolExecutor.shutdown","asyncz/executors/pool.py")],["task function invocations","store contents after shutdown","events"])
p("C16","Schedulers sharing a locked store run each fire time once between them",
 "When several scheduler processes share a persistent store under a common lock path, every fire time is handed over by exactly one of them: none twice, none lost, and the others keep checking and take over - within the retry interval - when one pauses, stops or is killed, also for tasks it had added. At most one of them processes the store at a time, also around the shutdown of one of them, and shutdown tasks in the store run once. Only a process killed between handing a fire time over and noting that in the store may have that fire time handed over again.",
 ["schedules","crash_points"],"all numbers of processes, start/stop/kill instants and processing interleavings",
 "The only multi-process test is a smoke run; duplication or a stuck lock depends on interleavings and on where a process dies.",
 ["asyncz/locks.py","asyncz/file_locking.py",B,ST+"base.py"],[("FileLockProtected","asyncz/locks.py"),("_process_tasks_of_store","asyncz/schedulers/base.py")],["executions logged by the worker processes","lock ownership intervals"])
p("C17","Concurrent users of a persistent store never tear, lose or resurrect a task",
 "While processes or threads add, update, read, list and delete tasks of one file store directory, SQLite database or Redis server, or start on a fresh one together, every read returns a complete task as some writer wrote it, and a task that was added and not deleted is never missing and never removed by a reader. Exactly one of several simultaneous adds of one id succeeds.",
 ["schedules"],"all interleavings of readers and writers over shared ids, and deaths of writers at any point",
 "Tests use the store from one thread.",
 [ST+"file.py",ST+"sqlalchemy.py",ST+"redis.py","asyncz/file_locking.py"],[("add_task, update_task, lookup_task, get_tasks","asyncz/stores/"),("with_lock","asyncz/file_locking.py")],["return values of store methods","stored records"])
p("C18","A fault in one part never stops the rest of the scheduler",
 "A store that fails while being read or written, an executor that fails to accept a submission, a missing executor, or a failing listener affects only the tasks concerned: tasks of other stores and executors are still handed over on time, no lock stays held, and processing of the failing store is tried again no later than the configured retry interval. Once the fault is gone its tasks are handed over again without outside help.",
 ["fault_sequences","schedules"],"all single and repeated faults of every store and executor operation used by the processing loop, at every call",
 "Tests raise once from one store method; the states left behind by a fault at each call, and the recovery afterwards, are not explored.",
 [B,A,"asyncz/locks.py"],[("_process_tasks_of_store, process_tasks","asyncz/schedulers/base.py"),("wakeup","asyncz/schedulers/asyncio.py"),("protected","asyncz/locks.py")],["task function invocations with virtual time","fault injection log"])
p("C19","Inspection reports the truth, filtered and sorted as asked, and detached",
 "Task listings contain exactly one entry per task the scheduler holds, agreeing with the task in every reported field; each filter keeps exactly the entries that satisfy it, filters combine, sorting is by the named field (instants compared as instants, ties by name or id) and reversed on request, and invalid arguments are rejected. Scheduler-level counts equal the listing, snapshots cannot be modified and do not change when the task later does.",
 ["inputs","histories"],"all task populations and filter/sort arguments, stopped, running and paused",
 "Tests use a handful of tasks with one filter each.",
 [B,"asyncz/tasks/inspection.py","asyncz/tasks/types.py","asyncz/schedulers/inspection.py"],[("get_task_infos, get_scheduler_info","asyncz/schedulers/base.py"),("snapshot","asyncz/tasks/types.py")],["get_task_infos, get_task_info, get_scheduler_info"])
p("C20","A preview shows what will run, and changes nothing",
 "Previewing a task returns, up to the requested number, exactly the fire times at which the running scheduler then hands the task over, says whether the schedule ends there, and leaves the task, its store and its schedule untouched. Requests outside the allowed count are rejected and an unknown task yields nothing.",
 ["inputs","schedules"],"all triggers without jitter, task states, counts and instants",
 "Tests compare previews with constants; never with what the scheduler actually did next.",
 [B,"asyncz/tasks/inspection.py"],[("preview_task_runs","asyncz/schedulers/base.py")],["preview_task_runs","subsequent TASK_SUBMITTED events"])
p("C21","A task update applies completely or not at all",
 "Updating a task with any set of values either applies all of them or raises and leaves every field of the task, and its stored record, as before. Values outside the documented domains are refused - an id change, an unknown field, an instance limit or grace time that is not positive, a non-trigger, arguments the function cannot be called with - and arguments are accepted exactly when a call with them would bind.",
 ["inputs"],"all combinations of valid and invalid field values, and all function signatures and argument sets",
 "Tests try one invalid value per field, alone; atomicity is about combinations, and signature checking about all signatures.",
 ["asyncz/tasks/base.py","asyncz/utils.py",B],[("Task.update_task","asyncz/tasks/base.py"),("check_callable_args","asyncz/utils.py")],["task fields before and after","stored record","exceptions"])
p("C22","Concurrent calls from many threads behave as if made one at a time",
 "When threads add, look up, list, update, pause, resume and delete tasks while the scheduler is processing, each call takes effect atomically at some instant between its start and its end: of simultaneous adds of one id exactly one succeeds, of simultaneous deletes exactly one, a listing never shows a task twice or misses one that was present throughout, and no call raises an internal error or deadlocks.",
 ["schedules"],"all interleavings of API calls from several threads with each other and with processing",
 "Tests are single-threaded.",
 [B,ST+"memory.py"],[("store_lock, executor_lock, listeners_lock","asyncz/schedulers/base.py")],["call/return history of API calls"])
p("C23","Run history records each run once, with its true final state",
 "With history enabled there is exactly one record per task, store and fire time that was submitted, its status is the outcome that was reported (running until then; never back to running afterwards), whatever the order in which submission and outcome arrive, and distinct runs never share a record or identifier. The history keeps the most recent runs up to its bound, queries return exactly the matching records, newest first, and the summary agrees with the records.",
 ["histories","schedules"],"all event orders, identifiers, bounds and queries, from one or several threads",
 "Tests feed two or three events in the usual order.",
 [DB+"history.py"],[("MemoryRunHistoryStorage","asyncz/contrib/dashboard/history.py"),("install_run_history_listener","asyncz/contrib/dashboard/history.py")],["query, get, summary"])
p("C24","Event, log and audit trails are bounded, complete and correctly filtered",
 "Each trail holds exactly the most recent entries up to its bound, loses none before that, returns them newest first restricted exactly to the filters and limit given, and stays consistent under concurrent writers and readers. Every scheduler event the event trail listens to appears once with its true content, however often the listener is installed.",
 ["histories","inputs","schedules"],"all append/query sequences, bounds, filters and thread interleavings",
 "Tests append a few entries and query once.",
 [DB+"events.py",DB+"audit.py",DB+"logs/storage.py",DB+"logs/handler.py"],[("MemorySchedulerEventStorage","asyncz/contrib/dashboard/events.py"),("MemoryAuditTrailStorage","asyncz/contrib/dashboard/audit.py"),("MemoryLogStorage","asyncz/contrib/dashboard/logs/storage.py")],["append, query, summary"])
p("C25","A remote scheduler client is equivalent to calling the scheduler",
 "Any sequence of listing, inspecting, previewing, adding, updating, running, pausing, resuming and deleting through the remote client has the same effect on the worker's scheduler and gives the same results and the same kind of error as the same call made on it directly. Task ids and arguments are transported without being altered or confused with one another.",
 ["histories","inputs"],"all operation sequences, JSON-representable arguments, and task ids including characters special in URLs",
 "Tests make each call once with plain ids.",
 [DB+"remote.py"],[("RemoteSchedulerClient, create_remote_scheduler_app","asyncz/contrib/dashboard/remote.py")],["client results vs a twin scheduler","task state on the worker"])
p("C26","Nothing is reachable without the required token or login",
 "With a token configured, every request to the remote control application that does not carry exactly it is refused and neither reads nor changes anything, on every route and method. With the dashboard login enabled, every page and action except the login pages and explicitly allowed paths is refused without an authenticated session, failed logins grant nothing and logging out ends access.",
 ["inputs","histories"],"all routes, methods, path spellings, token values and login/logout sequences",
 "Tests try one route with a wrong token and one page without a session.",
 [DB+"remote.py",DB+"admin/middleware/auth_gate.py",DB+"admin/backends.py",DB+"admin/core.py"],[("_require_token","asyncz/contrib/dashboard/remote.py"),("AuthGateMiddleware","asyncz/contrib/dashboard/admin/middleware/auth_gate.py")],["HTTP responses","scheduler state after refused requests"])
p("C27","Dashboard actions do exactly what was asked, and are recorded",
 "A dashboard action - run, pause, resume, delete, create, edit, in bulk or single - affects exactly the named tasks, in the way the corresponding scheduler call would, leaves all other tasks unchanged, survives unknown or duplicate names, and leaves an audit record of what was done and whether it succeeded. Task data is never rendered as markup.",
 ["inputs","histories"],"all selections, actions, task states and field contents",
 "Tests post one form per action.",
 [DB+"controllers/tasks.py",DB+"controllers/_helpers.py",DB+"audit.py"],[("task controllers","asyncz/contrib/dashboard/controllers/tasks.py")],["scheduler state","audit trail","HTTP responses"])
p("C28","The command line does what the scheduler API does, and dry runs change nothing",
 "Each command - add, list, inspect, preview, run, pause, resume, remove, update - applied to a persistent store has the same effect and reports the same data as the corresponding scheduler call, signals failure through its exit status, and a dry run reports the change without making it.",
 ["inputs","histories"],"all commands, options and store contents",
 "Tests call each command once or twice.",
 ["asyncz/cli/"],[("commands","asyncz/cli/commands/"),("build_stores_map, parse_trigger","asyncz/cli/utils.py")],["exit codes and output","store contents before and after"])
p("C29","Adding a task applies defaults, conflicts and replacement exactly as documented",
 "Options not given when adding a task take the scheduler's configured defaults and options given are used unchanged; the first fire time is the trigger's next one, the one given explicitly, or none when added paused. Adding an id that exists in the store is a conflict that leaves the existing task untouched, unless replacement was asked for, in which case the task is fully replaced and exists once; decorator, object and callable forms, before and after start, lead to the same task.",
 ["inputs","histories"],"all option subsets, defaults, existing tasks, forms of adding and scheduler states, on every store",
 "Tests cover single options on the memory store.",
 [B,"asyncz/tasks/base.py","asyncz/schedulers/datastructures.py"],[("add_task, real_add_task","asyncz/schedulers/base.py"),("Task.__call__","asyncz/tasks/base.py")],["get_task","exceptions","events"])
p("C30","Data shapes convert losslessly, and unknown shapes fail clearly",
 "Data dumped through any registered shape and loaded back equals the original, by native values and by JSON; the shape that handles a value is the one selected by instance or name, or the default when none is given; a name can be taken again only by explicit replacement, and concurrent registration never loses an entry. An unregistered name, a taken name, an unsupported value, or data that does not fit the target is reported with the shape error for that case, never as a wrong value.",
 ["inputs","histories"],"all supported data kinds (models, dataclasses, structs, mappings, nested), contexts and registration sequences",
 "Tests check each shape on one model.",
 ["asyncz/shapes/base.py","asyncz/shapes/registry.py","asyncz/shapes/builtins.py"],[("Shape.dump/load","asyncz/shapes/base.py"),("resolve_shape, registry","asyncz/shapes/registry.py")],["dump/load results","exceptions"])
pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
