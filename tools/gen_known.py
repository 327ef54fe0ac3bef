"""Rewrites the 'fixed' list of known_findings.json from the fix commits of /repo (findings are kept)."""
import json, subprocess
PROPS = {
 "commands on a store leave": "C28", "the run command waits": "C28", "job modules and configurations": "C28", "store specifications work": "C28", "command messages show": "C28", "failed commands end": "C28", "run times without a zone are local": "C28", "the timeline command": "C28", "file stores do not stop the search": "C28",
 "failing dashboard actions": "C27", "dashboard messages are": "C27", "dashboard links to": "C27", "tasks created in the dashboard": "C27", "dashboard pages show and keep": "C27",
 "interval triggers count elapsed": "C11", "cron triggers visit both": "C12", "reject cron expressions with trailing": "C12", "read the fraction": "C11",
 "an and-trigger no longer loops": "C13", "compare instants": "C01", "the default start of an interval": "C11", "a cron trigger never fires before": "C12",
 "an and-trigger is finished": "C13", "a task with a fractional grace": "C08", "the redis store finds due": "C08", "a shutdown task in a persistent": "C09",
 "the time spent processing": "C01", "order stored tasks by instant": "C08", "a submission takes its instance slot": "C03", "replace a broken process pool": "C03",
 "waiting for a process pool": "C03", "a task that changes itself": "C06", "no tasks are processed by a wakeup": "C14", "a run by hand wakes": "C07",
 "shutdown of the asyncio schedulers returns": "C14", "a refused shutdown": "C14", "a task paused before the start": "C14", "a failed start": "C14", "a pool executor takes tasks again": "C14", "an asyncio scheduler can be started again": "C14", "a scheduler owning its event loop": "C15", "the shutdown of an isolated native": "C15",
 "the uptime of a scheduler": "C19", "task listings are sorted": "C19", "resuming a pending task": "C19",
 "keyword arguments named like": "C21", "an iterator given as": "C21", "updating, pausing and": "C21",
 "a default of no missed-start": "C29", "a task definition can be submitted": "C29", "the event of an added task": "C29",
 "task snapshots are not taken": "C22",
 "a limit of zero returns": "C24",
 "run identifiers of look-alike": "C23",
 "a run's record is read": "C23",
 "reinstalled trail listeners": "C24",
 "task loggers leave the caller": "C24",
 "naive times of log entries": "C24",
 "installing the task log handler": "C24",
 "remote task ids may": "C25",
 "errors of remote lookups": "C25",
 "remote previews start": "C25",
 "remote clients report": "C25",
 "tasks added remotely": "C25",
 "remote payloads are": "C25",
 "remote updates accept": "C25",
 "a dashboard mounted at the root": "C26",
 "redirects to the login page": "C26",
 "a shape name is taken": "C30", "tasks stored under a custom": "C30", "the msgspec shape can": "C30", "field descriptions of shapes": "C30", "the pydantic shape restores": "C30", "the attrs and dataclass": "C30",
 "only the lock of the present": "C16", "changes of redis stores": "C17", "schedulers sharing stores look": "C16", "schedulers sharing a store can": "C16", "redis stores remove only": "C17",
 "an interrupt while tasks": "C10", "processes can start on a fresh": "C17",
 "a failing store does not": "C18", "a file store never shows": "C17", "a reference to a callable": "C09",
}
p = "/verif/known_findings.json"
d = json.load(open(p))
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    import re
    m = re.match(r"fix: (?:\[(C\d\d)\] )?(.*)", s)
    prop = m.group(1) or next((v for k, v in PROPS.items() if m.group(2).startswith(k)), None)
    assert prop, s
    out.append(f"fixed: property={prop} {h} {m.group(2)}")
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1)
print(len(out), "fixed,", len(d["findings"]), "findings")
