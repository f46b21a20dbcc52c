"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)"""
import json

PROPS = []
NA = []
CHECKED = []

TECH = "deterministic simulation with fault injection (seeded schedule and fault search)"


def prop(id, title, statement, over, text, why, files, mechanism, observe, note,
         na=None):
    assert len(title) <= 80, title
    mech = [{"name": m[0], "where": m[1]} for m in mechanism]
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": mech, "observe_at": [observe],
                    "hook_needed": None},
    })
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKED.append((id, note))


prop(
    "P01", "Every request gets exactly one final, truthful response",
    "Every Get, Put and Post made to a Block is answered by exactly one Return or Error "
    "carrying the id of the request: an accepted Put or Post invokes the device exactly once "
    "with the validated arguments and is answered only after that is done, with its result or "
    "its error, while an invalid one (no such field, read-only, bad value, bad arguments) is "
    "refused without touching the device. A Get returns values the Block held at some "
    "instant between request and response, and no request waits for another that is slow. The "
    "log a method keeps shows the arguments and outcome of the call that finished last.",
    ["inputs", "schedules", "fault_sequences"],
    "all mixes of concurrent requests from many clients, durations and failures of setters and "
    "methods, and a process stop while requests are in flight",
    "the tests issue one request at a time to an idle Block; the guarantee is about any "
    "interleaving of requests, device delays, device failures and shutdown",
    ["malcolm/core/controller.py", "malcolm/core/process.py", "malcolm/core/models.py"],
    [("a task per request, errors turned into Error responses", "Controller.handle_request"),
     ("lock released while a write function runs", "Controller.lock_released"),
     ("argument validation and call logs", "MethodModel, MethodMeta")],
    "responses delivered to the callback of each request; calls seen by the device functions",
    "Seeded search over request mixes, device delays/failures and schedules; the device "
    "functions are stand-ins, everything from the request in to the response out is real code.",
)

prop(
    "P02", "A subscriber's view converges to the Block, in order and atomically",
    "A subscription first delivers the current value, then a message for every later change, "
    "so that after each message the view a subscriber has built (the last full value, or the "
    "deltas applied in turn) equals the state of the Block right after some group of changes, "
    "never going backwards, and equals the Block when changes stop. Changes made as one "
    "group are seen by a subscriber all together or not at all. After the Return that answers "
    "an Unsubscribe nothing more is delivered, and other subscribers are unaffected.",
    ["inputs", "schedules", "histories"],
    "all histories of value, alarm, meta, table-column and structural changes, all "
    "subscribed paths (existing, missing, removed, re-added) in full and delta form, and all "
    "interleavings with subscribe and unsubscribe",
    "tests compare a few hand-made change lists; the guarantee quantifies over every "
    "history of changes and every subscription path and lifetime",
    ["malcolm/core/notifier.py", "malcolm/core/models.py", "malcolm/core/controller.py"],
    [("changes collected until the outermost group ends", "Notifier.changes_squashed"),
     ("tree of subscriptions fed with changes", "NotifierNode")],
    "Update, Delta and Return responses delivered to subscription callbacks",
    "Seeded search over change histories, subscription lifetimes and schedules against a "
    "reference model of the Block after every group of changes.",
)

prop(
    "P03", "Waits end when they should: results, deadlines, stops",
    "A client waiting for outstanding operations, or for a value to match, resumes as soon as "
    "all have completed with their own results or errors, or raises a timeout at its deadline "
    "(total, or since the last event) and neither before nor long after it. A stop aborts the "
    "current or next wait exactly once per stop and never one that was told to ignore stops "
    "made before it; a match wait ends on the first matching value, fails on a bad value, and "
    "leaves no subscription behind. Values that arrive during a wait or sleep reach their "
    "subscription callbacks in order, without shortening or lengthening the sleep.",
    ["inputs", "schedules", "fault_sequences"],
    "all sets of concurrent futures, nested waits in callbacks, timeouts, stop times and value "
    "histories",
    "tests use one future and real time; races between completion, deadline and stop need "
    "controlled time and interleavings",
    ["malcolm/core/context.py", "malcolm/core/future.py", "malcolm/core/concurrency.py"],
    [("one queue of responses serviced by whoever waits", "Context._service_futures"),
     ("stop markers in that queue", "Context.stop, Context.ignore_stops_before_now"),
     ("matching wait", "When, Context.when_matches_async")],
    "return or exception of the waiting calls and their simulated time",
    "Seeded search in simulated time, so deadlines are checked exactly; devices are stand-ins.",
)

prop(
    "P04", "Every part runs each stage exactly once; one failure stops the others",
    "When a Block starts, resets, disables or halts, every part that takes part in that stage "
    "runs it exactly once, concurrently with the other parts, and the stage ends only when "
    "all have ended. If one part fails, the others are told to stop, all are waited for, and "
    "the error of a part that really failed (not of one merely stopped by it) is what the "
    "caller gets. What parts report in a stage reaches the next stage complete and under the "
    "name of the part that reported it.",
    ["inputs", "schedules", "fault_sequences"],
    "all numbers of parts, durations, failure and bad-return combinations, overlapping "
    "operations and stop times",
    "tests run one or two mock parts that end at once; which error wins, who is stopped and "
    "who is waited for depends on the order in which parts end",
    ["malcolm/core/hook.py", "malcolm/core/controller.py", "malcolm/core/part.py",
     "malcolm/modules/builtin/controllers/statefulcontroller.py"],
    [("start all, collect from one queue, stop the rest on error", "start_hooks, wait_hooks"),
     ("stops before the start of a hook do not count", "Hook.prepare")],
    "what the parts' stage functions see, and the answer to the command",
    "Seeded search; what each part does in its stage is a stand-in, the machinery is real.",
)

prop(
    "P05", "Block state only moves along documented transitions; fields follow it",
    "The state of a Block, as any subscriber sees it, starts at the initial state and only "
    "ever follows the documented transitions of its kind of Block, with health and alarm "
    "matching it (fault with the message of the failure, disabled invalid), or, in other "
    "states, giving the worst fault that a part reports of itself, and its label being the "
    "last a part gave it. In each state "
    "exactly the documented fields accept writes: a command is refused without effect if its "
    "field is not writeable in the state it meets and is never refused if it is. A failing "
    "operation always leaves the Block in its fault state, from which reset or disable "
    "recover it. One that is overtaken (a reset by a disable) fails and no longer changes "
    "the state, which comes to rest only when the parts have done what the last one asked.",
    ["inputs", "schedules", "fault_sequences", "histories"],
    "all command sequences by several clients, part failures at every stage, and interleavings",
    "tests walk a few paths of the state diagram with one client; the guarantee is about all "
    "paths including overlapping commands and failures",
    ["malcolm/modules/builtin/controllers/statefulcontroller.py",
     "malcolm/modules/builtin/util.py", "malcolm/modules/scanning/util.py",
     "malcolm/modules/scanning/controllers/runnablecontroller.py"],
    [("table of allowed transitions", "StateSet and its users"),
     ("writeability table applied with the state in one group", "StatefulController.transition")],
    "state, health and meta of a Block as seen by a subscriber; answers to commands",
    "Seeded search against the state tables of the documentation, written down independently.",
)

prop(
    "P06", "Scan commands do what they say and leave the Block where they say",
    "However configure, run, pause, seek, resume, abort, disable and reset are mixed by "
    "several clients, each command that returns has left the Block in the state its "
    "documentation names, no command is lost or hangs, an abort or disable stops whatever was "
    "running and nothing of it goes on afterwards, and interrupted commands end as aborted. "
    "All parts finish a stage of the scan before any starts the next. The Block is in Fault "
    "only if a part really failed, and after a reset a new scan is unaffected by anything that "
    "went before.",
    ["inputs", "schedules", "fault_sequences", "histories"],
    "all command sequences and their timing relative to every stage of a scan, part durations "
    "and failures",
    "tests drive one command at a time with mock parts; aborts, disables and pauses that meet "
    "a stage boundary need controlled interleavings",
    ["malcolm/modules/scanning/controllers/runnablecontroller.py",
     "malcolm/modules/builtin/controllers/managercontroller.py", "malcolm/core/context.py"],
    [("stopping contexts and a queue that says the stop is complete",
      "RunnableController.try_aborting_function"),
     ("abort noticed at the next transition", "RunnableController.abortable_transition"),
     ("queue that tells a paused run to go on or give up", "RunnableController.resume")],
    "state seen by a subscriber, answers to commands, stages seen by the parts",
    "Seeded search; parts are stand-ins with random durations, failures and stop behaviour. "
    "Commands sent while those interrupted by a disable are still unanswered are judged for "
    "liveness only.",
)

prop(
    "P07", "Scans cover every step once, and step counters tell the truth",
    "Every part is told to do the same consecutive segments of the scan, whose ends are those "
    "given by the axes and breakpoints asked for, so that a scan that finishes without being "
    "sought has done every step exactly once and one that was paused has missed none. After a "
    "seek parts are told to go on from exactly the step asked for (bounded by the scan). The "
    "completed, configured and total step counters always satisfy 0 <= completed <= "
    "configured <= total, completed never runs backwards during a run nor exceeds what parts "
    "reported, and Finished is reached exactly when all steps are done.",
    ["inputs", "schedules", "histories", "fault_sequences"],
    "all scan shapes, axes, breakpoints, pause, seek and abort points and progress orders",
    "tests check a few fixed scans; pause points and multi-part progress orders are endless",
    ["malcolm/modules/scanning/controllers/runnablecontroller.py",
     "malcolm/modules/scanning/infos.py"],
    [("segments from axes and breakpoints", "RunnableController.get_steps_per_run"),
     ("minimum over the parts' progress", "RunnableController.update_completed_steps"),
     ("recalculated segment after seek", "RunnableController.do_pause")],
    "segments and steps seen by the parts, step counters seen by a subscriber",
    "Seeded search against an independent model of where runs end.",
)

exec(open("mkprops2.py").read()) if __import__("os").path.exists("mkprops2.py") else None

with open("properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")

PY = "/opt/venv/bin/python -m dst.check"
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -m dst.selftest",
    "hooks": {"guard": "none", "enable": "no hooks are needed: the simulator replaces the "
              "clock, the scheduler's poll, sockets, files and EPICS clients from outside",
              "source_commits": []},
    "checks": [
        {"property": i, "quick_cmd": f"{PY} {i} --tier quick",
         "thorough_cmd": f"{PY} {i} --tier thorough",
         "technique": TECH, "level": "exploration", "level_note": n}
        for i, n in CHECKED],
    "not_applicable": NA,
}
with open("MANIFEST.json", "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
