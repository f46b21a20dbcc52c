"""Writes known_findings.json (by hand)"""
import json, subprocess

KNOWN = [
  {
   "id": "K01",
   "status": "known",
   "property": "P02",
   "kind": "unsubscribe_overtakes_subscribe",
   "match": "handled before it while the Block was busy",
   "what": "an Unsubscribe sent right after its Subscribe while the Block lock is held by a task that yields (a part pausing inside a group of changes) is handled first (the lock is not fair): it is answered with an Error and the subscription stays alive",
   "where": "malcolm/core/controller.py handle_request/_handle_request"
  },
]
# commit subject -> property
PROPS = {
 "refresh table data": "P02", "let subscriptions follow": "P02",
 "do not hang or lose": "P03",
 "disable during configure or run": "P06", "a configure overtaken": "P06",
 "abort while a pause waits": "P06", "abort or disable while configure resets": "P06",
 "pause or abort overtaken": "P06", "abort or disable that arrives between": "P06",
 "a run resumed after a seek": "P07", "disable during the abort": "P06",
}
exec(open("mkfind2.py").read()) if __import__("os").path.exists("mkfind2.py") else None
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"],
                     stdout=subprocess.PIPE, text=True).stdout
for line in log.splitlines():
    h, _, subj = line.partition(" ")
    if subj.startswith("fix:"):
        s = subj[5:]
        p = [v for k, v in PROPS.items() if s.startswith(k)]
        assert len(p) == 1, (s, p)
        out.append({"status": "fixed", "entry": f"fixed: property={p[0]} {h} {s}"})
with open("known_findings.json", "w") as f:
    json.dump({"findings": KNOWN + out}, f, indent=1)
    f.write("\n")
