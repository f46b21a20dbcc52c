"""Print a replay file: operations, then the history up to just after the violation"""
import json
import sys

d = json.load(open(sys.argv[1]))
print(d["kind"], d["message"])
for op in d["plan"]["ops"]:
    print(op)
print(d["plan"]["cfg"])
hit = None
for i, e in enumerate(d["trace"]):
    if e[2] == "VIOLATION" and e[4] == d["kind"]:
        hit = i
        break
end = len(d["trace"]) if hit is None else hit + 3
for e in d["trace"][max(0, end - 60):end]:
    print(e)
