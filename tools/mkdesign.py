"""Writes DESIGN.md from tools/DESIGN.in.md, the findings and the planted bugs"""
import glob
import json
import os

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
src = open("tools/DESIGN.in.md").read()
fixed = [f["entry"] for f in json.load(open("known_findings.json"))["findings"]
         if f["status"] == "fixed"]
na = json.load(open("MANIFEST.json"))["not_applicable"]
props = {}
for line in open("properties.jsonl"):
    p = json.loads(line)
    props[p["id"]] = p["title"]
rows = ["| property | commit | what failed before |", "|---|---|---|"]
for f in fixed:
    _, prop, commit, what = f.split(" ", 3)
    rows.append(f"| {prop.split('=')[1]} | {commit} | {what} |")
caught = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
bugs = ["| change | property | what it needs | caught by |", "|---|---|---|---|"]
for path in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(path))
    i = path.split("/")[1]
    bugs.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, '')} |")
nas = [f"* **{n['property']} {props[n['property']]}**: {n['reason']}" for n in na] or [
    "Every property listed is claimed."]
for k, v in (("@NFIX@", str(len(fixed))), ("@FIXES@", "\n".join(rows)),
             ("@SEEDED@", "\n".join(bugs)), ("@NA@", "\n".join(nas))):
    src = src.replace(k, v)
open("DESIGN.md", "w").write(src.rstrip() + "\n")
