"""Make and try planted bugs: python3 tools/seed.py FILE [id...] [--check]

FILE defines bugs with bug(id, property, needs, breaks, edits, demo).  Every
bug is written to seeded/<id>/ as a patch against /repo's HEAD with its demo,
then tried in a scratch copy: the demo must pass without and fail with it, the
test files named must pass with it.  --check also runs the property's quick
check in the scratch copy (PYTHONPATH), to see whether it is caught.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

BUGS = {}
PY = "/opt/venv/bin/python"
ROOT = os.environ.get("SEED_ROOT", "/verif")
REPO = os.environ.get("SEED_REPO", "/repo")
SEEDED = ROOT + "/seeded"


def bug(id, property, needs, breaks, edits, demo, tests=""):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits,
                    demo=demo, tests=tests)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    exec(compile(open(args[0]).read(), args[0], "exec"), globals())
    for id in args[1:] or list(BUGS):
        b = BUGS[id]
        d = f"{SEEDED}/{id}"
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="seed.")
        try:
            one(id, b, d, tmp + "/repo")
        finally:
            shutil.rmtree(tmp)


def one(id, b, d, scr):
    assert sh(f"git clone -q {REPO} {scr}").returncode == 0
    for f, old, new in b["edits"]:
        p = f"{scr}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {scr} diff").stdout
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(b["demo"])
    open(f"{d}/demo.sh", "w").write(
        "#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n"
        f'exec timeout 250 {PY} "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"],
               "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    r0 = sh(f"bash {d}/demo.sh", cwd=REPO,
            env=dict(os.environ, PYTHONPATH=REPO))
    env = dict(os.environ, PYTHONPATH=scr)
    r1 = sh(f"bash {d}/demo.sh", cwd=scr, env=env)
    print(id, b["property"], "demo clean", r0.returncode, "bug", r1.returncode)
    if r0.returncode:
        print(r0.stdout[-1500:])
    if r1.returncode == 0:
        print(r1.stdout[-1500:])
    elif "-v" in sys.argv or "--v" in sys.argv:
        print(r1.stdout[-800:])
    for t in b["tests"].split():
        files = sh(f"ls {t} -d 2>/dev/null || find tests -name '{t}'", cwd=scr).stdout.split()
        for f in files:
            r = sh(f"timeout 200 {PY} -m pytest -q -p no:cacheprovider -o addopts= --timeout=60 {f}",
                   cwd=scr, env=dict(env, PYTHONDONTWRITEBYTECODE="1"))
            print("   ", f, r.stdout.strip().splitlines()[-1])
    if "--check" in sys.argv:
        r = sh(f"{PY} -m dst.check {b['property']} --tier quick --no-minimise", cwd=ROOT,
               env=dict(env, VERIF_SEED="1", DST_REPO=scr))
        print("   check:", r.returncode, [x for x in r.stdout.splitlines() if "broken" in x
                                      or "VIOL" in x or "held" in x][:2],
              r.stdout[-300:] if r.returncode not in (0, 1) else "")


main()
