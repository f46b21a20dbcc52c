"""Prove determinism: run many seeds twice, in fresh interpreters, with other
hash seeds and worker counts, and compare the hashes of the event histories.

  python -m dst.determinism [runs per check] [P01 P02 ...]
"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def collect(prop, runs, seed, workers):
    from . import check, runner

    runner.setup_imports()
    runner.make_scratch()
    from .registry import CHECKS

    out = {}

    def on_result(res):
        out[f"{res['scenario']}:{res['seed']}"] = [
            res.get("trace_hash"), res.get("sched_hash"), res.get("error")
        ]

    chk = CHECKS[prop]
    runner.run_batch(
        check.build_assignments(chk.scenarios, seed, prop, runs, 1), workers, 600,
        on_result,
    )
    print(json.dumps(out))


def main():
    if sys.argv[1:2] == ["--collect"]:
        collect(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]))
        sys.stdout.flush()
        from . import runner

        runner.remove_scratch()
        os._exit(0)
    runs = int(sys.argv[1]) if len(sys.argv) > 1 else 200
    with open(os.path.join(ROOT, "MANIFEST.json")) as f:
        props = [c["property"] for c in json.load(f)["checks"]]
    props = sys.argv[2:] or props
    bad = 0
    for prop in props:
        base = None
        for hs, workers in (("0", 8), ("0", 3), ("1", 8), ("4242", 5)):
            env = dict(os.environ, PYTHONHASHSEED=hs)
            o = subprocess.run(
                [sys.executable, "-m", "dst.determinism", "--collect", prop, str(runs),
                 "99", str(workers)],
                cwd=ROOT, env=env, stdout=subprocess.PIPE,
            )
            got = json.loads(o.stdout)
            if base is None:
                base = got
            diff = [k for k in base if base[k] != got.get(k)]
            print(f"{prop} PYTHONHASHSEED={hs} workers={workers}: {len(got)} runs, "
                  f"{len(diff)} differ {diff[:3]}")
            bad += len(diff)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
