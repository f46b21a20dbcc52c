"""setup_cmd: nothing is built (the code under test is imported from /repo by
every run); check that the simulator works here and is deterministic"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-m", "dst.selftest"])

from . import core, runner


def main():
    runner.setup_imports()
    runner.make_scratch()
    from .registry import scenario

    scen = scenario("requests")
    seed = core.stable_seed("selftest")
    plan = runner.make_plan(scen, seed, 1)
    a, b = (runner.fork_run(scen, seed, plan) for _ in range(2))
    ok = not a.get("error") and a["trace_hash"] == b["trace_hash"]
    print("simulator ready" if ok else f"simulator broken: {a.get('error')}")
    return 0 if ok else 1


if __name__ == "__main__":
    rc = main()
    runner.remove_scratch()
    sys.stdout.flush()
    os._exit(rc)
