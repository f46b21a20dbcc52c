"""Entry point of every check:  python -m dst.check P01 [--tier T] [--replay F]

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the harness itself failed.
"""
import os
import sys

if __name__ == "__main__" and os.environ.get("PYTHONHASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-m", "dst.check"] + sys.argv[1:])

import argparse
import json
import re
import time

REAL_TIME = time.time

from . import core, runner

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known(path=None):
    path = path or os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)["findings"] if e["status"] == "known"]


def match_known(known, prop, kind, msg):
    for e in known:
        if (
            e["property"] == prop
            and e["kind"] == kind
            and re.search(e["match"], msg, re.S)
        ):
            return e
    return None


def unlisted(res, prop, known):
    """The violations of prop in res that the known-findings file does not list"""
    out = []
    for p, k, m in res.get("violations", ()):
        if p == prop and not match_known(known, p, k, m):
            out.append((p, k, m))
    return out


def build_assignments(scens, seed, prop, runs, size):
    """[(index, scenario, seed, size)], scenarios interleaved by weight"""
    todo = []
    for scen, weight in scens:
        n = max(1, int(round(runs * weight)))
        for i in range(n):
            todo.append((i / n, scen, core.stable_seed(seed, prop, scen.name, i)))
    todo.sort(key=lambda x: (x[0], x[1].name))
    return [(i, s, sd, size) for i, (_, s, sd) in enumerate(todo)]


def write_replay(prop, scen, seed, plan, zero, kind, msg, res, tries, n_ops0):
    d = os.environ.get("DST_REPLAY_DIR") or os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{scen.name}-{seed & 0xffffffff:08x}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "scenario": scen.name,
                "seed": seed,
                "kind": kind,
                "message": msg,
                "plan": plan,
                "suppressed_disturbances": zero,
                "operations_before_minimising": n_ops0,
                "operations": len(plan["ops"]),
                "minimiser_runs": tries,
                "trace_hash": res["trace_hash"],
                "faults_fired": res["faults"],
                "trace": res.get("trace"),
            },
            f,
            indent=1,
            default=str,
        )
    return path


def do_replay(path, repeat=2):
    from .registry import scenario

    with open(path) as f:
        rep = json.load(f)
    scen = scenario(rep["scenario"])
    ok = True
    for _ in range(repeat):
        res = runner.fork_run(
            scen,
            rep["seed"],
            rep["plan"],
            rep["suppressed_disturbances"],
            want_trace=True,
        )
        same = res.get("trace_hash") == rep["trace_hash"]
        hit = runner.has_violation(res, rep["property"], rep["kind"])
        print(f"replay: violation={'yes' if hit else 'no'} identical_trace={same}")
        for v in res.get("violations", ()):
            print("  ", v)
        if os.environ.get("DST_SHOW"):
            for e in res.get("trace", ()):
                print("   ", e)
        ok = ok and hit
    if ok:
        print(f"VIOLATION property={rep['property']} replay={path}")
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scenario")
    ap.add_argument("--no-minimise", action="store_true")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    t0 = REAL_TIME()
    runner.setup_imports()
    runner.make_scratch()
    from .registry import CHECKS

    if args.replay:
        return do_replay(args.replay)
    chk = CHECKS[args.prop]
    known = load_known()
    scens = chk.scenarios
    if args.scenario:
        scens = [(s, w) for s, w in scens if s.name == args.scenario]
    quick = args.tier == "quick"
    runs = args.runs or (chk.quick_runs if quick else chk.thorough_runs)
    budget = args.budget or (chk.quick_budget if quick else chk.thorough_budget)
    size = 1 if quick else 2
    assignments = build_assignments(scens, args.seed, args.prop, runs, size)

    agg = {
        "n": 0,
        "faults": {},
        "probes": {},
        "sim_s": 0.0,
        "switches": 0,
        "scen": {},
        "ops": 0,
        "events": 0,
    }
    hashes, scheds = set(), set()
    samples, errors, bad, known_hits = [], [], [], {}

    def on_result(res):
        if res.get("error"):
            errors.append(res)
            return len(errors) > 3
        agg["n"] += 1
        agg["sim_s"] += res["t"]
        agg["switches"] += res["switches"]
        agg["ops"] += res["n_ops"]
        agg["events"] += res["events"]
        agg["scen"][res["scenario"]] = agg["scen"].get(res["scenario"], 0) + 1
        for what in ("faults", "probes"):
            for k, v in res[what].items():
                agg[what][k] = agg[what].get(k, 0) + v
        if res["events"] >= 5 and res["n_ops"] >= 1:
            hashes.add(res["trace_hash"])
        scheds.add(res["sched_hash"])
        if len(samples) < 3:
            samples.append({k: res[k] for k in (
                "scenario", "seed", "n_ops", "events", "t", "faults", "probes")})
        for p, k, m in res["violations"]:
            if p == args.prop:
                e = match_known(known, p, k, m)
                if e:
                    known_hits[e["id"]] = known_hits.get(e["id"], 0) + 1
        if unlisted(res, args.prop, known):
            bad.append(res)
            return True
        return False

    runner.run_batch(assignments, args.workers, budget, on_result)
    explore_wall = REAL_TIME() - t0

    rc = 0
    if bad:
        rc = 1
        res = min(bad, key=lambda r: r["index"])
        _, kind, msg = unlisted(res, args.prop, known)[0]
        scen = {s.name: s for s, _ in scens}[res["scenario"]]
        seed = res["seed"]
        plan = runner.make_plan(scen, seed, size)
        zero, tries, n0 = [], 0, len(plan["ops"])

        def accept(r):
            return any(k == kind for _, k, _ in unlisted(r, args.prop, known))

        if not args.no_minimise:
            plan2, zero2, tries = runner.minimise(
                scen, seed, plan, args.prop, kind, budget=40.0 if quick else 120.0,
                accept=accept,
            )
            final = runner.fork_run(scen, seed, plan2, zero2, want_trace=True)
            if accept(final):
                plan, zero = plan2, zero2
            else:
                final = runner.fork_run(scen, seed, plan, [], want_trace=True)
        else:
            final = runner.fork_run(scen, seed, plan, [], want_trace=True)
        for _, k, m in unlisted(final, args.prop, known):
            if k == kind:
                msg = m
                break
        path = write_replay(
            args.prop, scen, seed, plan, zero, kind, msg, final, tries, n0
        )
        print(f"{args.prop} broken in scenario {scen.name}, seed {seed}: {kind}")
        print(f"  {msg}")
        print(f"  minimised from {n0} to {len(plan['ops'])} operations")
        print(f"VIOLATION property={args.prop} replay={path}")
    elif errors:
        rc = 2
        print(f"HARNESS ERROR in {errors[0].get('scenario')} "
              f"seed {errors[0].get('seed')}:\n{errors[0]['error']}")
    for e in known:
        if e["property"] == args.prop:
            print(f"KNOWN-FINDING: property={args.prop} {e['what']} "
                  f"[hit in this run: {known_hits.get(e['id'], 0)}]")

    wall = REAL_TIME() - t0
    real, stubs = [], []
    for s, _ in scens:
        real += [x for x in s.real if x not in real]
        stubs += [x for x in s.stubs if x not in stubs]
    ev = {
        "property": args.prop,
        "tier": args.tier,
        "seed": args.seed,
        "level": chk.level,
        "coverage": {
            "evaluations": agg["n"],
            "distinct_nontrivial": len(hashes),
            "rule": "one evaluation = one simulated run (one seed = one plan of "
            "operations and faults + one schedule); counted as distinct and "
            "non-trivial when its recorded event history (time-stamped, hashed) "
            "differs from every other run's and it performed at least one "
            "operation and five events",
            "samples": samples,
            "runs_planned": len(assignments),
            "runs_per_scenario": agg["scen"],
            "runs_per_hour": round(agg["n"] / max(explore_wall, 1e-3) * 3600),
            "simulated_seconds": round(agg["sim_s"], 1),
            "task_switches": agg["switches"],
            "operations": agg["ops"],
            "history_events": agg["events"],
            "distinct_schedules": len(scheds),
            "distinct_schedules_measure": "hash of the number of tasks resumed in "
            "each scheduler round of a run",
            "faults_injected": agg["faults"],
            "probes_hit": agg["probes"],
            "real_components": real,
            "stubbed_components": stubs,
            "known_finding_hits": known_hits,
        },
        "assumptions": chk.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{args.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if rc == 0:
        print(f"{args.prop}: held on {agg['n']} runs ({len(hashes)} distinct), "
              f"{agg['sim_s']:.0f} simulated s, faults {agg['faults']}, "
              f"probes {agg['probes']}, {wall:.1f} s")
    return rc


if __name__ == "__main__":
    sys.stdout.flush()
    try:
        rc = main()
    finally:
        runner.remove_scratch()
    sys.stdout.flush()
    os._exit(rc)
