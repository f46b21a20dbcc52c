"""Runs scenarios in forked children, in parallel, and minimises failures"""
import gc
import json
import os
import random
import select
import signal
import sys
import time
import traceback

from . import core

REAL_TIME = time.time
REPO = os.environ.get("DST_REPO", "/repo")
CPU_LIMIT = 60.0
WALL_LIMIT = 300.0


class Scenario:
    """Base class.  Subclasses give plan() and run()"""

    name = "?"
    #: properties whose oracles this scenario evaluates
    props = ()
    #: properties a run that never finishes is a violation of
    hang_props = ()
    max_time = 100000.0
    max_ticks = 400000
    #: run in a scratch directory of its own
    needs_disk = False
    #: what ran as real code, and what was a stand-in
    real = ()
    stubs = ()

    def plan(self, rng, size):
        """Return {"cfg": {...}, "ops": [...]} of plain JSON"""
        raise NotImplementedError

    def run(self, sim, plan):
        raise NotImplementedError

    def shrink_cfg(self, cfg):
        """Yield simpler cfgs to try while minimising"""
        for k in ("stall_p", "cost", "cb_delay"):
            if cfg.get(k):
                c = dict(cfg)
                c[k] = 0
                yield c


def base_cfg(rng):
    """Swarm style: what the scheduler does is different in every run"""
    return {
        "cost": rng.choice([0.0, 1e-5, 1e-4, 2e-3]),
        "stall_p": rng.choice([0.0, 0.0, 0.0, 0.002, 0.01]),
        "stall_max": rng.choice([0.05, 0.4]),
        "cb_delay": rng.choice([0.0, 0.001, 0.02]),
    }


def make_plan(scenario, seed, size):
    rng = random.Random(core.stable_seed(seed, "plan"))
    plan = scenario.plan(rng, size)
    # What is run must be what is written to a replay file
    return json.loads(json.dumps(plan))


def repo_frame(tb_text):
    return REPO + "/malcolm" in tb_text


def unexpected(sim, scenario, tb):
    kind = "exception" if repo_frame(tb) else "unexpected"
    for p in scenario.props:
        sim.violations.append((p, kind, tb[-1500:]))


def execute(scenario, seed, plan, zero_keys=(), want_trace=False):
    """Run in this (throw-away) process; returns the result dict"""
    sim = core.Sim(
        seed,
        plan.get("cfg"),
        zero_keys=zero_keys,
        max_time=scenario.max_time,
        max_ticks=scenario.max_ticks,
    )
    sim.install()
    err = None
    from .seams import install_seams

    install_seams(sim)
    try:
        sim.run(lambda: scenario.run(sim, plan))
    except core.Violation as v:
        sim.violations.append((v.prop, v.kind, v.msg))
    except (ImportError, MemoryError):
        err = traceback.format_exc()
    except Exception:
        # Raised by the code under test into its caller, or by what is observed
        # having a form that it never has
        unexpected(sim, scenario, traceback.format_exc())
    if sim.stop_reason:
        for p in scenario.hang_props or scenario.props:
            sim.violations.append(
                (p, "hang", f"run never finished: {sim.stop_reason} at t={sim.t:.3f}")
            )
    for tb in sim.uncaught:
        unexpected(sim, scenario, tb)
    return result_of(sim, err, want_trace)


def result_of(sim, err, want_trace):
    res = {
        "violations": sim.violations,
        "error": err,
        "faults": sim.faults,
        "probes": sim.probes,
        "ticks": sim.ticks,
        "switches": sim.switches,
        "t": round(sim.t, 3),
        "trace_hash": sim.trace_hash.hexdigest(),
        "sched_hash": sim.sched_hash.hexdigest(),
        "events": len(sim.trace),
        "keys": sim.used_keys(),
    }
    if want_trace:
        res["trace"] = sim.trace
    return res


SCRATCH = None


def make_scratch():
    """One directory for everything simulated runs write to"""
    global SCRATCH
    import atexit
    import shutil
    import tempfile

    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    SCRATCH = tempfile.mkdtemp(prefix="dst.", dir=base)
    atexit.register(shutil.rmtree, SCRATCH, True)
    return SCRATCH


def remove_scratch():
    import shutil

    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def child_main(scenario, seed, plan, zero_keys, want_trace, wfd):
    """Body of a forked run: never returns"""
    status = 0
    try:
        holder = {}

        def on_prof(_sig, _frame):
            res = {
                "violations": [
                    (p, "hang", "run spins without yielding (CPU limit)")
                    for p in (scenario.hang_props or scenario.props)
                ],
                "error": None,
                "faults": {},
                "probes": {},
                "ticks": 0,
                "switches": 0,
                "t": 0,
                "trace_hash": "cpu",
                "sched_hash": "cpu",
                "events": 0,
                "keys": {},
            }
            _write_all(wfd, json.dumps(res).encode())
            os._exit(0)

        signal.signal(signal.SIGPROF, on_prof)
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
        devnull = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get("DST_STDERR"):
            os.dup2(devnull, 2)
        os.dup2(devnull, 1)
        if scenario.needs_disk:
            # relative paths, so that no path differs from run to run
            os.mkdir(f"{SCRATCH}/{os.getpid()}")
            os.chdir(f"{SCRATCH}/{os.getpid()}")
        res = execute(scenario, seed, plan, zero_keys, want_trace)
        holder["res"] = res
        _write_all(wfd, json.dumps(res, default=str).encode())
    except BaseException:
        try:
            _write_all(
                wfd,
                json.dumps(
                    {"error": "child: " + traceback.format_exc(), "violations": []}
                ).encode(),
            )
        except BaseException:
            status = 3
    os._exit(status)


def _write_all(fd, data):
    while data:
        n = os.write(fd, data)
        data = data[n:]


def fork_run(scenario, seed, plan, zero_keys=(), want_trace=False):
    """Fork a child for one run and wait for its result"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        child_main(scenario, seed, plan, zero_keys, want_trace, wfd)
    os.close(wfd)
    chunks = []
    deadline = REAL_TIME() + WALL_LIMIT
    timed_out = False
    while True:
        left = deadline - REAL_TIME()
        if left <= 0:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        r, _, _ = select.select([rfd], [], [], min(left, 5))
        if r:
            d = os.read(rfd, 1 << 20)
            if not d:
                break
            chunks.append(d)
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    if scenario.needs_disk:
        import shutil

        shutil.rmtree(f"{SCRATCH}/{pid}", ignore_errors=True)
    data = b"".join(chunks)
    if timed_out:
        return {"error": "wall limit", "violations": []}
    if not data:
        # The interpreter died (stack overflow in a cothread, for instance)
        return {"error": f"child died, status {status}", "violations": []}
    return json.loads(data)


def worker(assignments, wfd, deadline):
    """assignments: iterable of (index, scenario, seed, size)"""
    out = os.fdopen(wfd, "w", buffering=1)
    for index, scenario, seed, size in assignments:
        if REAL_TIME() > deadline:
            break
        plan = make_plan(scenario, seed, size)
        res = fork_run(scenario, seed, plan)
        res["index"] = index
        res["scenario"] = scenario.name
        res["seed"] = seed
        res["n_ops"] = len(plan["ops"])
        try:
            out.write(json.dumps(res, default=str) + "\n")
        except BrokenPipeError:
            break
    out.close()
    os._exit(0)


def run_batch(assignments, n_workers, budget, on_result):
    """Run assignments over workers.  on_result(res) may return True to stop"""
    gc.collect()
    gc.freeze()
    deadline = REAL_TIME() + budget
    procs = {}
    for w in range(n_workers):
        mine = assignments[w::n_workers]
        if not mine:
            continue
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            os.setpgid(0, 0)
            try:
                worker(mine, wfd, deadline)
            finally:
                os._exit(4)
        os.close(wfd)
        procs[rfd] = [pid, b""]
    stop = False
    while procs and not stop:
        ready, _, _ = select.select(list(procs), [], [], 5.0)
        for fd in ready:
            data = os.read(fd, 1 << 20)
            if not data:
                os.close(fd)
                os.waitpid(procs.pop(fd)[0], 0)
                continue
            procs[fd][1] += data
            *lines, procs[fd][1] = procs[fd][1].split(b"\n")
            for line in lines:
                if on_result(json.loads(line)):
                    stop = True
    for fd, (pid, _) in procs.items():
        for target in (-pid, pid):
            try:
                os.kill(target, signal.SIGKILL)
            except OSError:
                pass
        os.close(fd)
        os.waitpid(pid, 0)


def has_violation(res, prop, kind=None):
    for p, k, _ in res.get("violations", ()):
        if p == prop and (kind is None or k == kind):
            return True
    return False


def minimise(scenario, seed, plan, prop, kind, budget=60.0, accept=None):
    """Shrink the operation list, the disturbances and the configuration while
    the same class of violation persists"""
    end = REAL_TIME() + budget
    tries = 0

    def still(p, zk):
        nonlocal tries
        tries += 1
        res = fork_run(scenario, seed, p, zk)
        if accept is not None:
            return accept(res)
        return has_violation(res, prop, kind)

    plan = json.loads(json.dumps(plan))
    zero = []
    # ddmin over operations
    n = 2
    ops = plan["ops"]
    while len(ops) >= 1 and REAL_TIME() < end:
        chunk = max(1, len(ops) // n)
        reduced = False
        i = 0
        while i < len(ops) and REAL_TIME() < end:
            cand = ops[:i] + ops[i + chunk:]
            p = dict(plan, ops=cand)
            if still(p, zero):
                ops = cand
                plan = p
                reduced = True
            else:
                i += chunk
        if chunk == 1 and not reduced:
            break
        n = min(n * 2, max(len(ops), 2)) if not reduced else max(n - 1, 2)
        if chunk == 1 and reduced:
            n = len(ops) or 2
    # simpler configuration
    progress = True
    while progress and REAL_TIME() < end:
        progress = False
        for cfg in scenario.shrink_cfg(plan["cfg"]):
            p = dict(plan, cfg=cfg)
            if still(p, zero):
                plan = p
                progress = True
                break
    # switch off disturbances key by key
    res = fork_run(scenario, seed, plan, zero)
    for key in sorted(res.get("keys", {})):
        if REAL_TIME() > end:
            break
        if still(plan, zero + [key]):
            zero.append(key)
    return plan, zero, tries


def setup_imports():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging

    logging.disable(logging.CRITICAL)
    import malcolm

    assert os.path.realpath(malcolm.__file__).startswith(
        os.path.realpath(REPO) + os.sep
    ), malcolm.__file__
