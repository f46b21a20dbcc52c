"""Scans: configure, run, pause, seek, resume, abort, disable, reset"""
import os

import cothread
from scanpointgenerator import CompoundGenerator, LineGenerator

from malcolm.core import Part, Post, Process, Put
from malcolm.modules.builtin.hooks import DisableHook, InitHook, ResetHook
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.hooks import (
    AbortHook,
    ConfigureHook,
    PauseHook,
    PostConfigureHook,
    PostRunArmedHook,
    PostRunReadyHook,
    PreConfigureHook,
    PreRunHook,
    ReportStatusHook,
    RunHook,
    SeekHook,
    ValidateHook,
)
from malcolm.modules.scanning.infos import RunProgressInfo

from ..runner import Scenario, base_cfg
from ..util import Responses, plain
from .states import REST, RUNNABLE, RUNNABLE_FIELDS, StateWatch

PS = "P05"
PL = "P06"
PC = "P07"

HOOKS = {
    "init": InitHook, "reset": ResetHook, "disable": DisableHook,
    "validate": ValidateHook, "report": ReportStatusHook,
    "preconfigure": PreConfigureHook, "configure": ConfigureHook,
    "postconfigure": PostConfigureHook, "prerun": PreRunHook, "run": RunHook,
    "armed": PostRunArmedHook, "ready": PostRunReadyHook, "pause": PauseHook,
    "seek": SeekHook, "abort": AbortHook,
}
SEGMENT = ("configure", "armed", "seek")
#: hooks that may run at any time (validate can be called in any state)
ANYTIME = ("validate", "report", "disable", "init")
COMMANDS = ("configure", "run", "pause", "resume", "abort", "disable", "reset", "put")


class Boom(Exception):
    pass


class ScanPart(Part):
    def bind(self, scen, n, hooks, reports):
        self.scen = scen
        self.n = n
        self.hooks = hooks
        self.reports = reports
        self.segment = None  # (completed, to do)
        return self

    def setup(self, registrar):
        super().setup(registrar)
        for h in self.hooks:
            keys = ["context"]
            if h in SEGMENT:
                keys = ["context", "completed_steps", "steps_to_do", "generator",
                        "axesToMove"]
            if h == "configure":
                keys = keys + ["breakpoints"]

            def func(context, h=h, **kw):
                return self.scen.on_hook(self, h, context, **kw)

            registrar.hook(HOOKS[h], func, lambda _, keys=keys: keys)


def model_boundaries(shape, moved, bps):
    """The steps at which run() returns, from the documentation: the axes to
    move are those of the innermost dimensions, and one run does them once;
    breakpoints divide each such run further"""
    per = 1
    for size in shape[len(shape) - moved:]:
        per *= size
    total = 1
    for size in shape:
        total *= size
    parts = list(bps)
    if parts:
        if sum(parts) < per:
            parts.append(per - sum(parts))
    else:
        parts = [per]
    out, at = [], 0
    for _ in range(total // per):
        for p in parts:
            at += p
            out.append(at)
    return out


class ScanScenario(Scenario):
    name = "scan"
    props = (PL, PS, PC)
    hang_props = (PL,)
    max_time = 20000
    max_ticks = 400000
    needs_disk = True
    real = ("scanning.RunnableController", "builtin.ManagerController",
            "builtin.StatefulController", "core.hook", "core.controller",
            "core.process", "core.context", "core.notifier", "scanpointgenerator",
            "cothread scheduler, locks and queues")
    stubs = ("what each part does in its hook (duration, progress, failure)",
             "time.time", "scheduler poll", "cross-thread callback pipe")

    def plan(self, rng, size):
        cfg = base_cfg(rng)
        cfg["parts"] = rng.choice([1, 2, 2, 3])
        must = ["configure", "armed", "seek", "run"]
        cfg["hooks"] = [
            must + [h for h in HOOKS if h not in must and rng.random() < 0.5]
            for _ in range(cfg["parts"])]
        cfg["reports"] = [rng.random() < 0.7 for _ in range(cfg["parts"])]
        cfg["fail_p"] = rng.choice([0.0, 0.0, 0.0, 0.01, 0.05])
        cfg["slow"] = rng.choice([0.0, 0.05, 1.0, 3.0])
        cfg["step"] = rng.choice([0.05, 0.3, 1.0])
        ops = []

        def configure(gap=0.0, wait=True):
            shape = [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 2, 2, 3]))]
            shape[-1] = rng.choice([1, 3, 4, 6])
            moved = rng.randrange(0, len(shape) + 1)
            per = 1
            for s in shape[len(shape) - moved:]:
                per *= s
            bps = []
            if rng.random() < 0.4:
                left = per if rng.random() < 0.5 else max(per - 1, 1)
                while left > 0 and len(bps) < 4:
                    b = rng.randrange(1, left + 1)
                    bps.append(b)
                    left -= b
            return {"k": "configure", "gap": gap, "wait": wait, "shape": shape,
                    "moved": moved, "bps": bps}

        def gap():
            return rng.choice([0.0, 0.0, 0.001, 0.2, 1.0, round(rng.random() * 3, 2)])

        for _ in range(rng.choice([1, 1, 2, 3]) * size):
            ops.append(configure(gap(), rng.random() < 0.8))
            for _ in range(rng.randrange(0, 7)):
                k = rng.choice(["run", "run", "run", "pause", "pause", "resume",
                                "resume", "put", "abort", "disable", "reset",
                                "configure", "settle"])
                if k == "configure":
                    ops.append(configure(gap(), rng.random() < 0.5))
                    continue
                op = {"k": k, "gap": gap(), "wait": rng.random() < 0.5}
                if k == "run" and rng.random() < 0.5:
                    # a pause in the middle, perhaps a seek, and on again
                    op["wait"] = False
                    ops.append(op)
                    step = rng.choice([-1, -1, -1, rng.randrange(0, 12)])
                    ops.append({"k": "pause", "gap": rng.choice([0.1, 0.5, 1.0]),
                                "wait": rng.random() < 0.9, "step": step})
                    if rng.random() < 0.3:
                        ops.append({"k": "put", "gap": gap(), "wait": True,
                                    "step": rng.randrange(0, 12)})
                    op = {"k": "resume", "gap": gap(), "wait": rng.random() < 0.5}
                    if rng.random() < 0.2:
                        ops.append(op)
                        op = {"k": "settle"}
                if k in ("pause", "put"):
                    op["step"] = rng.choice([-1, -1, rng.randrange(0, 12)])
                    if k == "put":
                        op["step"] = rng.randrange(0, 12)
                ops.append(op)
            if rng.random() < 0.5:
                ops.append({"k": rng.choice(["abort", "disable", "reset"]),
                            "gap": gap(), "wait": True})
                ops.append({"k": "reset", "gap": gap(), "wait": True})
        # a second operator
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.append({"k": rng.choice(["abort", "disable", "pause", "resume"]),
                        "at": round(rng.random() * 15, 2), "step": -1})
        rash = rng.random() < 0.1
        for i, op in enumerate(ops):
            op["i"] = i + 1
            op["rash"] = rash
        return {"cfg": cfg, "ops": ops}

    # ---- what parts do ----
    def on_hook(self, part, hook, context, completed_steps=None, steps_to_do=None,
                generator=None, axesToMove=None, breakpoints=None):
        sim = self.sim
        if hook == "configure":
            # the scan that has been let in
            self.bounds = model_boundaries(
                [g.size for g in generator.generators], len(axesToMove),
                [int(b) for b in breakpoints])
            sim.check(self.bounds in self.asked, PC, "wrong_parameters",
                      f"part {part.n} told to do {self.bounds}")
        key = f"h.{part.n}.{hook}"
        mode = sim.draw(key, 6)
        dur = round(sim.uniform(key + ".d", 0.0, self.cfg["slow"]), 3)
        fails = sim.chance(key + ".f", self.fail_p)
        rec = {"p": part.n, "h": hook, "t0": sim.t, "s1": None, "t1": None,
               "out": None, "op": self.last_cmd}
        rec["s0"] = sim.log("hook+", part.n, hook, completed_steps, steps_to_do)
        self.barrier(rec)
        self.recs.append(rec)
        self.live.append(rec)
        out = "ok"
        try:
            if hook in SEGMENT:
                part.segment = (int(completed_steps), int(steps_to_do))
                self.on_segment(part, hook, part.segment)
            if hook == "run":
                self.do_steps(part, context, rec)
            elif mode == 5:
                cothread.Sleep(dur)
            elif dur:
                context.sleep(dur)
            if fails:
                sim.fault("hook_raises", part.n, hook)
                self.failed.append((sim.seq, sim.t, hook))
                out = f"boom{part.n}{hook}"
                raise Boom(out)
        except Boom:
            raise
        except Exception as e:
            out = "stopped" if type(e).__name__ == "AbortedError" else repr(e)
            if out != "stopped":
                self.failed.append((sim.seq, sim.t, hook))
            raise
        finally:
            rec["t1"] = sim.t
            rec["out"] = out
            rec["s1"] = sim.log("hook-", part.n, hook, out)
            self.live.remove(rec)

    def do_steps(self, part, context, rec):
        sim = self.sim
        done, todo = part.segment
        self.on_run_start(part)
        if part.reports:
            self.progress(part, done)
        unstoppable = sim.draw(f"run.{part.n}.u", 6) == 5
        for step in range(done, done + todo):
            d = self.cfg["step"] * sim.uniform(f"run.{part.n}.s", 0.2, 1.5)
            if unstoppable:
                # only looks at the end of each step
                cothread.Sleep(d)
                context.sleep(0)
            else:
                context.sleep(d)
            self.did[part.n].append(step)
            sim.log("step", part.n, step)
            if part.reports:
                self.progress(part, step + 1)
        rec["complete"] = True

    def progress(self, part, steps):
        self.reported[part.n] = steps
        part.registrar.report(RunProgressInfo(steps))

    # ---- invariants while running ----
    def barrier(self, rec):
        """No part starts the next stage before all have ended the last one"""
        if rec["h"] in ANYTIME:
            return
        late = [r for r in self.live
                if r["h"] != rec["h"] and r["h"] not in ANYTIME
                and r["s0"] > self.last_disable]
        self.sim.check(not late or self.tainted, PL, "stage_overlap",
                       lambda: f"{rec['h']} starts on part {rec['p']} while "
                       f"{[(r['p'], r['h']) for r in late]} still run")

    def on_segment(self, part, hook, seg):
        """A part is told which steps to do next"""
        sim = self.sim
        c, d = seg
        if hook != self.seg_hook or part.n in self.seg_parts or self.seg != seg:
            # a new stage
            if self.seg_parts and self.seg_hook == hook and part.n not in \
                    self.seg_parts and self.seg_open:
                sim.violate(PC, "parts_disagree",
                            f"{hook}: part {part.n} got {seg}, others {self.seg}")
            self.seg_parts = set()
            self.seg_hook = hook
            prev, self.seg = self.seg, seg
            self.seg_open = True
            want_c = 0
            if hook == "armed":
                want_c = prev[0] + prev[1]
            elif hook == "seek":
                want_c = None
            bounds = self.bounds
            if want_c is not None:
                sim.check(c == want_c, PC, "wrong_start",
                          f"{hook}: told to start at {c}, wanted {want_c}")
            nxt = [b for b in bounds if b > c]
            sim.check(nxt and c + d == nxt[0], PC, "wrong_extent",
                      f"{hook}: told to do {c}..{c + d}, runs end at {bounds}")
            if hook == "seek":
                asked = [o["seek"] for o in self.open if "seek" in o]
                sim.check(any(lo <= c <= hi for lo, hi in asked), PC, "wrong_seek",
                          f"seek to {c}, asked for {asked}")
                self.seeks += 1
        self.seg_parts.add(part.n)

    def on_run_start(self, part):
        sim = self.sim
        self.seg_open = False
        c, d = part.segment
        sim.check(part.segment == self.seg, PC, "parts_disagree",
                  f"part {part.n} runs {part.segment}, others {self.seg}")
        v = self.watch.view
        got = (v["completedSteps"]["value"], v["configuredSteps"]["value"])
        sim.check(got[1] == c + d, PC, "wrong_attributes",
                  f"configured {got[1]} when parts run {c}..{c + d}")
        sim.check(c <= got[0] <= c + d, PC, "wrong_attributes",
                  f"completed {got[0]} when parts start {c}..{c + d}")

    def on_state(self, state):
        sim = self.sim
        v = self.watch.view
        done, conf, total = (v[a]["value"] for a in (
            "completedSteps", "configuredSteps", "totalSteps"))
        if state in ("Running", "PostRun", "Armed", "Paused", "Finished"):
            sim.check(0 <= done <= conf <= total, PC, "wrong_attributes",
                      f"{state}: completed {done}, configured {conf}, total {total}")
            sim.check(total == self.bounds[-1], PC, "wrong_total",
                      f"total {total}, generator has {self.bounds[-1]}")
        if state == "Finished":
            c, d = self.seg
            sim.check(done == total == c + d, PC, "finished_early",
                      f"Finished with {done} of {total} steps, last run {c}..{c + d}")
            if not self.seeks_asked:
                for p in self.parts:
                    want = list(range(total))
                    got = self.did[p.n]
                    sim.check(got == want, PC, "steps_missed",
                              f"part {p.n} did {got} of {total}")
            else:
                sim.probe("finished_after_seek")
                if self.only_pauses:
                    for p in self.parts:
                        miss = set(range(total)) - set(self.did[p.n])
                        sim.check(not miss or not p.reports, PC, "steps_missed",
                                  f"part {p.n} never did {sorted(miss)}")
        if state == "Armed" and len(self.watch.history) > 1:
            prev = self.watch.history[-2][2]
            if prev == "PostRun":
                sim.check(self.seg_hook == "armed", PC, "wrong_end",
                          f"Armed after a run, last told {self.seg_hook} {self.seg}")
        if state == "Configuring":
            self.did = {p.n: [] for p in self.parts}
            self.reported = {}
            self.seeks_asked = sum("seek" in o for o in self.open)
            self.only_pauses = not any("explicit" in o for o in self.open)
        if state == "Disabling":
            self.last_disable = sim.seq
        if state == "Fault" and not self.failed_recently() and not self.tainted:
            sim.violate(PL, "spurious_fault",
                        f"Fault: {v['state']['alarm']['message']!r} though no part "
                        f"failed")

    def failed_recently(self):
        return any(s > self.fault_base for s, _, _ in self.failed)

    # ---- commands ----
    def request(self, op):
        i, k = op["i"], op["k"]
        if k == "configure":
            names = "zyx"[3 - len(op["shape"]):]
            gens = [LineGenerator(n, "mm", 0.0, 1.0, s)
                    for n, s in zip(names, op["shape"])]
            g = CompoundGenerator(gens, [], [], duration=0.1)
            axes = list(names[len(names) - op["moved"]:])
            return Post(i, ["S", "configure"], {
                "generator": g, "axesToMove": axes, "breakpoints": op["bps"]})
        if k == "put":
            return Put(i, ["S", "completedSteps", "value"], op["step"])
        if k == "pause" and op.get("step", -1) >= 0:
            return Post(i, ["S", "pause"], {"lastGoodStep": op["step"]})
        return Post(i, ["S", k])

    def issue(self, op):
        """Send a command; returns its record"""
        sim = self.sim
        k = op["k"]
        r = Responses(sim, f"{k}{op['i']}", op["i"])
        req = self.request(op)
        req.set_callback(r)
        state = self.watch.state
        if k == "configure":
            self.asked.append(model_boundaries(op["shape"], op["moved"], op["bps"]))
        self.last_cmd = op["i"]
        rec = {"op": op, "r": r, "state": state, "s0": sim.log(
            "cmd", k, op["i"], state), "t0": sim.t, "others": list(self.open),
            "later": [], "stalled": sim.stalled}
        if any("disable" in o["later"] for o in self.open) or (
                k == "disable" and any(o["op"]["k"] == "reset" for o in self.open)):
            # disable does not wait for what it interrupts: going on before
            # that has been answered is at the user's own risk
            self.tainted = True
            sim.probe("tainted")
        if k in ("pause", "put"):
            self.note_seek(op, rec)
        for o in self.open:
            o["later"].append(k)
        self.open.append(rec)
        self.cmds.append(rec)
        self.controller.handle_request(req)
        sim.spawn(self.reap, rec)
        return rec

    def note_seek(self, op, rec):
        v = self.watch.view
        done, conf, total = (v[a]["value"] for a in (
            "completedSteps", "configuredSteps", "totalSteps"))
        step = op.get("step", -1)
        if step < 0:
            lo, hi = max(done - 1, 0), max(conf, total)
        else:
            hi = min(step, max(total - 1, 0))
            lo = max(hi - 1, 0)
            self.only_pauses = False
            rec["explicit"] = True
        rec["seek"] = (lo, hi)
        self.seeks_asked += 1

    def reap(self, rec):
        sim = self.sim
        r = rec["r"]
        while not r.finals:
            if not r.wait(1000):
                return
        self.open.remove(rec)
        self.judge(rec)

    def judge(self, rec):
        sim = self.sim
        op, r, k = rec["op"], rec["r"], rec["op"]["k"]
        label = f"{k}{op['i']}"
        fin = r.finals[0]
        err = fin.message if type(fin).__name__ == "Error" else None
        ename = type(err).__name__ if err is not None else None
        states = self.watch.states_between(rec["s0"], r.seq_final)
        sim.log("cmd-done", label, ename)
        rec["err"] = ename
        allowed = RUNNABLE_FIELDS.get("completedSteps" if k == "put" else k) or (
            set(RUNNABLE) - {"Disabling", "Disabled"})
        if ename == "NotWriteableError":
            sim.probe("refused")
            sim.check(any(s not in allowed for s in states), PS, "wrongly_refused",
                      f"{label} refused in {states}")
            return
        sim.check(any(s in allowed for s in states), PS, "wrongly_accepted",
                  f"{label} accepted in {states}")
        sim.probe(f"{k}_{'ok' if err is None else ename}")
        if self.tainted:
            return
        now = self.watch.last_state_before(r.seq_final)
        failed = any(s > rec["s0"] for s, _, _ in self.failed) or any(
            o["op"]["k"] in ("disable",) for o in rec["others"])
        alone = not rec["later"] and not [
            o for o in rec["others"] if k in ("run", "configure", "reset", "resume")
            and (k, o["op"]["k"]) != ("resume", "run")
            or o["op"]["k"] not in ("run", "configure")]
        if k == "abort" and err is None:
            sim.check(now == "Aborted" or rec["later"], PL, "wrong_state",
                      f"{label} returned in {now}")
            live = [(x["p"], x["h"]) for x in self.live if x["h"] not in ANYTIME]
            sim.check(not live or rec["later"] or failed, PL, "not_aborted",
                      f"{label} returned while {live} run")
        if err is None and not rec["later"] and not failed:
            want = {"configure": ("Armed",), "run": ("Armed", "Finished"),
                    "pause": ("Paused", "Armed", "Finished"), "put": ("Paused", "Armed"),
                    "resume": ("Running", "PostRun", "Armed", "Finished"),
                    "abort": ("Aborted",), "disable": ("Disabled",),
                    "reset": ("Ready",)}[k]
            sim.check(now in want, PL, "wrong_state", f"{label} returned in {now}")
        if err is not None and alone and not failed and rec["state"] in allowed:
            ok = ename == "AbortedError" and rec["later"]
            sim.check(ok, PL, "wrong_error",
                      f"{label} given in {rec['state']} raised {err!r}; nothing failed "
                      f"and nobody interfered")
        if err is not None and k in ("run", "configure", "pause", "put") and not failed:
            # interrupted by somebody else: that is an abort
            rivals = [o for o in rec["others"] if k != "pause" and k != "put"
                      or o["op"]["k"] != "run"]
            began = not rivals and k not in rec["later"] and (k != "configure" or "Configuring" in states)
            if began and any(x in ("abort", "disable") for x in rec["later"]):
                sim.check(ename == "AbortedError", PL, "wrong_error",
                          f"{label} interrupted by {rec['later']} raised {err!r}")

    # ---- run ----
    def run(self, sim, plan):
        self.sim = sim
        cfg = self.cfg = plan["cfg"]
        self.fail_p = 0.0
        self.recs, self.live, self.failed = [], [], []
        self.cmds, self.open = [], []
        self.did, self.reported = {}, {}
        self.last_cmd = 0
        self.tainted = False
        self.last_disable = 0
        self.fault_base = 0
        self.seg = (0, 0)
        self.seg_hook = None
        self.seg_parts = set()
        self.seg_open = False
        self.bounds = [0]
        self.asked = []
        self.seeks = self.seeks_asked = 0
        self.only_pauses = True
        os.mkdir("cfg")
        process = self.process = Process("proc")
        c = self.controller = RunnableController("S", "cfg")
        self.parts = []
        for n in range(cfg["parts"]):
            p = ScanPart(f"p{n}").bind(self, n, cfg["hooks"][n], cfg["reports"][n])
            self.parts.append(p)
            self.did[n] = []
            c.add_part(p)
        process.add_controller(c)
        process.start()
        fields = dict(RUNNABLE_FIELDS, disable=None, validate=None)
        self.watch = StateWatch(
            sim, PS, c, RUNNABLE, fields,
            ["state", "health", "configuredSteps", "totalSteps", "modified"],
            attrs=("completedSteps", "configuredSteps", "totalSteps"))
        self.watch.on_state = self.on_state
        self.watch_values()
        self.fail_p = cfg["fail_p"]
        base = sim.t
        tasks = []
        for op in plan["ops"]:
            if "at" in op:
                tasks.append(sim.at(base + op["at"], self.issue, op))
        for op in plan["ops"]:
            if "at" in op:
                continue
            if op.get("gap"):
                cothread.Sleep(op["gap"])
            if any("disable" in o["later"] for o in self.open) and not op.get("rash"):
                self.settle(20)
            if op["k"] == "settle":
                self.settle(20)
                continue
            rec = self.issue(op)
            if op["wait"]:
                # until it is answered, or it is clear that it waits for us
                end = sim.t + 60
                while not rec["r"].finals and sim.t < end:
                    if self.watch.state == "Paused":
                        break
                    rec["r"].wait(0.5)
        for t in tasks:
            t.Wait(1000)
        self.finish()

    def watch_values(self):
        """completedSteps never claims more than the parts have done"""
        sim = self.sim
        look = self.watch.look
        last = {"done": 0}

        def checked():
            v = self.watch.view
            look()
            done = v["completedSteps"]["value"]
            if done != last["done"] and self.watch.state == "Running":
                sim.check(done > last["done"], PC, "went_backwards",
                          f"completed went from {last['done']} to {done}")
                if self.reported:
                    sim.check(done <= max(self.reported.values()), PC, "overclaimed",
                              f"completed {done}, parts reported {self.reported}")
            last["done"] = done

        self.watch.look = checked

    def settle(self, limit):
        """Until the Block rests and nothing is outstanding but a paused run"""
        end = self.sim.t + limit
        while self.sim.t < end:
            waiting = [o for o in self.open
                       if not (o["op"]["k"] == "run" and self.watch.state == "Paused")]
            if self.watch.state in REST and not waiting and not self.live:
                return True
            cothread.Sleep(0.5)
        return False

    def finish(self):
        sim = self.sim
        sim.stalls_on = False
        self.fail_p = 0.0
        # Bounded liveness: everything comes to rest by itself
        longest = 60 + 60 * self.cfg["step"] + 30 * self.cfg["slow"] * 10
        ok = self.settle(longest)
        sim.check(ok, PL, "stuck",
                  f"state {self.watch.state}, unanswered "
                  f"{[(o['op']['k'], o['op']['i']) for o in self.open]}, hooks "
                  f"{[(r['p'], r['h']) for r in self.live]}")
        if not ok:
            return
        if self.watch.state == "Paused":
            rec = self.issue({"i": 900, "k": "resume"})
            self.settle(longest)
        for n in range(4):
            state = self.watch.state
            if state == "Ready":
                break
            k = "reset" if state in RUNNABLE_FIELDS["reset"] else "abort"
            rec = self.issue({"i": 910 + n, "k": k})
            if not sim.check(rec["r"].wait(100), PL, "stuck", f"{k} in {state}: no answer"):
                return
            self.settle(5)
        sim.check(self.watch.state == "Ready", PL, "no_recovery",
                  f"in {self.watch.state} after reset")
        v = self.watch.view
        got = [v[a]["value"] for a in (
            "completedSteps", "configuredSteps", "totalSteps")]
        # a Block that became Ready by reset has forgotten the last scan
        sim.check(got == [0, 0, 0] or self.tainted, PL, "not_reset", f"steps {got} when Ready")
        # and the next scan is not disturbed by anything that went before
        self.fault_base = sim.seq
        op = {"i": 950, "k": "configure", "shape": [2, 3], "moved": 1, "bps": [2]}
        rec = self.issue(op)
        rec["r"].wait(300)
        if not sim.check(self.watch.state == "Armed", PL, "no_recovery",
                         f"configure after recovery left {self.watch.state}"):
            return
        for n in range(4):
            rec = self.issue({"i": 960 + n, "k": "run"})
            if not sim.check(rec["r"].wait(300), PL, "stuck", "final run not answered"):
                return
            want = "Finished" if n == 3 else "Armed"
            sim.check(self.watch.state == want, PL, "no_recovery",
                      f"run {n} of the final scan left {self.watch.state}")
