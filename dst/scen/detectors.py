"""A scan over detector Blocks: the outer Block drives inner scans"""
import os

import cothread
from annotypes import add_call_types
from scanpointgenerator import CompoundGenerator, LineGenerator

from malcolm.core import Get, Part, Post, Process
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.hooks import (
    AAxesToMove,
    ABreakpoints,
    ACompletedSteps,
    AContext,
    AFileDir,
    AFileTemplate,
    AFormatName,
    AGenerator,
    AStepsToDo,
    AbortHook,
    ConfigureHook,
    PostRunArmedHook,
    PostRunReadyHook,
    ReportStatusHook,
    RunHook,
    SeekHook,
    UInfos,
)
from malcolm.modules.scanning.infos import (
    DatasetProducedInfo,
    DatasetType,
    DetectorMutiframeInfo,
    RunProgressInfo,
)
from malcolm.modules.scanning.parts import (
    DatasetTablePart,
    DetectorChildPart,
    ExposureDeadtimePart,
)
from malcolm.modules.scanning.util import DetectorTable

from ..runner import Scenario, base_cfg
from ..util import Responses, plain
from .scan import model_boundaries
from .states import REST, RUNNABLE, RUNNABLE_FIELDS, StateWatch

PROP = "P16"


class Boom(Exception):
    pass


class CameraPart(Part):
    """Stands for the hardware of one detector"""

    def bind(self, scen, n):
        self.scen = scen
        self.n = n
        self.segment = None
        return self

    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(ConfigureHook, self.on_configure)
        for hook, f in ((PostRunArmedHook, self.on_armed), (SeekHook, self.on_seek)):
            registrar.hook(hook, f, lambda _: [
                "context", "completed_steps", "steps_to_do"])
        registrar.hook(RunHook, self.on_run, lambda _: ["context"])
        registrar.hook(PostRunReadyHook, self.on_ready, lambda _: ["context"])
        registrar.hook(AbortHook, self.on_abort, lambda _: ["context"])
        registrar.report(ConfigureHook.create_info(self.on_configure))

    @add_call_types
    def on_configure(
        self,
        context: AContext,
        completed_steps: ACompletedSteps,
        steps_to_do: AStepsToDo,
        generator: AGenerator,
        axesToMove: AAxesToMove,
        breakpoints: ABreakpoints,
        fileDir: AFileDir,
        formatName: AFormatName = "det",
        fileTemplate: AFileTemplate = "%s.h5",
    ) -> UInfos:
        self.told("configure", completed_steps, steps_to_do)
        self.scen.on_camera_configure(
            self, generator, fileDir, formatName, fileTemplate)
        self.scen.work(self, "configure", context)
        return [DatasetProducedInfo(
            f"{formatName}.data", fileTemplate % formatName, DatasetType.PRIMARY,
            2, "/data", "/uid")]

    def told(self, hook, c, d):
        self.segment = (int(c), int(d))
        self.scen.on_camera_told(self, hook, self.segment)

    def on_armed(self, context, completed_steps, steps_to_do):
        self.told("armed", completed_steps, steps_to_do)
        self.scen.work(self, "armed", context)

    def on_seek(self, context, completed_steps, steps_to_do):
        self.told("seek", completed_steps, steps_to_do)
        self.scen.work(self, "seek", context)

    def on_run(self, context):
        self.scen.on_camera_run(self, context)

    def on_ready(self, context):
        self.scen.work(self, "ready", context)

    def on_abort(self, context):
        self.scen.work(self, "abort", context)


class StagePart(Part):
    """Stands for what moves during the scan, and says which detectors are
    triggered more than once per step"""

    def bind(self, scen, multi):
        self.scen = scen
        self.multi = multi
        self.segment = None
        return self

    def setup(self, registrar):
        super().setup(registrar)
        for hook, name in ((ConfigureHook, "configure"), (PostRunArmedHook, "armed"),
                           (SeekHook, "seek")):
            def f(context, completed_steps, steps_to_do, name=name):
                self.segment = (int(completed_steps), int(steps_to_do))
                self.scen.on_stage_told(name, self.segment)
                self.scen.work(self, name, context)
            registrar.hook(hook, f, lambda _: [
                "context", "completed_steps", "steps_to_do"])
        registrar.hook(RunHook, self.on_run, lambda _: ["context"])
        registrar.hook(ReportStatusHook, self.on_report, lambda _: [])

    n = "stage"

    def on_report(self):
        return [DetectorMutiframeInfo(mri) for mri in self.multi]

    def on_run(self, context):
        self.scen.on_stage_run(self, context)


class DetectorsScenario(Scenario):
    name = "detectors"
    props = (PROP,)
    max_time = 20000
    max_ticks = 600000
    needs_disk = True
    real = ("scanning.DetectorChildPart", "scanning.RunnableController (outer and "
            "inner)", "scanning.DatasetTablePart", "scanning.ExposureDeadtimePart",
            "builtin.ManagerController", "builtin.ChildPart", "core.*",
            "scanpointgenerator", "cothread scheduler, locks and queues")
    stubs = ("what a camera and a stage do (duration, progress, failure)",
             "time.time", "scheduler poll", "cross-thread callback pipe")

    def plan(self, rng, size):
        cfg = base_cfg(rng)
        n = cfg["dets"] = rng.choice([1, 2, 2, 3])
        cfg["multi"] = [rng.random() < 0.6 for _ in range(n)]
        cfg["exposes"] = [rng.random() < 0.4 for _ in range(n)]
        cfg["initial"] = [rng.choice([1, 1, 1, 0]) for _ in range(n)]
        cfg["fail_p"] = rng.choice([0.0, 0.0, 0.0, 0.02, 0.06])
        cfg["slow"] = rng.choice([0.0, 0.05, 1.0])
        cfg["step"] = rng.choice([0.05, 0.3, 1.0])
        ops = []

        def gap():
            return rng.choice([0.0, 0.0, 0.001, 0.2, 1.0, round(rng.random() * 3, 2)])

        def configure():
            shape = [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 2]))]
            shape[-1] = rng.choice([1, 3, 4])
            moved = rng.randrange(1, len(shape) + 1)
            per = 1
            for s in shape[len(shape) - moved:]:
                per *= s
            bps = []
            if rng.random() < 0.3:
                left = per if rng.random() < 0.5 else max(per - 1, 1)
                while left > 0 and len(bps) < 3:
                    b = rng.randrange(1, left + 1)
                    bps.append(b)
                    left -= b
            rows = []
            for i in range(n):
                r = rng.random()
                if r < 0.1:
                    continue
                rows.append([r < 0.8, i, rng.choice([1, 1, 2, 3])
                             if cfg["multi"][i] else 1])
            rng.shuffle(rows)
            return {"k": "configure", "gap": gap(), "wait": rng.random() < 0.85,
                    "shape": shape, "moved": moved, "bps": bps,
                    "rows": rows if rng.random() < 0.8 else None}

        for _ in range(rng.choice([1, 1, 2]) * size):
            ops.append(configure())
            for _ in range(rng.randrange(0, 5)):
                k = rng.choice(["run", "run", "run", "pausing", "pausing", "pause",
                                "resume", "abort", "disable", "reset", "configure"])
                if k == "configure":
                    ops.append(configure())
                    continue
                if k == "pausing":
                    step = rng.choice([-1, -1, -1, rng.randrange(0, 8)])
                    ops.append({"k": "run", "gap": gap(), "wait": False})
                    ops.append({"k": "pause", "gap": rng.choice(
                        [0.1, 0.5, 1.0, round(rng.random() * 4, 2)]),
                        "wait": True, "step": step})
                    k = "resume"
                op = {"k": k, "gap": gap(), "wait": rng.random() < 0.6}
                if k == "pause":
                    op["step"] = rng.choice([-1, -1, rng.randrange(0, 8)])
                ops.append(op)
            if rng.random() < 0.4:
                ops.append({"k": rng.choice(["abort", "disable", "reset"]),
                            "gap": gap(), "wait": True})
                ops.append({"k": "reset", "gap": gap(), "wait": True})
        for _ in range(rng.choice([0, 0, 1])):
            ops.append({"k": rng.choice(["abort", "pause"]),
                        "at": round(rng.random() * 12, 2), "step": -1})
        cfg["meddle"] = rng.random() < 0.2
        if cfg["meddle"]:
            # someone else does something to one of the detectors
            ops.append({"k": "meddle", "at": round(rng.random() * 6, 2),
                        "n": rng.randrange(n),
                        "what": rng.choice(["abort", "abort", "disable"])})
        for i, op in enumerate(ops):
            op["i"] = i + 1
        return {"cfg": cfg, "ops": ops}

    # ---- devices ----
    def work(self, part, what, context):
        """Something takes a while, and may fail"""
        sim = self.sim
        key = f"{part.n}.{what}"
        dur = round(sim.uniform(key + ".d", 0.0, self.cfg["slow"]), 3)
        fails = sim.chance(key + ".f", self.fail_p)
        sim.log("work+", part.n, what)
        try:
            if sim.draw(key + ".m", 6) == 5:
                cothread.Sleep(dur)
            elif dur:
                context.sleep(dur)
            if fails:
                text = f"boom {part.n} {what} {sim.stamp()}"
                sim.fault("device_fails", part.n, what)
                self.failed.append((sim.seq, text))
                raise Boom(text)
        finally:
            sim.log("work-", part.n, what)

    def on_camera_configure(self, cam, generator, file_dir, name, template):
        sim = self.sim
        sim.check(cam.n in self.frames or self.loose(), PROP, "not_enabled",
                  f"detector {cam.n} configured, enabled are {self.frames}")
        if cam.n not in self.frames:
            return
        f = self.frames[cam.n]
        sim.check((file_dir, name, template) == ("/data", f"d{cam.n}", "%s.hdf"),
                  PROP, "wrong_parameters",
                  f"detector {cam.n} told {file_dir} {name} {template}")
        generator.prepare()
        want = self.bounds[-1] * f
        sim.check(generator.size == want, PROP, "wrong_frames",
                  f"detector {cam.n} told to take {generator.size} frames, "
                  f"wanted {self.bounds[-1]} x {f}")
        sim.check(abs(generator.duration * f - 0.1) < 1e-9, PROP, "wrong_parameters",
                  f"detector {cam.n}: {f} frames of {generator.duration} in 0.1")
        cam.frames = []

    def on_camera_told(self, cam, hook, seg):
        self.sim.log("told", cam.n, hook, *seg)

    def on_stage_told(self, hook, seg):
        sim = self.sim
        sim.log("stage", hook, *seg)
        self.seg = seg
        if hook == "seek":
            self.seeks += 1

    def on_camera_run(self, cam, context):
        sim = self.sim
        c, d = cam.segment
        f = self.frames.get(cam.n)
        sim.log("camera+", cam.n, c, d)
        sim.check(f is not None or self.loose(), PROP, "not_enabled",
                  f"detector {cam.n} runs, enabled are {self.frames}")
        if f is not None and not self.loose():
            want = (self.seg[0] * f, self.seg[1] * f)
            sim.check((c, d) == want, PROP, "wrong_frames",
                      f"detector {cam.n} takes frames {c}..{c + d} ({f} per step) "
                      f"while steps {self.seg[0]}..{sum(self.seg)} are done")
        self.running.add(cam.n)
        out = "stopped"
        try:
            cam.registrar.report(RunProgressInfo(c))
            per = self.cfg["step"] / (f or 1)
            for k in range(c, c + d):
                context.sleep(per * sim.uniform(f"cam{cam.n}.s", 0.2, 1.5))
                if sim.chance(f"cam{cam.n}.f", self.fail_p / 3):
                    text = f"boom {cam.n} frame {sim.stamp()}"
                    sim.fault("camera_fails", cam.n)
                    self.failed.append((sim.seq, text))
                    out = "failed"
                    raise Boom(text)
                cam.frames.append(k)
                cam.registrar.report(RunProgressInfo(k + 1))
            out = "done"
        finally:
            self.running.discard(cam.n)
            sim.log("camera-", cam.n, out)

    def on_stage_run(self, stage, context):
        sim = self.sim
        c, d = stage.segment
        stage.registrar.report(RunProgressInfo(c))
        # let the detectors say where they are before making progress
        context.sleep(0.1)
        for k in range(c, c + d):
            context.sleep(self.cfg["step"] * sim.uniform("stage.s", 0.2, 1.2))
            stage.registrar.report(RunProgressInfo(k + 1))

    # ---- what is seen ----
    def loose(self):
        """Nothing is promised about a scan that has been interfered with"""
        return bool(self.tainted or self.meddled)

    def on_outer(self, state):
        sim = self.sim
        v = self.watch.view
        if state == "Configuring":
            self.begin_configure()
        if state in ("Armed", "Finished") and not self.loose():
            wrong = {n: self.inner[n].state for n in self.frames
                     if self.inner[n].state != state}
            sim.check(not wrong, PROP, "detectors_behind",
                      f"scan is {state} while detectors are {wrong}")
        if state in ("Armed", "Finished", "Aborted") and not self.loose():
            sim.check(not self.running, PROP, "still_running",
                      f"scan is {state} while detectors {self.running} take frames")
        if state == "Finished" and not self.loose():
            total = self.bounds[-1]
            for n, f in self.frames.items():
                got = self.cams[n].frames
                if not self.seeks_asked:
                    sim.check(got == list(range(total * f)), PROP, "frames_missed",
                              f"detector {n} took {got}, wanted {total} x {f}")
                elif self.only_pauses:
                    miss = set(range(total * f)) - set(got)
                    sim.check(not miss, PROP, "frames_missed",
                              f"detector {n} never took {sorted(miss)}")
                    sim.probe("finished_after_pause")
            sim.probe("finished")
        if state == "Fault":
            msg = v["state"]["alarm"]["message"]
            sim.check(bool(self.failed) or self.loose(), PROP, "spurious_fault",
                      f"scan in Fault: {msg!r}, no device failed")

    def begin_configure(self):
        """The configure that is let in decides what the scan is"""
        asked = [o for o in self.open if o["op"]["k"] == "configure"]
        self.seg = None
        self.frames = {}
        if len(asked) != 1:
            self.tainted = True
            return
        op = asked[0]["op"]
        self.bounds = model_boundaries(op["shape"], op["moved"], op["bps"])
        if op["rows"] is None:
            self.frames = {n: 1 for n in range(self.cfg["dets"])
                           if self.cfg["initial"][n]}
        else:
            self.frames = {i: f for e, i, f in op["rows"] if e}
        self.seeks_asked = sum(o["op"]["k"] == "pause" for o in self.open)
        self.only_pauses = all(
            o["op"].get("step", -1) < 0 for o in self.open if o["op"]["k"] == "pause")

    def watch_steps(self):
        """The scan claims no step that an enabled detector has not done"""
        sim = self.sim
        v = self.watch.view
        done = v["completedSteps"]["value"]
        if self.watch.state != "Running" or self.loose() or done == self.claimed:
            return
        self.claimed = done
        if not self.frames or not self.seg or done <= self.seg[0]:
            return
        if self.cfg["cost"] or self.cfg["stall_p"] or self.cfg["cb_delay"]:
            # a detector might not have been heard yet
            return
        sim.probe("steps_claimed")
        least = min((max(self.cams[n].frames, default=-1) + 1) // f
                    for n, f in self.frames.items())
        sim.check(done <= least, PROP, "overclaimed",
                  f"{done} steps completed, detectors have "
                  f"{[(n, self.cams[n].frames[-1:], f) for n, f in self.frames.items()]}")

    # ---- commands ----
    def request(self, op):
        i, k = op["i"], op["k"]
        if k == "configure":
            names = "yx"[2 - len(op["shape"]):]
            gens = [LineGenerator(n, "mm", 0.0, 1.0, s)
                    for n, s in zip(names, op["shape"])]
            params = {
                "generator": CompoundGenerator(gens, [], [], duration=0.1),
                "axesToMove": list(names[len(names) - op["moved"]:]),
                "breakpoints": op["bps"], "fileDir": "/data",
                "fileTemplate": "%s.hdf"}
            if op["rows"] is not None:
                params["detectors"] = DetectorTable.from_rows([
                    [e, f"d{n}", f"DET{n}", 0.0, f] for e, n, f in op["rows"]])
            return Post(i, ["SCAN", "configure"], params)
        if k == "pause" and op.get("step", -1) >= 0:
            return Post(i, ["SCAN", "pause"], {"lastGoodStep": op["step"]})
        return Post(i, ["SCAN", k])

    def meddle(self, op):
        sim = self.sim
        self.failed.append((sim.seq, "meddled"))
        self.meddled = True
        sim.fault("meddle", op["n"], op["what"], self.inner[op["n"]].state)
        r = Responses(sim, f"meddle{op['i']}", op["i"])
        req = Post(op["i"], [f"DET{op['n']}", op["what"]])
        req.set_callback(r)
        self.dets[op["n"]].handle_request(req)

    def issue(self, op):
        sim = self.sim
        k = op["k"]
        if k == "meddle":
            return self.meddle(op)
        r = Responses(sim, f"{k}{op['i']}", op["i"])
        req = self.request(op)
        req.set_callback(r)
        rec = {"op": op, "r": r, "state": self.watch.state, "later": [],
               "others": [o["op"]["k"] for o in self.open], "failed": len(self.failed),
               "s0": sim.log("cmd", k, op["i"], self.watch.state)}
        if k == "disable" or any("disable" in o["later"] for o in self.open):
            # disable does not wait for what it interrupts
            self.tainted = True
        if k == "reset" and "run" in rec["others"]:
            self.tainted = True
        if k == "pause":
            self.seeks_asked += 1
            if op.get("step", -1) >= 0:
                self.only_pauses = False
        for o in self.open:
            o["later"].append(k)
        self.open.append(rec)
        self.controller.handle_request(req)
        sim.spawn(self.reap, rec)
        return rec

    def reap(self, rec):
        while not rec["r"].finals:
            if not rec["r"].wait(1000):
                return
        self.open.remove(rec)
        self.judge(rec)

    def judge(self, rec):
        sim = self.sim
        op, r = rec["op"], rec["r"]
        k = op["k"]
        label = f"{k}{op['i']}"
        fin = r.finals[0]
        err = fin.message if type(fin).__name__ == "Error" else None
        ename = type(err).__name__ if err is not None else None
        sim.log("cmd-done", label, ename, str(err)[:60] if err else "")
        sim.probe(f"{k}_{'ok' if err is None else ename}")
        if ename == "NotWriteableError" or self.loose():
            return
        now = self.watch.last_state_before(r.seq_final)
        new = self.failed[rec["failed"]:]
        alone = not rec["later"] and not rec["others"]
        if err is None:
            if k == "abort" and not rec["later"]:
                busy = {n: w.state for n, w in self.inner.items()
                        if w.state not in ("Aborted",)}
                sim.check(not busy or self.failed, PROP, "not_aborted",
                          f"{label} returned while detectors are {busy}")
                sim.check(not self.running, PROP, "not_aborted",
                          f"{label} returned while {self.running} take frames")
            if k == "configure" and alone:
                self.check_configured(label)
            if k == "pause" and not rec["later"] and now == "Paused":
                sim.check(not self.running, PROP, "not_paused",
                          f"{label} returned while {self.running} take frames")
                sim.probe("paused")
        elif alone and k != "run" or k == "run" and not rec["others"] and not [
                x for x in rec["later"] if x not in ("pause", "resume")]:
            if new and k == "run" and "pause" in rec["later"] and \
                    ename == "AbortedError":
                # it was the pause that failed, and says so
                return
            if new:
                # the scan says what went wrong with the detector
                sim.check(any(t in str(err) for _, t in new), PROP, "wrong_error",
                          f"{label}: devices failed with {[t for _, t in new]}, "
                          f"answered {err!r}")
            elif rec["state"] in RUNNABLE_FIELDS.get(k, RUNNABLE) and not self.failed:
                sim.violate(PROP, "wrong_error",
                            f"{label} in {rec['state']} raised {err!r}: nothing "
                            f"failed and nobody interfered")

    def check_configured(self, label):
        sim = self.sim
        v = self.watch.view
        if self.watch.state != "Armed":
            return
        got = sorted(v["datasets"]["value"]["name"])
        want = sorted(f"d{n}.data" for n in self.frames)
        sim.check(got == want, PROP, "wrong_datasets",
                  f"{label}: datasets {got}, wanted {want}")
        files = sorted(v["datasets"]["value"]["filename"])
        sim.check(files == sorted(f"d{n}.hdf" for n in self.frames), PROP,
                  "wrong_datasets", f"{label}: files {files}")

    # ---- run ----
    def run(self, sim, plan):
        self.sim = sim
        cfg = self.cfg = plan["cfg"]
        self.fail_p = 0.0
        self.failed = []
        self.open = []
        self.running = set()
        self.tainted = self.meddled = False
        self.frames = {}
        self.bounds = [0]
        self.seg = None
        self.seeks = self.seeks_asked = 0
        self.only_pauses = True
        self.claimed = 0
        os.mkdir("cfg")
        process = self.process = Process("proc")
        self.cams, self.inner = {}, {}
        dets = self.dets = []
        for n in range(cfg["dets"]):
            d = RunnableController(f"DET{n}", "cfg")
            cam = self.cams[n] = CameraPart("cam").bind(self, n)
            cam.frames = []
            d.add_part(cam)
            d.add_part(DatasetTablePart("datasets"))
            if cfg["exposes"][n]:
                d.add_part(ExposureDeadtimePart("exp", 0.001))
            process.add_controller(d)
            dets.append(d)
        c = self.controller = RunnableController("SCAN", "cfg")
        stage = self.stage = StagePart("stage").bind(
            self, [f"DET{n}" for n in range(cfg["dets"]) if cfg["multi"][n]])
        c.add_part(stage)
        for n in range(cfg["dets"]):
            c.add_part(DetectorChildPart(
                f"d{n}", f"DET{n}", True, cfg["initial"][n]))
        c.add_part(DatasetTablePart("datasets"))
        process.add_controller(c)
        process.start()
        fields = dict(RUNNABLE_FIELDS, disable=None, validate=None)
        ro = ["state", "health", "configuredSteps", "totalSteps", "modified"]
        for n, d in enumerate(dets):
            self.inner[n] = StateWatch(sim, PROP, d, RUNNABLE, fields, ro)
        self.watch = StateWatch(sim, PROP, c, RUNNABLE, fields, ro)
        self.watch.on_state = self.on_outer
        self.watch.on_view = lambda _: self.watch_steps()
        sim.check(self.watch.state == "Ready", PROP, "not_ready",
                  f"scan is {self.watch.state} after start")
        self.fail_p = cfg["fail_p"]
        base = sim.t
        tasks = [sim.at(base + op["at"], self.issue, op)
                 for op in plan["ops"] if "at" in op]
        for op in plan["ops"]:
            if "at" in op:
                continue
            if op.get("gap"):
                cothread.Sleep(op["gap"])
            if self.loose():
                self.recover()
            rec = self.issue(op)
            if op["wait"]:
                end = sim.t + 60
                while not rec["r"].finals and sim.t < end:
                    if self.watch.state == "Paused":
                        break
                    rec["r"].wait(0.5)
        for t in tasks:
            t.Wait(1000)
        self.finish()

    def settle(self, limit):
        end = self.sim.t + limit
        while self.sim.t < end:
            waiting = [o for o in self.open
                       if not (o["op"]["k"] == "run" and self.watch.state == "Paused")]
            if self.watch.state in REST and not waiting and not self.running and all(
                    w.state in REST for w in self.inner.values()):
                return True
            cothread.Sleep(0.5)
        return False

    def recover(self, n=700):
        """From wherever it is to Ready, by the book"""
        sim = self.sim
        limit = 100 + 100 * self.cfg["step"] + 200 * self.cfg["slow"]
        if not sim.check(self.settle(limit), PROP, "stuck",
                         lambda: f"scan is {self.watch.state}, unanswered "
                         f"{[(o['op']['k'], o['op']['i']) for o in self.open]}, detectors "
                         f"{ {n: w.state for n, w in self.inner.items()} }"):
            return False
        for j in range(6):
            state = self.watch.state
            if state == "Ready" and all(
                    w.state == "Ready" for w in self.inner.values()):
                break
            k = "reset" if state in RUNNABLE_FIELDS["reset"] else "abort"
            rec = self.issue({"i": n + j, "k": k})
            if not sim.check(rec["r"].wait(200), PROP, "stuck",
                             f"{k} in {state}: no answer"):
                return False
            self.settle(20)
        if not self.fail_p:
            states = {n: w.state for n, w in self.inner.items()}
            sim.check(self.watch.state == "Ready" and
                      all(s == "Ready" for s in states.values()), PROP, "no_recovery",
                      f"after reset the scan is {self.watch.state}, detectors {states}")
        self.tainted = self.meddled = False
        self.failed = []
        return True

    def finish(self):
        sim = self.sim
        sim.stalls_on = False
        self.fail_p = 0.0
        if self.settle(200) and self.watch.state == "Paused":
            self.issue({"i": 890, "k": "resume"})
        if not self.recover(900):
            return
        rows = [[True, n, 2 if self.cfg["multi"][n] else 1]
                for n in range(self.cfg["dets"])]
        rec = self.issue({"i": 950, "k": "configure", "shape": [2, 3], "moved": 1,
                          "bps": [2], "rows": rows})
        rec["r"].wait(300)
        if not sim.check(self.watch.state == "Armed", PROP, "no_recovery",
                         f"configure after recovery left {self.watch.state}"):
            return
        for n in range(4):
            rec = self.issue({"i": 960 + n, "k": "run"})
            if not sim.check(rec["r"].wait(300), PROP, "stuck", "final run not answered"):
                return
            want = "Finished" if n == 3 else "Armed"
            sim.check(self.watch.state == want, PROP, "no_recovery",
                      f"run {n} of the final scan left {self.watch.state}")
