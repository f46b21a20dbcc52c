"""Scans that move: a motion controller and the sequencers that trigger"""
import os

import cothread
from scanpointgenerator import (
    CompoundGenerator,
    LineGenerator,
    LissajousGenerator,
    SpiralGenerator,
    StaticPointGenerator,
)
from velocity_profile.velocityprofile import VelocityProfile

from malcolm.core import (
    BooleanMeta,
    NumberArrayMeta,
    NumberMeta,
    Part,
    Post,
    Process,
    Put,
    StringMeta,
    TableMeta,
)
from malcolm.modules.ADCore.util import AttributeDatasetType
from malcolm.modules.ADPandABlocks.blocks import panda_seq_trigger_block
from malcolm.modules.ADPandABlocks.parts import PandASeqTriggerPart
from malcolm.modules.ADPandABlocks.util import DatasetPositionsTable, SequencerTable
from malcolm.modules.builtin.controllers import (
    BasicController,
    ManagerController,
    StatefulController,
)
from malcolm.modules.builtin.parts import ChildPart
from malcolm.modules.builtin.util import ExportTable
from malcolm.modules.pandablocks.util import PositionCapture
from malcolm.modules.pmac.parts import (
    CSPart,
    PmacChildPart,
    PmacStatusPart,
    PmacTrajectoryPart,
)
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.hooks import (
    ConfigureHook,
    PostRunArmedHook,
    RunHook,
    SeekHook,
)
from malcolm.modules.scanning.infos import RunProgressInfo
from malcolm.modules.scanning.parts import MinTurnaroundPart

from ..runner import Scenario, base_cfg
from ..simmotion import DeviceError, Seqs, Stage
from ..util import Responses
from .scan import model_boundaries
from .states import REST, RUNNABLE, RUNNABLE_FIELDS, StateWatch

MOTION, TRIGGERS = "P17", "P18"
CS_AXES = "ABCUVWXYZ"
#: which CS axis each motor is
MOTORS = {"x": "A", "y": "B", "z": "Z"}
LIVE, DEAD, MID, OFF = 1, 2, 4, 8
SERVO = 5000.0


class Boom(Exception):
    pass


def correct_points():
    """scanpointgenerator forgets to turn round the bounds of a point of a row
    gone through backwards if that is the only point it is asked for (get_point
    does not): what is judged here is what is done with the points"""
    if hasattr(CompoundGenerator, "dst_get_points"):
        return
    get_points = CompoundGenerator.dst_get_points = CompoundGenerator.get_points

    def corrected(self, start, finish):
        points = get_points(self, start, finish)
        if finish == start + 1:
            p = self.get_point(start)
            for what in ("lower", "upper"):
                for axis, values in getattr(points, what).items():
                    values[0] = getattr(p, what)[axis]
        return points
    CompoundGenerator.get_points = corrected


def correct_profiles():
    """velocity_profile refuses to move just further than an axis goes while it
    gets up to its top speed and slows down again, where rounding lets the speed
    come out a little higher: that library is not judged here either"""
    if hasattr(VelocityProfile, "dst_calculate_vm"):
        return
    calculate = VelocityProfile.dst_calculate_vm = VelocityProfile.calculate_vm

    def corrected(self):
        try:
            calculate(self)
        except AssertionError:
            if not self.v_max < self.vm < self.v_max * 1.001:
                raise
            self.vm = self.v_max
    VelocityProfile.calculate_vm = corrected


class Fields(Part):
    """Attributes and methods of a stand-in Block"""

    def bind(self, build):
        self.build = build
        self.attrs = {}
        return self

    def setup(self, registrar):
        super().setup(registrar)
        self.build(self, registrar)

    def add(self, registrar, name, meta, value, setter=None):
        a = self.attrs[name] = meta.create_attribute_model(value)
        registrar.add_attribute_model(
            name, a, None if setter is None else
            (a.set_value if setter is True else setter))
        return a


def dimension(axis, start, step, n, alt):
    """A generator from what a plan says of it"""
    if axis == "static":
        return StaticPointGenerator(n)
    if axis == "spiral":
        return SpiralGenerator(["x", "y"], "mm", start, step[0], step[1], alternate=alt)
    if axis == "lissajous":
        return LissajousGenerator(["x", "y"], "mm", start, step[:2], step[2], n,
                                  alternate=alt)
    if axis == "diagonal":
        stop = [a + b * max(n - 1, 1) for a, b in zip(start, step)]
        return LineGenerator(["x", "y"], "mm", start, stop, n, alternate=alt)
    return LineGenerator(axis, "mm", start, start + step * max(n - 1, 1), n,
                         alternate=alt)


def axes_of(dim):
    """The axes of a dimension of a plan"""
    return {"static": [], "spiral": ["x", "y"], "lissajous": ["x", "y"],
            "diagonal": ["x", "y"]}.get(dim[0], [dim[0]])


class WatchPart(Part):
    """Sees what the scan is told to do, and stands for the detectors"""

    def bind(self, scen):
        self.scen = scen
        return self

    def setup(self, registrar):
        super().setup(registrar)
        for hook, name in ((ConfigureHook, "configure"), (PostRunArmedHook, "armed"),
                           (SeekHook, "seek")):
            def f(context, completed_steps, steps_to_do, generator, name=name):
                self.scen.on_told(name, int(completed_steps), int(steps_to_do),
                                  generator.duration)
            registrar.hook(hook, f, lambda _: [
                "context", "completed_steps", "steps_to_do", "generator"])
        registrar.hook(RunHook, self.on_run, lambda _: ["context"])

    def on_run(self, context):
        self.scen.on_run(self, context)


class MotionScenario(Scenario):
    name = "motion"
    props = (MOTION, TRIGGERS)
    #: what is broken if the scan as a whole does not work
    whole = MOTION
    modes = ("every", "every", "row", "pcomp")
    max_time = 40000
    max_ticks = 900000
    needs_disk = True
    real = ("pmac.PmacChildPart", "pmac.PmacTrajectoryPart", "pmac.CSPart",
            "pmac.PmacStatusPart", "pmac.util and infos", "velocity_profile",
            "ADPandABlocks.PandASeqTriggerPart", "ADPandABlocks.doublebuffer",
            "scanning.RunnableController", "scanning.MinTurnaroundPart",
            "builtin.ManagerController", "builtin.ChildPart", "core.*",
            "scanpointgenerator", "cothread scheduler, locks and queues")
    stubs = ("motion controller (executes the trajectory buffer)",
             "PandA sequencers (play their tables)", "detectors",
             "time.time", "scheduler poll", "cross-thread callback pipe")

    def plan(self, rng, size):
        cfg = base_cfg(rng)
        cfg["stall_p"] = min(cfg["stall_p"], 0.002)
        cfg["stall_max"] = 0.05
        cfg["cost"] = min(cfg["cost"], 1e-4)
        mode = cfg["mode"] = rng.choice(self.modes)
        cfg["latency"] = rng.choice([0.0, 0.02, 0.1])
        cfg["poll"] = rng.choice([0.02, 0.1, 0.2])
        cfg["seq_poll"] = 0.02
        cfg["fail_p"] = rng.choice([0.0, 0.0, 0.0, 0.03])
        big = cfg["big"] = rng.random() < 0.04
        cfg["small"] = None
        if not big:
            n = rng.choice([20, 32, 50])
            cfg["small"] = {
                "profile": n, "batch": n * rng.choice([2, 4]),
                "seq_batch": rng.choice([3, 5, 10, 20]),
                "table": rng.choice([10, 12, 16]),
                "duration": rng.choice([2.0, 4.0, 15.0]),
                "repeats": rng.choice([3, 4, 8]),
            }
        cfg["turn"] = rng.choice([None, None, 0.05, 0.5])
        cfg["motors"] = {
            m: {"vmax": rng.choice([1.0, 5.0, 20.0]),
                "acc": rng.choice([0.05, 0.2, 0.5]),
                "settle": 0.0,
                "scale": rng.choice([1e-5, 1e-5, -1e-5, 5e-6]),
                "offset": rng.choice([0.0, 0.0, 3.5]),
                "start": rng.choice([0.0, 1.0, -2.0])}
            for m in MOTORS}
        if big:
            cfg["motors"]["x"]["vmax"] = rng.choice([5.0, 20.0])
        # one axis turns round just as the others are on their way
        neat = not big and rng.random() < 0.06
        if neat:
            cfg["motors"]["x"].update(vmax=5.0, acc=0.5)
            cfg["motors"]["y"].update(vmax=1.0, acc=0.1)
            cfg["turn"] = None
        # which encoders the sequencers see
        cfg["seen"] = rng.choice([["x", "y"], ["x", "y", "z"], ["x"], ["x"]])
        ops = []

        def gap():
            return rng.choice([0.0, 0.0, 0.2, 1.0, round(rng.random() * 3, 2)])

        def line(axis, n, v, fast):
            """A dimension in which each point takes 1 at speed v, if fast"""
            start = round(rng.random() * 4 - 2, 2)
            step = v if fast else rng.choice([0.1, 0.5, 1.3])
            step *= rng.choice([1, 1, -1])
            return [axis, start, step, n, bool(fast and rng.random() < 0.5)]

        def shape(n, dur, cont):
            """A dimension of two axes"""
            mot = cfg["motors"]
            # curves are only followed closely if every point of them is
            k = rng.choice(["spiral", "lissajous", "diagonal"]
                           if mode == "every" and cont else ["diagonal"])
            at = [round(rng.random() * 4 - 2, 2) for _ in "xy"]
            alt = rng.random() < 0.5
            v = min(mot[m]["vmax"] for m in "xy") * dur * rng.choice([0.1, 0.2])
            if k == "spiral":
                step = [round(v * rng.choice([0.6, 1.0, 1.5]), 4), round(v, 4)]
                n = dimension(k, at, step, n, alt).size
            elif k == "lissajous":
                n = max(n, 5) * 2
                step = [round(v * n / 10, 4), round(v * n / 12, 4), rng.choice([1, 2])]
            else:
                step = [rng.choice([1, -1]) * round(
                    mot[m]["vmax"] * dur * rng.choice([0.1, 0.3, 0.6]), 4) for m in "xy"]
            return [k, at, step, n, alt]

        def configure():
            inner = "x"
            dur = round(rng.choice([0.25, 0.5, 1.0, 0.2 + rng.random()]), 3)
            if rng.random() < 0.04 and not big:
                # more than one move of the motion controller
                dur = rng.choice([5.0, 9.0, 17.5])
                if cfg["small"]:
                    # a row has to fit into the buffer
                    cfg["small"].update(profile=50, batch=100)
            n = rng.choice([1, 2, 3, 5, 8])
            outer = []
            if rng.random() < 0.75:
                outer.append(line("y", rng.choice([1, 2, 3, 5]), 0, False))
            if rng.random() < 0.25:
                outer.insert(0, line("z", rng.choice([1, 2, 3]), 0, False))
            if rng.random() < 0.15:
                outer.insert(0, ["static", 0, 0, rng.choice([2, 3]), False])
            cont = True
            delay = 0.0
            r = rng.random()
            if mode != "pcomp" and r < 0.15:
                cont = False
            elif r < 0.25:
                delay = rng.choice([0.1, 0.6])
            if big:
                dur = rng.choice([0.002, 0.004, 0.01])
                n = rng.choice([700, 2500, 3000, 4097, 5001]) if mode != "every" \
                    else rng.choice([700, 1100, 2300])
                cont, delay = True, 0.0
                outer = [line("y", rng.choice([1, 2, 3]), 0, False)]
            v = cfg["motors"]["x"]["vmax"] * rng.choice([0.1, 0.4, 0.7]) * dur
            v = min(max(v, 0.004), cfg["motors"]["x"]["vmax"] * 0.7 * dur)
            dims = outer + [line(inner, n, v, True)]
            if not big and rng.random() < 0.25:
                inside = shape(n, dur, cont)
                dims = [d for d in outer if d[0] not in axes_of(inside)] + [inside]
            if neat:
                dims = [["y", 0.0, rng.choice([0.1, 0.5]), rng.choice([2, 3]), False],
                        ["x", rng.choice([0.3, 0.3, 0.05]), 0.1, 3, False]]
                dur, cont, delay = 0.1, True, 0.0
            elif mode != "every" and not big and n > 1 and cont and not delay and \
                    rng.random() < 0.08 and dims[-1][0] == "x":
                # as fast as it can
                dur = 0.0
            # only some outer dimensions are moved by this Block
            moved = rng.randrange(1, len(dims) + 1) if rng.random() < 0.4 else len(dims)
            if rng.random() < 0.08 and not big:
                # nothing moves
                dims = [["static", 0, 0, rng.choice([3, 8, 25, 40]), False]]
                moved, delay, cont, dur = 1, 0.0, True, dur or 0.5
            per = 1
            for d in dims[len(dims) - moved:]:
                per *= d[3]
            bps = []
            if rng.random() < 0.2:
                left = per
                while left > 0 and len(bps) < 3:
                    b = rng.randrange(1, left + 1)
                    bps.append(b)
                    left -= b
                if left:
                    bps.append(left)
            return {"k": "configure", "gap": gap(), "wait": rng.random() < 0.93,
                    "dims": dims, "moved": moved, "dur": dur, "cont": cont,
                    "delay": delay, "bps": bps}

        for _ in range(rng.choice([1, 1, 2]) * size if not big else 1):
            c = configure()
            ops.append(c)
            for _ in range(rng.randrange(1, 5)):
                k = rng.choice(["run", "run", "run", "pausing", "pausing", "pausing",
                                "pause", "abort", "reset"])
                if k == "pausing":
                    total = 1
                    for d in c["dims"]:
                        total *= d[3]
                    ops.append({"k": "run", "gap": gap(), "wait": False})
                    ops.append({"k": "pause", "gap": rng.choice(
                        [0.5, 1.0, round(rng.random() * 10, 2),
                         round(rng.random() * total * (c["dur"] or 0.3), 2)]),
                        "wait": True,
                        "step": rng.choice([-1, -1, rng.randrange(0, total)])})
                    k = "resume"
                op = {"k": k, "gap": gap(), "wait": rng.random() < 0.8}
                if k == "pause":
                    op["step"] = rng.choice([-1, -1, rng.randrange(0, 8)])
                ops.append(op)
            if rng.random() < 0.5:
                ops.append({"k": "abort", "gap": gap(), "wait": True})
                ops.append({"k": "reset", "gap": gap(), "wait": True})
        for _ in range(rng.choice([0, 0, 0, 1])):
            ops.append({"k": rng.choice(["abort", "pause"]),
                        "at": round(rng.random() * 20, 2), "step": -1})
        for i, op in enumerate(ops):
            op["i"] = i + 1
        return {"cfg": cfg, "ops": ops}

    # ---- the devices as Blocks ----
    def shrink_sizes(self):
        """Let buffers be small, so that a short scan fills them many times"""
        small = self.cfg["small"]
        if not small:
            return
        from malcolm.modules.ADPandABlocks import doublebuffer
        from malcolm.modules.ADPandABlocks.parts import pandaseqtriggerpart
        from malcolm.modules.pmac.parts import pmacchildpart

        for mod, name, key in (
                (pmacchildpart, "PROFILE_POINTS", "profile"),
                (pmacchildpart, "BATCH_POINTS", "batch"),
                (pandaseqtriggerpart, "BATCH_SIZE", "seq_batch"),
                (doublebuffer, "SEQ_TABLE_ROWS", "table"),
                (doublebuffer, "MIN_TABLE_DURATION", "duration"),
                (doublebuffer, "MAX_REPEATS", "repeats")):
            if hasattr(mod, name):
                setattr(mod, name, small[key])

    def motor_block(self, name):
        m = self.cfg["motors"][name]

        def build(part, reg):
            def num(n, v):
                part.add(reg, n, NumberMeta("float64", n), v)
            num("maxVelocity", m["vmax"])
            num("maxVelocityPercent", 100.0)
            num("accelerationTime", m["acc"])
            num("resolution", 0.001)
            num("offset", 0.0)
            num("readback", m["start"])
            num("velocitySettle", m["settle"])
            for lim in ("userHighLimit", "userLowLimit", "dialHighLimit",
                        "dialLowLimit"):
                num(lim, 0.0)
            part.add(reg, "cs", StringMeta("cs"), "CS1," + MOTORS[name])
            part.add(reg, "units", StringMeta("units"), "mm")
        return build

    def cs_block(self, part, reg):
        part.add(reg, "port", StringMeta("port"), "CS1")
        part.add(reg, "csMoveTime", NumberMeta("float64", "move time"), 0.0, True)
        self.deferred = {}
        defer = part.add(reg, "deferMoves", BooleanMeta("defer"), False,
                         lambda v: self.set_deferred(part, v))
        for a in CS_AXES:
            def put(v, a=a):
                self.demand(part, a, float(v))
            part.add(reg, "demand" + a, NumberMeta("float64", "demand"), 0.0, put)
        self.defer = defer

    def demand(self, part, axis, value):
        sim = self.sim
        part.attrs["demand" + axis].set_value(value)
        if not part.attrs["deferMoves"].value:
            raise Boom("moved one axis at a time")
        rec = {"value": value, "done": cothread.Event(auto_reset=False)}
        self.deferred[axis] = rec
        rec["done"].Wait()
        if rec.get("error"):
            raise Boom(rec["error"])
        sim.log("moved", axis, round(value, 6))

    def set_deferred(self, part, v):
        part.attrs["deferMoves"].set_value(v)
        if not v and self.deferred:
            moves, self.deferred = self.deferred, {}
            secs = part.attrs["csMoveTime"].value / 1000.0
            self.sim.spawn(self.do_move, moves, secs)

    def do_move(self, moves, secs):
        sim = self.sim
        fails = sim.chance("move.f", self.fail_p)
        error = None
        if fails:
            error = f"boom move {sim.stamp()}"
            sim.fault("move_fails")
            self.failed.append(error)
        try:
            self.stage.move({a: r["value"] for a, r in moves.items()},
                            secs + sim.uniform("move.t", 0.0, 0.5))
        except DeviceError as e:
            error = str(e)
        for r in moves.values():
            r["error"] = error
            r["done"].Signal()

    def traj_block(self, part, reg):
        st = self.stage
        self.traj = part
        part.add(reg, "cs", StringMeta("cs"), "", True)
        part.add(reg, "trajectoryProgVersion", NumberMeta("int32", "v"), 3)
        for n in ("numPoints", "pointsToBuild"):
            part.add(reg, n, NumberMeta("int32", n), 0, True)
        for n in ("timeArray", "velocityMode", "userPrograms"):
            part.add(reg, n, NumberArrayMeta("int32", n), [], True)
        for a in CS_AXES:
            part.add(reg, "use" + a, BooleanMeta("use"), False, True)
            part.add(reg, "positions" + a, NumberArrayMeta("float64", "p"), [], True)
        scanned = part.add(reg, "pointsScanned", NumberMeta("int32", "n"), 0)
        built = part.add(reg, "pointsBuilt", NumberMeta("int32", "n"), 0)
        st.on_scanned = scanned.set_value
        st.on_built = built.set_value

        def arrays():
            at = part.attrs
            n = at["pointsToBuild"].value
            use = [a for a in CS_AXES if at["use" + a].value]
            return {
                "time": [int(x) for x in at["timeArray"].value.seq[:n]],
                "mode": [int(x) for x in at["velocityMode"].value.seq[:n]],
                "program": [int(x) for x in at["userPrograms"].value.seq[:n]],
                "axes": {a: [float(x) for x in at["positions" + a].value.seq[:n]]
                         for a in use}}

        def buildProfile():
            self.device(st.build, arrays())

        def appendProfile():
            self.device(st.append, arrays())

        def executeProfile():
            self.device(self.execute)

        def abortProfile():
            self.device(st.abort)

        for f in (buildProfile, appendProfile, executeProfile, abortProfile):
            reg.add_method_model(f, f.__name__)

    def device(self, f, *args):
        try:
            f(*args)
        except DeviceError as e:
            if "Aborted" not in str(e):
                first = not self.failed
                self.failed.append(str(e))
                injected = any(w in str(e) for w in (
                    "boom build ", "boom append ", "boom execute ", "boom motion "))
                if first and (not injected or "when not" in str(e)
                              or "while" in str(e)):
                    self.misuse.append(str(e))
            raise

    def status_block(self, part, reg):
        part.add(reg, "servoFreq", NumberMeta("float64", "f"), SERVO)
        for n in ("iVariables", "pVariables", "mVariables"):
            part.add(reg, n, StringMeta(n), "")

    def seq_block(self, n):
        def build(part, reg):
            meta = TableMeta.from_table(
                SequencerTable, "Table", writeable=list(SequencerTable.call_types))

            def put(value):
                attr.set_value(value)
                d = self.sim.uniform("seq.put", 0.0, self.cfg["latency"])
                if d:
                    cothread.Sleep(d)
                if self.sim.chance("seq.f", self.fail_p / 2):
                    self.sim.fault("table_fails", n)
                    self.failed.append(f"boom table {self.sim.stamp()}")
                    raise Boom(self.failed[-1])
                self.seqs.load(n, self.rows_of(attr.value))
            attr = part.add(reg, "table", meta, None, put)
            for suff in "abc":
                i = "abc".index(suff)
                seen = self.cfg["seen"]
                part.add(reg, "pos" + suff, StringMeta("Input"),
                         f"INENC{i + 1}.VAL" if i < len(seen) else "ZERO")
            part.add(reg, "bita", StringMeta("Input"), "TTLIN1.VAL")
            active = part.add(reg, "active", BooleanMeta("Active"), False)
            self.actives.append(active)
            part.add(reg, "label", StringMeta("label"), f"SEQ{n + 1}")
            part.add(reg, "repeats", NumberMeta("int32", "repeats"), 1, True)
            part.add(reg, "prescale", NumberMeta("float64", "prescale"), 0.0, True)
        return build

    @staticmethod
    def rows_of(table):
        cols = {k: list(table[k].seq) if hasattr(table[k], "seq") else list(table[k])
                for k in ("repeats", "trigger", "position", "time1", "time2", "outa1",
                          "outb1", "outa2", "outb2")}
        return [
            {k: (v[i] if k == "trigger" else int(v[i])) for k, v in cols.items()}
            for i in range(len(cols["repeats"]))]

    def gate_block(self, part, reg):
        def forceSet():
            self.seqs.enable({"told": self.told, "begun": self.sim.t})

        def forceReset():
            self.seqs.reset()
        reg.add_method_model(forceSet, "forceSet")
        reg.add_method_model(forceReset, "forceReset")

    def busses(self, part, reg):
        seen = self.cfg["seen"]
        n = len(seen) + 1
        table = DatasetPositionsTable(
            name=["COUNTER1.OUT"] + [f"INENC{i + 1}.VAL" for i in range(len(seen))],
            value=[0.0] * n, units=[""] * n,
            scale=[1.0] + [self.cfg["motors"][m]["scale"] for m in seen],
            offset=[0.0] + [self.cfg["motors"][m]["offset"] for m in seen],
            capture=[PositionCapture.MIN_MAX_MEAN] * n,
            datasetName=["I0"] + seen,
            datasetType=[AttributeDatasetType.MONITOR] +
            [AttributeDatasetType.POSITION] * len(seen))
        meta = TableMeta.from_table(DatasetPositionsTable, "Positions")
        reg.add_attribute_model("positions", meta.create_attribute_model(table))

    # ---- what is seen ----
    def on_told(self, hook, c, d, dur):
        gen = self.gen
        if gen and hook == "configure":
            # the time of a point may be tweaked by a little to suit the motion
            # controller, if that makes the triggers
            tweak = 2.0 / SERVO if self.cfg["mode"] == "every" else 0.0
            if gen["dur"] == 0.0:
                # told to guess: as fast as what moves from point to point can
                dim = gen["op"]["dims"][-1]
                gen["dur"] = abs(dim[2]) / self.cfg["motors"]["x"]["vmax"]
                tweak = 1e-6 * gen["dur"]
            self.sim.check(abs(dur - gen["dur"]) <= tweak, self.whole, "wrong_duration",
                           f"points of {gen['dur']} made {dur}")
            gen["g"].duration = gen["dur"] = dur
            gen["points"] = {}
        self.told = {"hook": hook, "c": c, "d": d, "i": self.sim.log("told", hook, c, d),
                     "gen": self.gen, "runs": []}
        if not self.tainted:
            sim = self.sim
            sim.check(self.stage.executing is None or hook != "seek" or
                      not self.stage.executing.get("scan"), MOTION, "still_moving",
                      f"sent to step {c} while still moving along the old path")

    def execute(self):
        run = {"told": self.told, "scan": self.running, "in": self.watch.state}
        if self.running:
            self.told["runs"].append(run)
        try:
            self.stage.execute(run)
        finally:
            if run["scan"]:
                self.judge_path(run)

    def on_run(self, part, context):
        """Detectors take a frame whenever they are triggered"""
        sim = self.sim
        told = self.told
        self.running = True
        sim.log("run+", told["c"], told["d"])
        try:
            if self.cfg["mode"] == "every":
                # what moves says how far it is
                if self.gen is None:
                    return
                while not (told["runs"] and told["runs"][-1]["end"] is not None):
                    context.sleep(0.1)
                return
            self.collect(part, context, told)
        finally:
            self.running = False
            sim.log("run-")

    def frames(self, told, until):
        """How many frames have been triggered and taken since told"""
        dur = self.gen["dur"]
        n = 0
        for p in self.seqs.plays:
            if p["told"] is told:
                for t0, period, k in p["live"]:
                    if until >= t0 + dur:
                        n += min(k, 1 + int((until - t0 - dur) / period + 1e-6)
                                 if period > 0 else k)
        return n

    def collect(self, part, context, told):
        sim = self.sim
        c, d = told["c"], told["d"]
        moving = self.moves_during(told)
        part.registrar.report(RunProgressInfo(c))
        quiet = sim.t
        last = 0
        while True:
            n = self.frames(told, sim.t)
            if n != last:
                last = n
                quiet = sim.t
                part.registrar.report(RunProgressInfo(min(c + n, c + d)))
            if n >= d:
                break
            if moving and not [r for r in told["runs"] if r["end"] is not None]:
                quiet = sim.t
            if sim.t - quiet > 5 + 2 * self.gen["dur"] + 2 * self.cfg["latency"]:
                if not self.failed:
                    sim.violate(TRIGGERS, "missed",
                                f"only {n} of {d} frames from {c} were triggered")
                self.failed.append("detector timed out")
                raise Boom("detector timed out")
            context.sleep(0.1)

    def moves_during(self, told):
        """Does the motion controller take part in this scan"""
        return bool(self.gen["axes"]) or self.cfg["mode"] == "row"

    def loose(self):
        return self.tainted

    # ---- the oracle ----
    def point(self, gen, i):
        if i not in gen["points"]:
            gen["points"][i] = gen["g"].get_point(i)
        return gen["points"][i]

    def judge_path(self, run):
        """Was what the motion controller did while it executed the scan"""
        sim = self.sim
        gen = run["told"]["gen"]
        c, d = run["told"]["c"], run["told"]["d"]
        if gen is None or self.loose() or self.failed:
            return
        for a, v in run["speeds"]:
            m = [k for k, x in MOTORS.items() if x == a][0]
            vmax = self.cfg["motors"][m]["vmax"]
            if not sim.check(v <= vmax * 1.01 + 1e-6, MOTION, "too_fast",
                             f"{m} told to go at {v}, at most {vmax}"):
                break
        if self.cfg["mode"] == "every":
            self.judge_every(run, gen, c, d)
        if run["outcome"] == "done":
            sim.probe("paths_done")
            sim.probe("appends", run["appends"])
            last = self.stage.gpio[-1][1]
            if self.cfg["mode"] in ("every", "row"):
                sim.check(last == (0, 0, 0), MOTION, "output_left_on",
                          f"outputs are {last} after the path")
        else:
            sim.probe("paths_" + run["outcome"])

    def near(self, gen, t, want, width, what, i, prop, tol=0.02):
        """Are the motors where they should be for point i at t"""
        for a in gen["axes"]:
            got = self.stage.axes[MOTORS[a]].at(t)
            slack = tol * abs(width[a]) + 0.0005
            if not abs(got - want[a]) <= slack:
                self.sim.violate(
                    prop, "wrong_place",
                    f"point {i}: {a} is at {got:.5f} at {what}, should be "
                    f"{want[a]:.5f}")
                return False
        return True

    def judge_every(self, run, gen, c, d):
        sim = self.sim
        ev = run["events"]
        i = c
        k = 0
        n = len(ev)
        ok = True
        while k < n and ok:
            t, prog = ev[k]
            if prog in (OFF, DEAD):
                k += 1
                continue
            # a point starts here
            if not sim.check(prog == LIVE and i < c + d, MOTION, "wrong_outputs",
                             f"output {prog} before point {i} of {c}..{c + d}"):
                return
            p = self.point(gen, i)
            w = {a: p.upper[a] - p.lower[a] for a in gen["axes"]}
            ok = self.near(gen, t, p.lower, w, "its start", i, MOTION)
            if k + 1 < n and ok:
                t1, prog1 = ev[k + 1]
                if not sim.check(prog1 == MID, MOTION, "wrong_outputs",
                                 f"output {prog1} after the start of point {i}"):
                    return
                ok = self.near(gen, t1, p.positions, w, "its middle", i, MOTION) and \
                    sim.check(abs(t1 - t - p.duration / 2) < 5e-6, MOTION, "wrong_time",
                              f"point {i} is half done after {t1 - t}, should be "
                              f"{p.duration / 2}")
            if k + 2 < n and ok:
                t2, prog2 = ev[k + 2]
                if not sim.check(prog2 in (LIVE, DEAD), MOTION, "wrong_outputs",
                                 f"output {prog2} at the end of point {i}"):
                    return
                ok = self.near(gen, t2, p.upper, w, "its end", i, MOTION) and \
                    sim.check(abs(t2 - t - p.duration) < 1e-5, MOTION, "wrong_time",
                              f"point {i} takes {t2 - t}, should be {p.duration}")
                if prog2 == DEAD:
                    k += 1
            k += 2
            i += 1
            sim.probe("points")
        if run["outcome"] == "done" and ok:
            sim.check(i == c + d, MOTION, "points_missed",
                      f"path ended at point {i}, told {c}..{c + d}")

    def judge_triggers(self, play):
        """Were the frames triggered when the motors were there"""
        sim = self.sim
        told = play["told"]
        gen = told and told["gen"]
        if gen is None or play.get("judged"):
            return
        play["judged"] = True
        if self.loose() or self.failed:
            return
        c, d = told["c"], told["d"]
        i = c
        dead = sorted(t for t, _, _ in play["dead"])
        prev_end = None
        for t0, period, n in play["live"]:
            for k in range(n):
                t = t0 + k * period
                if not sim.check(i < c + d, TRIGGERS, "too_many",
                                 f"frame {i} triggered, told {c}..{c + d}"):
                    return
                p = self.point(gen, i)
                w = {a: p.upper[a] - p.lower[a] for a in gen["axes"]}
                if gen["axes"]:
                    # a time base is only as good as the clocks
                    if not self.near(gen, t, p.lower, w, "its trigger", i, TRIGGERS):
                        return
                if not sim.check(abs(period - p.duration) < 1e-6, TRIGGERS, "wrong_time",
                                 f"frame {i} takes {period}, should be {p.duration}"):
                    return
                if prev_end is not None:
                    joined = t - prev_end < 1e-6
                    between = [x for x in dead if prev_end - 1e-6 <= x < t - 1e-9]
                    want = 0 if joined else 1
                    if not sim.check(len(between) == want, TRIGGERS, "wrong_dead",
                                     f"{len(between)} ends of row before frame {i}"):
                        return
                prev_end = t + period
                sim.probe("frames")
                i += 1
        if play["told"].get("complete"):
            sim.check(i == c + d, TRIGGERS, "missed",
                      f"{i - c} frames triggered, told {c}..{c + d}")
            sim.check(bool(dead) and dead[-1] >= prev_end - 1e-6, TRIGGERS, "wrong_dead",
                      "no end of row after the last frame")

    def on_state(self, state):
        sim = self.sim
        if state in ("PostRun", "Finished") and self.told:
            self.told["complete"] = True
        if state == "Fault":
            msg = self.watch.view["state"]["alarm"]["message"]
            sim.check(bool(self.failed) or self.loose(), self.whole, "spurious_fault",
                      f"scan in Fault: {msg!r}, no device failed")
        if state in ("Finished", "Armed") and not self.loose() and self.told:
            sim.probe("reached_" + state)

    def watch_steps(self):
        sim = self.sim
        done = self.watch.view["completedSteps"]["value"]
        if self.cfg["mode"] != "every" or self.loose() or self.watch.state != "Running" \
                or done == self.claimed or not self.told:
            return
        self.claimed = done
        run = self.stage.runs[-1] if self.stage.runs else None
        if not run or not run.get("scan") or run["told"] is not self.told:
            return
        gen = self.told["gen"]
        if not gen or done <= self.told["c"]:
            return
        # each point done has had its middle and, later, its end
        mids = [t for t, p in run["events"] if p == MID]
        k = done - self.told["c"]
        ok = len(mids) >= k and mids[k - 1] + self.point(gen, done - 1).duration / 2 \
            <= sim.t + 1e-4
        sim.check(ok, MOTION, "overclaimed",
                  f"{done} steps completed when {len(mids)} points from "
                  f"{self.told['c']} have been passed")
        sim.probe("steps_claimed")

    # ---- commands ----
    def make_generator(self, op):
        gens = [dimension(*d) for d in op["dims"]]
        moved = op["dims"][len(op["dims"]) - op["moved"]:]
        axes = [a for d in moved for a in axes_of(d)]
        return CompoundGenerator(gens, [], [], duration=op["dur"],
                                 continuous=op["cont"], delay_after=op["delay"]), axes

    def request(self, op):
        i, k = op["i"], op["k"]
        if k == "configure":
            g, axes = self.make_generator(op)
            params = {"generator": g, "axesToMove": axes, "breakpoints": op["bps"]}
            return Post(i, ["SCAN", "configure"], params)
        if k == "pause" and op.get("step", -1) >= 0:
            return Post(i, ["SCAN", "pause"], {"lastGoodStep": op["step"]})
        return Post(i, ["SCAN", k])

    def issue(self, op):
        sim = self.sim
        k = op["k"]
        r = Responses(sim, f"{k}{op['i']}", op["i"])
        req = self.request(op)
        req.set_callback(r)
        rec = {"op": op, "r": r, "state": self.watch.state, "later": [],
               "others": [o["op"]["k"] for o in self.open], "failed": len(self.failed),
               "s0": sim.log("cmd", k, op["i"], self.watch.state)}
        if k == "configure":
            if self.watch.state in RUNNABLE_FIELDS["configure"] and not any(
                    o["op"]["k"] == "configure" for o in self.open):
                g, axes = self.make_generator(op)
                g.prepare()
                dur = op["dur"]
                self.gen = {"g": g, "axes": axes, "points": {}, "dur": dur, "op": op}
                self.told = None
        if k == "reset" and "run" in rec["others"]:
            self.tainted = True
        for o in self.open:
            o["later"].append(k)
        self.open.append(rec)
        self.controller.handle_request(req)
        sim.spawn(self.reap, rec)
        return rec

    def reap(self, rec):
        while not rec["r"].finals:
            if not rec["r"].wait(5000):
                return
        self.open.remove(rec)
        self.judge(rec)

    def judge(self, rec):
        sim = self.sim
        op, r = rec["op"], rec["r"]
        k = op["k"]
        label = f"{k}{op['i']}"
        fin = r.finals[0]
        err = fin.message if type(fin).__name__ == "Error" else None
        ename = type(err).__name__ if err is not None else None
        sim.log("cmd-done", label, ename, str(err)[:200] if err else "")
        sim.probe(f"{k}_{'ok' if err is None else ename}")
        for p in self.seqs.plays:
            if not p["on"]:
                self.judge_triggers(p)
        if ename == "NotWriteableError" or self.loose():
            return
        new = self.failed[rec["failed"]:]
        alone = not rec["later"] and not rec["others"]
        now = self.watch.last_state_before(r.seq_final)
        if err is None and not rec["later"] and not self.failed:
            if k in ("abort", "pause", "run") and now in (
                    "Aborted", "Paused", "Finished", "Armed"):
                sim.check(not self.stage.executing, MOTION, "still_moving",
                          f"{label} returned, {now}, while the path is executed")
            if k in ("abort", "pause") and now in ("Aborted", "Paused"):
                sim.check(not self.seqs.enabled, TRIGGERS, "still_triggering",
                          f"{label} returned, {now}, while sequencers are enabled")
        elif err is not None and (alone and k != "run" or
                                  k == "run" and not rec["others"] and not [
                                      x for x in rec["later"]
                                      if x not in ("pause", "resume")]):
            if not new and not self.failed and \
                    rec["state"] in RUNNABLE_FIELDS.get(k, RUNNABLE):
                sim.violate(self.whole, "wrong_error",
                            f"{label} in {rec['state']} raised {err!r}: nothing "
                            f"failed and nobody interfered")

    # ---- run ----
    def run(self, sim, plan):
        self.sim = sim
        cfg = self.cfg = plan["cfg"]
        self.fail_p = 0.0
        self.failed = []
        self.misuse = []
        self.open = []
        self.tainted = False
        self.running = False
        self.told = self.gen = None
        self.claimed = 0
        self.actives = []
        correct_points()
        correct_profiles()
        self.shrink_sizes()
        os.mkdir("cfg")
        st = self.stage = Stage(
            sim, {MOTORS[m]: v["start"] for m, v in cfg["motors"].items()}, cfg)
        self.seqs = Seqs(sim, st, {
            "POS" + "ABC"[i]: (MOTORS[m], cfg["motors"][m]["scale"],
                               cfg["motors"][m]["offset"])
            for i, m in enumerate(cfg["seen"])}, cfg)
        self.seqs.on_active = lambda n, v: self.actives[n].set_value(v)
        process = self.process = Process("proc")

        def block(mri, build, cls=StatefulController):
            c = cls(mri)
            part = Fields("part").bind(build)
            c.add_part(part)
            process.add_controller(c)
            return part

        motors = {m: block("M:" + m, self.motor_block(m)) for m in MOTORS}

        def moved():
            for m, part in motors.items():
                part.attrs["readback"].set_value(st.axes[MOTORS[m]].at(sim.t))
        st.on_moved = moved
        block("PMAC:CS1", self.cs_block)
        block("PMAC:TRAJ", self.traj_block)
        block("PMAC:STATUS", self.status_block)
        pmac = ManagerController("PMAC", "cfg")
        for m in MOTORS:
            pmac.add_part(ChildPart(m, "M:" + m, initial_visibility=True))
        pmac.add_part(CSPart("PMAC:CS1", 1))
        pmac.add_part(PmacTrajectoryPart("TRAJ", "PMAC:TRAJ"))
        pmac.add_part(PmacStatusPart("STATUS", "PMAC:STATUS", True))
        process.add_controller(pmac)
        c = self.controller = RunnableController("SCAN", "cfg")
        c.add_part(PmacChildPart("pmac", "PMAC", True))
        if cfg["mode"] != "every":
            self.add_panda(process, block)
            c.add_part(PandASeqTriggerPart("pcomp", "SCAN:PCOMP"))
        if cfg["turn"] is not None:
            c.add_part(MinTurnaroundPart("turn", cfg["turn"], 0.002))
        c.add_part(WatchPart("watch").bind(self))
        process.add_controller(c)
        process.start()
        if cfg["mode"] != "every":
            self.panda.set_exports(ExportTable.from_rows([
                ("SEQ1.table", "seqTableA"), ("SEQ2.table", "seqTableB"),
                ("SRGATE1.forceSet", "seqSetEnable"),
                ("SRGATE1.forceReset", "seqReset")]))
            r = Responses(sim, "rowTrigger", 1)
            put = Put(1, ["SCAN:PCOMP", "rowTrigger", "value"],
                      "Position Compare" if cfg["mode"] == "pcomp"
                      else "Motion Controller")
            put.set_callback(r)
            process.get_controller("SCAN:PCOMP").handle_request(put)
            r.wait(10)
        fields = dict(RUNNABLE_FIELDS, disable=None, validate=None)
        ro = ["state", "health", "configuredSteps", "totalSteps", "modified"]
        self.watch = StateWatch(sim, MOTION, c, RUNNABLE, fields, ro)
        self.watch.on_state = self.on_state
        self.watch.on_view = lambda _: self.watch_steps()
        sim.check(self.watch.state == "Ready", self.whole, "not_ready",
                  f"scan is {self.watch.state} after start")
        self.fail_p = st.fail_p = cfg["fail_p"]
        base = sim.t
        tasks = [sim.at(base + op["at"], self.issue, op)
                 for op in plan["ops"] if "at" in op]
        for op in plan["ops"]:
            if "at" in op:
                continue
            if op.get("gap"):
                cothread.Sleep(op["gap"])
            if self.loose() or self.failed:
                if not self.recover():
                    return
            rec = self.issue(op)
            if op["wait"]:
                end = sim.t + 600
                while not rec["r"].finals and sim.t < end:
                    if self.watch.state == "Paused":
                        break
                    rec["r"].wait(0.5)
        for t in tasks:
            t.Wait(1000)
        self.finish()

    def add_panda(self, process, block):
        panda = self.panda = ManagerController("PANDA", "cfg")
        panda.add_part(Fields("busses").bind(self.busses))
        for n in (0, 1):
            block(f"PANDA:SEQ{n + 1}", self.seq_block(n), BasicController)
            panda.add_part(ChildPart(f"SEQ{n + 1}", f"PANDA:SEQ{n + 1}",
                                     initial_visibility=True, stateful=False))
        block("PANDA:SRGATE1", self.gate_block, BasicController)
        panda.add_part(ChildPart("SRGATE1", "PANDA:SRGATE1", initial_visibility=True,
                                 stateful=False))
        process.add_controller(panda)
        for ctrl in panda_seq_trigger_block(
                mri="SCAN:PCOMP", panda="PANDA", pmac="PMAC"):
            process.add_controller(ctrl)

    def settle(self, limit):
        end = self.sim.t + limit
        while self.sim.t < end:
            waiting = [o for o in self.open
                       if not (o["op"]["k"] == "run" and self.watch.state == "Paused")]
            if self.watch.state in REST and not waiting:
                return True
            cothread.Sleep(0.5)
        return False

    def look_back(self):
        """What is complained about when nothing had failed"""
        sim = self.sim
        if not self.loose() and not self.failed:
            for msg in self.seqs.complaints:
                sim.violate(TRIGGERS, "wrong_table", msg)
            for msg in self.misuse:
                sim.violate(MOTION, "wrong_use", msg)
        self.seqs.complaints = []
        self.misuse = []

    def recover(self, n=700):
        """From wherever it is to Ready, by the book"""
        sim = self.sim
        if not sim.check(self.settle(3000), self.whole, "stuck",
                         lambda: f"scan is {self.watch.state}, unanswered "
                         f"{[(o['op']['k'], o['op']['i']) for o in self.open]}"):
            return False
        for j in range(6):
            state = self.watch.state
            if state == "Ready":
                break
            k = "reset" if state in RUNNABLE_FIELDS["reset"] else "abort"
            rec = self.issue({"i": n + j, "k": k})
            if not sim.check(rec["r"].wait(200), self.whole, "stuck",
                             f"{k} in {state}: no answer"):
                return False
            self.settle(20)
        if not self.fail_p:
            sim.check(self.watch.state == "Ready", self.whole, "no_recovery",
                      f"after reset the scan is {self.watch.state}")
        self.look_back()
        self.tainted = False
        self.failed = []
        self.told = None
        return True

    def finish(self):
        sim = self.sim
        sim.stalls_on = False
        self.fail_p = self.stage.fail_p = 0.0
        if self.settle(3000) and self.watch.state == "Paused":
            self.issue({"i": 890, "k": "resume"})
        if not self.recover(900):
            return
        rec = self.issue({
            "i": 950, "k": "configure", "dims": [["y", 0, 0.1, 2, False],
                                                 ["x", 1.0, 0.05, 4, True]],
            "moved": 2, "dur": 0.5, "cont": True, "delay": 0.0, "bps": []})
        rec["r"].wait(300)
        if not sim.check(self.watch.state == "Armed", self.whole, "no_recovery",
                         f"configure after recovery left {self.watch.state}"):
            return
        rec = self.issue({"i": 960, "k": "run"})
        if not sim.check(rec["r"].wait(600), self.whole, "stuck", "final run not answered"):
            return
        sim.check(self.watch.state == "Finished", self.whole, "no_recovery",
                  f"run of the final scan left {self.watch.state}")
        rec = self.issue({"i": 970, "k": "abort"})
        rec["r"].wait(100)
        self.look_back()


class TriggersScenario(MotionScenario):
    name = "triggers"
    modes = ("row", "pcomp", "pcomp")
    whole = TRIGGERS
