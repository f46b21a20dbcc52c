HEAD = '''import sys, time, threading
sys.path.insert(0, "")
import cothread
from cothread import Sleep
from malcolm.core import *
def need(ok, why):
    if not ok:
        print("BROKEN:", why)
        sys.stdout.flush()
        import os
        os._exit(1)
def done():
    sys.stdout.flush()
    import os
    os._exit(0)
def from_tests(path):
    import importlib.util
    spec = importlib.util.spec_from_file_location("fromtests", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m
'''

bug("ca-old-monitor", "P14",
    "a reset (which connects again) and later a disable",
    "a disabled Block goes on following its PV through the monitor it had before the reset",
    [("malcolm/modules/ca/util.py",
      '''        # release old monitor
        self.disconnect()
        disconnects = self._disconnects
        # make the connection in cothread's thread, use caget for initial value
''',
      '''        disconnects = self._disconnects
        # make the connection in cothread's thread, use caget for initial value
''')],
    HEAD + '''
from malcolm.modules.ca import util
class Value(str):
    ok, severity, state, state_strings = True, 0, 0, ["fine"]
    raw_stamp = (1, 2)
class CA:
    DBR_STRING = FORMAT_CTRL = FORMAT_TIME = 0
    live = []
    def caget(self, pvs, **kw):
        return [Value("a") for _ in pvs]
    def camonitor(self, pv, cb, **kw):
        class M:
            def close(me):
                CA.live.remove(cb_)
        cb_ = lambda v, cb=cb: cb(v)
        CA.live.append(cb_)
        return M()
util.catools = CA()
a = util.CAAttribute(StringMeta("d"), 0, "pv")
a.reconnect()
a.reconnect()
a.disconnect()
for cb in list(CA.live):
    cb(Value("later"))
need(a.attr.value == "a", "disabled, but shows %r" % a.attr.value)
done()
''', "tests/test_modules/test_ca")

bug("spawn-list-lost", "P15",
    "more than 1000 spawns in the life of a process, one of the earlier ones still running at stop",
    "stop returns while a spawned function is still running",
    [("malcolm/core/process.py",
      '''        self._spawned = [s for s in self._spawned if not s.ready()]
''',
      '''        self._spawned = self._spawned[-SPAWN_CLEAR_COUNT // 10 :]
''')],
    HEAD + '''
p = Process("proc")
p.start()
ended = []
def slow():
    Sleep(3)
    ended.append(1)
p.spawn(slow)
for i in range(1500):
    p.spawn(lambda: None)
    if i % 100 == 0:
        Sleep(0.01)
p.stop(timeout=20)
need(ended, "stop returned before what was spawned had ended")
done()
''', "test_process.py")

bug("publish-below-unpublished", "P15",
    "a Block that may be published which is a child of one that may not",
    "it is hosted and may be published, but no comms is told of it",
    [("malcolm/core/process.py",
      '''                    published.append(k)
                if v:
                    to_do.append(v)
''',
      '''                    published.append(k)
                    if v:
                        to_do.append(v)
''')],
    HEAD + '''
from malcolm.testutil import PublishController, UnpublishableController
class Child(Part):
    mri = "LOW"
p = Process("proc")
pub = PublishController("PUB")
hidden = UnpublishableController("HIDDEN")
hidden.add_part(Child("low"))
p.add_controllers([pub, hidden, Controller("LOW"), Controller("OTHER")])
p.start()
need("HIDDEN" not in pub.published, "HIDDEN was published")
need("LOW" in pub.published and "OTHER" in pub.published, "published %s" % pub.published)
p.stop()
done()
''', "test_process.py")

bug("det-steps-up", "P16",
    "a detector that takes several frames per step, stopped or looked at in the middle of a step",
    "a step is claimed as completed when only some of its frames have been taken",
    [("malcolm/modules/scanning/parts/detectorchildpart.py",
      '''self.registrar.report(RunProgressInfo(value // self.frames_per_step))''',
      '''self.registrar.report(RunProgressInfo(-(-value // self.frames_per_step)))''')],
    HEAD + '''
from malcolm.modules.scanning.parts import DetectorChildPart
seen = []
class Reg:
    def report(self, info):
        seen.append(info.steps)
p = DetectorChildPart("det", "DET", True)
p.registrar = Reg()
p.frames_per_step = 3
for v in range(7):
    p.update_completed_steps(v)
need(seen == [0, 0, 0, 1, 1, 1, 2], "steps completed: %s" % seen)
done()
''', "test_detectorchildpart.py")

bug("det-postrun-armed", "P16",
    "a scan with breakpoints, and a detector that takes time to get ready for its next run",
    "the scan is Armed while the detector is not",
    [("malcolm/modules/scanning/parts/detectorchildpart.py",
      '''        registrar.hook((PostRunArmedHook, PostRunReadyHook), self.on_post_run)
''',
      '''        registrar.hook(PostRunReadyHook, self.on_post_run)
''')],
    HEAD + '''
import tempfile, shutil
from annotypes import add_call_types
from scanpointgenerator import CompoundGenerator, LineGenerator
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.parts import DatasetTablePart, DetectorChildPart
from malcolm.modules.scanning.hooks import *
from malcolm.modules.scanning.hooks import (AContext, ACompletedSteps, AStepsToDo,
    AGenerator, AAxesToMove, ABreakpoints, AFileDir, AFormatName, AFileTemplate, UInfos,
    PostRunArmedHook, RunHook, ConfigureHook)
from malcolm.modules.scanning.infos import RunProgressInfo, DatasetProducedInfo, DatasetType
from malcolm.modules.scanning.util import DetectorTable
class Camera(Part):
    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(ConfigureHook, self.on_configure)
        registrar.hook(RunHook, self.go, lambda _: ["context"])
        registrar.hook(PostRunArmedHook, self.armed, lambda _: [
            "context", "completed_steps", "steps_to_do"])
        registrar.report(ConfigureHook.create_info(self.on_configure))
    @add_call_types
    def on_configure(self, context: AContext, completed_steps: ACompletedSteps,
            steps_to_do: AStepsToDo, generator: AGenerator, axesToMove: AAxesToMove,
            breakpoints: ABreakpoints, fileDir: AFileDir, formatName: AFormatName = "det",
            fileTemplate: AFileTemplate = "%s.h5") -> UInfos:
        self.upto = completed_steps + steps_to_do
        return [DatasetProducedInfo("det.data", "det.h5", DatasetType.PRIMARY, 2, "/d", "/u")]
    def go(self, context):
        context.sleep(0.2)
        self.registrar.report(RunProgressInfo(self.upto))
    def armed(self, context, completed_steps, steps_to_do):
        self.upto = completed_steps + steps_to_do
        context.sleep(1.0)
d = tempfile.mkdtemp()
proc = Process("proc")
det = RunnableController("DET", d)
det.add_part(DatasetTablePart("dset"))
det.add_part(Camera("cam"))
scan = RunnableController("SCAN", d)
scan.add_part(DatasetTablePart("dset"))
scan.add_part(DetectorChildPart("det", "DET", True))
proc.add_controllers([det, scan])
proc.start()
b = scan.block_view()
x = LineGenerator("x", "mm", 0, 1, 4)
b.configure(generator=CompoundGenerator([x], [], [], duration=0.1), fileDir=d,
            breakpoints=[2, 2], axesToMove=["x"])
b.run()
states = b.state.value, det.block_view().state.value
shutil.rmtree(d)
need(states == ("Armed", "Armed"), "scan and detector are %s, %s" % states)
done()
''', "test_detectorchildpart.py")

PMAC = HEAD + """
T = from_tests("tests/test_modules/test_pmac/test_pmacchildpart.py")
from malcolm.modules.scanning.infos import MotionTrigger, MotionTriggerInfo
"""

bug("append-reentrant", "P17",
    "a progress report that arrives while points are being appended",
    "the next points are appended twice: the path goes through points again",
    [("malcolm/modules/pmac/parts/pmacchildpart.py",
      '''                self.calculate_generator_profile(self.end_index)
                self.write_profile_points(child)
                self.loading = False

''',
      '''                self.calculate_generator_profile(self.end_index)
                self.loading = False
                self.write_profile_points(child)

''')],
    PMAC + """
import numpy as np
import malcolm.modules.pmac.parts.pmacchildpart as pc
from scanpointgenerator import CompoundGenerator, LineGenerator
pc.PROFILE_POINTS = 20
class D(T.TestPMACChildPart):
    def path(self, nested):
        self.set_motor_attributes()
        x = LineGenerator("x", "mm", 0.0, 0.5, 60)
        g = CompoundGenerator([x], [], [], 1.0)
        g.prepare()
        self.child.handled_requests.reset_mock()
        self.o.registrar = T.Mock()
        self.o.on_configure(self.context, 0, 60, {"part": [MotionTriggerInfo(
            MotionTrigger.EVERY_POINT)]}, g, ["x"])
        self.o.loading = False
        points = []
        def add(c):
            points.extend(c[2]["a"])
        calls = [c for c in self.child.handled_requests.mock_calls
                 if "writeProfile" in str(c)]
        add(calls[-1])
        o = self.o
        class Child:
            inside = False
            def writeProfile(self, **args):
                mine = list(args["a"])
                if nested and not self.inside:
                    self.inside = True
                    o.update_step(Child.at + 3, self)
                    self.inside = False
                points.extend(mine)
        c = Child()
        for at in range(1, 121, 5):
            Child.at = at
            o.update_step(at, c)
        return np.round(points, 6).tolist()
    def runTest(self):
        a, b = self.path(False), self.path(True)
        need(a == b, "the path depends on when progress is reported: %s" % b)
import unittest
r = unittest.TextTestRunner().run(D())
need(r.wasSuccessful(), "failed")
done()
""", "test_pmacchildpart.py")

SEQ = HEAD + """
T = from_tests("tests/test_modules/test_ADPandABlocks/test_pandaseqtriggerpart.py")
from scanpointgenerator import CompoundGenerator, LineGenerator
"""

bug("pcomp-offset", "P18",
    "an encoder with an offset in the PandA",
    "rows are triggered at positions that are off by the offset",
    [("malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py",
      '''                    info.offset = positions_table.offset[i]
''', "")],
    SEQ + """
class D(T.TestPandaSeqTriggerPart):
    def runTest(self):
        t = self.panda.block_view().positions.value
        names = list(t.call_types)
        self.set_attributes(self.panda, positions=type(t).from_rows([
            [2.0 if k == "offset" and row[0] == "INENC1.VAL" else v
             for k, v in zip(names, row)] for row in t.rows()]))
        self.set_motor_attributes(0.0, 0.0, "mm")
        x = LineGenerator("x", "mm", 0.0, 3.0, 4, alternate=True)
        g = CompoundGenerator([x], [], [], 1.0)
        g.prepare()
        self.o.on_configure(self.context, 0, 4, {}, g, "x")
        t = self.seq_parts[1].table_set.call_args[0][0]
        # scale is -0.001: counts = (position - offset) / scale
        need(t.position[0] == 2500, "compares with %s" % list(t.position))
import unittest
r = unittest.TextTestRunner().run(D())
need(r.wasSuccessful(), "failed")
done()
""", "test_pandaseqtriggerpart.py")

bug("seq-not-reset", "P18",
    "a scan of several runs (breakpoints or inner scans)",
    "the sequencers are still enabled with the end of the last run when the tables of the next are loaded",
    [("malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py",
      '''        self.on_abort(context)
        self.on_configure(
''',
      '''        if self.db_seq_table is not None:
            self.db_seq_table.clean_up()
        self.on_configure(
''')],
    SEQ + """
class D(T.TestPandaSeqTriggerPart):
    def runTest(self):
        self.set_motor_attributes(0.0, 0.0, "mm")
        x = LineGenerator("x", "mm", 0.0, 3.0, 4, alternate=True)
        g = CompoundGenerator([x], [], [], 1.0)
        g.prepare()
        self.o.on_configure(self.context, 0, 2, {}, g, "x")
        order = []
        gate = self.gate_part
        gate.seq_reset.side_effect = lambda: order.append("reset")
        old = self.seq_parts[1].table_set.side_effect
        def put(v):
            order.append("table")
            return old(v)
        self.seq_parts[1].table_set.side_effect = put
        self.o.post_inner_scan(self.context, 2, 2, {}, g, "x")
        need(order[:1] == ["reset"] and "table" in order, "order %s" % order)
import unittest
r = unittest.TextTestRunner().run(D())
need(r.wasSuccessful(), "failed")
done()
""", "test_pandaseqtriggerpart.py")
