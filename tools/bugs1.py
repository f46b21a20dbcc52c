HEAD = '''import sys, time, threading
sys.path.insert(0, "")
import cothread
from cothread import Sleep
from malcolm.core import *
def need(ok, why):
    if not ok:
        print("BROKEN:", why)
        sys.stdout.flush()
        import os
        os._exit(1)
'''

bug("put-get-echo", "P01",
    "a Put with get=True to an attribute whose setter adjusts the value it is given",
    "the Return of the Put carries the value asked for instead of the one the Block holds",
    [("malcolm/core/controller.py",
      "            result = self._block[attribute_name].value\n        elif",
      "            result = value\n        elif")],
    HEAD + '''
class P(Part):
    def setup(self, r):
        self.attr = NumberMeta("int32", "x").create_attribute_model(0)
        r.add_attribute_model("x", self.attr, self.set_x)
    def set_x(self, v):
        self.attr.set_value(min(v, 10))
p = Process("p"); c = Controller("B"); c.add_part(P("part")); p.add_controller(c); p.start()
got = []
r = Put(1, ["B", "x", "value"], 50, True); r.set_callback(got.append)
c.handle_request(r).wait()
need(got[0].value == 10, got[0])
''', "test_controller.py test_context.py test_block.py")

bug("took-at-start", "P01",
    "two overlapping calls of one method, the one that started last finishing first",
    "the log of a method mixes the arguments of one call with the outcome of another",
    [("malcolm/core/controller.py",
      "        try:\n            with self.lock_released:\n                result = post_function(**took_value)\n",
      "        # Show what we are doing while it is being done\n"
      "        took = MethodLog(\n"
      "            value=method.meta.takes.validate(took_value, add_missing=True),\n"
      "            present=[x for x in method.meta.takes.elements if x in took_value],\n"
      "            timeStamp=took_ts,\n"
      "        )\n"
      "        with self.changes_squashed:\n"
      "            method.set_took(took)\n"
      "        try:\n            with self.lock_released:\n                result = post_function(**took_value)\n"),
     ("malcolm/core/controller.py",
      """            self.update_method_logs(
                method, took_value, took_ts, returned_value, returned_alarm
            )
""",
      """            self.update_method_logs(
                method, method.took.value, took_ts, returned_value, returned_alarm
            )
""")],
    HEAD + '''
from annotypes import add_call_types, Anno
with Anno("t"):
    AT = float
class P(Part):
    def setup(self, r):
        r.add_method_model(self.go)
    @add_call_types
    def go(self, t: AT) -> AT:
        Sleep(t)
        return t
p = Process("p"); c = Controller("B"); c.add_part(P("part")); p.add_controller(c); p.start()
ctx = Context(p)
f1 = ctx.post_async(["B", "go"], dict(t=0.2))
f2 = ctx.post_async(["B", "go"], dict(t=0.05))
ctx.wait_all_futures([f1, f2])
m = c.block_view().go
need(m.took.value["t"] == m.returned.value["return"] == 0.2, (m.took.value, m.returned.value))
''', "test_controller.py test_context.py test_block.py")

bug("squash-deltas", "P02",
    "a column of a table changed, then the whole table, then that column, in one group of changes",
    "delta subscribers are given the changes out of order and end with a stale column",
    [("malcolm/core/notifier.py",
      "                # TODO: squash intermediate deltas here?\n",
      "                # Only the last change to any path needs to be sent\n"
      "                latest = {}\n"
      "                for change in changes:\n"
      "                    latest[tuple(change[0])] = change\n"
      "                changes = list(latest.values())\n")],
    HEAD + '''
from annotypes import Array, Anno
with Anno("a"):
    A = Array[int]
with Anno("b"):
    B = Array[str]
class T(Table):
    def __init__(self, a: A, b: B) -> None:
        self.a = a
        self.b = b
class P(Part):
    def setup(self, r):
        self.attr = TableMeta.from_table(T, "x").create_attribute_model(T([1], ["p"]))
        r.add_attribute_model("x", self.attr)
p = Process("p"); c = Controller("B"); part = P("part"); c.add_part(part); p.add_controller(c); p.start()
got = []
r = Subscribe(1, ["B", "x", "value"], True); r.set_callback(got.append)
c.handle_request(r).wait()
view = {}
with c.changes_squashed:
    # only column a changes, then both, then only column a
    def col(a):
        old = part.attr.value
        t = T([a], ["p"]); t.b = old.b
        part.attr.set_value_alarm_ts(t, Alarm.ok, TimeStamp())
    col(2)
    part.attr.set_value(T([3], ["q"]))
    col(4)
for d in got:
    for ch in d.changes:
        if ch[0] == []:
            view = {k: list(ch[1][k]) for k in ("a", "b")}
        else:
            view[ch[0][0]] = list(ch[1])
need(view == {"a": [4], "b": ["q"]}, view)
''', "test_notifier.py test_controller.py test_models.py")

bug("event-timeout-once", "P03",
    "a wait with event_timeout in which events keep coming for longer than event_timeout in total",
    "the wait times out though no gap between events was longer than event_timeout",
    [("malcolm/core/context.py",
      """        until: Union[float, None]
        while filtered_futures:
            if event_timeout is not None:
                until = time.time() + event_timeout
                if end is not None:
                    until = min(until, end)
            else:
                until = end
            self._service""",
      """        until: Union[float, None] = end
        if event_timeout is not None:
            until = time.time() + event_timeout
            if end is not None:
                until = min(until, end)
        while filtered_futures:
            self._service""")],
    HEAD + '''
class P(Part):
    def setup(self, r):
        self.attr = NumberMeta("int32", "x").create_attribute_model(0)
        r.add_attribute_model("x", self.attr)
p = Process("p"); c = Controller("B"); part = P("part"); c.add_part(part); p.add_controller(c); p.start()
def change():
    for i in range(1, 7):
        Sleep(0.1)
        part.attr.set_value(i)
cothread.Spawn(change)
ctx = Context(p)
try:
    ctx.when_matches(["B", "x", "value"], 6, event_timeout=0.4)
except TimeoutError as e:
    need(False, e)
''', "test_context.py test_runnablecontroller.py test_detectorchildpart.py")

bug("disable-forgets-resume", "P06",
    "disable of a paused scan",
    "the run call waiting for resume never returns, so its caller hangs",
    [("malcolm/modules/scanning/controllers/runnablecontroller.py",
      """            context.stop()
        if self.resume_queue:
            self.resume_queue.put(False)
        super().do_disable()
""",
      """            context.stop()
        super().do_disable()
""")],
    HEAD + '''
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.hooks import *
from scanpointgenerator import CompoundGenerator, LineGenerator
class P(Part):
    def setup(self, r):
        r.hook(RunHook, self.run, lambda _: ["context"])
    def run(self, context):
        context.sleep(5)
p = Process("p"); c = RunnableController("B", "/tmp"); a = P("a"); c.add_part(a)
p.add_controller(c); p.start()
blk = c.block_view()
blk.configure(CompoundGenerator([LineGenerator("x", "mm", 0, 1, 10)], [], []), axesToMove=["x"])
f = blk.run_async()
Sleep(0.1)
blk.pause()
blk.disable()
ctx = blk._context
try:
    ctx.wait_all_futures(f, timeout=3)
except AbortedError:
    pass
except TimeoutError:
    need(False, "run never returned")
else:
    need(False, "run returned")
''', "test_runnablecontroller.py")

bug("load-order", "P08",
    "a child whose fields in the design file are not in the order of their load iterations",
    "config fields are loaded in the order they are in the file, not by load iteration",
    [("malcolm/modules/builtin/parts/childpart.py",
      "        for name, params in sorted(iterations.items()):\n",
      "        for name, params in iterations.items():\n")],
    HEAD + '''
import tempfile, os, shutil
from malcolm.modules.builtin.controllers import ManagerController, StatefulController
from malcolm.modules.builtin.parts import ChildPart
order = []
class P(Part):
    def setup(self, r):
        for n, it in (("late", 2), ("early", 1)):
            a = NumberMeta("int32", n, tags=[config_tag(it)]).create_attribute_model(0)
            r.add_attribute_model(n, a, lambda v, n=n, a=a: (order.append(n), a.set_value(v)))
d = tempfile.mkdtemp()
try:
    p = Process("p"); c = StatefulController("C"); c.add_part(P("part")); p.add_controller(c)
    m = ManagerController("M", d); m.add_part(ChildPart("c", "C", initial_visibility=True)); p.add_controller(m)
    p.start()
    b = m.block_view()
    k = c.block_view()
    k.late.put_value(1); k.early.put_value(1)
    b.save("d1")
    k.late.put_value(2); k.early.put_value(2)
    del order[:]
    b.design.put_value("d1")
    need(order == ["early", "late"], order)
finally:
    shutil.rmtree(d)
''', "test_managercontroller.py test_childpart.py")

bug("hidden-modified", "P08",
    "a child that is modified, hidden, shown again",
    "the modified light shows the fields of children that are hidden",
    [("malcolm/modules/builtin/controllers/managercontroller.py",
      "                if visible and info:\n",
      "                if info and (visible or not info.original_desc if hasattr(info, 'original_desc') else True):\n")],
    HEAD + '''
import tempfile, os, shutil
from malcolm.modules.builtin.controllers import ManagerController, StatefulController
from malcolm.modules.builtin.parts import ChildPart
from malcolm.modules.builtin.util import LayoutTable
class P(Part):
    def setup(self, r):
        a = NumberMeta("int32", "n", tags=[config_tag(1)]).create_attribute_model(0)
        r.add_attribute_model("n", a, a.set_value)
d = tempfile.mkdtemp()
try:
    p = Process("p"); c = StatefulController("C"); c.add_part(P("part")); p.add_controller(c)
    m = ManagerController("M", d); m.add_part(ChildPart("c", "C", initial_visibility=False)); p.add_controller(m)
    p.start()
    b = m.block_view()
    k = c.block_view()
    b.save("d1")
    k.n.put_value(2)
    Sleep(0.2)
    need(not b.modified.value, b.modified.alarm.message)
finally:
    shutil.rmtree(d)
''', "test_managercontroller.py test_childpart.py")

bug("export-rename", "P09",
    "an exports table that renames an export of the same sources",
    "the field keeps its old name after the exports table was changed",
    [("malcolm/modules/builtin/controllers/managercontroller.py",
      """            self.exports.set_value(value)
            self.update_modified()
            self.update_block_endpoints()
""",
      """            changed = value.source != self.exports.value.source
            self.exports.set_value(value)
            self.update_modified()
            if changed:
                # Different fields are exported
                self.update_block_endpoints()
""")],
    HEAD + '''
import tempfile, os, shutil
from malcolm.modules.builtin.controllers import ManagerController, StatefulController
from malcolm.modules.builtin.parts import ChildPart
from malcolm.modules.builtin.util import ExportTable
class P(Part):
    def setup(self, r):
        for n in ("x", "y"):
            a = NumberMeta("int32", n, tags=[config_tag(1)]).create_attribute_model(0)
            r.add_attribute_model(n, a, a.set_value)
d = tempfile.mkdtemp()
try:
    p = Process("p"); c = StatefulController("C"); c.add_part(P("part")); p.add_controller(c)
    m = ManagerController("M", d); m.add_part(ChildPart("c", "C", initial_visibility=True)); p.add_controller(m)
    p.start()
    b = m.block_view()
    k = c.block_view()
    b.exports.put_value(ExportTable(["c.x", "c.y"], ["ex", "ey"]))
    b.exports.put_value(ExportTable(["c.x", "c.y"], ["ex", "ez"]))
    need("ez" in list(m.block_view()) and "ey" not in list(m.block_view()), list(m.block_view()))
finally:
    shutil.rmtree(d)
''', "test_managercontroller.py test_childpart.py")
