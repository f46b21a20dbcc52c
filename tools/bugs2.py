HEAD = '''import sys, time, threading
sys.path.insert(0, "")
import cothread
from cothread import Sleep
from malcolm.core import *
def need(ok, why):
    if not ok:
        print("BROKEN:", why)
        sys.stdout.flush()
        import os
        os._exit(1)
def done():
    sys.stdout.flush()
    import os
    os._exit(0)
'''

# A small PandA on a real socket, in a thread of its own
PANDA = HEAD + '''
import socket as pysocket, logging
logging.disable(logging.CRITICAL)
class Panda:
    FIELDS = {"TTLIN": ["VAL 0 bit_out", "TERM 1 param enum"],
              "INENC": ["VAL 0 pos_out"],
              "PCAP": ["BITS0 0 ext_out bits"]}
    def __init__(self):
        self.changes = ["TTLIN.VAL=0", "TTLIN.TERM=High-Z", "INENC.VAL=0",
                        "INENC.VAL.CAPTURE=No", "INENC.VAL.UNITS=", "INENC.VAL.SCALE=1",
                        "INENC.VAL.OFFSET=0", "PCAP.BITS0.CAPTURE=No"]
        self.refuse = set()
        self.polls = 0
        self.cut = False
        self.listen = pysocket.socket()
        self.listen.bind(("127.0.0.1", 0))
        self.listen.listen(5)
        self.port = self.listen.getsockname()[1]
        threading.Thread(target=self.serve, daemon=True).start()
    def serve(self):
        while True:
            conn, _ = self.listen.accept()
            threading.Thread(target=self.talk, args=(conn,), daemon=True).start()
    def talk(self, conn):
        f = conn.makefile("r")
        for line in f:
            out = self.reply(line.strip())
            if out is None:
                conn.close()
                f.close()
                return
            conn.sendall(out.encode())
    def multi(self, lines):
        return "".join("!" + x + "\\n" for x in lines) + ".\\n"
    def reply(self, line):
        if line == "*BLOCKS?":
            return self.multi(k + " 1" for k in self.FIELDS)
        if line.startswith("*DESC."):
            return "OK =desc\\n"
        if line == "*CHANGES?":
            out, self.changes = self.changes, []
            self.polls += 1
            return self.multi(out)
        if line.startswith("*ENUMS.TTLIN.TERM"):
            return self.multi(["High-Z", "50-Ohm"])
        if line.startswith("*ENUMS."):
            return self.multi(["No", "Value"])
        if line.endswith(".*?"):
            return self.multi(self.FIELDS[line[:-3]])
        if line == "PCAP.BITS0.BITS?":
            return self.multi(["TTLIN.VAL"])
        if "=" in line:
            k, v = line.split("=", 1)
            if (k, v) in self.refuse:
                return "ERR No\\n"
            self.changes.append(line)
            return "OK\\n"
        return "ERR what?\\n"
    def polled(self, n=2):
        n += self.polls
        while self.polls < n:
            Sleep(0.01)
        Sleep(0.05)
def make(panda):
    import tempfile
    from malcolm.modules.pandablocks.controllers import PandAManagerController
    c = PandAManagerController("P", tempfile.gettempdir(), "127.0.0.1", panda.port, 0.1)
    p = Process("proc"); p.add_controller(c); p.start(timeout=20)
    return p, c
'''

bug("panda-multiline-leftover", "P13",
    "the connection ending in the middle of a multi-line response, then a new connection",
    "the first response of the new connection has the lines of the old one in front of it",
    [("malcolm/modules/pandablocks/pandablocksclient.py",
      '''        """Service socket recv, returning responses to the correct queue"""
        self._completed_response_lines = []
        self._is_multiline = None
''',
      '''        """Service socket recv, returning responses to the correct queue"""
''')],
    PANDA + '''
from malcolm.modules.pandablocks.pandablocksclient import PandABlocksClient
class Sock:
    n = 0
    def __init__(self):
        Sock.n += 1
        self.n = Sock.n
        self.left = [b"!old\\n!ol", b""] if self.n == 1 else [b"!new\\n.\\n", b""]
        self.ev = threading.Event()
    def connect(self, a): pass
    def sendall(self, m): self.ev.set()
    def recv(self, n):
        self.ev.wait()
        return self.left.pop(0) if self.left else b""
    def shutdown(self, how): self.ev.set()
    def close(self): pass
import queue
c = PandABlocksClient("h", 1, queue.Queue)
c.start(socket_cls=Sock)
try:
    c.send_recv("*CHANGES?\\n", timeout=1)
    need(False, "answered")
except queue.Empty:
    pass
c.stop()
c.start(socket_cls=Sock)
got = c.send_recv("*CHANGES?\\n", timeout=5)
need(got == ["new"], got)
done()
''', "test_pandablocksclient.py test_pandablocksmanagercontroller.py")

bug("panda-shown-early", "P12",
    "a Put of a value that the PandA refuses",
    "the attribute keeps showing the value that the PandA refused",
    [("malcolm/modules/pandablocks/parts/pandafieldpart.py",
      '''        self.client.set_field(self.block_name, self.field_name, value)
        self.attr.set_value(value)''',
      '''        # Show it straight away so that clients don't have to wait for it
        self.attr.set_value(value)
        self.client.set_field(self.block_name, self.field_name, value)''')],
    PANDA + '''
panda = Panda()
panda.refuse.add(("TTLIN.TERM", "50-Ohm"))
p, c = make(panda)
b = p.block_view("P:TTLIN")
try:
    b.term.put_value("50-Ohm")
    need(False, "accepted")
except Exception as e:
    need("No" in str(e), e)
panda.polled(3)
need(b.term.value == "High-Z", b.term.value)
done()
''', "test_pandablocksclient.py test_pandablocksmanagercontroller.py test_pandablockcontroller.py test_pandabussespart.py")

WS = HEAD + '''
import json, socket as pysocket
class Registrar:
    def __init__(self): self.got = []
    def report(self, info): self.got.append(info)
def handler(ip, reg, validators=()):
    from malcolm.modules.web.parts.websocketserverpart import MalcWebSocketHandler
    h = MalcWebSocketHandler.__new__(MalcWebSocketHandler)
    class R: remote_ip = ip
    h.request = R
    h.initialize(registrar=reg, validators=validators)
    h.sent = []
    h.write_message = h.sent.append
    return h
'''

bug("ws-writeable-shared", "P11",
    "a session from inside the subnet that writes before one from outside the subnet does",
    "sessions from outside the server's subnets may write once one from inside has",
    [("malcolm/modules/web/parts/websocketserverpart.py",
      "                self._writeable = max(v(remoteaddr) for v in self._validators)\n",
      "                # Share this between all the requests made of us\n"
      "                MalcWebSocketHandler._writeable = max(\n"
      "                    v(remoteaddr) for v in self._validators\n"
      "                )\n")],
    WS + '''
reg = Registrar()
inside = [lambda a: (a >> 24) == 10]
put = json.dumps(dict(typeid="malcolm:core/Put:1.0", id=1, path=["B", "x", "value"], value=3, get=False))
a = handler("10.0.0.1", reg, inside)
a.on_message(put)
need(len(reg.got) == 1, reg.got)
b = handler("192.168.0.1", reg, inside)
b.on_message(put)
need(len(reg.got) == 1, "put from outside reached the device")
need(len(b.sent) == 1 and "forbidden" in str(b.sent[0]), b.sent)
done()
''', "test_websocketserverpart.py test_system_websocket.py")

bug("ws-dead-updates", "P11",
    "a session with a full (not delta) subscription that closes without unsubscribing",
    "the subscription of a closed session is never given up",
    [("malcolm/modules/web/parts/websocketserverpart.py",
      "            if isinstance(response, (Delta, Update)):\n",
      "            if isinstance(response, Delta):\n"),
     ("malcolm/modules/web/parts/websocketserverpart.py", "    Unsubscribe,\n    Update,\n", "    Unsubscribe,\n")],
    WS + '''
from tornado.websocket import WebSocketClosedError
reg = Registrar()
h = handler("10.0.0.1", reg)
h.on_message(json.dumps(dict(typeid="malcolm:core/Subscribe:1.0", id=1, path=["B", "x", "value"], delta=False)))
need(len(reg.got) == 1, reg.got)
def dead(m): raise WebSocketClosedError()
h.write_message = dead
p = Process("p")
h._on_response(Update(1, 5))
need(len(reg.got) == 2 and isinstance(reg.got[1].request, Unsubscribe), reg.got)
done()
''', "test_websocketserverpart.py test_system_websocket.py")

PROXY = HEAD + '''
import logging
logging.disable(logging.CRITICAL)
from malcolm.modules.web.controllers import HTTPServerComms, WebsocketClientComms
from malcolm.modules.web.blocks import websocket_client_block
from malcolm.modules.web.parts import WebsocketServerPart
from malcolm.modules.builtin.controllers import ProxyController, BasicController, StatefulController
import socket as pysocket
s = pysocket.socket(); s.bind(("127.0.0.1", 0)); PORT = s.getsockname()[1]; s.close()
'''

bug("proxy-stale-fields", "P10",
    "a field that is removed from the remote Block in the same group of changes as others",
    "the proxy keeps a field which the remote Block does not have any more",
    [("malcolm/modules/web/controllers/websocketclientcomms.py",
      '''            if field not in ("health", "meta"):
                block.remove_endpoint(field)
        for field, value in d.items():
''', '''            if field not in ("health", "meta") and field in d:
                block.remove_endpoint(field)
        for field, value in d.items():
''')],
    PROXY + '''
class P(Part):
    def setup(self, r):
        self.attr = NumberMeta("int32", "x").create_attribute_model(0)
        self.r = r
        r.add_attribute_model("x", self.attr)
class Q(Part):
    pass
ps = Process("server"); c = StatefulController("B"); part = P("part"); c.add_part(part)
ps.add_controller(c)
h = HTTPServerComms("S", PORT); h.add_part(WebsocketServerPart("ws", subnet_validation=False)); ps.add_controller(h)
ps.start()
pc = Process("client"); ws = WebsocketClientComms("W", "localhost", PORT); pc.add_controller(ws)
pr = ProxyController("B", "W"); pc.add_controller(pr); pc.start(timeout=10)
v = pc.block_view("B")
need("x" in list(v), list(v))
ws.disable()
with c.changes_squashed:
    part.r._field_registry.fields.clear() if hasattr(part.r, "_field_registry") else None
    c._block.remove_endpoint("x")
ws.reset()
Sleep(0.5)
need("x" not in list(pc.block_view("B")), list(pc.block_view("B")))
done()
''', "test_websocketclientcomms.py test_system_websocket.py")

bug("proxy-health-alarm", "P10",
    "a remote Block that is unwell when the proxy is made or its connection is made again",
    "the health of the proxy has the text of the remote one, but no alarm",
    [("malcolm/modules/web/controllers/websocketclientcomms.py",
      '''                    value=value.value, alarm=value.alarm, ts=value.timeStamp
''', '''                    value=value.value, ts=value.timeStamp
''')],
    PROXY + '''
ps = Process("server"); c = StatefulController("B")
ps.add_controller(c)
h = HTTPServerComms("S", PORT); h.add_part(WebsocketServerPart("ws", subnet_validation=False)); ps.add_controller(h)
ps.start()
c.block_view().disable()
pc = Process("client"); ws = WebsocketClientComms("W", "localhost", PORT); pc.add_controller(ws)
pr = ProxyController("B", "W"); pc.add_controller(pr); pc.start(timeout=10)
v = pc.block_view("B")
need(v.health.alarm.severity == c.block_view().health.alarm.severity != 0, v.health)
done()
''', "test_websocketclientcomms.py test_system_websocket.py")

SCAN = HEAD + '''
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.hooks import *
from malcolm.modules.scanning.infos import RunProgressInfo
from scanpointgenerator import CompoundGenerator, LineGenerator
told = []
class P(Part):
    def setup(self, r):
        self.r = r
        for h, a in ((ConfigureHook, "c"), (PostRunArmedHook, "a"), (SeekHook, "s")):
            r.hook(h, lambda completed_steps, steps_to_do, a=a: told.append((a, completed_steps, steps_to_do)),
                   lambda _: ["completed_steps", "steps_to_do"])
        r.hook(RunHook, self.run, lambda _: ["context"])
    def run(self, context):
        context.sleep(self.t)
    t = 1.0
p = Process("p"); c = RunnableController("B", "/tmp"); a = P("a"); b = P("b"); c.add_part(a); c.add_part(b)
p.add_controller(c); p.start()
blk = c.block_view()
def gen(*sizes):
    return CompoundGenerator([LineGenerator("xyz"[i], "mm", 0, 1, n) for i, n in enumerate(sizes)], [], [])
'''

bug("steps-run-backwards", "P07",
    "a pause to a step behind that of the slowest part, and old progress of another part",
    "the completed steps run backwards while running, when a slow part reports after a fast one",
    [("malcolm/modules/scanning/controllers/runnablecontroller.py",
      "            if min_completed_steps > self.completed_steps.value:\n",
      "            if min_completed_steps != self.completed_steps.value:\n")],
    SCAN + '''
blk.configure(gen(10), axesToMove=["x"])
f = blk.run_async()
Sleep(0.1)
seen = []
ctx = Context(p)
ctx.subscribe(["B", "completedSteps", "value"], seen.append)
a.r.report(RunProgressInfo(5))
b.r.report(RunProgressInfo(3))
ctx.sleep(0.1)
need(seen == sorted(seen), seen)
blk.abort()
done()
''', "test_runnablecontroller.py test_detectorchildpart.py")

bug("hook-error-overtaken", "P04",
    "a part that fails while another is busy with something that it gives up only after a while",
    "the stage ends, and the caller has its error, before all parts have ended",
    [("malcolm/core/hook.py",
      '''            # Wait for them to finish
            for h in hook_spawned:
                assert h.spawned, "No spawned functions"
                h.spawned.wait(timeout)
            raise ret
''', '''            # Wait for those that have not told us they finished
            deadline = time.time() + 0.5
            for h in hook_spawned_set:
                assert h.spawned, "No spawned functions"
                try:
                    h.spawned.wait(max(deadline - time.time(), 0))
                except TimeoutError:
                    if logger:
                        logger.warning("%s did not stop", h.child.name)
            raise ret
'''),
     ("malcolm/core/hook.py", "import AbortedError", "import AbortedError, TimeoutError")],
    HEAD + '''
from malcolm.modules.builtin.controllers import StatefulController
from malcolm.modules.builtin.hooks import *
log = []
class Bad(Part):
    def setup(self, r): r.hook(InitHook, self.init, lambda _: ["context"])
    def init(self, context):
        context.sleep(0.05)
        raise ValueError("bad")
class Slow(Part):
    def setup(self, r): r.hook(InitHook, self.init, lambda _: ["context"])
    def init(self, context):
        try:
            context.sleep(5)
        finally:
            Sleep(1.0)
            log.append("slow ended")
p = Process("p"); c = StatefulController("B"); c.add_part(Bad("bad")); c.add_part(Slow("slow"))
p.add_controller(c); p.start()
need(c.state.value == "Fault", c.state.value)
need(log == ["slow ended"], log)
done()
''', "test_hook.py test_controller.py test_runnablecontroller.py test_managercontroller.py test_statefulcontroller.py")

bug("fault-keeps-message", "P05",
    "an operation that fails with a different error after a reset that failed",
    "the alarm of a Block in Fault that failed again to reset shows an older error",
    [("malcolm/modules/builtin/controllers/statefulcontroller.py",
      '''                self.state.set_value(state)
                self.state.set_alarm(alarm)
''', '''                self.state.set_value(state)
                if state != initial_state and alarm.severity != self._severity:
                    # Only tell clients about it if it is something new
                    self.state.set_alarm(alarm)
                    if state != ss.RESETTING:
                        self._severity = alarm.severity
'''),
     ("malcolm/modules/builtin/controllers/statefulcontroller.py",
      "        self._children_writeable: ChildrenWriteable = {}\n",
      "        self._children_writeable: ChildrenWriteable = {}\n        self._severity = None\n")],
    HEAD + '''
from malcolm.modules.builtin.controllers import StatefulController
from malcolm.modules.builtin.hooks import *
class Bad(Part):
    def setup(self, r):
        r.hook(InitHook, self.init)
        r.hook(ResetHook, self.reset)
    def init(self): raise ValueError("one")
    def reset(self): raise ValueError("two")
p = Process("p"); c = StatefulController("B"); c.add_part(Bad("bad"))
p.add_controller(c); p.start()
need("one" in c.state.alarm.message, c.state.alarm)
try:
    c.block_view().reset()
except Exception: pass
need("two" in c.state.alarm.message, c.state.alarm)
done()
''', "test_statefulcontroller.py test_runnablecontroller.py test_managercontroller.py")

bug("panda-pending-ignored", "P12",
    "a field that the PandA changes by itself between a client's write of it and the next poll",
    "the change made by the PandA is taken for the echo of the write and is never shown",
    [("malcolm/modules/pandablocks/parts/pandafieldpart.py",
      '''            self.pending_change = False
            if value == self.attr.value:
                # Ignore this change
                return
''', '''            # Ignore this change, it is what we have just set
            self.pending_change = False
            return
''')],
    PANDA + '''
panda = Panda()
p, c = make(panda)
b = p.block_view("P:TTLIN")
panda.polled(2)
class Over(str): pass
real = panda.reply
def reply(line):
    out = real(line)
    if line == "TTLIN.TERM=50-Ohm":
        # Something else in the PandA sets it back straight away
        panda.changes[:] = [x for x in panda.changes if "TERM" not in x] + ["TTLIN.TERM=High-Z"]
    return out
panda.reply = reply
b.term.put_value("50-Ohm")
panda.polled(3)
need(b.term.value == "High-Z", b.term.value)
done()
''', "test_pandablocksclient.py test_pandablocksmanagercontroller.py test_pandablockcontroller.py test_pandabussespart.py")
