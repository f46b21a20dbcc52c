"""Simulated tornado thread and websocket network.

The tornado IOLoop the code under test talks to is a real tornado IOLoop on an
asyncio loop that belongs to the simulator: its callbacks run one at a time, in
order, in a task of their own that is woken after simulated delays.  TCP is a
pair of ordered, reliable streams with delays, that can break: what is in
flight is lost and either end notices only after a while.
"""
import asyncio
import builtins
import fcntl
import io
import os
import re
import struct
from types import SimpleNamespace

import cothread

from .core import SimStop


class SimLoop(asyncio.AbstractEventLoop):
    """asyncio loop whose callbacks run in one simulated task"""

    def __init__(self, sim, delay):
        self.sim = sim
        self.delay = delay
        self.queue = []
        self.event = cothread.Event()
        self.errors = []
        sim.spawn(self.main)

    def main(self):
        sim = self.sim
        # what is local to a thread is local to a task of cothread
        asyncio.set_event_loop(self)
        while True:
            if not self.queue:
                self.event.Wait()
            if self.delay:
                d = sim.uniform("tornado", 0.0, self.delay)
                if d > self.delay / 4:
                    cothread.Sleep(d)
            n = len(self.queue)
            for _ in range(n):
                h = self.queue.pop(0)
                if not h._cancelled:
                    # logs exceptions through call_exception_handler
                    h._run()
            if self.queue:
                cothread.Yield()

    def call_soon(self, callback, *args, context=None):
        h = asyncio.Handle(callback, args, self, context)
        self.queue.append(h)
        self.event.Signal()
        return h

    call_soon_threadsafe = call_soon

    def call_later(self, delay, callback, *args, context=None):
        return self.call_at(self.time() + delay, callback, *args, context=context)

    def call_at(self, when, callback, *args, context=None):
        h = asyncio.TimerHandle(when, callback, args, self, context)

        def due():
            if not h._cancelled:
                self.queue.append(h)
                self.event.Signal()

        self.sim.at(when, due)
        return h

    def _timer_handle_cancelled(self, handle):
        pass

    def time(self):
        return self.sim.t

    def create_future(self):
        return asyncio.Future(loop=self)

    def create_task(self, coro, **kwargs):
        return asyncio.Task(coro, loop=self, **kwargs)

    def get_debug(self):
        return False

    def is_running(self):
        return True

    def is_closed(self):
        return False

    def call_exception_handler(self, context):
        e = context.get("exception")
        if isinstance(e, SimStop):
            raise e
        self.errors.append(repr(e))
        self.sim.log("TORNADO-EXC", repr(e)[:200])


class Link:
    """One websocket connection"""

    def __init__(self, net, n, ip):
        self.net = net
        self.sim = net.sim
        self.n = n
        self.ip = ip
        self.port = None
        self.remote = False  # opened by a client comms
        self.broken = False
        self.server_gone = False  # server end knows it is closed
        self.client_gone = False
        self.last = {"up": 0.0, "down": 0.0}
        self.handler = None
        self.client_recv = None  # func(message or None)
        self.t_broken = None
        self.dead_writes = 0  # what the server tried to send after the end

    def _send(self, way, deliver, message):
        sim = self.sim
        d = self.net.latency(f"net{self.n}{way}")
        when = max(self.last[way], sim.t + d)
        self.last[way] = when

        def arrive():
            # broken links lose what is in flight
            if not self.broken:
                deliver(message)

        if when <= sim.t:
            when = sim.t
        q = self.net.deliveries.setdefault((self.n, way), Pipe(sim))
        q.put(when, arrive)

    # client end
    def client_write(self, message):
        from tornado.websocket import WebSocketClosedError

        if self.client_gone:
            raise WebSocketClosedError()
        if not self.broken:
            self._send("up", self.to_server, message)

    def to_server(self, message):
        if not self.server_gone:
            self.net.loop.call_soon(self.handler_message, message)

    def handler_message(self, message):
        if self.server_gone:
            return
        try:
            self.handler.on_message(message)
        except SimStop:
            raise
        except Exception as e:
            # tornado logs it and aborts the connection
            self.sim.log("HANDLER-EXC", repr(e)[:200])
            self.net.handler_errors.append(repr(e))
            self.drop("handler raised")

    # server end
    def server_write(self, message, binary=False):
        from tornado.websocket import WebSocketClosedError

        if self.server_gone:
            self.dead_writes += 1
            raise WebSocketClosedError()
        if isinstance(message, bytes):
            message = message.decode()
        if not self.broken:
            self._send("down", self.to_client, message)

    def to_client(self, message):
        if not self.client_gone:
            self.client_recv(message)

    # ends
    def close_by_client(self):
        """Orderly close: what was sent before still arrives"""
        if self.client_gone:
            return
        self.client_gone = True
        if not self.broken:
            self._send("up", self._closed_at_server, None)
        # the answer to the close comes back a while later
        self.sim.at(self.sim.t + self.net.latency(f"net{self.n}cl") * 2,
                    self.net.loop.call_soon, self.client_recv, None)

    def _closed_at_server(self, _):
        self.notice_server()
        self.broken = True

    def notice_server(self):
        if not self.server_gone:
            self.server_gone = True
            self.sim.log("closed at server", self.n)
            self.net.loop.call_soon(self._on_close)

    def _on_close(self):
        self.handler.ws_connection = None
        self.handler.on_close()

    def notice_client(self):
        if not self.client_gone:
            self.client_gone = True
            self.sim.log("closed at client", self.n)
            self.net.loop.call_soon(self.client_recv, None)

    def drop(self, why):
        """The network breaks the connection"""
        sim = self.sim
        if self.broken:
            return
        self.broken = True
        self.t_broken = sim.t
        sim.fault("disconnect", self.n, why)
        a = sim.uniform(f"notice{self.n}s", 0.0, self.net.notice)
        b = sim.uniform(f"notice{self.n}c", 0.0, self.net.notice)
        sim.at(sim.t + a, self.notice_server)
        sim.at(sim.t + b, self.notice_client)


class Pipe:
    """Deliveries in order, each not before its time"""

    def __init__(self, sim):
        self.sim = sim
        self.q = []
        self.event = cothread.Event()
        sim.spawn(self.main)

    def put(self, when, func):
        self.q.append((when, func))
        self.event.Signal()

    def main(self):
        while True:
            if not self.q:
                self.event.Wait()
            while self.q:
                when, func = self.q.pop(0)
                d = when - self.sim.t
                if d > 0:
                    cothread.Sleep(d)
                func()


class ClientConn:
    """What websocket_connect gives"""

    def __init__(self, link):
        self.link = link
        self.inbox = []
        self.waiting = None
        link.client_recv = self.recv

    def recv(self, message):
        if self.waiting is not None and not self.waiting.done():
            f, self.waiting = self.waiting, None
            f.set_result(message)
        else:
            self.inbox.append(message)

    def read_message(self, callback=None):
        f = self.link.net.loop.create_future()
        if self.inbox:
            f.set_result(self.inbox.pop(0))
        else:
            self.waiting = f
        return f

    def write_message(self, message, binary=False):
        self.link.client_write(message)

    def close(self, code=None, reason=None):
        self.link.close_by_client()


class RawClient:
    """A client that speaks JSON itself"""

    def __init__(self, net, port, ip):
        self.link = net.open(port, ip)
        self.got = []
        self.closed = False
        self.link.client_recv = self.recv
        self.on_message = None

    def recv(self, message):
        if message is None:
            self.closed = True
        else:
            self.got.append(message)
            if self.on_message:
                self.on_message(message)

    def send(self, message):
        self.link.client_write(message)


class RestConn:
    """The HTTP connection a handler writes its answer to"""

    def __init__(self, net, answer):
        self.net = net
        self.answer = answer
        self.status = None
        self.body = b""
        self.no_keep_alive = False
        self.context = SimpleNamespace(remote_ip="127.0.0.1", protocol="http")

    def set_close_callback(self, cb):
        pass

    def _done(self):
        f = self.net.loop.create_future()
        f.set_result(None)
        return f

    def write_headers(self, start_line, headers, chunk=None, callback=None):
        if "\n" in start_line.reason:
            raise ValueError("Newline in header")  # as HTTP1Connection does
        self.status = (start_line.code, start_line.reason)
        if chunk:
            self.body += chunk
        return self._done()

    def write(self, chunk, callback=None):
        self.body += chunk
        return self._done()

    def finish(self):
        self.net.sim.at(self.net.sim.t + self.net.latency("restdown"), self.answer,
                        self.status[0], self.status[1], self.body.decode())


class WebNet:
    """Ports, connections, and the tornado loop they are served by"""

    def __init__(self, sim, cfg):
        self.sim = sim
        self.lat = cfg["latency"]
        self.slow_p = cfg["slow_p"]
        self.slow = cfg["slow_s"]
        self.notice = cfg["notice"]
        self.ports = {}  # port -> handlers
        self.links = []
        self.deliveries = {}
        self.handler_errors = []
        self.loop = SimLoop(sim, cfg["tornado"])

    def latency(self, key):
        d = self.sim.uniform(key, 0.0, self.lat)
        if self.slow_p and self.sim.chance(key + ".slow", self.slow_p):
            self.sim.fault("slow_message", key)
            d += self.sim.uniform(key + ".slows", 0.0, self.slow)
        return d

    def open(self, port, ip, path="/ws"):
        handlers = self.ports.get(port)
        if handlers is None:
            raise ConnectionRefusedError(f"port {port}")
        for spec in handlers:
            regexp, cls, kwargs = spec
            if regexp == path:
                break
        else:
            raise ConnectionRefusedError(path)
        link = Link(self, len(self.links), ip)
        link.port = port
        self.links.append(link)
        h = cls.__new__(cls)
        h.request = SimpleNamespace(remote_ip=ip, headers={}, host="sim", path=path)
        h.ws_connection = link
        h.write_message = link.server_write
        h.close = lambda *a, **k: link.drop("closed by server")
        h.initialize(**kwargs)
        link.handler = h
        self.sim.log("connected", link.n, port)
        return link

    def rest(self, port, method, path, body, answer):
        """A plain HTTP request, handled by the real tornado handler;
        answer(status, reason, body) is called once it is answered"""
        import tornado.web
        from tornado.httputil import HTTPHeaders, HTTPServerRequest

        handlers = self.ports.get(port)
        if handlers is None:
            raise ConnectionRefusedError(f"port {port}")
        for regexp, cls, kwargs in handlers:
            m = re.fullmatch(regexp, path)
            if m:
                break
        else:
            raise ConnectionRefusedError(path)
        conn = RestConn(self, answer)
        request = HTTPServerRequest(
            method=method, uri=path, version="HTTP/1.1", headers=HTTPHeaders(),
            body=body.encode(), host="sim", connection=conn)
        app = self.app

        def serve():
            h = cls(app, request, **kwargs)
            return h._execute([], *[g.encode() for g in m.groups()])

        self.sim.at(self.sim.t + self.latency("rest"), self.ioloop.add_callback, serve)

    def server_dies(self, port):
        """Nobody listens any more, all connections break"""
        self.ports.pop(port, None)

    def install(self):
        import tornado.httpserver
        import tornado.web
        import tornado.websocket
        from malcolm.modules.web import util
        from malcolm.modules.web.controllers import httpservercomms, websocketclientcomms
        from tornado.ioloop import IOLoop

        net = self
        sim = self.sim
        asyncio.set_event_loop(self.loop)
        ioloop = self.ioloop = IOLoop.current()
        self.app = tornado.web.Application([], log_function=lambda handler: None)
        helper = util.IOLoopHelper
        helper._loop = ioloop
        helper.loop = classmethod(lambda cls: ioloop)
        helper.stop = classmethod(lambda cls: None)

        class FakeApplication:
            def __init__(self, handlers=None, *args, **kwargs):
                self.handlers = list(handlers or ())

        class FakeServer:
            def __init__(self, app, *args, **kwargs):
                self.app = app
                self.port = None

            def listen(self, port, *args, **kwargs):
                self.port = port
                net.ports[port] = self.app.handlers
                sim.log("listening", port)

            def stop(self):
                # stops listening: open connections go on
                net.ports.pop(self.port, None)
                sim.log("not listening", self.port)

        def connect(url, callback=None, connect_timeout=None, **kwargs):
            f = net.loop.create_future()
            port = int(url.rsplit(":", 1)[1].split("/")[0])

            def done():
                if f.done():
                    return
                try:
                    link = net.open(port, "127.0.0.1")
                except ConnectionRefusedError as e:
                    sim.fault("connection_refused", port)
                    net.loop.call_soon(set_exc, e)
                else:
                    link.remote = True
                    conn = ClientConn(link)
                    net.loop.call_soon(set_res, conn)

            def set_res(conn):
                if not f.done():
                    f.set_result(conn)

            def set_exc(e):
                if not f.done():
                    f.set_exception(e)

            d = net.latency("connect")
            if connect_timeout is not None and d > connect_timeout:
                sim.at(sim.t + connect_timeout, net.loop.call_soon, set_exc,
                       TimeoutError("connect"))
            else:
                sim.at(sim.t + d, done)
            return f

        for mod in (tornado.web, httpservercomms):
            mod.Application = FakeApplication
        for mod in (tornado.httpserver, httpservercomms):
            mod.HTTPServer = FakeServer
        for mod in (tornado.websocket, websocketclientcomms):
            mod.websocket_connect = connect
        return self


SUBNETS = {"lo": ("127.0.0.1", "255.0.0.0"),
           "eth0": ("192.168.1.10", "255.255.255.0"),
           "eth1": ("10.2.0.1", "255.255.0.0"),
           "down0": ("172.16.0.1", "255.255.0.0"),
           "bad0": None}


def install_interfaces():
    """Network interfaces: two up, one down, one without an address"""
    net = "/sys/class/net"
    real_listdir, real_open, real_ioctl = os.listdir, builtins.open, fcntl.ioctl

    def listdir(path="."):
        if path == net:
            return list(SUBNETS)
        return real_listdir(path)

    def fake_open(path, *args, **kwargs):
        if isinstance(path, str) and path.startswith(net + "/"):
            name = path.split("/")[4]
            return io.StringIO("down\n" if name == "down0" else "up\n")
        return real_open(path, *args, **kwargs)

    def ioctl(fd, sig, arg=0, *rest):
        if sig in (0x8915, 0x891B) and isinstance(arg, bytes):
            name = arg.rstrip(b"\0").decode()
            info = SUBNETS.get(name)
            if info is None:
                raise OSError(99, "Cannot assign requested address")
            addr = info[0 if sig == 0x8915 else 1]
            packed = bytes(int(x) for x in addr.split("."))
            return arg[:20] + packed + arg[24:]
        return real_ioctl(fd, sig, arg, *rest)

    os.listdir, builtins.open, fcntl.ioctl = listdir, fake_open, ioctl


def in_subnet(ip):
    """Whether a client at ip may write"""
    if ip == "::1":
        ip = "127.0.0.1"
    a = struct.unpack("!I", bytes(int(x) for x in ip.split(".")))[0]
    for name in ("lo", "eth0", "eth1"):
        addr, mask = (struct.unpack("!I", bytes(int(x) for x in s.split(".")))[0]
                      for s in SUBNETS[name])
        if a & mask == addr & mask:
            return True
    return False
