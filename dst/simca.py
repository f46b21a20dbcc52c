"""A simulated IOC and the part of cothread.catools that talks to it.

The IOC has records.  The client has one virtual circuit to it: an ordered
stream each way.  Puts are processed by the record, which takes a while and may
change what was asked for; reads are answered, and changes posted, in order.
The client side does what cothread.catools does: monitor updates are merged,
passed on by one task of their own, and a callback that raises closes its
monitor.  A connection is lost at once or noticed late, and comes back by
itself when the IOC does.
"""
import sys
import traceback
import types

import cothread
import numpy as np

ECA = {1: "Normal successful completion", 80: "User specified timeout on IO operation "
       "expired", 192: "Virtual circuit disconnect", 160: "Channel write request failed"}
NORMAL, TIMEOUT, DISCONN, PUTFAIL = 1, 80, 192, 160
EPICS_BASE = 1600000000


class ca_nothing(Exception):
    def __init__(self, name, errorcode=NORMAL):
        self.ok = errorcode == NORMAL
        self.name = name
        self.errorcode = errorcode

    def __repr__(self):
        return "ca_nothing(%r, %d)" % (self.name, self.errorcode)

    def __str__(self):
        return "%s: %s" % (self.name, ECA[self.errorcode])

    def __bool__(self):
        return self.ok

    def __iter__(self):
        raise TypeError("iteration over non-sequence")


class ca_str(str):
    pass


class ca_int(int):
    pass


class ca_float(float):
    pass


class ca_array(np.ndarray):
    pass


def augmented(value, datatype):
    if isinstance(value, (list, tuple)):
        kind = np.int32 if datatype == Catools.DBR_LONG else np.float64
        return np.array(value, kind).view(ca_array)
    if isinstance(value, str):
        return ca_str(value)
    if isinstance(value, int):
        return ca_int(value)
    return ca_float(value)


class Record:
    """One process variable"""

    def __init__(self, ioc, name, value, **ctrl):
        self.ioc = ioc
        self.name = name
        self.value = value
        self.severity = 0
        self.stamp = (EPICS_BASE, 1)
        self.ctrl = ctrl
        self.puts = []  # [seq, value, status, seq of the answer] of every put
        self.history = []  # (seq, value, severity, stamp, time)
        self.pending = []  # puts being processed, one at a time
        self.process = None
        self.post()

    def post(self):
        sim = self.ioc.sim
        t = sim.t
        stamp = (EPICS_BASE + int(t), int((t % 1) * 1e9))
        if stamp <= self.stamp:
            stamp = (self.stamp[0], self.stamp[1] + 1)
        self.stamp = stamp
        seq = sim.log("pv", self.name, self.value, self.severity)
        self.history.append((seq, self.value, self.severity, self.stamp, t))
        self.ioc.posted(self)

    def set(self, value=None, severity=None):
        if value is not None:
            self.value = value
        if severity is not None:
            self.severity = severity
        self.post()

    def put(self, value, answer):
        """A write arrives; it waits for those before it"""
        seq = self.ioc.sim.log("pv put", self.name, value)
        rec = [seq, value, None, None]
        self.puts.append(rec)

        def done(status):
            if self.pending and self.pending[0] is entry:
                rec[2] = status
                rec[3] = self.ioc.sim.log("pv done", self.name, status)
                self.pending.pop(0)
                answer(status)
                if self.pending:
                    self.pending[0][0](self.pending[0][1])

        def begin(d):
            if self.process:
                self.process(value, d)
            else:
                self.set(value)
                d(NORMAL)

        entry = (begin, done)
        self.pending.append(entry)
        if len(self.pending) == 1:
            begin(done)


class Ioc:
    def __init__(self, sim, cfg):
        self.sim = sim
        self.cfg = cfg
        self.records = {}
        self.running = True
        self.boot = 0
        self.circuit = None

    def record(self, name, value, **ctrl):
        r = self.records[name] = Record(self, name, value, **ctrl)
        return r

    def posted(self, record):
        c = self.circuit
        if c and self.running:
            c.changed(record)

    def stop(self, notice=0.0):
        """The IOC goes away; clients notice after a while"""
        if not self.running:
            return
        self.sim.fault("ioc_down", round(notice, 3))
        self.running = False
        for r in self.records.values():
            r.pending = []
        if self.circuit:
            self.circuit.lose(notice)

    def start(self):
        if self.running:
            return
        self.sim.fault("ioc_up")
        self.running = True
        self.boot += 1
        if self.circuit:
            if self.circuit.losing:
                # what is left of the old circuit is reset
                self.circuit.losing()
            else:
                self.circuit.find()


class Circuit:
    """The client's connection: an ordered stream each way"""

    def __init__(self, catools, ioc):
        self.sim = ioc.sim
        self.ioc = ioc
        self.catools = catools
        ioc.circuit = self
        self.epoch = 0  # of the connection
        self.connected = False  # as the client sees it
        self.event = cothread.Pulse()
        self.waiting = {}  # n -> done(status, value) of what is outstanding
        self.n = 0
        self.subs = []
        self.losing = None
        self.up, self.down = cothread.EventQueue(), cothread.EventQueue()
        self.sim.spawn(self.pump, self.up)
        self.sim.spawn(self.pump, self.down)
        self.find()

    def latency(self, key):
        d = self.sim.uniform(key, 0.0, self.ioc.cfg["latency"])
        p = self.ioc.cfg["slow_p"]
        if p and self.sim.chance(key + ".slow", p):
            self.sim.fault("slow_message", key)
            d += self.sim.uniform(key + ".slows", 0.0, self.ioc.cfg["slow_s"])
        return d

    def pump(self, queue):
        """One direction: everything arrives in order"""
        while True:
            when, epoch, to_ioc, func, args = queue.Wait()
            d = when - self.sim.t
            if d > 0:
                cothread.Sleep(d)
            if self.epoch == epoch and (self.ioc.running or not to_ioc):
                func(*args)

    def send(self, func, *args):
        """To the IOC, in order"""
        when = self.sim.t + self.latency("ca.up")
        self.up.Signal((when, self.epoch, True, func, args))

    def reply(self, func, *args):
        """To the client, in order"""
        when = self.sim.t + self.latency("ca.down")
        self.down.Signal((when, self.epoch, False, func, args))

    # ---- connection ----
    def lose(self, notice):
        epoch = self.epoch

        def noticed():
            if self.epoch != epoch:
                return
            self.epoch += 1
            self.losing = None
            self.connected = False
            self.sim.log("ca disconnected")
            waiting, self.waiting = self.waiting, {}
            for done in waiting.values():
                done(DISCONN, None)
            for s in self.subs:
                s.disconnected()
            if self.ioc.running:
                self.find()

        self.losing = noticed
        self.sim.at(self.sim.t + notice, noticed)

    def find(self):
        """Search for the IOC, as a client does all the time"""
        epoch = self.epoch

        def found():
            if self.epoch != epoch or self.connected or not self.ioc.running:
                return
            self.connected = True
            self.sim.log("ca connected")
            self.event.Signal()
            for s in self.subs:
                s.connected()

        self.sim.at(self.sim.t + self.ioc.cfg["search"] + self.latency("ca.search"), found)

    def wait_connected(self, name, deadline):
        while not self.connected or name not in self.ioc.records:
            left = None if deadline is None else deadline - self.sim.t
            if left is not None and left <= 0:
                raise ca_nothing(name, TIMEOUT)
            try:
                self.event.Wait(left)
            except cothread.Timedout:
                raise ca_nothing(name, TIMEOUT)

    # ---- requests ----
    def request(self, name, deadline, func):
        """func(answer) is run by the IOC; answer(status, value) replies"""
        done = cothread.Event()
        self.n += 1
        n = self.n

        def complete(status, value):
            if status == NORMAL:
                cothread.Callback(done.Signal, value)
            else:
                cothread.Callback(done.SignalException, ca_nothing(name, status))

        def finish(status, value):
            f = self.waiting.pop(n, None)
            if f:
                f(status, value)

        self.waiting[n] = complete
        self.send(func, lambda status, value=None: self.reply(finish, status, value))
        left = None if deadline is None else max(deadline - self.sim.t, 0)
        try:
            return done.Wait(left)
        except cothread.Timedout:
            raise ca_nothing(name, TIMEOUT)

    def changed(self, record):
        for s in list(self.subs):
            if s.name == record.name and s.live:
                s.post(record)


class Subscription:
    """Like cothread.catools._Subscription"""

    def __init__(self, catools, name, callback, datatype, format, notify_disconnect,
                 args=()):
        self.catools = catools
        self.circuit = catools.circuit
        self.sim = catools.sim
        self.name = name
        self.callback = callback
        self.args = args
        self.datatype = datatype
        self.format = format
        self.notify = notify_disconnect
        self.value = None
        self.count = 0
        self.closed = False
        self.live = False  # the IOC knows about it
        self.circuit.subs.append(self)
        if self.circuit.connected:
            self.connected()

    def connected(self):
        epoch = self.circuit.epoch

        def create():
            if not self.closed and self.name in self.circuit.ioc.records and not (
                    self.live == epoch + 1):
                self.live = epoch + 1
                self.post(self.circuit.ioc.records[self.name])

        self.circuit.send(create)

    def disconnected(self):
        self.live = False
        if self.notify:
            self.signal(ca_nothing(self.name, DISCONN))

    def post(self, record):
        if self.live == self.circuit.epoch + 1:
            v = self.catools.read(record, self.datatype, self.format)
            self.circuit.reply(self.signal, v)

    def signal(self, value):
        if self.closed:
            return
        self.value = value
        if self.count == 0:
            self.catools.queue.Signal(self)
        self.count += 1

    def deliver(self):
        if self.closed:
            return
        value, self.value = self.value, None
        value.update_count = self.count
        self.count = 0
        try:
            self.callback(value, *self.args)
        except Exception:
            self.sim.log("MONITOR-EXC", self.name,
                         traceback.format_exc().splitlines()[-1])
            self.sim.probe("monitor_exception")
            self.close()

    def close(self):
        self.closed = True
        self.live = False
        if self in self.circuit.subs:
            self.circuit.subs.remove(self)
        self.callback = None


class Catools(types.ModuleType):
    DBR_STRING, DBR_SHORT, DBR_FLOAT, DBR_ENUM, DBR_CHAR, DBR_LONG, DBR_DOUBLE = range(7)
    DBR_CHAR_STR = 999
    FORMAT_RAW, FORMAT_TIME, FORMAT_CTRL = range(3)
    ca_nothing = ca_nothing

    def __init__(self, sim, cfg):
        super().__init__("cothread.catools")
        self.sim = sim
        self.ioc = Ioc(sim, cfg)
        self.circuit = Circuit(self, self.ioc)
        self.queue = cothread.EventQueue()
        sim.spawn(self.monitor_task)
        self.subs = []

    def install(self):
        sys.modules["cothread.catools"] = self
        cothread.catools = self
        return self

    def monitor_task(self):
        while True:
            sub = self.queue.Wait()
            sub.deliver()

    def read(self, record, datatype, format):
        value = record.value
        if datatype == self.DBR_STRING and not isinstance(value, str):
            enums = record.ctrl.get("enums")
            value = enums[value] if enums else str(value)
        v = augmented(value, datatype)
        v.ok = True
        v.name = record.name
        if format == self.FORMAT_TIME or (format == self.FORMAT_CTRL
                                          and isinstance(value, str)):
            v.status = 0
            v.severity = record.severity
            v.raw_stamp = record.stamp
        elif format == self.FORMAT_CTRL:
            v.status = 0
            v.severity = record.severity
            if "enums" in record.ctrl and datatype == self.DBR_ENUM:
                v.enums = list(record.ctrl["enums"])
            else:
                for k in ("upper_disp_limit", "lower_disp_limit", "precision", "units"):
                    setattr(v, k, record.ctrl.get(k, "" if k == "units" else 0))
        return v

    def _one(self, func, throw):
        if throw:
            return func()
        try:
            return func()
        except ca_nothing as e:
            return e

    def caget(self, pvs, timeout=5, datatype=None, format=0, count=0, throw=True):
        def one(pv):
            deadline = None if timeout is None else self.sim.t + timeout
            self.circuit.wait_connected(pv, deadline)

            def serve(answer):
                answer(NORMAL, self.read(self.ioc.records[pv], datatype, format))

            return self.circuit.request(pv, deadline, serve)

        if isinstance(pvs, str):
            return self._one(lambda: one(pvs), throw)
        return cothread.WaitForAll([
            cothread.Spawn(self._one, lambda pv=pv: one(pv), throw, raise_on_wait=True)
            for pv in pvs])

    def caput(self, pv, value, datatype=None, wait=False, timeout=5, throw=True):
        if datatype in (self.DBR_STRING, self.DBR_CHAR_STR):
            value = str(value)
        elif hasattr(value, "__len__"):
            value = [x.item() if hasattr(x, "item") else x for x in value]
        elif datatype in (self.DBR_LONG, self.DBR_ENUM, self.DBR_SHORT):
            value = int(value)
        elif datatype == self.DBR_DOUBLE:
            value = float(value)
        if isinstance(value, np.generic):
            value = value.item()

        def one():
            deadline = None if timeout is None else self.sim.t + timeout
            self.circuit.wait_connected(pv, deadline)
            record = self.ioc.records[pv]

            def serve(answer):
                record.put(value, answer)

            if wait:
                self.circuit.request(pv, deadline, serve)
            else:
                self.circuit.send(serve, lambda *args: None)
            return ca_nothing(pv)

        return self._one(one, throw)

    def camonitor(self, pvs, callback, events=None, datatype=None, format=0, count=0,
                  all_updates=False, notify_disconnect=False, connect_timeout=None):
        if isinstance(pvs, str):
            return Subscription(self, pvs, callback, datatype, format, notify_disconnect)
        return [Subscription(self, pv, callback, datatype, format, notify_disconnect, (n,))
                for n, pv in enumerate(pvs)]

    def connect(self, pvs, **kwargs):
        raise NotImplementedError
