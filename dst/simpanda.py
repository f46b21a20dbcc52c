"""A simulated PandA: the device, its TCP server, and the socket to it.

The device keeps the true value of every field and knows which of them have
changed since a connection last asked.  The server answers the lines of one
connection one after the other.  The stream between is ordered; it is cut into
pieces anywhere, delayed, and can break.
"""
import cothread

CAPTURE = ["No", "Value", "Diff", "Sum", "Mean", "Min", "Max", "Min Max",
           "Min Max Mean"]
TIME = {"min": 60.0, "s": 1.0, "ms": 1e-3, "us": 1e-6}

#: block -> (number, [(field, type, subtype)])
BLOCKS = {
    "TTLIN": (2, [("TERM", "param", "enum"), ("VAL", "bit_out", "")]),
    "COUNTER": (1, [("ENABLE", "bit_mux", ""), ("START", "param", "int"),
                    ("STEP", "param", "uint"), ("OUT", "pos_out", ""),
                    ("CARRY", "bit_out", "")]),
    "INENC": (1, [("VAL", "pos_out", ""), ("HOMED", "read", "bit"),
                  ("INP", "pos_mux", "")]),
    "PULSE": (2, [("TRIG", "bit_mux", ""), ("DELAY", "time", ""),
                  ("OUT", "bit_out", ""), ("QUEUED", "read", "uint"),
                  ("FORCE", "param", "bit")]),
    "SEQ": (1, [("PRESCALE", "time", ""), ("TABLE", "table", ""),
                ("SCALE", "param", "scalar")]),
    "SRGATE": (1, [("FORCE_SET", "write", "action"), ("OUT", "bit_out", ""),
                   ("ENABLE", "bit_mux", "")]),
    "PCAP": (1, [("ACTIVE", "bit_out", ""), ("TS_START", "ext_out", "timestamp"),
                 ("BITS0", "ext_out", "bits"), ("BITS1", "ext_out", "bits"),
                 ("HEALTH", "read", "enum")]),
}
#: field -> its choices
ENUMS = {"TERM": ["High-Z", "50-Ohm"], "HEALTH": ["OK", "Overrun", "Stalled"],
         "TS_START.CAPTURE": ["No", "Value"]}
#: the columns of SEQ.TABLE: (name, hi, lo, type, labels)
COLUMNS = [("REPEATS", 15, 0, "uint", None),
           ("TRIGGER", 19, 16, "enum", ["Immediate", "BITA=0", "BITA=1"]),
           ("OUTA1", 20, 20, "uint", None),
           ("TINY", 23, 21, "int", None),
           ("SMALL", 31, 24, "int", None),
           ("POSITION", 63, 32, "int", None),
           ("TIME1", 95, 64, "uint", None)]


def instances():
    """[(full block name, block, fields)]"""
    out = []
    for name, (n, fields) in BLOCKS.items():
        if n == 1:
            out.append((name, name, fields))
        else:
            out += [(f"{name}{i + 1}", name, fields) for i in range(n)]
    return out


def all_fields():
    return [(b, f, t, s) for b, _, fields in instances() for f, t, s in fields]


BIT_NAMES = [f"{b}.{f}" for b, f, t, _ in all_fields() if t == "bit_out"]
POS_NAMES = [f"{b}.{f}" for b, f, t, _ in all_fields() if t == "pos_out"]
BITS = {"PCAP.BITS0": BIT_NAMES[:4] + [""], "PCAP.BITS1": [""] + BIT_NAMES[4:]}


class Device:
    """The true state"""

    def __init__(self, sim):
        self.sim = sim
        self.values = {}  # full field -> value as the server writes it
        self.times = {}  # full time field -> seconds
        self.history = {}  # full field -> [(seq, value)]
        self.stamp = {}  # full field -> when it last changed
        self.n = 0
        self.commands = []  # (seq, line) of everything that sets something
        self.refuse = {}  # (field, value) -> error text
        for b, f, t, s in all_fields():
            k = f"{b}.{f}"
            if t in ("bit_mux",):
                self.set(k, "ZERO")
                self.set(k + ".DELAY", "0")
            elif t == "pos_mux":
                self.set(k, "ZERO")
            elif t == "bit_out":
                self.set(k, "0")
            elif t == "pos_out":
                self.set(k, "0")
                self.set(k + ".CAPTURE", "No")
                self.set(k + ".UNITS", "")
                self.set(k + ".SCALE", "1")
                self.set(k + ".OFFSET", "0")
            elif t == "time":
                self.times[k] = 0.0
                self.set(k + ".UNITS", "s")
                self.set(k, "0")
            elif t == "ext_out":
                self.set(k + ".CAPTURE", "No")
            elif t == "table":
                self.set(k, ())
            elif t == "write":
                pass
            elif f == "HEALTH":
                self.set(k, "OK")
            elif s == "enum":
                self.set(k, ENUMS[f][0])
            else:
                self.set(k, "0")
        for b, block, _ in instances():
            n = b if b != block else b + "1"
            self.set(f"*METADATA.LABEL_{n}", "")
        self.set("*METADATA.LAYOUT", ())

    def set(self, k, v):
        self.n += 1
        self.values[k] = v
        self.stamp[k] = self.n
        self.history.setdefault(k, []).append((self.sim.stamp(), v))

    def set_time(self, k, text):
        self.times[k] = float(text) * TIME[self.values[k + ".UNITS"]]
        self.set(k, fmt(self.times[k] / TIME[self.values[k + ".UNITS"]]))

    def set_units(self, k, units):
        """k.UNITS: what the time reads as changes with it"""
        self.set(k + ".UNITS", units)
        self.set(k, fmt(self.times[k] / TIME[units]))

    def command(self, k, text):
        """k=text from the connection; the answer"""
        self.commands.append((self.sim.log("device", k, text), k, text))
        why = self.refuse.get((k, text))
        if why:
            self.sim.fault("device_refuses", k)
            return f"ERR {why}"
        if k in ("*PCAP.ARM", "*PCAP.DISARM"):
            self.set("PCAP.ACTIVE", "1" if k == "*PCAP.ARM" else "0")
            return "OK"
        if k.endswith(".FORCE_SET"):
            self.set(k.split(".")[0] + ".OUT", "1")
            return "OK"
        if k not in self.values:
            return "ERR No such field"
        if k in self.times:
            self.set_time(k, text)
        elif k.endswith(".UNITS") and k[:-6] in self.times:
            self.set_units(k[:-6], text)
        elif k.endswith((".SCALE", ".OFFSET")):
            self.set(k, fmt(float(text)))
        else:
            self.set(k, text)
        return "OK"


def fmt(x):
    x = float(f"{float(x):.12g}")
    return repr(int(x)) if x == int(x) else repr(x)


def multi(lines):
    return "".join(f"!{x}\n" for x in lines) + ".\n"


class Connection:
    """The server's end of one connection"""

    def __init__(self, server):
        self.server = server
        self.sim = server.sim
        self.device = server.device
        self.asked = 0  # changes up to this have been reported
        self.buf = ""
        self.table = None
        self.polls = []  # (n asked before, n asked after)

    def feed(self, text):
        """Bytes from the client; yields the answers"""
        self.buf += text
        while "\n" in self.buf:
            line, self.buf = self.buf.split("\n", 1)
            if self.table is not None:
                if line:
                    self.table[1].append(line)
                    continue
                k, rows = self.table
                self.table = None
                self.device.commands.append(
                    (self.sim.log("device", k, rows), k, tuple(rows)))
                why = self.device.refuse.get((k, tuple(rows)))
                if why:
                    self.sim.fault("device_refuses", k)
                    yield f"ERR {why}\n"
                else:
                    self.device.set(k, tuple(rows))
                    yield "OK\n"
            elif line.endswith("<"):
                self.table = (line[:-1], [])
            else:
                yield self.answer(line)

    def answer(self, line):
        d = self.device
        if "=" in line:
            return d.command(*line.split("=", 1)) + "\n"
        if line == "*BLOCKS?":
            return multi(f"{k} {n}" for k, (n, _) in BLOCKS.items())
        if line == "*CHANGES?":
            return self.changes()
        if line.startswith("*DESC."):
            return f"OK =About {line[6:-1]}\n"
        if line.startswith("*ENUMS."):
            return self.enums(line[7:-1])
        if line.endswith(".*?"):
            return multi(f"{f} {i} {t} {s}".rstrip() for i, (f, t, s) in
                         enumerate(BLOCKS[line[:-3]][1]))
        if line.endswith(".BITS?"):
            return multi(BITS[line[:-6]])
        if line.endswith(".FIELDS?"):
            return multi(f"{hi}:{lo} {name} {typ}" for name, hi, lo, typ, _ in COLUMNS)
        k = line[:-1]
        if k in d.values:
            v = d.values[k]
            if isinstance(v, tuple):
                return multi(v)
            return f"OK ={v}\n"
        return "ERR No such field\n"

    def enums(self, what):
        field = what.split(".", 1)[1]
        if "[]" in what:
            name = what.split("[].")[1]
            return multi(next(c[4] for c in COLUMNS if c[0] == name))
        if field in ENUMS:
            return multi(ENUMS[field])
        for b, (_, fields) in BLOCKS.items():
            if b == what.split(".")[0]:
                t = {f: t for f, t, _ in fields}[field.split(".")[0]]
        if t == "bit_mux":
            return multi(["ONE", "ZERO"] + BIT_NAMES)
        if t == "pos_mux":
            return multi(["ZERO"] + POS_NAMES)
        return multi(["No", "Value"])

    def changes(self):
        d = self.device
        lines = []
        changed = []
        for k, n in d.stamp.items():
            if n > self.asked:
                v = d.values[k]
                changed.append(k)
                if isinstance(v, tuple):
                    lines.append(f"{k}<")
                else:
                    lines.append(f"{k}={v}")
        self.asked = d.n
        self.server.reported(changed)
        return multi(lines)


class Server:
    """Listens, and makes connections"""

    def __init__(self, sim, device, cfg):
        self.sim = sim
        self.device = device
        self.cfg = cfg
        self.up = True
        self.sockets = []
        self.stalled_until = 0.0
        self.on_changes = None
        self.slow_on = False
        self.torn = None  # how to break the connection within an answer

    def tear(self, how, wait=3.0):
        """Break the connection in the middle of the next answer of many lines"""
        self.torn = how

        def late():
            if self.torn == how:
                self.torn = None
                self.drop(how)

        self.sim.at(self.sim.t + wait, late)

    def reported(self, changed):
        if self.on_changes:
            self.on_changes(changed)

    def latency(self, key):
        d = self.sim.uniform(key, 0.0, self.cfg["latency"])
        if self.slow_on and self.cfg["slow_p"] and self.sim.chance(key + ".slow", self.cfg["slow_p"]):
            self.sim.fault("slow_message", key)
            d += self.sim.uniform(key + ".slows", 0.0, self.cfg["slow_s"])
        return d

    def socket(self, *args, **kwargs):
        return Socket(self)

    def drop(self, how):
        """Break every connection"""
        for s in self.sockets:
            s.drop(how)


class Socket:
    """What the client has"""

    def __init__(self, server):
        self.server = server
        self.sim = server.sim
        self.n = len(server.sockets)
        self.inbox = []  # pieces of bytes, b"" is the end, or an exception
        self.event = cothread.Event()
        self.conn = None
        self.broken = None  # None, "eof", "error" or "silent"
        self.shut = False
        self.closed = False
        self.up = []  # (when, text) to the server
        self.up_event = cothread.Event()
        self.last_down = 0.0

    def connect(self, address):
        d = self.server.latency("connect")
        if d:
            cothread.Sleep(d)
        if not self.server.up:
            self.sim.fault("connection_refused")
            raise ConnectionRefusedError(111, "Connection refused")
        self.server.sockets.append(self)
        self.conn = Connection(self.server)
        self.sim.log("panda connected", self.n)
        self.sim.spawn(self.serve)

    def sendall(self, data):
        if self.closed or self.broken == "error":
            raise BrokenPipeError(32, "Broken pipe")
        if self.broken:
            return
        self.up.append((self.sim.t + self.server.latency(f"sock{self.n}up"),
                        data.decode()))
        self.up_event.Signal()

    def serve(self):
        sim = self.sim
        while not self.broken:
            if not self.up:
                self.up_event.Wait()
                continue
            when, text = self.up.pop(0)
            if when > sim.t:
                cothread.Sleep(when - sim.t)
            if self.broken:
                return
            for answer in self.conn.feed(text):
                while self.server.stalled_until > sim.t:
                    cothread.Sleep(self.server.stalled_until - sim.t)
                d = self.server.latency(f"sock{self.n}proc")
                if d:
                    cothread.Sleep(d)
                if self.broken:
                    return
                self.deliver(answer.encode())

    def deliver(self, data):
        """Down the stream, in pieces"""
        sim = self.sim
        if self.server.torn and data.count(b"\n") > 1:
            how, self.server.torn = self.server.torn, None
            n = sim.draw(f"sock{self.n}torn", len(data))
            sim.fault("torn_answer")
            if n:
                self.inbox.append(data[:n])
                self.event.Signal()
            self.server.drop(how)
            return
        pieces = []
        if self.server.cfg["split"] and sim.chance(f"sock{self.n}split",
                                                   self.server.cfg["split"]):
            sim.fault("fragmented")
            while data:
                n = 1 + sim.draw(f"sock{self.n}cut", len(data))
                pieces.append(data[:n])
                data = data[n:]
        else:
            pieces = [data]
        for p in pieces:
            d = self.server.latency(f"sock{self.n}down") if len(pieces) > 1 else 0
            if d:
                cothread.Sleep(d)
            if self.broken:
                return
            self.inbox.append(p)
            self.event.Signal()

    def recv(self, n):
        while not self.inbox:
            if self.shut or self.closed:
                return b""
            self.event.Wait()
        p = self.inbox.pop(0)
        if isinstance(p, Exception):
            raise p
        if not p:
            self.inbox.insert(0, p)  # the end is the end
        while self.inbox and isinstance(self.inbox[0], bytes) and self.inbox[0] and (
                len(p) + len(self.inbox[0]) <= n):
            p += self.inbox.pop(0)  # TCP joins what has arrived
        if len(p) > n:
            self.inbox.insert(0, p[n:])
            p = p[:n]
        return p

    def drop(self, how):
        if self.broken or self.closed:
            return
        self.broken = how
        self.sim.fault("panda_drop_" + how, self.n)
        self.up_event.Signal()
        if how == "eof":
            self.inbox.append(b"")
        elif how == "error":
            self.inbox.append(ConnectionResetError(104, "Connection reset"))
        self.event.Signal()

    def shutdown(self, how):
        if self.broken == "error":
            raise OSError(107, "Transport endpoint is not connected")
        self.shut = True
        self.event.Signal()

    def close(self):
        self.closed = True
        if self.broken is None:
            self.broken = "closed"
        self.up_event.Signal()
        self.event.Signal()
