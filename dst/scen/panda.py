"""A PandA and its Blocks: the mirror, the writes, and the connection"""
import json

import cothread

from malcolm.core import Error, Get, Post, Process, Put, Return, Subscribe

from .. import simpanda
from ..runner import Scenario, base_cfg
from ..simpanda import (
    BIT_NAMES,
    BITS,
    CAPTURE,
    COLUMNS,
    ENUMS,
    POS_NAMES,
    TIME,
    Device,
    Server,
    all_fields,
    instances,
)
from ..util import Responses, plain

MIRROR, LINK = "P12", "P13"
MRI = "PANDA"
POLL = 0.1


def camel(name):
    ret = "".join(x.title() for x in name.replace(".", "_").split("_"))
    return ret[0].lower() + ret[1:]


def attributes():
    """{(block, attribute): (full field, kind)} of everything a Block shows"""
    out = {}
    for b, f, t, s in all_fields():
        k = f"{b}.{f}"
        if f == "HEALTH" or t == "write":
            continue
        if t in ("bit_mux", "pos_mux"):
            out[b, camel(f)] = (k, "mux")
            if t == "bit_mux":
                out[b, camel(f + ".DELAY")] = (k + ".DELAY", "int")
        elif t == "time":
            out[b, camel(f)] = (k, "float")
            out[b, camel(f + ".UNITS")] = (k + ".UNITS", "units")
        elif t == "bit_out":
            out[b, camel(f)] = (k, "bitout")
        elif t == "pos_out":
            out[b, camel(f)] = (k, "posout")
        elif t == "ext_out":
            if s != "bits":
                out[b, camel(f + ".CAPTURE")] = (k + ".CAPTURE", "str")
        elif t == "table":
            out[b, camel(f)] = (k, "table")
        else:
            kind = {"enum": "str", "int": "int", "uint": "int", "bit": "bool",
                    "scalar": "float"}[s]
            out[b, camel(f)] = (k, kind if t != "read" else "read" + kind)
    return out


ATTRS = attributes()


def decode_table(lines):
    n = 3
    rows = [[int(x) for x in lines[i:i + n]] for i in range(0, len(lines), n)]
    cols = {}
    for name, hi, lo, typ, labels in COLUMNS:
        out = []
        for row in rows:
            v = (row[lo // 32] >> lo % 32) & (2 ** (hi - lo + 1) - 1)
            if labels:
                v = labels[v]
            elif hi == lo:
                v = bool(v)
            elif typ == "int" and v >= 2 ** (hi - lo):
                v -= 2 ** (hi - lo + 1)
            out.append(v)
        cols[camel(name)] = out
    return cols


def attr_value(kind, v):
    """What the attribute shows for a value of the device"""
    if kind in ("int", "readint", "posout"):
        return int(v)
    if kind in ("float",):
        return float(v)
    if kind in ("bool", "readbool", "bitout"):
        return bool(int(v))
    if kind == "table":
        return decode_table(v)
    return v


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        try:
            return abs(a - b) <= 1e-9 * max(abs(a), abs(b))
        except TypeError:
            return False
    return a == b


def label_field(b):
    block = next(x[1] for x in instances() if x[0] == b)
    return f"*METADATA.LABEL_{b if b != block else b + '1'}"


def reason(field, text):
    return f"refused by the device: {field} {text}."


class PandaScenario(Scenario):
    name = "panda"
    props = (MIRROR,)
    prop = MIRROR
    faulty = False
    needs_disk = True
    max_time = 2000
    max_ticks = 600000
    real = ("pandablocks: PandABlocksClient, PandAManagerController, "
            "PandABlockController, all its parts", "builtin.ManagerController, "
            "ChildPart", "core (all)", "cothread scheduler, locks and queues")
    stubs = ("the PandA and its TCP server", "the socket (an ordered stream in "
             "pieces that breaks)", "time.time", "scheduler poll",
             "cross-thread callback pipe")

    def shrink_cfg(self, cfg):
        yield from super().shrink_cfg(cfg)
        for k in ("latency", "slow_p", "split", "late"):
            if cfg.get(k):
                c = dict(cfg)
                c[k] = 0
                yield c

    # ---- plans ----
    def plan(self, rng, size):
        cfg = base_cfg(rng)
        cfg["cost"] = rng.choice([0.0, 1e-5, 1e-4])
        cfg.update({
            "latency": rng.choice([0.0, 0.0005, 0.005]),
            "slow_p": rng.choice([0, 0, 0.02, 0.2]),
            "slow_s": rng.choice([0.05, 0.5]),
            "split": rng.choice([0, 0.1, 0.6]),
            "late": 0,
        })
        if self.faulty and rng.random() < 0.25:
            # not there when the process starts, or lost in the middle of it
            cfg["late"] = rng.choice([1, 2])
            cfg["late_at"] = round(rng.random() * rng.choice([0.01, 0.2, 1.5]), 4)
            cfg["late_how"] = rng.choice(["eof", "error", "silent"])
            cfg["late_torn"] = rng.random() < 0.5
        n = rng.randrange(5, 30 * size)
        span = rng.choice([0.1, 1.0, 4.0])
        if self.faulty:
            span = rng.choice([1.0, 20.0])
        few = rng.sample(sorted(ATTRS), rng.choice([2, 4, len(ATTRS)]))
        ops = []
        for i in range(n):
            t = round(rng.random() * span, 5)
            r = rng.random()
            if self.faulty and r < 0.15:
                ops.append(rng.choice([
                    {"k": "drop", "i": i, "t": t, "how": rng.choice(
                        ["eof", "error", "silent"]), "torn": rng.random() < 0.5},
                    {"k": "down", "i": i, "t": t, "how": rng.choice(
                        ["eof", "error", "silent"]), "for": rng.choice([0.3, 3, 15])},
                    {"k": "stall", "i": i, "t": t, "for": rng.choice([0.5, 5, 12, 25])},
                    {"k": "manager", "i": i, "t": t,
                     "m": rng.choice(["disable", "reset", "reset"])},
                    {"k": "manager", "i": i, "t": t,
                     "m": rng.choice(["disable", "reset", "reset"])},
                ]))
            elif r < 0.4:
                op = self.some_put(rng, i, few)
                op.update({"i": i, "t": t})
                ops.append(op)
            elif r < 0.47:
                ops.append({"k": "post", "i": i, "t": t, "what": rng.choice(
                    [["SRGATE", "forceSet"], ["PCAP", "arm"], ["PCAP", "disarm"]])})
            elif r < 0.7:
                ops.append({"k": "bit", "i": i, "t": t, "n": rng.choice(BIT_NAMES),
                            "pulse": rng.choice([0, 1, 1, 2, 3])})
            else:
                ops.append({"k": "dev", "i": i, "t": t,
                            "ch": [self.some_change(rng, i, j, few)
                                   for j in range(rng.choice([1, 1, 3]))]})
        return {"cfg": cfg, "ops": ops}

    def some_value(self, rng, i, key):
        """A value of a field, as the device writes it"""
        k, kind = ATTRS[key]
        if kind in ("int", "readint", "posout"):
            if k.endswith(".DELAY"):
                return str(i % 256)
            return str(1000 + i)
        if kind == "float":
            return f"{i + 0.5}"
        if kind in ("bool", "readbool", "bitout"):
            return rng.choice("01")
        if kind == "units":
            return rng.choice(list(TIME))
        if kind == "mux":
            names = POS_NAMES if key[0] == "INENC" else ["ONE"] + BIT_NAMES
            return rng.choice(["ZERO"] + names)
        if kind == "table":
            rows = []
            for _ in range(rng.randrange(4)):
                word = (i % 65536) | (rng.randrange(3) << 16) | (
                    rng.randrange(16) << 20) | (rng.randrange(256) << 24)
                rows += [str(word), str(rng.getrandbits(32)), str(rng.getrandbits(32))]
            return rows
        return rng.choice(ENUMS[k.split(".", 1)[1]])

    def some_put(self, rng, i, few):
        r = rng.random()
        if r < 0.6:
            keys = [k for k in few if not ATTRS[k][1].startswith("read")
                    and ATTRS[k][1] not in ("bitout", "posout")]
            if keys:
                key = rng.choice(keys)
                return {"k": "put", "at": list(key), "v": self.some_value(rng, i, key),
                        "refuse": rng.random() < 0.15, "bad": rng.random() < 0.08}
        if r < 0.7:
            return {"k": "label", "b": rng.choice(instances())[0],
                    "v": rng.choice(["", f"Label {i}", f"L{i} = \u00b5m", f"{i}==\u2103"]),
                    "refuse": rng.random() < 0.15}
        if r < 0.8:
            return {"k": "bits", "on": {f: rng.random() < 0.5 for f in BITS},
                    "old": rng.random() < 0.2}
        if r < 0.92:
            row = rng.choice(POS_NAMES)
            what = rng.choice(["capture", "scale", "offset", "units"])
            v = {"capture": rng.choice(CAPTURE), "units": f"u{i}"}.get(what, i + 0.25)
            return {"k": "pos", "row": row, "what": what, "v": v,
                    "refuse": rng.random() < 0.15}
        return {"k": "layout", "b": rng.choice(instances())[0], "x": i, "y": i * 2,
                "vis": rng.random() < 0.7}

    def some_change(self, rng, i, j, few):
        r = rng.random()
        if r < 0.5:
            key = rng.choice(few)
            if ATTRS[key][1] != "bitout":
                return [ATTRS[key][0], self.some_value(rng, i * 5 + j, key)]
        if r < 0.75:
            pos = rng.choice(POS_NAMES)
            what = rng.choice(["", "", ".SCALE", ".OFFSET", ".UNITS", ".CAPTURE"])
            v = {"": str(i * 10 - 50), ".UNITS": f"dev{i}",
                 ".CAPTURE": rng.choice(CAPTURE)}.get(what, f"{i + 0.75}")
            return [pos + what, v]
        if r < 0.82:
            return ["PCAP.HEALTH", rng.choice(ENUMS["HEALTH"])]
        if r < 0.9:
            b, block, _ = rng.choice(instances())
            return [f"*METADATA.LABEL_{b if b != block else b + '1'}",
                    rng.choice(["", f"Dev {i}.{j}", f"D{i} = {j} \u00b5\u2103",
                                "\u2103" * 40])]
        if r < 0.94:
            names = rng.sample([x[0] for x in instances()], rng.randrange(1, 4))
            return ["*METADATA.LAYOUT",
                    [json.dumps({n: {"x": i, "y": j} for n in names})]]
        return [rng.choice(list(BITS)) + ".CAPTURE", rng.choice(["No", "Value"])]

    # ---- running ----
    def run(self, sim, plan):
        from malcolm.modules.pandablocks.controllers import (
            PandAManagerController,
            pandamanagercontroller,
        )

        self.sim = sim
        cfg = self.cfg = plan["cfg"]
        self.device = Device(sim)
        self.server = Server(sim, self.device, cfg)
        self.reports = []  # (seq, set of fields) of each *CHANGES? answered
        self.server.on_changes = self.on_changes
        pandamanagercontroller.socket = self.server.socket
        self.seen = {}  # (block, attr) -> [(seq, value)]
        self.calls = []
        self.layout_failed = False
        self.written = set()  # attributes that were put to
        process = self.process = Process("proc")
        self.manager = PandAManagerController(MRI, ".", poll_period=POLL)
        process.add_controller(self.manager)
        if cfg["late"] == 1:
            self.server.up = False
        elif cfg["late"] == 2:
            if cfg.get("late_torn"):
                sim.at(sim.t + cfg["late_at"], self.server.tear, cfg["late_how"])
            else:
                sim.at(sim.t + cfg["late_at"], self.server.drop, cfg["late_how"])
        process.start(timeout=200)
        if cfg["late"]:
            self.server.up = True
            cothread.Sleep(30)
            if self.state() != "Ready":
                self.recover()
        sim.check(self.state() == "Ready", self.prop, "not_ready",
                  lambda: f"after start the manager is {self.state()}")
        if self.state() != "Ready":
            return
        self.server.slow_on = True
        for op in plan["ops"]:
            # what the device refuses does not change
            if op.get("refuse"):
                self.dry_run(op)
        self.watch()
        t0 = sim.t
        for task in [sim.at(t0 + op["t"], self.do_op, op) for op in plan["ops"]]:
            task.Wait(500)
        sim.stalls_on = False
        self.server.slow_on = False
        cothread.Sleep(40.0 if self.faulty else 3.0)
        self.finish()

    def on_changes(self, changed):
        self.reports.append((self.sim.log("report", len(changed)), set(changed)))

    def state(self):
        return self.get([MRI, "state", "value"])

    def request(self, req, label):
        cb = Responses(self.sim, label, req.id)
        req.set_callback(cb)
        self.process.get_controller(req.path[0]).handle_request(req)
        return cb

    def get(self, path):
        cb = self.request(Get(1, path), "get")
        if cb.wait(5) and isinstance(cb.finals[0], Return):
            return plain(cb.finals[0].value)
        return None

    def watch(self):
        """Follow every attribute"""
        for (b, attr), (k, kind) in ATTRS.items():
            seen = self.seen[b, attr] = []

            def got(response, seen=seen, b=b, attr=attr):
                if type(response).__name__ == "Update":
                    v = plain(response.value)
                    if isinstance(v, dict):
                        v.pop("typeid", None)
                    if not seen or seen[-1][1] != v:
                        seen.append((self.sim.log("sees", b, attr, v), v))

            req = Subscribe(2, [f"{MRI}:{b}", attr, "value"])
            req.set_callback(got)
            self.process.get_controller(req.path[0]).handle_request(req)

    # ---- operations ----
    def do_op(self, op):
        k = op["k"]
        d = self.device
        sim = self.sim
        if k == "dev":
            for field, v in op["ch"]:
                sim.log("device changes", field, v)
                if field in d.times:
                    d.set_time(field, v)
                elif field.endswith(".UNITS") and field[:-6] in d.times:
                    d.set_units(field[:-6], v)
                else:
                    d.set(field, tuple(v) if isinstance(v, list) else v)
        elif k == "bit":
            # pulse: 0 change it, n change it there and back n times
            now = d.values[op["n"]]
            other = "0" if now == "1" else "1"
            sim.log("device bit", op["n"], op["pulse"])
            if op["pulse"] == 0:
                d.set(op["n"], other)
            for _ in range(op["pulse"]):
                d.set(op["n"], other)
                d.set(op["n"], now)
        elif k == "put":
            self.put(op)
        elif k == "post":
            b, m = op["what"]
            field = {"forceSet": f"{b}.FORCE_SET", "arm": "*PCAP.ARM",
                     "disarm": "*PCAP.DISARM"}[m]
            self.call(op, Post(1000 + op["i"], [f"{MRI}:{b}", m]), [(field, "")])
        elif k == "label":
            b = op["b"]
            field = label_field(b)
            self.call(op, Put(1000 + op["i"], [f"{MRI}:{b}", "label", "value"], op["v"]),
                      [(field, op["v"])])
        elif k == "bits":
            on = {bit: on for f, on in op["on"].items() for bit in BITS[f] if bit}
            now = self.get([MRI, "bits", "value"])
            if now:
                now["capture"] = [on[n] for n in now["name"]]
                if op["old"]:
                    # a row of firmware that had more
                    now["name"].append("OLD.BIT")
                    now["value"].append(False)
                    now["capture"].append(True)
                self.call(op, Put(1000 + op["i"], [MRI, "bits", "value"], now), [])
        elif k == "pos":
            now = self.get([MRI, "positions", "value"])
            if now and op["row"] in now["name"]:
                i = now["name"].index(op["row"])
                now[op["what"]][i] = op["v"]
                self.call(op, Put(1000 + op["i"], [MRI, "positions", "value"], now), [])
        elif k == "layout":
            now = self.get([MRI, "layout", "value"])
            if now and op["b"] in now["name"]:
                i = now["name"].index(op["b"])
                now["x"][i], now["y"][i], now["visible"][i] = op["x"], op["y"], op["vis"]
                self.call(op, Put(1000 + op["i"], [MRI, "layout", "value"], now), [])
        elif k == "drop":
            if op.get("torn"):
                self.server.tear(op["how"])
            else:
                self.server.drop(op["how"])
        elif k == "down":
            self.server.up = False
            self.server.drop(op["how"])
            cothread.Sleep(op["for"])
            self.server.up = True
        elif k == "stall":
            sim.fault("panda_stall")
            self.server.stalled_until = max(self.server.stalled_until,
                                            sim.t + op["for"])
        elif k == "manager":
            sim.fault("manager_" + op["m"])
            cb = self.request(Post(1000 + op["i"], [MRI, op["m"]]), op["m"])
            if not cb.wait(90):
                sim.violate(self.prop, "unanswered", f"{op['m']} of the manager")

    def dry_run(self, op):
        if op["k"] == "put":
            k, kind = ATTRS[tuple(op["at"])]
            self.arm_refusal(op, *self.set_of(k, kind, op["v"]))
        elif op["k"] == "label":
            self.arm_refusal(op, label_field(op["b"]), op["v"])
        elif op["k"] == "pos":
            self.arm_refusal(op, f"{op['row']}.{op['what'].upper()}", str(op["v"]))

    def set_of(self, k, kind, v):
        """(field, text) of the command that a put of v makes"""
        if kind == "table":
            return k, tuple(v)
        value = attr_value(kind, v)
        return k, str(int(value)) if kind == "bool" else str(value)

    def arm_refusal(self, op, field, text):
        if text != "ZERO":
            self.device.refuse[field, text] = reason(field, text)

    def put(self, op):
        b, attr = op["at"]
        k, kind = ATTRS[b, attr]
        v = op["v"]
        if op["bad"] and kind in ("int", "float", "mux", "units"):
            self.call(op, Put(1000 + op["i"], [f"{MRI}:{b}", attr, "value"], "no!"),
                      None)
            return
        value = attr_value(kind, v)
        sets = [self.set_of(k, kind, v)]
        self.call(op, Put(1000 + op["i"], [f"{MRI}:{b}", attr, "value"], value), sets,
                  check=(b, attr) if kind != "table" else None)

    def call(self, op, req, sets, check=None):
        """One request; sets is what it makes the device do, if known; None is
        nothing at all"""
        sim = self.sim
        d = self.device
        start = len(d.commands)
        seq = sim.log("call", op["k"], op["i"], "/".join(req.path), plain(
            getattr(req, "value", None)))
        if check:
            self.written.add(check)
        if sets:
            self.calls.append(sets[0])
        cb = self.request(req, f"{op['k']}{op['i']}")
        # a put of positions is up to four groups, each of which may time out
        if not cb.wait(15 if op["k"] != "pos" else 50):
            sim.violate(self.prop, "unanswered",
                        f"request {op['k']} {op['i']} after {15} s")
            return
        mine = d.commands[start:]
        final = cb.finals[0]
        err = str(final.message) if isinstance(final, Error) else None
        what = f"{op['k']} {op['i']} of {'/'.join(req.path[:2])}"
        if err and "refused by the device" in err and sets:
            self.sim.check(reason(*sets[0]) in err, self.prop,
                           "wrong_response", f"{what} failed with the error of "
                           f"another: {err}")
        if err is not None and op["k"] == "layout":
            # it has been applied here but not there
            self.layout_failed = True
        if sets is None:
            sim.check(err is not None, self.prop, "bad_accepted", what)
            self.sim.probe("bad_put")
        elif sets:
            count = sum(1 for _, k, v in mine if (k, v) == sets[0])
            refused = sets[0] in d.refuse
            if err is None:
                sim.check(count >= 1, self.prop, "never_reached",
                          f"{what} returned but the device got no {sets[0]}")
                sim.check(not refused, self.prop, "refusal_lost",
                          f"{what} returned though the device refused {sets[0]}")
                sim.probe("put_ok")
            elif not self.faulty:
                sim.check(refused, self.prop, "put_failed",
                          f"{what} failed but the device did not refuse it: {err}")
                sim.probe("put_refused")
            if err is None and check and not refused:
                self.read_back(what, check, sets[0], seq)
        elif err is not None and not self.faulty:
            sim.check("refused by the device" in err, self.prop, "put_failed",
                      f"{what}: {err}")
        sim.check(len(cb.finals) == 1, self.prop, "answered_twice", what)

    def read_back(self, what, key, sets, seq):
        """What is read after a write is that, or something later"""
        k, kind = ATTRS[key]
        have = self.get([f"{MRI}:{key[0]}", key[1], "value"])
        # a report that was under way may still put an older value there, for
        # as long as one poll; nothing older than the report before it
        older = [s for s, _ in self.reports if s < seq]
        since = older[-2] if len(older) > 1 else 0
        want = attr_value(kind, sets[1])
        full = self.device.history[k]
        first = max([i for i, (s, _) in enumerate(full) if s < since], default=0)
        hist = [attr_value(kind, v) for _, v in full[first:]]
        if not any(same(have, v) for v in hist):
            self.sim.violate(self.prop, "read_back",
                             f"after {what} the attribute is {have}, not {want}")

    # ---- the end ----
    def recover(self):
        """What a user does about a manager in Fault"""
        sim = self.sim
        for _ in range(1):
            s = self.state()
            if s == "Ready":
                return
            cb = self.request(Post(7, [MRI, "reset"]), "reset")
            if not cb.wait(100):
                sim.violate(self.prop, "unanswered", "reset of the manager")
                return
            sim.log("recover", s, self.state())
            sim.probe("recovered")
            cothread.Sleep(15)

    def finish(self):
        sim = self.sim
        if self.faulty:
            live = [s for s in self.server.sockets if s.broken is None]
            s = self.state()
            sim.log("end of faults", s, len(live))
            sim.check(s in ("Ready", "Fault", "Disabled"), self.prop, "stuck",
                      f"manager is {s} long after the faults")
            if not live:
                sim.check(s in ("Fault", "Disabled"), self.prop, "not_noticed",
                          f"manager is {s} without a connection")
            sim.probe("end_" + str(s))
            self.recover()
            s = self.state()
            if s != "Ready":
                health = self.get([MRI, "health", "value"])
                sim.violate(self.prop, "not_recovered",
                            f"manager is {s} after reset: {health}")
                return
            # and it works again
            for bit in BIT_NAMES[:2]:
                self.device.set(bit, "1" if self.device.values[bit] == "0" else "0")
            self.do_op({"k": "put", "i": 999999, "at": ["COUNTER", "start"],
                        "v": "424242", "refuse": False, "bad": False})
            self.faulty_put_ok()
            cothread.Sleep(2.0)
        else:
            sim.check(self.state() == "Ready", self.prop, "not_ready",
                      lambda: f"the manager is {self.state()}: "
                      f"{self.get([MRI, 'health', 'value'])}")
        for sets in set(self.calls):
            n = sum(1 for _, k, v in self.device.commands if (k, v) == sets)
            m = self.calls.count(sets)
            if sets[1] == "ZERO":
                continue  # hiding a Block disconnects what it is connected to
            sim.check(n <= m, self.prop, "twice",
                      f"{sets} reached the device {n} times for {m} requests")
        self.compare()
        self.check_seen()
        if not self.faulty:
            self.check_bits()

    def faulty_put_ok(self):
        v = self.device.values["COUNTER.START"]
        self.sim.check(v == "424242", self.prop, "not_recovered",
                       f"put after recovery left {v} in the device")

    def compare(self):
        """At rest the Blocks show what the device has"""
        sim = self.sim
        d = self.device
        blocks = {b: self.get([f"{MRI}:{b}"]) for b, _, _ in instances()}
        bad = []
        for (b, attr), (k, kind) in ATTRS.items():
            have = blocks[b][attr]["value"]
            if isinstance(have, dict):
                have.pop("typeid", None)
            want = attr_value(kind, d.values[k])
            if not same(have, want):
                bad.append(f"{b}.{attr} is {have}, device has {want}")
            if kind == "mux":
                tags = [t for t in blocks[b][attr]["meta"]["tags"]
                        if t.startswith("linkedvalue:")]
                split = d.values[k].split(".")
                link = [f"linkedvalue:{camel(split[1])}:{MRI}:{split[0]}"] if len(
                    split) == 2 else []
                if tags != link:
                    bad.append(f"{b}.{attr} has tags {tags} for {d.values[k]}")
        for b, block, _ in instances():
            number = b[len(block):]
            label = d.values[f"*METADATA.LABEL_{block}{number or 1}"] or (
                f"About {block}" + (f" {number}" if number else ""))
            if blocks[b]["label"]["value"] != label:
                bad.append(f"label of {b} is {blocks[b]['label']['value']!r}, "
                           f"device has {label!r}")
        health = d.values["PCAP.HEALTH"]
        have = blocks["PCAP"]["health"]
        if have["value"] != health or (have["alarm"]["severity"] != 0) != (
                health != "OK"):
            bad.append(f"health is {have['value']} {have['alarm']}, device has {health}")
        bits = self.get([MRI, "bits", "value"])
        for i, n in enumerate(bits["name"]):
            if bits["value"][i] != bool(int(d.values[n])):
                bad.append(f"bits table has {n} {bits['value'][i]}")
            field = next(f for f in BITS if n in BITS[f])
            if bits["capture"][i] != (d.values[field + ".CAPTURE"] != "No"):
                bad.append(f"bits table captures {n}: {bits['capture'][i]}, "
                           f"device has {d.values[field + '.CAPTURE']}")
        pos = self.get([MRI, "positions", "value"])
        for i, n in enumerate(pos["name"]):
            want = {
                "capture": d.values[n + ".CAPTURE"], "units": d.values[n + ".UNITS"],
                "scale": float(d.values[n + ".SCALE"]),
                "offset": float(d.values[n + ".OFFSET"])}
            want["value"] = int(d.values[n]) * want["scale"] + want["offset"]
            for c, w in want.items():
                if not same(pos[c][i], w):
                    bad.append(f"positions table has {n}.{c} {pos[c][i]}, device {w}")
        layout = self.get([MRI, "layout", "value"])
        have = {n: {"x": layout["x"][i], "y": layout["y"][i]} for i, n in
                enumerate(layout["name"]) if layout["visible"][i]}
        want = json.loads("".join(d.values["*METADATA.LAYOUT"]) or "{}")
        if have != want and not self.layout_failed:
            bad.append(f"layout shows {have}, device has {want}")
        if bad:
            sim.violate(self.prop, "mirror", "; ".join(bad[:4]) + f" ({len(bad)})")
        sim.probe("compared", len(ATTRS))

    def check_seen(self):
        """What a subscriber sees is what the device was, in order"""
        commanded = {k for _, k, _ in self.device.commands}
        for key, seen in self.seen.items():
            k, kind = ATTRS[key]
            if kind == "bitout":
                continue
            hist = [attr_value(kind, v) for _, v in self.device.history[k]]
            pos = 0
            for n, (_, v) in enumerate(seen):
                if key in self.written or k in commanded:
                    # reports and writes cross: any order, but nothing else
                    pos = 0
                while pos < len(hist) and not same(hist[pos], v):
                    pos += 1
                if pos >= len(hist):
                    self.sim.violate(self.prop, "wrong_sequence",
                                     f"{'.'.join(key)} showed {[x[1] for x in seen]}, "
                                     f"device had {hist}")
                    return

    def check_bits(self):
        """A bit that changed, however briefly, is seen to change"""
        first = {k: s[0][0] for k, s in self.seen.items() if s}
        for key, (k, kind) in ATTRS.items():
            if kind != "bitout":
                continue
            seen = self.seen[key]
            for n, (seq, changed) in enumerate(self.reports):
                if seq <= first[key] or k not in changed:
                    continue
                after = self.reports[n + 2][0] if n + 2 < len(self.reports) else 1e18
                if not any(seq < s < after for s, _ in seen):
                    self.sim.violate(self.prop, "missed_change",
                                     f"{k} changed (poll {n}) but its attribute did "
                                     "not")
                    return
                self.sim.probe("bit_change_seen")
            changes = sum(1 for _, ch in self.reports if k in ch)
            if len(seen) - 1 > 2 * changes + 1:
                self.sim.violate(self.prop, "spurious_change",
                                 f"{k} seen to change {len(seen) - 1} times for "
                                 f"{changes} reports")


class PandaLinkScenario(PandaScenario):
    name = "pandalink"
    props = (LINK,)
    prop = LINK
    faulty = True
