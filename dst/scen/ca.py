"""Attributes and Methods that stand for the PVs of an IOC"""
import cothread

from malcolm.core import Post, Process, Put, Subscribe
from malcolm.modules.builtin.controllers import StatefulController

from .. import simca
from ..runner import Scenario, base_cfg
from ..util import Responses, plain

PROP = "P14"
ENUMS = ["Off", "Slow", "Fast"]
# attribute -> (kind, pv written, pv read, throw)
ATTRS = {
    "dbl": ("float", "D", "D_RBV", True),
    "lng": ("int", "L", "L", True),
    "boo": ("bool", "B", "B_RBV", True),
    "cho": ("enum", "C", "C", True),
    "str": ("str", "S", "S", True),
    "chr": ("str", "T", "T_RBV", True),
    "wav": ("floats", "W", "W", True),
    "lwv": ("ints", "V", "V", True),
    "ror": ("float", "", "R", True),
    "opt": ("float", "O", "O", False),
}
COLUMNS = {"x": "TX", "y": "TY"}
OPTIONAL = {"opt", "ack"}  # may be missing from the IOC
LIMIT = 1000
ACTION_TIMEOUT = 1.0
CAGET_TIMEOUT = 5.0


def shown(kind, value):
    """What an attribute shows for the value of its PV"""
    if kind == "bool":
        return bool(value)
    if kind == "enum":
        return ENUMS[value]
    return value


def written(kind, value):
    """What is written to a PV for the value of an attribute"""
    if kind == "bool":
        return int(value)
    if kind == "enum":
        return ENUMS.index(value)
    return value


def clipped(kind, value):
    if kind in ("float", "int"):
        return max(-LIMIT, min(LIMIT, value))
    return value


def make_value(rng, kind, i):
    if kind == "float":
        return i + 0.5 + rng.choice([0, 0, 0, 2 * LIMIT, -2 * LIMIT])
    if kind == "int":
        return i + 1 + rng.choice([0, 0, 0, 2 * LIMIT])
    if kind == "bool":
        return rng.random() < 0.5
    if kind == "enum":
        return rng.choice(ENUMS)
    if kind == "str":
        return rng.choice([f"text {i}", f"t{i}é", ""])
    n = rng.randrange(2, 5)
    return [i + j * (0.25 if kind == "floats" else 1) for j in range(n)]


class CaScenario(Scenario):
    name = "ca"
    props = (PROP,)
    max_time = 3000
    max_ticks = 400000
    real = ("modules.ca: all parts and CAAttribute, WaveformTableAttribute",
            "builtin.StatefulController", "core (all)",
            "cothread scheduler, locks and queues")
    stubs = ("the IOC and its records", "cothread.catools (monitor merging and its "
             "callback task are modelled on the real one)", "time.time",
             "scheduler poll", "cross-thread callback pipe")

    def shrink_cfg(self, cfg):
        yield from super().shrink_cfg(cfg)
        for k in ("latency", "slow_p", "refuse_p", "restart"):
            if cfg.get(k):
                c = dict(cfg)
                c[k] = 0
                yield c
        for a in list(cfg["parts"]):
            c = dict(cfg)
            c["parts"] = [x for x in cfg["parts"] if x != a]
            yield c

    def plan(self, rng, size):
        cfg = base_cfg(rng)
        every = list(ATTRS) + ["tab", "act", "ack"]
        cfg["parts"] = [a for a in every if rng.random() < rng.choice([0.3, 0.7, 1])]
        if rng.random() < 0.1:
            cfg["parts"] = sorted(OPTIONAL)
        if not cfg["parts"]:
            cfg["parts"] = [rng.choice(every)]
        cfg["latency"] = rng.choice([0.0, 0.002, 0.05])
        cfg["slow_p"] = rng.choice([0.0, 0.0, 0.02])
        cfg["slow_s"] = rng.choice([0.3, 8.0])
        cfg["search"] = rng.choice([0.03, 0.5])
        cfg["min_delta"] = rng.choice([0.05, 0.05, 0.5])
        cfg["refuse_p"] = rng.choice([0.0, 0.1])
        cfg["process_s"] = rng.choice([0.01, 0.5, 4.0])
        cfg["timeout"] = rng.choice([10.0, 10.0, 2.0, -1.0])
        cfg["restart"] = rng.random() < 0.5  # records start anew with the IOC
        cfg["absent"] = rng.random() < 0.1  # the IOC is not there at first
        downs = rng.random() < 0.6
        ops = []
        span = rng.choice([4.0, 20.0])
        t = 0.0
        resets = rng.choice([0.0, 1.0, 3.0])
        burst = rng.random() < 0.5
        for i in range(rng.randrange(3, 20 * size)):
            t += rng.choice([0, 0.01, 0.04]) if burst and rng.random() < 0.6 else (
                rng.random() * span / 8)
            k = rng.choices(
                ["set", "put", "act", "down", "reset", "disable", "status"],
                [6, 6, 2, 1.5 if downs else 0, resets, resets * 0.7, 2])[0]
            op = {"i": i, "t": round(t, 3), "k": k}
            if k in ("set", "put"):
                a = rng.choice(cfg["parts"])
                op["a"] = a
                if a in ATTRS:
                    op["v"] = make_value(rng, ATTRS[a][0], i)
                    if k == "put" and not ATTRS[a][1]:
                        op["k"] = "set"
                elif a == "tab":
                    op["k"] = "set"
                    op["n"] = rng.choice([0, 0, 2, 3, 4])  # 0: as long as before
                    op["c"] = ["x", "y"] if op["n"] else rng.choice(
                        [["x"], ["y"], ["x", "y"]])
                    op["v"] = i + 0.5
                else:
                    op["k"] = "act"
                if op["k"] == "set":
                    op["s"] = rng.choice([0, 0, 0, 1, 2, 3])
            if op["k"] == "act":
                op["a"] = rng.choice(["act", "ack"])
                op["good"] = rng.choice([True, True, False])
                op["lag"] = rng.choice([0, 0, 0.5, 0.9, 3.0])
            if k == "status":
                op["v"] = rng.choice(["Good", "Bad", "Busy"])
            if k == "down":
                op["d"] = rng.choice([0.1, 1.0, 7.0])
                op["n"] = rng.choice([0.0, 0.02, 1.5, 30.0])
            ops.append(op)
        return {"cfg": cfg, "ops": ops}

    # ---- the device ----
    def make_ioc(self):
        sim, cfg = self.sim, self.cfg
        ca = self.ca = simca.Catools(sim, cfg).install()
        ioc = self.ioc = ca.ioc
        first = {"float": 0.25, "int": 0, "bool": 0, "enum": 1, "str": "one",
                 "floats": [1.0, 2.0], "ints": [1, 2]}
        self.first = {}

        def add(name, kind):
            ctrl = {}
            if kind == "enum":
                ctrl = {"enums": ENUMS}
            elif kind in ("float", "floats"):
                ctrl = dict(upper_disp_limit=len(name) + 10.0, lower_disp_limit=-3.0,
                            precision=4, units="mm")
            if name not in ioc.records:
                self.first[name] = first[kind]
                ioc.record(name, first[kind], **ctrl)

        for a, (kind, pv, rbv, throw) in ATTRS.items():
            if a not in cfg["parts"]:
                continue
            add(rbv, kind)
            if pv:
                add(pv, kind)
                ioc.records[pv].process = self.processor(a, kind, pv, rbv)
        for c in COLUMNS.values():
            add(c, "floats")
        for n in ("act", "ack"):
            ioc.record(n.upper(), 0).process = self.action(n)
            self.first[n.upper()] = 0
        ioc.record("STATUS", "Bad")
        ioc.record("MESSAGE", "no message")
        self.first["STATUS"] = "Bad"
        self.first["MESSAGE"] = "no message"

    def processor(self, a, kind, pv, rbv):
        sim, ioc = self.sim, self.ioc

        def process(value, done):
            key = f"proc.{pv}"
            dur = sim.uniform(key, 0.0, self.cfg["process_s"])
            refuse = sim.chance(key + ".refuse", self.cfg["refuse_p"])
            late = sim.draw(key + ".late", 4)
            boot = ioc.boot

            def work():
                if dur:
                    cothread.Sleep(dur)
                if not ioc.running or ioc.boot != boot:
                    return
                if refuse:
                    sim.fault("put_refused", pv)
                    done(simca.PUTFAIL)
                    return
                v = clipped(kind, value)
                ioc.records[pv].set(v)
                if rbv != pv and late < 3:
                    ioc.records[rbv].set(v)
                done(simca.NORMAL)
                if rbv != pv and late == 3:
                    # the readback follows in its own time
                    sim.fault("late_readback", rbv)
                    cothread.Sleep(sim.uniform(key + ".lag", 0.0, 0.5))
                    if ioc.running and ioc.boot == boot:
                        ioc.records[rbv].set(v)

            sim.spawn(work)

        return process

    def action(self, n):
        sim, ioc = self.sim, self.ioc

        def process(value, done):
            key = f"act.{n}"
            dur = sim.uniform(key, 0.0, self.cfg["process_s"])
            refuse = sim.chance(key + ".refuse", self.cfg["refuse_p"])
            boot = ioc.boot
            good, lag, i = self.acting.get(n, (True, 0, 0))

            def work():
                if dur:
                    cothread.Sleep(dur)
                if not ioc.running or ioc.boot != boot:
                    return
                if refuse:
                    sim.fault("put_refused", n)
                    done(simca.PUTFAIL)
                    return
                if lag:
                    sim.fault("late_status")
                    done(simca.NORMAL)
                    cothread.Sleep(lag)
                    if not ioc.running or ioc.boot != boot:
                        return
                ioc.records["MESSAGE"].set(f"message {i}")
                ioc.records["STATUS"].set("Good" if good else "Bad")
                if not lag:
                    done(simca.NORMAL)

            sim.spawn(work)

        return process

    # ---- the Block ----
    def make_block(self):
        from malcolm.modules.ca import parts

        cfg = self.cfg
        t, d = cfg["timeout"], cfg["min_delta"]
        process = self.process = Process("proc")
        c = self.controller = StatefulController("B")
        cls = {"dbl": "CADoublePart", "lng": "CALongPart", "boo": "CABooleanPart",
               "cho": "CAChoicePart", "str": "CAStringPart", "chr": "CACharArrayPart",
               "wav": "CADoubleArrayPart", "lwv": "CALongArrayPart",
               "ror": "CADoublePart", "opt": "CADoublePart"}
        for a in cfg["parts"]:
            if a == "tab":
                p = parts.CAWaveformTablePart(
                    "tab", "a table", list(COLUMNS.values()), list(COLUMNS), d, t)
            elif a in ("act", "ack"):
                p = parts.CAActionPart(
                    a, "an action", a.upper(), "STATUS", "Good", ACTION_TIMEOUT,
                    "MESSAGE" if a == "act" else "", throw=a == "act")
            else:
                kind, pv, rbv, throw = ATTRS[a]
                kw = {} if throw else {"throw": False}
                p = getattr(parts, cls[a])(
                    a, "an attribute", pv=pv, rbv="" if rbv == pv else rbv,
                    min_delta=d, timeout=t, **kw)
            c.add_part(p)
        process.add_controller(c)

    def watch_all(self):
        sim = self.sim
        self.view = {}
        self.updates = {}

        def watch(name):
            def on(response):
                if not hasattr(response, "value"):
                    return
                v = plain(response.value)
                seq = sim.log("shown", name, v.get("value"),
                              (v.get("alarm") or {}).get("severity"),
                              plain(v.get("timeStamp")))
                self.view[name] = v
                self.updates.setdefault(name, []).append((seq, sim.t, v))

            req = Subscribe(len(self.view) + 5000, ["B", name])
            req.set_callback(on)
            self.controller.handle_request(req)

        for a in ["state"] + [a for a in self.cfg["parts"] if a not in ("act", "ack")]:
            watch(a)

    # ---- run ----
    def run(self, sim, plan):
        self.sim = sim
        cfg = self.cfg = plan["cfg"]
        self.acting = {}
        self.puts = []
        self.quiet_from = 0.0
        self.outages = []  # [from, until]
        self.resets = []
        self.make_ioc()
        self.make_block()
        if cfg["absent"]:
            self.ioc.stop()
            self.outages.append([0.0, None])
        watcher = sim.spawn(self.watch_all)
        t0 = sim.t
        if cfg["absent"]:
            sim.at(sim.t + 7.0, self.up)
        self.process.start(timeout=100)
        watcher.Wait(1)
        if not self.troubled(t0, sim.t) or set(cfg["parts"]) <= OPTIONAL:
            sim.check(self.state == "Ready", PROP, "not_ready",
                      f"the PVs needed are there, the Block starts in {self.state}")
        base = sim.t
        tasks = []
        for op in plan["ops"]:
            tasks.append(sim.at(base + op["t"], self.do, op))
        for t in tasks:
            t.Wait(400)
        self.settle()

    @property
    def state(self):
        return self.view["state"]["value"]

    def up(self):
        if self.ioc.running:
            return
        if self.cfg["restart"]:
            self.sim.fault("ioc_restarted_afresh")
            for n, r in self.ioc.records.items():
                if r.value != self.first[n]:
                    r.set(self.first[n], 0)
        self.ioc.start()
        self.outages[-1][1] = self.sim.t

    def troubled(self, t0, t1):
        """Could the connection have been in the way?"""
        if self.cfg["slow_p"]:
            return True
        pad = 1.5 + self.cfg["search"] + self.cfg["latency"]
        return any(o[0] - 0.1 <= t1 and (o[1] is None or o[1] + pad >= t0)
                   for o in self.outages)

    def do(self, op):
        getattr(self, "do_" + op["k"])(op)

    def do_set(self, op):
        if not self.ioc.running:
            return
        a = op["a"]
        if a == "tab":
            n = op["n"] or len(self.ioc.records["TX"].value)
            for c in op["c"]:
                self.ioc.records[COLUMNS[c]].set([op["v"] + j for j in range(n)], op["s"])
            return
        kind, pv, rbv, throw = ATTRS[a]
        self.ioc.records[rbv].set(written(kind, op["v"]), op["s"])

    def do_status(self, op):
        if self.ioc.running:
            self.ioc.records["STATUS"].set(op["v"])

    def do_down(self, op):
        if not self.ioc.running:
            return
        self.outages.append([self.sim.t, None])
        self.ioc.stop(op["n"])
        cothread.Sleep(op["d"])
        self.up()

    def request(self, op, req, label):
        sim = self.sim
        r = Responses(sim, label, req.id)
        req.set_callback(r)
        r.s0, r.t0, r.st0 = sim.log("req", label), sim.t, sim.stalled
        self.controller.handle_request(req)
        answered = r.wait(300)
        r.s1, r.t1 = sim.log("done", label), sim.t
        r.late = sim.stalled - r.st0 + self.cfg["cost"] * 500
        if not sim.check(answered, PROP, "no_answer", f"{label} not answered"):
            return None
        e = r.finals[0]
        r.error = e.message if type(e).__name__ == "Error" else None
        return r

    def states(self, s0, s1):
        out = []
        for seq, t, v in self.updates.get("state", ()):
            if seq < s0:
                out = [v["value"]]
            elif seq <= s1:
                out.append(v["value"])
        return out

    def do_put(self, op):
        sim = self.sim
        a = op["a"]
        kind, pv, rbv, throw = ATTRS[a]
        want = written(kind, op["v"])
        label = f"put{op['i']} {a} {op['v']!r}"
        entry = {"a": a, "v": want, "ok": None, "s0": sim.seq, "s1": None}
        self.puts.append(entry)
        r = self.request(op, Put(op["i"], ["B", a, "value"], op["v"]), label)
        if r is None:
            return
        err = r.error
        entry["s1"] = r.s1
        entry["ok"] = err is None
        if type(err).__name__ == "NotWriteableError":
            entry["ok"] = "refused"
            states = self.states(r.s0, r.s1)
            sim.check(any(s != "Ready" for s in states), PROP, "wrongly_refused",
                      f"{label} refused in {states}")
            return
        record = self.ioc.records[pv]
        mine = [p for p in record.puts if p[0] > r.s0 and p[1] == want and (
            p[0] <= r.s1)]
        if err is None:
            good = [p for p in mine if p[2] == simca.NORMAL and p[3] <= r.s1]
            if not sim.check(good, PROP, "not_done",
                             f"{label} succeeded; the IOC had {mine}"):
                return
            # what is shown now is no older than the completion of the put
            if throw and set(self.states(r.s0, r.s1)) == {"Ready"}:
                self.check_fresh(a, kind, rbv, min(p[3] for p in good), label)
            return
        sim.probe("put_failed")
        reason = None
        if any(p[2] == simca.PUTFAIL for p in mine):
            reason = "refused"
        elif set(self.states(r.s0, r.s1)) != {"Ready"}:
            reason = "not ready"
        elif self.troubled(r.t0, r.t1):
            reason = "connection"
        elif self.cfg["timeout"] > 0 and r.t1 - r.t0 >= self.cfg["timeout"] - 0.1:
            reason = "timeout"
        elif self.cfg["stall_p"] and r.t1 - r.t0 > 1:
            reason = "stall"
        sim.check(reason, PROP, "wrongly_failed",
                  f"{label} failed with {err!r}; the IOC had {mine}")

    def check_fresh(self, a, kind, rbv, since, label):
        hist = self.ioc.records[rbv].history
        k = max(n for n, h in enumerate(hist) if h[0] <= since)
        allowed = [shown(kind, h[1]) for h in hist[k:]]
        got = self.get_value(a)
        self.sim.check(got in allowed, PROP, "stale_after_put",
                       f"{label} done, but {a} is {got!r}, not in {allowed}")

    def get_value(self, a):
        return plain(self.controller.block_view()[a].value)

    def do_act(self, op):
        sim = self.sim
        n = op["a"]
        if n not in self.cfg["parts"]:
            return
        self.acting[n] = (op["good"], op["lag"], op["i"])
        label = f"{n}{op['i']}"
        record = self.ioc.records[n.upper()]
        r = self.request(op, Post(op["i"], ["B", n]), label)
        if r is None:
            return
        err = r.error
        if type(err).__name__ == "NotWriteableError":
            states = self.states(r.s0, r.s1)
            sim.check(any(s != "Ready" for s in states), PROP, "wrongly_refused",
                      f"{label} refused in {states}")
            return
        mine = [p for p in record.puts if r.s0 < p[0] <= r.s1]
        hist = self.ioc.records["STATUS"].history
        if err is None:
            done = [p[3] for p in mine if p[2] == simca.NORMAL and p[3] <= r.s1]
            if not sim.check(done, PROP, "not_done",
                             f"{label} succeeded; the IOC had {mine}"):
                return
            k = max(i for i, h in enumerate(hist) if h[0] <= min(done))
            seen = [h[1] for h in hist[k:] if h[0] <= r.s1]
            sim.check("Good" in seen, PROP, "action_wrong",
                      f"{label} succeeded, its status was {seen}")
            return
        sim.probe("action_failed")
        text = str(err)
        if any(p[2] == simca.PUTFAIL for p in mine) or self.troubled(r.t0, r.t1):
            return
        done = [p[3] for p in mine if p[2] == simca.NORMAL and p[3] <= r.s1]
        if not sim.check(done, PROP, "wrongly_failed",
                         f"{label} failed with {err!r}; the IOC had {mine}"):
            return
        k = max(i for i, h in enumerate(hist) if h[0] <= max(done))
        seen = [h for h in hist[k:] if h[0] <= r.s1]
        steady = [h for h in seen if h[1] == "Good" and (
            h is seen[-1] or seen[seen.index(h) + 1][4] - max(h[4], r.t0) > 0.3)
            and h[4] < r.t1 - 0.3 - r.late - 2 * self.cfg["latency"]]
        if len(mine) == 1 and not self.cfg["stall_p"]:
            sim.check(not steady, PROP, "action_wrong",
                      f"{label} failed with {text!r}; its status was {seen}")
            sim.check(any(str(h[1]) in text for h in seen) or "None" in text, PROP,
                      "action_message", f"{label}: {text!r} does not give the status")
            if n == "act":
                msgs = [h[1] for h in self.ioc.records["MESSAGE"].history
                        if h[0] <= r.s1]
                sim.check(any(m in text for m in msgs), PROP, "action_message",
                          f"{label}: {text!r} does not give the message")

    def do_reset(self, op):
        r = self.request(op, Post(op["i"], ["B", "reset"]), f"reset{op['i']}")
        if r is None or r.error is None:
            return
        if type(r.error).__name__ in ("NotWriteableError", "AbortedError"):
            return
        optional = set(self.cfg["parts"]) <= OPTIONAL
        self.sim.check(self.troubled(r.t0, r.t1) and not optional or self.overlap(r), PROP,
                       "wrongly_failed", f"reset failed with {r.error!r}")

    def overlap(self, r):
        return "Disabling" in self.states(r.s0, r.s1)

    def do_disable(self, op):
        sim = self.sim
        r = self.request(op, Post(op["i"], ["B", "disable"]), f"disable{op['i']}")
        if r is not None and r.error is None:
            sim.probe("disabled")

    # ---- at rest ----
    def settle(self):
        sim, cfg = self.sim, self.cfg
        sim.stalls_on = False
        cfg["slow_p"] = 0.0
        cfg["refuse_p"] = 0.0
        if not self.ioc.running:
            self.up()
        t = sim.t
        # every message on its way arrives, the client reconnects
        cothread.Sleep(20)
        if self.state == "Ready":
            sim.probe("rest_ready")
        else:
            sim.probe("rest_" + self.state)
            r = self.request({}, Post(9000, ["B", "reset"]), "reset at rest")
            if r is None:
                return
            sim.check(r.error is None, PROP, "no_recovery",
                      f"reset failed with {r.error!r}")
            cothread.Sleep(3)
        if not sim.check(self.state == "Ready", PROP, "no_recovery",
                         f"Block in {self.state}"):
            return
        self.compare("at rest")
        # one more change of everything is shown
        for a in cfg["parts"]:
            if a in ATTRS:
                kind, pv, rbv, throw = ATTRS[a]
                v = {"float": 7.75, "int": 77, "bool": 1, "enum": 2, "str": "last",
                     "floats": [7.5, 7.25, 7.0], "ints": [7, 8, 9]}[kind]
                self.ioc.records[rbv].set(v, 0)
            elif a == "tab":
                for n, c in enumerate(COLUMNS.values()):
                    self.ioc.records[c].set([7.0 + n, 8.0], 0)
        cothread.Sleep(5)
        self.compare("after a last change")
        self.check_puts()
        self.check_history()
        # when the IOC goes everything says so, and keeps its value
        before = {a: v.get("value") for a, v in self.view.items()}
        self.ioc.stop(0.1)
        cothread.Sleep(5)
        for a in cfg["parts"]:
            if a in ("act", "ack"):
                continue
            v = self.view[a]
            sim.check(v["alarm"]["severity"] == 4, PROP, "alarm_wrong",
                      f"IOC gone, {a} has alarm {v['alarm']}")
            sim.check(v["value"] == before[a], PROP, "value_lost",
                      f"IOC gone, {a} changed to {v['value']}")
        self.ioc.start()
        cothread.Sleep(5)
        self.compare("after the IOC came back")
        self.request({}, Post(9002, ["B", "disable"]), "last disable")
        r = self.request({}, Post(9001, ["B", "reset"]), "last reset")
        sim.check(r is None or r.error is None, PROP, "no_recovery",
                  f"last reset failed with {r and r.error!r}")
        cothread.Sleep(3)
        self.compare("after a reset", True)
        try:
            self.process.stop(timeout=30)
        except Exception as e:
            sim.violate(PROP, "stop_failed", repr(e))

    def compare(self, when, fresh=False):
        sim = self.sim
        for a in self.cfg["parts"]:
            if a in ATTRS:
                kind, pv, rbv, throw = ATTRS[a]
                rec = self.ioc.records[rbv]
                want, sev, stamp = shown(kind, rec.value), rec.severity, rec.stamp
            elif a == "tab":
                recs = [self.ioc.records[c] for c in COLUMNS.values()]
                want = {c: self.ioc.records[pv].value for c, pv in COLUMNS.items()}
                sev, stamp = max(r.severity for r in recs), None
            else:
                if not fresh:
                    continue  # only a reset looks for the PVs of an action
                hidden = any("hidden" in x for x in
                             plain(self.controller.block_view()[a].meta.tags))
                sim.check(not hidden, PROP, "hidden",
                          f"{when}: {a} is hidden though its PVs are there")
                continue
            v = self.view[a]
            got = v["value"]
            if a == "tab":
                got = {k: x for k, x in got.items() if k != "typeid"}
            sim.check(got == want, PROP, "value_wrong",
                      f"{when}: {a} shows {got!r}, its PV is {want!r}")
            sim.check(v["alarm"]["severity"] == sev, PROP, "alarm_wrong",
                      f"{when}: {a} has alarm {v['alarm']}, its PV severity {sev}")
            ts = (v["timeStamp"]["secondsPastEpoch"], v["timeStamp"]["nanoseconds"])
            if stamp:
                sim.check(ts == stamp, PROP, "stamp_wrong",
                          f"{when}: {a} has time {ts}, its PV {stamp}")
            meta = v["meta"]
            if a == "cho":
                sim.check(meta["choices"] == ENUMS, PROP, "meta_wrong", str(meta))
            if a in ("dbl", "ror", "wav"):
                sim.check(meta["display"]["limitHigh"] == len(ATTRS[a][2]) + 10.0, PROP,
                          "meta_wrong", f"{when}: {a} {meta}")

    def check_puts(self):
        """Every put reached its PV at most once; one that worked, exactly once"""
        sim = self.sim
        for a in self.cfg["parts"]:
            if a not in ATTRS or not ATTRS[a][1]:
                continue
            got = [repr(p[1]) for p in self.ioc.records[ATTRS[a][1]].puts]
            issued = [repr(p["v"]) for p in self.puts if p["a"] == a
                      and p["ok"] != "refused"]
            done = [repr(p["v"]) for p in self.puts if p["a"] == a and p["ok"] is True]
            for v in set(got + issued):
                n, lo, hi = got.count(v), done.count(v), issued.count(v)
                sim.check(lo <= n <= hi, PROP, "not_once",
                          f"{v} written {n} times to the PV of {a}: {hi} puts, "
                          f"{lo} of them worked")

    def disabled_since(self, seq):
        since = None
        for s, t, v in self.updates.get("state", ()):
            if s > seq:
                break
            since = s if v["value"] == "Disabled" else None
        return since

    def check_history(self):
        """Everything shown is something the PV was, in order"""
        sim = self.sim
        for a in self.cfg["parts"]:
            if a not in ATTRS:
                continue
            kind, pv, rbv, throw = ATTRS[a]
            hist = self.ioc.records[rbv].history
            by_stamp = {h[3]: n for n, h in enumerate(hist)}
            last = -1
            for seq, t, v in self.updates.get(a, ()):
                ts = (v["timeStamp"]["secondsPastEpoch"], v["timeStamp"]["nanoseconds"])
                sev = v["alarm"]["severity"]
                n = by_stamp.get(ts)
                if n is None or hist[n][0] > seq:
                    continue
                h = hist[n]
                if sev == 4:
                    continue
                since = self.disabled_since(seq)
                if since is not None:
                    busy = any(p["a"] == a and p["s0"] < seq and (
                        p["s1"] is None or p["s1"] > since) for p in self.puts)
                    sim.check(busy or h[0] < since, PROP, "updated_disabled",
                              f"{a} showed {v['value']!r} of {ts} while Disabled")
                sim.check(v["value"] == shown(kind, h[1]) and sev == h[2], PROP,
                          "mixed", f"{a} showed {v['value']!r} severity {sev} at {ts}, "
                          f"the PV was {h[1]!r} severity {h[2]}")
                sim.check(n >= last, PROP, "went_back",
                          f"{a} showed {v['value']!r} of {ts} after a later one")
                last = max(n, last)
