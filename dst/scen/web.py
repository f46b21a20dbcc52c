"""Proxies of remote Blocks and websocket sessions over a simulated network"""
import copy
import json

import cothread
from annotypes import Anno, add_call_types

from malcolm.core import (
    ChoiceMeta,
    Error,
    Get,
    NumberMeta,
    Part,
    Post,
    Process,
    Put,
    Return,
    StringMeta,
    Subscribe,
    Unsubscribe,
)
from malcolm.modules.builtin.controllers import BasicController, ProxyController

from ..runner import Scenario, base_cfg
from ..simweb import RawClient, WebNet, in_subnet, install_interfaces
from ..util import Responses, plain
from .subs import EXTRAS, FIELDS, Sub, SubsPart, SubsScenario, dig

P10, P11 = "P10", "P11"

with Anno("unique"):
    AUniq = int
with Anno("seconds"):
    ADur = float
with Anno("fail"):
    AFail = bool


class DevicePart(Part):
    """Records everything that reaches the device"""

    def bind(self, scen):
        self.scen = scen
        return self

    def setup(self, registrar):
        super().setup(registrar)
        self.num = NumberMeta("int32", "num").create_attribute_model(0)
        self.mode = ChoiceMeta("mode", ["one", "two"]).create_attribute_model("one")
        self.fixed = StringMeta("fixed").create_attribute_model("fixed")
        registrar.add_attribute_model("num", self.num, self.put_num)
        registrar.add_attribute_model("mode", self.mode, self.put_mode)
        registrar.add_attribute_model("fixed", self.fixed)
        registrar.add_method_model(self.work)

    def put_num(self, value):
        dur = self.scen.durations.get(("num", value), 0)
        self.scen.reach("put", value)
        if dur:
            cothread.Sleep(dur)
        if value % 7 == 3:
            raise ValueError(f"device refuses {value}")
        self.num.set_value(value)
        self.scen.numbers.append(value)

    def put_mode(self, value):
        self.scen.reach("mode", value)
        self.mode.set_value(value)

    @add_call_types
    def work(self, uniq: AUniq, secs: ADur = 0.0, fail: AFail = False) -> AUniq:
        self.scen.reach("post", uniq)
        if secs:
            cothread.Sleep(secs)
        if fail:
            raise ValueError(f"work {uniq} failed")
        return uniq * 3


def net_cfg(rng):
    return {
        "latency": rng.choice([0.0, 0.002, 0.05]),
        "slow_p": rng.choice([0, 0, 0.02, 0.1]),
        "slow_s": rng.choice([0.2, 2.0]),
        "notice": rng.choice([0.0, 0.05, 2.0]),
        "tornado": rng.choice([0.0, 0.001, 0.02]),
    }


class WebBase(SubsScenario):
    """A server with a Block C whose true states are known"""

    max_time = 3000
    max_ticks = 300000

    def shrink_cfg(self, cfg):
        yield from super().shrink_cfg(cfg)
        for k in ("latency", "slow_p", "notice", "tornado", "chain"):
            if cfg.get(k):
                c = dict(cfg)
                c[k] = 0
                yield c

    def start_server(self, sim, plan, validate=False, extra=None):
        from malcolm.modules.web.controllers import HTTPServerComms
        from malcolm.modules.web.parts import WebsocketServerPart

        self.sim = sim
        self.states = []
        self.subs = {}
        self.reached = []
        self.durations = {}
        self.numbers = [0]  # values num has had
        self.net = WebNet(sim, plan["cfg"]).install()
        install_interfaces()
        server = self.server = Process("server")
        web = self.web = HTTPServerComms("WEB", 8008)
        web.add_part(WebsocketServerPart("ws", validate))
        if extra:
            web.add_part(extra())
        server.add_controller(web)
        c = self.controller = BasicController("C")
        part = SubsPart("dev")
        part.scen = self
        self.part = part
        c.add_part(part)
        dev = self.dev = DevicePart("dev2").bind(self)
        c.add_part(dev)
        server.add_controller(c)
        server.start()
        self.models = dict(part.attrs)
        self.snapshot()

    def reach(self, kind, value):
        self.sim.log("reach", kind, value)
        self.reached.append((kind, value))

    def get(self, controller, path):
        cb = Responses(self.sim, "get", 1)
        req = Get(1, path)
        req.set_callback(cb)
        controller.handle_request(req)
        return plain(cb.finals[0].value) if cb.wait(5) and isinstance(
            cb.finals[0], Return) else None

    def match_states(self, prop, who, views, project, exact):
        """views in order must be among the true states, in order; with exact
        none after the first may be left out"""
        want = []
        for _, state in self.states:
            p = project(state)
            if not want or want[-1] != p:
                want.append(p)
        got = []
        for v in views:
            if not got or got[-1] != v:
                got.append(v)
        pos = -1
        for v in got:
            j = pos + 1
            while j < len(want) and want[j] != v:
                j += 1
            if j >= len(want):
                near = want[min(pos + 1, len(want) - 1)]
                self.sim.violate(prop, "wrong_sequence",
                                 f"{who} saw, after state {pos}, what the Block "
                                 f"never was: {leaf_diff(v, near)[:5]}")
                return
            pos = j
        if exact and got != want[len(want) - len(got):]:
            self.sim.violate(prop, "skipped_state",
                             f"{who} did not see every state: saw {len(got)} of "
                             f"{len(want)}")


def leaf_diff(have, want, path=""):
    """[path: has x, should be y]"""
    if isinstance(have, dict) and isinstance(want, dict):
        out = []
        for k in sorted(set(have) | set(want)):
            if k not in have:
                out.append(f"{path}.{k} missing")
            elif k not in want:
                out.append(f"{path}.{k} not on server")
            else:
                out += leaf_diff(have[k], want[k], f"{path}.{k}")
        return out
    return [] if have == want else [f"{path} is {have}, server has {want}"]


class ProxyScenario(WebBase):
    name = "proxy"
    props = (P10,)
    real = ("web.WebsocketClientComms, HTTPServerComms, WebsocketServerPart",
            "builtin.ProxyController, ClientComms", "core (all)",
            "tornado IOLoop and coroutines", "cothread scheduler, locks and queues")
    stubs = ("TCP, HTTP upgrade and websocket framing (ordered streams that "
             "break)", "asyncio selector loop", "the device", "time.time",
             "scheduler poll", "cross-thread callback pipe")

    def plan(self, rng, size):
        cfg = base_cfg(rng)
        cfg.update(net_cfg(rng))
        cfg["chain"] = rng.random() < 0.4
        n = rng.randrange(5, 40 * size)
        span = rng.choice([0.05, 1.0, 5.0])
        structural = rng.random() < 0.5
        faulty = rng.random() < 0.6
        ops = []
        n_subs = 0
        for i in range(n):
            t = round(rng.random() * span, 5)
            r = rng.random()
            if r < 0.12:
                ops.append({"k": "sub", "i": i, "t": t, "n": n_subs,
                            "path": self.some_path(rng),
                            "delta": rng.random() < 0.5})
                n_subs += 1
            elif r < 0.25:
                ops.append({"k": "pput", "i": i, "t": t,
                            "v": rng.choice([i * 7 + 1, i * 7 + 2, i * 7 + 3,
                                             "notanumber"]),
                            "d": rng.choice([0, 0, 0.1, 2.0])})
            elif r < 0.38:
                ops.append({"k": "ppost", "i": i, "t": t,
                            "d": rng.choice([0, 0, 0.1, 2.0]),
                            "fail": rng.random() < 0.2,
                            "bad": rng.random() < 0.1})
            elif r < 0.46 and faulty:
                ops.append(rng.choice([
                    {"k": "drop", "i": i, "t": t, "reset": rng.choice(
                        [None, 0.0, 0.1, 3.0])},
                    {"k": "down", "i": i, "t": t, "for": rng.choice([0.1, 2, 15])},
                    {"k": "comms", "i": i, "t": t, "m": rng.choice(
                        ["reset", "disable", "reset"])},
                ]))
            else:
                ops.append({"k": "group", "i": i, "t": t, "pause": 0,
                            "fail": rng.random() < 0.05,
                            "ch": [self.some_change(rng, i, j, structural)
                                   for j in range(rng.choice([1, 1, 2, 3, 5]))]})
        return {"cfg": cfg, "ops": ops}

    def run(self, sim, plan):
        from malcolm.modules.web.controllers import (
            HTTPServerComms,
            WebsocketClientComms,
        )
        from malcolm.modules.web.parts import WebsocketServerPart

        self.start_server(sim, plan)
        cfg = plan["cfg"]
        client = self.client = Process("client")
        comms = self.comms = WebsocketClientComms("COMMS", "localhost", 8008)
        proxy = self.proxy = ProxyController("C", "COMMS", publish=cfg["chain"])
        client.add_controller(comms)
        client.add_controller(proxy)
        if cfg["chain"]:
            web2 = HTTPServerComms("WEB2", 8009)
            web2.add_part(WebsocketServerPart("ws", False))
            client.add_controller(web2)
        client.start()
        self.calls = []
        self.raw = None
        if cfg["chain"]:
            cothread.Sleep(0.1)
            self.raw = RawClient(self.net, 8009, "127.0.0.1")
            self.rawsub = JsonSub(self, 0, [], True)
            self.raw.on_message = self.rawsub
            self.raw.send(json.dumps({
                "typeid": "malcolm:core/Subscribe:1.0", "id": 100, "path": ["C"],
                "delta": True}))
        t0 = sim.t
        self.disturbed = False
        tasks = [sim.at(t0 + op["t"], self.do_op, op) for op in plan["ops"]]
        for task in tasks:
            task.Wait(500)
        sim.stalls_on = False
        cothread.Sleep(40.0)
        self.finish()

    # ---- operations ----
    def do_op(self, op):
        k = op["k"]
        sim = self.sim
        if k == "group":
            try:
                self.group(op["ch"], 0, op["fail"])
            except RuntimeError:
                sim.fault("device_error_in_group")
        elif k == "sub":
            sub = Sub(self, op["n"], op["path"], op["delta"])
            self.subs[op["n"]] = sub
            req = Subscribe(100 + op["n"], ["C"] + op["path"], op["delta"])
            req.set_callback(sub)
            sim.log("subscribe", op["n"], op["path"], op["delta"])
            self.proxy.handle_request(req)
        elif k == "pput":
            self.durations[("num", op["v"])] = op["d"]
            self.call(op, Put(1000 + op["i"], ["C", "num", "value"], op["v"]))
        elif k == "ppost":
            params = {"uniq": op["i"], "secs": op["d"], "fail": op["fail"]}
            if op["bad"]:
                params["uniq"] = "what"
            self.call(op, Post(1000 + op["i"], ["C", "work"], params))
        elif k == "drop":
            self.disturbed = True
            for link in self.net.links:
                if link.port == 8008:
                    link.drop("network")
            if op["reset"] is not None:
                cothread.Sleep(op["reset"])
                self.post_comms("reset")
        elif k == "down":
            self.disturbed = True
            handlers = self.net.ports.pop(8008, None)
            sim.fault("server_down")
            for link in self.net.links:
                if link.port == 8008:
                    link.drop("server down")
            cothread.Sleep(op["for"])
            if handlers is not None:
                self.net.ports[8008] = handlers
        elif k == "comms":
            self.disturbed = True
            sim.fault("client_" + op["m"])
            self.post_comms(op["m"])

    def post_comms(self, method, timeout=60):
        cb = Responses(self.sim, "comms." + method, 5)
        req = Post(5, ["COMMS", method])
        req.set_callback(cb)
        self.comms.handle_request(req)
        self.sim.check(cb.wait(timeout), P10, "comms_stuck",
                       f"{method} of the client comms unanswered for {timeout} s")
        return cb

    def call(self, op, req):
        sim = self.sim
        cb = Responses(sim, f"call{op['i']}", req.id)
        req.set_callback(cb)
        live = [ln for ln in self.net.links if ln.port == 8008
                and not ln.client_gone and ln.remote]
        state = self.comms.state.value
        self.calls.append((op, cb, sim.t, bool(live)))
        sim.log("call", op["i"], type(req).__name__, bool(live), state)
        self.proxy.handle_request(req)
        if op["k"] == "pput" and not self.disturbed:
            sim.spawn(self.read_back, op, cb)
        if not live and state in ("Fault", "Disabled"):
            # known to be disconnected: refused at once
            stalled = sim.stalled
            ok = cb.wait(1.0 + sim.stalled)
            if not ok and sim.stalled == stalled and self.comms.state.value == state:
                sim.violate(P10, "not_refused",
                            f"call {op['i']} while disconnected ({state}) is not "
                            "answered")
            sim.probe("refused_when_disconnected")

    def read_back(self, op, cb):
        """Who has put a value reads that or a later one"""
        if not cb.wait(100) or not isinstance(cb.finals[0], Return) or self.disturbed:
            return
        now = self.proxy.block_view().num.value
        self.sim.probe("read_back")
        if not (now in self.numbers and self.numbers.index(now)
                >= self.numbers.index(op["v"])):
            self.sim.violate(P10, "read_own_write",
                             f"put of {op['v']} has returned and the proxy has {now}: "
                             f"device had {self.numbers}")

    # ---- oracles ----
    def finish(self):
        sim = self.sim
        sim.log("settle")
        state = self.comms.state.value
        live = [ln for ln in self.net.links if ln.port == 8008 and ln.remote
                and not ln.client_gone]
        sim.check(state in ("Ready", "Fault", "Disabled"), P10, "comms_stuck",
                  f"client comms still {state}")
        if state == "Ready":
            sim.check(live, P10, "ready_unconnected",
                      "client comms is Ready but has no connection")
        else:
            sim.check(self.disturbed, P10, "faulted", f"{state} without any fault")
            cb = self.post_comms("reset")
            if cb.finals and not sim.check(
                    isinstance(cb.finals[0], Return)
                    and self.comms.state.value == "Ready", P10, "no_recovery",
                    f"reset with the server up gives {cb.finals[0]} and "
                    f"{self.comms.state.value}"):
                return
            sim.probe("recovered")
            cothread.Sleep(20.0)
        # the proxy follows again
        self.group([["pair", 777777]])
        cothread.Sleep(20.0)
        truth = self.get(self.controller, ["C"])
        have = self.get(self.proxy, ["C"])
        if have is None:
            sim.violate(P10, "unanswered", "Get of the proxy unanswered")
            return
        self.compare("proxy", have, truth)
        for n in sorted(self.subs):
            sub = self.subs[n]
            who = f"proxy subscriber {n} of {sub.path or 'block'} delta={sub.delta}"
            sim.check(not sub.bad, P10, "malformed", f"{who}: {sub.bad}")
            sim.check(not sub.finals, P10, "ended", f"{who} was ended")
            if not sim.check(sub.views, P10, "no_initial", f"{who} got nothing"):
                continue
            want = dig(have, sub.path)
            sim.check(sub.view == want, P10, "diverged",
                      lambda: f"{who} sees {sub.view}, proxy has {want}")
            self.sequence(sub, who, sub.path)
        if self.raw is not None:
            sub = self.rawsub
            who = "raw client of the republished proxy"
            if sim.check(sub.views, P10, "no_initial", f"{who} got nothing"):
                sim.check(not sub.bad, P10, "malformed", f"{who}: {sub.bad}")
                self.compare(who, sub.view, truth)
                self.sequence(sub, who, [])
                sim.probe("chained")
        for op, cb, t, live in self.calls:
            self.check_call(op, cb, t, live)
        # and works again
        op = {"k": "ppost", "i": 999990, "d": 0, "fail": False, "bad": False}
        before = self.disturbed
        self.disturbed = False
        self.do_op(op)
        cothread.Sleep(20)
        self.check_call(*self.calls[-1])
        self.disturbed = before

    def compare(self, who, have, truth):
        diff = leaf_diff(have, truth)
        if diff:
            self.sim.violate(P10, "diverged",
                             f"{who} at rest differs: {diff[:6]}")
        else:
            self.sim.probe("followed")

    def sequence(self, sub, who, path):
        if path and path[0] not in FIELDS + EXTRAS:
            return
        if path:
            def project(state):
                return dig(state, path)
            views = [v for _, v in sub.views]
        else:
            def project(state):
                return {k: state.get(k) for k in FIELDS + EXTRAS}
            views = [{k: (v or {}).get(k) for k in FIELDS + EXTRAS}
                     for _, v in sub.views]
        self.match_states(P10, who, views, project, not self.disturbed)

    def check_call(self, op, cb, t, live):
        sim = self.sim
        i = op["i"]
        if op["k"] == "pput":
            n = self.reached.count(("put", op["v"]))
            bad = op["v"] == "notanumber"
            fails = bad or op["v"] % 7 == 3
            value = None
        else:
            n = self.reached.count(("post", i))
            bad = op["bad"]
            fails = bad or op["fail"]
            value = i * 3
        who = f"{op['k']} {i}"
        if not sim.check(len(cb.finals) == 1, P10,
                         "unanswered" if not cb.finals else "answered_twice",
                         f"{who} got {len(cb.finals)} final responses"):
            return
        sim.check(not cb.bad_ids, P10, "wrong_id", f"{who}: ids {cb.bad_ids}")
        sim.check(n <= 1, P10, "executed_twice", f"{who} reached the device {n} times")
        r = cb.finals[0]
        if isinstance(r, Return):
            sim.probe("call_ok")
            sim.check(not fails, P10, "wrong_outcome",
                      f"{who} returned though the device refused it")
            sim.check(n == 1, P10, "wrong_outcome",
                      f"{who} returned but never reached the device")
            if value is not None:
                sim.check(plain(r.value) == value, P10, "wrong_outcome",
                          f"{who} gave {r.value}, device returned {value}")
        else:
            sim.probe("call_error")
            if not self.disturbed:
                sim.check(fails, P10, "wrong_outcome", f"{who} failed: {r.message}")
                if fails and not bad:
                    want = (f"device refuses {op['v']}" if op["k"] == "pput"
                            else f"work {i} failed")
                    sim.check(want in str(r.message), P10, "wrong_outcome",
                              f"{who} error says {r.message}, device said {want}")


class JsonSub(Sub):
    """A subscriber at the far end of a websocket"""

    def __call__(self, message):
        d = json.loads(message)
        sim = self.scen.sim
        if d.get("id") != 100 + self.n:
            self.bad.append(f"id {d.get('id')}")
        kind = d["typeid"].split("/")[1].split(":")[0]
        if self.finals:
            self.after_final += 1
        if kind in ("Return", "Error"):
            self.finals.append(d)
            self.final_seq = sim.log("subend", self.n, kind)
            return
        if kind == "Update" and not self.delta:
            self.view = d["value"]
        elif kind == "Delta" and self.delta:
            for change in d["changes"]:
                self.apply(change)
        else:
            self.bad.append(f"unexpected {kind}")
        self.views.append((sim.log("jview", self.n, len(self.views)),
                           copy.deepcopy(self.view)))


IPS = ["127.0.0.1", "::1", "192.168.1.77", "192.168.2.77", "10.2.33.4", "10.3.0.1",
       "172.16.5.5", "8.8.8.8"]
MALFORMED = ["{", "[]", "42", '"x"', "{}", '{"id": %d}',
             '{"typeid": "malcolm:core/Nonsense:1.0", "id": %d}',
             '{"typeid": "malcolm:core/Get:1.0", "id": %d}',
             '{"typeid": "malcolm:core/Get:1.0", "id": %d, "path": []}',
             '{"typeid": "malcolm:core/Get:1.0", "id": %d, "path": ["NOSUCH"]}',
             '{"typeid": "malcolm:core/Get:1.0", "id": %d, "path": ["C", "nosuch"]}',
             '{"typeid": "malcolm:core/Subscribe:1.0", "id": %d, "path": ["NOSUCH"]}',
             '{"typeid": "malcolm:core/Unsubscribe:1.0", "id": %d}',
             '{"typeid": "malcolm:core/Put:1.0", "id": %d, "path": ["C"], "value": 1}',
             '{"typeid": "malcolm:core/Put:1.0", "id": %d, "path": '
             '["C", "fixed", "value"], "value": "no"}',
             '{"typeid": "malcolm:core/Post:1.0", "id": %d, "path": ["C", "nosuch"]}',
             '{"typeid": "malcolm:core/Post:1.0", "id": %d, "path": ["C", "work"], '
             '"parameters": {"wrong": 1}}',
             '{"typeid": "malcolm:core/Return:1.0", "id": %d, "value": 1}']


class Session:
    """One raw websocket client and what it expects"""

    def __init__(self, scen, n, ip, port=8008):
        self.scen = scen
        self.n = n
        self.ip = ip
        self.finals = {}  # id -> [message]
        self.expect = {}  # id -> function(message) -> problem or None
        self.subs = {}  # id -> JsonSub
        self.stray = []
        self.anon_errors = 0
        self.anon_expected = 0
        self.dropped = False
        self.raw = RawClient(scen.net, port, ip)
        self.raw.on_message = self.got

    def got(self, message):
        sim = self.scen.sim
        d = json.loads(message)
        i = d.get("id")
        kind = d["typeid"].split("/")[1].split(":")[0]
        sim.log("got", self.n, i, kind)
        if i in self.subs:
            if kind == "Error" and "Duplicate" in str(d.get("message")):
                self.finals.setdefault(-100 - i, []).append(d)
                return
            self.subs[i](message)
        elif i == -1 and kind == "Error":
            self.anon_errors += 1
        elif i in self.expect and kind in ("Return", "Error"):
            self.finals.setdefault(i, []).append(d)
        else:
            self.stray.append((i, kind))

    def send(self, i, message, expect=None):
        if self.dropped or self.raw.closed:
            return False
        from tornado.websocket import WebSocketClosedError

        if expect is not None:
            self.expect[i] = expect
        try:
            self.raw.send(message if isinstance(message, str)
                          else json.dumps(message))
        except WebSocketClosedError:
            self.dropped = True
            return False
        return True


def is_error(text=None):
    def check(d):
        if not d["typeid"].startswith("malcolm:core/Error"):
            return f"expected an Error, got {d}"
        if text and text not in str(d["message"]):
            return f"expected an Error saying {text}, got {d}"
    return check


def is_return(value=None, any_value=False):
    def check(d):
        if not d["typeid"].startswith("malcolm:core/Return"):
            return f"expected a Return, got {d}"
        if not any_value and d.get("value") != value:
            return f"expected {value}, got {d.get('value')}"
    return check


class SessionScenario(WebBase):
    name = "ws"
    props = (P11,)
    real = ("web.HTTPServerComms, WebsocketServerPart and its handler, "
            "RestfulServerPart", "core (all)", "tornado IOLoop, RequestHandler and "
            "coroutines", "cothread scheduler, locks and queues")
    stubs = ("TCP, HTTP parsing, upgrade and websocket framing", "asyncio selector "
             "loop", "network interfaces", "the device", "time.time",
             "scheduler poll", "cross-thread callback pipe")

    def plan(self, rng, size):
        cfg = base_cfg(rng)
        cfg.update(net_cfg(rng))
        cfg["validate"] = rng.random() < 0.5
        n_sess = rng.randrange(1, 5)
        cfg["ips"] = [rng.choice(IPS) for _ in range(n_sess)]
        n = rng.randrange(5, 50 * size)
        span = rng.choice([0.02, 0.5, 5.0])
        structural = rng.random() < 0.4
        faulty = rng.random() < 0.6
        ops = []
        subs = []
        for i in range(n):
            t = round(rng.random() * span, 5)
            s = rng.randrange(n_sess)
            r = rng.random()
            op = {"i": i, "t": t, "s": s}
            if r < 0.16:
                op.update(k="sub", path=self.some_path(rng), delta=rng.random() < 0.5)
                op["t"] = round(rng.choice([0, t]), 5)
                subs.append((s, i))
            elif r < 0.22 and subs:
                s, n_ = subs.pop(rng.randrange(len(subs)))
                op.update(k="unsub", s=s, n=n_)
            elif r < 0.25 and subs:
                s, n_ = rng.choice(subs)
                op.update(k="dup", s=s, n=n_)
            elif r < 0.33:
                op.update(k="get", path=rng.choice(
                    [["C", "fixed", "value"], ["C"], ["C", "num", "value"],
                     [".", "blocks", "value"]]))
            elif r < 0.43:
                op.update(k="put", v=rng.choice([i * 7 + 1, i * 7 + 2, i * 7 + 3,
                                                 "notanumber"]),
                          d=rng.choice([0, 0, 0.1, 1.0]))
            elif r < 0.53:
                op.update(k="post", d=rng.choice([0, 0, 0.1, 1.0]),
                          fail=rng.random() < 0.2)
            elif r < 0.6:
                op.update(k="malformed", n=rng.randrange(len(MALFORMED)))
            elif r < 0.64:
                op.update(k="rest", m=rng.choice(["get", "getbad", "post", "postfail",
                                                  "postbad", "nomri"]))
            elif r < 0.69 and faulty:
                op.update(k=rng.choice(["drop", "close"]))
            else:
                op.update(k="group", pause=0, fail=rng.random() < 0.05,
                          ch=[self.some_change(rng, i, j, structural)
                              for j in range(rng.choice([1, 1, 2, 3, 5]))])
            ops.append(op)
        return {"cfg": cfg, "ops": ops}

    def run(self, sim, plan):
        from malcolm.modules.web.parts import RestfulServerPart

        cfg = plan["cfg"]
        self.start_server(sim, plan, cfg["validate"],
                          lambda: RestfulServerPart("rest"))
        self.validate = cfg["validate"]
        cothread.Sleep(0.1)
        self.sessions = [Session(self, n, ip) for n, ip in enumerate(cfg["ips"])]
        self.rests = []
        t0 = sim.t
        tasks = [sim.at(t0 + op["t"], self.do_op, op) for op in plan["ops"]]
        for task in tasks:
            task.Wait(500)
        sim.stalls_on = False
        cothread.Sleep(20.0)
        self.sweep(111)
        cothread.Sleep(5.0)
        dead = [ln.dead_writes for ln in self.net.links]
        self.sweep(222)
        cothread.Sleep(5.0)
        for ln, before in zip(self.net.links, dead):
            sim.check(ln.dead_writes == before, P11, "dead_subscription",
                      f"session {ln.n} is closed but its subscriptions live on: "
                      f"{ln.dead_writes - before} messages for it")
        self.final = self.get(self.controller, ["C"])
        if not sim.check(self.final is not None, P11, "unanswered", "local Get"):
            return
        for s in self.sessions:
            self.check_session(s)
        for op, got, expect in self.rests:
            if sim.check(len(got) == 1, P11, "rest_unanswered",
                         f"REST {op['m']} got {len(got)} answers"):
                problem = expect(*got[0])
                sim.check(not problem, P11, "rest_wrong", f"REST {op['m']}: {problem}")
                sim.probe("rest")

    def sweep(self, u):
        """Change everything there is"""
        ch = [["pair", u], ["value", "text", u], ["value", "list", u],
              ["tab", "ab", u], ["tab", "a", u + 1], ["elem", "a", u], ["elem", "b", u]]
        # meta, alarm of every field and the extras
        for f in FIELDS:
            ch += [["alarm", f, u], ["meta", f, "label", u], ["meta", f, "tags", u],
                   ["meta", f, "writeable", 0], ["meta", f, "writeable", 1]]
        for f in EXTRAS:
            ch += [["remove", f, u], ["add", f, u]]
        self.group(ch)
        self.models["flag"].set_value(u % 2 == 0)
        self.snapshot()
        for j in (1, 2):
            # methods and the meta of the Block
            self.local_post(u * 10 + j)
        with self.controller.changes_squashed:
            self.controller._block.meta.set_label(f"L{u}")
        self.snapshot()

    def local_post(self, u):
        for name, params in (("act", {"num": u}), ("work", {"uniq": -u})):
            req = Post(9, ["C", name], params)
            req.set_callback(Responses(self.sim, "local", 9))
            self.controller.handle_request(req)

    # ---- operations ----
    def do_op(self, op):
        k = op["k"]
        sim = self.sim
        i = 1000 + op["i"]
        s = self.sessions[op["s"]]
        allowed = not self.validate or in_subnet(s.ip)
        if k == "group":
            try:
                self.group(op["ch"], 0, op["fail"])
            except RuntimeError:
                sim.fault("device_error_in_group")
        elif k == "sub":
            sub = JsonSub(self, op["i"], op["path"], op["delta"])
            sub.i = i
            sub.n = i - 100
            if s.send(i, {"typeid": "malcolm:core/Subscribe:1.0", "id": i,
                          "path": ["C"] + op["path"], "delta": op["delta"]}):
                s.subs[i] = sub
                sim.log("subscribe", s.n, i, op["path"], op["delta"])
        elif k == "unsub":
            sub = s.subs.get(1000 + op["n"])
            for _ in range(100):
                if sub is None or sub.views:
                    break
                cothread.Sleep(0.1)
            if sub is None or sub.unsub_sent or not sub.views:
                return
            sub.unsub_sent = s.send(None, {
                "typeid": "malcolm:core/Unsubscribe:1.0", "id": sub.i})
            sim.log("unsubscribe", s.n, sub.i)
        elif k == "dup":
            sub = s.subs.get(1000 + op["n"])
            if sub is None or sub.unsub_sent:
                return
            if s.send(-100 - sub.i, {"typeid": "malcolm:core/Subscribe:1.0",
                                     "id": sub.i, "path": ["C"], "delta": True},
                      is_error("Duplicate")):
                sim.fault("duplicate_id")
                sub.dups = getattr(sub, "dups", 0) + 1
        elif k == "get":
            expect = (is_return("fixed") if op["path"][-2:] == ["fixed", "value"]
                      else is_return(any_value=True))
            s.send(i, {"typeid": "malcolm:core/Get:1.0", "id": i, "path": op["path"]},
                   expect)
        elif k == "put":
            self.durations[("num", op["v"])] = op["d"]
            if not allowed:
                expect = is_error("forbidden")
            elif op["v"] == "notanumber":
                expect = is_error()
            elif op["v"] % 7 == 3:
                expect = is_error(f"device refuses {op['v']}")
            else:
                expect = is_return(any_value=True)
            op["allowed"] = allowed
            if s.send(i, {"typeid": "malcolm:core/Put:1.0", "id": i,
                          "path": ["C", "num", "value"], "value": op["v"]}, expect):
                op["sent"] = True
        elif k == "post":
            if not allowed:
                expect = is_error("forbidden")
            elif op["fail"]:
                expect = is_error(f"work {i} failed")
            else:
                expect = is_return(i * 3)
            op["allowed"] = allowed
            if s.send(i, {"typeid": "malcolm:core/Post:1.0", "id": i,
                          "path": ["C", "work"], "parameters":
                          {"uniq": i, "secs": op["d"], "fail": op["fail"]}}, expect):
                op["sent"] = True
        elif k == "malformed":
            text = MALFORMED[op["n"]]
            sim.fault("malformed")
            if "%d" in text:
                s.send(i, text % i, is_error())
            elif s.send(i, text):
                s.anon_expected += 1
        elif k in ("drop", "close"):
            s.dropped = True
            if k == "drop":
                s.raw.link.drop("network")
            else:
                sim.fault("client_close")
                s.raw.link.close_by_client()
        elif k == "rest":
            self.rest(op, i)

    def rest(self, op, i):
        got = []
        m = op["m"]

        def answer(status, reason, body):
            self.sim.log("rest", i, status, reason, body[:60])
            got.append((status, reason, body))

        def ok(value):
            def check(status, reason, body):
                if status != 200 or json.loads(body) != value:
                    return f"expected {value}, got {status} {reason} {body}"
            return check

        def bad(text):
            def check(status, reason, body):
                if status != 500 or text not in reason + body:
                    return f"expected 500 {text}, got {status} {reason} {body}"
            return check

        body = ""
        path = "/rest/C/work"
        method = "POST"
        if m == "get":
            method, path, expect = "GET", "/rest/C/fixed/value", ok("fixed")
        elif m == "getbad":
            method, path, expect = "GET", "/rest/C/nosuch/value", bad("")
        elif m == "nomri":
            method, path, expect = "GET", "/rest/NOSUCH/value", bad("")
        elif m == "post":
            body, expect = json.dumps({"uniq": i}), ok(i * 3)
        elif m == "postfail":
            body, expect = json.dumps({"uniq": i, "fail": True}), bad(
                f"work {i} failed")
        else:
            body, expect = json.dumps({"wrong": 1}), bad("")
        try:
            self.net.rest(8008, method, path, body, answer)
        except ConnectionRefusedError:
            return
        self.rests.append((op, got, expect))

    # ---- oracles ----
    def check_session(self, s):
        sim = self.sim
        who = f"session {s.n} ({s.ip})"
        sim.check(not s.stray, P11, "stray", f"{who} got {s.stray} for nothing it sent")
        alive = not s.dropped
        if alive:
            sim.check(not s.raw.closed, P11, "closed", f"{who} was closed")
            sim.check(s.anon_errors == s.anon_expected, P11, "malformed_unanswered",
                      f"{who} sent {s.anon_expected} unreadable messages and got "
                      f"{s.anon_errors} errors")
            sim.probe("session")
        for i, expect in sorted(s.expect.items()):
            finals = s.finals.get(i, [])
            if i < -1:
                continue
            if not alive:
                sim.check(len(finals) <= 1, P11, "answered_twice",
                          f"{who} request {i}: {finals}")
            elif not sim.check(
                    len(finals) == 1, P11,
                    "unanswered" if not finals else "answered_twice",
                    f"{who} request {i} got {len(finals)} final responses"):
                continue
            for d in finals:
                problem = expect(d)
                sim.check(not problem, P11, "wrong_answer",
                          f"{who} request {i}: {problem}")
                sim.probe("answered")
        for i, sub in sorted(s.subs.items()):
            self.check_jsub(s, sub, who, alive)

    def check_jsub(self, s, sub, who, alive):
        sim = self.sim
        who = f"{who} subscription {sub.i} to {sub.path or 'block'} delta={sub.delta}"
        sim.check(not sub.bad, P11, "malformed", f"{who}: {sub.bad}")
        sim.check(sub.after_final == 0, P11, "after_end",
                  f"{who}: {sub.after_final} messages after its end")
        if alive:
            dups = getattr(sub, "dups", 0)
            got = len(s.finals.get(-100 - sub.i, []))
            sim.check(dups == got, P11, "duplicate_id",
                      f"{who}: {dups} duplicates, {got} errors")
            if not sim.check(sub.views, P11, "no_initial", f"{who} got nothing"):
                return
            sim.check(len(sub.finals) == int(sub.unsub_sent), P11, "end",
                      f"{who} unsubscribed={sub.unsub_sent}: {sub.finals}")
            if sub.finals:
                sim.check("Return" in sub.finals[0]["typeid"], P11, "end",
                          f"{who} ended with {sub.finals[0]}")
                sim.probe("unsubscribed")
            if not sub.unsub_sent:
                want = dig(self.final, sub.path)
                diff = leaf_diff(sub.view, want)
                sim.check(not diff, P11, "diverged", lambda: f"{who}: {diff[:5]}")
                sim.probe("converged")
        elif not sub.views:
            return
        if sub.path and sub.path[0] not in FIELDS + EXTRAS:
            return
        if sub.path:
            def project(state):
                return dig(state, sub.path)
            views = [v for _, v in sub.views]
        else:
            def project(state):
                return {k: state.get(k) for k in FIELDS + EXTRAS}
            views = [{k: (v or {}).get(k) for k in FIELDS + EXTRAS}
                     for _, v in sub.views]
        self.match_states(P11, who, views, project, alive and not sub.unsub_sent)
