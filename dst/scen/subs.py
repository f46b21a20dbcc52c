"""Subscriptions: initial value, order, atomicity, convergence, end"""
import copy

import cothread
from annotypes import Anno, Array, add_call_types
from typing import Sequence, Union

from malcolm.core import (
    Alarm,
    AlarmSeverity,
    AlarmStatus,
    BooleanMeta,
    Delta,
    Error,
    Get,
    NumberMeta,
    Part,
    Post,
    Process,
    Put,
    Return,
    StringArrayMeta,
    StringMeta,
    Subscribe,
    Table,
    TableMeta,
    Unsubscribe,
    Update,
)
from malcolm.modules.builtin.controllers import BasicController
from malcolm.modules.builtin.infos import HealthInfo, LabelInfo

from ..runner import Scenario, base_cfg
from ..util import Responses, plain

P = "P02"

with Anno("column a"):
    AColA = Union[Array[int]]
with Anno("column b"):
    AColB = Union[Array[str]]
UColA = Union[AColA, Sequence[int]]
UColB = Union[AColB, Sequence[str]]


class TwoColumns(Table):
    def __init__(self, a: UColA, b: UColB) -> None:
        self.a = AColA(a)
        self.b = AColB(b)


with Anno("number"):
    ANum = int


class SubsPart(Part):
    def setup(self, registrar):
        super().setup(registrar)
        self.attrs = {
            "left": NumberMeta("int32", "left").create_attribute_model(0),
            "right": NumberMeta("int32", "right").create_attribute_model(0),
            "text": StringMeta("text").create_attribute_model(""),
            "flag": BooleanMeta("flag").create_attribute_model(False),
            "list": StringArrayMeta("list").create_attribute_model([]),
            "tab": TableMeta.from_table(TwoColumns, "tab").create_attribute_model(
                TwoColumns([1], ["x"])),
        }
        registrar.add_attribute_model("left", self.attrs["left"])
        registrar.add_attribute_model("right", self.attrs["right"])
        registrar.add_attribute_model("text", self.attrs["text"], self.put_text)
        registrar.add_attribute_model("flag", self.attrs["flag"])
        registrar.add_attribute_model("list", self.attrs["list"])
        registrar.add_attribute_model("tab", self.attrs["tab"])
        self.method = registrar.add_method_model(self.act)

    def put_text(self, value):
        self.scen.group([["value", "text", value]])

    @add_call_types
    def act(self, num: ANum) -> ANum:
        return num


FIELDS = ["left", "right", "text", "flag", "list", "tab"]
EXTRAS = ["extraOne", "extraTwo"]


def dig(state, path):
    for p in path:
        if isinstance(state, dict) and p in state:
            state = state[p]
        else:
            return None
    return state


class Sub:
    """One subscriber, building its view from what it is sent"""

    def __init__(self, scen, n, path, delta):
        self.scen = scen
        self.n = n
        self.path = path
        self.delta = delta
        self.view = None
        self.started = False
        self.views = []  # (seq, view)
        self.finals = []
        self.after_final = 0
        self.bad = []
        self.unsub_sent = False

    def __call__(self, response):
        sim = self.scen.sim
        if response.id != 100 + self.n:
            self.bad.append(f"id {response.id}")
        if self.finals:
            self.after_final += 1
        if isinstance(response, (Return, Error)):
            self.finals.append(response)
            self.final_seq = sim.log("subend", self.n, type(response).__name__)
            return
        if isinstance(response, Update) and not self.delta:
            self.view = plain(response.value)
        elif isinstance(response, Delta) and self.delta:
            for change in response.changes:
                self.apply(change)
        else:
            self.bad.append(f"unexpected {type(response).__name__}")
        self.views.append((sim.log("view", self.n, len(self.views)),
                           copy.deepcopy(self.view)))

    def apply(self, change):
        path = list(change[0])
        if not path:
            self.view = plain(change[1]) if len(change) == 2 else None
            return
        target = self.view
        for p in path[:-1]:
            if not isinstance(target, dict) or p not in target:
                self.bad.append(f"delta for unknown path {path}")
                return
            target = target[p]
        if not isinstance(target, dict):
            self.bad.append(f"delta for unknown path {path}")
        elif len(change) == 2:
            target[path[-1]] = plain(change[1])
        elif path[-1] in target:
            del target[path[-1]]
        else:
            self.bad.append(f"delta deletes unknown {path}")


class SubsScenario(Scenario):
    name = "subs"
    props = (P,)
    max_time = 2000
    max_ticks = 100000
    real = ("core.notifier", "core.models", "core.controller", "core.process",
            "builtin.BasicController", "cothread scheduler, locks and queues")
    stubs = ("the device changing the attributes", "time.time", "scheduler poll",
             "cross-thread callback pipe")

    def plan(self, rng, size):
        cfg = base_cfg(rng)
        n = rng.randrange(5, 40 * size)
        span = rng.choice([0.005, 0.1, 2.0])
        structural = rng.random() < 0.5
        ops = []
        n_subs = 0
        live = []
        for i in range(n):
            t = round(rng.random() * span, 5)
            r = rng.random()
            if r < 0.3 or n_subs == 0:
                ops.append({"k": "sub", "i": i, "t": round(rng.choice([0, t]), 5),
                            "n": n_subs, "path": self.some_path(rng),
                            "delta": rng.random() < 0.5})
                live.append(n_subs)
                n_subs += 1
            elif r < 0.42 and live:
                ops.append({"k": "unsub", "i": i, "t": t,
                            "n": live.pop(rng.randrange(len(live)))})
            elif r < 0.48:
                ops.append({"k": "post", "i": i, "t": t})
            elif r < 0.54:
                ops.append({"k": "put", "i": i, "t": t})
            else:
                ops.append({"k": "group", "i": i, "t": t,
                            "pause": rng.choice([0, 0, 0, 0.001, 0.02]),
                            "fail": rng.random() < 0.1,
                            "ch": [self.some_change(rng, i, j, structural)
                                   for j in range(rng.choice([1, 1, 2, 3, 5]))]})
        return {"cfg": cfg, "ops": ops}

    def some_path(self, rng):
        r = rng.random()
        f = rng.choice(FIELDS + EXTRAS)
        if r < 0.25:
            return []
        if r < 0.45:
            return [f]
        if r < 0.65:
            return [f, "value"]
        if r < 0.75:
            return rng.choice([["tab", "value", "a"], ["tab", "value", "b"],
                               ["tab", "value"]])
        if r < 0.83:
            return [f, rng.choice(["alarm", "timeStamp", "meta"])]
        if r < 0.89:
            return [f, "meta", rng.choice(["label", "tags", "writeable"])]
        if r < 0.93:
            return rng.choice([["act"], ["act", "took"], ["act", "returned"]])
        if r < 0.945:
            return rng.choice([["tab", "meta", "elements"],
                               ["tab", "meta", "elements", "a"],
                               ["tab", "meta", "elements", "b", "label"]])
        if r < 0.97:
            return rng.choice([["meta"], ["meta", "fields"], ["meta", "label"],
                               ["health"], ["health", "alarm"]])
        return rng.choice([["nosuch"], ["nosuch", "value"], [f, "nosuch"]])

    def some_change(self, rng, i, j, structural):
        u = i * 10 + j
        r = rng.random()
        if structural and r < 0.2:
            return [rng.choice(["add", "add", "remove"]), rng.choice(EXTRAS), u]
        if r < 0.45:
            # left + right == 0 always holds outside a group
            return ["pair", rng.choice([u, u, 0])]
        if r < 0.6:
            return ["value", rng.choice(["text", "list", "flag"]), u]
        if r < 0.78:
            return ["tab", rng.choice(["a", "b", "ab"]), u]
        if r < 0.88:
            return ["alarm", rng.choice(FIELDS), u]
        if r < 0.9:
            return ["elem", rng.choice(["a", "b"]), u]
        if r < 0.93:
            return ["health", rng.choice([0, 1, 2, 3]), u]
        if r < 0.94:
            return ["title", u]
        return ["meta", rng.choice(FIELDS), rng.choice(["label", "tags",
                                                        "writeable"]), u]

    # ---- changes to the block, each group atomic ----
    def snapshot(self):
        """Truth: the models themselves, serialised"""
        state = {}
        for name, attr in self.models.items():
            state[name] = plain(attr.to_dict())
        self.states.append((self.sim.stamp(), state))

    def group(self, changes, pause=0, fail=False):
        with self.controller.changes_squashed:
            try:
                for n, ch in enumerate(changes):
                    self.change(ch)
                    if pause:
                        cothread.Sleep(pause)
                    if fail and n == len(changes) // 2:
                        raise RuntimeError("device error inside a group")
            finally:
                self.sim.log("group", [str(c) for c in changes])
                self.snapshot()

    def change(self, ch):
        kind = ch[0]
        if kind == "pair":
            self.models["left"].set_value(ch[1])
            self.models["right"].set_value(-ch[1])
        elif kind == "value":
            name, u = ch[1], ch[2]
            value = {"text": u if isinstance(u, str) else f"v{u}",
                     "list": [f"l{u}"], "flag": bool(hash(str(u)) and len(str(u)) % 2)
                     }[name]
            self.models[name].set_value(value)
        elif kind == "tab":
            cur = self.models["tab"].value
            a, b = cur.a, cur.b
            if ch[1] == "ab":
                a, b = [ch[2], ch[2] + 1], [f"x{ch[2]}", "y"]
            elif ch[1] == "a":
                a = [ch[2]] * len(cur.a)
            else:
                b = [f"z{ch[2]}"] * len(cur.b)
            self.models["tab"].set_value(TwoColumns(a, b))
        elif kind == "alarm":
            self.models[ch[1]].set_alarm(Alarm(
                AlarmSeverity.MAJOR_ALARM, AlarmStatus.DEVICE_STATUS, f"m{ch[2]}"))
        elif kind == "meta":
            meta = self.models[ch[1]].meta
            if ch[2] == "label":
                meta.set_label(f"label{ch[3]}")
            elif ch[2] == "tags":
                meta.set_tags([f"tag{ch[3]}"])
            else:
                meta.set_writeable(bool(ch[3] % 2))
        elif kind == "health":
            # how well the Block is, as the part reports it
            alarm = Alarm.ok if ch[1] == 0 else Alarm(
                AlarmSeverity(ch[1]), AlarmStatus.DEVICE_STATUS, f"h{ch[2]}")
            self.part.registrar.report(HealthInfo(alarm))
        elif kind == "title":
            self.part.registrar.report(LabelInfo(f"title{ch[1]}"))
        elif kind == "elem":
            self.models["tab"].meta.elements[ch[1]].set_label(f"col{ch[2]}")
        elif kind == "add":
            attr = StringMeta("extra").create_attribute_model(f"e{ch[2]}")
            self.controller.add_block_field(ch[1], attr, None, False)
            self.models[ch[1]] = attr
            self.sim.probe("field_added")
        elif kind == "remove" and ch[1] in self.models:
            self.controller._block.remove_endpoint(ch[1])
            del self.models[ch[1]]
            self.sim.probe("field_removed")

    # ---- the run ----
    def run(self, sim, plan):
        self.sim = sim
        self.states = []
        self.subs = {}
        process = self.process = Process("proc")
        c = self.controller = BasicController("C")
        part = SubsPart("dev")
        part.scen = self
        self.part = part
        c.add_part(part)
        process.add_controller(c)
        process.start()
        self.models = dict(part.attrs)
        self.snapshot()
        self.requests = []
        t0 = sim.t
        tasks = [sim.at(t0 + op["t"], self.do_op, op) for op in plan["ops"]]
        for task in tasks:
            task.Wait(500)
        sim.stalls_on = False
        cothread.Sleep(3.0)
        cb = Responses(sim, "final", 1)
        req = Get(1, ["C"])
        req.set_callback(cb)
        c.handle_request(req)
        if not sim.check(cb.wait(5), P, "unanswered", "final Get unanswered"):
            return
        self.final = plain(cb.finals[0].value)
        for n in sorted(self.subs):
            self.check_sub(self.subs[n])

    def do_op(self, op):
        k = op["k"]
        sim = self.sim
        if k == "group":
            try:
                self.group(op["ch"], op["pause"], op["fail"])
            except RuntimeError:
                sim.fault("device_error_in_group")
        elif k == "put":
            req = Put(7, ["C", "text", "value"], f"put{op['i']}")
            self.controller.handle_request(req)
        elif k == "post":
            req = Post(7, ["C", "act"], {"num": op["i"]})
            self.controller.handle_request(req)
        elif k == "sub":
            sub = Sub(self, op["n"], op["path"], op["delta"])
            self.subs[op["n"]] = sub
            req = Subscribe(100 + op["n"], ["C"] + op["path"], op["delta"])
            req.set_callback(sub)
            sub.t_req = sim.log("subscribe", op["n"], op["path"], op["delta"])
            self.controller.handle_request(req)
        elif k == "unsub":
            sub = self.subs.get(op["n"])
            if sub is None:
                return  # its subscribe comes later: then it just stays live
            req = Unsubscribe(100 + op["n"])
            req.set_callback(sub)
            sub.unsub_sent = True
            sim.log("unsubscribe", op["n"])
            self.controller.handle_request(req)

    # ---- oracles ----
    def project(self, sub, state):
        """What a subscriber at this path should see of a true state; only
        the fields the harness drives are compared"""
        if not sub.path:
            return {k: state.get(k) for k in FIELDS + EXTRAS}
        return dig(state, sub.path)

    def seen(self, sub, view):
        if not sub.path:
            view = view or {}
            return {k: view.get(k) for k in FIELDS + EXTRAS}
        return view

    def check_sub(self, sub):
        sim = self.sim
        who = f"subscriber {sub.n} of {sub.path or 'block'} delta={sub.delta}"
        if (sub.finals and isinstance(sub.finals[0], Error) and sub.views
                and sub.views[0][0] > sub.final_seq):
            sim.violate(P, "unsubscribe_overtakes_subscribe",
                        f"{who}: Unsubscribe sent after Subscribe was handled "
                        "before it while the Block was busy: answered Error, "
                        "subscription stays alive")
            return
        sim.check(not sub.bad, P, "malformed", f"{who}: {sub.bad}")
        sim.check(sub.after_final == 0, P, "after_end",
                  f"{who}: {sub.after_final} messages after the final response")
        if not sim.check(len(sub.views) >= 1, P, "no_initial",
                         f"{who} got no initial value"):
            return
        sim.check(len(sub.finals) == (1 if sub.unsub_sent else 0), P, "end",
                  f"{who} unsubscribed={sub.unsub_sent}: finals {sub.finals}")
        if sub.finals:
            sim.check(isinstance(sub.finals[0], Return), P, "end",
                      f"{who}: ended with {sub.finals[0]}")
            sim.probe("unsubscribed")
        if not sub.unsub_sent:
            # at rest the view is what a Get of the block gives
            sim.probe("converged")
            want = dig(self.final, sub.path)
            sim.check(sub.view == want, P, "diverged",
                      lambda: f"{who} at rest sees {sub.view}, block has {want}")
        if sub.path and sub.path[0] not in FIELDS + EXTRAS + ["nosuch"]:
            return
        # true states from the one current at the initial value onwards
        first = sub.views[0][0]
        start = max(i for i, (seq, _) in enumerate(self.states) if seq < first)
        want = []
        for seq, state in self.states[start:]:
            p = self.project(sub, state)
            if not want or want[-1] != p:
                want.append(p)
        got = []
        for _, view in sub.views:
            v = self.seen(sub, view)
            if not got or got[-1] != v:
                got.append(v)
        if sub.unsub_sent:
            want = want[: len(got)]
        if got != want:
            n = next((i for i in range(min(len(got), len(want)))
                      if got[i] != want[i]), min(len(got), len(want)))
            g = got[n] if n < len(got) else "nothing"
            w = want[n] if n < len(want) else "nothing"
            if isinstance(g, dict) and isinstance(w, dict):
                ks = [k for k in w if g.get(k) != w[k]]
                g, w = {k: g.get(k) for k in ks}, {k: w[k] for k in ks}
            sim.violate(P, "wrong_sequence",
                        f"{who}: view {n} is {g}, block was {w}")
