"""Get/Put/Post against live Blocks: exactly one, right, timely response"""
import cothread
from annotypes import Anno, add_call_types

from malcolm.core import (
    Alarm,
    BooleanMeta,
    ChoiceMeta,
    Context,
    Error,
    Get,
    NumberMeta,
    Part,
    Post,
    Process,
    Put,
    Return,
    StringArrayMeta,
    StringMeta,
)
from malcolm.modules.builtin.controllers import BasicController, StatefulController

from ..runner import Scenario, base_cfg
from ..util import Responses, plain

P = "P01"

with Anno("the context that functions should be performed in"):
    AContext = Context
with Anno("operation number"):
    ANum = int
with Anno("some text"):
    AText = str
with Anno("a result"):
    AResult = str

CHOICES = ["red", "green", "blue"]
ATTRS = ["num", "real", "text", "choice", "flag", "texts", "fixed"]


class Boom(Exception):
    pass


class DevicePart(Part):
    """A device with writeable attributes and methods that take simulated time
    and fail when the plan says so"""

    def bind(self, scen, sim, block):
        self.scen = scen
        self.sim = sim
        self.block = block
        self.attrs = {}
        return self

    def setup(self, registrar):
        super().setup(registrar)
        metas = {
            "num": (NumberMeta("int32", "n", writeable=False), 0),
            "real": (NumberMeta("float64", "r"), 0.0),
            "text": (StringMeta("s"), ""),
            "choice": (ChoiceMeta("c", CHOICES), "red"),
            "flag": (BooleanMeta("b"), False),
            "texts": (StringArrayMeta("sa"), []),
        }
        for name, (meta, init) in metas.items():
            attr = meta.create_attribute_model(init)
            self.attrs[name] = attr

            def setter(value, name=name):
                return self.scen.on_set(self, name, value)

            def ctx_setter(context, value, name=name):
                return self.scen.on_set(self, name, value, context)

            if name == "texts":
                registrar.add_attribute_model(name, attr, ctx_setter, True)
            else:
                registrar.add_attribute_model(name, attr, setter)
        self.attrs["fixed"] = StringMeta("ro").create_attribute_model("init")
        registrar.add_attribute_model("fixed", self.attrs["fixed"])
        registrar.add_method_model(self.act)
        registrar.add_method_model(self.noargs, needs_context=True)

    @add_call_types
    def act(self, num: ANum, text: AText = "dflt") -> AResult:
        return self.scen.on_post(self, "act", num, text)

    @add_call_types
    def noargs(self, context: AContext) -> None:
        self.scen.on_post(self, "noargs", None, None, context)


class RequestsScenario(Scenario):
    name = "requests"
    props = (P,)
    max_time = 5000
    max_ticks = 150000
    real = ("core.controller", "core.process", "core.notifier", "core.models",
            "core.part", "builtin.BasicController", "builtin.StatefulController",
            "cothread scheduler, locks and queues")
    stubs = ("device behind the attribute setters and methods",
             "time.time", "scheduler poll", "cross-thread callback pipe")

    def plan(self, rng, size):
        cfg = base_cfg(rng)
        cfg["blocks"] = rng.choice([1, 1, 2, 3])
        cfg["stateful"] = [rng.random() < 0.4 for _ in range(3)]
        n = rng.randrange(4, 30 * size)
        span = rng.choice([0.01, 0.5, 5.0])
        slow = rng.random() < 0.5
        bad_p = rng.choice([0.0, 0.15, 0.4])
        fail_p = rng.choice([0.0, 0.2, 0.5])
        ops = []
        for i in range(n):
            op = {
                "i": i,
                "t": round(rng.choice([rng.random() * span, 0.0, span / 2]), 4),
                "b": rng.randrange(cfg["blocks"]),
                "k": rng.choice(["get", "get", "put", "put", "put", "post", "post",
                                 "update"]),
                "attr": rng.choice(ATTRS[:-1]),
                "dur": rng.choice([0.0, 0.0, 0.001, 0.1, 1.0] + [20.0] * slow),
                "fail": rng.random() < fail_p,
                # Does the setter update the attribute itself, return a value?
                "ret": rng.random() < 0.3,
                "get": rng.random() < 0.5,
                "when": rng.choice(["start", "end", "end"]),
            }
            if rng.random() < bad_p:
                op["bad"] = rng.choice(["path", "value", "readonly", "deep", "args",
                                        "missing", "wrongkind"])
            if op["k"] == "get":
                op["sub"] = rng.choice(["value", "attr", "block"])
            if op["k"] == "post":
                op["m"] = rng.choice(["act", "act", "noargs"])
                op["deft"] = rng.random() < 0.3
            ops.append(op)
        cfg["stop"] = rng.random() < 0.3
        cfg["stop_t"] = round(rng.random() * span, 4)
        return {"cfg": cfg, "ops": ops}

    # ---- device behaviour ----
    def op_of(self, value):
        return self.by_token.get(repr(plain(value)))

    def value_of(self, op):
        """A value unique to the operation where the type allows it"""
        i = op["i"]
        return {
            "num": i + 1,
            "real": i + 0.5,
            "text": f"v{i}",
            "choice": CHOICES[i % 3],
            "flag": bool(i % 2),
            "texts": [f"a{i}", f"b{i}"],
        }[op["attr"]]

    def set_attr(self, part, name, value):
        attr = part.attrs[name]
        attr.set_value(value)
        # No yield between the set and this: the log is exact
        self.vlog[(part.block, name)].append((self.sim.stamp(), plain(attr.value)))

    def pass_time(self, dur, context):
        if context is not None:
            self.sim.check(isinstance(context, Context), P, "no_context",
                           f"a function that needs a context was given {context!r}")
            context.sleep(dur)
        elif dur:
            cothread.Sleep(dur)

    def on_set(self, part, name, value, context=None):
        sim = self.sim
        key = (part.block, name, repr(plain(value)))
        todo = self.pending_puts.get(key, [])
        if not todo:
            sim.violate(P, "phantom", f"setter of {part.block}.{name} called with "
                        f"{plain(value)!r}: nobody put that")
            return None
        rec = todo.pop(0)
        op = rec["op"]
        rec["calls"] += 1
        sim.log("set", part.block, name, op["i"])
        if op["when"] == "start" and not op["fail"]:
            self.set_attr(part, name, value)
        self.pass_time(op["dur"], context)
        rec["done_seq"] = sim.stamp()
        if op["fail"]:
            sim.fault("setter_raises", op["i"])
            raise Boom(f"boom{op['i']}")
        if op["when"] == "end":
            self.set_attr(part, name, value)
        rec["cur_at_done"] = plain(part.attrs[name].value)
        if op["ret"]:
            return f"ret{op['i']}"

    def on_post(self, part, method, num, text, context=None):
        sim = self.sim
        key = (part.block, method, num, text)
        todo = self.pending_posts.get(key, [])
        if not todo:
            sim.violate(P, "phantom", f"method {part.block}.{method} called with "
                        f"{(num, text)!r}: nobody posted that")
            return None
        rec = todo.pop(0)
        op = rec["op"]
        rec["calls"] += 1
        sim.log("call", part.block, method, op["i"])
        self.pass_time(op["dur"], context)
        rec["done_seq"] = sim.stamp()
        ok = not op["fail"]
        self.last_done[(part.block, method)] = (ok, num, text, op["i"])
        if op["fail"]:
            sim.fault("method_raises", op["i"])
            raise Boom(f"boom{op['i']}")
        if method == "act":
            return f"res{op['i']}"
        return None

    # ---- the run ----
    def run(self, sim, plan):
        self.sim = sim
        cfg = plan["cfg"]
        self.pending_puts = {}
        self.pending_posts = {}
        self.vlog = {}
        self.last_done = {}
        self.recs = []
        self.stopping = False
        process = self.process = Process("proc")
        parts = []
        for b in range(cfg["blocks"]):
            cls = StatefulController if cfg["stateful"][b] else BasicController
            c = cls(f"B{b}")
            part = DevicePart("dev").bind(self, sim, b)
            c.add_part(part)
            parts.append(part)
            process.add_controller(c)
        self.parts = parts
        process.start()
        for b, part in enumerate(parts):
            for name, attr in part.attrs.items():
                self.vlog[(b, name)] = [(sim.stamp(), plain(attr.value))]
        t0 = sim.t
        tasks = [sim.at(t0 + op["t"], self.do_op, op) for op in plan["ops"]]
        stopper = None
        if cfg["stop"]:
            stopper = sim.at(t0 + cfg["stop_t"], self.do_stop)
        for task in tasks:
            task.Wait(300)
        longest = max([op["dur"] for op in plan["ops"]] + [0.0])
        sim.stalls_on = False
        cothread.Sleep(longest + 2.0)
        if stopper is not None:
            try:
                stopper.Wait(200)
            except cothread.Timedout:
                sim.violate(P, "hang", "process stop did not return")
        self.check_history(cfg)
        if not self.stopping:
            self.check_logs(cfg)

    def do_stop(self):
        self.stopping = True
        self.sim.fault("process_stop")
        # Give everything in flight the time it needs: nothing may be dropped
        self.process.stop(timeout=100)
        self.sim.log("stopped")

    def request_for(self, op, rec):
        mri = f"B{op['b']}"
        bad = op.get("bad")
        rid = 1000 + op["i"]
        k = op["k"]
        rec["expect"] = "ok"
        if k == "get":
            path = {"value": [mri, op["attr"], "value"], "attr": [mri, op["attr"]],
                    "block": [mri]}[op["sub"]]
            if bad in ("path", "deep"):
                path = path + ["nosuch"] if len(path) < 3 else [mri, "nosuch"]
                rec["expect"] = "error"
            return Get(rid, path)
        if k == "put":
            value = self.value_of(op)
            name = op["attr"]
            if bad == "path":
                rec["expect"] = "error"
                return Put(rid, [mri, "nosuch", "value"], value, op["get"])
            if bad == "readonly":
                rec["expect"] = "error"
                return Put(rid, [mri, "fixed", "value"], "new", op["get"])
            if bad == "wrongkind":
                rec["expect"] = "error"
                return Put(rid, [mri, "act"], value, op["get"])
            if bad == "value" and name in ("num", "real", "choice"):
                rec["expect"] = "error"
                return Put(rid, [mri, name, "value"], "rubbish", op["get"])
            rec["value"] = value
            key = (op["b"], name, repr(plain(value)))
            self.pending_puts.setdefault(key, []).append(rec)
            rec["expect"] = "boom" if op["fail"] else "ok"
            return Put(rid, [mri, name, "value"], value, op["get"])
        # post
        m = op["m"]
        if bad == "path":
            rec["expect"] = "error"
            return Post(rid, [mri, "nosuch"], {})
        if bad == "wrongkind":
            rec["expect"] = "error"
            return Post(rid, [mri, "text"], {})
        if bad == "args":
            rec["expect"] = "error"
            return Post(rid, [mri, m], {"num": 1, "extra": 2})
        if bad == "missing" and m == "act":
            rec["expect"] = "error"
            return Post(rid, [mri, m], {"text": "x"})
        if bad == "value" and m == "act":
            rec["expect"] = "error"
            return Post(rid, [mri, m], {"num": "rubbish"})
        if m == "act":
            params = {"num": op["i"] + 1}
            text = "dflt"
            if not op["deft"]:
                text = params["text"] = f"t{op['i']}"
            key = (op["b"], m, op["i"] + 1, text)
        else:
            params = {}
            key = (op["b"], m, None, None)
        self.pending_posts.setdefault(key, []).append(rec)
        rec["expect"] = "boom" if op["fail"] else "ok"
        rec["loose"] = m == "noargs"
        return Post(rid, [mri, m], params)

    def do_op(self, op):
        sim = self.sim
        if op["k"] == "update":
            # The device changes by itself
            part = self.parts[op["b"]]
            name = op["attr"]
            value = self.value_of(op)
            if self.stopping:
                return
            sim.log("update", op["b"], name, op["i"])
            self.set_attr(part, name, value)
            return
        if self.stopping:
            return
        rec = {"op": op, "calls": 0}
        request = self.request_for(op, rec)
        cb = Responses(sim, f"{op['k']}{op['i']}", request.id)
        request.set_callback(cb)
        rec.update(cb=cb, request=request, t=sim.t)
        rec["seq"] = sim.log("req", op["k"], op["i"], op["b"], list(request.path))
        self.recs.append(rec)
        controller = self.process.get_controller(f"B{op['b']}")
        controller.handle_request(request)

    # ---- oracles ----
    def check_history(self, cfg):
        sim = self.sim
        for rec in self.recs:
            op, cb = rec["op"], rec["cb"]
            who = f"{op['k']} #{op['i']} {list(rec['request'].path)}"
            if not sim.check(len(cb.finals) == 1, P, "responses",
                             f"{who} got {len(cb.finals)} final responses"):
                continue
            sim.check(not cb.bad_ids, P, "wrong_id",
                      f"{who} got responses with ids {cb.bad_ids}")
            sim.check(not cb.updates, P, "responses", f"{who} got updates")
            final = cb.finals[0]
            ok = isinstance(final, Return)
            expect = rec["expect"]
            loose = rec.get("loose")
            # no other request, however slow, holds this one up
            # (no-argument calls can't be told apart, so any duration goes)
            dur = 0.0 if expect == "error" else op["dur"]
            if op["k"] == "get":
                dur = 0.0
            slack = 2.0 + sim.stalled + cfg["cost"] * 300
            if loose:
                dur = 20.0
            sim.check(cb.t_final - rec["t"] <= dur + slack, P, "late",
                      f"{who} took {cb.t_final - rec['t']:.3f} s, its own work {dur}")
            if loose:
                # matched in bulk below
                sim.probe("ok" if ok else "boom")
                continue
            if expect == "ok":
                sim.probe("ok")
                if not sim.check(ok, P, "wrong_outcome",
                                 f"{who} should succeed, got {final.to_dict()}"
                                 if not ok else ""):
                    continue
            else:
                sim.probe("refused" if expect == "error" else "boom")
                if not sim.check(not ok, P, "wrong_outcome",
                                 f"{who} should fail, got {plain(final)}"):
                    continue
                sim.check(isinstance(final.message, Exception), P, "wrong_outcome",
                          f"{who}: error carries {final.message!r}")
                if expect == "boom":
                    sim.check(f"boom{op['i']}" in str(final.message), P,
                              "wrong_error", f"{who}: error is {final.message!r}")
            if op["k"] in ("put", "post"):
                want = 0 if expect == "error" else 1
                sim.check(rec["calls"] == want, P, "calls",
                          f"{who}: device called {rec['calls']} times")
                if want and rec["calls"]:
                    sim.check(rec["done_seq"] < cb.seq_final, P, "early",
                              f"{who}: answered before it was done")
            if op["k"] == "get" and ok:
                self.check_get(rec, who)
            if op["k"] == "post" and ok:
                sim.check(plain(final.value) == f"res{op['i']}", P, "wrong_value",
                          f"{who}: returned {plain(final.value)}")
            if op["k"] == "put" and ok:
                self.check_put(rec, who)
        n_loose_ok = sum(
            1 for r in self.recs
            if r.get("loose") and r["cb"].finals
            and isinstance(r["cb"].finals[0], Return)
        )
        n_want = sum(1 for r in self.recs if r.get("loose") and r["calls"]
                     and r["expect"] == "ok")
        sim.check(n_loose_ok == n_want, P, "wrong_outcome",
                  f"{n_want} argument-less calls succeeded, {n_loose_ok} Returns")
        left = [k for k, v in self.pending_puts.items() if v]
        left += [k for k, v in self.pending_posts.items() if v]
        sim.check(not left, P, "calls", f"accepted requests never carried out: {left}")

    def values_between(self, b, name, lo, hi):
        """The values an attribute had at some instant in [lo, hi]"""
        log = self.vlog[(b, name)]
        out = []
        for n, (seq, value) in enumerate(log):
            end = log[n + 1][0] if n + 1 < len(log) else float("inf")
            if seq <= hi and end >= lo:
                out.append(value)
        return out

    def check_get(self, rec, who):
        op, cb = rec["op"], rec["cb"]
        value = plain(cb.finals[0].value)
        sim = self.sim
        if op["sub"] == "value":
            got = {op["attr"]: value}
        elif op["sub"] == "attr":
            got = {op["attr"]: value["value"]}
        else:
            got = {a: value[a]["value"] for a in ATTRS}
        for name, v in got.items():
            legal = self.values_between(op["b"], name, rec["seq"], cb.seq_final)
            sim.check(v in legal, P, "stale_read",
                      f"{who}: {name} read as {v!r}, was {legal} meanwhile")

    def check_put(self, rec, who):
        op, cb = rec["op"], rec["cb"]
        value = plain(cb.finals[0].value)
        sim = self.sim
        if not op["get"]:
            sim.check(value is None, P, "wrong_value", f"{who}: returned {value!r}")
        elif op["ret"]:
            sim.check(value == f"ret{op['i']}", P, "wrong_value",
                      f"{who}: returned {value!r}")
        else:
            legal = self.values_between(op["b"], op["attr"], rec["done_seq"],
                                        cb.seq_final)
            legal.append(rec["cur_at_done"])
            sim.check(value in legal, P, "wrong_value",
                      f"{who}: returned {value!r}, was {legal} meanwhile")

    def check_logs(self, cfg):
        """What the block says about each method's last call"""
        sim = self.sim
        for b in range(cfg["blocks"]):
            cb = Responses(sim, f"final{b}", 5)
            req = Get(5, [f"B{b}"])
            req.set_callback(cb)
            self.process.get_controller(f"B{b}").handle_request(req)
            if not sim.check(cb.wait(5.0), P, "responses", "final get unanswered"):
                continue
            block = plain(cb.finals[0].value)
            for name in ATTRS:
                want = self.vlog[(b, name)][-1][1]
                got = block[name]["value"]
                sim.check(got == want, P, "stale_read",
                          f"at rest B{b}.{name} is {got!r}, last set {want!r}")
            for m in ("act", "noargs"):
                done = self.last_done.get((b, m))
                if done is None:
                    continue
                ok, num, text, i = done
                took, returned = block[m]["took"], block[m]["returned"]
                if m == "act":
                    sim.check(took["value"]["num"] == num, P, "method_log",
                              f"B{b}.act last took {num}, log says {took}")
                    sim.check((returned["alarm"]["severity"] == 0) == ok, P,
                              "method_log",
                              f"B{b}.act last call ok={ok}, log says {returned}")
                    if ok:
                        sim.check(returned["value"]["return"] == f"res{i}", P,
                                  "method_log", f"B{b}.act log says {returned}")
