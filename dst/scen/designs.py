"""Manager Blocks: saved designs on a failing disk, layout, exports, modified"""
import os

import cothread
from annotypes import Anno, Array, add_call_types

from malcolm.core import (
    NumberMeta,
    Part,
    Port,
    Post,
    Process,
    Put,
    StringMeta,
    Subscribe,
    Table,
    TableMeta,
    config_tag,
)
from malcolm.modules.builtin.controllers import ManagerController, StatefulController
from malcolm.modules.builtin.hooks import SaveHook
from malcolm.modules.builtin.parts import ChildPart
from malcolm.modules.builtin.util import ExportTable, LayoutTable

from ..faultfs import FaultFS
from ..runner import Scenario, base_cfg
from ..util import Responses, plain

PD = "P08"
PE = "P09"

with Anno("number"):
    ANum = int
with Anno("A column"):
    AColA = Array[int]
with Anno("B column"):
    AColB = Array[str]


class Rows(Table):
    def __init__(self, a: AColA, b: AColB) -> None:
        self.a = a
        self.b = b


#: name -> load iteration
CONFIG = {"v1": 1, "tab": 1, "v2": 2, "sink": 3}


class DevicePart(Part):
    """The device of a child Block"""

    def bind(self, scen, world, child):
        self.scen, self.world, self.child = scen, world, child
        self.attrs = {}
        return self

    def setup(self, registrar):
        super().setup(registrar)
        n = self.child
        metas = {
            "v1": (NumberMeta("int32", "a number", tags=[config_tag(1)]), 0),
            "v2": (StringMeta("a string", tags=[config_tag(2)]), ""),
            "tab": (TableMeta.from_table(Rows, "a table", writeable=["a", "b"]),
                    Rows([], [])),
            "sink": (StringMeta("a sink", tags=[
                config_tag(3), Port.INT32.sink_port_tag("ZERO")]), "ZERO"),
            "src": (StringMeta("a source", tags=[
                Port.INT32.source_port_tag(f"{n}.SRC")]), ""),
            "ro": (NumberMeta("float64", "a readback"), 0.0),
        }
        metas["tab"][0].set_tags([config_tag(1)])
        for name in self.scen.cfg["fields"]:
            meta, value = metas[name]
            attr = self.attrs[name] = meta.create_attribute_model(value)
            setter = None
            if name in CONFIG:
                def setter(v, name=name):
                    self.scen.on_put(self, name, v)
            registrar.add_attribute_model(name, attr, setter)
        registrar.add_method_model(self.double)

    @add_call_types
    def double(self, num: ANum, extra: ANum = 1) -> ANum:
        return self.scen.on_call(self, int(num), int(extra))


class OwnPart(Part):
    """A config attribute of the manager itself, and a slow save"""

    def bind(self, scen, world):
        self.scen, self.world = scen, world
        return self

    def setup(self, registrar):
        super().setup(registrar)
        self.gain = NumberMeta(
            "int32", "own", tags=[config_tag(1)]).create_attribute_model(1)
        registrar.add_attribute_model("gain", self.gain, self.set_gain)
        registrar.hook(SaveHook, self.on_save, lambda _: ["context"])

    def set_gain(self, v):
        self.scen.note(self.world, "", "gain", v)
        self.gain.set_value(v)

    def on_save(self, context):
        d = self.scen.sim.uniform("slowsave", 0.0, self.scen.cfg["slow"])
        if d:
            context.sleep(d)
        return {}


class World:
    """One lifetime of the process"""

    def __init__(self, n, fs, root):
        self.n, self.fs, self.root = n, fs, root
        self.devices = {}


class DesignScenario(Scenario):
    name = "designs"
    props = (PD, PE)
    max_time = 20000
    max_ticks = 400000
    needs_disk = True
    real = ("builtin.ManagerController", "builtin.ChildPart",
            "builtin.StatefulController", "core.controller", "core.notifier",
            "core.context", "core.process", "core.hook", "design files as real files",
            "cothread scheduler, locks and queues")
    stubs = ("devices behind the child Blocks", "disk faults, sync and what survives "
             "a crash", "time.time", "scheduler poll", "cross-thread callback pipe")

    def plan(self, rng, size):
        cfg = base_cfg(rng)
        cfg["children"] = rng.choice([1, 2, 3])
        cfg["visible"] = [rng.choice([True, True, False, None])
                          for _ in range(cfg["children"])]
        cfg["fields"] = ["v1", "v2", "tab", "sink", "src", "ro"]
        rng.shuffle(cfg["fields"])
        cfg["slow"] = rng.choice([0.0, 0.01, 0.5])
        cfg["fail_p"] = rng.choice([0.0, 0.0, 0.05])
        cfg["err_p"] = rng.choice([0.0, 0.0, 0.05, 0.2])
        cfg["crash_at"] = rng.choice([None, rng.randrange(1, 40), rng.randrange(1, 15)])
        cfg["mode"] = rng.choice(["kill", "power"])
        cfg["initial"] = rng.random() < 0.4
        ops = []

        def value(name):
            if name == "v1":
                return rng.randrange(0, 4)
            if name == "v2":
                return rng.choice(["", "x", "y", "z" * 50])
            if name == "sink":
                return rng.choice(["ZERO"] + [f"c{i}.SRC" for i in range(
                    cfg["children"])] * 2)
            k = rng.randrange(0, 4)
            return {"a": [rng.randrange(9) for _ in range(k)],
                    "b": [rng.choice("pqr") for _ in range(k)]}

        def child():
            return rng.randrange(cfg["children"])

        for i in range(rng.randrange(3, 22 * size)):
            k = rng.choice(
                ["set"] * 7 + ["save"] * 4 + ["load"] * 3 + ["layout"] * 3
                + ["exports"] * 3 + ["gain", "ro", "ro", "via", "via", "via", "call", "call",
                                     "column", "column", "alarm", "label"])
            op = {"i": i + 1, "k": k, "wait": rng.random() < 0.8,
                  "gap": rng.choice([0.0, 0.0, 0.001, 0.3])}
            if k == "via":
                op["c"] = rng.randrange(12)
                op["v"] = {a: value(a) for a in ("v1", "v2", "tab")}
            elif k == "set":
                op["c"] = child()
                op["a"] = rng.choice(list(CONFIG))
                op["v"] = value(op["a"])
            elif k in ("save", "load"):
                op["d"] = rng.choice(["d1", "d2", "d3"])
                if k == "save" and rng.random() < 0.2:
                    op["d"] = rng.choice(["", "template_x"])
                if k == "load" and rng.random() < 0.15:
                    op["d"] = ""
            elif k == "layout":
                op["rows"] = [[c, rng.randrange(5), rng.random() < 0.6]
                              for c in range(cfg["children"]) if rng.random() < 0.7]
            elif k == "exports":
                rows = []
                for _ in range(rng.randrange(0, 4)):
                    rows.append([child(), rng.choice(
                        ["v1", "v2", "tab", "ro", "double"])])
                seen, out = set(), []
                for c, a in rows:
                    # exported with a name of its own, a shared one, or that of the field
                    name = rng.choice([f"ex{c}{a.capitalize()}"] * 2 + [
                        f"one{a.capitalize()}", "that", a])
                    if not seen & {(c, a), name or a}:
                        seen |= {(c, a), name or a}
                        out.append([c, a, name])
                op["rows"] = out
            elif k == "gain":
                op["v"] = rng.randrange(1, 4)
            elif k in ("ro", "alarm", "label"):
                op["c"] = child()
                op["v"] = rng.randrange(100)
            elif k == "column":
                op["c"] = child()
                op["v"] = [rng.randrange(9) for _ in range(rng.randrange(4))]
            elif k == "call":
                op["c"] = rng.randrange(12)
                op["v"] = rng.randrange(100)
                op["extra"] = rng.choice([None, rng.randrange(5)])
            ops.append(op)
        return {"cfg": cfg, "ops": ops}

    # ---- the devices ----
    def note(self, world, child, name, value):
        """A config value changes: keep its history"""
        h = world.hist.setdefault((child, name), [])
        h.append((self.sim.log("cfg", world.n, child, name, plain(value)),
                  plain(value)))

    def on_put(self, part, name, v):
        sim = self.sim
        w = part.world
        key = f"put.{part.child}.{name}"
        rec = {"c": part.child, "a": name, "s0": sim.log(
            "put+", part.child, name, plain(v)), "v": plain(v), "s1": None,
            "load": w.loading}
        w.puts.append(rec)
        d = sim.uniform(key, 0.0, self.cfg["slow"])
        if d:
            cothread.Sleep(d)
        if w.failing and sim.chance(key + ".f", self.cfg["fail_p"]):
            sim.fault("device_refuses", part.child, name)
            rec["s1"] = sim.log("put-", part.child, name, "failed")
            rec["failed"] = True
            raise ValueError("device refuses")
        self.note(w, part.child, name, v)
        part.attrs[name].set_value(v)
        rec["s1"] = sim.log("put-", part.child, name)

    def on_call(self, part, num, extra):
        self.sim.log("call", part.child, num, extra)
        part.world.calls.append((part.child, num, extra))
        d = self.sim.uniform(f"call.{part.child}", 0.0, self.cfg["slow"])
        if d:
            cothread.Sleep(d)
        return num * 2 + extra

    # ---- requests ----
    def ask(self, w, req, label, limit=200):
        """Send and wait; returns the error, or None, and the value"""
        r = Responses(self.sim, label, req.id)
        req.set_callback(r)
        w.process.get_controller(req.path[0]).handle_request(req)
        w.waiting = r
        end = self.sim.t + limit
        while not r.finals and self.sim.t < end:
            r.wait(0.25)
            if w.fs.dead and not r.finals:
                return "dead", None
        if w.fs.dead:
            return "dead", None
        if not self.sim.check(r.finals, PD, "no_answer", f"{label} not answered"):
            return "lost", None
        fin = r.finals[0]
        if type(fin).__name__ == "Error":
            return fin.message, None
        return None, fin.value

    def new_id(self):
        self.ids += 1
        return 1000 + self.ids

    # ---- model ----
    def config_now(self, w):
        """What is on the devices and the manager: {(child, name): value}"""
        out = {("", "gain"): plain(w.own.gain.value)}
        for c, dev in w.devices.items():
            for a in CONFIG:
                out[(c, a)] = plain(dev.attrs[a].value)
        return out

    def held(self, w, key, s0, s1):
        """Values a config field had between two sequence numbers"""
        out, last = [], None
        for s, v in w.hist.get(key, ()):
            if s <= s0:
                last = [v]
            elif s <= s1:
                out.append(v)
        if last is None:
            last = [w.start[key]]
        return last + out

    def tables(self, w):
        """layout and exports as a client sees them"""
        b = w.manager.block_view()
        lay = {n: (plain(x), plain(y), plain(v)) for n, _, x, y, v in
               b.layout.value.rows()}
        exp = [(s, e) for s, e in b.exports.value.rows()]
        return lay, exp

    # ---- one lifetime ----
    def boot(self, n, fs, root, initial=""):
        sim, cfg = self.sim, self.cfg
        w = World(n, fs, root)
        w.hist, w.start = {}, {}
        w.puts, w.calls = [], []
        w.loading = None
        w.strays = []
        w.unsure = False
        w.failing = False
        w.process = Process("proc")
        for i in range(cfg["children"]):
            c = StatefulController(f"c{i}")
            dev = w.devices[f"c{i}"] = DevicePart("dev").bind(self, w, f"c{i}")
            c.add_part(dev)
            w.process.add_controller(c)
        m = w.manager = ManagerController("M", root, initial_design=initial)
        for i in range(cfg["children"]):
            m.add_part(ChildPart(f"p{i}", f"c{i}",
                                 initial_visibility=cfg["visible"][i]))
        w.own = OwnPart("own").bind(self, w)
        m.add_part(w.own)
        w.process.add_controller(m)
        w.start = self.config_now(w)
        w.process.start()
        # fields it has without any exports
        w.base_fields = set(w.manager.block_view().meta.fields) - {
            n for n, _, _ in self.exported(w)}
        w.saved = None
        return w

    def run(self, sim, plan):
        self.sim = sim
        cfg = self.cfg = plan["cfg"]
        self.ids = 0
        self.designs = {}  # name -> list of acceptable states
        os.mkdir("cfg")
        fs = FaultFS(sim, "cfg", cfg["err_p"]).install()
        fs.mode = cfg["mode"]
        w = self.boot(1, fs, "cfg")
        fs.crash_at = cfg["crash_at"]
        fs.armed = True
        w.failing = True
        sim.check(self.state(w) == "Ready", PD, "no_start", f"{self.state(w)} at start")
        self.clean_state(w)
        for op in plan["ops"]:
            if op["gap"]:
                cothread.Sleep(op["gap"])
            if fs.dead:
                break
            self.do_op(w, op)
        if not fs.dead:
            w.failing = False
            fs.err_p = 0.0
            self.recover(w)
        if not fs.dead:
            self.quiet(w)
            self.check_all(w, "at the end")
            if cfg["crash_at"] is not None or sim.draw("endcrash", 2):
                # pull the plug, nothing being written
                self.crash_idle(fs)
            else:
                fs.crash_at = None
                self.load_all(w)
                return
        if fs.dead:
            sim.probe("restarted")
            names = sorted({r.split("/")[1][:-5] for r in fs.survivors
                            if r.startswith("M/") and r.endswith(".json")
                            and not r.split("/")[1].startswith(".")})
            fs2 = fs.reborn("cfg2")
            fs2.install()
            initial = ""
            if cfg["initial"] and names:
                initial = names[0]
            w2 = self.boot(2, fs2, "cfg2", initial)
            if not sim.check(self.state(w2) == "Ready", PD, "no_restart",
                             f"{self.state(w2)} after restart with design {initial!r}"):
                return
            if initial:
                cothread.Sleep(2)
                sim.probe("initial_design")
                self.judge_loaded(w2, initial, "as initial design")
            self.load_all(w2)

    def crash_idle(self, fs):
        self.sim.fault(f"crash_{fs.mode}", "idle")
        fs.dead = True
        fs.survivors = fs.image()

    def state(self, w):
        return w.manager.block_view().state.value

    def clean_state(self, w):
        """What the modified light compares with from now on"""
        lay, exp = self.tables(w)
        w.saved = {"cfg": self.config_now(w),
                   "vis": {n: v[2] for n, v in lay.items()}, "exp": exp,
                   "seq": self.sim.seq}

    def recover(self, w):
        if self.state(w) != "Ready":
            err, _ = self.ask(w, Post(self.new_id(), ["M", "reset"]), "reset")
            if err == "dead":
                return
            self.sim.check(err is None and self.state(w) == "Ready", PD, "no_recovery",
                           f"reset: {err!r}, {self.state(w)}")

    def quiet(self, w):
        cothread.Sleep(3)

    def do_op(self, w, op):
        sim = self.sim
        k = op["k"]
        i = self.new_id()
        if self.state(w) == "Fault":
            self.recover(w)
            if w.fs.dead:
                return
        s0 = sim.log("op", k, op["i"])
        label = f"{k}{op['i']}"
        if k == "set":
            v = op["v"]
            if op["a"] == "tab":
                v = Rows(**v)
            req = Put(i, [f"c{op['c']}", op["a"], "value"], v)
            if not op["wait"]:
                r = Responses(sim, label, i)
                req.set_callback(r)
                w.process.get_controller(req.path[0]).handle_request(req)
                r.key = (f"c{op['c']}", op["a"])
                w.strays.append(r)
                return
            self.ask(w, req, label)
        elif k == "save":
            self.save(w, op, label, i)
        elif k == "load":
            self.load(w, op["d"], label, i)
        elif k == "layout":
            self.set_layout(w, op, label, i)
        elif k == "exports":
            rows = op["rows"]
            t = ExportTable([f"p{c}.{a}" for c, a, _ in rows], [e for _, _, e in rows])
            err, _ = self.ask(w, Put(i, ["M", "exports", "value"], t), label)
            if err == "dead":
                return
            if sim.check(err is None, PE, "refused", f"{label}: {err!r}"):
                sim.probe("exports")
        elif k == "gain":
            self.ask(w, Put(i, ["M", "gain", "value"], op["v"]), label)
        elif k == "ro":
            w.devices[f"c{op['c']}"].attrs["ro"].set_value(float(op["v"]))
        elif k == "alarm":
            from malcolm.core import Alarm
            w.devices[f"c{op['c']}"].attrs["ro"].set_alarm(
                Alarm.major(f"a{op['v']}") if op["v"] % 2 else Alarm.ok)
        elif k == "label":
            w.devices[f"c{op['c']}"].attrs["v1"].meta.set_label(f"Label {op['v']}")
        elif k == "column":
            # the device changes one column of its table
            dev = w.devices[f"c{op['c']}"]
            attr = dev.attrs["tab"]
            old = plain(attr.value)
            a = (op["v"] + [0] * 9)[:len(old["b"])]
            new = Rows(a, old["b"])
            self.note(w, dev.child, "tab", new)
            attr.set_value(new)
        elif k in ("via", "call"):
            self.via(w, op, label, i)
        if w.fs.dead:
            return
        if sim.draw("look", 3) == 0:
            self.quiet(w)
            if not w.fs.dead:
                self.check_all(w, f"after {label}")

    # ---- save and load ----
    def save(self, w, op, label, i):
        sim = self.sim
        name = op["d"]
        lay, exp = self.tables(w)
        s0 = sim.seq
        current = plain(w.manager.block_view().design.value)
        target = name or current
        before = dict(w.fs.listing())
        err, _ = self.ask(w, Post(i, ["M", "save"], {"designName": name} if name else {}),
                          label)
        s1 = sim.seq
        state = {"lay": lay, "exp": exp, "cfg": {
            k: self.held(w, k, s0, s1) for k in self.config_now(w)}}
        if err == "dead":
            if target and not target.startswith("template_"):
                self.designs.setdefault(target, [None]).append(state)
            return
        if not target or target.startswith("template_"):
            sim.check(err is not None, PD, "bad_save", f"{label} to {target!r} accepted")
            sim.check(w.fs.listing() == before, PD, "bad_save",
                      f"{label} to {target!r} left files")
            return
        if err is not None:
            sim.probe("save_failed")
            w.saved = None
            # the new content may be there or not, but whole
            self.designs.setdefault(target, [None]).append(state)
            sim.check(self.state(w) == "Fault", PD, "wrong_state",
                      f"{label} failed, state {self.state(w)}")
            return
        sim.probe("saved")
        self.designs[target] = [state]
        self.last_saved = s1
        b = w.manager.block_view()
        sim.check(b.design.value == target and target in b.design.meta.choices, PD,
                  "not_listed", f"after {label}: design {b.design.value!r} of "
                  f"{list(b.design.meta.choices)}")
        if not any(len({repr(v) for v in vs}) > 1 for vs in state["cfg"].values()):
            self.clean_state(w)
            w.saved["cfg"] = {k: v[0] for k, v in state["cfg"].items()}
        else:
            w.saved = None  # changed while being saved: what was saved is not known
            sim.probe("saved_while_changing")

    def load(self, w, name, label, i):
        sim = self.sim
        s0 = sim.seq
        settled = all(r.finals for r in w.strays)
        w.loading = label
        err, _ = self.ask(w, Put(i, ["M", "design", "value"], name), label)
        w.loading = None
        if err == "dead":
            return
        known = self.designs.get(name)
        if err is not None:
            failed = [p for p in w.puts if p["s0"] > s0 and p.get("failed")]
            ok = name and (known is None or None in known) or failed
            sim.check(ok, PD, "load_failed", f"{label} of {name!r}: {err!r}")
            if failed:
                w.saved = None
                w.unsure = True
                sim.probe("load_failed")
            return
        sim.probe("loaded")
        if not name:
            w.saved = None
            return
        if settled:
            self.order(w, label, s0)
        stray = [r.key for r in w.strays if r.seq_final is None or r.seq_final > s0]
        stray += [k for k, h in w.hist.items() for s, v in h if s > s0
                 and not any(p["c"] == k[0] and p["a"] == k[1] and p["load"] == label
                             and p["s1"] and s <= p["s1"] and s > p["s0"]
                             for p in w.puts) and k[0]]
        self.judge_loaded(w, name, label, stray)
        if stray:
            w.saved = None
        else:
            self.clean_state(w)

    def order(self, w, label, s0):
        """Fields of one load iteration are all set before the next begins"""
        mine = [p for p in w.puts if p["load"] == label and p["s0"] > s0]
        for p in mine:
            for q in mine:
                if p["c"] == q["c"] and CONFIG[p["a"]] < CONFIG[q["a"]] and q["v"] != \
                        "ZERO":
                    self.sim.check(p["s1"] and p["s1"] < q["s0"], PD, "load_order",
                                   f"{label}: {q['a']} of {q['c']} set before "
                                   f"{p['a']} was done")

    def judge_loaded(self, w, name, label, stray=()):
        sim = self.sim
        known = self.designs.get(name)
        if not sim.check(known, PD, "unknown_design", f"{label}: {name} was never saved"):
            return
        lay, exp = self.tables(w)
        now = self.config_now(w)
        why = []
        for st in known:
            if st is None:
                why.append("never saved")
                continue
            bad = []
            if lay != st["lay"]:
                bad.append(("layout", lay, st["lay"]))
            if exp != st["exp"]:
                bad.append(("exports", exp, st["exp"]))
            for k, vals in st["cfg"].items():
                if now[k] not in vals and k not in stray:
                    bad.append((k, now[k], vals))
            if not bad:
                sim.probe("load_matches")
                return
            why.append(bad)
        sim.violate(PD, "not_restored", f"{label}: {name} not as saved: {why}")

    def load_all(self, w):
        """Every design that can be seen loads as it was saved"""
        sim = self.sim
        b = w.manager.block_view()
        names = [n for n in b.design.meta.choices if n]
        must = sorted(n for n, st in self.designs.items() if None not in st)
        for n in must:
            sim.check(n in names, PD, "design_lost", f"{n} not in {names}")
        for n in names:
            sim.check(n in self.designs, PD, "unknown_design", f"{n} was never saved")
        for n in names:
            if n not in self.designs:
                continue
            err, _ = self.ask(w, Put(self.new_id(), ["M", "design", "value"], n),
                              f"final load {n}")
            if not sim.check(err is None, PD, "design_damaged",
                             f"{n} does not load: {err!r}"):
                self.recover(w)
                continue
            self.judge_loaded(w, n, "final load")
            self.clean_state(w)
            self.quiet(w)
            self.check_modified(w, f"after final load of {n}")

    # ---- layout ----
    def set_layout(self, w, op, label, i):
        sim = self.sim
        lay, _ = self.tables(w)
        want = dict(lay)
        for c, x, vis in op["rows"]:
            want[f"p{c}"] = (x, x + 1, vis)
        rows = [(f"p{c}", "", float(x), float(x + 1), vis) for c, x, vis in op["rows"]]
        t = LayoutTable(*[list(col) for col in zip(*rows)]) if rows else \
            LayoutTable([], [], [], [], [])
        s0 = sim.seq
        before = self.config_now(w)
        err, _ = self.ask(w, Put(i, ["M", "layout", "value"], t), label)
        if err == "dead":
            return
        failed = [p for p in w.puts if p["s0"] > s0 and p.get("failed")]
        if not sim.check(err is None or failed, PE, "refused", f"{label}: {err!r}"):
            return
        if err is not None:
            w.unsure = True  # done in part
            return
        got, _ = self.tables(w)
        if w.unsure:
            # rows that were not written may be as in the layout that failed
            for n in set(got) - {f"p{c}" for c, _, _ in op["rows"]}:
                want[n] = got[n]
            sim.check(got == want, PE, "wrong_layout",
                      f"{label}: {got}, wanted {want}")
            w.unsure = len(op["rows"]) < len(got)
            return
        sim.check(got == want, PE, "wrong_layout", f"{label}: {got}, wanted {want}")
        # sinks connected to what was hidden are disconnected, no others
        hidden = {n for n in want if lay[n][2] and not want[n][2]}
        still = {f"p{c}" for c, _, vis in op["rows"] if not vis} - hidden
        if hidden:
            sim.probe("hidden")
        moved = {k for k, h in w.hist.items() for s, _ in h if s > s0}
        puts = {(p["c"], p["a"]) for p in w.puts if p["s0"] > s0}
        now = self.config_now(w)
        for c in w.devices:
            own = "p" + c[1:]
            v = before[(c, "sink")]
            src = "p" + v[1:].split(".")[0] if v.endswith(".SRC") else None
            must = own in hidden or src in hidden
            if any(r.key == (c, "sink") and (r.seq_final is None or r.seq_final > s0)
                   for r in w.strays):
                continue  # being changed by somebody else
            if must:
                sim.check(now[(c, "sink")] == "ZERO" or (c, "sink") not in puts
                          and (c, "sink") in moved, PE, "still_connected",
                          f"{label}: sink of {own} still {now[(c, 'sink')]} after "
                          f"hiding {sorted(hidden)}")
            elif src in still:
                pass  # connected to what was hidden, and stays so: may be cut
            elif (c, "sink") in puts and before[(c, "sink")] != "ZERO":
                sim.check(now[(c, "sink")] != "ZERO" or self.stray_put(w, s0), PE,
                          "wrongly_severed", f"{label}: sink of {own} was cut from {v} "
                          f"though only {sorted(hidden)} was hidden")

    def stray_put(self, w, s0):
        return any(r.seq_final is None or r.seq_final > s0 for r in w.strays)

    # ---- exports ----
    def exported(self, w):
        """[(export name, child, field)] that should be on the manager"""
        lay, exp = self.tables(w)
        out = []
        for source, name in exp:
            p, a = source.rsplit(".", 1)
            if lay[p][2]:
                out.append((name or a, "c" + p[1:], a))
        return out

    def via(self, w, op, label, i):
        """Put or call through the manager"""
        sim = self.sim
        if self.state(w) != "Ready":
            return
        able = [x for x in self.exported(w) if (
            x[2] == "double" if op["k"] == "call" else x[2] in op["v"])]
        if not able:
            return
        name, child, a = able[op["c"] % len(able)]
        s0 = sim.seq
        if a == "double":
            n0 = len(w.calls)
            args = {"num": op["v"]}
            if op["extra"] is not None:
                args["extra"] = op["extra"]
            err, got = self.ask(w, Post(i, ["M", name], args), label)
            if err == "dead":
                return
            sim.probe("called_via_export")
            want = (child, op["v"], 1 if op["extra"] is None else op["extra"])
            sim.check(err is None and w.calls[n0:] == [want], PE, "export_call",
                      f"{label} {name}({args}): {err!r}, device saw {w.calls[n0:]}")
            if err is None:
                sim.check(got == want[1] * 2 + want[2], PE, "export_call",
                          f"{label} {name}({args}) returned {got!r}")
            return
        v = op["v"][a]
        if a == "tab":
            v = Rows(**v)
        err, _ = self.ask(w, Put(i, ["M", name, "value"], v), label)
        if err == "dead":
            return
        sim.probe("put_via_export")
        mine = [p for p in w.puts if p["s0"] > s0 and p["c"] == child and p["a"] == a]
        want = plain(v)
        for p in mine + [{"v": want}]:
            if isinstance(p["v"], dict):
                p["v"].pop("typeid", None)
        ok = [p for p in mine if p["v"] == want]
        sim.check(len(ok) == 1 or len(mine) > 1 and ok, PE, "export_put",
                  f"{label} {name} = {want}: {err!r}, device saw "
                  f"{[p['v'] for p in mine]}")
        if ok:
            sim.check((err is not None) == bool(ok[0].get("failed")), PE, "export_put",
                      f"{label}: answered {err!r}, device {'failed' if ok[0].get('failed') else 'did it'}")

    def check_all(self, w, when):
        self.check_modified(w, when)
        self.check_exports(w, when)

    def check_exports(self, w, when):
        sim = self.sim
        if self.state(w) != "Ready":
            return
        b = w.manager.block_view()
        want = self.exported(w)
        fields = list(b.meta.fields)
        got = set(fields) - w.base_fields
        sim.check(got == {n for n, _, _ in want}, PE, "wrong_fields",
                  f"{when}: exported fields {sorted(got)}, wanted {want}")
        for name, child, a in want:
            if name not in got:
                continue
            sim.probe("export_compared")
            mine = self.get(w, "M", name)
            theirs = self.get(w, child, a)
            for d in (mine, theirs):
                d.get("meta", {}).pop("label", None)
                d.get("meta", {}).pop("tags", None)
                # follows the state of the manager
                d.get("meta", {}).pop("writeable", None)
            if a == "double":
                for d in (mine, theirs):
                    d.pop("took", None)
                    d.pop("returned", None)
            sim.check(mine == theirs, PE, "export_differs",
                      lambda: f"{when}: {name} is {self.diff(mine, theirs)}")
            full = self.get(w, "M", name)
            sim.check(full["meta"]["label"].replace(" ", "").lower() == name.lower(),
                      PE, "export_label",
                      f"{when}: {name} is labelled {full['meta']['label']!r}")
            sim.check(not [t for t in full["meta"]["tags"] if t.startswith("config")],
                      PE, "export_tags", f"{when}: {name} has {full['meta']['tags']}")

    def get(self, w, mri, name):
        from malcolm.core import Get

        _, value = self.ask(w, Get(self.new_id(), [mri, name]), f"get {mri}.{name}")
        return plain(value)

    def diff(self, a, b, path=""):
        if isinstance(a, dict) and isinstance(b, dict):
            out = []
            for k in sorted(set(a) | set(b)):
                if a.get(k) != b.get(k):
                    out.append(self.diff(a.get(k), b.get(k), f"{path}.{k}"))
            return "; ".join(out)
        return f"{path}: {a!r} not {b!r}"

    # ---- the modified light ----
    def check_modified(self, w, when):
        sim = self.sim
        if w.saved is None or self.state(w) != "Ready":
            return
        lay, exp = self.tables(w)
        now = self.config_now(w)
        diffs = []
        for (c, a), v in now.items():
            if not c:
                continue
            if lay["p" + c[1:]][2] and v != w.saved["cfg"][(c, a)]:
                diffs.append(f"{c}.{a}")
        if {n: v[2] for n, v in lay.items()} != w.saved["vis"]:
            diffs.append("layout")
        if exp != w.saved["exp"]:
            diffs.append("exports")
        b = w.manager.block_view()
        got = bool(b.modified.value)
        msg = b.modified.alarm.message
        sim.probe("modified" if diffs else "unmodified")
        sim.check(got == bool(diffs), PD, "modified_light",
                  f"{when}: modified is {got} ({msg!r}), but changed since save: {diffs}")
        if got and diffs:
            for d in diffs:
                if "." in d:
                    want = "p" + d[1:].replace(".", ".", 1)
                    sim.check(want + ".value = " in msg, PD, "modified_message",
                              f"{when}: {d} changed, message {msg!r}")
            n = len([x for x in msg.split("\n") if x])
            sim.check(n == len(diffs), PD, "modified_message",
                      f"{when}: changed {diffs}, message {msg!r}")
