"""A process: what it hosts, starts, publishes and stops"""
import cothread
from annotypes import add_call_types

from malcolm.core import (
    APublished,
    Controller,
    Get,
    NumberMeta,
    Part,
    Post,
    Process,
    ProcessPublishHook,
    UnpublishedInfo,
)
from malcolm.modules.builtin.controllers import StatefulController
from malcolm.modules.builtin.hooks import DisableHook, HaltHook, InitHook

from ..runner import Scenario, base_cfg
from ..simweb import WebNet
from ..util import Responses, plain

PROP = "P15"


class Boom(Exception):
    pass


class HostedPart(Part):
    def bind(self, scen, n):
        self.scen = scen
        self.n = n
        return self

    def setup(self, registrar):
        super().setup(registrar)
        registrar.add_attribute_model(
            "num", NumberMeta("int32", "d").create_attribute_model(self.n))
        registrar.add_method_model(self.work)
        for h, name in ((InitHook, "init"), (HaltHook, "halt"), (DisableHook, "disable")):
            def func(context, name=name):
                return self.scen.on_hook(self, name)
            registrar.hook(h, func, lambda keys: ["context"])

    @add_call_types
    def work(self) -> None:
        self.scen.working(self.n)


class LinkPart(Part):
    """Names another Block as a child of this one"""

    def bind(self, mri):
        self.mri = mri
        return self


class PrivateController(StatefulController):
    """Does not want to be published"""

    def init(self):
        super().init()
        return UnpublishedInfo(self.mri)


class ListenController(Controller):
    """A server that is told what to publish"""

    def listen(self, scen):
        self.scen = scen
        self.register_hooked(ProcessPublishHook, self.publish)
        return self

    @add_call_types
    def publish(self, published: APublished) -> None:
        self.scen.on_publish(self.mri, list(published))


class ProcessScenario(Scenario):
    name = "process"
    props = (PROP,)
    max_time = 2000
    max_ticks = 200000
    real = ("core.process, controller, hook, context", "builtin.StatefulController",
            "web.HTTPServerComms (its table of Blocks)",
            "cothread scheduler, locks and queues")
    stubs = ("what parts do in their hooks", "TCP", "time.time", "scheduler poll",
             "cross-thread callback pipe")

    def plan(self, rng, size):
        cfg = base_cfg(rng)
        cfg.update(latency=0.0, slow_p=0.0, slow_s=0.0, tornado=0.0, notice=0.0)
        cfg["longest"] = rng.choice([0.0, 0.01, 1.0, 5.0])
        cfg["fail_p"] = rng.choice([0.0, 0.0, 0.15])
        cfg["private_p"] = rng.choice([0.0, 0.3, 0.8])
        cfg["nest_p"] = rng.choice([0.0, 0.2])
        cfg["link_p"] = rng.choice([0.0, 0.4, 0.8])
        cfg["warm"] = rng.choice([0, 0, 0, rng.randrange(960, 1004)])
        cfg["web"] = rng.random() < 0.3
        cfg["again"] = rng.random() < 0.3
        ops = []
        n = 0
        span = rng.choice([0.02, 1.0, 6.0])

        def some(k):
            nonlocal n
            out = []
            for _ in range(k):
                c = {"n": n, "private": rng.random() < cfg["private_p"],
                     "children": [], "nest": []}
                if n and rng.random() < cfg["link_p"]:
                    c["children"] = sorted({rng.randrange(n) for _ in range(2)})
                n += 1
                out.append(c)
                if rng.random() < cfg["nest_p"]:
                    c["nest"] = [x["n"] for x in some(rng.randrange(1, 3))]
            made.extend(out)
            return out

        made = []
        cfg["first"] = [c["n"] for c in some(rng.randrange(0, 4))]
        cfg["server"] = rng.choice(["first", "last"])
        for i in range(rng.randrange(0, 6 * size)):
            t = round(rng.random() * span, 3)
            k = rng.choices(["add", "work", "get", "twice"], [4, 2, 1, 0.5])[0]
            op = {"i": i, "t": t, "k": k, "p": rng.randrange(8),
                  "d": round(rng.random() * 3, 2)}
            if k == "add":
                op["c"] = [c["n"] for c in some(rng.randrange(1, 3))]
            ops.append(op)
        ops.sort(key=lambda o: o["t"])
        cfg["made"] = sorted(made, key=lambda c: c["n"])
        cfg["spawns"] = rng.randrange(0, 4)
        return {"cfg": cfg, "ops": ops}

    # ---- what the parts do ----
    def on_hook(self, part, name):
        sim = self.sim
        key = f"{name}.{part.n}"
        rec = {"n": part.n, "h": name, "s0": sim.log("hook+", name, part.n), "s1": None}
        self.recs.append(rec)
        try:
            spec = self.cfg["made"][part.n]
            d = sim.uniform(key, 0.0, self.cfg["longest"])
            if name == "init" and spec["nest"]:
                sim.probe("nested_add")
                self.add(spec["nest"])
            if d:
                cothread.Sleep(d)
            if name == "halt":
                for _ in range(self.cfg["spawns"]):
                    self.process.spawn(self.background, 2)
            if sim.chance(key + ".f", self.cfg["fail_p"]):
                sim.fault("hook_raises", name, part.n)
                if name == "init":
                    self.failed_init.add(part.n)
                raise Boom(f"boom {name} {part.n}")
        finally:
            rec["s1"] = sim.log("hook-", name, part.n)

    def background(self, depth):
        """Something spawned, that may spawn more"""
        rec = [self.sim.log("bg+", depth), None]
        self.spawned.append(rec)
        cothread.Sleep(self.sim.uniform("bg", 0.0, 1.0))
        if depth:
            self.process.spawn(self.background, depth - 1)
        rec[1] = self.sim.log("bg-", depth)
        if self.sim.chance("bg.f", 0.2):
            self.sim.fault("spawned_raises")
            raise Boom("background")

    def working(self, n):
        rec = [self.sim.log("work+", n), None]
        self.spawned.append(rec)
        cothread.Sleep(self.sim.uniform("work", 0.0, 3.0))
        rec[1] = self.sim.log("work-", n)

    # ---- hosting ----
    def make(self, n):
        spec = self.cfg["made"][n]
        cls = PrivateController if spec["private"] else StatefulController
        c = cls(f"C{n}")
        c.add_part(HostedPart("p").bind(self, n))
        for i, child in enumerate(spec["children"]):
            c.add_part(LinkPart(f"l{i}").bind(f"C{child}"))
        self.controllers[n] = c
        return c

    def add(self, ns):
        sim = self.sim
        cs = [self.make(n) for n in ns]
        self.added.extend(ns)
        sim.log("add", ns)
        try:
            if len(cs) == 1 and cs[0].mri[-1] in "02468":
                self.process.add_controller(cs[0])
            else:
                self.process.add_controllers(cs)
        except Exception as e:
            sim.violate(PROP, "add_failed", f"adding {ns}: {e!r}")
            return
        sim.log("added", ns)
        if self.running:
            late = [n for n in ns if not self.ran(n, "init")]
            sim.check(not late, PROP, "not_waited",
                      f"adding {ns} returned before {late} were started")

    def ran(self, n, hook, since=0):
        return [r for r in self.recs if r["n"] == n and r["h"] == hook and r["s1"]
                and r["s0"] > since]

    def on_publish(self, server, published):
        sim = self.sim
        sim.log("published", server, published)
        sim.probe("publish")
        mine = {c.mri: n for n, c in self.controllers.items()}
        others = {"S0", "S1", "WEB"}
        seen = self.published.setdefault(server, [])
        for mri in published:
            if mri in others:
                continue
            if not sim.check(mri in mine and mine[mri] in self.added, PROP,
                             "published_unknown", f"{mri} is not hosted"):
                continue
            n = mine[mri]
            sim.check(not self.cfg["made"][n]["private"] or n in self.failed_init, PROP,
                      "published_private", f"{mri} wants not to be published")
        sim.check(len(set(published)) == len(published), PROP, "published_twice",
                  f"{published}")
        if seen:
            gone = [m for m in seen[-1] if m not in published]
            sim.check(not gone, PROP, "unpublished", f"{gone} no longer published")
        for i, mri in enumerate(published):
            parents = [f"C{c['n']}" for c in self.cfg["made"]
                       if mri in [f"C{x}" for x in c["children"]]]
            where = [published.index(p) for p in parents if p in published]
            if where and len(where) == len([p for p in parents if int(p[1:]) in self.added]):
                sim.check(min(where) < i, PROP, "published_order",
                          f"{mri} comes before its parents in {published}")
        seen.append(published)

    # ---- run ----
    def run(self, sim, plan):
        self.sim = sim
        cfg = self.cfg = plan["cfg"]
        self.process = Process("proc")
        if cfg["web"]:
            self.net = WebNet(sim, cfg).install()
        self.spell(plan["ops"], cfg["first"])
        if cfg["again"]:
            sim.probe("started_again")
            self.spell([o for o in plan["ops"] if o["i"] % 2], [])

    def spell(self, ops, first):
        sim, cfg = self.sim, self.cfg
        self.recs = []
        self.spawned = []
        self.added = []
        self.controllers = {}
        self.published = {}
        self.failed_init = set()
        self.running = False
        process = self.process
        servers = ["S0", "S1"]

        def add_servers():
            for s in servers:
                process.add_controller(ListenController(s).listen(self))
            if cfg["web"]:
                from malcolm.modules.web.controllers import HTTPServerComms

                process.add_controller(HTTPServerComms("WEB", 8008))

        if cfg["server"] == "first":
            add_servers()
        if first:
            self.add(first)
        if cfg["server"] == "last":
            add_servers()
        sim.check(not self.recs, PROP, "early", "parts were started before the process")
        self.running = True
        base = sim.t
        tasks = [sim.spawn(self.start)]
        tasks += [sim.at(base + op["t"], self.do, op) for op in ops]
        for t in tasks:
            t.Wait(300)
        # everything there is was started, once, and is published
        sim.log("rest")
        for n in self.added:
            k = len([r for r in self.recs if r["n"] == n and r["h"] == "init"])
            sim.check(k == 1, PROP, "not_once", f"C{n} was started {k} times")
        want = {f"C{n}" for n in self.added if not cfg["made"][n]["private"]}
        want |= set(servers) | ({"WEB"} if cfg["web"] else set())
        # one that failed to start could not say that it is private
        unsure = {f"C{n}" for n in self.failed_init if cfg["made"][n]["private"]}
        for s in servers:
            got = self.published.get(s, [[]])[-1]
            got = [m for m in got if m not in unsure]
            sim.check(set(got) == want, PROP, "not_published",
                      f"{s} publishes {got}, not {sorted(want)}")
        if cfg["web"]:
            got = plain(process.block_view("WEB").blocks.value)["mri"]
            got = [m for m in got if m not in unsure]
            sim.check(sorted(got) == sorted(want), PROP, "not_published",
                      f"WEB lists {got}, not {sorted(want)}")
        sim.check(set(process.mri_list) == set(servers) | {f"C{n}" for n in self.added} | (
            {"WEB"} if cfg["web"] else set()), PROP, "wrong_list", f"{process.mri_list}")
        self.stop()

    def start(self):
        sim = self.sim
        first = list(self.added)
        try:
            self.process.start()
        except Exception as e:
            sim.violate(PROP, "start_failed", repr(e))
            return
        sim.log("started")
        late = [n for n in first if not self.ran(n, "init")]
        sim.check(not late, PROP, "not_waited", f"started before {late} were")
        for s in ("S0", "S1"):
            sim.check(self.published.get(s), PROP, "not_published",
                      f"started, {s} was told nothing")
            got = self.published.get(s, [[]])[-1]
            miss = [n for n in first if f"C{n}" not in got
                    and not self.cfg["made"][n]["private"]]
            sim.check(not miss, PROP, "not_published",
                      f"started, {s} publishes {got}, not {miss}")
        try:
            self.process.start()
        except Exception:
            pass
        else:
            sim.violate(PROP, "started_twice", "start did nothing about it")

    def do(self, op):
        sim = self.sim
        k = op["k"]
        if k == "add":
            self.add(op["c"])
            return
        if not self.added:
            return
        n = self.added[op["p"] % len(self.added)]
        if k == "twice":
            try:
                self.process.add_controller(StatefulController(f"C{n}"))
            except AssertionError:
                sim.probe("refused_duplicate")
            else:
                sim.violate(PROP, "duplicate", f"two controllers called C{n}")
            c = self.process.get_controller(f"C{n}")
            sim.check(c is self.controllers[n], PROP, "duplicate", f"C{n} was replaced")
            return
        req = Post(op["i"], [f"C{n}", "work"]) if k == "work" else Get(
            op["i"], [f"C{n}", "num", "value"])
        r = Responses(sim, f"{k}{op['i']}", op["i"])
        req.set_callback(r)
        self.process.get_controller(f"C{n}").handle_request(req)
        self.asked.append((op, r)) if hasattr(self, "asked") else None

    def stop(self):
        sim, cfg = self.sim, self.cfg
        # tasks that end before anybody waits for them
        for _ in range(cfg["warm"]):
            self.process.spawn(lambda: None)
        asked = []
        for i in range(3):
            if not self.added:
                break
            n = self.added[i % len(self.added)]
            r = Responses(sim, f"last{i}", 700 + i)
            req = Post(700 + i, [f"C{n}", "work"])
            req.set_callback(r)
            self.process.get_controller(f"C{n}").handle_request(req)
            asked.append(r)
        if cfg["cost"]:
            cothread.Sleep(0.01)
        s0 = sim.log("stopping")
        try:
            self.process.stop(timeout=60)
        except Exception as e:
            sim.violate(PROP, "stop_failed", repr(e))
            return
        s1 = sim.log("stopped")
        self.running = False
        left = [r for r in self.recs if r["s1"] is None] + [
            r for r in self.spawned if r[1] is None]
        sim.check(not left, PROP, "not_waited", f"stopped while {left} still run")
        for r in asked:
            sim.check(len(r.finals) == 1, PROP, "not_answered",
                      f"stopped, {r.label} had {len(r.finals)} answers")
        for n in self.added:
            k = len([r for r in self.recs if r["n"] == n and r["h"] == "halt"
                     and r["s0"] > s0])
            sim.check(k == 1, PROP, "not_stopped", f"C{n} was halted {k} times")
        sim.check(not self.process.mri_list, PROP, "left_over",
                  f"stopped, but hosts {self.process.mri_list}")
        try:
            self.process.spawn(lambda: None)
        except Exception:
            pass
        else:
            sim.violate(PROP, "spawned", "spawned in a stopped process")
        cothread.Sleep(10)
        late = [e for e in sim.trace if e[0] > s1 and e[2] in (
            "hook+", "bg+", "work+", "published")]
        sim.check(not late, PROP, "not_waited", f"after stop: {late}")
