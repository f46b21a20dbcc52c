"""Operations over parts (start, reset, disable, stop) of a stateful Block"""
import cothread
from annotypes import add_call_types

from malcolm.core import (
    Alarm,
    AlarmSeverity,
    NumberMeta,
    Part,
    Post,
    Process,
    Put,
    StringMeta,
)
from malcolm.modules.builtin.controllers import StatefulController
from malcolm.modules.builtin.hooks import DisableHook, HaltHook, InitHook, ResetHook
from malcolm.modules.builtin.infos import HealthInfo, LabelInfo

from ..runner import Scenario, base_cfg
from ..util import Responses, plain
from .states import REST, RESET_STATEFUL, STATEFUL, StateWatch

PH = "P04"
PS = "P05"
HOOKS = {"init": InitHook, "reset": ResetHook, "disable": DisableHook,
         "halt": HaltHook}


class Boom(Exception):
    pass


class WorkerPart(Part):
    def bind(self, scen, n, hooks):
        self.scen = scen
        self.n = n
        self.hooks = hooks
        return self

    def setup(self, registrar):
        super().setup(registrar)
        self.registrar = registrar
        self.calls = 0
        self.attr = NumberMeta("int32", "d").create_attribute_model(0)
        registrar.add_attribute_model(f"num{self.n}", self.attr, self.set_attr)
        registrar.add_attribute_model(
            f"ro{self.n}", StringMeta("r").create_attribute_model(""))
        registrar.add_method_model(self.poke, name=f"poke{self.n}")
        for h in self.hooks:
            def func(context, h=h):
                return self.scen.on_hook(self, h, context)
            registrar.hook(HOOKS[h], func, lambda keys: ["context"])

    def set_attr(self, value):
        self.calls += 1
        self.attr.set_value(value)

    def report(self, severity):
        """Tell the Block how this part is"""
        scen = self.scen
        if self.n in scen.telling:
            return
        text = f"part{self.n} {scen.sim.stamp()}"
        was = scen.reported.get(self.n, (0, ""))
        now = (severity, text if severity else "")
        # while it is being told, either may be shown
        scen.telling[self.n] = [was, now]
        scen.reported[self.n] = now
        scen.sim.log("report", self.n, severity, text)
        alarm = Alarm(AlarmSeverity(severity), message=text) if severity else Alarm.ok
        self.registrar.report(HealthInfo(alarm))
        scen.telling.pop(self.n, None)

    @add_call_types
    def poke(self) -> None:
        self.calls += 1


class StatefulScenario(Scenario):
    name = "stateful"
    props = (PH, PS)
    max_time = 5000
    max_ticks = 150000
    real = ("core.hook", "core.controller", "core.process", "core.stateset",
            "builtin.StatefulController", "core.context", "core.notifier",
            "cothread scheduler, locks and queues")
    stubs = ("what each part does in its hook", "time.time", "scheduler poll",
             "cross-thread callback pipe")

    def plan(self, rng, size):
        cfg = base_cfg(rng)
        cfg["parts"] = rng.choice([1, 2, 3, 5])
        cfg["hooks"] = [
            [h for h in HOOKS if rng.random() < 0.8] for _ in range(cfg["parts"])]
        cfg["tell_p"] = rng.choice([0.0, 0.3])
        cfg["fail_p"] = rng.choice([0.0, 0.1, 0.4])
        cfg["stop_at"] = rng.choice([None, round(rng.random() * 40, 2)])
        cfg["longest"] = rng.choice([0.01, 2.0, 6.0])
        ops = []
        span = rng.choice([5.0, 30.0])
        for i in range(rng.randrange(2, 12 * size)):
            ops.append({
                "i": i, "t": round(rng.random() * span, 2),
                "k": rng.choice(["reset", "reset", "disable", "disable", "put", "poke",
                                 "health", "health"]),
                "p": rng.randrange(cfg["parts"]),
                "sev": rng.randrange(4),
                "wait": rng.random() < 0.6,
            })
        ops.sort(key=lambda o: o["t"])
        return {"cfg": cfg, "ops": ops}

    # ---- what parts do ----
    def on_hook(self, part, hook, context):
        sim = self.sim
        n = self.count.get((part.n, hook), 0)
        self.count[(part.n, hook)] = n + 1
        key = f"hook.{part.n}.{hook}"
        kind = sim.draw(key, 5)
        dur = round(sim.uniform(key + ".d", 0.0, self.longest), 3)
        fails = sim.chance(key + ".f", self.cfg["fail_p"])
        bad_ret = sim.chance(key + ".r", self.cfg["fail_p"] / 4)
        rec = {"p": part.n, "h": hook, "t0": sim.t, "s0": None, "t1": None,
               "s1": None, "out": None, "stop_ok": kind < 4}
        rec["s0"] = sim.log("hook+", part.n, hook, dur, kind)
        self.recs.append(rec)
        out = "ok"
        try:
            if kind == 4:
                cothread.Sleep(dur)  # does not listen to stops
            elif kind == 3:
                for _ in range(4):
                    context.sleep(dur / 4)
            else:
                context.sleep(dur)
            if sim.chance(key + ".h", self.cfg["tell_p"]):
                part.report(sim.draw(key + ".hs", 4))
            if fails:
                sim.fault("hook_raises", part.n, hook)
                out = f"boom{part.n}{hook}{n}"
                raise Boom(out)
            if bad_ret:
                sim.fault("hook_bad_return", part.n, hook)
                out = "badreturn"
                return "rubbish"
        except Boom:
            raise
        except Exception as e:
            out = "stopped" if type(e).__name__ == "AbortedError" else repr(e)
            raise
        finally:
            rec["t1"] = sim.t
            rec["out"] = out
            rec["s1"] = sim.log("hook-", part.n, hook, out)

    # ---- oracle over one operation ----
    def judge(self, what, hook, s0, s1, t0, t1, outcome, quiet, expect_state,
              stalled):
        """outcome: None when it succeeded, else the text of its error"""
        sim = self.sim
        slack = 0.3 + stalled + self.cfg["cost"] * 300
        want = [n for n, hs in enumerate(self.cfg["hooks"]) if hook in hs]
        recs = [r for r in self.recs if r["h"] == hook and s0 <= r["s0"] <= s1]
        got = sorted(r["p"] for r in recs)
        sim.check(got == want, PH, "wrong_parts",
                  f"{what}: ran {hook} on parts {got}, wanted {want}")
        if not recs:
            return
        live = [r["p"] for r in recs if r["s1"] is None or r["s1"] > s1]
        sim.check(not live, PH, "not_waited",
                  f"{what}: answered while parts {live} still run {hook}")
        starts = [r["t0"] for r in recs]
        sim.check(max(starts) - min(starts) <= slack, PH, "not_concurrent",
                  f"{what}: parts started {hook} at {starts}")
        if live:
            return
        bad = sorted((r["s1"], r["t1"], r["out"]) for r in recs
                     if r["out"] not in ("ok", "stopped"))
        end = max(r["t1"] for r in recs)
        if not bad:
            sim.check(outcome is None or not quiet, PH, "wrong_outcome",
                      f"{what}: no part failed but it raised {outcome}")
            sim.check(not [r for r in recs if r["out"] == "stopped"] , PH,
                      "phantom_stop", f"{what}: a part was stopped for no reason")
        else:
            first = bad[0]
            sim.probe("op_failed")
            if quiet:
                names = [b[2] for b in bad if b[1] <= first[1] + 1e-3 + stalled]
                okmsg = outcome is not None and (
                    outcome in names
                    or ("badreturn" in names and "rubbish" in outcome))
                sim.check(okmsg, PH, "wrong_outcome",
                          f"{what}: first failure {first}, answered {outcome!r}")
            late = [r["p"] for r in recs if r["stop_ok"]
                    and r["t1"] > first[1] + slack]
            sim.check(not late, PH, "not_stopped",
                      f"{what}: part failed at {first[1]:.3f}, parts {late} "
                      f"carried on until {[r['t1'] for r in recs]}")
            if any(r["out"] == "stopped" for r in recs):
                sim.probe("others_stopped")
        if quiet:
            sim.check(t1 <= end + slack, PH, "late",
                      f"{what}: parts done at {end:.3f}, ended {t1:.3f}")
            if bad:
                expect_state = "Fault"
            got_state = self.watch.state
            sim.check(got_state == expect_state, PS, "wrong_state",
                      f"{what}: Block is {got_state}, wanted {expect_state}")
            if bad and got_state == "Fault":
                msg = self.watch.view["state"]["alarm"]["message"]
                sim.check(msg == outcome, PS, "wrong_alarm",
                          f"{what}: failed with {outcome!r}, alarm {msg!r}")

    # ---- run ----
    def run(self, sim, plan):
        self.sim = sim
        cfg = self.cfg = plan["cfg"]
        self.longest = cfg["longest"]
        self.count = {}
        self.recs = []
        self.active = []
        self.reported = {}
        self.telling = {}
        process = self.process = Process("proc")
        c = self.controller = StatefulController("B")
        self.parts = []
        for n in range(cfg["parts"]):
            p = WorkerPart(f"p{n}").bind(self, n, cfg["hooks"][n])
            self.parts.append(p)
            c.add_part(p)
        process.add_controller(c)
        fields = {"reset": RESET_STATEFUL, "disable": None}
        ro = ["state", "health"]
        for n in range(cfg["parts"]):
            fields[f"num{n}"] = None
            fields[f"poke{n}"] = None
            ro.append(f"ro{n}")
        s0, t0, st0 = sim.log("start"), sim.t, sim.stalled
        # requests are handled in tasks, so the Block can be watched only from
        # the moment the process starts
        watcher = sim.spawn(self.make_watch, fields, ro)
        process.start(timeout=100)
        watcher.Wait(1)
        bad = [r["out"] for r in self.recs if r["out"] not in ("ok", "stopped")]
        msg = self.watch.view["state"]["alarm"]["message"] if bad else None
        self.judge("start", "init", s0, sim.log("started"), t0, sim.t, msg, True,
                   "Ready", sim.stalled - st0)
        base = sim.t
        tasks = []
        for op in plan["ops"]:
            if op["wait"]:
                d = base + op["t"] - sim.t
                if d > 0:
                    cothread.Sleep(d)
                self.do(op)
            else:
                tasks.append(sim.at(base + op["t"], self.do, op))
        if cfg["stop_at"] is not None:
            d = base + cfg["stop_at"] - sim.t
            if d > 0:
                cothread.Sleep(d)
        for t in tasks:
            t.Wait(200)
        # at rest: nothing runs, the state is one that waits for the user
        sim.check(self.watch.state in REST, PS, "stuck",
                  f"Block left in {self.watch.state}")
        sim.check(all(r["s1"] for r in self.recs), PH, "not_waited", "hook left running")
        # whatever happened, disable and reset recover it
        for p in self.parts:
            while p.n in self.telling:
                cothread.Sleep(0.1)
            p.report(0)
            p.registrar.report(LabelInfo(f"label of {p.n}"))
            sim.check(self.watch.view["meta"]["label"] == f"label of {p.n}", PS,
                      "wrong_label", f"part {p.n} gave the Block a label, it is "
                      f"{self.watch.view['meta']['label']!r}")
        self.cfg["tell_p"] = 0
        sim.stalls_on = False
        self.cfg["fail_p"] = 0
        if self.watch.state != "Disabled":
            self.do({"i": 900, "k": "disable", "p": 0})
        self.do({"i": 901, "k": "reset", "p": 0})
        sim.check(self.watch.state == "Ready", PS, "no_recovery",
                  f"Block in {self.watch.state} after disable and reset")
        v = self.watch.view
        sim.check(v["health"]["value"] == "OK" and v["health"]["alarm"]["severity"] == 0,
                  PS, "wrong_health", f"health {v['health']['value']} when Ready")
        s0 = sim.log("stopping")
        n0 = sim.t
        st0 = sim.stalled
        self.cfg["fail_p"] = plan["cfg"]["fail_p"]
        self.process_stop(s0, n0, st0)

    def process_stop(self, s0, t0, st0):
        sim = self.sim
        try:
            self.process.stop(timeout=30)
        except Exception as e:
            sim.violate(PH, "stop_failed", repr(e))
            return
        s1 = sim.log("stopped")
        live = [r for r in self.recs if r["s1"] is None]
        sim.check(not live, PH, "not_waited", f"process stopped while {live} run")
        for hook in ("halt", "disable"):
            want = [n for n, hs in enumerate(self.cfg["hooks"]) if hook in hs]
            recs = [r for r in self.recs if r["h"] == hook and s0 <= r["s0"] <= s1]
            if hook == "disable" and any(
                    r["out"] not in ("ok", "stopped") for r in self.recs
                    if r["h"] == "halt" and r["s0"] >= s0):
                continue
            got = sorted(r["p"] for r in recs)
            sim.check(got == want, PH, "wrong_parts",
                      f"stop: ran {hook} on {got}, wanted {want}")

    def make_watch(self, fields, ro):
        self.watch = StateWatch(self.sim, PS, self.controller, STATEFUL, fields, ro)
        self.watch.on_state = self.on_state
        self.watch.on_view = self.on_view

    def on_view(self, view):
        """Health is the worst of the state and of what parts reported"""
        sim = self.sim
        state = view["state"]["value"]
        sure = []
        if state in ("Fault", "Disabled"):
            a = view["state"]["alarm"]
            sure.append((a["severity"], a["message"]))
        maybe = [[]]
        for n, r in self.reported.items():
            both = self.telling.get(n)
            maybe = [m + [x] for m in maybe for x in (both or [r])]
        h = view["health"]
        got = (h["alarm"]["severity"], h["value"], h["alarm"]["message"])
        for m in maybe:
            faults = [x for x in sure + m if x[0]]
            if not faults:
                if got[:2] == (0, "OK"):
                    return
            else:
                worst = max(x[0] for x in faults)
                if worst > 1:
                    sim.probe("unwell")
                if any(got == (s, t, t) for s, t in faults if s == worst):
                    return
        sim.violate(PS, "wrong_health",
                    f"health {got}, state {state} {sure}, parts {maybe}")

    def on_state(self, state):
        """Ready or Disabled is shown once the parts are done with what the last
        operation asked of them, whatever earlier ones still do"""
        if state not in ("Ready", "Disabled"):
            return
        on, hooks = (("Resetting", ("init", "reset")) if state == "Ready" else
                     ("Disabling", ("disable",)))
        since = [h[0] for h in self.watch.history if h[2] == on]
        if not since:
            return
        recs = [r for r in self.recs if r["h"] in hooks and r["s0"] > since[-1]]
        if not recs:
            return
        hook = recs[-1]["h"]
        done = {r["p"] for r in recs if r["h"] == hook and r["s1"] is not None}
        busy = [n for n, hs in enumerate(self.cfg["hooks"])
                if hook in hs and n not in done]
        self.sim.check(not busy, PS, "not_done",
                       f"Block is {state} while parts {busy} still run {hook}")

    def do(self, op):
        sim = self.sim
        k = op["k"]
        label = f"{k}{op['i']}"
        part = self.parts[op["p"]]
        if k == "health":
            return part.report(op["sev"])
        if k == "put":
            req = Put(op["i"], ["B", f"num{op['p']}", "value"], op["i"] + 1)
        elif k == "poke":
            req = Post(op["i"], ["B", f"poke{op['p']}"])
        else:
            req = Post(op["i"], ["B", k])
        r = Responses(sim, label, op["i"])
        req.set_callback(r)
        others = list(self.active)
        entry = [label, k, False]
        if k in ("reset", "disable"):
            self.active.append(entry)
            for o in others:
                o[2] = True
            if others:
                sim.probe("overtaking_op")
        calls0 = part.calls
        s0, t0, st0 = sim.log("req", label), sim.t, sim.stalled
        self.controller.handle_request(req)
        answered = r.wait(150)
        s1, t1 = sim.log("done", label), sim.t
        if k in ("reset", "disable"):
            self.active.remove(entry)
        if not sim.check(answered, PS, "no_answer", f"{label} not answered"):
            return
        err = r.finals[0] if type(r.finals[0]).__name__ == "Error" else None
        text = str(err.message) if err is not None else None
        states = self.watch.states_between(s0, r.seq_final)
        allowed = RESET_STATEFUL if k == "reset" else set(STATEFUL) - {
            "Disabling", "Disabled"}
        refused = err is not None and type(err.message).__name__ == "NotWriteableError"
        if refused:
            sim.probe("refused")
            sim.check(any(s not in allowed for s in states), PS, "wrongly_refused",
                      f"{label} refused in {states}")
            if k in ("put", "poke") and not others and not self.active:
                sim.check(part.calls == calls0, PS, "refused_but_done",
                          f"{label} refused yet the device was touched")
            return
        sim.check(any(s in allowed for s in states), PS, "wrongly_accepted",
                  f"{label} accepted in {states}")
        if k in ("put", "poke"):
            sim.check(err is None, PS, "wrong_answer", f"{label}: {text}")
            sim.check(part.calls > calls0, PS, "not_done", f"{label} did nothing")
            return
        if not entry[2]:
            self.judge(label, k, s0, s1, t0, t1, text, True,
                       {"reset": "Ready", "disable": "Disabled"}[k],
                       sim.stalled - st0)
        else:
            sim.probe("overtaken_op")
