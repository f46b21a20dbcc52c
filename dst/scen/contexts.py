"""Clients waiting through a Context: results, deadlines, stops, matches"""
import gc

import cothread
from annotypes import Anno, add_call_types

from malcolm.core import (
    AbortedError,
    BadValueError,
    Context,
    NumberMeta,
    Part,
    Process,
    StringMeta,
    Subscribe,
    TimeoutError,
    Unsubscribe,
)
from malcolm.modules.builtin.controllers import BasicController

from ..runner import Scenario, base_cfg
from ..util import plain

P = "P03"

with Anno("number"):
    ANum = int


class Boom(Exception):
    pass


class WorkPart(Part):
    def setup(self, registrar):
        super().setup(registrar)
        self.value = NumberMeta("int32", "v").create_attribute_model(0)
        self.text = StringMeta("w").create_attribute_model("")
        registrar.add_attribute_model("value", self.value)
        registrar.add_attribute_model("text", self.text, self.put_text)
        registrar.add_method_model(self.work)

    def put_text(self, value):
        self.scen.work(int(value))
        self.text.set_value(value)

    @add_call_types
    def work(self, num: ANum) -> ANum:
        return self.scen.work(num)


class Client:
    def __init__(self, scen, n):
        self.scen = scen
        self.sim = scen.sim
        self.n = n
        self.ctx = Context(scen.process)
        self.futures = {}  # op number -> Future
        self.stops = []  # (time, seq) of stops not yet accounted for
        self.aborts = 0
        self.ignored = 0
        self.total_stops = 0
        self.subs = {}  # op number -> record
        self.nested_time = 0.0
        self.nested_n = 0
        self.in_wait = False
        self.done = False
        self.stale = []  # matches given up on: they may still raise bad values

    # ---- the oracle for one blocking call ----
    def blocking(self, what, func, futures=(), timeout=None, event_timeout=None,
                 match=None, sleep=None):
        """Run func(), classify how it ended, and judge that"""
        sim = self.sim
        te = sim.t
        nested0, nn0 = self.nested_time, self.nested_n
        stalled0 = sim.stalled
        sim.log("enter", self.n, what)
        err = None
        self.in_wait = True
        try:
            func()
        except AbortedError as e:
            kind, err = "aborted", e
        except TimeoutError as e:
            kind, err = "timeout", e
        except BadValueError as e:
            kind, err = "bad_value", e
        except Exception as e:
            kind, err = "error", e
        else:
            kind = "ok"
        self.in_wait = False
        tx = sim.t
        sim.log("exit", self.n, what, kind, str(err)[:60] if err else "")
        sim.probe(f"wait_{kind}")
        slack = 0.4 + (sim.stalled - stalled0) + self.scen.cost * 200
        nested = self.nested_time - nested0
        had_nested = self.nested_n > nn0
        who = f"client {self.n} {what}"
        if kind == "aborted":
            self.aborts += 1
            live = [s for s in self.stops if s[0] <= tx]
            if not sim.check(live, P, "phantom_stop",
                             f"{who}: aborted at {tx:.3f} with no stop outstanding"):
                return kind
            first = self.stops.pop(0)
            sim.check(tx <= max(first[0], te) + slack + nested, P, "late_stop",
                      f"{who}: stop at {first[0]:.3f}, aborted at {tx:.3f}")
            return kind
        # a stop outstanding at entry (or made long before the end) must have
        # ended this wait
        due = [s for s in self.stops if max(s[0], te) + slack + nested < tx]
        if due and (futures or sleep is not None or match):
            sim.violate(P, "missed_stop",
                        f"{who}: stop at {due[0][0]:.3f} ignored, ended {kind} "
                        f"at {tx:.3f}")
        compl = [self.scen.completed(f) for f in futures]
        ends = [c for c in compl if c is not None]
        limit = timeout if timeout is not None else None
        if kind == "timeout":
            sim.check(timeout is not None or event_timeout is not None, P,
                      "phantom_timeout", f"{who}: timed out with no timeout: {err}")
            shortest = min(x for x in (timeout, event_timeout, 1e9) if x is not None)
            sim.check(tx >= te + shortest - 1e-3, P, "early_timeout",
                      f"{who}: timed out {tx - te:.3f} s after entry, "
                      f"timeout {timeout}, event timeout {event_timeout}")
            if limit is not None:
                sim.check(tx <= te + limit + slack + nested, P, "late_timeout",
                          f"{who}: timed out after {tx - te:.3f} s, limit {limit}")
            if event_timeout is not None and not had_nested and (
                    limit is None or tx < te + limit - 1e-3):
                # nothing can have come in for so long
                evs = [c for i, c in self.scen.finished.items()
                       if self.scen.ops[i]["c"] == self.n]
                if match:
                    evs += [t for t, _, _ in self.scen.values]
                late = [e for e in evs if te <= e <= tx - slack
                        and tx < e + event_timeout - 1e-3]
                sim.check(not late, P, "early_event_timeout",
                          f"{who}: timed out at {tx:.3f} with events at {late}, "
                          f"event timeout {event_timeout}")
            if event_timeout is None and match is None and not had_nested:
                # something must really have been missing at the deadline
                missing = [f for f, c in zip(futures, compl)
                           if c is None or c > te + limit - slack]
                sim.check(missing, P, "false_timeout",
                          f"{who}: timed out though all had completed at {compl}")
            return kind
        if limit is not None:
            sim.check(tx <= te + limit + slack + nested, P, "late_timeout",
                      f"{who}: ended {kind} after {tx - te:.3f} s, limit {limit}")
        if event_timeout is not None and not had_nested and kind == "ok":
            quiet = self.scen.longest_quiet(self, te, tx)
            sim.check(quiet <= event_timeout + slack, P, "missed_event_timeout",
                      f"{who}: {quiet:.3f} s without event, limit {event_timeout}")
        if kind == "bad_value":
            # also from a match that was given up on and is still subscribed
            sim.check(match or self.stale, P, "wrong_error", f"{who}: {err!r}")
            return kind
        if kind == "error":
            mine = [f for f in futures if f"boom{f}" == str(err)]
            sim.check(mine or (match and "boom" not in str(err)), P, "wrong_error",
                      f"{who}: raised {err!r}")
            if mine and not had_nested:
                c = self.scen.completed(mine[0])
                sim.check(c is not None and tx <= max(c, te) + slack + nested, P,
                          "late", f"{who}: failed at {c}, raised at {tx:.3f}")
            return kind
        if kind == "ok" and futures:
            if sim.check(all(c is not None and c <= tx for c in compl), P, "early",
                         f"{who}: returned at {tx:.3f}, completions {compl}"):
                sim.check(tx <= max(ends + [te]) + slack + nested, P, "late",
                          f"{who}: all done at {max(ends):.3f}, returned {tx:.3f}")
            failed = [f for f in futures if self.scen.ops[f]["fail"]]
            sim.check(not failed, P, "swallowed_error",
                      f"{who}: returned though {failed} failed")
        if kind == "ok" and sleep is not None:
            sim.check(tx >= te + sleep - 1e-3, P, "short_sleep",
                      f"{who}: slept {tx - te:.3f} of {sleep}")
            sim.check(tx <= te + sleep + slack + nested, P, "long_sleep",
                      f"{who}: slept {tx - te:.3f} of {sleep}")
        return kind

    # ---- operations ----
    def do(self, op):
        getattr(self, "op_" + op["k"])(op)

    def op_work(self, op):
        i = op["i"]
        try:
            if op["put"]:
                f = self.ctx.put_async(["D", "text", "value"], str(i))
            else:
                f = self.ctx.post_async(["D", "work"], {"num": i})
        except Exception as e:  # an abort can't happen here
            self.sim.violate(P, "exception", f"async op raised {e!r}")
            return
        self.futures[i] = f

    def op_wait(self, op):
        known = [i for i in op["f"] if i in self.futures]
        if not known:
            return
        fs = [self.futures[i] for i in known]
        pre = [i for i in known if self.futures[i].done()]
        kind = self.blocking(
            f"wait{known}", lambda: self.ctx.wait_all_futures(
                fs, timeout=op["to"], event_timeout=op["eto"]),
            futures=known, timeout=op["to"], event_timeout=op["eto"])
        del pre
        if kind == "ok":
            for i in known:
                self.check_future(i)

    def check_future(self, i):
        sim = self.sim
        f = self.futures[i]
        op = self.scen.ops[i]
        if not sim.check(f.done(), P, "not_done", f"future {i} is not done"):
            return
        try:
            r = f.result()
        except Exception as e:
            sim.check(op["fail"] and str(e) == f"boom{i}", P, "wrong_result",
                      f"future {i} raised {e!r}")
        else:
            want = None if op["put"] else i * 3
            sim.check(not op["fail"] and plain(r) == want, P, "wrong_result",
                      f"future {i} gave {r!r}, wanted {want!r}")

    def op_call(self, op):
        """Synchronous put/post"""
        i = op["i"]
        out = {}

        def call():
            if op["put"]:
                out["r"] = self.ctx.put(["D", "text", "value"], str(i),
                                        timeout=op["to"])
            else:
                out["r"] = self.ctx.post(["D", "work"], {"num": i},
                                         timeout=op["to"])

        kind = self.blocking(f"call{i}", call, futures=[i], timeout=op["to"])
        if kind == "ok" and not op["put"]:
            self.sim.check(plain(out["r"]) == i * 3, P, "wrong_result",
                           f"call {i} gave {out['r']!r}")

    def op_sleep(self, op):
        self.blocking(f"sleep{op['s']}", lambda: self.ctx.sleep(op["s"]),
                      sleep=op["s"])

    def op_match(self, op):
        sim = self.sim
        start_seq = sim.log("match", self.n, op["good"], op["bad"], op["to"])
        te = sim.t
        n0 = len(self.scen.values)
        cur = self.scen.values[-1][1]
        good = op["good"]
        if op["fn"]:
            def good_f(v):
                return plain(v) == good
            target = good_f
            bad = None
        else:
            target, bad = good, (op["bad"] or None)
        nested0 = self.nested_time
        live0 = self.scen.live_subs(self.ctx)
        stalled0 = sim.stalled
        self.scen.making = self.n
        kind = self.blocking(
            f"match{good}", lambda: self.ctx.when_matches(
                ["D", "value", "value"], target, bad, timeout=op["to"],
                event_timeout=op["eto"]),
            match=True, timeout=op["to"], event_timeout=op["eto"])
        tx = sim.t
        slack = 0.4 + (sim.stalled - stalled0) + self.scen.cost * 200 + (
            self.nested_time - nested0)
        seq = [(te, cur)] + [(t, v) for t, v, _ in self.scen.values[n0:] if t <= tx]
        hits = [(t, v) for t, v in seq if v == good or (bad and v in bad)]
        if kind == "ok":
            sim.check(hits and hits[0][1] == good, P, "wrong_match",
                      f"client {self.n}: matched {good}, values {seq}, bad {bad}")
            if hits:
                sim.check(tx <= hits[0][0] + slack, P, "late",
                          f"client {self.n}: {good} seen at {hits[0][0]:.3f}, "
                          f"returned {tx:.3f}")
        elif kind == "bad_value":
            ok = (hits and bad and hits[0][1] in bad) or self.stale
            sim.check(ok, P, "wrong_match", f"client {self.n}: bad value, values {seq}, bad {bad}")
        elif kind == "timeout":
            early = [h for h in hits if h[0] < tx - slack]
            sim.check(not early, P, "false_timeout",
                      f"client {self.n}: timed out waiting for {good}, was {seq}")
        elif kind == "error":
            sim.violate(P, "wrong_error", f"client {self.n}: match raised")
        if kind not in ("ok", "bad_value") or self.stale:
            self.stale.append(good)
        else:
            # let the Unsubscribe be handled
            cothread.Sleep(0.001)
            live1 = self.scen.live_subs(self.ctx)
            sim.check(live1 <= live0, P, "leaked_subscription",
                      f"client {self.n}: {live1 - live0} subscriptions left by match")
        del start_seq

    def op_sub(self, op):
        sim = self.sim
        rec = {"got": [], "n0": len(self.scen.values) - 1, "live": True,
               "nest": op.get("nest"), "nested": False}
        self.subs[op["i"]] = rec

        def callback(value):
            sim.log("cb", self.n, op["i"], plain(value))
            if not rec["live"]:
                sim.violate(P, "callback_after_unsubscribe",
                            f"client {self.n} sub {op['i']} got {plain(value)}")
            rec["got"].append(plain(value))
            if rec["nest"] and not rec["nested"] and len(rec["got"]) > 1:
                # A callback that itself waits
                rec["nested"] = True
                t = sim.t
                self.nested_n += 1
                sim.probe("nested_wait")
                try:
                    self.ctx.post(["D", "work"], {"num": op["i"]})
                finally:
                    self.nested_time += sim.t - t

        self.scen.making = self.n
        rec["future"] = self.ctx.subscribe(["D", "value", "value"], callback)

    def op_unsub(self, op):
        live = [r for r in self.subs.values() if r["live"]]
        if not live:
            return
        rec = live[op["which"] % len(live)]
        rec["live"] = False
        rec["n1"] = len(self.scen.values)
        self.ctx.unsubscribe(rec["future"])

    def op_ignore(self, op):
        self.ctx.ignore_stops_before_now()
        self.ignored += len(self.stops)
        self.stops = []

    def stop(self):
        sim = self.sim
        sim.fault("stop", self.n)
        self.total_stops += 1
        self.stops.append((sim.t, sim.seq))
        self.ctx.stop()

    def finish(self):
        """Drain: every stop still outstanding aborts exactly one wait"""
        sim = self.sim
        left = len(self.stops)
        n = 0
        while True:
            before = len(self.stops)
            kind = self.blocking("drain", lambda: self.ctx.sleep(30.0), sleep=30.0)
            if kind not in ("aborted", "bad_value"):
                break
            n += 1
            if n > before + left + 5 + len(self.stale):
                break
        sim.check(not self.stops, P, "missed_stop",
                  f"client {self.n}: stops {self.stops} never aborted anything")
        # nobody changes anything any more: all values have been delivered
        for i, rec in sorted(self.subs.items()):
            if not rec["live"]:
                continue
            want = [v for _, v, _ in self.scen.values[rec["n0"]:]]
            sim.check(rec["got"] == want, P, "wrong_values",
                      f"client {self.n} sub {i}: got {rec['got']}, values {want}")
        for i in sorted(self.futures):
            self.check_future(i)
        # a context that is dropped takes its subscriptions with it
        key = self.scen.ctx_key(self.ctx)
        self.ctx = None
        self.futures = {}
        self.subs = {}
        gc.collect()
        cothread.Sleep(1.0)
        left = self.scen.live_by_key(key)
        sim.check(not left, P, "leaked_subscription",
                  f"client {self.n}: {left} subscriptions outlive the client")
        self.done = True


class ContextsScenario(Scenario):
    name = "contexts"
    props = (P,)
    max_time = 20000
    max_ticks = 200000
    real = ("core.context", "core.future", "core.concurrency", "core.controller",
            "core.notifier", "core.process", "cothread scheduler, locks and queues")
    stubs = ("device behind the methods", "time.time", "scheduler poll",
             "cross-thread callback pipe")

    def plan(self, rng, size):
        cfg = base_cfg(rng)
        nc = cfg["clients"] = rng.choice([1, 1, 2])
        ops = []
        span = rng.choice([5.0, 30.0])
        stop_p = rng.choice([0.0, 0.5, 1.0])
        nest_p = rng.choice([0.0, 0.3, 0.6])
        n = rng.randrange(3, 14 * size)
        works = {c: [] for c in range(nc)}
        for i in range(n):
            c = rng.randrange(nc)
            k = rng.choice(["work", "work", "work", "wait", "wait", "call", "sleep",
                            "match", "sub", "unsub", "ignore"])
            op = {"i": i, "c": c, "k": k, "dur": rng.choice([0, 0.5, 2.0, 2.0, 7.0]),
                  "fail": rng.random() < 0.2, "put": rng.random() < 0.4}
            if k == "work":
                works[c].append(i)
            elif k == "wait":
                if not works[c]:
                    continue
                m = rng.randrange(1, min(4, len(works[c])) + 1)
                op["f"] = sorted(rng.sample(works[c], m))
                op["to"] = rng.choice([None, None, 1.0, 3.0, 10.0, 0.0])
                op["eto"] = rng.choice([None, None, None, 1.0, 4.0])
            elif k == "call":
                op["to"] = rng.choice([None, None, 1.0, 5.0])
            elif k == "sleep":
                op["s"] = rng.choice([0.0, 1.0, 4.0])
            elif k == "match":
                op.update(good=rng.randrange(1, 6), bad=[] if rng.random() < 0.5 else
                          [rng.randrange(6, 9)], to=rng.choice([2.0, 8.0]),
                          eto=rng.choice([None, None, 1.5, 4.0]), fn=rng.random() < 0.3)
            elif k == "sub":
                op["nest"] = rng.random() < nest_p
                op["dur"] = rng.choice([0.5, 3.0, 9.0])
                op["fail"] = False
                op["put"] = False
            elif k == "unsub":
                op["which"] = rng.randrange(4)
            ops.append(op)
        for j in range(rng.randrange(0, 8)):
            ops.append({"i": 100 + j, "k": "value", "t": round(rng.random() * span, 2),
                        "v": rng.randrange(1, 9)})
        for j in range(rng.choice([0, 1, 2, 3])):
            if rng.random() < stop_p:
                ops.append({"i": 200 + j, "k": "stop", "c": rng.randrange(nc),
                            "t": round(rng.random() * span, 2)})
        return {"cfg": cfg, "ops": ops}

    # ---- device ----
    def work(self, i):
        op = self.ops[i]
        if op["dur"]:
            cothread.Sleep(op["dur"])
        # the response goes out before anyone else runs
        self.finished[i] = self.sim.t
        self.events.append((self.sim.t, op["c"]))
        if op["fail"]:
            self.sim.fault("work_raises", i)
            raise Boom(f"boom{i}")
        return i * 3

    def completed(self, i):
        return self.finished.get(i)

    def longest_quiet(self, client, te, tx):
        times = [t for t, c in self.events if c in (client.n, None) and te <= t <= tx]
        # value changes are only events when somebody is subscribed
        pts = [te] + sorted(times) + [tx]
        return max(b - a for a, b in zip(pts, pts[1:]))

    def live_subs(self, ctx):
        return self.live_by_key(self.ctx_key(ctx))

    def ctx_key(self, ctx):
        return next(n for n, c in enumerate(self.clients) if c.ctx is ctx)

    def live_by_key(self, key):
        return self.sub_count.get(key, 0)

    # ---- run ----
    def run(self, sim, plan):
        self.sim = sim
        cfg = plan["cfg"]
        self.cost = cfg["cost"]
        self.ops = {op["i"]: op for op in plan["ops"]}
        self.finished = {}
        self.events = []
        self.values = [(0.0, 0, 0)]
        self.sub_count = {}
        self.making = None
        process = self.process = Process("proc")
        c = self.controller = BasicController("D")
        part = self.part = WorkPart("dev")
        part.scen = self
        c.add_part(part)
        process.add_controller(c)
        process.start()
        self.clients = [Client(self, n) for n in range(cfg["clients"])]
        owner = {}
        real_handle = c.handle_request

        def watch(request):
            # Count live subscriptions per client (requests are not altered)
            if isinstance(request, (Subscribe, Unsubscribe)):
                # who made it: the client that has just asked for one; who
                # ends it: whoever uses the same callback
                if isinstance(request, Subscribe):
                    owner[request.callback] = self.making
                n = owner.get(request.callback)
                d = 1 if isinstance(request, Subscribe) else -1
                self.sub_count[n] = self.sub_count.get(n, 0) + d
            return real_handle(request)

        c.handle_request = watch
        t0 = sim.t
        for op in plan["ops"]:
            if op["k"] == "value":
                sim.at(t0 + op["t"], self.do_value, op)
            elif op["k"] == "stop":
                sim.at(t0 + op["t"], self.do_stop, op)
        tasks = [sim.spawn(self.client_task, n, plan) for n in range(cfg["clients"])]
        for task in tasks:
            try:
                task.Wait(15000)
            except cothread.Timedout:
                pass
        sim.check(all(cl.done for cl in self.clients), P, "hang",
                  "a client never got to its end")

    def do_value(self, op):
        self.sim.log("value", op["v"])
        self.values.append((self.sim.t, op["v"], self.sim.seq))
        self.events.append((self.sim.t, None))
        self.part.value.set_value(op["v"])

    def do_stop(self, op):
        cl = self.clients[op["c"]]
        if not cl.done and cl.ctx is not None:
            cl.stop()
            self.events.append((self.sim.t, op["c"]))

    def client_task(self, n, plan):
        cl = self.clients[n]
        last = 0.0
        for op in plan["ops"]:
            if op["k"] in ("value", "stop"):
                last = max(last, op["t"])
            elif op["c"] == n:
                cl.do(op)
        # wait (without servicing anything) for the world to come to rest
        rest = last + 1 - self.sim.t
        longest = max([op["dur"] for op in plan["ops"] if "dur" in op] + [0])
        cothread.Sleep(max(rest, 0) + longest + 1)
        self.sim.stalls_on = False
        cl.finish()
