"""Deterministic simulator for pymalcolm.

The real cothread scheduler runs every task.  What is simulated is everything
outside it: the clock (``time.time``), the poll the scheduler would block in,
the cross-thread callback pipe, and (per scenario) network, disk and devices.

One run is a pure function of (scenario, seed, plan, overrides, code):

* the *plan* is a list of JSON operations made from the seed before the run;
* every decision taken while running (task cost, stall, hook duration, message
  delay, fault) is a keyed draw: value = f(seed, key, n-th use of key), unless
  the key is listed in ``overrides``.

The simulator lives in a process of its own (forked per run), so nothing leaks
from one run into the next.
"""
import gc
import hashlib
import random
import sys
import time as _time_mod

import cothread
from cothread import cothread as _ct

REAL_TIME = _time_mod.time
EPOCH = 1600000000.0


_LEAKED = []


class SimStop(BaseException):
    """Raised by the simulator out of the scheduler to end a run"""


class Violation(Exception):
    def __init__(self, prop, kind, msg):
        super().__init__(f"{prop} {kind}: {msg}")
        self.prop = prop
        self.kind = kind
        self.msg = msg


def stable_seed(*parts):
    h = hashlib.blake2b("\x00".join(str(p) for p in parts).encode(), digest_size=8)
    return int.from_bytes(h.digest(), "big")


class SimClock:
    """The only clock the system under test can read"""

    def __init__(self):
        self.now = EPOCH
        self.reads = 0
        self.skew = 0.0  # wall clock offset (not used unless a scenario does)

    def time(self):
        # A read costs a microsecond so that a busy-wait on the clock ends
        self.reads += 1
        self.now += 1e-6
        return self.now


class Sim:
    """One simulated run"""

    def __init__(self, seed, cfg=None, zero_keys=(), max_time=100000.0, max_ticks=400000):
        self.seed = seed
        self.cfg = cfg or {}
        self.zero_keys = frozenset(zero_keys)
        self.clock = SimClock()
        self.max_time = max_time
        self.max_ticks = max_ticks
        self.ticks = 0
        self.switches = 0
        self.seq = 0
        self.trace = []
        self.trace_hash = hashlib.blake2b(digest_size=12)
        self.sched_hash = hashlib.blake2b(digest_size=12)
        self.faults = {}
        self.probes = {}
        self.violations = []
        self.stalled = 0.0  # total injected stall
        self.stop_reason = None
        self._rngs = {}
        self._used_keys = {}
        self.uncaught = []
        self.cost_scale = self.cfg.get("cost", 0.0)
        self.stall_p = self.cfg.get("stall_p", 0.0)
        self.stall_max = self.cfg.get("stall_max", 0.0)
        self.stalls_on = True
        self._cb_queue = []
        self._cb_event = None
        self.cb_delay = self.cfg.get("cb_delay", 0.0)
        self.on_tick = None

    # ---- randomness ----
    def rng(self, key):
        r = self._rngs.get(key)
        if r is None:
            r = self._rngs[key] = random.Random(stable_seed(self.seed, key))
        return r

    def draw(self, key, n):
        """Integer in [0, n).  0 is always the undisturbed choice"""
        v = self.rng(key).randrange(n)
        if key in self.zero_keys:
            return 0
        if v:
            self._used_keys[key] = self._used_keys.get(key, 0) + 1
        return v

    def chance(self, key, p):
        v = self.rng(key).random() < p
        if key in self.zero_keys:
            return False
        if v:
            self._used_keys[key] = self._used_keys.get(key, 0) + 1
        return v

    def uniform(self, key, lo, hi):
        """Float in [lo, hi]; lo when suppressed"""
        v = self.rng(key).random()
        if key in self.zero_keys:
            return lo
        self._used_keys[key] = self._used_keys.get(key, 0) + 1
        return lo + (hi - lo) * v

    # ---- recording ----
    @property
    def t(self):
        return self.clock.now - EPOCH

    def stamp(self):
        self.seq += 1
        return self.seq

    def log(self, *what):
        """Append to the event history; returns its global sequence number"""
        self.seq += 1
        entry = (self.seq, round(self.t, 6)) + what
        self.trace.append(entry)
        self.trace_hash.update(repr(entry).encode())
        return self.seq

    def fault(self, kind, *what):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log("FAULT", kind, *what)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def violate(self, prop, kind, msg):
        """Record a violation of a property; the run carries on"""
        self.log("VIOLATION", prop, kind, msg)
        self.violations.append((prop, kind, msg))

    def check(self, cond, prop, kind, msg):
        if not cond:
            self.violate(prop, kind, msg() if callable(msg) else msg)
        return cond

    # ---- time ----
    def sleep(self, secs):
        if secs > 0:
            cothread.Sleep(secs)
        else:
            cothread.Yield()

    def spawn(self, func, *args):
        def wrapped():
            try:
                func(*args)
            except SimStop:
                raise
            except Exception as e:  # harness task died
                import traceback

                self.uncaught.append(traceback.format_exc())
                self.log("TASK-DIED", getattr(func, "__name__", "?"), repr(e))

        return cothread.Spawn(wrapped)

    def at(self, when, func, *args):
        """Run func(*args) in a task of its own at simulated time when"""

        def later():
            d = when - self.t
            if d > 0:
                cothread.Sleep(d)
            func(*args)

        later.__name__ = getattr(func, "__name__", "later")
        return self.spawn(later)

    def stop(self, reason):
        if self.stop_reason is None:
            self.stop_reason = reason
        raise SimStop(reason)

    # ---- installation ----
    def install(self):
        sim = self
        clock = self.clock
        _time_mod.time = clock.time
        _time_mod.monotonic = lambda: clock.time() - EPOCH

        def no_sleep(secs):
            sim.fault("blocking_sleep", secs)
            clock.now += secs

        _time_mod.sleep = no_sleep
        # A fork leaves the parent's scheduler without its thread state, so
        # every run gets a scheduler of its own; the old one is never resumed
        _LEAKED.append(_ct._scheduler)
        sched = _ct._scheduler = _ct._Scheduler.create()

        def poll_block(poll_list, delay):
            if delay is None:
                sim.stop("deadlock")
            if delay > 0:
                clock.now += delay
            if clock.now - EPOCH > sim.max_time:
                sim.stop("time_cap")
            return []

        sched._poll_block = poll_block
        cls = _ct._Scheduler
        switch = _ct._coroutine.switch

        def tick(self_):
            sim.ticks += 1
            if sim.ticks > sim.max_ticks:
                sim.stop("tick_cap")
            if clock.reads > 20000000:
                sim.stop("clock_spin")
            self_._Scheduler__timer_queue.wake_expired()
            if not self_._Scheduler__ready_queue:
                self_._Scheduler__yield_queue.wake(True)
            ready = self_._Scheduler__ready_queue
            self_._Scheduler__ready_queue = []
            n = len(ready)
            if n:
                sim.switches += n
                sim.sched_hash.update(bytes((min(n, 255),)))
            for task, reason in ready:
                # Each slice of a task costs some CPU time
                if sim.cost_scale:
                    clock.now += sim.cost_scale * sim.rng("cost").random()
                if sim.stall_p and sim.stalls_on and sim.chance("stall", sim.stall_p):
                    d = sim.stall_max * sim.rng("stall_len").random()
                    clock.now += d
                    sim.stalled += d
                    sim.fault("stall", round(d, 4))
                switch(task, reason)
            if clock.now - EPOCH > sim.max_time:
                sim.stop("time_cap")
            if sim.on_tick:
                sim.on_tick()

        cls._Scheduler__tick = tick

        def callback(action, *args):
            """Stand-in for the cross-thread callback pipe: one FIFO queue
            drained by one task, woken after a simulated delay"""
            sim._cb_queue.append((action, args))
            if sim._cb_event is not None:
                sim._cb_event.Signal()

        def cb_task():
            import traceback

            ev = sim._cb_event
            while True:
                if not sim._cb_queue:
                    ev.Wait()
                    if sim.cb_delay:
                        cothread.Sleep(sim.uniform("cbdelay", 0.0, sim.cb_delay))
                while sim._cb_queue:
                    action, args = sim._cb_queue.pop(0)
                    try:
                        action(*args)
                    except SimStop:
                        raise
                    except Exception:
                        sim.uncaught.append("callback: " + traceback.format_exc())
                        sim.log("CALLBACK-EXC", traceback.format_exc().splitlines()[-1])
                    action = args = None

        _ct.Callback = callback
        cothread.Callback = callback
        self._cb_event = cothread.Event()
        cothread.Spawn(cb_task)
        gc.collect()
        gc.disable()
        return self

    def run(self, func):
        """Run func in the main cothread until it returns"""
        try:
            return func()
        except SimStop as e:
            if self.stop_reason is None:
                self.stop_reason = str(e)
            return None

    def used_keys(self):
        return dict(self._used_keys)


def current_task_name():
    return "?"


def install_stack_guard():
    sys.setrecursionlimit(5000)
