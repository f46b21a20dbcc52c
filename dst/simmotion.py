"""A simulated motion controller and a pair of PandA sequencers.

The motion controller (Stage) executes a trajectory buffer of position,
velocity mode and time points as the firmware documents it, in exact simulated
time, and raises its outputs.  The sequencers (Seqs) play their tables one
after the other, waiting for bits or for positions of the Stage, and say when
they pulse their outputs.  Neither knows anything about malcolm.
"""
import bisect
import math

import cothread

TICK = 8e-9
# velocity modes
PREV_TO_NEXT, REAL_PREV, PREV_TO_CURRENT, ZERO = range(4)
#: user program -> the outputs it sets, None: leaves them
GPIO = {0: None, 1: (1, 0, 0), 2: (0, 1, 0), 4: (0, 0, 1), 8: (0, 0, 0)}


class DeviceError(Exception):
    pass


class Axis:
    """Where an axis was, at any time"""

    def __init__(self, pos):
        self.t0 = [-1.0]
        self.segs = [(0.0, pos, 0.0, pos, 0.0)]  # dt, p0, v0, p1, v1
        self.pos = pos
        self.vel = 0.0

    def add(self, t, dt, p1, v1):
        self.t0.append(t)
        self.segs.append((dt, self.pos, self.vel, p1, v1))
        self.pos, self.vel = p1, v1

    def cut(self, t):
        """It is stopped at t"""
        p = self.at(t)
        while len(self.t0) > 1 and self.t0[-1] > t:
            self.t0.pop()
            self.segs.pop()
        self.t0.append(t)
        self.segs.append((0.0, p, 0.0, p, 0.0))
        self.pos, self.vel = p, 0.0

    def at(self, t):
        i = bisect.bisect_right(self.t0, t) - 1
        return self.value(i, t)

    def value(self, i, t):
        if i < 0:
            return self.segs[0][1]
        dt, p0, v0, p1, v1 = self.segs[i]
        s = t - self.t0[i]
        if dt <= 0 or s >= dt:
            return p1
        u = s / dt
        h00 = 1 - 3 * u * u + 2 * u * u * u
        h10 = u * (1 - u) ** 2
        h11 = u * u * (u - 1)
        return h00 * p0 + h10 * dt * v0 + (1 - h00) * p1 + h11 * dt * v1

    def when(self, test, t, until):
        """First time in [t, until] at which test(position) holds, or None"""
        if test(self.at(t)):
            return t
        i = max(bisect.bisect_right(self.t0, t) - 1, 0)
        while i < len(self.t0) and self.t0[i] <= until:
            dt = self.segs[i][0]
            lo = max(t, self.t0[i])
            hi = min(self.t0[i] + dt, until)
            if hi > lo:
                a = lo
                for k in range(1, 13):
                    b = lo + (hi - lo) * k / 12
                    if test(self.value(i, b)):
                        for _ in range(50):
                            m = (a + b) / 2
                            if test(self.value(i, m)):
                                b = m
                            else:
                                a = m
                        return b
                    a = b
            i += 1
        return None


class Stage:
    """The motion controller: one co-ordinate system and a trajectory buffer"""

    def __init__(self, sim, axes, cfg):
        self.sim = sim
        self.cfg = cfg
        self.axes = {a: Axis(p) for a, p in axes.items()}
        self.buffer = []
        self.use = []
        self.executing = None
        self.gpio = []  # (t, (b1, b2, b3)) of every change
        self.gpio.append((0.0, (0, 0, 0)))
        self.moving = None
        self.stop = None
        self.runs = []
        self.on_scanned = lambda n: None
        self.on_built = lambda n: None
        self.on_moved = lambda: None
        self.scanned = 0
        self.fail_p = 0.0

    def latency(self, what):
        d = self.sim.uniform("traj." + what, 0.0, self.cfg["latency"])
        if d:
            cothread.Sleep(d)
        if self.sim.chance("traj.f." + what, self.fail_p):
            self.sim.fault("trajectory_fails", what)
            raise DeviceError(f"boom {what} {self.sim.stamp()}")

    def make(self, arrays):
        """arrays: time (us), mode, program, {axis: positions} -> points"""
        n = len(arrays["time"])
        lens = {k: len(v) for k, v in arrays.items() if k != "axes"}
        lens.update({k: len(v) for k, v in arrays["axes"].items()})
        if set(lens.values()) != {n}:
            raise DeviceError(f"boom arrays of different lengths {lens}")
        for a, v in arrays["axes"].items():
            if not all(math.isfinite(x) for x in v):
                raise DeviceError(f"boom axis {a} sent to {v}")
        return [
            (arrays["time"][i] * 1e-6, arrays["mode"][i], arrays["program"][i],
             {a: v[i] for a, v in arrays["axes"].items()})
            for i in range(n)]

    def build(self, arrays):
        points = self.make(arrays)
        self.latency("build")
        if self.executing:
            raise DeviceError("boom build while executing")
        self.buffer = points
        self.use = list(arrays["axes"])
        self.sim.log("build", len(points))
        self.on_built(len(points))

    def append(self, arrays):
        points = self.make(arrays)
        run = self.executing
        self.latency("append")
        if run and run["outcome"] in ("aborted", "failed"):
            raise DeviceError("boom append Aborted")
        if not self.executing:
            raise DeviceError("boom append when not executing")
        self.buffer += points
        self.sim.log("append", len(points), len(self.buffer))
        self.executing["appends"] += 1
        self.on_built(len(self.buffer))

    def abort(self):
        self.sim.log("abort trajectory")
        if self.executing:
            self.executing["stop"].Signal()
            # it returns when the axes have stopped
            while self.executing:
                cothread.Sleep(0.01)
        if self.moving:
            self.moving["stop"].Signal()

    def set_gpio(self, t, program):
        bits = GPIO[program]
        if bits is not None and bits != self.gpio[-1][1]:
            self.gpio.append((t, bits))

    def when_bit(self, want, t, until):
        """First time in [t, until] at which the first output is want"""
        i = bisect.bisect_right([g[0] for g in self.gpio], t) - 1
        while i < len(self.gpio):
            g, bits = self.gpio[i]
            if g > until:
                return None
            if bits[0] == want:
                return max(g, t)
            i += 1
        return None

    def velocity(self, i, axis, prev):
        """The velocity the firmware makes of point i"""
        t, mode, _, pos = self.buffer[i]
        d = pos[axis] - prev
        if mode == PREV_TO_NEXT:
            if i + 1 < len(self.buffer):
                t2, _, _, pos2 = self.buffer[i + 1]
                return (pos2[axis] - prev) / (t + t2)
            return d / t
        if mode == REAL_PREV:
            return 2 * d / t - self.axes[axis].vel
        if mode == PREV_TO_CURRENT:
            return d / t
        return 0.0

    def execute(self, run):
        """run: a dict for what happens, events go to run["events"]"""
        sim = self.sim
        if self.executing:
            raise DeviceError("boom execute while executing")
        if self.moving:
            raise DeviceError("boom execute while moving")
        if not self.buffer:
            raise DeviceError("boom execute without a profile")
        run.update(stop=cothread.Event(), appends=0, events=[], points=0,
                   outcome="running", end=None, speeds=[], known=sim.t)
        self.executing = run
        self.runs.append(run)
        self.scanned = 0
        self.on_scanned(0)
        fails_at = None
        if sim.chance("traj.f.motion", self.fail_p / 2):
            fails_at = sim.t + sim.uniform("traj.when", 0.05, 10.0)
        try:
            self.start(run)
            self.play(run, fails_at)
        finally:
            run["end"] = sim.t
            self.executing = None
            sim.log("trajectory", run["outcome"], self.scanned, len(self.buffer))
            self.on_moved()

    def start(self, run):
        sim = self.sim
        try:
            run["stop"].Wait(sim.uniform("traj.execute", 0.0, self.cfg["latency"]))
        except cothread.Timedout:
            pass
        else:
            return self.halt(run, "aborted", 0, "boom Aborted")
        if sim.chance("traj.f.execute", self.fail_p):
            sim.fault("trajectory_fails", "execute")
            run["outcome"] = "failed"
            raise DeviceError(f"boom execute {sim.stamp()}")

    def known(self):
        """Until when it is decided where the axes are and what the outputs do"""
        return self.executing["known"] if self.executing else 1e99

    def play(self, run, fails_at):
        sim = self.sim
        done = 0
        begun = 0  # points whose motion has been decided
        t = sim.t  # when the point being executed started
        run["t0"] = t
        poll = self.cfg["poll"]
        next_poll = sim.t + sim.uniform("traj.poll", 0.1, 1.0) * poll
        while True:
            while done < len(self.buffer):
                dt, _, program, pos = self.buffer[done]
                if begun == done:
                    begun += 1
                    for a in self.use:
                        ax = self.axes[a]
                        v = self.velocity(done, a, ax.pos)
                        run["speeds"].append((a, abs(pos[a] - ax.pos) / dt))
                        ax.add(t, dt, pos[a], v)
                    run["known"] = t + dt - 1e-9
                if t + dt > sim.t:
                    break
                t += dt
                done += 1
                self.set_gpio(t, program)
                if program:
                    run["events"].append((t, program))
            if done >= len(self.buffer):
                break
            wake = min(next_poll, t + self.buffer[done][0])
            if fails_at is not None:
                wake = min(wake, fails_at)
            try:
                run["stop"].Wait(max(wake - sim.t, 1e-9))
            except cothread.Timedout:
                pass
            else:
                return self.halt(run, "aborted", done, "boom Aborted")
            if fails_at is not None and sim.t >= fails_at:
                sim.fault("motion_fails")
                return self.halt(run, "failed", done, f"boom motion {sim.stamp()}")
            if sim.t >= next_poll:
                if done != self.scanned:
                    self.scanned = done
                    self.on_scanned(done)
                next_poll = sim.t + sim.uniform("traj.poll", 0.1, 1.0) * poll
        run["outcome"] = "done"
        run["points"] = done
        self.scanned = done
        if sim.chance("traj.late", 0.3):
            sim.at(sim.t + sim.uniform("traj.lateness", 0.0, 1.0) * poll,
                   self.tell_scanned, run)
        else:
            self.on_scanned(done)

    def tell_scanned(self, run):
        if not self.executing and self.runs[-1] is run:
            self.on_scanned(run["points"])

    def halt(self, run, how, done, why):
        for a in self.use:
            self.axes[a].cut(self.sim.t)
        run["outcome"] = how
        run["points"] = done
        self.scanned = done
        self.on_scanned(done)
        raise DeviceError(why)

    def move(self, demands, duration):
        """Move axes to positions, blocking"""
        sim = self.sim
        if self.executing:
            raise DeviceError("boom move while executing")
        mv = {"stop": cothread.Event()}
        if self.moving:
            self.moving["stop"].Signal()
        self.moving = mv
        duration = max(duration, 1e-3)
        t = sim.t
        for a, p in demands.items():
            self.axes[a].add(t, duration, p, 0.0)
        try:
            try:
                mv["stop"].Wait(duration)
            except cothread.Timedout:
                pass
            else:
                if self.moving is mv:
                    for a in demands:
                        self.axes[a].cut(sim.t)
        finally:
            if self.moving is mv:
                self.moving = None
            self.on_moved()


class Seqs:
    """Two sequencers that take turns, gated together"""

    def __init__(self, sim, stage, pos, cfg):
        """pos: POSA -> (axis, scale, offset)"""
        self.sim = sim
        self.stage = stage
        self.pos = pos
        self.cfg = cfg
        self.tables = [None, None]
        self.fresh = [False, False]
        self.active = [False, False]
        self.enabled = None
        self.plays = []
        self.on_active = lambda n, v: None
        self.complaints = []

    def load(self, n, rows):
        self.sim.log("table", n, len(rows))
        if self.active[n]:
            self.complaints.append(f"table {n} changed while it is played")
        elif self.fresh[n] and self.enabled:
            self.complaints.append(f"table {n} replaced before it was played")
        self.tables[n] = rows
        self.fresh[n] = True

    def enable(self, play):
        self.sim.log("seq enable")
        if self.enabled:
            self.complaints.append("enabled twice")
            return
        play.update(stop=cothread.Event(), live=[], dead=[], tables=0, on=True)
        self.enabled = play
        self.plays.append(play)
        self.sim.spawn(self.play, play)

    def reset(self):
        self.sim.log("seq reset")
        p = self.enabled
        if p:
            self.enabled = None
            p["on"] = False
            p["stop"].Signal()
            p["end"] = self.sim.t
            p["live"] = self.cut(p["live"], self.sim.t)
        for n in (0, 1):
            self.set_active(n, False)

    @staticmethod
    def cut(pulses, t):
        """Those that had started"""
        out = []
        for t0, period, n in pulses:
            if period > 0:
                k = min(n, int((t - t0) / period) + 1) if t >= t0 else 0
            else:
                k = n
            if k > 0:
                out.append((t0, period, k))
        return out

    def set_active(self, n, v):
        if self.active[n] != v:
            self.active[n] = v
            self.on_active(n, v)

    def play(self, p):
        n = 0
        t = self.sim.t
        while True:
            if self.tables[n] is None or not self.fresh[n]:
                if p["tables"]:
                    self.complaints.append(
                        f"sequencer {n} starts with the table it has already played "
                        f"after {p['tables']} tables")
                else:
                    self.complaints.append("enabled without a table")
                return
            self.fresh[n] = False
            p["tables"] += 1
            self.set_active(n, True)
            t = self.play_table(p, self.tables[n], t)
            if t is None:
                return
            self.set_active(n, False)
            n = 1 - n
            t += 6 * TICK

    def wait_until(self, p, t):
        """False if it has been reset meanwhile"""
        while p["on"] and self.sim.t < t:
            try:
                p["stop"].Wait(t - self.sim.t)
            except cothread.Timedout:
                pass
        return p["on"]

    def play_table(self, p, rows, t):
        for row in rows:
            cond = row["trigger"]
            if cond != "Immediate":
                t = self.wait_for(p, cond, row["position"], t)
                if t is None:
                    return None
            period = (row["time1"] + row["time2"]) * TICK
            n = row["repeats"]
            forever = n == 0
            if row["outa1"]:
                if forever:
                    self.complaints.append("a row that never ends makes frames")
                    n = 1
                p["live"].append((t, period, n))
            if row["outb1"]:
                p["dead"].append((t, period, n))
            if row["outa2"] or row["outb2"]:
                self.complaints.append(f"outputs in second phase {row}")
            if forever:
                return None
            t += n * period
            # do not run ahead of the clock
            if not self.wait_until(p, t):
                return None
        return t

    def wait_for(self, p, cond, position, t):
        if cond.startswith("BITA="):
            want = int(cond[-1])

            def find(until):
                return self.stage.when_bit(want, t, until)
        else:
            axis, scale, offset = self.pos[cond[:4]]
            if cond[4:] == ">=POSITION":
                def test(x):
                    return (x - offset) / scale >= position
            else:
                assert cond[4:] == "<=POSITION", cond

                def test(x):
                    return (x - offset) / scale <= position

            def find(until):
                return self.stage.axes[axis].when(test, t, until)
        while p["on"]:
            known = min(self.sim.t, self.stage.known())
            found = find(known) if known >= t else None
            if found is not None:
                return found
            t = max(t, known)
            try:
                p["stop"].Wait(self.cfg["seq_poll"])
            except cothread.Timedout:
                pass
        return None
