"""The documented state machines, written from the state diagrams in the
documentation, and a watcher that holds a live Block against them"""
from malcolm.core import Delta, Subscribe, Update

from ..util import plain

STATEFUL = {
    "Resetting": {"Ready", "Fault", "Disabling"},
    "Ready": {"Fault", "Disabling"},
    "Fault": {"Resetting", "Disabling"},
    "Disabling": {"Fault", "Disabled"},
    "Disabled": {"Resetting"},
}
MANAGER = {k: set(v) for k, v in STATEFUL.items()}
MANAGER["Ready"] |= {"Saving", "Loading"}
MANAGER["Saving"] = {"Ready", "Fault", "Disabling"}
MANAGER["Loading"] = {"Ready", "Fault", "Disabling"}

RUNNABLE = {k: set(v) for k, v in MANAGER.items()}
RUNNABLE["Ready"] |= {"Configuring", "Aborting"}
for _s, _to in {
    "Configuring": {"Armed", "Aborting"},
    "Armed": {"Running", "Seeking", "Resetting", "Aborting"},
    "Running": {"PostRun", "Seeking", "Aborting"},
    "PostRun": {"Finished", "Armed", "Seeking", "Aborting"},
    "Finished": {"Seeking", "Resetting", "Configuring", "Aborting"},
    "Seeking": {"Armed", "Paused", "Finished", "Aborting"},
    "Paused": {"Seeking", "Running", "Aborting"},
    "Aborting": {"Aborted"},
    "Aborted": {"Resetting"},
}.items():
    RUNNABLE[_s] = _to | {"Fault", "Disabling"}

REST = {"Ready", "Fault", "Disabled", "Armed", "Paused", "Finished", "Aborted"}

#: which fields may be written in which state; other fields with a setter are
#: writeable in every state but these two
NOT_DEFAULT = {"Disabling", "Disabled"}
RESET_STATEFUL = {"Disabled", "Fault"}
RUNNABLE_FIELDS = {
    "reset": {"Fault", "Disabled", "Aborted", "Armed", "Finished"},
    "configure": {"Ready", "Finished"},
    "run": {"Armed"},
    "abort": {"Ready", "Configuring", "Armed", "Running", "PostRun", "Paused",
              "Seeking", "Finished"},
    "pause": {"Armed", "Paused", "Running", "Finished"},
    "resume": {"Paused"},
    "completedSteps": {"Paused", "Armed"},
    "layout": {"Ready"},
    "design": {"Ready"},
    "exports": {"Ready"},
    "save": {"Ready"},
}


class StateWatch:
    """Subscribes to a whole Block and checks every message against the
    documented transitions and writeable fields"""

    def __init__(self, sim, prop, controller, table, fields, readonly=(),
                 attrs=()):
        """fields: name -> states in which it may be written, or None for the
        default; readonly: fields that are never writeable; attrs: values to
        keep a history of"""
        self.sim = sim
        self.prop = prop
        self.table = table
        self.fields = fields
        self.readonly = readonly
        self.attrs = attrs
        self.view = None
        self.state = None
        self.history = []  # (seq, t, state)
        self.values = {a: [] for a in attrs}  # name -> [(seq, t, value)]
        self.faults_seen = []
        self.mri = controller.mri
        self.on_state = None
        self.on_view = None
        self.initial = set()
        sub = Subscribe(path=[controller.mri], delta=True)
        sub.set_callback(self.on_response)
        controller.handle_request(sub).wait(100)

    def on_response(self, response):
        if isinstance(response, Update):
            self.view = plain(response.value)
        elif isinstance(response, Delta):
            self.apply(response.changes)
        else:
            self.sim.violate(self.prop, "subscription_ended", repr(response))
            return
        self.look()

    def apply(self, changes):
        for change in changes:
            path = change[0]
            if not path:
                self.view = plain(change[1])
                continue
            d = self.view
            for p in path[:-1]:
                d = d[p]
            if len(change) == 1:
                d.pop(path[-1], None)
            else:
                d[path[-1]] = plain(change[1])

    def look(self):
        sim, view = self.sim, self.view
        for a in self.attrs:
            if a in view:
                v = view[a]["value"]
                h = self.values[a]
                if not h or h[-1][2] != v:
                    h.append((sim.stamp(), sim.t, v))
        state = view["state"]["value"]
        if state != self.state:
            if self.state is not None:
                sim.check(
                    state in self.table[self.state], self.prop, "bad_transition",
                    f"{self.mri}: {self.state} -> {state}")
            self.state = state
            seq = sim.log("state", self.mri, state)
            self.history.append((seq, sim.t, state))
            sim.probe("state_" + state)
            alarm = view["state"]["alarm"]
            if state == "Fault":
                self.faults_seen.append((seq, sim.t, alarm["message"]))
            sim.check(
                (alarm["severity"] == 0) == (state not in ("Fault", "Disabled")),
                self.prop, "wrong_alarm",
                f"{self.mri}: {state} with alarm {alarm}")
            if state in ("Fault", "Disabled"):
                h = view["health"]
                sim.check(
                    h["value"] != "OK" and h["alarm"]["severity"] != 0, self.prop,
                    "wrong_health", f"{self.mri}: healthy in {state}: {h['value']}")
            if self.on_state:
                self.on_state(state)
        for f, states in self.fields.items():
            if f not in view:
                continue
            want = (state in states) if states is not None else (
                state not in NOT_DEFAULT)
            got = view[f]["meta"]["writeable"]
            sim.check(got == want, self.prop, "wrong_writeable",
                      f"{self.mri}: {f} writeable={got} in {state}")
        for f in self.readonly:
            if f in view:
                sim.check(not view[f]["meta"]["writeable"], self.prop,
                          "wrong_writeable", f"{self.mri}: {f} writeable")
        if self.on_view:
            self.on_view(view)

    def states_between(self, seq0, seq1):
        """The states the Block was in at any moment of [seq0, seq1]"""
        out = []
        for i, (seq, _, state) in enumerate(self.history):
            end = self.history[i + 1][0] if i + 1 < len(self.history) else 1 << 62
            if seq <= seq1 and end >= seq0:
                out.append(state)
        return out

    def last_state_before(self, seq):
        s = None
        for q, _, state in self.history:
            if q <= seq:
                s = state
        return s
