"""Things several scenarios share"""
import cothread

from malcolm.core import (
    BooleanMeta,
    ChoiceMeta,
    Delta,
    Error,
    NumberMeta,
    Part,
    Return,
    StringArrayMeta,
    StringMeta,
    TableMeta,
    Update,
    config_tag,
)


def plain(v):
    """A comparable, printable copy of any serialised malcolm value"""
    import enum

    import numpy as np

    if isinstance(v, enum.Enum):
        return plain(v.value)
    if isinstance(v, (str, bool, type(None))):
        return v
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if hasattr(v, "to_dict"):
        return plain(v.to_dict())
    if hasattr(v, "seq"):
        return [plain(x) for x in v.seq]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.ndarray):
        return [plain(x) for x in v]
    if isinstance(v, Exception):
        return f"{type(v).__name__}: {v}"
    return repr(v)


class Responses:
    """Callback that records the responses to one request"""

    def __init__(self, sim, label, want_id):
        self.sim = sim
        self.label = label
        self.want_id = want_id
        self.finals = []
        self.updates = []
        self.bad_ids = []
        self.event = cothread.Event(auto_reset=False)
        self.t_final = None
        self.seq_final = None

    def __call__(self, response):
        if response.id != self.want_id:
            self.bad_ids.append(response.id)
        kind = type(response).__name__
        if isinstance(response, (Return, Error)):
            self.finals.append(response)
            self.t_final = self.sim.t
            what = plain(response.value) if kind == "Return" else str(response.message)
            if len(repr(what)) > 300:
                what = "..."
            self.seq_final = self.sim.log("resp", self.label, kind, what)
            self.event.Signal()
        elif isinstance(response, (Update, Delta)):
            self.sim.log("resp", self.label, kind)
            self.updates.append(response)
        else:
            self.bad_ids.append(repr(response))

    def wait(self, timeout):
        try:
            self.event.Wait(timeout)
        except cothread.Timedout:
            return False
        return True


def deep(table_or_dict):
    return plain(table_or_dict)

