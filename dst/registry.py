"""Which scenarios decide which property, and how many runs each tier makes"""
import importlib

#: scenario name -> (module, class).  Imported only when needed, so that one
#: check does not depend on the parts of the repository another one exercises
SCENARIO_CLASSES = {
    "requests": ("requests", "RequestsScenario"),
    "subs": ("subs", "SubsScenario"),
    "contexts": ("contexts", "ContextsScenario"),
    "stateful": ("stateful", "StatefulScenario"),
    "scan": ("scan", "ScanScenario"),
    "designs": ("designs", "DesignScenario"),
    "proxy": ("web", "ProxyScenario"),
    "ws": ("web", "SessionScenario"),
    "panda": ("panda", "PandaScenario"),
    "ca": ("ca", "CaScenario"),
    "process": ("process", "ProcessScenario"),
    "detectors": ("detectors", "DetectorsScenario"),
    "motion": ("motion", "MotionScenario"),
    "triggers": ("motion", "TriggersScenario"),
    "pandalink": ("panda", "PandaLinkScenario"),
}
_LOADED = {}


def scenario(name):
    if name not in _LOADED:
        mod, cls = SCENARIO_CLASSES[name]
        module = importlib.import_module(f"{__package__}.scen.{mod}")
        _LOADED[name] = getattr(module, cls)()
        assert _LOADED[name].name == name
    return _LOADED[name]


SCHED = (
    "cothread's own scheduler is trusted: its FIFO run queue is kept, the "
    "simulator owns the clock, timers, task costs, stalls and external events"
)


class Check:
    def __init__(self, scens, quick, thorough, qb=200, tb=2400, level="exploration",
                 assumptions=()):
        total = sum(w for _, w in scens)
        self.weights = [(n, w / total) for n, w in scens]
        self.quick_runs = quick
        self.thorough_runs = thorough
        self.quick_budget = qb
        self.thorough_budget = tb
        self.level = level
        self.assumptions = [SCHED] + list(assumptions)

    @property
    def scenarios(self):
        return [(scenario(n), w) for n, w in self.weights]


CHECKS = {
    "P01": Check([("requests", 1)], 6000, 100000),
    "P02": Check([("subs", 1)], 6000, 100000),
    "P03": Check([("contexts", 1)], 6000, 100000),
    "P04": Check([("stateful", 1)], 6000, 100000),
    "P05": Check([("stateful", 1), ("scan", 1)], 6000, 100000),
    "P06": Check([("scan", 1)], 6000, 100000),
    "P07": Check([("scan", 1)], 6000, 100000),
    "P08": Check([("designs", 1)], 6000, 100000),
    "P09": Check([("designs", 1)], 6000, 100000),
    "P10": Check([("proxy", 1)], 6000, 100000),
    "P11": Check([("ws", 1)], 6000, 100000),
    "P12": Check([("panda", 1)], 6000, 100000),
    "P15": Check([("process", 1)], 6000, 100000),
    "P14": Check([("ca", 1)], 6000, 100000),
    "P16": Check([("detectors", 1)], 4000, 100000),
    "P17": Check([("motion", 1)], 3000, 100000),
    "P18": Check([("triggers", 1)], 3000, 100000),
    "P13": Check([("pandalink", 1)], 6000, 100000),
}
