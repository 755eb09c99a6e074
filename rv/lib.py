"""Loads the monitored library from its working tree and attaches probes to its public surface.

The probes are attached from outside by replacing class attributes and module functions; the
library itself carries no hooks.  A probe emits an event for every outermost call of a public
function or method (also for calls that the library makes internally), monitors subscribe to the
events.
"""

import functools
import importlib
import inspect
import os
import pkgutil
import sys
import threading

import numpy as np

REPO = os.environ.get("RIES_REPO", "/repo")


class Event:
    __slots__ = ("name", "owner", "obj", "a", "k", "result", "error", "depth")

    def __init__(self, name, owner, obj, a, k, depth):
        self.name, self.owner, self.obj, self.a, self.k = name, owner, obj, a, k
        self.result = None
        self.error = None
        self.depth = depth

    def arg(self, i, default=None, name=None):
        if len(self.a) > i:
            return self.a[i]
        if name is not None and name in self.k:
            return self.k[name]
        return default


class Bus:
    def __init__(self):
        self.subscribers = {}
        self.before = []
        self.after = []
        self.counts = {}
        self.local = threading.local()
        self.enabled = True

    def on(self, name, handler):
        self.subscribers.setdefault(name, []).append(handler)

    def state(self):
        l = self.local
        if not hasattr(l, "active"):
            l.active, l.depth, l.busy = set(), 0, False
        return l

    def wrap(self, f, owner, name, has_self):
        bus = self

        @functools.wraps(f)
        def probe(*a, **k):
            s = bus.state()
            if s.busy or not bus.enabled:
                return f(*a, **k)
            obj = a[0] if has_self and a else None
            mark = (name, id(obj)) if has_self else (name, owner)
            if mark in s.active:
                return f(*a, **k)
            s.active.add(mark)
            s.depth += 1
            ev = Event(name, owner, obj, a[1:] if has_self else a, k, s.depth)
            bus.counts[owner + "." + name] = bus.counts.get(owner + "." + name, 0) + 1
            try:
                if bus.before:
                    s.busy = True
                    try:
                        for h in bus.before:
                            h(ev)
                    finally:
                        s.busy = False
                try:
                    ev.result = f(*a, **k)
                except BaseException as e:
                    ev.error = e
                    raise
                return ev.result
            finally:
                s.depth -= 1
                s.active.discard(mark)
                subs = bus.subscribers.get(name)
                if subs or bus.after:
                    s.busy = True
                    try:
                        for h in subs or ():
                            h(ev)
                        for h in bus.after:
                            h(ev)
                    finally:
                        s.busy = False

        probe.__wrapped_by_monitor__ = True
        return probe


def load():
    """Import all modules of the library from the working tree."""
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import ries

    root = os.path.realpath(REPO) + os.sep
    if not os.path.realpath(ries.__file__).startswith(root):
        raise RuntimeError("ries was imported from " + ries.__file__)
    mods = {"ries": ries}
    for m in pkgutil.walk_packages(ries.__path__, "ries."):
        mods[m.name] = importlib.import_module(m.name)
    return mods


MAGIC = {
    "__init__", "__call__", "__add__", "__radd__", "__mul__", "__rmul__", "__iadd__", "__imul__",
    "__sub__", "__neg__",
}


class Lib:
    """Namespace with the public API"""

    def __init__(self, instrument=True):
        self.modules = load()
        self.bus = Bus()
        if instrument:
            self.instrument()
        m = self.modules
        get = lambda mod, name: getattr(m["ries." + mod], name)
        self.CrossSection = get("cross_section", "CrossSection")
        self.ConstantCrossSection = get("cross_section", "ConstantCrossSection")
        self.CrossSectionWeightedSum = get("cross_section", "CrossSectionWeightedSum")
        self.GroundState = get("constituents.state", "GroundState")
        self.State = get("constituents.state", "State")
        self.Isotope = get("constituents.isotope", "Isotope")
        self.Element = get("constituents.element", "Element")
        self.natural_elements = get("constituents.element", "natural_elements")
        self.X = get("constituents.element", "X")
        self.NISTElementDataReader = get("constituents.natural_element_data", "NISTElementDataReader")
        self.Geant4DensityDataReader = get(
            "constituents.natural_element_data", "Geant4DensityDataReader"
        )
        self.Resonance = get("resonance.resonance", "Resonance")
        self.BreitWigner = get("resonance.breit_wigner", "BreitWigner")
        self.Gauss = get("resonance.gauss", "Gauss")
        self.PseudoVoigt = get("resonance.pseudo_voigt", "PseudoVoigt")
        self.PseudoVoigtDistribution = get("resonance.pseudo_voigt", "PseudoVoigtDistribution")
        self.SemiPseudoVoigtDistribution = get("resonance.voigt", "SemiPseudoVoigtDistribution")
        self.Voigt = get("resonance.voigt", "Voigt")
        self.Recoil = get("resonance.recoil", "Recoil")
        self.NoRecoil = get("resonance.recoil", "NoRecoil")
        self.FreeNucleusRecoil = get("resonance.recoil", "FreeNucleusRecoil")
        self.MaxwellBoltzmann = get("resonance.maxwell_boltzmann", "MaxwellBoltzmann")
        self.debye = get("resonance.debye_model", "effective_temperature_debye_approximation")
        self.room_temperature_T_D = get("resonance.debye_model", "room_temperature_T_D")
        self.Nonresonant = get("nonresonant.nonresonant", "Nonresonant")
        self.KleinNishina = get("nonresonant.klein_nishina", "KleinNishina")
        self.XRMAC = get("nonresonant.xrmac", "XRMAC")
        self.xrmac_cm2_per_g = get("nonresonant.xrmac", "xrmac_cm2_per_g")
        self.xrmac_fm2_per_atom = get("nonresonant.xrmac", "xrmac_fm2_per_atom")
        self.darboux = get("integration.darboux", "darboux")
        self.quad_partition = get("integration.quad_partition", "quad_partition")

    def instrument(self):
        classes, functions = {}, {}
        for name, mod in self.modules.items():
            for attr, v in list(vars(mod).items()):
                if inspect.isclass(v) and str(v.__module__).startswith("ries"):
                    classes[id(v)] = v
                elif inspect.isfunction(v) and str(v.__module__).startswith("ries"):
                    if not attr.startswith("_"):
                        functions[id(v)] = (attr, v)
                elif isinstance(v, np.vectorize):
                    functions[id(v)] = (attr, v)
        for cls in classes.values():
            for attr, v in list(vars(cls).items()):
                if attr.startswith("_") and attr not in MAGIC:
                    continue
                try:
                    if isinstance(v, staticmethod):
                        setattr(cls, attr, staticmethod(
                            self.bus.wrap(v.__func__, cls.__name__, attr, False)))
                    elif isinstance(v, classmethod):
                        setattr(cls, attr, classmethod(
                            self.bus.wrap(v.__func__, cls.__name__, attr, True)))
                    elif inspect.isfunction(v):
                        setattr(cls, attr, self.bus.wrap(v, cls.__name__, attr, True))
                except (AttributeError, TypeError):
                    pass
        replaced = {}
        for i, (attr, v) in functions.items():
            if isinstance(v, np.vectorize):
                def call(*a, _v=v, **k):
                    return _v(*a, **k)
                call.__name__ = attr
                replaced[i] = self.bus.wrap(call, "function", attr, False)
            else:
                replaced[i] = self.bus.wrap(v, "function", attr, False)
        for mod in self.modules.values():
            for attr, v in list(vars(mod).items()):
                if id(v) in replaced:
                    setattr(mod, attr, replaced[id(v)])
        self.n_probes = len(replaced) + sum(
            1 for c in classes.values() for v in vars(c).values()
            if getattr(getattr(v, "__func__", v), "__wrapped_by_monitor__", False)
        )


class LineCoverage:
    """Records which lines of the library were executed (PEP 669, one event per line)."""

    TOOL = 3

    def __init__(self):
        self.lines = {}
        self.on = False

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        root = os.path.realpath(REPO) + os.sep + "ries" + os.sep

        def line(code, lineno):
            fn = code.co_filename
            if fn.startswith(root) and code.co_name != "<module>":
                self.lines.setdefault(fn[len(root):], set()).add(lineno)
            return mon.DISABLE

        try:
            mon.use_tool_id(self.TOOL, "rv")
        except ValueError:
            return
        mon.register_callback(self.TOOL, mon.events.LINE, line)
        mon.set_events(self.TOOL, mon.events.LINE)
        self.on = True
