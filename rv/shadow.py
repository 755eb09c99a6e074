"""Shadow objects: the reference model that belongs to each live object of the library.

The shadows are created by the construction events and by the events of the algebraic operations,
so a monitor can predict the value of any object that the library, a workload or a test creates.
"""

import math

import numpy as np

from rv import model as M

RESONANCES = ("Resonance", "BreitWigner", "Gauss", "PseudoVoigt", "Voigt")


class StateShadow:
    def __init__(self, J_pi, two_J, parity, E, widths):
        self.J_pi, self.two_J, self.parity, self.E = J_pi, two_J, parity, float(E)
        self.widths = dict(widths) if widths is not None else None

    @property
    def width(self):
        return math.fsum(self.widths.values())


class ResonanceShadow:
    def __init__(self, kind, init, exc, final, amu, T, recoil_amu):
        self.kind = kind
        self.init, self.exc, self.final = init, exc, final
        self.amu, self.T = amu, T
        dE = exc.E - init.E
        self.dE = dE
        self.E_r = M.recoil_energy(dE, recoil_amu) if recoil_amu else dE
        self.g = (exc.two_J + 1.0) / (init.two_J + 1.0)
        self.b = 1.0 if final is None else exc.widths[final.J_pi] / exc.width
        self.I = M.strength(
            self.E_r, init.two_J, exc.two_J, exc.widths[init.J_pi], self.b
        )
        self.line = M.Line(kind, self.E_r, exc.width, amu, T)

    def value(self, E):
        v = self.I * self.line.pdf(E)
        return v, self.I * self.line.pdf_tol(E, 6e-9)


class ConstantShadow:
    def __init__(self, c):
        self.c = float(c)

    def value(self, E):
        return np.full(np.shape(E), self.c), np.full(np.shape(E), 1e-14 * abs(self.c))


class KNShadow:
    def __init__(self, Z, mc2):
        self.Z, self.mc2 = float(Z), float(mc2)

    def value(self, E):
        v = M.kn_total_fast(E, self.Z, self.mc2)
        return v, 1e-8 * v


class TableShadow:
    def __init__(self, data):
        self.table = np.array(data, dtype=float)[:, :2].copy()

    def value(self, E):
        E = np.asarray(E, dtype=float)
        lo, hi = M.loglog_array(self.table, E)
        r = 16 * np.spacing(np.abs(E))
        a = np.stack(
            [lo, hi, *M.loglog_array(self.table, E - r), *M.loglog_array(self.table, E + r)]
        )
        mid = 0.5 * (a.max(0) + a.min(0))
        return mid, 0.5 * (a.max(0) - a.min(0)) + 1e-9 * mid


class SumShadow:
    """Linear combination of shadows"""

    def __init__(self, terms):
        self.terms = terms

    def value(self, E):
        v = np.zeros(np.shape(E))
        t = np.full(np.shape(E), 1e-300)
        for c, s in self.terms:
            a, b = s.value(E)
            v = v + c * a
            t = t + abs(c) * (b + 1e-13 * np.abs(a))
        return v, t


class Registry:
    """Subscribes to the events of a probe bus and keeps the shadow of every object."""

    def __init__(self, lib):
        self.lib = lib
        self.reg = {}
        self.keep = {}
        bus = lib.bus
        bus.on("__init__", self.on_init)
        for n in ("__add__", "__radd__"):
            bus.on(n, self.on_add)
        for n in ("__mul__", "__rmul__"):
            bus.on(n, self.on_mul)
        self.listeners = []
        for table in (lib.xrmac_cm2_per_g, lib.xrmac_fm2_per_atom):
            for v in table.values():
                self.keep[id(v)] = (v, TableShadow(v.data))

    def reset(self):
        self.reg.clear()

    def get(self, obj):
        e = self.reg.get(id(obj)) or self.keep.get(id(obj))
        if e is not None and e[0] is obj:
            return e[1]
        return None

    def put(self, obj, shadow):
        if shadow is not None:
            self.reg[id(obj)] = (obj, shadow)

    def state(self, s):
        sh = self.get(s)
        if sh is None:
            sh = StateShadow(
                s.J_pi, s.two_J, s.parity, s.excitation_energy, getattr(s, "partial_widths", None)
            )
        return sh

    def on_init(self, ev):
        if ev.error is not None:
            return
        obj = ev.obj
        kind = type(obj).__name__
        A = ev.arg
        sh = None
        if kind == "GroundState":
            sh = StateShadow(A(0, None, "J_pi"), A(1, None, "two_J"), A(2, None, "parity"), 0.0, None)
        elif kind == "State":
            sh = StateShadow(
                A(0, None, "J_pi"), A(1, None, "two_J"), A(2, None, "parity"),
                A(3, None, "excitation_energy"), A(4, None, "partial_widths"),
            )
        elif kind in RESONANCES:
            init = self.state(A(0, None, "initial_state"))
            exc = self.state(A(1, None, "intermediate_state"))
            amu = T = rec = None
            if kind in ("Resonance", "BreitWigner"):
                final = A(2, None, "final_state")
                r = A(3, None, "recoil_correction") if kind == "Resonance" else None
                if r is not None and type(r).__name__ == "FreeNucleusRecoil":
                    rec = r.amu
            else:
                amu, T = A(2, None, "amu"), A(3, None, "effective_temperature")
                final = A(4, None, "final_state")
            final = self.state(final) if final is not None else None
            sh = ResonanceShadow(kind, init, exc, final, amu, T, rec)
        elif kind == "ConstantCrossSection":
            sh = ConstantShadow(A(0, None, "constant"))
        elif kind == "KleinNishina":
            sh = KNShadow(A(0, 1, "Z"), A(1, M.ME, "mc2"))
        elif kind == "XRMAC":
            d = A(0, None, "data")
            if not isinstance(d, str):
                sh = TableShadow(d)
        elif kind == "CrossSectionWeightedSum":
            rs = list(A(0, None, "reactions") or [])
            fs = A(1, None, "scale_factors")
            fs = [1.0] * len(rs) if fs is None else list(fs)
            subs = [self.get(r) for r in rs]
            if all(s is not None for s in subs):
                sh = SumShadow([(float(f), s) for f, s in zip(fs, subs)])
        self.put(obj, sh)
        for f in self.listeners:
            f(ev, sh)

    def operand(self, x):
        sh = self.get(x)
        if sh is not None:
            return sh
        if np.ndim(x) == 0 and isinstance(x, (int, float, np.number)):
            return ConstantShadow(x)
        return None

    def on_add(self, ev):
        if ev.error is not None or ev.result is NotImplemented:
            return
        a, b = self.get(ev.obj), self.operand(ev.arg(0))
        if a is not None and b is not None:
            self.put(ev.result, SumShadow([(1.0, a), (1.0, b)]))

    def on_mul(self, ev):
        if ev.error is not None or ev.result is NotImplemented:
            return
        a, c = self.get(ev.obj), ev.arg(0)
        if a is not None and isinstance(c, (int, float, np.number)):
            self.put(ev.result, SumShadow([(float(c), a)]))
