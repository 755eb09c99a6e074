"""Construction of library objects from generated parameters"""

import numpy as np

STILL = "earlier objects give the same values"
KINDS = ("BreitWigner", "Gauss", "PseudoVoigt", "Voigt")


_user = {}


def user_class(lib):
    """A cross section written by a user, who keeps the arrays that were handed out"""
    if lib.CrossSection not in _user:

        class Tabulated(lib.CrossSection):
            def __init__(self, a, b):
                self.a, self.b, self.kept = a, b, {}

            def value(self, E):
                return self.a / (self.b + np.asarray(E, dtype=float))

            def __call__(self, E):
                if np.ndim(E) == 0:
                    return self.a / (self.b + float(E))
                key = (np.shape(E), np.asarray(E).tobytes())
                if key not in self.kept:
                    if len(self.kept) > 20:
                        self.kept.clear()
                    self.kept[key] = self.value(E)
                    self.kept[key].flags.writeable = False
                return self.kept[key]

            def equidistant_probability_grid(self, limits, n_points):
                grid = np.linspace(limits[0], limits[1], n_points)
                grid.flags.writeable = False
                return grid

        _user[lib.CrossSection] = Tabulated
    return _user[lib.CrossSection]


class UserShadow:
    def __init__(self, o):
        self.o = o

    def value(self, E):
        v = self.o.value(E)
        return v, 1e-14 * np.abs(v)


class World:
    def __init__(self, ctx):
        self.ctx, self.lib, self.g, self.reg = ctx, ctx.lib, ctx.g, ctx.reg

    def initial(self, p):
        if p["excited_initial"]:
            return self.lib.State(
                p["initial"], p["two_J_i"], p["parity_i"], self.g.scalar_type(p["E_i"]), {"gs": 1e-9}
            )
        return self.lib.GroundState(p["initial"], p["two_J_i"], p["parity_i"])

    def excited(self, p):
        return self.lib.State(
            "exc", p["two_J_x"], p["parity_x"], self.g.scalar_type(p["E_x"]), dict(p["widths"])
        )

    def final(self, p, label, two_J=2, init=None):
        if init is not None and label == p["initial"] and self.g.chance(0.5):
            # Elastic scattering, with the same object for both states
            return init
        if self.g.chance(0.5):
            return self.lib.GroundState(label, two_J, 1)
        return self.lib.State(label, two_J, 1, 0.3 * p["E_x"], {"gs": 1e-6})

    def doppler(self, p, lo=1.0, hi=1e6, ratio=None):
        """Mass and temperature; optionally with a given ratio of Doppler and natural width"""
        g = self.g
        amu = g.amu()
        T = g.temperature(lo, hi)
        if ratio is not None:
            from rv import model as M

            dE = p["E_x"] - p["E_i"]
            total = sum(p["widths"].values())
            T = (ratio * total / dE) ** 2 * amu * M.U_MEV / (2 * M.KB_EV * 1e-6)
        return amu, T

    def make(self, kind, init, exc, amu, T, final=None, recoil=None):
        lib = self.lib
        kw = self.g.chance(0.5)
        if kind == "Resonance":
            a = [init, exc]
            if recoil is not None:
                return lib.Resonance(init, exc, final, recoil)
            return lib.Resonance(init, exc, final) if final is not None else lib.Resonance(*a)
        amu, T = self.g.scalar_type(amu), self.g.scalar_type(T)
        cls = getattr(lib, kind)
        if kind == "BreitWigner":
            if final is None:
                return cls(init, exc)
            return cls(init, exc, final_state=final) if kw else cls(init, exc, final)
        if final is None:
            return cls(init, exc, amu, T)
        return cls(init, exc, amu, T, final_state=final) if kw else cls(init, exc, amu, T, final)

    def resonance(self, kind=None, p=None, final=False, **scheme):
        g = self.g
        kind = kind or g.choice(KINDS)
        p = p or g.level_scheme(**scheme)
        amu, T = self.doppler(p)
        if kind in ("PseudoVoigt", "Voigt") and g.chance(0.4):
            r = g.choice([g.logu(1e-3, 1e3), g.logu(1e-6, 1e6)])
            a, t = self.doppler(p, ratio=r)
            if 1e-3 < t < 1e9:
                amu, T = a, t
        f = None
        init = self.initial(p)
        if final and g.chance(0.5):
            f = self.final(p, g.choice(list(p["widths"])), init=init)
        obj = self.make(kind, init, self.excited(p), amu, T, f)
        sh = self.reg.get(obj)
        if g.chance(0.05):
            E = sh.line.E0 + sh.line.w * np.array([-2.0, 0.0, 0.5, 30.0])
            self.ctx.later(STILL, lambda: (obj(E), obj.resonance_energy, obj.energy_integrated_cross_section), kind=kind)
        return obj, sh

    def table(self, n=None, edges=None):
        """Increasing table of energies and positive values, possibly with absorption edges"""
        g = self.g
        n = n or g.integer(2, 200)
        lo = g.logu(1e-4, 1.0)
        steps = g.r.uniform(0.001, 0.3, n) * min(1.0, 300.0 / n)
        if g.chance(0.3):
            e = np.array([round(x, 6) for x in lo * np.exp(np.cumsum(steps))])
        else:
            e = lo * np.exp(np.cumsum(steps))
        e = np.unique(e)
        while len(e) < 2:
            e = np.append(e, e[-1] * 1.5)
        v = 10.0 ** np.clip(
            np.cumsum(g.r.normal(-0.1, 0.4, len(e))) + g.u(-4, 4), -8, 8
        )
        rows = [[float(a), float(b)] for a, b in zip(e, v)]
        edges = g.choice([0, 0, 1, 2, 5]) if edges is None else edges
        if len(rows) > 3:
            for k in sorted(set(g.r.integers(1, len(rows) - 1, edges).tolist()), reverse=True):
                rows.insert(k + 1, [rows[k][0], rows[k][1] * g.u(1.2, 9.0) ** g.choice([1, 1, -1])])
        return np.array(rows)

    def nonresonant(self):
        o = self._nonresonant()
        if self.g.chance(0.05):
            E = np.array([0.01, 0.3, 2.0, 50.0])
            self.ctx.later(STILL, lambda: o(E), kind=type(o).__name__)
        return o

    def _nonresonant(self):
        g, lib = self.g, self.lib
        k = int(g.r.integers(4))
        if k == 0:
            return lib.KleinNishina(g.integer(1, 120)) if g.chance(0.8) else lib.KleinNishina()
        if k == 1:
            return lib.KleinNishina(g.num(1, 100), g.num(0.05, 500.0))
        if k == 2:
            return lib.XRMAC(self.table())
        sym = g.choice([s for s in lib.xrmac_cm2_per_g])
        return lib.xrmac_cm2_per_g[sym]

    def constant(self):
        return self.lib.ConstantCrossSection(self.g.scalar_type(self.g.num(1e-3, 1e3)))

    def user(self):
        o = user_class(self.lib)(self.g.num(1e-2, 1e2), self.g.num(0.1, 10.0))
        self.reg.put(o, UserShadow(o))
        return o

    def cross_section(self, user=False):
        u = self.g.r.random()
        if user and u < 0.1:
            return self.user()
        if u < 0.5:
            return self.resonance(E_lo=1e-2, E_hi=30.0)[0]
        if u < 0.65:
            return self.constant()
        return self.nonresonant()

    def limits(self, L):
        """Energy range relative to a line: around it, on one side, far away, large"""
        g = self.g
        k = int(g.r.integers(9))
        w = L.w
        if k == 0:
            a, b = L.E0 - w * g.logu(0.1, 1e3), L.E0 + w * g.logu(0.1, 1e3)
        elif k == 1:
            d = w * g.logu(0.1, 1e4)
            a, b = L.E0 - d, L.E0 + d
        elif k == 2:
            a = L.E0 + w * g.logu(0.01, 1e3)
            b = a + w * g.logu(0.1, 1e3)
        elif k == 3:
            b = L.E0 - w * g.logu(0.01, 1e3)
            a = b - w * g.logu(0.1, 1e3)
        elif k == 4:
            a, b = 0.0, L.E0 * g.u(1.01, 3)
        elif k == 5:
            a, b = L.E0 * g.u(0.1, 0.99), L.E0 * g.u(1.01, 10)
        elif k == 6:
            a, b = sorted([L.E0 * g.u(0, 3), L.E0 * g.u(0, 3)])
        elif k == 8:
            # Many decades
            a, b = L.E0 * g.logu(1e-10, 1e-3), L.E0 * g.logu(1.1, 1e3)
        else:
            a, b = L.E0, L.E0 + w * g.logu(0.1, 1e5)
            if g.chance(0.5):
                a, b = L.E0 - (b - a), L.E0
        a, b = max(0.0, a), max(0.0, b)
        if not b > a:
            a, b = 0.5 * L.E0, 1.5 * L.E0
        return k, a, b

    def pair(self, a, b):
        """A pair of limits in one of the forms that callers use"""
        g = self.g
        k = int(g.r.integers(4))
        a, b = float(a), float(b)
        return [(a, b), [a, b], np.array([a, b]), (np.float64(a), np.float64(b))][k]

    def box(self, E_lo=1e-2, E_hi=1e2):
        """The default, box-shaped resonance"""
        p = self.g.level_scheme(E_lo=E_lo, E_hi=E_hi)
        r = self.make("Resonance", self.initial(p), self.excited(p), 1, 1)
        return r, self.reg.get(r)
