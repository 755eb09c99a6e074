import copy
import math
import warnings

import numpy as np

from rv.base import Property as Base
from rv.monitors import bucket
from rv.world import KINDS, World


def scaled(p, s):
    """The same level scheme in another unit of energy"""
    q = copy.deepcopy(p)
    q["E_i"], q["E_x"] = p["E_i"] * s, p["E_x"] * s
    q["widths"] = {k: v * s for k, v in p["widths"].items()}
    return q


class Property(Base):
    rule = (
        "A case is one object and its copy with all energies multiplied by a power of two between 2^-30 and 2^30, which is exact "
        "in floating point, with the same queries on both. Distinct: kind of object, power, decade of the relative width."
    )
    deciding = ["strength and centre", "value of a line", "interval and grids of a line", "cumulative distribution and quantiles",
                "total Compton cross section", "differential Compton cross sections", "Compton kinematics",
                "table", "sum", "Darboux sums", "Doppler width", "recoil", "Debye"]
    quick_cases = 4000
    thorough_cases = 20000

    def case(self, ctx, i):
        g = ctx.g
        k = g.choice([1, -1]) * g.choice([1, 2, 10, 20, 30, g.integer(1, 30)])
        s = 2.0 ** k
        w = World(ctx)
        [self.line, self.line, self.compton, self.table, self.total, self.rest][i % 6](ctx, w, s, k)

    def line(self, ctx, w, s, k):
        g, lib = ctx.g, ctx.lib
        kind = g.choice(KINDS)
        p = g.level_scheme(E_lo=1e-3, E_hi=1e2)
        amu, T = w.doppler(p)
        if g.chance(0.4):
            amu, T = w.doppler(p, ratio=g.logu(1e-3, 1e3))
        q = scaled(p, s)
        f1 = f2 = None
        if g.chance(0.5):
            label = g.choice(list(p["widths"]))
            f1, f2 = lib.GroundState(label, 0, 1), lib.GroundState(label, 0, 1)
        a = w.make(kind, w.initial(p), w.excited(p), amu, T, f1)
        b = w.make(kind, w.initial(q), w.excited(q), amu, T, f2)
        L = w.reg.get(a).line
        sig = (kind, k, bucket(L.w / L.E0))
        info = dict(kind=kind, E_r=L.E0, w=L.w, power=k, amu=amu, T=T)
        ctx.note(**info)
        ctx.close("strength and centre", [b.resonance_energy / s, b.energy_integrated_cross_section * s], [a.resonance_energy, a.energy_integrated_cross_section], rtol=1e-14, sig=sig, **info)
        E = g.energies(L, g.integer(3, 60))
        d = L.w * g.r.normal(0, 3, 7)
        ctx.close("value of a line", np.asarray(b(E * s)) * s * s, np.asarray(a(E)), rtol=1e-12, atol=1e-300, sig=sig, E=E, **info)
        ctx.close("value of a line", np.asarray(b(d * s, False)) * s * s, np.asarray(a(d, False)), rtol=1e-12, atol=1e-300, sig=sig + ("relative",), **info)
        x = float(E[0])
        ctx.close("value of a line", b(x * s) * s * s, a(x), rtol=1e-12, atol=1e-300, sig=sig + ("scalar",), same_shape=False, **info)
        exact = kind in ("BreitWigner", "Gauss")

        def energies(monitor, u, v, what):
            """Energies that are obtained from probabilities; numerical inversions need not round alike"""
            u, v = np.asarray(u, dtype=float) / s, np.asarray(v, dtype=float)
            if exact:
                ctx.close(monitor, u, v, rtol=1e-12, sig=sig + (what,), **info)
            elif ctx.check(monitor, u.shape == v.shape and np.all(np.isfinite(u) == np.isfinite(v)), sig=sig + (what, "shape"), got=u, expected=v, **info):
                m = np.isfinite(u)
                ctx.close(monitor, L.cdf(u[m]), L.cdf(v[m]), atol=2e-8 + L.cdf_tol(v[m], 0), sig=sig + (what,), **info)

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c = g.choice([g.u(0.01, 0.99), 1 - g.logu(1e-8, 0.5)])
            n = max(2, g.sizes(200))
            energies("interval and grids of a line", b.coverage_interval(c), a.coverage_interval(c), "interval")
            energies("interval and grids of a line", b.equidistant_probability_grid(c, n), a.equidistant_probability_grid(c, n), "coverage grid")
            _, lo, hi = w.limits(L)
            energies("interval and grids of a line", b.equidistant_probability_grid((lo * s, hi * s), n), a.equidistant_probability_grid((lo, hi), n), "grid")
            ctx.close("interval and grids of a line", b.equidistant_energy_grid((lo * s, hi * s), n) / s, a.equidistant_energy_grid((lo, hi), n), rtol=1e-13, atol=1e-300, sig=sig + ("uniform",), **info)
            da, pa = a.probability_distribution, a.probability_distribution_parameters
            db, pb = b.probability_distribution, b.probability_distribution_parameters
            ctx.close("cumulative distribution and quantiles", db.cdf(E * s, *pb), np.asarray(da.cdf(E, *pa)), rtol=1e-12, atol=1e-15, sig=sig, **info)
            qs = np.concatenate([g.r.uniform(0.001, 0.999, 5), [0.5]])
            energies("cumulative distribution and quantiles", db.ppf(qs, *pb), da.ppf(qs, *pa), "quantiles")

    def compton(self, ctx, w, s, k):
        g, lib = ctx.g, ctx.lib
        Z, m = g.integer(1, 100), g.choice([0.51099895, g.num(1e-2, 1e4)])
        a, b = lib.KleinNishina(Z, m), lib.KleinNishina(Z, m * s)
        E = m * 10.0 ** g.r.uniform(-5, 5, 9)
        sig, info = k, dict(Z=Z, mc2=m, power=k)
        ctx.note(**info)
        ctx.close("total Compton cross section", np.asarray(b(E * s)) * s * s, np.asarray(a(E)), rtol=1e-12, sig=(sig, bucket(m)), E=E, **info)
        e = float(E[0])
        sig = (sig, bucket(e / m))
        ctx.close("total Compton cross section", b(e * s) * s * s, a(e), rtol=1e-12, sig=sig + ("scalar",), same_shape=False, E=e, **info)
        th, ph = g.r.uniform(0, math.pi, 7), g.u(0, 7)
        for name in ("cs_diff_dOmega_unpolarized", "cs_diff_dtheta", "Ep_over_E"):
            u, v = getattr(b, name)(e * s, th), getattr(a, name)(e, th)
            u = np.asarray(u) * (1.0 if name == "Ep_over_E" else s * s)
            ctx.close("Compton kinematics" if name == "Ep_over_E" else "differential Compton cross sections", u, np.asarray(v), rtol=1e-12, sig=sig + (name,), **info)
        ctx.close("differential Compton cross sections", np.asarray(b.cs_diff_dOmega(e * s, th, ph)) * s * s, np.asarray(a.cs_diff_dOmega(e, th, ph)), rtol=1e-12, atol=1e-300, sig=sig + ("polarised",), **info)
        edge = float(a.compton_edge(e))
        ctx.close("Compton kinematics", b.compton_edge(e * s) / s, edge, rtol=1e-13, sig=sig + ("edge",), same_shape=False, **info)
        Ep = edge + (e - edge) * g.r.uniform(0.01, 0.99, 5)
        ctx.close("Compton kinematics", b.theta(e * s, Ep * s), np.asarray(a.theta(e, Ep)), rtol=1e-12, sig=sig + ("angle",), E=e, **info)
        ctx.close("differential Compton cross sections", np.asarray(b.cs_diff_dEp(e * s, Ep * s)) * s ** 3, np.asarray(a.cs_diff_dEp(e, Ep)), rtol=1e-12, sig=sig + ("energy",), E=e, **info)

    def table(self, ctx, w, s, k):
        g, lib = ctx.g, ctx.lib
        t = w.table()
        u = t.copy()
        u[:, 0] *= s
        c = g.choice([1.0, 2.0 ** g.integer(-20, 20)])
        u[:, 1] *= c
        a, b = lib.XRMAC(t), lib.XRMAC(u)
        # Away from the tabulated points: rounding in the logarithm decides on which side of an edge an energy is.
        e = t[:, 0]
        f = g.r.uniform(0.05, 0.95, len(e) - 1)
        mid = e[:-1] ** f * e[1:] ** (1 - f)
        mid = mid[np.diff(e) > 1e-6 * e[1:]]
        E = np.concatenate([mid, [e[0] * g.u(0.1, 0.9), e[-1] * g.u(1.1, 9)]])
        ctx.note(lines=len(t), power=k)
        ctx.close("table", np.asarray(b(E * s)) / c, np.asarray(a(E)), rtol=1e-9, sig=(k, bucket(c), len(t) > 20), power=k, factor=c)

    def total(self, ctx, w, s, k):
        g, lib = ctx.g, ctx.lib
        A, B, lines = [], [], []
        for _ in range(g.integer(1, 4)):
            p = g.level_scheme(E_lo=0.1, E_hi=10.0)
            amu, T = w.doppler(p)
            kind, f = g.choice(KINDS), g.choice([1.0, g.u(-2, 3)])
            for out, q in ((A, p), (B, scaled(p, s))):
                out.append(f * w.make(kind, w.initial(q), w.excited(q), amu, T))
            lines.append(p["E_x"] - p["E_i"])
        c, m = g.u(0, 2), g.choice([0.51099895, g.u(0.1, 10)])
        A += [c, 0.5 * lib.KleinNishina(4, m)]
        B += [c / s / s, 0.5 * lib.KleinNishina(4, m * s)]
        a, b = A[0], B[0]
        for x, y in zip(A[1:], B[1:]):
            a, b = a + x, b + y
        E = np.concatenate([lines, g.r.uniform(0.05, 12, 20)])
        ctx.note(constituents=len(A), power=k)
        v = np.asarray(a(E))
        ctx.close("sum", np.asarray(b(E * s)) * s * s, v, rtol=1e-9, atol=1e-11 * np.abs(v).max(), sig=(len(A), k), power=k)
        x = np.sort(g.r.uniform(0.05, 12, g.sizes(200) + 2))
        u, v = np.array(lib.darboux(b, x * s)), np.array(lib.darboux(a, x))
        ctx.close("Darboux sums", u * s, v, rtol=1e-10, atol=1e-11 * float(np.sum(np.abs(np.asarray(a(x))[1:]) * np.diff(x))), sig=(len(A), k), power=k)

    def rest(self, ctx, w, s, k):
        g, lib = ctx.g, ctx.lib
        amu, T, E = g.amu(), g.temperature(), g.logu(1e-3, 1e3)
        mb = lib.MaxwellBoltzmann(amu, T)
        d = mb.get_doppler_width(E)
        sig = (k, bucket(E))
        ctx.note(power=k, E=E, amu=amu, T=T)
        ctx.close("Doppler width", mb.get_doppler_width(E * s) / s, d, rtol=1e-13, sig=sig, same_shape=False)
        f = lib.MaxwellBoltzmann.get_effective_temperature
        ctx.close("Doppler width", f(d * s, amu, E * s), f(d, amu, E), rtol=1e-13, sig=sig + ("inverse",), same_shape=False)
        # Mass and temperature in the same proportion
        ctx.close("Doppler width", lib.MaxwellBoltzmann(amu * s, T * s).get_doppler_width(E), d, rtol=1e-12, sig=sig + ("mass",), same_shape=False)
        ctx.close("recoil", lib.FreeNucleusRecoil(amu * s)(E * s) / s, lib.FreeNucleusRecoil(amu)(E), rtol=1e-14, sig=sig, same_shape=False)
        D, t = g.logu(10, 3000), g.logu(1, 3000)
        ctx.close("Debye", lib.debye(t * s, D * s) / s, lib.debye(t, D), rtol=1e-6, sig=sig, same_shape=False, T=t, T_D=D)
