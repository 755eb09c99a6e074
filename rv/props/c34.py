import re
import warnings

import numpy as np
from scipy import stats

from rv import model as M
from rv.base import Property as Base
from rv.monitors import bucket
from rv.props.c06 import split
from rv.world import World


class Trapezoid:
    """A distribution that provides nothing but the three documented methods

    Constant density between -1 and 1, falling linearly to zero at -2 and 2, moved and scaled by its parameters.
    """

    def __init__(self):
        self.seen = set()

    def pdf(self, x, loc, scale):
        self.seen.add((loc, scale))
        return reference_pdf((np.asarray(x) - loc) / scale) / scale

    def cdf(self, x, loc, scale):
        self.seen.add((loc, scale))
        return reference_cdf((np.asarray(x) - loc) / scale)

    def ppf(self, q, loc, scale):
        self.seen.add((loc, scale))
        q = np.asarray(q, dtype=float)
        p = np.minimum(q, 1 - q)
        y = np.where(p < 1 / 6, -2 + np.sqrt(np.maximum(6 * p, 0)), -1 + 3 * (p - 1 / 6))
        return loc + scale * np.where(q <= 0.5, y, -y)


def reference_pdf(y):
    return np.clip(2 - np.abs(y), 0, 1) / 3


def reference_cdf(y):
    a = np.clip(2 - np.abs(y), 0, 2)
    p = np.where(a < 1, a * a / 6, 1 / 6 + (a - 1) / 3)
    return np.where(np.asarray(y) < 0, p, 1 - p)


_classes = {}


def user_line(lib):
    """A resonance that a user derives"""
    if lib.Resonance not in _classes:

        class UserLine(lib.Resonance):
            def __init__(self, initial, excited, distribution, parameters, **kw):
                super().__init__(initial, excited, **kw)
                self.probability_distribution = distribution
                self.probability_distribution_parameters = parameters(self.resonance_energy)

        _classes[lib.Resonance] = UserLine
    return _classes[lib.Resonance]


class Property(Base):
    rule = (
        "A case is one resonance with a distribution chosen by the user (from scipy.stats, frozen, or a plain class) and a "
        "recoil correction chosen by the user. Distinct: distribution, how it was attached, decade of the relative width, form of the recoil correction."
    )
    deciding = ["strength times density", "relative energy", "recoil correction of the user", "coverage interval", "warnings", "energy grid",
                "grid of equal probability", "ends of the grid", "in sums", "only the documented methods"]
    quick_cases = 4000
    thorough_cases = 15000

    def distribution(self, g, E0):
        """Name, distribution, parameters as a function of the resonance energy, density and cumulative distribution"""
        w = E0 * g.logu(1e-9, 0.4)
        a, b = g.u(0.3, 8), g.u(0.3, 8)
        name = g.choice(["norm", "laplace", "logistic", "triang", "expon", "gamma", "beta", "uniform", "cauchy", "t", "lognorm", "gumbel_r", "plain"])
        if name == "plain":
            d = Trapezoid()
            return name, d, lambda E: (E, w), None, w
        shape = {"triang": (g.u(0.01, 0.99),), "gamma": (a,), "beta": (1 + a, 1 + b), "t": (1 + a,), "lognorm": (g.u(0.05, 1.0),)}.get(name, ())
        d = getattr(stats, name)
        shift = w * g.u(-1, 1)
        if name == "lognorm":
            # No shift: the parameters of a distribution may also be given incompletely
            return name, d, lambda E: (*shape, 0.0, E), None, E0 * shape[0]
        if g.chance(0.2):
            return name, d(*shape, loc=E0 + shift, scale=w), lambda E: (), "frozen", w
        form = g.choice([tuple, list, np.array])
        return name, d, lambda E: form([*shape, E + shift, w]), None, w

    def case(self, ctx, i):
        g, lib = ctx.g, ctx.lib
        w = World(ctx)
        p = g.level_scheme(E_lo=1e-2, E_hi=1e2)
        dE = p["E_x"] - p["E_i"]
        init, exc = w.initial(p), w.excited(p)
        # Recoil correction
        form = g.choice(["none", "function", "object", "library"])
        k = g.logu(1e-9, 1e-2)
        kw, E0 = {}, dE
        if form == "function":
            kw["recoil_correction"], E0 = (lambda e: e + k * e * e), dE + k * dE * dE
        elif form == "object":

            class Lattice(lib.Recoil):
                def __call__(self, energy_difference):
                    return energy_difference + k

            kw["recoil_correction"], E0 = Lattice(), dE + k
        elif form == "library":
            amu = g.amu()
            kw["recoil_correction"], E0 = lib.FreeNucleusRecoil(amu), float(M.recoil_energy(dE, amu))
        label = g.choice(list(p["widths"]))
        b = 1.0
        if g.chance(0.4):
            kw["final_state"] = w.final(p, label, init=init)
            b = p["widths"][label] / sum(p["widths"].values())
        name, d, params, frozen, width = self.distribution(g, E0)
        how = g.choice(["derived", "assigned"])
        if how == "derived":
            r = user_line(lib)(init, exc, d, params, **kw)
        else:
            r = lib.Resonance(init, exc, **kw)
            r.probability_distribution = d
            r.probability_distribution_parameters = params(r.resonance_energy)
        par = params(E0)
        sig = (name, frozen, how, bucket(width / E0), form)
        info = dict(distribution=name, how=how, E_r=E0, width=width, recoil=form)
        ctx.note(**info)
        ctx.close("recoil correction of the user", float(r.resonance_energy), E0, rtol=1e-14, sig=sig, **info)
        I = M.strength(E0, p["two_J_i"], p["two_J_x"], p["widths"][p["initial"]], b)
        ctx.close("recoil correction of the user", float(r.energy_integrated_cross_section), I, rtol=5e-9, sig=sig + ("strength",), **info)
        E0 = float(r.resonance_energy)
        if not frozen:
            par = params(E0)
        I = float(r.energy_integrated_cross_section)
        if name == "plain":
            pdf, cdf = (lambda x: reference_pdf((np.asarray(x) - par[0]) / par[1]) / par[1]), (lambda x: reference_cdf((np.asarray(x) - par[0]) / par[1]))
            ppf = Trapezoid().ppf
            inv = lambda q: ppf(q, *par)
        else:
            pdf, cdf, inv = (lambda x: d.pdf(x, *par)), (lambda x: d.cdf(x, *par)), (lambda q: d.ppf(q, *par))
        # Evaluation
        E = E0 + width * g.r.normal(0, 2, g.sizes(300))
        E[: len(E) // 3] = inv(g.r.uniform(0, 1, len(E) // 3))
        ctx.close("strength times density", r(g.layout(E)), I * pdf(E), rtol=1e-12, sig=sig, **info)
        x = float(E[-1])
        ctx.close("strength times density", r(x), I * float(pdf(x)), rtol=1e-12, sig=sig + ("scalar",), same_shape=False, **info)
        dd = E - E0
        ctx.close("relative energy", r(dd, g.flag(False)), I * pdf(dd + E0), rtol=1e-12, sig=sig, **info)
        # Coverage
        for c in (g.u(0.01, 0.99), 1 - g.logu(1e-6, 0.5), g.choice([0.0, 1.0, 1, 0, 0.5])):
            q = 0.5 * np.array([1.0 - c, 1.0 + c])
            want = np.array(inv(q), dtype=float)
            with np.errstate(all="ignore"):  # Probabilities may be formed with rounding errors
                slack = np.nan_to_num(inv(np.minimum(q + 2.3e-16, 1.0)) - inv(np.maximum(q - 2.3e-16, 0.0)), nan=0.0, posinf=0.0)
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                lim = r.coverage_interval(c)
            _, other = split(rec)
            n = int(want[0] < 0) + int(np.isinf(want[1]))
            ctx.check("warnings", len(other) == n, sig=sig + (n,), coverage=c, expected=n, warnings=other, **info)
            if want[0] < 0:
                top = 100 * (1 - float(cdf(0.0)))
                nums = [float(x) for t in other for x in re.findall(r"[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?", t)]
                ctx.check("warnings", any(abs(x - top) <= 2e-4 or abs(100 * x - top) <= 2e-4 for x in nums), sig=sig + ("largest",), warnings=other, expected=top, **info)
                want[0] = slack[0] = 0.0
            ctx.close("coverage interval", lim, want, atol=slack + 1e-13 * np.nan_to_num(np.abs(want), posinf=0.0), sig=sig + (bucket(1 - c) if c < 1 else "one",), coverage=c, **info)
            m = max(2, g.sizes(200))
            if np.all(np.isfinite(want)):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    grid = r.equidistant_energy_grid(c, m)
                    same = r.equidistant_probability_grid(c, m)
                ctx.close("energy grid", grid, np.linspace(want[0], want[1], m), rtol=1e-13, atol=slack.max() + 1e-300, sig=sig, **info)
                self.grid(ctx, same, np.asarray(lim, dtype=float), m, pdf, cdf, sig + ("coverage",), info)
        # Limits
        q = np.sort(g.r.uniform(0, 1, 2))
        lim = np.array(inv(q), dtype=float)
        if g.chance(0.4):
            lim += width * np.array([-1, 1]) * g.logu(0.01, 100)
        lim[0] = max(lim[0], 0.0)
        if not lim[1] > lim[0]:
            return
        m = max(2, g.sizes(600))
        arg = w.pair(float(lim[0]), float(lim[1]))
        grid = r.equidistant_probability_grid(arg, m)
        self.grid(ctx, grid, lim, m, pdf, cdf, sig, info)
        # Sums
        f = g.choice([2.0, -0.5, 0.25])
        s = g.choice([lambda: f * r + 1.5, lambda: 1.5 + r * f, lambda: lib.ConstantCrossSection(1.5) + f * r])()
        ctx.close("in sums", s(E), f * I * pdf(E) + 1.5, rtol=1e-12, atol=1e-12 * (1.5 + np.abs(f * I * pdf(E))), sig=sig, **info)
        union = np.unique(np.concatenate([np.asarray(grid), lib.ConstantCrossSection(1.5).equidistant_probability_grid(arg, m)]))
        ctx.close("in sums", s.equidistant_probability_grid(arg, m), union, rtol=1e-15, sig=sig + ("grid",), **info)
        if name == "plain":
            ctx.check("only the documented methods", d.seen == {(E0, width)}, sig=sig, seen=sorted(d.seen), expected=(E0, width))

    def grid(self, ctx, grid, lim, m, pdf, cdf, sig, info):
        x = np.asarray(grid, dtype=float)
        ok = ctx.check("ends of the grid", x.shape == (m,) and abs(x[0] - lim[0]) <= 1e-13 * abs(lim[0]) and abs(x[-1] - lim[1]) <= 1e-13 * abs(lim[1])
                       and bool(np.all(np.diff(x) >= 0)), sig=sig, limits=lim, grid=x, **info)
        if not ok:
            return
        a, b = float(cdf(lim[0])), float(cdf(lim[1]))
        want = a + (b - a) * np.arange(m) / (m - 1)
        with np.errstate(all="ignore"):
            tol = 1e-8 + 8 * np.spacing(np.abs(x)) * np.nan_to_num(pdf(x), nan=0.0, posinf=0.0)
        ctx.close("grid of equal probability", cdf(x), want, atol=tol, sig=sig, limits=lim, **info)
