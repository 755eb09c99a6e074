"""Recipes of objects and public operations on them, for the checks of histories and schedules"""

import os

import numpy as np

from rv.lib import REPO
from rv.world import KINDS, World, user_class


class Recipe:
    """Description from which equal objects can be created any number of times"""

    def __init__(self, kind, build, E0, w):
        self.kind, self.build, self.E0, self.w = kind, build, E0, w


def resonance_recipe(g, kind=None):
    kind = kind or g.choice(KINDS)
    p = g.level_scheme(E_lo=1e-2, E_hi=30.0, rel_lo=1e-9)
    amu, T = g.amu(), g.temperature(1.0, 1e4)
    final = g.choice([None, None, g.choice(list(p["widths"]))])
    from rv import model as M

    dE = p["E_x"] - p["E_i"]
    L = M.Line(kind, dE, sum(p["widths"].values()), amu, T)

    def build(lib):
        init = (lib.State(p["initial"], p["two_J_i"], p["parity_i"], p["E_i"], {"gs": 1e-9}) if p["excited_initial"]
                else lib.GroundState(p["initial"], p["two_J_i"], p["parity_i"]))
        exc = lib.State("exc", p["two_J_x"], p["parity_x"], p["E_x"], dict(p["widths"]))
        f = lib.GroundState(final, 2, 1) if final is not None else None
        if kind == "BreitWigner":
            return lib.BreitWigner(init, exc, f)
        return getattr(lib, kind)(init, exc, amu, T, f)

    return Recipe(kind, build, L.E0, L.w)


def kn_recipe(g):
    Z, m = g.choice([1, g.integer(1, 100)]), g.choice([None, g.num(0.1, 500.0)])
    return Recipe("KleinNishina", lambda lib: lib.KleinNishina(Z) if m is None else lib.KleinNishina(Z, m), g.logu(1e-2, 20), 0.1)


def table_recipe(g, w):
    tab = w.table()
    return Recipe("XRMAC", lambda lib: lib.XRMAC(tab.copy()), float(tab[len(tab) // 2, 0]), 0.1 * float(tab[0, 0]))


def shipped_recipe(g):
    from rv.props.c19 import SYM

    s = SYM[str(int(g.r.integers(1, 93)))]["X"]
    d = g.choice(["xrmac_cm2_per_g", "xrmac_fm2_per_atom"])
    return Recipe("shipped", lambda lib: getattr(lib, d)[s], g.logu(1e-3, 20), 0.01)


def constant_recipe(g):
    c = g.num(1e-3, 1e3)
    return Recipe("constant", lambda lib: lib.ConstantCrossSection(c), 1.0, 0.1)


def user_recipe(g):
    a, b = g.num(1e-2, 1e2), g.num(0.1, 10.0)
    return Recipe("user", lambda lib: user_class(lib)(a, b), 1.0, 0.1)


def sum_recipe(g, w, parts=None):
    parts = parts or [leaf(g, w) for _ in range(g.integer(2, 5))]
    fs = [g.choice([g.u(-2, 3), g.u(-2, 3), 1.0]) for _ in parts]
    style = int(g.r.integers(3))

    def build(lib):
        xs = [p.build(lib) for p in parts]
        if style == 0:
            return lib.CrossSectionWeightedSum(xs, list(fs))
        s = xs[0] * fs[0]
        for f, x in zip(fs[1:], xs[1:]):
            s = s + f * x if style == 1 else x * f + s
        return s

    return Recipe("sum", build, parts[0].E0, parts[0].w)


def leaf(g, w):
    u = g.r.random()
    if u < 0.6:
        return resonance_recipe(g)
    if u < 0.75:
        return kn_recipe(g)
    if u < 0.85:
        return table_recipe(g, w)
    if u < 0.92:
        return shipped_recipe(g)
    if u < 0.96:
        return user_recipe(g)
    return constant_recipe(g)


def recipe(g, w):
    return sum_recipe(g, w) if g.chance(0.2) else leaf(g, w)


class Op:
    """call(lib, obj, *args()): args() creates equal, independent arguments on each call."""

    def __init__(self, label, recipe, call, *args):
        self.label, self.recipe, self.call = label, recipe, call
        self.template = args

    def args(self):
        return [copy_arg(a) for a in self.template]

    def build(self, lib):
        return self.recipe.build(lib) if self.recipe is not None else None


def copy_arg(a):
    if isinstance(a, np.ndarray):
        # keeps strides and flags
        return a if not a.flags.writeable else (a.copy(order="K") if a.flags.forc else _strided(a))
    if isinstance(a, list):
        return [copy_arg(x) for x in a]
    return a


def _strided(a):
    b = np.empty(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
    b[..., ::2] = a
    return b[..., ::2]


NONE = Recipe("none", lambda lib: None, 1.0, 0.1)
ELEMENTS = os.path.join(REPO, "ries/constituents/nist_elements/elements.txt")
DENSITIES = os.path.join(REPO, "ries/constituents/geant4_densities/element_densities.txt")


def energies(g, rc):
    n = g.choice([None, 1, 3, 20, 200])
    if n is None:
        return abs(rc.E0 + rc.w * g.u(-3, 3)) + 1e-6
    E = np.abs(rc.E0 + rc.w * g.r.normal(0, 3, n)) + 1e-6
    if g.chance(0.2) and n >= 3:
        E = E[: n - n % 2].reshape(2, -1) if n > 1 else E
    return E


def limits(g, rc):
    a, b = max(0.0, rc.E0 - rc.w * g.logu(0.5, 100)), rc.E0 + rc.w * g.logu(0.5, 100)
    return g.choice([(a, b), [a, b], np.array([a, b])])


def operation(g, rc):
    """A random public operation on an object of this recipe"""
    k = rc.kind
    u = int(g.r.integers(10))
    n = g.choice([2, 3, 10, 50])
    call = lambda lib, o, E: o(E)
    if k in KINDS:
        if u == 0:
            return Op("relative", rc, lambda lib, o, d: o(d, False), np.array(rc.w * g.r.normal(0, 2, 5)))
        if u == 1:
            return Op("coverage", rc, lambda lib, o, c: o.coverage_interval(c), g.choice([g.u(0.01, 0.99), 1 - g.logu(1e-12, 0.5)]))
        if u == 2:
            return Op("energy grid", rc, lambda lib, o, l, m: o.equidistant_energy_grid(l, m), limits(g, rc), n)
        if u == 3:
            return Op("energy grid, coverage", rc, lambda lib, o, l, m: o.equidistant_energy_grid(l, m), g.u(0.1, 0.99), n)
        if u == 4:
            return Op("probability grid", rc, lambda lib, o, l, m: o.equidistant_probability_grid(l, m), limits(g, rc), n)
        if u == 5:
            return Op("probability grid, coverage", rc, lambda lib, o, l, m: o.equidistant_probability_grid(l, m), g.u(0.1, 0.99), n)
        if u == 6:
            q = g.choice([g.u(0.01, 0.99), g.r.uniform(0.01, 0.99, 5), np.sort(g.r.uniform(1e-6, 1, 20))])
            return Op("quantile", rc, lambda lib, o, q: o.probability_distribution.ppf(q, *o.probability_distribution_parameters), q)
        if u == 7:
            return Op("cumulative", rc, lambda lib, o, E: o.probability_distribution.cdf(E, *o.probability_distribution_parameters), energies(g, rc))
        if u == 8:
            return Op("attributes", rc, lambda lib, o: np.array([o.resonance_energy, o.energy_integrated_cross_section, o.statistical_factor, o.final_state_branching_ratio]))
        return Op("evaluate", rc, call, energies(g, rc))
    if k == "sum":
        if u < 3:
            return Op("sum: probability grid", rc, lambda lib, o, l, m: o.equidistant_probability_grid(l, m), limits(g, rc), n)
        if u < 4:
            return Op("sum: energy grid", rc, lambda lib, o, l, m: o.equidistant_energy_grid(l, m), limits(g, rc), n)
        if u < 6:
            c = g.u(-2, 2)
            return Op("sum: arithmetic", rc, lambda lib, o, E: (c * o + 1.5 + o)(E), energies(g, rc))
        return Op("sum: evaluate", rc, call, energies(g, rc))
    if k == "KleinNishina" and u < 7:
        E = rc.E0
        th = g.choice([g.u(0, 3), g.r.uniform(0, np.pi, 4)])
        if u == 0:
            return Op("KN: ratio", rc, lambda lib, o, e, t: o.Ep_over_E(e, t), E, th)
        if u == 1:
            return Op("KN: angle", rc, lambda lib, o, e, r: o.theta(e, o.compton_edge(e) + (e - o.compton_edge(e)) * r), E, g.r.random(4))
        if u == 2:
            return Op("KN: solid angle", rc, lambda lib, o, e, t, p: o.cs_diff_dOmega(e, t, p), E, th, g.u(0, 6))
        if u == 3:
            return Op("KN: unpolarised", rc, lambda lib, o, e, t: o.cs_diff_dOmega_unpolarized(e, t), E, th)
        if u == 4:
            return Op("KN: scattered energy", rc, lambda lib, o, e, r: o.cs_diff_dEp(e, o.compton_edge(e) + (e - o.compton_edge(e)) * r), E, g.r.uniform(0.1, 0.9, 4))
        if u == 5:
            return Op("KN: polar angle", rc, lambda lib, o, e, t: o.cs_diff_dtheta(e, t), E, th)
        return Op("KN: grid", rc, lambda lib, o, l, m: o.equidistant_probability_grid(l, m), limits(g, rc), n)
    if k in ("XRMAC", "shipped", "constant", "KleinNishina", "user"):
        if u == 7:
            return Op(k + ": grid", rc, lambda lib, o, l, m: o.equidistant_probability_grid(l, m), limits(g, rc), n)
        return Op(k + ": evaluate", rc, call, energies(g, rc))
    return None


def free_operation(g):
    """A random operation that needs no cross section"""
    u = int(g.r.integers(9))
    if u == 0:
        return Op("Debye", NONE, lambda lib, o, T, D: lib.debye(T, D), g.choice([g.u(1, 1000), g.r.uniform(1, 1000, 3)]), g.u(30, 1500))
    if u == 1:
        return Op("Doppler width", NONE, lambda lib, o, m, T, E: lib.MaxwellBoltzmann(m, T).get_doppler_width(E), g.amu(), g.u(1, 1e4), g.r.uniform(0.1, 10, 3))
    if u == 2:
        return Op("Doppler inverse", NONE, lambda lib, o, d, m, E: lib.MaxwellBoltzmann.get_effective_temperature(d, m, E), g.r.uniform(1e-6, 1e-5, 3), g.amu(), g.u(0.1, 10))
    if u == 3:
        return Op("recoil", NONE, lambda lib, o, m, E: lib.FreeNucleusRecoil(m)(E), g.amu(), g.u(0.1, 10))
    if u == 4:
        x = np.sort(g.r.uniform(0, 3, 12))
        return Op("Darboux", NONE, lambda lib, o, f, x: np.array(lib.darboux(f, x)), np.cos(x), x)
    if u == 5:
        x = np.sort(g.r.uniform(0, 3, 4))
        a = g.u(0.5, 2)
        nd = int(g.r.integers(1, 3))
        f = (lambda t: np.cos(a * t)) if nd == 1 else (lambda t, s: np.cos(a * t) * s)
        return Op("quad_partition", NONE, lambda lib, o, x, l: np.array(lib.quad_partition(f, x, l)), x, [] if nd == 1 else [[0.0, g.u(0.5, 2)]])
    if u == 6:
        Z = int(g.r.integers(1, 119))

        def read(lib, o, Z):
            ab, iso = lib.NISTElementDataReader(ELEMENTS).read_nist_element_data(Z)
            return {k: (v, iso[k].amu) for k, v in ab.items()}

        return Op("element reader", NONE, read, Z)
    if u == 7:
        from rv.props.c22 import SYMBOLS

        s = g.choice(SYMBOLS[:98])
        return Op("density reader", NONE, lambda lib, o, s: lib.Geant4DensityDataReader(DENSITIES).read_density_data(s), s)
    from rv.props.c22 import SYMBOLS

    s = g.choice(SYMBOLS)

    def look(lib, o, s):
        e = lib.natural_elements[s]
        return {"Z": e.Z, "amu": e.amu, "density": e.density, **{k: (e.abundances[k], e.isotopes[k].amu) for k in e.isotopes}}

    return Op("element lookup", NONE, look, s)


def change(g, args):
    """Exchange values of arrays in place, such that the arguments stay in their domain"""
    n = 0
    for a in args:
        if isinstance(a, np.ndarray) and a.dtype.kind == "f" and a.size > 1 and a.flags.writeable:
            a[...] = g.choice([np.min, np.max, np.median])(a) if g.chance(0.3) else np.flip(a).copy()
            n += 1
    return n


def near(g, args):
    """Arguments that differ very little from the given ones, and stay in their domain"""
    d = 10.0 ** -g.u(3, 15.5)

    def move(a):
        if isinstance(a, (list, tuple)):
            return type(a)(move(x) for x in a)
        if isinstance(a, np.ndarray) and a.dtype.kind == "f":
            return a * (1 - d)
        if isinstance(a, float):
            # Values close to one, like coverages, also differ by a part of their distance
            return 1 - (1 - a) * (1 + d * g.choice([1, 1e-3, 1e3])) if 0.5 < a < 1 and g.chance(0.5) else a * (1 - d)
        return a

    return [move(a) for a in args]


IN_PLACE = ("relative", "quantile", "cumulative", "evaluate", "arithmetic", "KN: ratio", "KN: angle", "KN: solid angle", "KN: unpolarised",
            "KN: scattered energy", "KN: polar angle", "Debye", "Doppler width", "Doppler inverse", "recoil")


def snapshot(x):
    """Independent copy for comparison"""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return tuple(snapshot(v) for v in x)
    return x


def same(a, b, rtol=0.0):
    """Same structure, shape and values"""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k], rtol) for k in a)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y, rtol) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return a == b
    if x.shape != y.shape:
        return False
    with np.errstate(all="ignore"):
        ok = (x == y) | (np.isnan(x) & np.isnan(y))
        if rtol:
            ok |= np.abs(x - y) <= rtol * np.abs(y)
    return bool(np.all(ok))


def scribble(x, value=np.nan):
    """Overwrite everything writable in an argument or a result"""
    n = 0
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind == "f":
            x[...] = value
            n = 1
    elif isinstance(x, dict):
        n = len(x)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            n += scribble(v, value)
        del x[:]
        n += 1
    elif isinstance(x, tuple):
        for v in x:
            n += scribble(v, value)
    return n
