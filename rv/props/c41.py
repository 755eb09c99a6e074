import math
import os
import shutil
import tempfile

import numpy as np

from rv import model as M
from rv.base import Property as Base
from rv.world import World

KINDS = ("Resonance", "BreitWigner", "Gauss", "PseudoVoigt", "Voigt")


class Property(Base):
    rule = (
        "A case creates several objects, reads their documented attributes, uses the objects, and reads the attributes again after all were used. "
        "Distinct: class, attribute, decade of the value."
    )
    deciding = ["states", "resonance energy", "recoil correction", "constant", "statistical factor", "branching ratio", "strength", "distribution", "pseudo-Voigt parameters",
                "mass and temperature", "scattering parameters", "table", "table interpolation", "constituents", "constant cross section", "files", "same after use"]
    quick_cases = 2500
    thorough_cases = 30000
    assumptions = ["Attributes whose meaning the documentation leaves open (powers of widths, the width of the pseudo-Voigt profile) are not judged."]

    def setup(self, ctx):
        self.dir = tempfile.mkdtemp(prefix="rv-c41-")

    def finish(self, ctx):
        shutil.rmtree(self.dir, ignore_errors=True)

    def case(self, ctx, i):
        g, lib = ctx.g, ctx.lib
        made = [f(ctx, g, lib, i) for f in (self.resonance, self.compton, self.table, self.total, self.mass)]
        for look, use in made:
            look("first")
        for look, use in made:
            use()
        for look, use in made:
            look("after use")
        ctx.check("same after use", True, sig=i % 50)

    def resonance(self, ctx, g, lib, i):
        w = World(ctx)
        kind = g.choice(KINDS)
        p = g.level_scheme()
        init, exc = w.initial(p), w.excited(p)
        amu, T = w.doppler(p)
        final = w.final(p, g.choice(list(p["widths"])), init=init) if g.chance(0.6) else None
        dE = p["E_x"] - p["E_i"]
        rec = None
        if kind == "Resonance":
            rec = g.choice([None, lib.FreeNucleusRecoil(amu), lib.NoRecoil(), lambda e: 1.5 * e])
            o = lib.Resonance(init, exc, final) if rec is None else lib.Resonance(init, exc, final, rec)
        else:
            o = w.make(kind, init, exc, amu, T, final)
        Er = dE if rec is None else float(rec(dE))
        if type(rec).__name__ == "FreeNucleusRecoil":
            Er = M.recoil_energy(dE, amu)
        total = math.fsum(p["widths"].values())
        b = 1.0 if final is None else p["widths"][final.J_pi] / total
        L = M.Line(kind, Er, total, amu, T)
        E = L.E0 + L.w * np.array([-2.0, 0.3, 1.0])
        ctx.note(kind=kind, dE=dE, amu=amu, T=T)
        info = dict(kind=kind, dE=dE, amu=amu, T=T)

        def look(when):
            s = (kind, when)
            ctx.check("states", o.initial_state is init and o.intermediate_state is exc and o.final_state is final, sig=s, **info)
            ctx.close("resonance energy", o.resonance_energy, Er, rtol=1e-14, same_shape=False, sig=s, **info)
            r = o.recoil_correction
            if rec is not None:
                ctx.check("recoil correction", r is rec, sig=s + (type(rec).__name__,), got=repr(r), **info)
            ctx.close("recoil correction", r(dE), Er, rtol=1e-14, same_shape=False, sig=s, **info)
            ctx.close("constant", o.energy_integrated_cross_section_constant, (math.pi * M.HBARC) ** 2, rtol=1e-8, same_shape=False, sig=s, **info)
            ctx.close("statistical factor", o.statistical_factor, (p["two_J_x"] + 1.0) / (p["two_J_i"] + 1.0), rtol=1e-14, same_shape=False, sig=s, **info)
            ctx.close("branching ratio", o.final_state_branching_ratio, b, rtol=1e-12, same_shape=False, sig=s + (final is None,), **info)
            ctx.close("strength", o.energy_integrated_cross_section, M.strength(Er, p["two_J_i"], p["two_J_x"], p["widths"][p["initial"]], b), rtol=1e-8, same_shape=False, sig=s, **info)
            d, q = o.probability_distribution, o.probability_distribution_parameters
            ctx.close("distribution", d.pdf(E, *q), L.pdf(E), atol=L.pdf_tol(E, 6e-9), sig=s, **info)
            ctx.close("distribution", d.cdf(E, *q), L.cdf(E), atol=1e-8 + L.pdf(E) * 4 * np.spacing(np.abs(E)), sig=s + ("cdf",), **info)
            x = np.asarray(d.ppf(np.array([0.2, 0.5, 0.7]), *q))
            ctx.close("distribution", L.cdf(x), np.array([0.2, 0.5, 0.7]), atol=1e-5 + L.pdf(x) * 4 * np.spacing(np.abs(x)), sig=s + ("ppf",), **info)
            if kind in ("PseudoVoigt", "Voigt"):
                for name, v in (("resonance_energy", Er), ("sigma", L.s), ("gamma", L.g), ("eta", L.eta)):
                    ctx.close("pseudo-Voigt parameters", getattr(d, name), v, rtol=1e-8, same_shape=False, sig=s + (name,), name=name, **info)
                m = d.maxwell_boltzmann
                ctx.close("pseudo-Voigt parameters", np.array([m.amu, m.effective_temperature], dtype=float), np.array([amu, T], dtype=float), rtol=1e-14, sig=s + ("particles",), **info)

        def use():
            o(E)
            o(E - Er, False)
            lo, hi = Er - L.w * 0.3, Er + L.w * 2
            if 0 < lo < hi:
                o.equidistant_energy_grid((lo, hi), 5)
                o.equidistant_probability_grid((lo, hi), 5)
            2.0 * o + 1.0

        return look, use

    def compton(self, ctx, g, lib, i):
        Z = g.choice([1, g.integer(1, 100), g.num(0.1, 100)])
        m = M.ME if g.chance(0.3) else g.num(1e-2, 1e4)
        o = lib.KleinNishina(Z) if m == M.ME else lib.KleinNishina(Z, m)
        E = m * g.logu(1e-3, 1e3)

        def look(when):
            ctx.close("scattering parameters", np.array([o.Z, o.mc2, o.scale_factor], dtype=float), np.array([Z, m, Z * (M.ALPHA * M.HBARC / m) ** 2]), rtol=2e-9, sig=(when, m == M.ME), Z=Z, mc2=m)

        def use():
            o(E)
            e = o.compton_edge(E)
            o.theta(E, 0.5 * (e + E))
            o.cs_diff_dEp(E, 0.5 * (e + E))
            o.cs_diff_dOmega(E, 1.0, 2.0)
            3 * o + o

        return look, use

    def table(self, ctx, g, lib, i):
        data = World(ctx).table()
        rows = None
        fe, fx = (lambda v: 10.0 * v), (lambda v: 0.5 * v)
        form = int(g.r.integers(3))
        if form == 0:
            o = lib.XRMAC(data)
            want = np.array(data)
        else:
            vals = np.array([[float("{:.5E}".format(a)), float("{:.3E}".format(b)), float("{:.3E}".format(0.5 * b))] for a, b in data])
            path = os.path.join(self.dir, "t{}.txt".format(i))
            with open(path, "w") as f:
                f.write("".join("{:.5E}  {:.3E}  {:.3E} \n".format(*r) for r in vals))
            o = lib.XRMAC(path) if form == 1 else lib.XRMAC(path, fe, fx)
            os.remove(path)
            want = vals * (1.0 if form == 1 else np.array([10.0, 0.5, 0.5]))
        e = want[:, 0]
        E = np.exp(g.r.uniform(math.log(e[0]), math.log(e[-1]), 4))

        def look(when):
            ctx.close("table", np.asarray(o.data)[:, :2], want[:, :2], rtol=1e-14, sig=(form, when))
            if form == 2:
                ctx.check("table", o.energy_conversion is fe and o.xrmac_conversion is fx, sig=("conversions", when))
            else:
                ctx.check("table", o.energy_conversion(3.5) == 3.5 and o.xrmac_conversion(2.5) == 2.5, sig=("no conversions", when))
            lo, hi = M.loglog_array(want[:, :2], E)
            l = 10.0 ** np.asarray(o.interpolation_log_log(np.log10(E)))
            inside = (l >= np.minimum(lo, hi) * (1 - 1e-8)) & (l <= np.maximum(lo, hi) * (1 + 1e-8))
            near = np.min(np.abs(E[:, None] - e[None, :]), axis=1) < 1e-13 * E
            ctx.check("table interpolation", np.all(inside | near), sig=(form, when), got=l, low=lo, high=hi, E=E)

        def use():
            o(E)
            o.equidistant_probability_grid((e[0], e[-1]), 5)
            0.5 * o + 2.0

        return look, use

    def total(self, ctx, g, lib, i):
        w = World(ctx)
        n = g.integer(1, 4)
        parts = [w.cross_section() for _ in range(n)]
        fs = [g.choice([g.num(1e-3, 1e3), float(g.integer(1, 9)), 1.0]) for _ in parts]
        how = int(g.r.integers(3))
        if how == 0:
            s = lib.CrossSectionWeightedSum(list(parts), list(fs))
        else:
            s = fs[0] * parts[0]
            for f, c in zip(fs[1:], parts[1:]):
                s = s + f * c if how == 1 else f * c + s
        c = g.scalar_type(g.num(1e-3, 1e3))
        o = lib.ConstantCrossSection(c)
        E = np.array([0.3, 1.0, 4.0])

        def look(when):
            ctx.check("constituents", len(s.reactions) == n and len(s.scale_factors) == n and sorted(map(id, s.reactions)) == sorted(map(id, parts)), sig=(n, how, when), got=len(s.reactions), expected=n)
            have = sorted((id(r), float(f)) for r, f in zip(s.reactions, s.scale_factors))
            want = sorted((id(r), float(f)) for r, f in zip(parts, fs))
            ctx.check("constituents", len(have) == len(want) and all(a[0] == b[0] and abs(a[1] - b[1]) <= 1e-14 * b[1] for a, b in zip(have, want)), sig=(n, how, when, "factors"))
            ctx.check("constant cross section", o.constant == c, sig=(type(c).__name__, when), got=o.constant)

        def use():
            s(E)
            o(E)
            s + o
            o + s
            2.0 * s
            s.equidistant_energy_grid((0.5, 2.0), 4)

        return look, use

    def mass(self, ctx, g, lib, i):
        amu, T = g.amu(), g.temperature()
        m, r = lib.MaxwellBoltzmann(amu, T), lib.FreeNucleusRecoil(amu)
        path = os.path.join(self.dir, "f{}.txt".format(i))
        with open(path, "w") as f:
            f.write("Xx 1.5\n")
        k = lambda v: 2.0 * v
        a, b = lib.NISTElementDataReader(path), lib.Geant4DensityDataReader(path, k)

        def look(when):
            ctx.check("mass and temperature", m.amu == amu and m.effective_temperature == T and r.amu == amu, sig=(when,), got=(m.amu, m.effective_temperature, r.amu), expected=(amu, T))
            ctx.check("files", str(a.element_data_file_name) == path and str(b.density_data_file_name) == path and b.density_conversion is k, sig=(when,))
            if when == "after use":
                os.remove(path)

        def use():
            m.get_doppler_width(2.0)
            m.get_effective_temperature(1e-6, 10.0, 1.0)
            r(3.0)
            a.read_nist_element_data(3)
            b.read_density_data("Xx")

        return look, use
