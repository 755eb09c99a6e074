import numpy as np

from rv import model as M
from rv.base import Property as Base
from rv.monitors import bucket, strength_monitor
from rv.world import World

LD = np.longdouble


class Property(Base):
    rule = (
        "A case is one mass with several excitation energies, and one resonance created with and without recoil "
        "correction. Distinct: decade of mass and energy, kind of the argument."
    )
    deciding = ["four-momentum conservation", "positive and decreasing", "vanishes for heavy nuclei", "without correction",
                "recoil in resonance: resonance energy", "recoil in resonance: energy-integrated cross section", "centred at the corrected energy"]
    quick_cases = 4000
    thorough_cases = 50000

    def setup(self, ctx):
        strength_monitor(ctx, "recoil in resonance")

    def case(self, ctx, i):
        g, lib = ctx.g, ctx.lib
        w = World(ctx)
        amu = g.choice([g.num(0.5, 1e9), g.num(1, 300), g.num(0.5, 10)])
        e = g.choice([g.num(1e-6, 1e3), g.num(0.1, 30)])
        ctx.note(amu=amu, e=e)
        sig = (bucket(amu), bucket(e))
        rec = lib.FreeNucleusRecoil(g.scalar_type(amu))
        if g.chance(0.2):
            ctx.later("four-momentum conservation", lambda: rec(e), amu=amu, e=e)
        for arg in (e, g.scalar_type(e), g.num(1e-6, 1e3), g.logu(1e-6, 1e-2)):
            got = rec(arg)
            x = np.asarray(arg, dtype=float)
            form = type(arg).__name__
            ctx.close("four-momentum conservation", got, M.recoil_energy(x, amu), rtol=1e-14, sig=sig + (form,), amu=amu, e=x)
            # s of photon and nucleus against the rest energy of the excited nucleus
            Er, m, ex = np.asarray(got, dtype=LD), LD(amu) * LD(M.U_MEV), x.astype(LD)
            s = 2 * m * Er
            ctx.close("four-momentum conservation", np.asarray(s - (2 * m * ex + ex * ex), float), np.zeros(x.shape), atol=np.asarray(2 * m * ex * 1e-15 + ex * ex * 1e-9, float), sig=sig + (form, "s"), amu=amu, e=x)
        R = float(rec(e)) - e
        ctx.check("positive and decreasing", R >= 0 and (R > 0 or e / (2 * amu * M.U_MEV) < 2e-16), sig=sig, R=R, amu=amu, e=e)
        heavier = lib.FreeNucleusRecoil(amu * g.u(1.1, 100))
        R2 = float(heavier(e)) - e
        ctx.check("positive and decreasing", R2 <= R + 4e-16 * e and (R2 < R or e / (2 * amu * M.U_MEV) < 1e-14), sig=sig, R=R, heavier=R2)
        big = float(lib.FreeNucleusRecoil(1e30)(e))
        ctx.check("vanishes for heavy nuclei", big == e and float(lib.FreeNucleusRecoil(float("inf"))(e)) == e, sig=sig, got=big, e=e)
        no = lib.NoRecoil()
        ctx.check("without correction", no(e) == e and no(g.scalar_type(e)) == e, sig=sig, e=e)
        # Resonance
        p = g.level_scheme(E_lo=2.0 if i % 2 else 0.6, E_hi=1e3)
        init, exc = w.initial(p), w.excited(p)
        amu = g.choice([g.num(1, 300), g.num(0.5, 1e6)])
        final = w.final(p, g.choice(list(p["widths"]))) if g.chance(0.3) else None
        r = lib.Resonance(init, exc, final, lib.FreeNucleusRecoil(amu)) if g.chance(0.5) else lib.Resonance(
            initial_state=init, intermediate_state=exc, final_state=final, recoil_correction=lib.FreeNucleusRecoil(amu))
        plain = lib.Resonance(init, exc, final) if g.chance(0.5) else lib.Resonance(init, exc, final, lib.NoRecoil())
        dE = p["E_x"] - p["E_i"]
        Er = M.recoil_energy(dE, amu)
        rel = 4 * np.spacing(p["E_x"]) / dE + 1e-13
        sig = (bucket(amu), bucket(dE), final is not None)
        ctx.close("centred at the corrected energy", r.resonance_energy, Er, rtol=rel, sig=sig, amu=amu, dE=dE)
        ctx.check("without correction", plain.resonance_energy == dE, sig=sig, got=plain.resonance_energy, dE=dE)
        I, I0 = r.energy_integrated_cross_section, plain.energy_integrated_cross_section
        ctx.close("centred at the corrected energy", I, I0 * (dE / Er) ** 2, rtol=1e-12 + 2 * rel, sig=sig + ("strength",), amu=amu, dE=dE)
        # The box profile of the general class: inside and outside, distances from the corrected energy
        d = np.array([-0.6, -0.45, 0.0, 0.45, 0.6])
        want = np.where(np.abs(d) < 0.5, I, 0.0)
        ctx.close("centred at the corrected energy", r(Er + d), want, rtol=1e-12, sig=sig + ("profile",), amu=amu, dE=dE)
        ctx.close("centred at the corrected energy", r(d, False), want, rtol=1e-12, sig=sig + ("relative",), amu=amu, dE=dE)
