import math

import numpy as np

from rv import model as M
from rv.base import Property as Base
from rv.monitors import bucket
from rv.world import World


class Property(Base):
    rule = (
        "A case is one ensemble (mass, temperature) with generated energies, and one Doppler-broadened line of each model. "
        "Every width computed anywhere (also inside of the line shapes) is compared by a probe. "
        "Distinct: decade of mass, temperature and energy, form of the arguments, model."
    )
    deciding = ["width", "inverse", "width of the normal component"]
    quick_cases = 4000
    thorough_cases = 50000

    def setup(self, ctx):
        def on_width(ev):
            o = ev.obj
            if ev.error is not None:
                return
            E = np.asarray(ev.arg(0, None, "E"), float)
            want = E * np.sqrt(2 * M.KB_EV * 1e-6 * np.asarray(o.effective_temperature, float) / (np.asarray(o.amu, float) * M.U_MEV))
            ctx.close("width", ev.result, want, rtol=1e-9, sig=("probe", np.ndim(E), bucket(float(np.ravel(o.amu)[0]))), amu=o.amu, T=o.effective_temperature, E=E)

        ctx.bus.on("get_doppler_width", on_width)

    def case(self, ctx, i):
        g, lib = ctx.g, ctx.lib
        w = World(ctx)
        amu, T, E = g.choice([g.num(0.1, 400), g.num(0.1, 400), g.num(1e-4, 1e4)]), g.choice([g.num(1e-3, 1e8), g.num(1, 1000), 0.0, float(g.integer(1, 3000))]), g.num(1e-6, 1e4)
        if g.chance(0.15):
            amu = float(g.choice([lib.natural_elements[s] for s in ("H", "Pb", "U", "Fe")]).amu)
        ctx.note(amu=amu, T=T, E=E)
        info = dict(amu=amu, T=T, E=E)
        sig = (bucket(amu), bucket(T), bucket(E))
        a, t = g.scalar_type(amu), g.scalar_type(T)
        mb = lib.MaxwellBoltzmann(a, t) if g.chance(0.5) else lib.MaxwellBoltzmann(amu=a, effective_temperature=t)
        want = E * math.sqrt(2 * M.KB_EV * 1e-6 * T / (amu * M.U_MEV))
        d = mb.get_doppler_width(g.scalar_type(E))
        ctx.close("width", d, want, rtol=1e-9, sig=sig, same_shape=False, **info)
        f = lib.MaxwellBoltzmann.get_effective_temperature
        ctx.close("inverse", f(d, amu, E), T, rtol=1e-12, sig=sig, same_shape=False, **info)
        ctx.close("inverse", mb.get_effective_temperature(doppler_width=float(d), E=E, amu=amu), T, rtol=1e-12, sig=sig, same_shape=False, **info)
        if d > 0 and T > 0:
            dd = g.logu(1e-6, 1) * E
            back = lib.MaxwellBoltzmann(amu, f(dd, amu, E)).get_doppler_width(E)
            ctx.close("inverse", back, dd, rtol=1e-12, sig=sig + ("width",), same_shape=False, **info)
        n = g.choice([1, 3, 7])
        EE = g.layout(E * (1 + np.arange(n) / 3.0))
        DD = mb.get_doppler_width(EE)
        ctx.close("width", DD, np.asarray(EE) * want / E, rtol=1e-9, sig=sig + ("array",), **info)
        ctx.close("inverse", f(DD, amu, EE), np.full(n, T), rtol=1e-12, sig=sig + ("array",), **info)
        for fa, ft in ((2.0, 1.0), (1.0, 4.0), (g.u(0.5, 3), g.u(0.5, 3))):
            am, TT = fa * amu, ft * T
            br = lib.MaxwellBoltzmann(am, TT).get_doppler_width(E)
            ctx.close("width", br, want * np.sqrt(ft / fa), rtol=1e-9, atol=1e-300, sig=sig + ("scaled",), same_shape=False, **info)
            ctx.close("inverse", f(br, am, E), TT, rtol=1e-12, sig=sig + ("scaled",), same_shape=False, **info)
        # Every width with every energy
        dd, ee = np.asarray(DD, dtype=float)[:, None], np.asarray(EE, dtype=float)
        ctx.close("inverse", f(dd, amu, ee), T * (dd / (want / E * ee)) ** 2 if want > 0 else np.zeros((n, n)), rtol=1e-9, sig=sig + ("broadcast",), **info)

        if g.chance(0.2):
            ctx.later("width", lambda: (mb.get_doppler_width(E), f(d, amu, E)), **info)

        # Lines: the observed profile of the normal component
        kind = ("Gauss", "PseudoVoigt", "Voigt")[i % 3]
        r, sh = w.resonance(kind, E_lo=1e-3, E_hi=1e3, rel_lo=1e-11, rel_hi=0.1)
        L = sh.line
        E0 = float(r.resonance_energy)
        dw = float(lib.MaxwellBoltzmann(sh.amu, sh.T).get_doppler_width(E0))
        sig = (kind, bucket(dw / E0), bucket(dw / sh.exc.width))
        info = dict(kind=kind, E_r=E0, amu=sh.amu, T=sh.T, width=sh.exc.width)
        x = np.array([0.3, 0.7, 1.0, 1.5, 2.0]) * (dw if kind == "Gauss" else L.w)
        # Energies as represented
        off = (E0 + x) - E0
        v = np.asarray(r(E0 + x), dtype=float)
        peak = float(r(E0))
        tol = lambda q: 1e-8 + 20 * np.spacing(2 * E0) * 2 * np.abs(off) / q ** 2
        if peak <= 0 or not np.isfinite(peak):
            return
        if kind == "Gauss":
            if dw / E0 < 1e-11:
                return
            got = np.log(peak / v)
            ctx.close("width of the normal component", got, off * off / dw ** 2, rtol=1e-8, atol=1e-8 + 40 * np.spacing(2 * E0) * np.abs(off) / dw ** 2, sig=sig, **info)
        else:
            other = M.Line(kind, E0, sh.exc.width, sh.amu, sh.T)
            if kind == "Voigt":
                ref = M.voigt_pdf(off, dw / math.sqrt(2), 0.5 * sh.exc.width) / M.voigt_pdf(0.0, dw / math.sqrt(2), 0.5 * sh.exc.width)
            else:
                ref = other.pdf_d(off) / other.pdf_d(0.0)
            t = other.pdf_tol(E0 + x, 1e-8) / other.pdf_d(0.0)
            ctx.close("width of the normal component", v / peak, ref, atol=2 * t + 1e-8, sig=sig, **info)
