import math

import numpy as np

from rv import model as M
from rv.base import Property as Base
from rv.monitors import bucket
from rv.world import World


class Property(Base):
    rule = (
        "A case is one level scheme whose broadened lines are observed at generated ratios of Doppler to natural width (1e-8 to 1e8) together with "
        "the natural and the thermal line of the same scheme. Distinct: model, decade of the ratio, decade of the relative width."
    )
    deciding = ["natural limit", "thermal limit", "same strength and centre", "peak falls with temperature", "peak below both limits", "wings of the natural line"]
    quick_cases = 3000
    thorough_cases = 40000

    def case(self, ctx, i):
        g, lib = ctx.g, ctx.lib
        w = World(ctx)
        p = g.level_scheme(E_lo=1e-2, E_hi=1e2, rel_lo=1e-9, rel_hi=1e-2)
        dE, G = p["E_x"] - p["E_i"], sum(p["widths"].values())
        ratio = g.choice([g.logu(1e-8, 1e8), g.logu(1e-8, 1e-2), g.logu(1e2, 1e8), g.logu(0.01, 100)])
        if ratio * G / dE > 0.05:
            # A Doppler width comparable to the energy is not physical; make the line narrower instead.
            f = 0.05 * dE / (ratio * G) * g.logu(1e-3, 1)
            p["widths"] = {k: v * f for k, v in p["widths"].items()}
            G = sum(p["widths"].values())
            if G / dE < 1e-12:
                ratio = min(ratio, 1e4)
                p["widths"] = {k: v * dE * 1e-10 / G for k, v in p["widths"].items()}
                G = sum(p["widths"].values())
        if g.chance(0.2):
            # Through the mass instead of the temperature
            T = g.temperature(1, 1e4)
            amu = 2 * M.KB_EV * 1e-6 * T / M.U_MEV / (ratio * G / dE) ** 2
        else:
            amu, T = w.doppler(p, ratio=ratio)
        ratio = float(M.doppler_width(dE, amu, T)) / G
        D = ratio * G
        if p["widths"][p["initial"]] == 0:
            return
        final = w.final(p, g.choice(list(p["widths"]))) if g.chance(0.2) else None
        if final is not None and p["widths"][final.J_pi] == 0:
            final = None
        i0, ex = w.initial(p), w.excited(p)
        bw, ga = w.make("BreitWigner", i0, ex, amu, T, final), w.make("Gauss", i0, ex, amu, T, final)
        E0 = float(bw.resonance_energy)
        pk_bw, pk_ga = float(bw(E0)), float(ga(E0))
        ctx.note(E_r=E0, width=G, doppler=D, ratio=ratio, amu=amu, T=T)
        wd = 0.5 * G + D
        d = wd * np.concatenate([[0.0], g.r.normal(0, 1, 4), g.r.uniform(-4, 4, 4)])
        E = E0 + d
        for kind in ("Voigt", "PseudoVoigt"):
            r = w.make(kind, i0, ex, amu, T, final)
            sh = ctx.reg.get(r)
            L = sh.line
            I = sh.I
            sig = (kind, bucket(ratio), bucket(G / dE))
            info = dict(kind=kind, E_r=E0, width=G, doppler=D)
            ctx.check("same strength and centre", r.resonance_energy == E0 and r.energy_integrated_cross_section == bw.energy_integrated_cross_section == ga.energy_integrated_cross_section, sig=sig, **info)
            v = np.asarray(r(E), dtype=float)
            res = I * L.pdf_tol(E, 1e-8)
            res = res + 40 * I * np.abs(L.pdf_d(0.0)) * np.spacing(2 * E0) / L.w
            vm = np.asarray(r(E0 - d), dtype=float)
            ctx.close("same strength and centre", vm, v, atol=4 * res, sig=sig + ("symmetric",), **info)
            peak = float(r(E0))
            ctx.check("same strength and centre", np.all(v <= peak * (1 + 1e-9)), sig=sig + ("maximum",), peak=peak, values=v, **info)
            if ratio < 0.05:
                c = 4 * ratio ** 2 if kind == "Voigt" else 2 * ratio
                ctx.close("natural limit", v, np.asarray(bw(E)), atol=c * pk_bw + 8 * res, sig=sig, **info)
            if ratio > 20:
                c = (2 if kind == "Voigt" else 3) / ratio
                ctx.close("thermal limit", v, np.asarray(ga(E)), atol=c * pk_ga + 8 * res, sig=sig, **info)
            slack = 1 + (1e-8 if kind == "Voigt" else 0.013)
            ctx.check("peak below both limits", peak <= slack * min(pk_bw, pk_ga), sig=sig, peak=peak, natural=pk_bw, thermal=pk_ga, **info)
            hot = w.make(kind, i0, ex, amu, T * (1 + g.logu(1e-2, 10)), final)
            light = w.make(kind, i0, ex, amu / (1 + g.logu(1e-2, 10)), T, final)
            ctx.check("peak falls with temperature", float(hot(E0)) <= peak * (1 + 1e-9), sig=sig, peak=peak, hot=float(hot(E0)), **info)
            ctx.check("peak falls with temperature", float(light(E0)) <= peak * (1 + 1e-9), sig=sig + ("mass",), peak=peak, light=float(light(E0)), **info)
            if kind == "Voigt":
                x = (D + 0.5 * G) * np.array([g.logu(30, 1e6) for _ in range(4)]) * np.array([1, -1, 1, -1])
                x = x[np.abs(x) < 1e3 * E0]
                if len(x):
                    x = (E0 + x) - E0
                    nat = np.asarray(bw(E0 + x), dtype=float)
                    tol = nat * (4 * (D / x) ** 2 + 1e-7 + 16 * np.spacing(np.abs(E0 + x) + E0) / np.abs(x))
                    ctx.close("wings of the natural line", np.asarray(r(E0 + x)), nat, atol=tol, sig=sig, **info)
