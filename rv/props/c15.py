import math

import numpy as np

from rv import model as M
from rv.base import Property as Base
from rv.monitors import bucket

GL = np.polynomial.legendre.leggauss(32)
PHI = 2 * math.pi * (np.arange(12) + 0.37) / 12


def panels(cuts):
    cuts = np.asarray(cuts)
    h, m = 0.5 * np.diff(cuts), 0.5 * (cuts[1:] + cuts[:-1])
    return (m[:, None] + h[:, None] * GL[0]).ravel(), (h[:, None] * GL[1]).ravel()


class Property(Base):
    rule = (
        "A case is one scattering cross section at one energy: pointwise comparison at generated angles and scattered "
        "energies (ends included), azimuthal averages, Jacobians, integrals over each variable. "
        "Distinct: decade of E/mc2, decade of the mass, class of Z, scalar or array."
    )
    deciding = ["polarised, per solid angle", "unpolarised, per solid angle", "azimuthal average", "per scattered energy and azimuth",
                "per scattered energy", "per polar angle", "integral over the polar angle", "integral over the scattered energy",
                "integral over the sphere", "nonnegative"]
    quick_cases = 2500
    thorough_cases = 30000
    assumptions = ["E/mc2 from 1e-5 to 1e5; below, the angle is not determined by the scattered energy in double precision."]

    def case(self, ctx, i):
        g = ctx.g
        Z = g.choice([1, g.integer(1, 100), g.num(0.1, 100.0)])
        m = M.ME if g.chance(0.4) else g.choice([g.num(1e-2, 1e4), 105.6583755, 938.27208816])
        kn = ctx.lib.KleinNishina(Z, m) if m != M.ME else ctx.lib.KleinNishina(Z) if Z != 1 else ctx.lib.KleinNishina()
        x = g.choice([g.logu(1e-5, 1e5), g.logu(1e-2, 1e2), g.num(1e-3, 1e3)])
        E = x * m
        if g.chance(0.2):
            E = min(1e5 * m, max(1e-5 * m, g.num(1e-3, 1e3)))
            x = E / m
        ctx.note(Z=Z, mc2=m, E=E)
        sig = (bucket(x), bucket(m), bucket(float(Z)))
        info = dict(Z=Z, mc2=m, E=E)
        Zf = float(Z)
        scale = Zf * (M.ALPHA * M.HBARC / m) ** 2
        n = g.choice([1, 3, 10, g.sizes(200)])
        th = np.array([g.choice([0.0, math.pi, math.pi / 2, math.pi / 4, g.u(0, math.pi), g.u(0, math.pi), g.logu(1e-6, 1), g.num(1e-3, math.pi)]) for _ in range(n)])
        ph = np.array([g.choice([0.0, math.pi / 2, math.pi, g.u(-math.pi, 2 * math.pi), g.u(0, 2 * math.pi), g.u(-13, 13)]) for _ in range(n)])
        r = M.kn_ratio(E, th, m)
        rel = 1e-9 + 4e-15 * x * r
        floor = scale * r * r * 2e-15 * (1 + x * r)
        form = int(g.r.integers(4))
        a_th, a_ph, a_E = (g.layout(th), g.layout(ph), float(E))
        if form == 1:
            a_E = np.full(n, E)
        elif form == 2:
            a_th, a_ph = float(th[0]), float(ph[0])
        elif form == 3 and E == int(E):
            a_E = int(E)
        T, P = np.asarray(a_th), np.asarray(a_ph)
        R = M.kn_ratio(E, T, m)
        rl, fl = 1e-9 + 4e-15 * x * R, scale * R * R * 2e-15 * (1 + x * R)
        ref = M.kn_domega(E, T, P, Zf, m)
        v1 = kn.cs_diff_dOmega(a_E, a_th, a_ph)
        sg = sig + (form,)
        ctx.close("polarised, per solid angle", v1, ref, atol=rl * ref + fl, sig=sg, same_shape=form != 1 or n > 1, theta=T, phi=P, **info)
        ref = M.kn_domega_unpolarized(E, T, Zf, m)
        v2 = kn.cs_diff_dOmega_unpolarized(a_E, a_th)
        ctx.close("unpolarised, per solid angle", v2, ref, atol=rl * ref, sig=sg, theta=T, **info)
        v3 = kn.cs_diff_dtheta(a_E, a_th)
        sn = np.sin(T)
        ctx.close("per polar angle", v3, 2 * math.pi * sn * ref, atol=2 * math.pi * (rl * ref * sn + 1e-15 * ref), sig=sg, theta=T, **info)
        ctx.check("nonnegative", np.all(np.asarray(v1) >= -fl) and np.all(np.asarray(v2) >= 0) and np.all(np.asarray(v3) >= 0), sig=sg, theta=T, phi=P, **info)
        # Azimuthal average of the observed polarised cross section
        t0 = float(th[0])
        avg = np.mean(np.asarray(kn.cs_diff_dOmega(E, t0, PHI)))
        ctx.close("azimuthal average", avg, kn.cs_diff_dOmega_unpolarized(E, t0), rtol=1e-11 + 1e-15 * x, atol=float(floor[0]), sig=sig, same_shape=False, theta=t0, **info)

        # Scattered energies, ends included
        edge = float(kn.compton_edge(E))
        c = np.array([g.choice([-1.0, 1.0, 0.0, g.u(-1, 1), g.u(-1, 1)]) for _ in range(n)])
        Ep = E / (1 + x * (1 - c))
        Ep = np.where(c == -1.0, edge, np.where(c == 1.0, E, Ep))
        cc = np.clip(M.kn_cos_theta(E, Ep, m), -1, 1)
        rr = Ep / E
        dc = 4e-16 * (1 / x + 1) / rr + 1e-15
        err = 0.5 * scale * rr ** 2 * m / Ep ** 2 * 8 * dc
        for phi in (None, g.choice([g.u(0, 2 * math.pi), g.u(-13, 13)])):
            ref = M.kn_dEp_at_cos(E, cc, Ep, Zf, m, phi)
            t = 1e-8 * ref + 2 * math.pi * err
            if phi is None:
                got = kn.cs_diff_dEp(E, g.layout(Ep))
                s = float(kn.cs_diff_dEp(E, float(Ep[0])))
                name = "per scattered energy"
            else:
                got = kn.cs_diff_dEp_dphi(E, g.layout(Ep), phi)
                s = float(kn.cs_diff_dEp_dphi(E, float(Ep[0]), phi))
                name = "per scattered energy and azimuth"
            ctx.close(name, got, ref, atol=t, sig=sig, Ep=Ep, phi=phi, **info)
            ctx.close(name, s, ref[0], atol=t[0], sig=sig, Ep=Ep[0], phi=phi, **info)
            ctx.check("nonnegative", np.all(np.asarray(got) >= -t) and s >= -t[0], sig=sig, Ep=Ep, phi=phi, **info)
        # All arguments as arrays, and photon energies as integers
        a_E = np.full(n, E)
        ref = M.kn_dEp_at_cos(E, cc, Ep, Zf, m, None)
        ctx.close("per scattered energy", kn.cs_diff_dEp(a_E, Ep), ref, atol=1e-8 * ref + 2 * math.pi * err, sig=sig + ("arrays",), Ep=Ep, **info)
        ref = np.array([M.kn_dEp_at_cos(E, cc, Ep, Zf, m, p)[k] for k, p in enumerate(ph[:10])])
        ctx.close("per scattered energy and azimuth", kn.cs_diff_dEp_dphi(a_E[:10], Ep[:10], ph[:10]), ref, atol=1e-8 * ref + 2 * math.pi * err[:10], sig=sig + ("arrays",), Ep=Ep, phi=ph, **info)
        e1 = int(E)
        if e1 == E and e1 >= 1 and float(kn.compton_edge(e1)) < e1 - 1:
            e2 = max(1, math.ceil(float(kn.compton_edge(e1))))
            for typ in (int, np.int64):
                a, b = float(kn.cs_diff_dEp(float(e1), float(e2))), float(kn.cs_diff_dEp(typ(e1), typ(e2)))
                ctx.close("per scattered energy", b, a, rtol=1e-12, sig=sig + (typ.__name__,), same_shape=False, Ep=e2, **info)
        if g.chance(0.2):
            ctx.later("unpolarised, per solid angle", lambda: (kn.cs_diff_dOmega(E, th, ph), kn.cs_diff_dOmega_unpolarized(E, th), kn.cs_diff_dtheta(E, th), kn.cs_diff_dEp(E, Ep)), **info)
        if i % 3:
            return
        tot = float(kn(E))
        # Integral over the polar angle; forward peak of width 1/sqrt(x)
        w = min(math.pi, 1 / math.sqrt(x))
        cuts = sorted({0.0, math.pi, math.pi / 2} | {min(math.pi, w * f) for f in (0.5, 1, 2, 4, 8, 16, 32, 64, 128)})
        t, wt = panels(cuts)
        v = float(np.sum(wt * np.asarray(kn.cs_diff_dtheta(E, t))))
        ctx.close("integral over the polar angle", v, tot, rtol=3e-8, sig=sig, **info)
        v = float(np.sum(wt * np.sin(t) * 2 * math.pi * np.asarray(kn.cs_diff_dOmega_unpolarized(E, t))))
        ctx.close("integral over the sphere", v, tot, rtol=3e-8, sig=sig, **info)
        tt = np.repeat(t, len(PHI))
        pp = np.tile(PHI, len(t))
        v = np.asarray(kn.cs_diff_dOmega(E, tt, pp)).reshape(len(t), len(PHI)).mean(axis=1)
        ctx.close("integral over the sphere", float(np.sum(wt * np.sin(t) * 2 * math.pi * v)), tot, rtol=3e-8, sig=sig, **info)
        cuts = np.linspace(edge, E, 4) if x < 0.1 else edge * (E / edge) ** np.linspace(0, 1, 24)
        cuts[0], cuts[-1] = edge, E
        e, we = panels(cuts)
        v = float(np.sum(we * np.asarray(kn.cs_diff_dEp(E, e))))
        ctx.close("integral over the scattered energy", v, tot, rtol=1e-6 + 4e-15 / x, sig=sig, **info)
        ee, pp = np.repeat(e, len(PHI)), np.tile(PHI, len(e))
        v = np.asarray(kn.cs_diff_dEp_dphi(E, ee, pp)).reshape(len(e), len(PHI)).mean(axis=1) * 2 * math.pi
        ctx.close("integral over the scattered energy", float(np.sum(we * v)), tot, rtol=1e-6 + 4e-15 / x, sig=sig, **info)
