import math

import numpy as np

from rv import model as M
from rv.base import Property as Base
from rv.monitors import bucket


class Property(Base):
    rule = (
        "A case is one particle mass and one photon energy with generated angles and scattered energies inside, at the "
        "ends of, and outside of the kinematic range. Distinct: decade of E/mc2, decade of the mass, class of the angle, scalar or array."
    )
    deciding = ["conservation", "forward direction", "decreases with the angle", "Compton edge", "angle inverts the ratio", "finite in the closed range", "outside is not a number"]
    quick_cases = 5000
    thorough_cases = 60000
    assumptions = ["E/mc2 from 1e-5 to 1e5 for angles from scattered energies, from 1e-9 to 1e9 otherwise."]

    def case(self, ctx, i):
        g = ctx.g
        m = M.ME if g.chance(0.3) else g.choice([g.num(1e-2, 1e5), 105.6583755, 938.27208816])
        Z = g.choice([1, g.integer(1, 100)])
        kn = ctx.lib.KleinNishina(Z, m) if m != M.ME else ctx.lib.KleinNishina(Z) if Z != 1 else ctx.lib.KleinNishina()
        x = g.choice([g.logu(1e-9, 1e9), g.logu(1e-5, 1e5), g.num(1e-3, 1e3)])
        E = x * m
        ctx.note(mc2=m, E=E)
        info = dict(mc2=m, E=E)
        n = g.choice([1, 3, 10, g.sizes(200)])
        th = np.array([g.choice([0.0, math.pi, math.pi / 2, g.u(0, math.pi), g.logu(1e-5, 3), g.num(1e-3, math.pi)]) for _ in range(n)])
        sig = (bucket(x), bucket(m))
        r = np.asarray(kn.Ep_over_E(E, g.layout(th)), dtype=float)
        s = float(kn.Ep_over_E(E, float(th[0])))
        ref = M.kn_ratio(E, th, m)
        tol = 1e-14 + 4e-16 * x * ref
        ctx.close("conservation", r, ref, atol=tol * ref, sig=sig, theta=th, **info)
        ctx.close("conservation", s, ref[0], atol=tol[0] * ref[0], sig=sig + ("scalar",), theta=th[0], **info)
        # Energy and momentum of the recoiling particle from the observed ratio, in extended precision
        L = np.longdouble
        for t, q in list(zip(th, r))[:3]:
            e0, e1, mm = L(E), L(E) * L(q), L(m)
            cm = 2 * np.sin(L(t) / 2) ** 2
            T = e0 - e1
            p2 = (e0 - e1) ** 2 + 2 * e0 * e1 * cm
            res = T * T + 2 * T * mm - p2
            ctx.check("conservation", abs(res) <= 1e-12 * (T * T + 2 * mm * e0) + L(1e-14) * e0 * e1 + p2 * L(1e-13), sig=sig, theta=t, residual=float(res), **info)
        if g.chance(0.2):
            ctx.later("conservation", lambda: (kn.Ep_over_E(E, th), kn.compton_edge(E)), **info)
        f = float(kn.Ep_over_E(E, 0.0))
        ctx.check("forward direction", f == 1.0, sig=sig, got=f, **info)
        o = np.unique(np.concatenate([th, np.linspace(0, math.pi, 9)]))
        v = np.asarray(kn.Ep_over_E(E, o), dtype=float)
        ctx.check("decreases with the angle", np.all(np.diff(v) <= 1e-15) and np.all(v <= 1) and np.all(v > 0), sig=sig, theta=o, values=v, **info)
        if x > 1e-6:
            w = np.linspace(0, math.pi, 9)
            ctx.check("decreases with the angle", np.all(np.diff(np.asarray(kn.Ep_over_E(E, w))) < 0), sig=sig, **info)
        edge = kn.compton_edge(g.scalar_type(E))
        ctx.close("Compton edge", edge, E / (1 + 2 * x), rtol=1e-13, sig=sig, same_shape=False, **info)
        ctx.close("Compton edge", edge, float(kn.Ep_over_E(E, math.pi)) * E, rtol=1e-13, sig=sig, same_shape=False, **info)
        EE = E * np.array([0.5, 1.0, 2.0])
        ctx.close("Compton edge", kn.compton_edge(EE), EE / (1 + 2 * EE / m), rtol=1e-13, sig=sig + ("array",), **info)
        # Integral energies, as integers of different types
        e1 = g.integer(1, 60)
        e2 = g.integer(math.ceil(e1 / (1 + 2 * e1 / m)), e1)
        typ = g.choice([int, np.int64, lambda v: np.array([v]), np.array])
        want = M.kn_cos_theta(float(e1), float(e2), m)
        if abs(want) <= 1:
            dc = 1e-15 * (m / e1 + 1) * e1 / e2 + 1e-14
            ctx.close("angle inverts the ratio", np.cos(np.ravel(kn.theta(typ(e1), typ(e2)))), np.array([want]), atol=4 * dc, sig=("integers",), mc2=m, E=e1, Ep=e2)
        ctx.close("conservation", np.ravel(kn.Ep_over_E(typ(e1), typ(1))), M.kn_ratio(float(e1), np.array([1.0]), m), rtol=1e-13, sig=("integers",), mc2=m, E=e1)
        if not 1e-5 <= x <= 1e5:
            return
        edge = float(edge)
        c = np.array([g.choice([-1.0, 1.0, 0.0, g.u(-1, 1), g.u(-1, 1), -1 + g.logu(1e-8, 1), 1 - g.logu(1e-8, 1)]) for _ in range(n)])
        Ep = np.where(c == -1, edge, np.where(c == 1, E, E / (1 + x * (1 - c))))
        Ep = np.clip(Ep, edge, E)
        t = np.asarray(kn.theta(E, g.layout(Ep)), dtype=float)
        ts = float(kn.theta(E, g.choice([float, np.float64])(Ep[0])))
        ok = ctx.check("finite in the closed range", np.all(np.isfinite(t)) and np.isfinite(ts) and np.all(t >= 0) and np.all(t <= math.pi), sig=sig, Ep=Ep, got=t, scalar=ts, **info)
        cc = M.kn_cos_theta(E, Ep, m)
        dc = 1e-15 * (1 / x + 1) * E / Ep + 1e-14
        # Only rounding-sized excess beyond backward scattering is tolerated, see the assumptions.
        ta = np.asarray(kn.theta(np.full(n, E), Ep), dtype=float)
        ctx.check("finite in the closed range", np.array_equal(ta, t) or np.all(np.abs(ta - t) <= 1e-6), sig=sig + ("arrays",), Ep=Ep, got=ta, scalar_energy=t, **info)
        if ok:
            ctx.close("angle inverts the ratio", np.cos(t), cc, atol=4 * dc, sig=sig, Ep=Ep, **info)
            ctx.close("angle inverts the ratio", math.cos(ts), cc[0], atol=4 * dc[0], sig=sig + ("scalar",), Ep=Ep[0], **info)
            back = np.asarray(kn.Ep_over_E(E, t), dtype=float) * E
            ctx.close("angle inverts the ratio", back, Ep, atol=4 * dc * x * Ep * Ep / E + 1e-13 * Ep, sig=sig, **info)
        ctx.check("finite in the closed range", float(kn.theta(E, E)) == 0.0, sig=sig, got=float(kn.theta(E, E)), **info)
        ctx.close("finite in the closed range", float(kn.theta(E, edge)), math.pi, atol=1e-7 + 2 * math.sqrt(dc.max()) + math.sqrt(1e-15 * (1 / x + 1) * (1 + 2 * x)), sig=sig, **info)
        # Outside of the range by more than rounding
        d = g.logu(1e-6, 1)
        out = np.array([E / (1 + x * (2 + d)), E / (1 - min(0.9 / x, d) * x) if min(0.9 / x, d) * x < 0.95 else E * 2])
        if np.all(np.abs(M.kn_cos_theta(E, out, m)) > 1 + 1e-7):
            tn = np.asarray(kn.theta(E, out), dtype=float)
            ctx.check("outside is not a number", np.all(np.isnan(tn)), sig=sig, Ep=out, got=tn, **info)
            ctx.check("outside is not a number", np.isnan(float(kn.theta(E, float(out[0])))), sig=sig, Ep=out[0], **info)
            mixed = np.array([E, out[0], edge, out[1]])
            tm = np.asarray(kn.theta(E, mixed), dtype=float)
            ctx.check("outside is not a number", list(np.isnan(tm)) == [False, True, False, True], sig=sig, Ep=mixed, got=tm, **info)
