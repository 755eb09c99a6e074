import warnings

import numpy as np

from rv.base import Property as Base
from rv.monitors import bucket
from rv.world import KINDS, World


class Property(Base):
    rule = (
        "A case is one line shape whose quantile function is observed for generated quantiles (uniform, extreme, "
        "duplicated, unsorted) as array and as scalars. Distinct: model, decade of relative width, decade of the distance of the extreme quantile from 0 or 1, array length class."
    )
    deciding = ["cdf of quantile", "finite", "ordered", "median", "symmetric", "array equals scalar", "warned if approximated", "no needless warning"]
    quick_cases = 1600
    thorough_cases = 16000

    def case(self, ctx, i):
        w = World(ctx)
        g = ctx.g
        kind = KINDS[i % 4] if g.chance(0.97) else "Resonance"
        if kind == "Resonance":
            p = g.level_scheme(E_lo=1e-2, E_hi=1e2)
            r = w.make(kind, w.initial(p), w.excited(p), 1, 1)
            sh = ctx.reg.get(r)
        else:
            r, sh = w.resonance(kind)
        L = sh.line
        D, par = r.probability_distribution, r.probability_distribution_parameters
        direct = kind in ("PseudoVoigt", "Voigt") and g.chance(0.3)
        if direct:
            cls = g.choice([ctx.lib.PseudoVoigtDistribution, ctx.lib.SemiPseudoVoigtDistribution])
            D, par = cls(sh.E_r, sh.exc.width, sh.amu, sh.T), ()
        n = g.sizes(300)
        q = []
        for _ in range(n):
            u = g.r.random()
            if u < 0.5:
                v = g.u(1e-3, 1 - 1e-3)
            elif u < 0.6:
                v = g.choice([0.5, 0.25, 0.75, 0.1, 0.9, 0.01, 0.99])
            elif u < 0.75:
                v = g.num(1e-3, 0.999, log=False)
            else:
                v = g.logu(1e-14 if g.chance(0.5) else 1e-6, 0.1)
                v = v if g.chance(0.5) else 1.0 - v
            q.append(v)
        if g.chance(0.2):
            q += q[: max(1, n // 3)]
        q = np.array(q)
        if g.chance(0.4):
            q = np.sort(q)
        q = g.layout(q)
        ctx.note(kind=kind, E_r=L.E0, width=sh.exc.width, amu=sh.amu, T=sh.T, q=q)

        def observe(x):
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                y = D.ppf(x, *par)
            return y, any(issubclass(m.category, UserWarning) and not issubclass(m.category, RuntimeWarning) for m in rec)

        ext = bucket(min(np.min(q), np.min(1 - q)))
        sig = (kind, bucket(L.w / L.E0), ext, int(np.log2(len(q))))
        E, warned = observe(q)
        E = np.asarray(E, dtype=float)
        if not ctx.check("finite", E.shape == q.shape and np.all(np.isfinite(E)), sig=sig, E=E, q=q):
            return
        F = np.asarray(D.cdf(E, *par), dtype=float)
        tol = 1e-8 + L.cdf_tol(E, 0.0)
        ctx.close("cdf of quantile", F, q, atol=tol, sig=sig, E_r=L.E0)
        ctx.close("reference cdf of quantile", L.cdf(E), q, atol=tol, sig=sig, E_r=L.E0)
        # Where the result is not the inverse to the accuracy of double precision, a warning is due.
        fine = 1e-10 + L.cdf_tol(E, 0.0) + 1e-5 * np.minimum(q, 1 - q)
        exact = bool(np.all(np.abs(L.cdf(E) - q) <= fine))
        ctx.check("warned if approximated", exact or warned, sig=sig, q=q, E=E)
        # For ordinary quantiles of lines that double precision resolves, there is no need for an approximation.
        if L.w > 1e-8 * L.E0:
            ordinary = q[(q >= 1e-3) & (q <= 0.999)]
            for x in [ordinary, *ordinary[:1].tolist()]:
                if np.size(x):
                    y, wn = observe(x)
                    ctx.check("no needless warning", not wn, sig=(kind, bucket(L.w / L.E0), np.ndim(x)), q=x, E=y)
        o = np.argsort(q, kind="stable")
        slack = 2 * L.resolution(E[o])[1:] + 1e-6 * L.w * 0
        # Newton iterations may leave equal-probability errors of the order of rounding.
        dens = np.maximum(L.pdf_d(E[o] - L.E0), 1e-300)
        noise = 8e-16 / dens + 1e-9 * np.abs(E[o] - L.E0)
        ctx.check(
            "ordered", np.all(np.diff(E[o]) >= -(slack + noise[1:] + noise[:-1])), sig=sig, q=q[o], E=E[o]
        )
        side = np.where(q < 0.5, E <= L.E0 + L.resolution(L.E0), True) & np.where(q > 0.5, E >= L.E0 - L.resolution(L.E0), True)
        ctx.check("ordered", np.all(side), q=q, E=E, E_r=L.E0)
        m, _ = observe(0.5)
        ctx.close("median", m, L.E0, atol=float(L.resolution(L.E0)) + 1e-9 * L.w, sig=sig, same_shape=False)
        # q and 1 - q; only representable pairs
        s = np.array([g.choice([0.25, 0.125, 0.375, 0.0625, 0.03125, 2.0 ** -10]) for _ in range(4)])
        a, _ = observe(s)
        b, _ = observe(1 - s)
        ctx.close("symmetric", L.E0 - np.asarray(a), np.asarray(b) - L.E0, atol=4 * float(L.resolution(L.E0)) + 1e-6 * L.w, sig=sig)
        for k in range(3):
            j = int(g.r.integers(len(q)))
            v = g.choice([float, np.float64])(q[j])
            x, wn = observe(v)
            dx = float(L.resolution(E[j])) * 2 + 1e-7 * abs(E[j] - L.E0) + 1e-7 * L.w + 1e-13 / float(dens[list(o).index(j)])
            ctx.close("array equals scalar", x, E[j], atol=dx, sig=(kind, ext), same_shape=False, q=float(q[j]))
            ctx.close("reference cdf of quantile", L.cdf(float(x)), float(q[j]), atol=1e-8 + float(L.cdf_tol(float(x), 0)), same_shape=False)
            ok = abs(float(L.cdf(float(x))) - float(q[j])) <= 1e-10 + float(L.cdf_tol(float(x), 0)) + 1e-5 * min(q[j], 1 - q[j])
            ctx.check("warned if approximated", ok or wn, q=float(q[j]), E=float(x))
