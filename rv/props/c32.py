import numpy as np

from rv import model as M
from rv.base import Property as Base
from rv.monitors import bucket
from rv.world import KINDS, World

GL = np.polynomial.legendre.leggauss(24)


def cells(x):
    x = np.unique(x)
    h, m = 0.5 * np.diff(x), 0.5 * (x[1:] + x[:-1])
    return (m[:, None] + h[:, None] * GL[0]), h[:, None] * GL[1]


def probability(L, a, b):
    """Probability between two energies, in terms of distances from the centre"""
    if L.kind != "Voigt":
        return float(L.cdf_d(b - L.E0) - L.cdf_d(a - L.E0))
    # Exact profile: integrate on a geometric partition around the centre
    s = L.w * np.concatenate([[0.0], 10.0 ** np.arange(-2, 20, 0.1)])
    d = np.concatenate([-s[::-1], s])
    lo, hi = a - L.E0, b - L.E0
    d = np.unique(np.concatenate([[lo, hi], d[(d > lo) & (d < hi)]]))
    e, w = cells(d)
    return float(np.sum(w * L.pdf_d(e)))


class Property(Base):
    rule = (
        "A case is one resonance integrated over its own grids, or a sum of up to 8 resonances with background over the union grid. "
        "Distinct: model, decade of the relative width, class of the number of points, kind of limits, background."
    )
    deciding = ["bracket", "doubling never widens", "cell by cell", "own quadrature", "sum of the parts", "sum cell by cell"]
    quick_cases = 900
    thorough_cases = 2700

    def case(self, ctx, i):
        if i % 3 == 2:
            return self.total(ctx, i)
        g, lib = ctx.g, ctx.lib
        w = World(ctx)
        kind = KINDS[i % 4]
        # Also low-lying states, with widths far below 1e-12 MeV
        low = g.chance(0.25)
        r, sh = w.resonance(kind, E_lo=1e-4 if low else 1e-2, E_hi=1e-1 if low else 1e2, rel_lo=1e-10 if low else 1e-9, rel_hi=1e-6 if low else 0.3, final=True)
        L, I = sh.line, sh.I
        if I == 0:
            return
        n = 2 * max(1, g.sizes(800)) + 1
        if g.chance(0.5):
            d = min(L.w * g.logu(0.3, 1e4), 0.999 * L.E0)
            a, b = L.E0 - d, L.E0 + d
            d = min(L.E0 - a, b - L.E0)
            a, b = L.E0 - d, L.E0 + d
            arg, form = w.pair(a, b), "limits"
        else:
            arg = g.choice([g.u(0.05, 0.9), 1 - g.logu(1e-3, 0.5)])
            form = "coverage"
            lim = r.coverage_interval(arg)
            if not lim[0] > 0:
                return
        ctx.note(kind=kind, E_r=L.E0, width=sh.exc.width, n=n, arg=arg)
        x = np.asarray(r.equidistant_probability_grid(arg, n), dtype=float)
        a, b = float(x[0]), float(x[-1])
        sig = (kind, bucket(L.w / L.E0), int(np.log2(n)), form)
        info = dict(kind=kind, E_r=L.E0, w=L.w, n=n, a=a, b=b)
        if np.any(np.diff(x) <= 0):
            return
        exact = I * probability(L, a, b)
        peak = I * float(L.pdf_d(0.0))
        # Rounding of the energies of the grid
        noise = 8 * np.spacing(b) * peak * min(n, 50) + 2e-7 * abs(exact)
        centre = abs(x[n // 2] - L.E0) <= 1e-4 * L.w + 4 * np.spacing(L.E0)
        res = [lib.darboux(r, x), lib.darboux(np.asarray(r(x)), x)]
        for lo, diff in res:
            if centre:
                ctx.check("bracket", lo - noise <= exact <= lo + diff + noise, sig=sig, lower=lo, upper=lo + diff, exact=exact, **info)
        ctx.close("bracket", res[0], np.array(res[1]), rtol=1e-9, atol=noise, sig=sig + ("values",), **info)
        x2 = np.asarray(r.equidistant_probability_grid(arg, 2 * n - 1), dtype=float)
        lo2, diff2 = lib.darboux(r, x2)
        ctx.check("doubling never widens", diff2 <= res[0][1] * (1 + 1e-6) + 2 * noise, sig=sig, coarse=res[0][1], fine=diff2, **info)
        # Own quadrature of the observed line on a geometric partition
        d = L.w * np.concatenate([[0.0], 10.0 ** np.arange(-2, 8, 0.2)])
        lo, hi = a - L.E0, b - L.E0
        k = np.concatenate([-d[::-1], d])
        k = np.unique(np.concatenate([[lo, hi], k[(k > lo) & (k < hi)]]))
        e, wt = cells(k)
        v = float(np.sum(wt * np.asarray(r(e.ravel(), False), dtype=float).reshape(e.shape)))
        ctx.check("own quadrature", abs(v - exact) <= 2e-7 * abs(exact) + noise, sig=sig, got=v, exact=exact, **info)
        if g.chance(0.2) or not ctx.quick:
            m = min(n, 21)
            y = np.asarray(r.equidistant_probability_grid(arg, m), dtype=float)
            if np.any(np.diff(y) <= 0) or np.min(np.diff(y)) < 1e4 * np.spacing(b):
                return
            # The quadrature has an absolute tolerance and needs cells that resolve the line.
            d = L.w * np.array([0.5, 1, 2, 4, 10, 30, 100, 300, 1000, 3000])
            y = np.concatenate([y, L.E0 - d, L.E0 + d])
            y = np.unique(y[(y >= a) & (y <= b)])
            y = y[np.concatenate([[True], np.diff(y) > 1e4 * np.spacing(b)])]
            y[-1] = b
            v, e = lib.quad_partition((1.0 / I) * r, y)
            v, e = I * v, I * e
            ctx.check("cell by cell", abs(v - exact) <= e * np.sqrt(m) + 2e-7 * exact + noise and e >= 0, sig=sig, got=(v, e), exact=exact, **info)

    def total(self, ctx, i):
        g, lib = ctx.g, ctx.lib
        w = World(ctx)
        m = g.integer(1, 8)
        base = g.logu(0.05, 10)
        parts, shadows, fs = [], [], []
        for _ in range(m):
            p = g.level_scheme(E_lo=base * 0.9, E_hi=base * 1.1, rel_lo=1e-8, rel_hi=1e-2)
            p["E_i"], p["excited_initial"] = 0.0, False
            r, sh = w.resonance(p=p)
            parts.append(r)
            shadows.append(sh)
            fs.append(g.choice([1.0, g.u(0.1, 3), -0.5]))
        back = []
        if g.chance(0.6):
            back.append((w.constant(), 1.0))
        if g.chance(0.6):
            back.append((lib.KleinNishina(g.integer(1, 80)), g.u(0.1, 2)))
        if g.chance(0.4):
            back.append((lib.xrmac_fm2_per_atom[g.choice(["H", "C", "Fe", "Pb", "U"])], g.u(0.1, 2)))
        s = None
        for f, x in list(zip(fs, parts)) + [(f, x) for x, f in back]:
            t = f * x if f != 1.0 else x
            s = t if s is None else s + t
        if m + len(back) == 1:
            s = s * 1.0
        a, b = base * 0.85, base * 1.2
        n = 2 * g.integer(2, 25) + 1
        ctx.note(m=m, background=len(back), a=a, b=b, n=n)
        x = np.asarray(s.equidistant_probability_grid((a, b), n), dtype=float)
        sig = (m, len(back), int(np.log2(n)))
        want, scale = 0.0, 0.0
        for f, sh in zip(fs, shadows):
            v = f * sh.I * probability(sh.line, a, b)
            want += v
            scale += abs(v) + abs(f * sh.I) * 16 * np.spacing(b) / sh.line.w
        for o, f in back:
            sh = ctx.reg.get(o)
            knots = np.linspace(a, b, 40)
            if hasattr(sh, "table"):
                knots = np.concatenate([knots, sh.table[:, 0]])
                knots = knots[(knots >= a) & (knots <= b)]
            e, wt = cells(knots)
            v = f * float(np.sum(wt * sh.value(e)[0]))
            want += v
            scale += abs(v)
        # Own quadrature of the observed sum on a partition that resolves each line
        y = [x]
        for sh in shadows:
            d = sh.line.w * 10.0 ** np.arange(-2, 8, 0.2)
            y += [sh.line.E0 - d, sh.line.E0 + d, [sh.line.E0]]
        for o, f in back:
            t = getattr(ctx.reg.get(o), "table", None)
            if t is not None:
                y.append(t[:, 0])
        y = np.concatenate(y)
        y = np.unique(y[(y >= a) & (y <= b)])
        e, wt = cells(y)
        got = float(np.sum(wt * np.asarray(s(e))))
        res = max([np.spacing(b) / sh.line.w for sh in shadows] + [0])
        ctx.close("sum of the parts", got, want, atol=(3e-7 + 300 * res) * scale, sig=sig, m=m)
        if i % (24 if ctx.quick else 12) == 2:
            z = x
            for sh in shadows:
                d = sh.line.w * np.array([0.5, 1, 2, 4, 10, 30, 100, 300, 1000])
                z = np.concatenate([z, sh.line.E0 - d, sh.line.E0 + d, [sh.line.E0]])
            z = np.unique(z[(z >= a) & (z <= b)])
            keep = [0]
            for k in range(1, len(z)):
                if z[k] - z[keep[-1]] > 1e5 * np.spacing(b):
                    keep.append(k)
            z = z[keep]
            z[-1] = b
            if len(z) < 400:
                v, err = lib.quad_partition(s, z)
                ctx.check("sum cell by cell", abs(v - want) <= err * np.sqrt(len(z)) + (1e-6 + 300 * res) * scale, sig=sig, got=(v, err), exact=want, m=m, cells=len(z))
