import math
import warnings

import numpy as np
from scipy.integrate import nquad

from rv.base import Property as Base


def term(g):
    """One-dimensional factor with known integral"""
    k = int(g.r.integers(6))
    a, b = g.u(0.3, 2.5), g.u(-1, 1)
    if k == 0:
        return "poly", (lambda x: 1.0 + a * x + b * x * x), (lambda x: x + a * x * x / 2 + b * x ** 3 / 3)
    if k == 1:
        return "exp", (lambda x: math.exp(-a * x)), (lambda x: -math.exp(-a * x) / a)
    if k == 2:
        return "cos", (lambda x: math.cos(a * x + b)), (lambda x: math.sin(a * x + b) / a)
    if k == 3:
        return "lorentz", (lambda x: 1 / (1 + (x - b) ** 2)), (lambda x: math.atan(x - b))
    if k == 4:
        n = int(g.r.integers(0, 6))
        return "power", (lambda x: x ** n), (lambda x: x ** (n + 1) / (n + 1))
    return "one", (lambda x: 1.0), (lambda x: x)


class Property(Base):
    rule = (
        "A case is a separable or mixed function of 1 to 3 coordinates with known integral, integrated over a generated partition; "
        "cells are recomputed by an independent call of the quadrature. "
        "Distinct: dimension, factors, number of cells, form of the limits."
    )
    deciding = ["integral", "sum of the cells", "root of squared errors", "first argument is the partitioned coordinate", "error covers the deviation"]
    quick_cases = 900
    thorough_cases = 6000

    def large(self, ctx):
        """Thousands of cells of different width, each of which contributes"""
        g = ctx.g
        n = g.integer(4000, 12000)
        x0 = np.concatenate([[0.0], np.cumsum(g.r.uniform(0.5, 1.5, n))])
        a = g.u(0.1, 2.0)
        ctx.note(cells=n)
        v, e = ctx.lib.quad_partition(lambda x: a + x, g.choice([x0, x0.tolist()]))
        ctx.close("integral", v, a * x0[-1] + 0.5 * x0[-1] ** 2, rtol=1e-10, sig=("large", n // 1000))
        ctx.check("error covers the deviation", 0 <= e < 1e-8 * v, sig=("large", n // 1000), got=(v, e))

    def unbounded(self, ctx):
        """Cells or other limits that extend to infinity"""
        g = ctx.g
        a, c = g.logu(0.2, 5), g.u(-1, 1)
        line = lambda x: 1 / (1 + (x - c) ** 2)
        inner = np.sort(c + g.r.uniform(-3, 3, g.integer(1, 6)))
        x0, v0 = g.choice([
            (np.concatenate([[-np.inf], inner, [np.inf]]), math.pi),
            (np.concatenate([inner, [np.inf]]), math.pi / 2 - math.atan(inner[0] - c)),
            (np.concatenate([[-np.inf], inner]), math.pi / 2 + math.atan(inner[-1] - c)),
            (np.array([-np.inf, np.inf]), math.pi),
        ])
        sig = ("unbounded", len(x0), bool(np.isinf(x0[0])), bool(np.isinf(x0[-1])))
        ctx.note(x0=x0, a=a, c=c)
        v, e = ctx.lib.quad_partition(line, g.choice([x0, x0.tolist()]))
        ctx.close("integral", v, v0, rtol=1e-6, sig=sig, x0=x0)
        ctx.check("error covers the deviation", abs(v - v0) <= 1.0001 * e * math.sqrt(len(x0)) + 1e-10, sig=sig, got=(v, e), exact=v0)
        lim, v1 = g.choice([([0.0, np.inf], 1 / a), ([-np.inf, 0.0], 1 / a), ([-np.inf, np.inf], 2 / a)])
        v, e = ctx.lib.quad_partition(lambda x, y: line(x) * math.exp(-a * abs(y)) * (1 + (0.5 if y > 0 else -0.5) * (lim[0] != 0 and lim[1] != 0)), x0[-3:], g.choice([[lim], np.array([lim]), [tuple(lim)]]))
        first = (math.pi / 2 if np.isinf(x0[-1]) else math.atan(x0[-1] - c)) - (-math.pi / 2 if np.isinf(x0[-3:][0]) else math.atan(x0[-3:][0] - c))
        ctx.close("integral", v, first * v1, rtol=1e-5, sig=sig + (str(lim),), x0=x0[-3:], limits=lim)

    def case(self, ctx, i):
        g = ctx.g
        Q = ctx.lib.quad_partition
        if i % 40 == 11:
            return self.unbounded(ctx)
        if i % 300 == 7:
            return self.large(ctx)
        nd = [1, 1, 1, 2, 2, 3][i % 6] if g.chance(0.9) else 2
        n = {1: g.integer(2, 40), 2: g.integer(2, 8), 3: g.integer(2, 3)}[nd]
        lo = g.u(-2, 2)
        w = g.logu(0.01, 5) if nd == 1 else g.u(0.2, 2)
        x0 = np.unique(np.concatenate([[lo, lo + w], lo + w * g.r.random(n - 2)]))
        if g.chance(0.2):
            x0 = np.array([float(k) for k in range(int(g.r.integers(2, 5)))])
        limits = []
        for _ in range(nd - 1):
            a = g.u(-2, 2)
            limits.append([a, a + g.u(0.2, 2)])
        if nd > 1 and g.chance(0.15):
            limits[-1] = limits[-1][::-1]
        fs = [term(g) for _ in range(nd)]
        seen = []
        narrow = nd == 1 and g.chance(0.3)
        if narrow:
            # A narrow peak that the partition resolves
            c, s = g.u(x0[0], x0[-1]), 10 ** g.r.uniform(-6, -2) * (x0[-1] - x0[0])
            fs = [("peak", lambda x: s / math.pi / ((x - c) ** 2 + s * s), lambda x: math.atan((x - c) / s) / math.pi)]
            q = (np.arange(1, 40) / 40.0 - 0.5) * math.pi
            x0 = np.unique(np.concatenate([x0[[0, -1]], [v for v in c + s * np.tan(q) if x0[0] < v < x0[-1]]]))
        elif g.chance(0.3):
            # Zeros at special points of the cells or limits
            k = int(g.r.integers(nd))
            ends = list(zip(x0[:-1], x0[1:])) if k == 0 else [tuple(limits[k - 1])]
            a, b = g.choice(ends)
            p = g.choice([0.5 * (a + b), 0.5 * (a + b), a, b])
            q = g.choice([0.5 * (a + b), a, b])
            m = g.integer(1, 3)
            fs[k] = g.choice([
                ("power zero", lambda x: (x - p) ** m, lambda x: (x - p) ** (m + 1) / (m + 1)),
                ("two zeros", lambda x: (x - p) * (x - q), lambda x: x ** 3 / 3 - (p + q) * x * x / 2 + p * q * x),
                ("zero", lambda x: 0.0, lambda x: 0.0),
            ])
        unit = 1.0
        if g.chance(0.35):
            # The first coordinate in another unit, with the same integral
            unit = g.choice([10 ** g.u(-15, 9), 2.0 ** int(g.r.integers(-60, 30))])
            x0 = np.unique(x0 * unit)
            name, f0, F0 = fs[0]
            fs = [(name, lambda x: f0(x / unit) / unit, lambda x: F0(x / unit))] + fs[1:]
        ctx.note(nd=nd, cells=len(x0) - 1, factors=[f[0] for f in fs], limits=limits, narrow=narrow, unit=unit)

        nested = nd * len(x0) < 12 and g.chance(0.1)

        def f(*x):
            seen.append(x[:nd])
            # The integrand may use the integrator itself.
            r = 0.25 * Q(lambda u: 2.0 * u, [0.0, 1.0, 2.0])[0] if nested and len(seen) % 10 == 1 else 1.0
            for t, v in zip(fs, x):
                r *= t[1](v)
            return r

        exact = fs[0][2](x0[-1]) - fs[0][2](x0[0])
        size = abs(exact)
        for t, l in zip(fs[1:], limits):
            d = t[2](l[1]) - t[2](l[0])
            exact *= d
        lim = limits
        form = int(g.r.integers(4))
        if form == 1 and nd > 1:
            lim = np.array(limits)
        elif form == 2:
            lim = [tuple(l) for l in limits]
        elif form == 3:
            lim = tuple(limits)
        part = g.choice([g.layout(x0), list(x0), x0])
        if np.all(x0 == np.round(x0)) and np.max(np.abs(x0)) < 1e9 and g.chance(0.5):
            part = g.choice([x0.astype(int), [int(v) for v in x0], x0.astype(np.int32)])
        sig = (nd, tuple(t[0] for t in fs), len(x0), form, narrow, nested, int(np.log10(unit)))
        if nd == 1 and g.chance(0.6):
            got = Q(f, part)
        else:
            got = Q(f, part, lim)
        v, e = float(got[0]), float(got[1])
        if nd == 1 and g.chance(0.1):
            ctx.later("integral", lambda: Q(f, x0))
        scale = 1e-10 * max(abs(exact), 1e-3)
        if narrow:
            # The abscissas are rounded, which matters for a peak far from the origin.
            scale += float(np.spacing(np.max(np.abs(x0)))) / (s * unit)
        ctx.close("integral", v, exact, atol=1e-7 * max(1.0, size), sig=sig)
        ctx.check("error covers the deviation", abs(v - exact) <= 1.0001 * e * math.sqrt(len(x0)) + scale and e >= 0, sig=sig, got=got, exact=exact)
        # Which coordinate received which values
        lows = [(min(x0), max(x0))] + [(min(l), max(l)) for l in limits]
        wide = [max(abs(a), abs(b)) for a, b in lows]
        ok = len(seen) > 0 and all(len(x) == nd for x in seen[:2000])
        if ok:
            arr = np.array(seen[:20000])
            ok = all(arr[:, k].min() >= lows[k][0] - 1e-12 * wide[k] and arr[:, k].max() <= lows[k][1] + 1e-12 * wide[k] for k in range(nd))
        ctx.check("first argument is the partitioned coordinate", ok, sig=sig, limits=lows)
        total, err = [], []
        for a, b in zip(x0[:-1], x0[1:]):
            r = nquad(f, [[a, b]] + [list(l) for l in limits])
            total.append(r[0])
            err.append(r[1] ** 2)
        ctx.close("sum of the cells", v, math.fsum(total), atol=1e-9 * max(math.fsum(map(abs, total)), 1e-12) + 1e-11, sig=sig)
        ctx.close("root of squared errors", e, math.sqrt(math.fsum(err)), rtol=0.05, atol=1e-13, sig=sig)
