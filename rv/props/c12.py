import math

import numpy as np

from rv import model as M
from rv.base import Property as Base


class Function:
    """A function with known antiderivative that is monotonic between its turning points"""

    def __init__(self, name, f, F, turns=(), top=math.inf):
        self.name, self.turns, self.top = name, turns, top
        # No powers of integers
        self.f, self.F = (lambda x: f(np.asarray(x, dtype=float))), (lambda x: F(np.asarray(x, dtype=float)))


def functions(g):
    a, b, c = g.u(-3, 3), g.u(-3, 3), g.u(0.2, 4)
    s = g.choice([1.0, 1e-12, 1e9, -1.0])
    return [
        Function("linear", lambda x: s * (a * x + b), lambda x: s * (a * x * x / 2 + b * x)),
        Function("cube", lambda x: s * x ** 3, lambda x: s * x ** 4 / 4),
        Function("exp", lambda x: s * np.exp(-c * x), lambda x: -s * np.exp(-c * x) / c),
        Function("parabola", lambda x: s * (x - a) ** 2, lambda x: s * (x - a) ** 3 / 3, (a,)),
        Function("lorentz", lambda x: s / (1 + (x - a) ** 2), lambda x: s * np.arctan(x - a), (a,)),
        Function("sine", lambda x: s * np.sin(c * x), lambda x: -s * np.cos(c * x) / c,
                 tuple((k + 0.5) * math.pi / c for k in range(-60, 60)), 55 * math.pi / c),
        Function("step", lambda x: s * np.where(x < a, 1.0, 4.0), lambda x: s * np.where(x < a, x - a, 4 * (x - a))),
        Function("constant", lambda x: s * a + 0.0 * x, lambda x: s * a * x),
    ]


class Property(Base):
    rule = (
        "A case is one function on a generated partition, or arbitrary values on it; sums compared with exactly "
        "rounded sums, brackets with the exact integral, bisected partitions with the coarse one. "
        "Distinct: function, class of the number of points, spacing style, decade of the range, form of the argument."
    )
    deciding = ["lower sum", "width", "brackets the integral", "refinement never widens", "function or values"]
    quick_cases = 5000
    thorough_cases = 80000

    def partition(self, g):
        n = max(2, g.sizes(2000)) if g.r.random() > 0.008 else g.huge()
        lo = g.choice([0.0, -1.0, g.u(-5, 5), g.num(1e-3, 100)])
        w = g.choice([1.0, g.logu(1e-6, 1e3), g.u(0.1, 10)])
        k = int(g.r.integers(4))
        if k == 0:
            x = np.linspace(lo, lo + w, n)
        elif k == 1:
            x = lo + w * np.sort(g.r.random(n))
        elif k == 2:
            x = lo + w * np.concatenate([[0], np.cumsum(10.0 ** g.r.uniform(-6, 0, n - 1))])
        else:
            x = np.unique(np.round(lo + w * np.sort(g.r.random(n)), 3))
        x = np.unique(x)
        if len(x) < 2:
            x = np.array([lo, lo + 1.0])
        if g.chance(0.12):
            # Integers, also by their type
            k = 4
            x = np.unique(np.round(x * g.choice([1, 10, 100])))
            x = x - min(0, x[0] + g.integer(0, 40))
            x = x.astype(g.choice([int, np.int32]) if np.max(np.abs(x)) < 1e9 else int)
            if len(x) < 2:
                x = np.array([int(x[0]), int(x[0]) + g.integer(1, 5)])
        return k, x

    def both(self, ctx, fx, x, sig, got):
        lo, wd = M.darboux([float(v) for v in fx], [float(v) for v in x])
        scale = float(np.sum(np.abs(np.maximum(np.abs(fx[1:]), np.abs(fx[:-1])) * np.diff(x))))
        tol = 1e-13 * (len(x) ** 0.5 + 10) * scale + 8e-16 * float(np.max(np.abs(fx))) * float(np.max(np.abs(x))) * 0 + 1e-300
        ctx.close("lower sum", got[0], lo, atol=tol, sig=sig, same_shape=False, x=x, fx=fx)
        ctx.close("width", got[1], wd, atol=2 * tol, sig=sig, same_shape=False, x=x, fx=fx)
        ctx.check("width", got[1] >= 0, x=x, fx=fx, got=got)
        return lo, wd, tol

    def case(self, ctx, i):
        g = ctx.g
        D = ctx.lib.darboux
        k, x = self.partition(g)
        if i % 4 == 3:
            # Arbitrary values
            fx = g.choice([lambda: g.r.normal(size=len(x)), lambda: 10.0 ** g.r.uniform(-12, 12, len(x)),
                           lambda: g.r.integers(-5, 6, len(x)).astype(float), lambda: np.zeros(len(x)),
                           lambda: -g.r.random(len(x)), lambda: np.sort(g.r.normal(size=len(x)))[::-1].copy()])()
            ctx.note(values="arbitrary", n=len(x))
            sig = ("values", k, int(np.log2(len(x))))
            form = int(g.r.integers(4))
            arg = fx
            if form == 1:
                arg = g.layout(fx)
            elif form == 2 and np.all(fx == np.round(fx)) and np.all(np.abs(fx) < 1e9):
                arg = fx.astype(int)
            elif form == 3:
                arg = [float(v) for v in fx]
            self.both(ctx, fx, x, sig, D(arg, g.layout(x)))
            if g.chance(0.05):
                ctx.later("lower sum", lambda: D(fx, x))
            return
        F = g.choice(functions(g))
        if F.turns and g.chance(0.6):
            inside = [t for t in F.turns if x[0] < t < x[-1]]
            x = np.unique(np.concatenate([x, inside]))
        fx = np.asarray(F.f(x), dtype=float)
        mono = float(np.max(np.abs(x))) < F.top and all(not np.any((x[:-1] < t) & (t < x[1:])) for t in F.turns)
        ctx.note(function=F.name, n=len(x), spacing=k, monotonic=mono)
        sig = (F.name, k, int(np.log2(len(x))), int(np.log10(x[-1] - x[0])), mono)
        xx, ff = g.layout(x), g.layout(fx)
        got = D(ff, xx)
        lo, wd, tol = self.both(ctx, fx, x, sig, got)
        other = D(F.f, xx)
        # Vectorised functions may round differently for other memory layouts.
        ctx.check("function or values", abs(other[0] - got[0]) <= tol and abs(other[1] - got[1]) <= 2 * tol, sig=sig, got=got, other=other)
        if not mono:
            return
        I = float(F.F(x[-1]) - F.F(x[0]))
        # Rounding errors of the exact integral and of the end points
        num = 1e-14 * (abs(float(F.F(x[-1]))) + abs(float(F.F(x[0])))) + tol
        num += 1e-15 * float(np.max(np.abs(fx))) * (abs(x[0]) + abs(x[-1])) * len(x)
        if F.name == "step":
            num += 3.0 * float(np.max(np.diff(x))) * 0
        ctx.check("brackets the integral", got[0] - num <= I <= got[0] + got[1] + num, sig=sig, got=got, exact=I, slack=num)
        mid = 0.5 * (x[1:] + x[:-1])
        pts = mid if g.chance(0.5) else mid[: max(1, len(mid) // 3)]
        fine = np.unique(np.concatenate([x, pts]))
        f2 = D(F.f, fine)
        ctx.check("refinement never widens", f2[1] <= got[1] + num and f2[0] >= got[0] - num and f2[0] + f2[1] <= got[0] + got[1] + num,
                  sig=sig, coarse=got, fine=f2, slack=num)
