import numpy as np

from rv.base import Property as Base
from rv.monitors import bucket
from rv.world import KINDS, World


class Property(Base):
    rule = (
        "A case is one cross section (resonance, constant, scattering, table, sum of several, multiple) and grids for "
        "generated limits and numbers of points. Distinct: class of object, number of constituents, decade of the range, class of the number of points."
    )
    deciding = ["number of points", "ends at the limits", "equal spacing", "coverage limits", "same grid without distribution"]
    quick_cases = 4000
    thorough_cases = 60000

    def uniform(self, ctx, grid, a, b, n, sig, **info):
        grid = np.asarray(grid, dtype=float)
        if not ctx.check("number of points", grid.shape == (n,), sig=sig, shape=grid.shape, n=n, **info):
            return
        ctx.check("ends at the limits", grid[0] == a and grid[-1] == b, sig=sig, got=(grid[0], grid[-1]), a=a, b=b, n=n, **info)
        want = np.array([a + (b - a) * (k / (n - 1.0)) for k in range(n)])
        tol = 8 * np.spacing(max(abs(a), abs(b)))
        ctx.close("equal spacing", grid, want, atol=tol, sig=sig, a=a, b=b, n=n, **info)
        if (b - a) / (n - 1) > 100 * tol:
            ctx.check("equal spacing", np.all(np.diff(grid) > 0), a=a, b=b, n=n, **info)

    def case(self, ctx, i):
        w = World(ctx)
        g = ctx.g
        kind = g.choice(["resonance", "box", "constant", "nonresonant", "sum", "multiple", "nested"])
        m = 1
        if kind == "resonance":
            x = w.resonance(E_lo=1e-2, E_hi=30.0)[0]
        elif kind == "box":
            x = w.box()[0]
        elif kind == "constant":
            x = w.constant()
        elif kind == "nonresonant":
            x = w.nonresonant()
        elif kind == "multiple":
            x = g.u(-3, 3) * w.cross_section()
        else:
            m = g.integer(2, 6)
            x = w.cross_section()
            for _ in range(m - 1):
                x = x + w.cross_section()
            if kind == "nested":
                x = (2.0 * x) + (w.cross_section() + w.constant()) * 0.5
        for _ in range(3):
            a = g.choice([0.0, g.num(1e-4, 20.0), g.num(1e-4, 20.0)])
            b = a + g.choice([g.logu(1e-9, 1e-3), g.logu(1e-3, 30), g.num(1e-3, 30)])
            n = max(2, g.sizes(3000)) if g.r.random() > (0.015 if kind in ("constant", "nonresonant") else 0.004) else g.huge()
            if g.chance(0.15):
                # Many decades
                a, b = g.logu(1e-12, 1e-2), g.logu(1e-1, 1e6)
            if g.chance(0.04):
                a = -g.logu(1e-6, 10.0)
            if not b > a:
                continue
            if g.chance(0.15):
                a, b = float(np.floor(a)), float(np.ceil(b))
                if a == b:
                    b = a + 1
                lim = (int(a), int(b))
            else:
                lim = w.pair(a, b)
            n = g.count(n)
            ctx.note(kind=kind, a=a, b=b, n=n)
            sig = (kind, m, bucket(b - a), int(np.log2(n)), type(lim).__name__)
            grid = x.equidistant_energy_grid(lim, n)
            self.uniform(ctx, grid, a, b, n, sig, kind=kind)
            if kind in ("constant", "nonresonant"):
                other = np.asarray(x.equidistant_probability_grid(lim, n), dtype=float)
                if ctx.check("same grid without distribution", other.shape == (n,), sig=sig, shape=other.shape):
                    self.uniform(ctx, other, a, b, n, sig, kind=kind, which="probability")
                    ctx.check("same grid without distribution", np.array_equal(np.asarray(grid, dtype=float), other), sig=sig)
            try:
                grid[:] = -7.0
            except ValueError:
                pass
        if kind in ("resonance", "box"):
            # No coverage: all points at the median
            zero, E0 = g.choice([0, 0.0]), ctx.reg.get(x).line.E0
            n = max(2, g.sizes(50))
            for name in ("energy", "probability"):
                got = np.asarray(getattr(x, "equidistant_" + name + "_grid")(zero, n), dtype=float)
                ctx.close("coverage limits", got, np.full(n, E0), rtol=1e-9, sig=(kind, name, type(zero).__name__), coverage=zero)
            c = g.choice([g.u(0.01, 1), 1 - g.logu(1e-8, 0.5), 0.5, 0.9, g.num(0.01, 0.99, log=False)])
            if kind == "box" and g.chance(0.3):
                c = 1.0
            lim = np.array(x.coverage_interval(c))
            n = max(2, g.sizes(500))
            if np.isfinite(lim).all() and lim[0] < lim[1]:
                form = g.choice([float, np.float64])
                got = x.equidistant_energy_grid(int(c) if c == 1.0 and g.chance(0.5) else form(c), g.count(n))
                a, b = float(lim[0]), float(lim[1])
                sig = (kind, "coverage", int(np.log2(n)), bucket(1 - c))
                self.uniform(ctx, got, a, b, n, sig, kind=kind, coverage=c)
                ctx.check("coverage limits", np.asarray(got).shape == (n,) and got[0] == a and got[-1] == b, sig=sig, coverage=c)
                sh = ctx.reg.get(x)
                if a > 0:
                    ctx.close("coverage limits", sh.line.cdf(np.array([a, b])), np.array([0.5 - 0.5 * c, 0.5 + 0.5 * c]),
                              atol=1e-8 + sh.line.cdf_tol(np.array([a, b]), 0), sig=sig, coverage=c)
                else:
                    ctx.close("coverage limits", sh.line.cdf(b), 0.5 + 0.5 * c, atol=1e-8 + float(sh.line.cdf_tol(b, 0)), sig=sig, coverage=c)
