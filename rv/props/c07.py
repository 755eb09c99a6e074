import numpy as np

from rv.base import Property as Base
from rv.monitors import bucket
from rv.world import KINDS, World


class Property(Base):
    rule = (
        "A case is one resonance with grids for generated limits and for generated coverages. "
        "Distinct: model, decade of relative width, position of the limits relative to the line, class of the number of points."
    )
    deciding = ["number of points", "ends at the limits", "ordered and inside", "equal probabilities", "distinct points", "coverage equals its limits"]
    quick_cases = 1600
    thorough_cases = 16000

    def grid(self, ctx, r, sh, lim, a, b, n, tag):
        L = sh.line
        kind = sh.kind
        grid = np.asarray(r.equidistant_probability_grid(lim, ctx.g.count(n)), dtype=float)
        sig = (kind, bucket(L.w / L.E0), tag, int(np.log2(n)))
        info = dict(kind=kind, E_r=L.E0, a=a, b=b, n=n)
        if not ctx.check("number of points", grid.shape == (n,), sig=sig, shape=grid.shape, **info):
            return None
        ctx.check("ends at the limits", grid[0] == a and grid[-1] == b, sig=sig, got=(grid[0], grid[-1]), **info)
        d = np.diff(grid)
        ctx.check("ordered and inside", np.all(grid >= a) and np.all(grid <= b) and np.all(d >= 0), sig=sig, grid=grid, **info)
        F = L.cdf(grid)
        Fa, Fb = float(L.cdf(a)), float(L.cdf(b))
        want = np.linspace(Fa, Fb, n)
        # Limits are energies in double precision, which limits the probabilities at the limits.
        res = float(np.max(L.cdf_tol(np.array([a, b if np.isfinite(b) else L.E0]), 0.0)))
        # Small probabilities are resolved, too, up to the rounding of probabilities close to 1.
        tol = min(1e-9 + 1e-8 * (Fb - Fa), 1e-3 * (Fb - Fa) + 2e-15) + L.cdf_tol(grid, 0.0) + res
        ctx.close("equal probabilities", F, want, atol=tol, sig=sig, **info)
        step = (Fb - Fa) / (n - 1)
        with np.errstate(all="ignore"):
            gap = step / np.maximum(L.pdf_d(0.0), 1e-300)
        if n > 2 and step > 1e-6 and gap > 100 * float(L.resolution(b if np.isfinite(b) else L.E0)):
            ctx.check("distinct points", np.all(d > 0), sig=sig, grid=grid, **info)
        return grid

    def tail(self, g, kind, L, a, b):
        """Limits far away from the line on one side"""
        if kind == "Gauss":
            x, y = g.u(2, 9), g.u(0.1, 3)
        else:
            x = g.logu(1e2, 1e10)
            y = x * g.logu(1e-2, 10)
        lo, hi = (L.E0 - L.w * (x + y), L.E0 - L.w * x) if g.chance(0.7) else (L.E0 + L.w * x, L.E0 + L.w * (x + y))
        lo, hi = max(0.0, lo), max(0.0, hi)
        if not (np.isfinite(hi) and hi - lo > 1e-9 * hi):
            return 10, a, b
        return 9, lo, hi

    def case(self, ctx, i):
        w = World(ctx)
        g = ctx.g
        kind = KINDS[i % 4]
        if g.chance(0.06):
            kind = "Resonance"
            r, sh = w.box(E_lo=0.6)
        else:
            r, sh = w.resonance(kind, rel_lo=1e-11)
        L = sh.line
        ctx.note(kind=kind, E_r=L.E0, width=sh.exc.width, amu=sh.amu, T=sh.T)
        for _ in range(2):
            k, a, b = w.limits(L)
            if kind != "Resonance" and g.chance(0.2):
                k, a, b = self.tail(g, kind, L, a, b)
            n = max(2, g.sizes(2000)) if g.r.random() > 0.004 else int(g.logu(4000, 20000))
            if g.chance(0.15):
                # Limits as integers
                a, b = float(np.floor(a)), float(np.ceil(b))
                lim = (int(a), int(b))
            else:
                lim = w.pair(a, b)
            self.grid(ctx, r, sh, lim, a, b, n, k)
        c = g.choice([g.u(0.01, 1), 1 - g.logu(1e-8, 0.5), g.num(0.01, 0.999, log=False), 0.9, 0.5, 1.0])
        n = max(2, g.sizes(500))
        lim = r.coverage_interval(c)
        a, b = float(lim[0]), float(lim[1])
        if not a < b:
            return
        c = g.choice([float, np.float64])(c)
        if c == 1.0 and g.chance(0.5):
            c = 1
        one = self.grid(ctx, r, sh, c, a, b, n, "coverage")
        two = np.asarray(r.equidistant_probability_grid((a, b), n), dtype=float)
        if one is not None:
            ctx.check("coverage equals its limits", np.array_equal(one, two), sig=(kind, bucket(1 - c)), c=c, one=one, two=two)
        if kind != "Resonance" and np.isfinite(b) and c < 1 - 1e-7 and a > 0:
            # Odd numbers of points contain the resonance energy
            one = self.grid(ctx, r, sh, c, a, b, 2 * int(g.r.integers(1, 50)) + 1, "odd")
            if one is not None:
                m = one[len(one) // 2]
                ctx.close("equal probabilities", m, L.E0, atol=1e-5 * L.w + float(L.resolution(L.E0)), sig=(kind, "median"))
