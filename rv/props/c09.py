import numpy as np

from rv.base import Property as Base
from rv.monitors import bucket
from rv.world import World


class Property(Base):
    rule = (
        "A case is a sum of 1 to 40 cross sections built by a generated expression (order, nesting, factors, repeated "
        "operands); its grid is compared with the set union of the observed grids of the constituents. "
        "Distinct: numbers of resonances and others, nesting, repeated operands, class of the number of points, decade of the range."
    )
    deciding = ["union of the grids", "strictly increasing", "ends at the limits", "independent of factors, order and nesting"]
    quick_cases = 1500
    thorough_cases = 9000

    def own_grid(self, w):
        """Cross section of a user whose grid has a number of points, and a type, of its own"""
        g = w.g
        points = np.sort(np.exp(g.r.uniform(np.log(1e-2), np.log(30.0), g.integer(0, 12))))
        as_list, unsorted = g.chance(0.3), g.chance(0.3)

        class Points(w.lib.CrossSection):
            def __call__(self, E):
                return 2.0 + 0.0 * E

            def equidistant_probability_grid(self, limits, n_points):
                inside = points[(points > limits[0]) & (points < limits[1])]
                grid = np.concatenate(([limits[0]], inside, [limits[1]])).astype(float)
                if unsorted:
                    grid = grid[::-1]
                return grid.tolist() if as_list else grid

        return Points()

    def combine(self, g, parts, factors=True):
        """Random expression with the given leaves"""
        nodes = list(parts)
        order = g.r.permutation(len(nodes))
        nodes = [nodes[int(k)] for k in order]
        if factors:
            nodes = [x * g.choice([2.0, -1.5, 0.0, 3, 1e-6, g.u(-3, 3)]) if g.chance(0.4) else x for x in nodes]
        if len(nodes) == 1:
            return nodes[0] * 1.0
        style = int(g.r.integers(3))
        if style == 0:
            s = nodes[0]
            for x in nodes[1:]:
                s = s + x
            return s
        while len(nodes) > 1:
            k = int(g.r.integers(len(nodes) - 1)) if style == 1 else 0
            s = nodes[k] + nodes[k + 1]
            if factors and g.chance(0.2):
                s = g.choice([2, 0.5, -1.0]) * s
            nodes[k:k + 2] = [s]
        return nodes[0]

    def case(self, ctx, i):
        w = World(ctx)
        g = ctx.g
        m = g.choice([1, 2, 2, 3, 4, 6, 10, 40]) if g.chance(0.8) else g.integer(1, 40)
        if g.chance(0.01):
            m = g.integer(60, 400)
        parts, E0 = [], []
        base = g.level_scheme(E_lo=1e-1, E_hi=20.0)
        for _ in range(m):
            u = g.r.random()
            if (u < 0.6 and (m <= 40 or len(E0) < 10)) or not E0:
                p = g.level_scheme(E_lo=1e-1, E_hi=20.0)
                if g.chance(0.6):
                    # Neighbouring resonances
                    p["E_i"], p["excited_initial"] = 0.0, False
                    p["E_x"] = base["E_x"] * (1 + g.choice([0.0, 1e-6, 1e-3, 0.1, -0.05]))
                r, sh = w.resonance(p=p)
                parts.append(r)
                E0.append(sh)
            elif u < 0.7:
                parts.append(w.constant())
            elif u < 0.75 or m > 40:
                parts.append(self.own_grid(w))
            elif u < 0.9:
                parts.append(w.nonresonant())
            else:
                parts.append(g.choice(parts))
        L = g.choice(E0).line
        k, a, b = w.limits(L)
        n = max(2, g.sizes(300 if m <= 40 else 30))
        if m < 5 and g.chance(0.02):
            n = g.integer(1000, 3000)
        lim = w.pair(a, b)
        if g.chance(0.1):
            a, b = float(np.floor(a)), float(np.ceil(b))
            lim = (int(a), int(b) if b > a else int(a) + 1)
            b = float(lim[1])
        ctx.note(m=m, a=a, b=b, n=n, position=k)
        want = set()
        for x in parts:
            want.update(np.asarray(x.equidistant_probability_grid(w.pair(a, b), n), dtype=float).tolist())
        want = np.array(sorted(want))
        # -0.0 and 0.0 are the same energy
        sig = (len(E0), m - len(E0), len(set(map(id, parts))) < len(parts), int(np.log2(n)), bucket(b - a))
        first = None
        many = g.integer(20, 60) if m * n < 500 and g.chance(0.03) else 2
        for rep in range(many):
            if rep < 2 or g.chance(0.1):
                s = self.combine(g, parts)
            if many == 2 and g.chance(0.2):
                s = ctx.lib.CrossSectionWeightedSum(list(parts))
            got = np.asarray(s.equidistant_probability_grid(lim, g.count(n)), dtype=float)
            ctx.check("union of the grids", got.ndim == 1 and np.array_equal(np.sort(np.unique(got)), want), sig=sig,
                      n_got=got.size, n_expected=want.size, missing=np.setdiff1d(want, got)[:4], surplus=np.setdiff1d(got, want)[:4])
            ctx.check("strictly increasing", np.all(np.diff(got) > 0), sig=sig, grid=got)
            ctx.check("ends at the limits", got.size and got[0] == a and got[-1] == b, sig=sig, got=got, a=a, b=b)
            if first is None:
                first = got.copy()
            else:
                ctx.check("independent of factors, order and nesting", np.array_equal(first, got), sig=sig)
            got[...] = 0.25
