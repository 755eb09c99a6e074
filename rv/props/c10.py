import numpy as np

from rv.base import Property as Base
from rv.world import World


class Property(Base):
    rule = (
        "A case is a generated expression tree over 1 to 12 leaf cross sections and scalars, evaluated at generated "
        "energies; oracle: the same expression of the observed values of the leaves, and the reference models of the leaves. "
        "Distinct: sequence of operations (up to 8), kinds of leaves, types of the scalars, dimension of the input."
    )
    deciding = ["expression value", "reference value", "equivalent expressions"]
    quick_cases = 4000
    thorough_cases = 60000

    def scalar(self, g):
        v = g.choice([0.0, 1.0, -1.0, 2.0, 0.5, -0.25, 1e-3, 1e3, g.u(-5, 5), g.num(1e-6, 1e6), float(g.integer(0, 20))])
        if v == int(v) and g.chance(0.6):
            # Products of several 32-bit integers must fit into one.
            t = g.choice([int, np.int64, np.int32 if abs(v) <= 20 else int, float, np.float64])
        else:
            t = g.choice([float, np.float64])
        return t(v)

    def case(self, ctx, i):
        w = World(ctx)
        g = ctx.g
        nl = g.choice([1, 2, 2, 3, 4, 6, 12])
        leaves = [w.cross_section(user=True) for _ in range(nl)]
        E = g.choice([0, 1, 1, 2])
        around = [ctx.reg.get(l).line for l in leaves if hasattr(ctx.reg.get(l), "line")]
        def energy():
            if around and g.chance(0.7):
                return abs(float(g.energies(g.choice(around), 1, positive=True)[0])) or 1.0
            return g.num(1e-3, 20.0)
        if E == 0:
            E = g.scalar_type(energy())
        elif E == 1:
            E = g.layout(np.array([energy() for _ in range(g.sizes(100))]))
        else:
            E = g.layout(np.array([[energy() for _ in range(3)] for _ in range(g.integer(1, 5))]))
        vals = [np.array(l(E), dtype=float) for l in leaves]
        pool = [(l, v, np.abs(v), ("leaf", type(l).__name__)) for l, v in zip(leaves, vals)]
        flat = [((1.0, k),) for k in range(nl)]
        pool = [(o, v, a, f) for (o, v, a, _), f in zip(pool, flat)]
        ops = []
        const = []
        for _ in range(g.integer(1, 10)):
            k = int(g.r.integers(8))
            o, v, a, f = g.choice(pool)
            if k in (0, 1, 2):
                o2, v2, a2, f2 = g.choice(pool)
                r = (o + o2, v + v2, a + a2, f + f2)
                op = "+"
            elif k == 3:
                c = self.scalar(g)
                r = (c * o, float(c) * v, abs(float(c)) * a, tuple((float(c) * x, y) for x, y in f))
                op = "c*" + type(c).__name__
            elif k == 4:
                c = self.scalar(g)
                r = (o * c, float(c) * v, abs(float(c)) * a, tuple((float(c) * x, y) for x, y in f))
                op = "*c" + type(c).__name__
            elif k == 5:
                c = self.scalar(g)
                r = (o + c, v + float(c), a + abs(float(c)), f + ((float(c), None),))
                op = "+c" + type(c).__name__
            elif k == 6:
                c = self.scalar(g)
                r = (c + o, v + float(c), a + abs(float(c)), f + ((float(c), None),))
                op = "c+" + type(c).__name__
            else:
                items = [g.choice(pool) for _ in range(g.integer(1, 4))]
                r = (sum(x[0] for x in items), sum(x[1] for x in items), sum(x[2] for x in items), sum((x[3] for x in items), ()))
                op = "sum{}".format(len(items))
            if len(r[3]) > 400:
                continue
            ops.append(op)
            pool.append(r)
        ctx.note(ops=ops, leaves=[type(l).__name__ for l in leaves], E=E)
        sig = (tuple(ops[:8]), np.ndim(E))
        for o, v, a, f in pool[nl:] if len(pool) > nl else pool:
            got = o(E)
            ctx.close("expression value", got, v, atol=1e-12 * a + 1e-300, sig=sig, ops=ops)
            sh = ctx.reg.get(o)
            if sh is not None:
                rv, rt = sh.value(E)
                ctx.close("reference value", got, rv, atol=rt + 1e-12 * a, sig=sig, ops=ops)
        if g.chance(0.08):
            # A sum of many terms
            items = [g.choice(pool) for _ in range(g.integer(10, 60) if g.chance(0.8) else g.integer(100, 300))]
            o, v, a, f = items[0]
            for x in items[1:]:
                o, v, a, f = o + x[0], v + x[1], a + x[2], f + x[3]
            if len(f) < 2000:
                # The sum as one operand of further operations
                c, (o2, v2, a2, f2) = self.scalar(g), g.choice(pool)
                pool.append((o2 + o, v2 + v, a2 + a, f2 + f))
                pool.append((o + o2, v + v2, a + a2, f + f2))
                pool.append((c * o, float(c) * v, abs(float(c)) * a, tuple((float(c) * x, y) for x, y in f)))
                pool.append((o * c, float(c) * v, abs(float(c)) * a, tuple((float(c) * x, y) for x, y in f)))
                pool.append((c + o, float(c) + v, abs(float(c)) + a, ((float(c), None),) + f))
                pool.append(((o2 + o2) + o, 2 * v2 + v, 2 * a2 + a, f2 + f2 + f))
                pool.append((o, v, a, f))
        # The last expression as an explicit list of constituents and factors
        o, v, a, f = pool[-1]
        K = ctx.lib.ConstantCrossSection
        terms = [(K(1.0), c) if k is None else (leaves[k], c) for c, k in f]
        order = [int(k) for k in g.r.permutation(len(terms))]
        s = ctx.lib.CrossSectionWeightedSum([terms[k][0] for k in order], [terms[k][1] for k in order])
        ctx.close("equivalent expressions", s(E), v, atol=1e-12 * a + 1e-300, sig=sig, ops=ops)
        s = sum((terms[k][0] * terms[k][1] for k in order[1:]), terms[order[0]][1] * terms[order[0]][0])
        ctx.close("equivalent expressions", s(E), v, atol=1e-12 * a + 1e-300, sig=sig, ops=ops)
        if g.chance(0.05):
            ctx.later("expression value", lambda: o(E), ops=ops)
        # Later operations must not have changed earlier results.
        for o2, v, a, f in pool:
            ctx.close("expression value", o2(E), v, atol=1e-12 * a + 1e-300, ops=ops, again=True)
