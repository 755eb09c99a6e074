import operator

import numpy as np

from rv.base import Property as Base
from rv.world import World


class Property(Base):
    rule = (
        "A case is a history of additions, multiplications (plain, reflected, augmented) and caller-side changes of a "
        "result's lists over a pool of cross sections; after every step each earlier object is compared with its "
        "snapshot. Distinct: prefix of the operation sequence (up to 6) and size of the pool."
    )
    deciding = ["operand values unchanged", "operand lists unchanged", "new object"]
    quick_cases = 2500
    thorough_cases = 40000

    def case(self, ctx, i):
        w = World(ctx)
        g = ctx.g
        E = np.array([g.num(1e-2, 20.0) for _ in range(4)])
        pool, snap = [], []

        def lists(o):
            if isinstance(o, ctx.lib.CrossSectionWeightedSum):
                return [id(r) for r in o.reactions], [float(f) for f in o.scale_factors]
            return None

        def add(o):
            pool.append(o)
            snap.append((np.array(o(E), dtype=float), np.array(o(float(E[0])), dtype=float), lists(o)))

        for _ in range(g.integer(1, 5)):
            add(w.cross_section(user=True))
        if g.chance(0.2):
            add(ctx.lib.CrossSectionWeightedSum([pool[0]], [2.0]))
        if g.chance(0.1):
            add(ctx.lib.CrossSectionWeightedSum())
            add(pool[-1] + pool[0])
        ops = []

        def verify(skip=()):
            for k, o in enumerate(pool):
                if k in skip:
                    continue
                v, v0, l = snap[k]
                ctx.close("operand values unchanged", o(E), v, rtol=0.0, sig=(tuple(ops[:6]), len(pool)), same_shape=bool(v.ndim), ops=ops, operand=k)
                ctx.close("operand values unchanged", o(float(E[0])), v0, rtol=0.0, same_shape=False, ops=ops, operand=k)
                ctx.check("operand lists unchanged", lists(o) == l, sig=(tuple(ops[:6]), len(pool)), ops=ops, operand=k, got=lists(o), expected=l)

        for _ in range(g.integer(2, 9)):
            k = int(g.r.integers(8))
            j, m = int(g.r.integers(len(pool))), int(g.r.integers(len(pool)))
            a, b = pool[j], pool[m]
            c = g.choice([2.0, 1.0, 0.0, -1.0, 1, 0, 3, np.float64(0.5), g.u(-3, 3)])
            if len(pool) > 14:
                k = 7
            if k == 0:
                r, op = a + b, "+"
            elif k == 1:
                r, op = a * c, "*c"
            elif k == 2:
                r, op = c * a, "c*"
            elif k == 3:
                r = a
                r += b
                op = "+="
            elif k == 4:
                r = a
                r *= c
                op = "*="
            elif k == 5:
                r, op = (a + c, "+c") if g.chance(0.5) else (c + a, "c+")
            elif k == 6:
                r = a
                r += c
                op = "+=c"
            else:
                # The caller edits a previously created sum
                sums = [x for x in range(len(pool)) if lists(pool[x]) is not None and pool[x].reactions]
                if not sums:
                    continue
                x = g.choice(sums)
                o = pool[x]
                e = int(g.r.integers(3))
                if e == 0:
                    o.reactions.append(ctx.lib.ConstantCrossSection(7.0))
                    o.scale_factors.append(3.0)
                elif e == 1:
                    o.scale_factors[int(g.r.integers(len(o.scale_factors)))] = g.u(-9, 9)
                else:
                    o.reactions[int(g.r.integers(len(o.reactions)))] = ctx.lib.ConstantCrossSection(g.u(1, 9))
                ops.append("edit{}".format(e))
                snap[x] = (np.array(o(E), dtype=float), np.array(o(float(E[0])), dtype=float), lists(o))
                verify()
                continue
            ops.append(op)
            ctx.check("new object", all(r is not o for o in pool), sig=(op, type(a).__name__), op=op)
            add(r)
            verify()
        if g.chance(0.1):
            o = pool[-1]
            ctx.later("operand values unchanged", lambda: o(E), ops=ops)
        ctx.note(ops=ops)
