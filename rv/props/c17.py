import numpy as np

from rv import model as M
from rv.base import Property as Base
from rv.monitors import bucket
from rv.world import World


class Property(Base):
    rule = (
        "A case is one generated table (with or without absorption edges) or a shipped one, evaluated at its nodes, "
        "between them, next to its edges and outside. Distinct: class of the number of rows, number of edges, number of columns, class of the input array."
    )
    deciding = ["tabulated points", "between points", "edge below", "edge above", "outside"]
    quick_cases = 3000
    thorough_cases = 40000

    def case(self, ctx, i):
        w = World(ctx)
        g = ctx.g
        if i % 20 == 0:
            sym = g.choice(list(ctx.lib.xrmac_cm2_per_g))
            x = ctx.lib.xrmac_cm2_per_g[sym]
            tab = np.array(x.data)
            ctx.note(table=sym)
        else:
            tab = w.table(n=int(g.logu(200, 5000)) if g.chance(0.03) else None)
            if g.chance(0.3):
                tab = np.column_stack([tab, tab[:, 1] * 0.7])
            if g.chance(0.05):
                tab = np.array([[1, 100], [2, 50], [3, 75], [10, 1]])
            arg = g.layout(tab)
            x = ctx.lib.XRMAC(arg)
            ctx.note(rows=len(tab), columns=tab.shape[1], range=(tab[0, 0], tab[-1, 0]))
        e, v = tab[:, 0].astype(float), tab[:, 1].astype(float)
        dup = np.flatnonzero(np.diff(e) == 0)
        sig = (int(np.log2(len(e))), len(dup), tab.shape[1])
        single = np.array([k for k in range(len(e)) if np.sum(e == e[k]) == 1])
        if len(single):
            ctx.close("tabulated points", x(g.layout(e[single])), v[single], rtol=1e-9, sig=sig)
            k = int(g.choice(list(single)))
            ctx.close("tabulated points", x(g.scalar_type(e[k])), v[k], rtol=1e-9, sig=sig, same_shape=False)
        # Between neighbouring points
        gaps = np.flatnonzero(np.diff(e) > 0)
        k = gaps[g.r.integers(0, len(gaps), g.choice([1, 5, 40]))]
        t = g.r.random(len(k))
        E = np.exp((1 - t) * np.log(e[k]) + t * np.log(e[k + 1]))
        E = np.clip(E, np.nextafter(e[k], np.inf), np.nextafter(e[k + 1], 0))
        tt = (np.log(E) - np.log(e[k])) / (np.log(e[k + 1]) - np.log(e[k]))
        ref = np.exp((1 - tt) * np.log(v[k]) + tt * np.log(v[k + 1]))
        # Conditioning: rounding of energies against the distance of the nodes
        cond = 1e-9 + 4e-15 / (np.log(e[k + 1]) - np.log(e[k])) * np.abs(np.log(v[k + 1] / v[k]))
        ctx.close("between points", x(g.layout(E)), ref, atol=cond * ref, sig=sig, E=E)
        ctx.close("between points", x(float(E[0])), ref[0], atol=cond[0] * ref[0], sig=sig, same_shape=False, E=E[0])
        if g.chance(0.1):
            ctx.later("between points", lambda: (x(E), x(float(E[0]))))
        for j in dup:
            below = e[j] * (1 - 1e-12)
            above = e[j] * (1 + 1e-12)
            if below > e[j - 1] if j else False:
                ctx.close("edge below", x(below), v[j], rtol=1e-6, sig=sig, same_shape=False, E=below)
            if j + 2 < len(e) and above < e[j + 2] or j + 2 == len(e):
                ctx.close("edge above", x(above), v[j + 1], rtol=1e-6, sig=sig, same_shape=False, E=above)
            at = float(x(float(e[j])))
            ctx.check("edge above", min(abs(at / v[j] - 1), abs(at / v[j + 1] - 1)) < 1e-9, sig=sig, at=at, E=e[j], values=(v[j], v[j + 1]))
        lo = e[0] / (1 + 10 ** g.r.uniform(-9, 3, 3))
        if g.chance(0.1):
            lo[int(g.r.integers(3))] = 0.0  # Grids may begin at zero.
        hi = e[-1] * (1 + 10 ** g.r.uniform(-9, 3, 3))
        ctx.close("outside", x(lo), np.full(3, v[0]), rtol=1e-9, sig=sig, E=lo)
        ctx.close("outside", x(hi), np.full(3, v[-1]), rtol=1e-9, sig=sig, E=hi)
        ctx.close("outside", x(float(lo[0])), v[0], rtol=1e-9, sig=sig, same_shape=False)
        ctx.close("outside", x(float(hi[0])), v[-1], rtol=1e-9, sig=sig, same_shape=False)
        # Inside and outside in one array, in any order
        mix = np.concatenate([lo, E[:5], hi])
        want = np.concatenate([np.full(3, v[0]), ref[:5], np.full(3, v[-1])])
        tl = np.concatenate([np.full(3, 1e-9), cond[:5], np.full(3, 1e-9)]) * want
        o = g.r.permutation(len(mix))
        ctx.close("outside", x(mix[o]), want[o], atol=tl[o], sig=sig + ("mixed",))
