import json
import os

import numpy as np

from rv.base import Property as Base

DATA = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "xrmac.json")))
SYM = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "elements.json")))
# Hubbell and Seltzer, K edge of potassium
K_EDGE_POTASSIUM = 3.6074e-3


def k_edge(rows):
    """Energy of the last absorption edge, if the table contains it"""
    e = [float(r[0]) for r in rows]
    d = [a for a, b in zip(e[:-1], e[1:]) if a == b]
    return max(d) if d else None


class Property(Base):
    rule = (
        "A case is one of the 92 shipped tables: observed values at every tabulated energy, next to every edge and at generated "
        "energies. Distinct: element and kind of comparison. All 92 elements in both tiers."
    )
    deciding = ["published values", "range", "attenuation exceeds absorption", "tables differ", "K edge increases", "next to edges", "generated energies"]
    assumptions = ["Published values: a copy of the tables taken from the distribution when the check was written, read by an independent parser."]

    def cases(self, ctx):
        return 92 * (1 if ctx.quick else 6)

    def case(self, ctx, i):
        g = ctx.g
        Z = i % 92 + 1
        sym = SYM[str(Z)]["X"]
        ref = DATA[str(Z)]
        rows = np.array([r[:3] for r in ref])
        lib = ctx.lib
        if not ctx.check("published values", set(lib.xrmac_cm2_per_g) == {SYM[str(z)]["X"] for z in range(1, 93)}, sig="keys"):
            return
        x = lib.xrmac_cm2_per_g[sym]
        ctx.note(Z=Z, symbol=sym, rows=len(rows))
        data = np.asarray(x.data, dtype=float)
        if Z == 19:
            # The distributed file contains the table of calcium.
            k = k_edge(data)
            right = k is not None and abs(k / K_EDGE_POTASSIUM - 1) < 1e-3
            ctx.check("K edge of potassium", right, key="potassium-table", sig=Z, got=k, published=K_EDGE_POTASSIUM)
            if right:
                rows = data[:, :3]
        same = data.shape == rows.shape and np.array_equal(data, rows)
        ctx.check("published values", same, sig=(Z, "data"), symbol=sym, shape=data.shape)
        e, v = rows[:, 0], rows[:, 1]
        uniq = np.array([k for k in range(len(e)) if np.sum(e == e[k]) == 1])
        ctx.close("published values", x(e[uniq]), v[uniq], rtol=1e-9, sig=(Z, "array"), symbol=sym)
        k = int(g.choice(list(uniq)))
        ctx.close("published values", x(float(e[k])), v[k], rtol=1e-9, sig=(Z, "scalar"), same_shape=False, symbol=sym)
        ctx.check("range", abs(data[0, 0] - 1e-3) < 1e-12 and abs(data[-1, 0] - 20.0) < 1e-9 and np.all(np.diff(data[:, 0]) >= 0), sig=Z, symbol=sym)
        ctx.check("attenuation exceeds absorption", np.all(data[:, 1] > data[:, 2]) and np.all(data[:, 2] > 0), sig=Z, symbol=sym)
        for j in np.flatnonzero(np.diff(e) == 0):
            ctx.close("next to edges", x(e[j] * (1 - 1e-12)), v[j], rtol=1e-6, sig=(Z, "below"), same_shape=False, symbol=sym)
            ctx.close("next to edges", x(e[j] * (1 + 1e-12)), v[j + 1], rtol=1e-6, sig=(Z, "above"), same_shape=False, symbol=sym)
        from rv import model as M

        E = np.exp(g.r.uniform(np.log(1e-3), np.log(20.0), 50))
        E = E[np.min(np.abs(E[:, None] / e[None, :] - 1), axis=1) > 1e-9]
        ctx.close("generated energies", x(E), M.loglog_array(rows, E)[0], rtol=1e-9, sig=(Z,), symbol=sym)
        # Pairs of elements
        for z in range(1, Z):
            o = lib.xrmac_cm2_per_g[SYM[str(z)]["X"]]
            d = np.asarray(o.data, dtype=float)
            eq = d.shape == data.shape and np.array_equal(d, data)
            key = "potassium-table" if (z, Z) == (19, 20) else None
            ctx.check("tables differ", not eq, sig=(z, Z), key=key, symbols=(SYM[str(z)]["X"], sym))
        if Z > 1:
            a, b = k_edge(lib.xrmac_cm2_per_g[SYM[str(Z - 1)]["X"]].data), k_edge(data)
            if b is not None:
                key = "potassium-table" if Z == 20 else None
                ctx.check("K edge increases", a is None or b > a, sig=Z, key=key, below=a, this=b)
            else:
                ctx.check("K edge increases", Z <= 10, sig=Z)
