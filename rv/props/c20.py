import numpy as np

from rv import model as M
from rv.base import Property as Base
from rv.props.c19 import DATA, SYM

# Elements without a natural composition; the library gives them zero mass.
NO_MASS = ("Tc", "Pm", "Po", "At", "Rn", "Fr", "Ra", "Ac")


class Property(Base):
    rule = (
        "A case is one of 92 elements: per-atom and per-mass cross sections observed at the same tabulated and generated "
        "energies, and the attached conversion applied to generated values. Distinct: element and kind of comparison."
    )
    deciding = ["per atom equals per mass times atomic mass", "reference value", "positive", "attached conversion"]

    def cases(self, ctx):
        return 92 * (2 if ctx.quick else 20)

    def case(self, ctx, i):
        g = ctx.g
        # Elements in another order in every round
        order = np.random.Generator(np.random.PCG64([ctx.seed & 0xFFFFFFFF, i // 92])).permutation(92)
        Z = int(order[i % 92]) + 1
        el = SYM[str(Z)]
        sym = el["X"]
        amu = float(np.sum([m * a for m, a in el["isotopes"].values()]))
        f = 1e26 * amu * M.U_KG * 1e3
        a, b = ctx.lib.xrmac_fm2_per_atom[sym], ctx.lib.xrmac_cm2_per_g[sym]
        ctx.note(Z=Z, symbol=sym, amu=amu)
        if i < 92:
            ctx.check("per atom equals per mass times atomic mass", set(ctx.lib.xrmac_fm2_per_atom) == set(ctx.lib.xrmac_cm2_per_g) and len(ctx.lib.xrmac_fm2_per_atom) == 92, sig="keys")
        e = np.array([r[0] for r in DATA[str(Z)]])
        E = np.concatenate([np.unique(e), np.exp(g.r.uniform(np.log(5e-4), np.log(30.0), 40))])
        E = g.layout(E)
        va, vb = np.asarray(a(E), dtype=float), np.asarray(b(E), dtype=float)
        sig = (Z,)
        zero = sym in NO_MASS and np.all(va == 0)
        ctx.check("positive", np.all(va > 0), key="zero:" + sym if zero else None, sig=sig, symbol=sym)
        ctx.close("per atom equals per mass times atomic mass", va, vb * f, rtol=3e-9, sig=sig, symbol=sym)
        ctx.close("per atom equals per mass times atomic mass", float(a(float(E[-1]))), float(b(float(E[-1]))) * f, rtol=3e-9, sig=sig, symbol=sym)
        nat = ctx.lib.natural_elements[sym].amu
        ctx.close("per atom equals per mass times atomic mass", va, vb * nat * 1e26 * M.U_KG * 1e3, rtol=3e-9, sig=sig, symbol=sym)
        if Z != 19:
            lo, hi = M.loglog_array(np.array([r[:2] for r in DATA[str(Z)]]), E)
            ctx.check("reference value", np.all(va >= np.minimum(lo, hi) * f * (1 - 5e-9)) and np.all(va <= np.maximum(lo, hi) * f * (1 + 5e-9)), sig=sig, symbol=sym)
        for v in (1.0, g.num(1e-4, 1e4), np.array([1.0, g.u(0, 5)])):
            ctx.close("attached conversion", a.xrmac_conversion(v), np.asarray(v) * f, rtol=3e-9, sig=sig, same_shape=False, symbol=sym)
            ctx.close("attached conversion", b.xrmac_conversion(v), v, rtol=0, sig=sig + ("mass",), same_shape=False, symbol=sym)
        ctx.close("attached conversion", a.energy_conversion(0.5), 0.5, sig=sig + ("energy",), same_shape=False)
        # Third column: energy absorption
        da, db = np.asarray(a.data, dtype=float), np.asarray(b.data, dtype=float)
        if da.shape == db.shape and da.shape[1] > 2:
            ctx.close("per atom equals per mass times atomic mass", da[:, 2], db[:, 2] * f, rtol=3e-9, sig=sig + ("absorption",), symbol=sym)
