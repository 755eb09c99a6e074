import numpy as np

from rv import model as M
from rv.base import Property as Base
from rv.monitors import bucket
from rv.world import World


class Property(Base):
    rule = (
        "A case is one scattering cross section (number of centres, particle mass) evaluated at generated energies as "
        "scalars and arrays; oracle: the Klein-Nishina formula in 60-digit arithmetic. "
        "Distinct: decade of E/mc2, decade of the mass, class of Z, scalar or array."
    )
    deciding = ["total cross section", "decreases with energy", "positive", "proportional to the number of centres", "mass scaling", "Thomson limit"]
    quick_cases = 3000
    thorough_cases = 40000
    assumptions = ["Energies from 1 meV (1e-9 MeV) to 1 TeV (1e6 MeV), masses from 1 keV to 1 TeV."]

    def case(self, ctx, i):
        g = ctx.g
        KN = ctx.lib.KleinNishina
        Z = g.choice([1, 1.0, g.integer(1, 120), g.num(0.01, 200.0), np.int64(g.integer(1, 100))])
        default = g.chance(0.4)
        m = M.ME if default else g.choice([g.num(1e-3, 1e6), 105.6583755, 938.27208816, 0.51099895, g.num(0.1, 10)])
        if default:
            kn = KN() if type(Z) is int and Z == 1 else KN(Z) if g.chance(0.5) else KN(Z=Z)
        else:
            kn = KN(Z, m) if g.chance(0.5) else KN(Z, mc2=m)
        ctx.note(Z=Z, mc2=m)

        def energy():
            u = g.r.random()
            if u < 0.45:
                v = g.logu(1e-9, 1e6)
            elif u < 0.6:
                v = g.num(1e-9, 1e6)
            elif u < 0.9:
                # The branches of an implementation usually depend on E/mc2.
                v = m * (g.num(1e-6, 1e3) if g.chance(0.6) else g.logu(1e-4, 10))
            else:
                v = m * g.choice([1.0, 0.5, 2.0, 1e-2, 1e-3, 5e-3, 0.1])
            return min(1e6, max(1e-9, v))

        E = np.array([energy() for _ in range(g.choice([1, 2, 8, 8, 20]))])
        x = E / m
        ref = M.kn_total(E, float(Z), float(m))
        sig = (bucket(E[0] / m), bucket(m), bucket(float(Z)), "array")
        got = kn(g.layout(E))
        rtol = 1e-8
        ctx.close("total cross section", got, ref, rtol=rtol, sig=sig, Z=Z, mc2=m, E=E)
        ctx.check("positive", np.all(np.asarray(got) > 0), sig=sig, E=E, Z=Z, mc2=m)
        if g.chance(0.2):
            ctx.later("total cross section", lambda: kn(E), Z=Z, mc2=m)
        for e, r in list(zip(E, ref))[:3]:
            v = kn(g.scalar_type(e))
            ctx.close("total cross section", v, r, rtol=rtol, sig=(bucket(e / m), bucket(m), "scalar"), same_shape=False, Z=Z, mc2=m, E=e)
        if g.chance(0.2):
            k = np.array([g.integer(1, 1000) for _ in range(3)])
            ctx.close("total cross section", kn(k), M.kn_total(k.astype(float), float(Z), float(m)), rtol=rtol, sig=("integer energies",), E=k)
        # Strictly decreasing, for energies that differ enough to be resolved
        o = np.sort(np.unique(E))
        o = np.unique(np.concatenate([o, o * (1 + 10 ** g.r.uniform(-3, 0, len(o)))]))
        v = np.asarray(kn(o), dtype=float)
        rv = M.kn_total(o, float(Z), float(m))
        clear = (rv[:-1] - rv[1:]) > 4e-8 * rv[:-1]
        ctx.check("decreases with energy", np.all(np.diff(v)[clear] < 0), sig=sig, E=o, values=v)
        if clear.any():
            ctx.evaluated("decreases with energy", sig)
        f = g.choice([2.0, 3.0, 0.5, 10.0])
        other = KN(float(Z) * f, m)
        ctx.close("proportional to the number of centres", other(E), f * np.asarray(got), rtol=1e-10, sig=sig, Z=Z, factor=f)
        f = g.choice([2.0, 206.7682830, 1836.15267343, 0.5])
        if m * f < 1e6 and np.all(E * f < 1e6):
            other = KN(Z, m * f)
            ctx.close("mass scaling", other(E * f), np.asarray(got) / f ** 2, rtol=2e-8, sig=sig, mc2=m, factor=f)
        th = 8.0 / 3.0 * np.pi * float(Z) * (M.ALPHA * M.HBARC / m) ** 2
        # Grids may begin at zero.
        if g.chance(0.2):
            zero = g.choice([0, 0.0, np.float64(0.0)])
            ctx.close("Thomson limit", kn(zero), th, rtol=1e-8, sig=("zero", type(zero).__name__), same_shape=False, Z=Z, mc2=m)
            ctx.close("Thomson limit", kn(np.append(0.0, E)), np.append(th, ref), rtol=1e-8, sig=("zero", "array"), Z=Z, mc2=m)
        low = m * 1e-9
        if low >= 1e-9:
            ctx.close("Thomson limit", kn(low), th, rtol=1e-8, sig=sig, same_shape=False)
