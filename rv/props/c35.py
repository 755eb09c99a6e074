import numpy as np

from rv import model as M
from rv.base import Property as Base

MISSING = {"Tc": 43, "Pm": 61, "Po": 84, "At": 85, "Rn": 86, "Fr": 87, "Ra": 88, "Ac": 89}


class Property(Base):
    rule = (
        "A case is one compound of 1 to 5 elements with its attenuation, and the Compton scattering of its electrons, at energies "
        "from 0.5 to 2 MeV; the last part of each worker compares all elements with each other. Distinct: elements, number of constituents."
    )
    deciding = ["at least Compton scattering", "light elements", "excess grows with the proton number", "compounds"]
    quick_cases = 400
    thorough_cases = 4000

    def setup(self, ctx):
        lib = ctx.lib
        self.all = {s: e.Z for s, e in lib.natural_elements.items() if s in lib.xrmac_fm2_per_atom}
        self.Z = {s: Z for s, Z in self.all.items() if s not in MISSING and s != "K"}
        self.light = [s for s in self.Z if self.Z[s] <= 20]

    def known(self, ctx, s, E):
        """Known findings, recognised by their mechanism"""
        lib = ctx.lib
        if s in MISSING and not np.any(lib.xrmac_fm2_per_atom[s](E)):
            return "no-natural-composition"
        if s == "K" and np.array_equal(lib.xrmac_cm2_per_g["K"](E), lib.xrmac_cm2_per_g["Ca"](E)):
            return "potassium-table"
        return None

    def excess(self, ctx, cs, Z, E):
        kn = ctx.lib.KleinNishina(Z)
        return np.asarray(cs(E), dtype=float) / np.asarray(kn(E), dtype=float) - 1

    def case(self, ctx, i):
        g, lib = ctx.g, ctx.lib
        syms = sorted(self.all)
        E = np.sort(g.r.uniform(0.5, 2.0, 12))
        if i % 2 == 0:
            s = syms[(i // 2) % len(syms)]
            Z = self.all[s]
            x = self.excess(ctx, lib.xrmac_fm2_per_atom[s], Z, E)
            key = self.known(ctx, s, E)
            ctx.note(element=s)
            # The tabulated value includes coherent scattering, photoeffect and pair production.
            bound = 0.013 + 2.1 * (Z / 92.0) ** 2.2
            ctx.check("at least Compton scattering", np.all(x > -1e-3) and np.all(x < bound), sig=s, key=key, element=s, E=E, excess=x)
            if key == "no-natural-composition":
                return
            a = 6.02214076e23 / lib.natural_elements[s].amu
            per_mass = np.asarray(lib.xrmac_cm2_per_g[s](E), dtype=float) / a * 1e26
            y = per_mass / M.kn_total_fast(E, Z, M.ME) - 1
            ctx.close("at least Compton scattering", y, x, atol=1e-7, sig=(s, "per mass"), element=s)
            if Z <= 20:
                e = np.sort(g.r.uniform(0.7, 1.4, 5))
                x = self.excess(ctx, lib.xrmac_fm2_per_atom[s], Z, e)
                ctx.check("light elements", np.all(np.abs(x) < 0.0125), sig=s, key=key, element=s, E=e, excess=x)
            return
        # Compound
        m = g.integer(1, 5)
        total, Z, parts = None, 0, []
        for _ in range(m):
            s, n = g.choice(self.light), g.integer(1, 6)
            parts.append((s, n))
            t = n * lib.xrmac_fm2_per_atom[s]
            total = t if total is None else total + t
            Z += n * self.Z[s]
        e = np.sort(g.r.uniform(0.7, 1.4, 5))
        x = self.excess(ctx, total, Z, e)
        ctx.note(compound=parts)
        each = np.array([self.excess(ctx, lib.xrmac_fm2_per_atom[s], self.Z[s], e) for s, n in parts])
        ok = np.all(np.abs(x) < 0.0125) and np.all(x <= each.max(0) + 1e-9) and np.all(x >= each.min(0) - 1e-9)
        ctx.check("compounds", ok, sig=(m, tuple(sorted(set(s for s, n in parts)))[:2]), compound=parts, E=e, excess=x)

    def finish(self, ctx):
        order = sorted(self.Z, key=self.Z.get)
        for E in (0.7, 0.8, 1.0, 1.25, 1.4):
            x = [float(self.excess(ctx, ctx.lib.xrmac_fm2_per_atom[s], self.Z[s], E)) for s in order]
            for k in range(len(order) - 1):
                ctx.check("excess grows with the proton number", x[k + 1] > x[k] - 4e-4, sig=(order[k], E), elements=order[k:k + 2], E=E, excess=x[k:k + 2])
