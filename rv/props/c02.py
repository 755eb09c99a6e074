import math

import numpy as np

from rv.base import Property as Base
from rv.monitors import bucket
from rv.world import KINDS, World


class Property(Base):
    rule = (
        "A case is one excited state whose complete set of decay channels is constructed and evaluated on the "
        "same energies for one or more line shapes. Distinct: model, number of channels, number of zero-width "
        "channels, decade of the smallest branching ratio, scalar or array."
    )
    deciding = ["channels add up", "channel share", "nonnegative"]
    quick_cases = 1200
    thorough_cases = 15000

    def case(self, ctx, i):
        w = World(ctx)
        g = ctx.g
        p = g.level_scheme()
        ctx.note(scheme=p)
        init, exc = w.initial(p), w.excited(p)
        amu, T = w.doppler(p)
        kinds = ("Resonance",) + KINDS if g.chance(0.3) else (g.choice(("Resonance",) + KINDS),)
        tot = math.fsum(p["widths"].values())
        recoil = ctx.lib.FreeNucleusRecoil(amu) if g.chance(0.3) else None
        for kind in kinds:
            rec = recoil if kind == "Resonance" else None
            total = w.make(kind, init, exc, amu, T, None, rec)
            sh = ctx.reg.get(total)
            parts = {}
            for l in p["widths"]:
                parts[l] = w.make(kind, init, exc, amu, T, w.final(p, l, init=init), rec)
            E = g.energies(sh.line, g.sizes(50))
            if g.chance(0.3):
                E = float(E[0])
            absolute = g.chance(0.8)
            ev = (lambda r: r(E)) if absolute else (lambda r: r(E, input_is_absolute_energy=g.flag(False)))
            t = np.asarray(ev(total), dtype=float)
            vals = {l: np.asarray(ev(r), dtype=float) for l, r in parts.items()}
            nz = sum(v == 0 for v in p["widths"].values())
            br = min([v for v in p["widths"].values() if v > 0]) / tot
            sig = (kind, len(parts), nz, bucket(br), np.ndim(E), absolute)
            s = sum(vals.values())
            # An underflowing cross section cannot be partitioned.
            ctx.close("channels add up", s, t, rtol=1e-12, atol=1e-300, sig=sig, kind=kind, E=E)
            for l, v in vals.items():
                share = p["widths"][l] / tot
                ctx.close("channel share", v, share * t, rtol=1e-12, atol=1e-300, sig=sig, label=l, kind=kind, E=E)
                ctx.check("nonnegative", np.all(v >= 0.0), label=l, E=E)
                I0, I1 = total.energy_integrated_cross_section, parts[l].energy_integrated_cross_section
                ctx.close("channel share", I1, share * I0, rtol=1e-12, label=l, kind=kind)
                if p["widths"][l] == 0.0:
                    ctx.check("zero width gives zero", np.all(v == 0.0), label=l)
            ctx.check("nonnegative", np.all(t >= 0.0), E=E)
