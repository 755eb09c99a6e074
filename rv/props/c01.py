import numpy as np

from rv.base import Property as Base
from rv.monitors import strength_monitor, value_monitor
from rv.shadow import ResonanceShadow
from rv.world import KINDS, World


class Property(Base):
    rule = (
        "A case is a generated level scheme on which all line-shape models are constructed and evaluated; "
        "evaluations are counted per monitored construction attribute and per monitored evaluation. "
        "Non-trivial and distinct: different combination of model, spins, number of channels, final/initial "
        "state kind and decades of energy and width."
    )
    deciding = [
        "strength: energy-integrated cross section", "strength: branching ratio",
        "strength: statistical factor", "strength: resonance energy", "height follows strength",
    ]
    assumptions = ["CODATA 2018 constants", "double precision"]
    quick_cases = 1600
    thorough_cases = 20000

    def setup(self, ctx):
        strength_monitor(ctx, "strength")
        value_monitor(ctx, "height follows strength", kinds=ResonanceShadow)

    def case(self, ctx, i):
        w = World(ctx)
        g = ctx.g
        p = g.level_scheme(E_lo=1e-6, E_hi=1e4)
        ctx.note(scheme=p)
        init, exc = w.initial(p), w.excited(p)
        amu, T = w.doppler(p)
        finals = [None] + [w.final(p, l, g.integer(0, 8)) for l in p["widths"]]
        if len(finals) > 4:
            finals = [None] + [finals[int(k)] for k in g.r.choice(len(finals) - 1, 3, False) + 1]
        for f in finals:
            for kind in ("Resonance",) + KINDS:
                rec = None
                if kind == "Resonance" and g.chance(0.5):
                    rec = ctx.lib.FreeNucleusRecoil(g.amu())
                r = w.make(kind, init, exc, amu, T, f, rec)
                sh = ctx.reg.get(r)
                r(sh.E_r)
                if g.chance(0.4):
                    r(g.energies(sh.line, 5))
        # A state that is its own initial state (elastic channel)
        r = w.make("BreitWigner", init, exc, amu, T, w.final(p, p["initial"]))
        r(ctx.reg.get(r).E_r)
