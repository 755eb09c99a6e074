import json
import os

from rv.base import Property as Base
from rv.world import World

REF = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "debye.json")))
SYM = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "elements.json")))
SYMBOLS = {v["X"] for v in SYM.values()}


class Property(Base):
    rule = (
        "A case inspects all entries of the table after a generated use of the library (effective temperatures of tabulated "
        "elements, Doppler-broadened lines, requests for absent symbols). Distinct: element and quantity."
    )
    deciding = ["symbols of elements", "published value", "unchanged by use", "usable"]
    quick_cases = 60
    thorough_cases = 1500
    assumptions = ["Published values: a copy of the corrected table taken when the check was written."]

    def case(self, ctx, i):
        g, lib = ctx.g, ctx.lib
        w = World(ctx)
        t = lib.room_temperature_T_D
        before = dict(t)
        for k, v in before.items():
            ctx.check("symbols of elements", k in SYMBOLS and k in lib.natural_elements, sig=k, symbol=k)
            ctx.check("published value", k in REF and v == REF[k] and (v is None or v > 0), sig=k, symbol=k, got=v, expected=REF.get(k))
        for k in REF:
            ctx.check("published value", k in before, sig=("present", k), symbol=k)
        for _ in range(3):
            k = g.choice([k for k, v in before.items() if v is not None])
            el = lib.natural_elements.get(k)
            if el is None:
                continue
            Te = float(lib.debye(293.15, t[k]))
            ctx.check("usable", Te >= 293.15 * (1 - 1e-9), sig=k, symbol=k, got=Te)
            if el.amu > 0:
                p = g.level_scheme(E_lo=0.1, E_hi=20.0)
                kind = g.choice(["Gauss", "PseudoVoigt", "Voigt"])
                r = w.make(kind, w.initial(p), w.excited(p), el.amu, Te)
                ctx.check("usable", float(r(r.resonance_energy)) >= 0, sig=(k, kind), symbol=k)
        # Requests for what the table does not contain
        other = g.choice(sorted(SYMBOLS - set(before)) or ["Xx"]) if g.chance(0.5) else g.choice(["Xx", "", "al", "Alu"])
        ctx.check("unchanged by use", t.get(other) is None and other not in t, sig="absent", symbol=other)
        try:
            t[other]
            found = True
        except KeyError:
            found = False
        ctx.check("unchanged by use", not found and len(t) == len(before), sig="request", symbol=other, entries=len(t), before=len(before))
        ctx.check("unchanged by use", dict(lib.room_temperature_T_D) == before and lib.room_temperature_T_D is t, sig=i % 10)
        ctx.note(entries=len(before))
