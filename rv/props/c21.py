import json
import os
import re

import numpy as np

from rv.base import Property as Base

REF = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "elements.json")))


def weight(text):
    """Published interval of the standard atomic weight, three times the uncertainty"""
    m = re.match(r"^\[([\d.]+),([\d.]+)\]$", text)
    if m:
        return float(m.group(1)), float(m.group(2))
    m = re.match(r"^([\d.]+)\((\d+)\)$", text)
    if m:
        v, u = m.group(1), int(m.group(2))
        digits = len(v.split(".")[1]) if "." in v else 0
        u = 3 * u * 10.0 ** -digits
        return float(v) - u, float(v) + u
    return None


class Property(Base):
    rule = (
        "A case is one of 118 elements of the library's tables compared with the reference copy and with the published standard "
        "atomic weight. Distinct: element (or isotope) and quantity. All elements in both tiers, thorough repeats after workloads."
    )
    deciding = ["symbol and proton number", "isotopes", "masses", "abundances", "density", "mean mass", "standard atomic weight", "abundances add up"]
    assumptions = ["Published tables: a copy of the distributed files, read by an independent parser; the standard atomic weight is a separate column that the library does not use."]

    def cases(self, ctx):
        return 118 * (1 if ctx.quick else 3)

    def case(self, ctx, i):
        Z = i % 118 + 1
        ref = REF[str(Z)]
        sym = ref["X"]
        lib = ctx.lib
        ctx.note(Z=Z, symbol=sym)
        ctx.check("symbol and proton number", dict(lib.X) == {int(z): r["X"] for z, r in REF.items()}, sig="map")
        ctx.check("symbol and proton number", set(lib.natural_elements) == {r["X"] for r in REF.values()}, sig="keys")
        if sym not in lib.natural_elements:
            return
        el = lib.natural_elements[sym]
        ctx.check("symbol and proton number", el.Z == Z and el.X == sym and lib.X[Z] == sym, sig=Z, got=(el.Z, el.X))
        iso = ref["isotopes"]
        if not ctx.check("isotopes", set(el.isotopes) == set(iso) and set(el.abundances) == set(iso), sig=Z, got=sorted(el.isotopes)):
            return
        for k, (m, a) in iso.items():
            ctx.check("masses", el.isotopes[k].amu == m and el.isotopes[k].AX == k, sig=k, got=el.isotopes[k].amu, expected=m)
            ctx.check("abundances", el.abundances[k] == a, sig=k, got=el.abundances[k], expected=a)
            ctx.check("isotopes", el.isotopes[k].ground_state is None and list(el.isotopes[k].excited_states) == [], sig=k)
        ctx.check("density", el.density == ref["density"] if ref["density"] is not None else el.density is None, sig=Z, got=el.density, expected=ref["density"])
        mean = float(np.sum([m * a for m, a in iso.values()]))
        ctx.close("mean mass", el.amu, mean, rtol=1e-13, sig=Z)
        tot = sum(el.abundances.values())
        if tot > 0:
            ctx.close("abundances add up", tot, 1.0, atol=1e-9, sig=Z)
            w = weight(ref["weight"])
            if w is not None:
                ctx.check("standard atomic weight", w[0] - 1e-9 <= el.amu <= w[1] + 1e-9, sig=Z, got=el.amu, published=ref["weight"])
