"""Writes the committed reference data in rv/data from a checkout of the library.

Run once when the checks were written; the checks only read the result.  The parsers are
independent of those of the library.
"""

import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
OUT = os.path.join(HERE, "rv", "data")


def main():
    from rv.gen import _literals
    from rv.lib import REPO

    def dump(name, data):
        with open(os.path.join(OUT, name), "w") as f:
            json.dump(data, f, indent=0, sort_keys=True)
            f.write("\n")

    dump("literals.json", _literals())

    tables = {}
    number = re.compile(r"\d\.\d+E[+-]\d+")
    label = re.compile(r"^[KLMN]\d?")
    for Z in range(1, 93):
        rows = []
        with open(os.path.join(REPO, "ries/nonresonant/nist_xrmac/{:02d}.txt".format(Z))) as f:
            for line in f:
                v = [float(x) for x in number.findall(line)]
                m = label.match(line)
                assert len(v) == 3
                rows.append(v + [m.group(0) if m else ""])
        tables[str(Z)] = rows
    dump("xrmac.json", tables)

    elements = {}
    par = {}

    def flush():
        if not par:
            return
        Z = par["Atomic Number"]
        e = elements.setdefault(Z, {"X": par["Atomic Symbol"], "isotopes": {}, "weight": par["Standard Atomic Weight"]})
        strip = lambda s: re.sub(r"\(.*?\)", "", s).replace("#", "")
        mass, ab = strip(par["Relative Atomic Mass"]), strip(par["Isotopic Composition"])
        e["isotopes"][par["Mass Number"] + par["Atomic Symbol"]] = [float(mass), float(ab) if ab else 0.0]
        par.clear()

    with open(os.path.join(REPO, "ries/constituents/nist_elements/elements.txt")) as f:
        for line in f:
            if line.startswith("#"):
                continue
            if "=" not in line:
                flush()
                continue
            k, v = line.split("=", 1)
            par[k.strip()] = v.strip().replace("&nbsp;", "")
    flush()
    with open(os.path.join(REPO, "ries/constituents/geant4_densities/element_densities.txt")) as f:
        dens = {}
        for line in f:
            w = line.split()
            if w and not line.startswith("#"):
                dens[w[0]] = float(w[1])
    for e in elements.values():
        e["density"] = dens.get(e["X"])
    dump("elements.json", elements)

    sys.path.insert(0, REPO)
    from ries.resonance.debye_model import room_temperature_T_D

    dump("debye.json", room_temperature_T_D)


if __name__ == "__main__":
    main()
