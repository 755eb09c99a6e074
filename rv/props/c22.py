import os
import shutil
import tempfile

import numpy as np

from rv.base import Property as Base

SYMBOLS = ("H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb "
           "Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au "
           "Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og").split()


class Property(Base):
    rule = (
        "A case is one generated composition file and one generated density file, queried for present and absent elements in "
        "generated order and repeatedly. Distinct: number of elements, isotopes, style of the values, conversion used."
    )
    deciding = ["isotopes", "masses", "abundances", "symbols", "absent elements", "densities", "absent densities", "repeated reading", "no file left open"]
    quick_cases = 1200
    thorough_cases = 12000

    def setup(self, ctx):
        self.dir = tempfile.mkdtemp(prefix="rv-c22-")

    def finish(self, ctx):
        shutil.rmtree(self.dir, ignore_errors=True)

    def number(self, g, v, digits):
        s = "{:.{}f}".format(v, digits)
        k = int(g.r.integers(4))
        if k == 0:
            return s, float(s), 0
        u = g.choice(["1", "12", "99", "1.2", "70", "100#", "5#"])
        return s + "(" + u + ")", float(s), 1

    def case(self, ctx, i):
        g = ctx.g
        n = g.integer(1, 40) if g.chance(0.97) else g.integer(41, 118)
        Zs = sorted(int(z) + 1 for z in g.r.choice(118, n, replace=False))
        if g.chance(0.3):
            Zs = list(range(1, n + 1))
        out, truth, names = [], {}, {}
        if g.chance(0.7):
            out += ["# Comment without any value", "#", "# [1] Atomic weights (2015)", ""]
        for Z in Zs:
            sym = SYMBOLS[Z - 1]
            names[Z] = sym
            truth[Z] = {}
            k = g.integer(1, 12) if g.chance(0.99) else g.integer(40, 120)
            A0 = int(g.r.integers(max(1, Z), 2 * Z + 40))
            As = sorted(set((A0 + g.r.integers(0, 30 if k < 40 else 200, k)).tolist()))
            if g.chance(0.1):
                As = As[::-1]
            # As for hydrogen, isotopes may have symbols of their own.
            own = Z == 1 or g.chance(0.1)
            for pos, A in enumerate(As):
                if own and pos and g.chance(0.7):
                    sym = g.choice(["D", "T", "Xx", "Q"])
                m, mv, _ = self.number(g, A + g.u(-0.2, 0.2), int(g.r.integers(1, 12)))
                style = int(g.r.integers(5))
                if style == 0:
                    a, av = "", 0.0
                elif style == 1:
                    a, av = "1", 1.0
                else:
                    a, av, _ = self.number(g, g.choice([g.u(0, 1), g.logu(1e-6, 1)]), int(g.r.integers(4, 10)))
                out += [
                    "Atomic Number = {}".format(Z), "Atomic Symbol = {}".format(sym), "Mass Number = {}".format(A),
                    "Relative Atomic Mass = " + m, "Isotopic Composition = " + a,
                    "Standard Atomic Weight = " + g.choice(["[{}]".format(A), "", "{}.01(3)".format(A), "[1.0,2.0]"]),
                    "Notes = " + g.choice(["", "g", "m,r"]), "",
                ]
                truth[Z]["{}{}".format(A, sym)] = (mv, av)
        # Every other file replaces an earlier one with the same name.
        same = g.chance(0.5)
        path = os.path.join(self.dir, "same.txt" if same else "c{}.txt".format(i))
        with open(path, "w") as f:
            f.write("\n".join(out) + "\n")
        fds = len(os.listdir("/proc/self/fd"))
        from pathlib import Path

        rd = ctx.lib.NISTElementDataReader(path if g.chance(0.5) else Path(path))
        sig = (n, sum(len(t) for t in truth.values()) // 10, Zs[0] == 1)
        ctx.note(elements=len(Zs), isotopes=sum(len(t) for t in truth.values()))
        ask = [int(z) for z in g.r.permutation(Zs)] + [int(z) for z in g.r.integers(1, 120, 4)]
        ask = [ask[int(k)] for k in g.r.permutation(len(ask))]
        if len(ask) > 14:
            ask = ask[:14]
        first = {}
        symbols = None
        for pos, Z in enumerate(ask + ask[:3]):
            if pos == 5 or (symbols is None and g.chance(0.2)):
                symbols = rd.read_nist_element_symbols()
                ctx.check("symbols", dict(symbols) == names, sig=sig, got=symbols, expected=names)
            ab, iso = rd.read_nist_element_data(Z)
            t = truth.get(Z)
            if t is None:
                ctx.check("absent elements", len(ab) == 0 and len(iso) == 0, sig=sig, Z=Z, got=ab)
                continue
            ctx.check("isotopes", set(ab) == set(t) and set(iso) == set(t), sig=sig, Z=Z, got=sorted(iso), expected=sorted(t))
            ctx.check("masses", all(iso[k].amu == t[k][0] and iso[k].AX == k for k in iso if k in t), sig=sig, Z=Z)
            ctx.check("abundances", all(ab[k] == t[k][1] for k in ab if k in t), sig=sig, Z=Z, got=ab, expected=t)
            if Z in first:
                ctx.check("repeated reading", dict(ab) == first[Z] and all(iso[k].amu == t[k][0] for k in iso if k in t), sig=sig, Z=Z)
            first[Z] = dict(ab)
            # The caller may change what it received.
            if g.chance(0.3):
                ab.clear()
                iso.clear()
        symbols = rd.read_nist_element_symbols()
        ctx.check("symbols", dict(symbols) == names, sig=sig, got=symbols, expected=names)
        if not same and g.chance(0.05):
            # The file is kept; readers of other files do not interfere.
            z = int(g.choice(Zs))

            def again(rd=rd, z=z):
                ab, iso = rd.read_nist_element_data(z)
                return dict(ab), {k: iso[k].amu for k in iso}, dict(rd.read_nist_element_symbols())

            ctx.later("repeated reading", again, Z=z)
        else:
            os.remove(path)

        # Densities; one-letter symbols are prefixes of others
        m = g.integer(1, 60)
        syms = [SYMBOLS[int(k)] for k in g.r.permutation(98)[:m]]
        if g.chance(0.5):
            syms = sorted(set(syms) | {"C", "Ca", "Cd", "Cl", "Co", "Cu", "N", "Na", "Ne", "Ni", "Nb"}, key=lambda s: g.r.random())
        fmt = int(g.r.integers(4))
        dens, rows = {}, []
        for s in syms:
            v = g.logu(1e-5, 30)
            txt = g.choice(["{:.4f}".format(v), "{:.5e}".format(v), "{}".format(round(v, 3)), "{:.0f}".format(v + 1)])
            dens[s] = float(txt)
            rows.append({0: "{}  {}", 1: "{:<2} {}", 2: "{:<4}{}", 3: "{:<2}\t{}"}[fmt].format(s, txt))
        path = os.path.join(self.dir, "densities.txt" if same else "d{}.txt".format(i))
        with open(path, "w") as f:
            f.write("\n".join(rows) + g.choice(["\n", ""]))
        c = g.choice([None, 1e3, 0.5])
        if c is None:
            dr, c = ctx.lib.Geant4DensityDataReader(path), 1.0
        else:
            dr = ctx.lib.Geant4DensityDataReader(path, (lambda k: lambda rho: k * rho)(c))
        sig = (fmt, c, len(syms) // 10)
        ask = [syms[int(k)] for k in g.r.permutation(len(syms))[:12]] + [SYMBOLS[int(k)] for k in g.r.integers(0, 118, 6)] + ["C", "N", "S", "H"]
        seen = {}
        for s in ask + ask[:2]:
            v = dr.read_density_data(s)
            if s in dens:
                ctx.check("densities", v is not None and v == c * dens[s], sig=sig, symbol=s, got=v, expected=c * dens[s])
            else:
                ctx.check("absent densities", v is None, sig=sig, symbol=s, got=v)
            if s in seen:
                ctx.check("repeated reading", seen[s] == v, sig=sig, symbol=s)
            seen[s] = v
        after = len(os.listdir("/proc/self/fd"))
        ctx.check("no file left open", after == fds, sig=sig, before=fds, after=after)
        if not same and g.chance(0.05):
            s = g.choice(ask)
            ctx.later("repeated reading", lambda: dr.read_density_data(s), symbol=s)
        else:
            os.remove(path)
