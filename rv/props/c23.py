import math

import numpy as np

from rv.base import Property as Base


class Property(Base):
    rule = (
        "A case creates several states, isotopes and elements, keeps them alive together and inspects all of them after all "
        "were created. Distinct: kind of object, number of parts, type of labels, positional or keyword construction."
    )
    deciding = ["total width", "element mass", "given quantities", "ground state energy", "nothing shared"]
    quick_cases = 4000
    thorough_cases = 60000

    def setup(self, ctx):
        self.old = []

    def labels(self, g, n):
        k = int(g.r.integers(4))
        return k, [
            ["{}^{}_{}".format(j % 5, "+-"[j % 2], 1 + j // 5) for j in range(n)],
            list(range(n)), [(j, "a") for j in range(n)], [0.5 * j for j in range(n)],
        ][k]

    def state(self, ctx):
        g, lib = ctx.g, ctx.lib
        n = g.integer(0, 15) if g.chance(0.98) else g.integer(16, 300)
        kind, lab = self.labels(g, n)
        lab = [lab[int(j)] for j in g.r.permutation(n)]
        w = {l: g.choice([g.logu(1e-12, 1e8), 0.0, g.num(1e-9, 10), 1, g.u(0, 1)]) for l in lab}
        J, two, par, E = g.choice(["x", 3, ("a", 1), "1^-_1"]), g.integer(0, 40), g.choice([-1, 1]), g.choice([g.num(1e-6, 1e3), 0.0, 2, np.float64(1.5)])
        ground = g.chance(0.25)
        if ground:
            s = lib.GroundState(J, two, par) if g.chance(0.5) else lib.GroundState(J_pi=J, two_J=two, parity=par)
        elif g.chance(0.5):
            s = lib.State(J, two, par, E, w)
        else:
            s = lib.State(J_pi=J, two_J=two, parity=par, excitation_energy=E, partial_widths=w)
        want = dict(w)
        sig = ("ground" if ground else "state", n, kind)

        def inspect():
            ctx.check("given quantities", s.J_pi == J and s.two_J == two and s.parity == par, sig=sig, got=(s.J_pi, s.two_J, s.parity), expected=(J, two, par))
            if ground:
                ctx.check("ground state energy", s.excitation_energy == 0.0, sig=sig, got=s.excitation_energy)
                return
            ctx.check("given quantities", s.excitation_energy == E and dict(s.partial_widths) == want, sig=sig + ("energy",), got=(s.excitation_energy, s.partial_widths), expected=(E, want))
            tot = math.fsum(want.values())
            ctx.close("total width", s.width, tot, rtol=1e-13, sig=sig, widths=want)

        inspect()
        return s, inspect

    def isotope(self, ctx, states):
        g, lib = ctx.g, ctx.lib
        AX, amu = "{}{}".format(g.integer(1, 250), g.choice(["H", "Pb", "Zz"])), g.num(1, 300)
        form = int(g.r.integers(5))
        gs, ex = None, []
        if form == 0:
            o = lib.Isotope(AX, amu)
        elif form == 1:
            gs = g.choice(states)[0]
            o = lib.Isotope(AX, amu, gs)
        elif form == 2:
            ex = [g.choice(states)[0] for _ in range(g.integer(1, 4))]
            o = lib.Isotope(AX=AX, amu=amu, excited_states=list(ex))
        elif form == 3:
            gs, ex = g.choice(states)[0], [g.choice(states)[0]]
            o = lib.Isotope(AX, amu, gs, list(ex))
        else:
            gs = g.choice(states)[0]
            o = lib.Isotope(AX, amu, ground_state=gs, excited_states=[])
        sig = ("isotope", form, len(ex))

        def inspect(extra=()):
            now = ex + list(extra)
            ctx.check("given quantities", o.AX == AX and o.amu == amu and o.ground_state is gs, sig=sig, got=(o.AX, o.amu))
            ctx.check("given quantities", len(o.excited_states) == len(now) and all(a is b for a, b in zip(o.excited_states, now)), sig=sig + ("excited",), got=len(o.excited_states), expected=len(now))

        inspect()
        return o, inspect, AX, amu, form

    def case(self, ctx, i):
        g, lib = ctx.g, ctx.lib
        states = [self.state(ctx) for _ in range(g.integer(1, 5))]
        isos = [self.isotope(ctx, states) for _ in range(g.integer(2, 5))]
        # Filling the list of one isotope must not fill that of another.
        bare = [x for x in isos if x[4] in (0, 1)]
        added = {}
        for k, x in enumerate(bare):
            if g.chance(0.7):
                st = g.choice(states)[0]
                x[0].excited_states.append(st)
                added[id(x[0])] = [st]
        for x in isos:
            x[1](added.get(id(x[0]), ()))
        if len(bare) > 1:
            ctx.check("nothing shared", len({id(x[0].excited_states) for x in bare}) == len(bare), sig=len(bare))
        ctx.check("nothing shared", all(x[0].excited_states is not None for x in bare), sig="list")

        inspections = []
        for _ in range(g.integer(1, 3)):
            n = g.integer(1, 12) if g.chance(0.98) else g.integer(13, 200)
            keys = ["{}{}".format(10 + int(a), "Ab") for a in g.r.permutation(n)]
            amus = {k: g.num(1, 300) for k in keys}
            iso = {k: lib.Isotope(k, amus[k]) for k in keys}
            ab = {k: g.choice([g.u(0, 1), 0.0, g.logu(1e-9, 1), 1]) for k in keys}
            more = g.chance(0.3)
            if more:
                ab["extra"] = g.u(0, 1)
            order = [list(ab)[int(k)] for k in g.r.permutation(len(ab))]
            ab = {k: ab[k] for k in order}
            Z, X = g.integer(1, 118), g.choice(["Q", "Ab", "Xy"])
            rho = g.choice([None, g.num(1e-4, 30), g.num(1e-4, 30), 0.0])
            form = int(g.r.integers(3))
            if form == 0 or (rho is None and form == 1):
                el, rho = lib.Element(Z, X, iso, ab), None
            elif form == 1:
                el = lib.Element(Z, X, iso, ab, rho)
            else:
                el = lib.Element(X=X, Z=Z, abundances=ab, isotopes=iso, density=rho)
            want = math.fsum(amus[k] * ab[k] for k in keys)
            sig = ("element", n, more, form)
            keep = (dict(iso), dict(ab))

            def inspect(el=el, want=want, Z=Z, X=X, rho=rho, keep=keep, sig=sig):
                ctx.close("element mass", el.amu, want, rtol=1e-13, sig=sig)
                ctx.check("given quantities", el.Z == Z and el.X == X and el.density == rho and dict(el.isotopes) == keep[0] and dict(el.abundances) == keep[1], sig=sig, got=(el.Z, el.X, el.density))

            inspect()
            ctx.close("element mass", lib.Element.amu_from_isotopic_composition(ab, iso), want, rtol=1e-13, sig=sig + ("function",))
            inspections.append(inspect)
        ctx.note(states=len(states), isotopes=len(isos))
        for f in inspections:
            f()
        for s, f in states:
            f()
        # Objects of earlier cases
        for f in self.old:
            f()
        self.old = [f for _, f in states][:3] + inspections[:2]
