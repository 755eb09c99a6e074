import copy
import pickle
import warnings

import numpy as np

from rv.base import Property as Base
from rv.world import KINDS, World

WAYS = ("shallow copy", "deep copy", "restored from bytes")


class Property(Base):
    rule = (
        "A case creates one object, possibly uses it, copies it in all ways, and compares the answers of all copies with those of the original; "
        "then either the original or its deep copy is changed and the other one asked again. "
        "Distinct: class of object, way of copying, copied before or after use, protocol."
    )
    deciding = list(WAYS) + ["copies are independent", "original unchanged"]
    quick_cases = 2500
    thorough_cases = 30000
    assumptions = ["Tables hold conversions without a name and are copied, but not written to bytes."]

    def case(self, ctx, i):
        g = ctx.g
        name = ("state", "isotope", "element", "resonance", "compton", "table", "sum", "small")[i % 8]
        o, ask, change, writable = getattr(self, name)(ctx, World(ctx), g)
        kind = type(o).__name__
        used = g.chance(0.5)
        ctx.note(object=kind, used=used)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if used:
                ask(o)
            protocol = g.integer(2, pickle.HIGHEST_PROTOCOL)
            copies = {"shallow copy": copy.copy(o), "deep copy": copy.deepcopy(o)}
            if writable:
                copies["restored from bytes"] = pickle.loads(pickle.dumps(o, protocol))
            if g.chance(0.3):
                copies["deep copy"] = copy.deepcopy(copies["deep copy"])
            first = ask(o)
            order = [list(copies)[int(k)] for k in g.r.permutation(len(copies))]
            for way in order:
                self.same(ctx, way, ask(copies[way]), first, (kind, used, protocol), kind=kind, used=used)
                ctx.check(way, type(copies[way]) is type(o), sig=(kind, "class"), got=type(copies[way]).__name__, kind=kind)
            self.same(ctx, "original unchanged", ask(o), first, (kind, used), kind=kind, used=used)
            if change is None:
                return
            way = g.choice([k for k in copies if k != "shallow copy"])
            a, b = (o, copies[way]) if g.chance(0.5) else (copies[way], o)
            try:
                change(a)
            except (AttributeError, TypeError):
                pass  # What cannot be changed is independent.
            self.same(ctx, "copies are independent", ask(b), first, (kind, used, way, a is o), kind=kind, used=used, way=way, original_changed=a is o)

    def same(self, ctx, monitor, got, want, sig, **info):
        ctx.check(monitor, len(got) == len(want), sig=sig, **info)
        for k, (x, y) in enumerate(zip(got, want)):
            if isinstance(y, (np.ndarray, float)):
                ctx.close(monitor, np.asarray(x, dtype=float), np.asarray(y, dtype=float), rtol=1e-12, atol=1e-300, sig=sig + (k,), query=k, **info)
            else:
                ctx.check(monitor, x == y, sig=sig + (k,), query=k, got=repr(x)[:200], expected=repr(y)[:200], **info)

    def described(self, s):
        return (s.J_pi, s.two_J, s.parity, float(s.excitation_energy), dict(getattr(s, "partial_widths", {})), float(getattr(s, "width", 0.0)))

    def state(self, ctx, w, g):
        p = g.level_scheme()
        o = w.excited(p) if g.chance(0.8) else w.initial(p)

        def change(s):
            s.J_pi = "other"
            if hasattr(s, "partial_widths"):
                s.partial_widths["another"] = 1.0

        return o, lambda s: self.described(s), change, True

    def isotope(self, ctx, w, g):
        p = g.level_scheme()
        init, exc = ctx.lib.GroundState(p["initial"], 2, 1), w.excited(p)
        o = ctx.lib.Isotope("7Xx", g.amu(), init, [exc]) if g.chance(0.7) else ctx.lib.Isotope("7Xx", g.amu())

        def ask(x):
            return (x.AX, float(x.amu), None if x.ground_state is None else self.described(x.ground_state), [self.described(s) for s in x.excited_states])

        def change(x):
            x.excited_states.append(init)
            x.AX = "8Yy"

        return o, ask, change, True

    def element(self, ctx, w, g):
        lib = ctx.lib
        own = g.chance(0.5)
        if own:
            keys = ["{}Ab".format(10 + k) for k in range(g.integer(1, 8))]
            o = lib.Element(g.integer(1, 118), "Ab", {k: lib.Isotope(k, g.amu()) for k in keys}, {k: g.u(0, 1) for k in keys}, g.choice([None, g.num(1e-4, 30)]))
        else:
            o = g.choice([lib.natural_elements[s] for s in sorted(lib.natural_elements)])

        def ask(x):
            return (x.Z, x.X, float(x.amu), x.density, dict(x.abundances), {k: (v.AX, float(v.amu)) for k, v in x.isotopes.items()},
                    float(x.amu_from_isotopic_composition(x.abundances, x.isotopes)))

        def change(x):
            x.isotopes.clear()
            x.abundances.clear()

        return o, ask, change if own else None, True

    def answers(self, g, E, lo, hi, n, c=None):
        def ask(x):
            out = [np.array(x(E), dtype=float), float(x(float(E[0]))), np.array(x.equidistant_energy_grid((lo, hi), n), dtype=float)]
            out.append(np.array(x.equidistant_probability_grid((lo, hi), n), dtype=float))
            if c is not None:
                out += [np.array(x.coverage_interval(c), dtype=float), float(x.resonance_energy), float(x.energy_integrated_cross_section),
                        np.array(x(E - x.resonance_energy, False), dtype=float), self.described(x.initial_state), self.described(x.intermediate_state)]
                out.append(None if x.final_state is None else self.described(x.final_state))
            return out

        return ask

    def resonance(self, ctx, w, g):
        kind = g.choice(KINDS + ("Resonance",))
        p = g.level_scheme(E_lo=1e-2, E_hi=30.0)
        init, exc = w.initial(p), w.excited(p)
        amu, T = w.doppler(p)
        final = w.final(p, g.choice(list(p["widths"])), init=init) if g.chance(0.5) else None
        rec = ctx.lib.FreeNucleusRecoil(amu) if kind == "Resonance" and g.chance(0.7) else None
        o = w.make(kind, init, exc, amu, T, final, rec)
        L = ctx.reg.get(o).line
        E = g.energies(L, 5)
        lo, hi = sorted((L.E0 - L.w * g.u(0.1, 5), L.E0 + L.w * g.u(0.1, 5)))
        if lo <= 0:
            lo = 0.5 * L.E0

        def change(x):
            x.intermediate_state.partial_widths.clear()
            x.initial_state.J_pi = "other"

        return o, self.answers(g, E, lo, hi, g.integer(2, 20), g.u(0.1, 0.99)), change, True

    def compton(self, ctx, w, g):
        o = ctx.lib.KleinNishina(g.num(1, 100), g.num(0.05, 500.0)) if g.chance(0.6) else ctx.lib.KleinNishina(g.integer(1, 100))
        E = np.array([g.num(1e-3, 100.0) for _ in range(4)])
        th = g.u(0.1, 3.0)
        base = self.answers(g, E, 0.1, 3.0, g.integer(2, 20))

        def ask(x):
            return base(x) + [float(x.Z), float(x.mc2), np.array(x.cs_diff_dOmega(E, th, 0.3), dtype=float), np.array(x.compton_edge(E), dtype=float)]

        def change(x):
            x.Z, x.mc2, x.scale_factor = 1e3, 1e-3, 1e9

        return o, ask, change, True

    def table(self, ctx, w, g):
        tab = w.table()
        o = ctx.lib.XRMAC(tab)
        E = np.exp(g.r.uniform(np.log(tab[0, 0]) - 1, np.log(tab[-1, 0]) + 1, 6))
        base = self.answers(g, E, 0.1, 3.0, g.integer(2, 20))

        def change(x):
            x.data[:, 1] *= 2.0

        return o, lambda x: base(x) + [np.array(x.data, dtype=float)], change, False

    def sum(self, ctx, w, g):
        lib = ctx.lib
        r, sh = w.resonance(E_lo=1e-2, E_hi=30.0)
        parts = [r, w.constant(), lib.KleinNishina(g.integer(1, 90))]
        writable = True
        if g.chance(0.4):
            parts.append(lib.XRMAC(w.table()))
            writable = False
        if g.chance(0.3):
            parts.append(r)
        s = g.u(-2, 2) * parts[0]
        for x in parts[1:]:
            s = s + g.choice([1.0, g.u(-2, 2), 3]) * x if g.chance(0.5) else s + x
        L = sh.line
        E = g.energies(L, 5, positive=True)
        lo, hi = max(0.5 * L.E0, L.E0 - 2 * L.w), L.E0 + 3 * L.w
        base = self.answers(g, E, lo, hi, g.integer(2, 20))

        def ask(x):
            return base(x) + [len(x.reactions), np.array(x.scale_factors, dtype=float)]

        def change(x):
            x.reactions.append(lib.ConstantCrossSection(1e6))
            x.scale_factors.append(1e6)
            x.scale_factors[0] = -17.0

        return s, ask, change, writable

    def small(self, ctx, w, g):
        lib = ctx.lib
        k = int(g.r.integers(4))
        if k == 0:
            o = lib.MaxwellBoltzmann(g.amu(), g.temperature(1.0, 1e5))
            E = np.array([g.num(1e-3, 20) for _ in range(3)])

            def change(x):
                x.amu = 1e-3

            return o, lambda x: [float(x.amu), float(x.effective_temperature), np.array(x.get_doppler_width(E), dtype=float)], change, True
        if k == 1:
            o, e = lib.FreeNucleusRecoil(g.amu()), g.num(1e-3, 20)

            def change(x):
                x.amu = 1e-3

            return o, lambda x: [float(x.amu), float(x(e))], change, True
        if k == 2:
            o, e = lib.NoRecoil(), g.num(1e-3, 20)
            return o, lambda x: [float(x(e))], None, True
        o = w.constant()
        return o, self.answers(g, np.array([g.num(1e-3, 20) for _ in range(3)]), 0.5, 2.0, g.integer(2, 20)), None, True
