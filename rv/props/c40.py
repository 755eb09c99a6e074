import os
import shutil
import tempfile

import numpy as np

from rv import model as M
from rv.base import Property as Base
from rv.world import World

RTOL = 1e-13
KINDS = ("Resonance", "BreitWigner", "Gauss", "PseudoVoigt", "Voigt")


class Property(Base):
    rule = (
        "A case creates the same object (or makes the same call) with its optional arguments left out, given as their documented default, given by "
        "position and by name in either order, and compares the behaviour of all forms with each other and of the shortest one with the reference model. "
        "Distinct: callable, form, arguments given."
    )
    deciding = ["scattering centre: default", "scattering centre: forms", "final state: default", "final state: forms", "recoil: default", "recoil: forms",
                "absolute energy: default", "absolute energy: forms", "conversions: default", "conversions: forms", "density conversion: default",
                "density conversion: forms", "isotope: default", "element: default", "sum: default", "sum: forms", "integration: default", "integration: forms"]
    quick_cases = 3000
    thorough_cases = 40000

    def setup(self, ctx):
        self.dir = tempfile.mkdtemp(prefix="rv-c40-")

    def finish(self, ctx):
        shutil.rmtree(self.dir, ignore_errors=True)

    def equal(self, ctx, name, forms, sig):
        """The first form is the complete one, by position."""
        first = forms[0][1]
        for label, v in forms[1:]:
            ctx.close(name, v, np.asarray(first, dtype=float), rtol=RTOL, same_shape=False, sig=sig + (label,), form=label)

    def case(self, ctx, i):
        k = i % 6
        (self.compton, self.resonance, self.table, self.parts, self.total, self.integral)[k](ctx, ctx.g, ctx.lib, i)

    def compton(self, ctx, g, lib, i):
        KN = lib.KleinNishina
        E = np.array([g.logu(1e-3, 1e2) for _ in range(3)])
        th = g.u(0.1, 3.0)
        Z, m = g.choice([g.integer(1, 100), g.num(0.1, 100)]), g.num(1e-2, 1e3)

        def see(kn):
            return np.concatenate([kn(E), kn.cs_total(E), [kn.compton_edge(E[0]), kn.Ep_over_E(E[0], th), kn.cs_diff_dOmega(E[0], th, 0.4),
                                                          kn.cs_diff_dtheta(E[0], th), kn.cs_diff_dOmega_unpolarized(E[0], th)]])

        ctx.note(Z=Z, mc2=m, E=E)
        for label, kn in (("nothing", KN()), ("Z", KN(Z=1)), ("mass", KN(mc2=M.ME))):
            ctx.close("scattering centre: default", kn(E), M.kn_total(E, 1.0, M.ME), rtol=1e-8, sig=(label,), E=E)
            ctx.close("scattering centre: default", kn.cs_diff_dOmega(E[0], th, 0.4), M.kn_domega(E[0], th, 0.4, 1.0, M.ME), rtol=1e-8, same_shape=False, sig=(label, "angle"), E=E)
        self.equal(ctx, "scattering centre: forms", [("complete", see(KN(Z, m))), ("name", see(KN(Z, mc2=m))), ("names", see(KN(Z=Z, mc2=m))), ("names, other order", see(KN(mc2=m, Z=Z)))], ("both",))
        self.equal(ctx, "scattering centre: forms", [("complete", see(KN(Z, M.ME))), ("left out", see(KN(Z))), ("name", see(KN(Z=Z)))], ("Z",))
        self.equal(ctx, "scattering centre: forms", [("complete", see(KN(1, m))), ("left out", see(KN(mc2=m)))], ("mass",))

    def resonance(self, ctx, g, lib, i):
        w = World(ctx)
        kind = KINDS[(i // 6) % 5]
        p = g.level_scheme(E_lo=1e-2, E_hi=30.0)
        init, exc = w.initial(p), w.excited(p)
        amu, T = g.u(4, 240), g.num(10, 2000)
        cls = getattr(lib, kind)
        a = (init, exc) if kind in ("Resonance", "BreitWigner") else (init, exc, amu, T)
        names = dict(zip(("initial_state", "intermediate_state", "amu", "effective_temperature"), a))
        label = g.choice(list(p["widths"]))
        final = w.final(p, label, init=init)
        o = cls(*a)
        sh = ctx.reg.get(o)
        E = sh.line.E0 + sh.line.w * np.array([-3.0, -0.4, 0.0, 0.2, 1.5])
        ctx.note(kind=kind, amu=amu, T=T)

        def see(r):
            return np.concatenate([r(E), [r.resonance_energy, r.energy_integrated_cross_section, r.final_state_branching_ratio]])

        b = p["widths"][label] / float(np.sum(list(p["widths"].values())))
        I = M.strength(p["E_x"] - p["E_i"], p["two_J_i"], p["two_J_x"], p["widths"][p["initial"]], 1.0)
        ctx.close("final state: default", o.energy_integrated_cross_section, I, rtol=1e-9, same_shape=False, sig=(kind,))
        ctx.close("final state: default", o.final_state_branching_ratio, 1.0, rtol=1e-13, same_shape=False, sig=(kind, "branching"))
        ctx.check("final state: default", o.final_state is None, sig=(kind, "none"), got=repr(o.final_state))
        self.equal(ctx, "final state: forms", [("left out", see(o)), ("None", see(cls(*a, None))), ("None by name", see(cls(*a, final_state=None))), ("names", see(cls(**names)))], (kind, "none"))
        f = cls(*a, final)
        self.equal(ctx, "final state: forms", [("position", see(f)), ("name", see(cls(*a, final_state=final))), ("names", see(cls(final_state=final, **names)))], (kind, "given"))
        ctx.close("final state: forms", f.final_state_branching_ratio, b, rtol=1e-12, same_shape=False, sig=(kind, "branching"))

        x = E - o.resonance_energy
        self.equal(ctx, "absolute energy: default", [("left out", o(E)), ("True", o(E, True)), ("True by name", o(E, input_is_absolute_energy=True))], (kind,))
        ctx.close("absolute energy: default", o(E), I * sh.line.pdf(E), atol=I * sh.line.pdf_tol(E, 6e-9), sig=(kind, "model"))
        self.equal(ctx, "absolute energy: forms", [("False", o(x, False)), ("False by name", o(x, input_is_absolute_energy=False))], (kind,))
        ctx.close("absolute energy: forms", o(x, False), I * sh.line.pdf(x + o.resonance_energy), atol=I * sh.line.pdf_tol(E, 6e-9), sig=(kind, "model"))

        R = lib.Resonance
        r0 = R(init, exc)
        rec = lib.FreeNucleusRecoil(amu)
        dE = p["E_x"] - p["E_i"]
        ctx.close("recoil: default", r0.resonance_energy, dE, rtol=1e-14, same_shape=False, sig=("none",))
        x = np.array([-0.3, 0.0, 0.4])

        def see(r):
            return np.concatenate([r(x, False), [r.resonance_energy, r.energy_integrated_cross_section]])

        n = lib.NoRecoil()
        self.equal(ctx, "recoil: default", [("left out", see(r0)), ("given", see(R(init, exc, None, n))), ("name", see(R(init, exc, recoil_correction=n))),
                                           ("abstract", see(R(init, exc, recoil_correction=lib.Recoil())))], ("none",))
        r1 = R(init, exc, None, rec)
        ctx.close("recoil: forms", r1.resonance_energy, M.recoil_energy(dE, amu), rtol=1e-13, same_shape=False, sig=("free",))
        self.equal(ctx, "recoil: forms", [("position", see(r1)), ("name", see(R(init, exc, recoil_correction=rec))), ("names", see(R(init, exc, final_state=None, recoil_correction=lib.FreeNucleusRecoil(amu=amu))))], ("free",))
        self.equal(ctx, "recoil: forms", [("position", see(R(init, exc, final, rec))), ("name", see(R(init, exc, final, recoil_correction=rec))), ("names", see(R(init, exc, recoil_correction=rec, final_state=final)))], ("free, final",))

    def table(self, ctx, g, lib, i):
        w = World(ctx)
        n = g.integer(2, 30)
        e = np.cumsum(g.r.uniform(0.01, 0.5, n)) + 1e-3
        rows = ["{:.5E}  {:.3E}  {:.3E} ".format(a, b, c) for a, b, c in zip(e, 10.0 ** g.r.uniform(-3, 3, n), 10.0 ** g.r.uniform(-3, 3, n))]
        vals = np.array([[float(v) for v in r.split()] for r in rows])
        if g.chance(0.5):
            rows = ["   " + r for r in rows]
        path = os.path.join(self.dir, "t{}.txt".format(i))
        with open(path, "w") as f:
            f.write("\n".join(rows) + "\n")
        ke, kx = g.choice([1e3, 2.0, 1e-3]), g.choice([1e26, 0.5, 7.0])
        fe, fx = (lambda v: ke * v), (lambda v: kx * v)
        X = lib.XRMAC
        E = np.exp(g.r.uniform(np.log(e[0] / 2), np.log(e[-1] * 2), 6))
        ctx.note(n=n, factors=(ke, kx))
        plain = X(path)
        lo, hi = M.loglog_array(vals[:, :2], E)
        ctx.close("conversions: default", plain(E), 0.5 * (lo + hi), rtol=1e-9, sig=(n,))
        ctx.close("conversions: default", plain.data, vals, rtol=1e-15, sig=(n, "data"))
        one = lambda v: v
        self.equal(ctx, "conversions: default", [("left out", plain(E)), ("identity", X(path, one, one)(E)), ("names", X(path, xrmac_conversion=one, energy_conversion=one)(E)),
                                                ("array", X(vals)(E)), ("array of two columns", X(vals[:, :2].copy())(E)), ("name", X(data=path)(E))], (n,))
        both = X(path, fe, fx)
        ctx.close("conversions: forms", both.data, vals * np.array([ke, kx, kx]), rtol=1e-14, sig=(n, ke, kx))
        self.equal(ctx, "conversions: forms", [("position", both(ke * E)), ("name", X(path, fe, xrmac_conversion=fx)(ke * E)), ("names", X(xrmac_conversion=fx, data=path, energy_conversion=fe)(ke * E))], (ke, kx))
        self.equal(ctx, "conversions: forms", [("position", X(path, fe)(ke * E)), ("name", X(path, energy_conversion=fe)(ke * E))], (ke,))
        self.equal(ctx, "conversions: forms", [("position", X(path, one, fx)(E)), ("name", X(path, xrmac_conversion=fx)(E))], (kx,))
        os.remove(path)

    def parts(self, ctx, g, lib, i):
        amu, Z = g.num(1, 250), g.integer(1, 118)
        s0, s1 = lib.GroundState("0", 0, 1), lib.State("1", 2, -1, 1.0, {"0": 1e-6})
        a, b, c, d = lib.Isotope("4Xx", amu), lib.Isotope("4Xx", amu, ground_state=s0), lib.Isotope("4Xx", amu, excited_states=[s1]), lib.Isotope("4Xx", amu, s0, [s1])
        got = [(o.ground_state, list(o.excited_states)) for o in (a, b, c, d)]
        want = [(None, []), (s0, []), (None, [s1]), (s0, [s1])]
        for k, (x, y) in enumerate(zip(got, want)):
            ctx.check("isotope: default", x[0] is y[0] and len(x[1]) == len(y[1]) and all(p is q for p, q in zip(x[1], y[1])), sig=(k,), got=repr(x))
        iso, ab = {"4Xx": a}, {"4Xx": 1.0}
        rho = g.num(1e-4, 30)
        es = [lib.Element(Z, "Xx", iso, ab), lib.Element(Z, "Xx", iso, ab, None), lib.Element(Z, "Xx", iso, ab, density=rho), lib.Element(Z, "Xx", iso, ab, rho)]
        ctx.check("element: default", [e.density for e in es] == [None, None, rho, rho], sig=(Z,), got=[e.density for e in es])
        k = g.choice([1e3, 0.5, 3.0])
        path = os.path.join(self.dir, "d{}.txt".format(i))
        with open(path, "w") as f:
            f.write("X  1.5\nXx {}\n".format(rho))
        D = lib.Geant4DensityDataReader
        ctx.note(density=rho)
        for label, r in (("left out", D(path)), ("name", D(density_data_file_name=path)), ("identity", D(path, lambda v: v))):
            ctx.close("density conversion: default", r.read_density_data("Xx"), rho, rtol=1e-15, same_shape=False, sig=(label,))
        for label, r in (("position", D(path, lambda v: k * v)), ("name", D(path, density_conversion=lambda v: k * v))):
            ctx.close("density conversion: forms", r.read_density_data("Xx"), k * rho, rtol=1e-15, same_shape=False, sig=(label, k))
        os.remove(path)

    def total(self, ctx, g, lib, i):
        w = World(ctx)
        n = g.integer(1, 5)
        parts = [w.cross_section() for _ in range(n)]
        fs = [g.choice([g.num(1e-3, 1e3), g.integer(1, 9)]) for _ in parts]
        S = lib.CrossSectionWeightedSum
        E = np.exp(g.r.uniform(np.log(0.01), np.log(30), 5))
        lim = (0.02, 20.0)
        ctx.note(n=n, factors=fs)

        def see(s):
            return np.concatenate([np.zeros(5) + s(E), s.equidistant_energy_grid(lim, 4)])

        ones = [("ones", see(S(list(parts), [1.0] * n))), ("left out", see(S(list(parts)))), ("name", see(S(reactions=list(parts)))), ("None", see(S(list(parts), None)))]
        self.equal(ctx, "sum: default", ones, (n,))
        ctx.close("sum: default", S(list(parts))(E), sum(np.asarray(c(E)) for c in parts), rtol=1e-12, sig=(n, "values"))
        for label, s in (("nothing", S()), ("empty", S([], [])), ("empty reactions", S([]))):
            ctx.check("sum: default", list(s.reactions) == [] and list(s.scale_factors) == [], sig=(label,))
            t = s + parts[0]
            ctx.close("sum: default", t(E), parts[0](E), rtol=RTOL, same_shape=False, sig=(label, "added"))
            ctx.check("sum: default", list(s.reactions) == [] and list(S().reactions) == [], sig=(label, "again"))
        self.equal(ctx, "sum: forms", [("position", see(S(list(parts), list(fs)))), ("name", see(S(list(parts), scale_factors=list(fs)))), ("names", see(S(scale_factors=list(fs), reactions=list(parts))))], (n,))

    def integral(self, ctx, g, lib, i):
        Q = lib.quad_partition
        n = g.integer(2, 6)
        x = np.cumsum(g.r.uniform(0.1, 1, n)) - 1
        a, b, c = g.u(-2, 2), g.u(0.1, 2), g.u(0.2, 2)
        f = lambda t: np.cos(b * t) + a
        want = (np.sin(b * x[-1]) - np.sin(b * x[0])) / b + a * (x[-1] - x[0])
        scale = (1 + abs(a)) * (x[-1] - x[0])
        ctx.note(x=x)
        r = Q(f, x)
        ctx.close("integration: default", r[0], want, atol=1e-8 * scale, same_shape=False, sig=(n,))
        self.equal(ctx, "integration: default", [("left out", r), ("empty", Q(f, x, [])), ("None", Q(f, x, None)), ("empty by name", Q(f, x, x1_to_xn_minus_1=[])), ("names", Q(x0=x, f=f))], (n,))
        h = lambda t, u: (np.cos(b * t) + a) * np.exp(-c * u)
        lim = [[0.0, g.u(0.5, 2)]]
        r = Q(h, x, lim)
        ctx.close("integration: forms", r[0], want * (1 - np.exp(-c * lim[0][1])) / c, atol=1e-7 * scale, same_shape=False, sig=(n,))
        self.equal(ctx, "integration: forms", [("position", r), ("name", Q(h, x, x1_to_xn_minus_1=lim)), ("names", Q(x1_to_xn_minus_1=lim, x0=x, f=h))], (n,))
