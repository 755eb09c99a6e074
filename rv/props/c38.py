import math
import warnings

import numpy as np

from rv import model as M
from rv.base import Property as Base
from rv.monitors import bucket
from rv.props.c19 import DATA, SYM
from rv.props.c25 import REF as DEBYE

NODES, WEIGHTS = np.polynomial.legendre.leggauss(24)
SYMBOLS = {
    v["X"]: int(Z) for Z, v in SYM.items()
    if Z in DATA and Z != "19" and v["isotopes"] and DEBYE.get(v["X"]) and any(a > 0 for _, a in v["isotopes"].values())
}
# Self-absorption experiment on lithium carbonate (doi 10.1103/PhysRevLett.126.102501)
WIDTH, R, DR = 8.17e-6, 0.5192, 0.0020


def gauss(f, grid, centre, w):
    """Integral of a function of the energy over the range of a grid, for a line with a given centre and width"""
    u = np.arcsinh((grid - centre) / w)
    u = np.interp(np.arange(0, len(u) - 0.75, 0.25), np.arange(len(u)), u)
    a, b = u[:-1, None], u[1:, None]
    v = 0.5 * (a + b) + 0.5 * (b - a) * NODES
    return float(np.sum(0.5 * (b - a) * WEIGHTS * f(centre + w * np.sinh(v)) * w * np.cosh(v)))


class Layer:
    """Reference model of a homogeneous layer"""

    def __init__(self, Z, line, strength, x, compton):
        self.line, self.I, self.x, self.Z, self.compton = line, strength, x, Z, compton
        el = SYM[str(Z)]
        self.f = 1e26 * sum(m * a for m, a in el["isotopes"].values()) * M.U_KG * 1e3
        self.table = np.array([r[:2] for r in DATA[str(Z)]])

    def nr(self, E):
        if self.compton:
            return M.kn_total_fast(E, self.Z, M.ME)
        s = np.shape(E)
        return M.loglog_array(self.table, np.ravel(E))[0].reshape(s) * self.f

    def r(self, E):
        return self.x * self.I * self.line.pdf(E)

    def rate(self, E, rho):
        """Resonant reactions per incident photon and energy"""
        t = self.nr(E) + self.r(E)
        return self.r(E) / t * -np.expm1(-t * rho)


class Property(Base):
    rule = (
        "A case is one layer of a real element at a generated temperature with one resonance of one of its isotopes. Distinct: "
        "line shape, element, optical thickness, kind of nonresonant cross section, dimensions of the integral."
    )
    deciding = ["reaction rate", "photon balance", "layers add up", "thin and thick targets", "self-absorption experiment"]
    quick_cases = 240
    thorough_cases = 1500

    def setup(self, ctx):
        self.experiments = 0

    def experiment(self, ctx):
        """Relative self-absorption of 6Li, as in the publication and with other widths and masses"""
        g, lib = ctx.g, ctx.lib
        first = self.experiments == 0
        self.experiments += 1
        T = 411.0 if first else g.u(250, 600)
        width = WIDTH if first else WIDTH * g.logu(0.05, 20)
        f = 1.0 if first else g.logu(0.05, 20)
        li = lib.natural_elements["Li"].isotopes
        m6, m7 = (SYM["3"]["isotopes"][k][0] for k in ("6Li", "7Li"))
        mass = {e["X"]: sum(m * a for m, a in e["isotopes"].values()) for e in (SYM["6"], SYM["8"])}
        molar = 2 * (0.95 * m6 + 0.05 * m7) + mass["C"] + 3 * mass["O"]
        molar_lib = 2 * (0.95 * li["6Li"].amu + 0.05 * li["7Li"].amu) + lib.natural_elements["C"].amu + 3 * lib.natural_elements["O"].amu
        ctx.close("self-absorption experiment", molar_lib, molar, rtol=1e-9, sig="molar mass")
        density = [2 * 0.95 * f * m / (molar_lib * M.U_KG * math.pi * (0.5 * 0.019 * 1e15) ** 2) for m in (9.938e-3, 5.033e-3)]
        nucleus = lib.Isotope("6Li", li["6Li"].amu, ground_state=lib.GroundState("1^+_1", 2, 1),
                              excited_states={"0^+_1": lib.State("0^+_1", 0, 1, 3.56288, {"1^+_1": width})})
        s = lib.Voigt(nucleus.ground_state, nucleus.excited_states["0^+_1"], nucleus.amu, T)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            grid = np.asarray(s.equidistant_probability_grid(0.999, 41)) - s.resonance_energy
        top = float(s(0.0, False))
        both = lib.quad_partition(lambda e: 1e6 * math.exp(-s(e * 1e-6, False) * density[0]) * -math.expm1(-s(e * 1e-6, False) * density[1]), grid * 1e6)
        one = lib.quad_partition(lambda e: 1e6 * -math.expm1(-s(e * 1e-6, False) * density[1]), grid * 1e6)
        got = 1 - both[0] / one[0]
        line = M.Line("Voigt", 3.56288, width, m6, T)
        I = M.strength(3.56288, 2, 0, width, 1.0)
        sigma = lambda d: I * line.pdf_d(d)
        want = 1 - gauss(lambda d: np.exp(-sigma(d) * density[0]) * -np.expm1(-sigma(d) * density[1]), grid, 0.0, line.w) / gauss(
            lambda d: -np.expm1(-sigma(d) * density[1]), grid, 0.0, line.w)
        info = dict(T=T, width=width, thickness=f, peak=top)
        ctx.close("self-absorption experiment", got, want, atol=1e-6, sig=(bucket(width), bucket(f)), **info)
        if first:
            ctx.check("self-absorption experiment", abs(got - R) < DR, sig="published", got=got, published=R, **info)

    def case(self, ctx, i):
        if i % 8 == 0:
            return self.experiment(ctx)
        g, lib = ctx.g, ctx.lib
        sym = g.choice(sorted(SYMBOLS))
        Z = SYMBOLS[sym]
        el = lib.natural_elements[sym]
        name = g.choice([k for k, (m, a) in SYM[str(Z)]["isotopes"].items() if a > 0])
        iso = el.isotopes[name]
        m, x = SYM[str(Z)]["isotopes"][name]
        if g.chance(0.4):
            x = g.u(0.05, 1.0)
            mine = x
        else:
            mine = el.abundances[name]
        T0 = g.u(20, 900)
        T = float(lib.debye(T0, lib.room_temperature_T_D[sym]))
        E0, width = g.u(0.5, 12.0), g.logu(1e-9, 1e-3)
        ji, jx = 2 * g.integer(0, 4), 2 * g.integer(0, 4)
        b = g.u(0.1, 1.0)
        kind = g.choice(["BreitWigner", "Gauss", "PseudoVoigt", "Voigt"])
        init = lib.GroundState("g", ji, 1)
        exc = lib.State("x", jx, -1, E0, {"g": b * width, "other": (1 - b) * width})
        s = lib.BreitWigner(init, exc) if kind == "BreitWigner" else getattr(lib, kind)(init, exc, iso.amu, T)
        compton = g.chance(0.3)
        nr = lib.KleinNishina(Z) if compton else lib.xrmac_fm2_per_atom[sym]
        line = M.Line(kind, E0, width, m, M.debye(T0, DEBYE[sym]))
        ref = Layer(Z, line, M.strength(E0, ji, jx, b * width, 1.0), x, compton)
        peak = float(ref.r(E0))
        tau = g.logu(1e-4, 30)
        rho = tau / peak
        if float(ref.nr(np.array([E0]))[0]) * rho > 30:
            rho = 30 / float(ref.nr(np.array([E0]))[0])
        two = g.chance(0.2)
        n = 2 * g.integer(5, 9) + 1 if two else 2 * g.integer(6, 40) + 1
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            grid = np.asarray(s.equidistant_probability_grid(g.choice([0.99, 0.9, 0.95]), n))
        if grid[0] < 1e-2 or grid[-1] > 19.0:
            return
        unit = 1.0 / (ref.I * x * rho)  # Results of order one
        total = nr + mine * s
        info = dict(element=sym, isotope=name, kind=kind, E=E0, width=width, T=T, x=x, tau=tau, rho=rho, n=n, compton=compton)
        ctx.note(**info)
        # Rounding of energies, inversion of the Debye and atomic data
        noise = 64 * float(np.spacing(E0)) / line.w + 2e-6
        sig = (kind, sym, bucket(tau), compton, two)
        want = gauss(lambda E: ref.rate(E, rho), grid, E0, line.w) * unit

        def phi(E, rho):
            return math.exp(-total(E) * rho)

        def alpha(E, rho):
            return unit * rho0 * mine * s(E) * phi(E, rho * rho0)

        def closed(E):
            t, r = total(E), mine * s(E)
            return unit * r / t * -math.expm1(-t * rho)

        rho0 = rho
        if two:
            got = lib.quad_partition(alpha, grid, [[0.0, 1.0]])[0]
        else:
            got = lib.quad_partition(closed, grid)[0]
        ctx.close("reaction rate", got, want, atol=noise, sig=sig, **info)
        # Every photon is transmitted or absorbed
        every = np.exp(-np.asarray(total(grid)) * rho)
        product = np.exp(-np.asarray(nr(grid)) * rho) * np.exp(-mine * np.asarray(s(grid)) * rho)
        ctx.close("photon balance", every, product, rtol=1e-11, sig=sig, **info)
        # The layer as one sum, weighted by the numbers of nuclei per area
        layer = rho * nr + (rho * mine) * s
        ctx.close("photon balance", layer(grid), rho * np.asarray(total(grid)), rtol=1e-11, sig=sig + ("weights",), **info)
        model = np.exp(-(ref.nr(grid) + ref.r(grid)) * rho)
        depth = (ref.nr(grid) + ref.r(grid)) * rho
        slack = (3e-6 + 64 * np.spacing(grid) / line.w) * (1 + depth) * model
        ctx.close("photon balance", every, model, atol=slack + 1e-300, sig=sig + ("model",), **info)
        if two:
            return
        lost = lib.quad_partition(lambda E: unit * -math.expm1(-total(E) * rho), grid)[0]
        other = lib.quad_partition(lambda E: unit * nr(E) / total(E) * -math.expm1(-total(E) * rho), grid)[0]
        ctx.close("photon balance", got + other, lost, atol=1e-6 * max(1.0, lost), sig=sig + ("integral",), **info)
        # Two layers
        f = g.u(0.1, 0.9)
        r1, r2 = f * rho, (1 - f) * rho

        def part(E, before, thick):
            t, r = total(E), mine * s(E)
            return unit * math.exp(-t * before) * r / t * -math.expm1(-t * thick)

        first = lib.quad_partition(lambda E: part(E, 0.0, r1), grid)[0]
        second = lib.quad_partition(lambda E: part(E, r1, r2), grid)[0]
        ctx.close("layers add up", first + second, got, atol=1e-6, sig=sig, **info)
        # Limits
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            inside = float(line.cdf(grid[-1]) - line.cdf(grid[0])) if kind != "Voigt" else gauss(line.pdf, grid, E0, line.w)
        most = float(np.max(ref.nr(grid) + ref.r(grid))) * rho
        ok = got <= inside + noise and got >= inside * math.exp(-most) - noise and first <= got + noise
        ctx.check("thin and thick targets", ok, sig=sig, got=got, thin=inside, depth=most, first=first, **info)
