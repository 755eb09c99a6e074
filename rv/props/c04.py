import numpy as np

from rv import model as M
from rv.base import Property as Base
from rv.monitors import bucket
from rv.world import KINDS, World

GL = np.polynomial.legendre.leggauss(24)


def integrate(pdf, L, a, b):
    """Integral of an observed PDF between two energies, on panels adapted to the line"""
    cuts = {a, b}
    for k in range(-6, 9):
        for s in (-1.0, 1.0):
            for m in (1.0, 2.0, 5.0):
                x = L.E0 + s * m * 10.0 ** k * L.w
                if a < x < b:
                    cuts.add(x)
    if L.kind in ("Gauss", "PseudoVoigt", "Voigt"):
        sg = L.s if L.kind == "Gauss" else L.pv_s
        for m in np.arange(-40, 41):
            x = L.E0 + m * sg
            if a < x < b:
                cuts.add(x)
    if a < L.E0 < b:
        cuts.add(L.E0)
    if L.kind == "Resonance":
        for x in (L.E0 - 0.5, L.E0 + 0.5):
            if a < x < b:
                cuts.add(x)
    cuts = np.array(sorted(cuts))
    h = 0.5 * np.diff(cuts)
    m = 0.5 * (cuts[1:] + cuts[:-1])
    x = m[:, None] + h[:, None] * GL[0][None, :]
    y = np.asarray(pdf(x.ravel()), dtype=float).reshape(x.shape)
    return float(np.sum(h[:, None] * GL[1][None, :] * y))


class Property(Base):
    rule = (
        "A case is one resonance; its CDF is observed at many energies and compared with integrals of the observed "
        "cross section over generated intervals. Distinct: model, decades of relative width and of the interval, position of the interval."
    )
    deciding = ["cdf value", "monotonic from 0 to 1", "one half at the resonance", "increment is the integral", "unit area"]
    quick_cases = 1600
    thorough_cases = 16000

    def case(self, ctx, i):
        w = World(ctx)
        g = ctx.g
        kind = KINDS[i % 4] if g.chance(0.95) else "Resonance"
        if kind == "Resonance":
            p = g.level_scheme(E_lo=1e-2, E_hi=1e2)
            r = w.make(kind, w.initial(p), w.excited(p), 1, 1)
            sh = ctx.reg.get(r)
        else:
            r, sh = w.resonance(kind, rel_lo=1e-11)
        L = sh.line
        ctx.note(kind=kind, E_r=sh.E_r, width=sh.exc.width, amu=sh.amu, T=sh.T)
        D, par = r.probability_distribution, r.probability_distribution_parameters
        cdf = lambda E: D.cdf(E, *par)
        I = r.energy_integrated_cross_section
        relw = bucket(L.w / L.E0)

        E = np.sort(g.energies(L, 40))
        F = np.asarray(cdf(E), dtype=float)
        ctx.close("cdf value", F, L.cdf(E), atol=L.cdf_tol(E, 1e-10), sig=(kind, relw), E_r=L.E0)
        # Relative accuracy in the lower tail
        low = L.cdf(E) < 0.4
        if low.any():
            t = L.cdf_tol(E[low], 0.0) + 1e-9 * L.cdf(E[low]) + 2e-16
            ctx.close("cdf value", F[low], L.cdf(E[low]), atol=t, sig=(kind, relw, "tail"), E_r=L.E0)
        for k in range(2):
            e = float(g.choice(list(E)))
            ctx.close("cdf value", cdf(g.scalar_type(e)), L.cdf(e), atol=float(L.cdf_tol(e, 1e-10)), same_shape=False, sig=(kind, "scalar"))
        far = np.array([L.E0 - 1e12 * max(L.w, L.E0), L.E0 + 1e12 * max(L.w, L.E0), -np.inf, np.inf])
        Ff = np.asarray(cdf(far), dtype=float)
        ok = (
            np.all(np.diff(F) >= -4e-16) and np.all(F >= 0) and np.all(F <= 1)
            and abs(Ff[0]) < 1e-10 and abs(Ff[1] - 1) < 1e-10 and Ff[2] == 0 and abs(Ff[3] - 1) < 1e-15
        )
        ctx.check("monotonic from 0 to 1", ok, sig=(kind, relw), E=E, F=F, far=Ff)
        ctx.close("one half at the resonance", cdf(r.resonance_energy), 0.5, atol=1e-12 + float(L.cdf_tol(L.E0, 0)), same_shape=False, sig=(kind, relw))
        d = L.w * 10.0 ** g.r.uniform(-4, 4, 8)
        a, b = np.asarray(cdf(L.E0 - d)), np.asarray(cdf(L.E0 + d))
        ctx.close("symmetric", a, 1 - b, atol=1e-12 + L.cdf_tol(L.E0 - d, 0) + L.cdf_tol(L.E0 + d, 0), sig=(kind, relw))

        if I <= 0 or L.w / L.E0 < 1e-10:
            # Zero strength: the cross section carries no information about the profile.
            # Very narrow lines: double-precision energies do not resolve the panels.
            return
        pdf = lambda E: np.asarray(r(E), dtype=float) / I
        wide = 1e7 * L.w
        # Unit area, with the analytic remainder of the Lorentzian tails
        if kind == "Resonance":
            ctx.close("unit area", integrate(pdf, L, L.E0 - 2, L.E0 + 2), 1.0, atol=1e-6, sig=(kind, relw))
        else:
            n = integrate(pdf, L, L.E0 - wide, L.E0 + wide)
            ctx.close("unit area", n, 1.0, atol=1e-6, sig=(kind, relw), E_r=L.E0)
        for k in range(4):
            mode = int(g.r.integers(4))
            if mode == 0:
                x = L.w * g.r.uniform(-8, 8, 2)
            elif mode == 1:
                x = g.choice([-1, 1]) * L.w * 10.0 ** g.r.uniform(0, 5, 2)
            elif mode == 2:
                c = L.w * g.u(-5, 5)
                x = np.array([c, c + L.w * g.logu(1e-4, 1)])
            else:
                x = L.w * np.array([-g.logu(1e-2, 1e6), g.logu(1e-2, 1e6)])
            a, b = L.E0 + np.sort(x)
            if not a < b:
                continue
            n = integrate(pdf, L, a, b)
            inc = float(cdf(b)) - float(cdf(a))
            tol = 1e-9 + float(L.cdf_tol(a, 0) + L.cdf_tol(b, 0)) + 1e-6 * inc
            if kind == "Voigt":
                tol += 0.01
            if kind == "Resonance":
                tol += 1e-6
            ctx.close("increment is the integral", inc, n, atol=tol, sig=(kind, mode, relw), a=a, b=b, E_r=L.E0)
