import numpy as np

from rv import model as M
from rv.base import Property as Base
from rv.monitors import bucket, value_monitor
from rv.shadow import ResonanceShadow
from rv.world import KINDS, World


class Property(Base):
    rule = (
        "A case is one resonance evaluated at many energies (centre, flanks, wings, mirrored pairs, relative "
        "energies). Distinct: model, decades of energy and relative width, dimension of the input, absolute or relative."
    )
    deciding = [
        "profile", "symmetric", "finite and nonnegative", "relative equals absolute",
        "mixture close to convolution", "convolution integral",
    ]
    assumptions = ["Faddeeva function of scipy.special as reference, cross-checked by quadrature of the convolution"]
    quick_cases = 2400
    thorough_cases = 30000

    def setup(self, ctx):
        value_monitor(ctx, "profile", kinds=ResonanceShadow)

    def case(self, ctx, i):
        w = World(ctx)
        g = ctx.g
        kind = KINDS[i % 4] if g.chance(0.95) else "Resonance"
        if kind == "Resonance":
            p = g.level_scheme(E_lo=1e-2, E_hi=1e2)
            r = w.make(kind, w.initial(p), w.excited(p), 1, 1)
            sh = ctx.reg.get(r)
        else:
            r, sh = w.resonance(kind, final=True)
        L = sh.line
        ctx.note(kind=kind, E_r=sh.E_r, width=sh.exc.width, amu=sh.amu, T=sh.T)
        I = r.energy_integrated_cross_section
        E = g.layout(g.energies(L))
        v = np.asarray(r(E), dtype=float)
        ctx.check("finite and nonnegative", np.all(np.isfinite(v)) and np.all(v >= 0), kind=kind, E=E, v=v)
        if g.chance(0.3):
            shape = g.choice([(2, 3), (3, 1), (1, 4), (2, 2, 2)])
            r(g.energies(L, int(np.prod(shape))).reshape(shape))
        # Mirrored pairs
        d = np.concatenate([[0.0], L.w * 10.0 ** g.r.uniform(-3, 4, 6), L.w * g.r.uniform(0, 6, 6)])
        up, down = r.resonance_energy + d, r.resonance_energy - d
        a, b = np.asarray(r(up)), np.asarray(r(down))
        tol = I * (L.pdf_tol(up) + L.pdf_tol(down))
        ctx.close("symmetric", a, b, atol=tol, sig=(kind, bucket(L.w / sh.E_r)), E_r=sh.E_r, d=d)
        # Evaluation relative to the resonance
        rel = np.concatenate([d, -d])
        x = np.asarray(r(rel, input_is_absolute_energy=g.flag(False)), dtype=float)
        y = np.asarray(r(np.concatenate([up, down]), g.flag(True)), dtype=float)
        ctx.close("relative equals absolute", x, y, atol=np.concatenate([tol, tol]), sig=(kind, bucket(L.w / sh.E_r)), d=rel)
        # Equal and special values: the line monitor compares every call
        r(g.layout(g.degenerate(sh.E_r)))
        r(g.layout(g.degenerate(L.w)), g.flag(False))
        for k in range(3):
            e = float(g.choice(list(E)))
            t = g.scalar_type(e)
            s = r(t)
            ctx.check("scalar for scalar", np.ndim(s) == 0, E=e)
            z = g.scalar_type(float(g.choice(list(rel))))
            r(z, g.flag(False))
        if kind == "PseudoVoigt" and I > 0:
            e = L.E0 + L.w * np.concatenate([np.linspace(-8, 8, 81), g.r.uniform(-100, 100, 20)])
            pv = np.asarray(r(e), dtype=float) / I
            ex = M.voigt_pdf(e - L.E0, L.s, L.g)
            peak = float(M.voigt_pdf(np.array(0.0), L.s, L.g))
            ctx.close(
                "mixture close to convolution", pv, ex, atol=0.013 * peak + L.pdf_tol(e),
                sig=bucket(L.g / L.s), E_r=L.E0, g=L.g, s=L.s,
            )
        if kind == "Voigt" and I > 0 and 1e-3 < L.g / L.s < 1e3 and L.w / L.E0 > 1e-9:
            for x in (0.0, L.w * g.u(0, 4), L.w * g.logu(1, 300)):
                e = L.E0 + x
                c = M.voigt_pdf_convolution(e - L.E0, L.s, L.g)
                ctx.close(
                    "convolution integral", r(e) / I, c, rtol=1e-6, atol=float(L.pdf_tol(e)),
                    sig=(bucket(L.g / L.s), bucket(x / L.w) if x else 0), x=x, g=L.g, s=L.s,
                )
