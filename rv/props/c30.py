import math

import numpy as np

from rv.base import Property as Base
from rv.world import KINDS, World


class Property(Base):
    rule = (
        "A case is one function with array arguments, evaluated for one generated set of values as array (several shapes, "
        "layouts and dtypes), together with arrays of other shapes for the other arguments, as permuted, reversed, split and transposed array, and element by element. "
        "Distinct: function, class of the length, dimensions, transformation."
    )
    deciding = ["shape", "array equals scalars", "permutation", "reversal", "splitting", "reshaping", "memory layout", "integers", "scalar gives scalar", "length one", "broadcasting"]
    quick_cases = 2400
    thorough_cases = 30000
    assumptions = ["Equality up to 1e-11 relative (vectorised and scalar code of numpy may round differently); for quantiles of the approximate Doppler-broadened line up to the accuracy of its inversion."]

    def functions(self, ctx, w):
        """(label, function of one array, generator of values, slack, dimensions allowed)"""
        g, lib = ctx.g, ctx.lib
        k = int(g.r.integers(20))
        if k < 5:
            kind = KINDS[k % 4]
            r, sh = w.resonance(kind, E_lo=1e-2, E_hi=1e2, rel_lo=1e-10)
            L = sh.line
            which = int(g.r.integers(3))
            if which == 0:
                # Amplification of rounding where E is close to E_r
                def slack(x, v):
                    return sh.I * L.pdf_tol(x, 1e-11)
                return kind + " evaluation", lambda x: r(x), lambda n: np.abs(L.E0 + L.w * g.r.normal(0, 4, n)), slack, 3, (L.E0,)
            if which == 1:
                def slack(x, v):
                    return sh.I * L.pdf_tol(L.E0 + x, 1e-11)
                return kind + " relative", lambda x: r(x, False), lambda n: L.w * g.r.normal(0, 4, n), slack, 3, (0.0, 1.0)
            D, par = r.probability_distribution, r.probability_distribution_parameters

            def slack(x, v):
                return L.cdf_tol(x, 1e-13)
            return kind + " cumulative", lambda x: D.cdf(x, *par), lambda n: np.abs(L.E0 + L.w * g.r.normal(0, 4, n)), slack, 3, (1.0, 2.0, float(np.ceil(L.E0)))
        if k < 8:
            kind = KINDS[int(g.r.integers(4))]
            r, sh = w.resonance(kind, E_lo=1e-2, E_hi=1e2, rel_lo=1e-9)
            L = sh.line
            D, par = r.probability_distribution, r.probability_distribution_parameters

            def slack(x, v):
                v = np.asarray(v, dtype=float)
                dens = np.maximum(L.pdf_d(v - L.E0), 1e-300)
                return 2 * L.resolution(v) + (1e-7 * np.abs(v - L.E0) + 1e-7 * L.w + 1e-13 / dens if kind in ("PseudoVoigt", "Voigt") else 1e-9 * L.w)
            return kind + " quantile", lambda q: D.ppf(q, *par), lambda n: g.r.uniform(1e-3, 1 - 1e-3, n), slack, 1, ()
        rel = lambda x, v: 1e-11 * np.abs(v) + 1e-300
        if k < 12:
            kn = lib.KleinNishina(g.integer(1, 90)) if g.chance(0.6) else lib.KleinNishina(g.integer(1, 90), g.num(0.1, 900.0))
            m = float(kn.mc2) if hasattr(kn, "mc2") else 0.511
            E = g.logu(1e-3, 1e3) * m
            e = float(kn.compton_edge(E))
            th = lambda n: g.r.uniform(0, math.pi, n)
            ep = lambda n: e + (E - e) * g.r.uniform(0.001, 0.999, n)
            ph = g.u(0, 6)
            t0 = g.u(0, math.pi)
            en = lambda n: m * 10 ** g.r.uniform(-6, 4, n)
            loose = lambda x, v: 1e-9 * np.abs(v) + 1e-9 * np.max(np.abs(v))
            return g.choice([
                ("KN total", lambda x: kn(x), en, lambda x, v: 2e-8 * np.abs(v), 3, (1.0, 2.0, 10.0)),
                ("KN ratio of angle", lambda t: kn.Ep_over_E(E, t), th, rel, 3, (1.0, 2.0)),
                ("KN ratio of energy", lambda x: kn.Ep_over_E(x, t0), en, rel, 3, (1.0, 2.0)),
                ("KN edge", lambda x: kn.compton_edge(x), en, rel, 3, (1.0, 2.0)),
                ("KN angle of energy", lambda x: kn.theta(x, m), lambda n: m * (1 + 10 ** g.r.uniform(-3, 3, n)), lambda x, v: 1e-6 + 0 * v, 3, ()),
                ("KN scattered, of energy", lambda x: kn.cs_diff_dEp(x, m), lambda n: m * (1 + 10 ** g.r.uniform(-2, 3, n)), lambda x, v: 1e-6 * np.max(np.abs(v)) + 0 * v, 3, ()),
                ("KN angle", lambda x: kn.theta(E, x), ep, lambda x, v: 1e-6 + 0 * v, 3, ()),
                ("KN solid angle", lambda t: kn.cs_diff_dOmega(E, t, ph), th, lambda x, v: 1e-9 * np.max(np.abs(v)) + 0 * v, 3, (1.0, 2.0)),
                ("KN azimuth", lambda p: kn.cs_diff_dOmega(E, t0, p), th, lambda x, v: 1e-9 * np.max(np.abs(v)) + 0 * v, 3, (1.0, 2.0)),
                ("KN energy", lambda x: kn.cs_diff_dOmega(x, t0, ph), en, loose, 3, (1.0, 2.0)),
                ("KN unpolarised", lambda t: kn.cs_diff_dOmega_unpolarized(E, t), th, rel, 3, (1.0, 2.0)),
                ("KN polar angle", lambda t: kn.cs_diff_dtheta(E, t), th, lambda x, v: 1e-11 * np.max(np.abs(v)) + 0 * v, 3, (1.0, 2.0)),
                ("KN scattered energy", lambda x: kn.cs_diff_dEp(E, x), ep, lambda x, v: 1e-6 * np.max(np.abs(v)) + 0 * v, 3, ()),
                ("KN scattered energy and azimuth", lambda x: kn.cs_diff_dEp_dphi(E, x, ph), ep, lambda x, v: 1e-6 * np.max(np.abs(v)) + 0 * v, 3, ()),
            ])
        if k < 15:
            if g.chance(0.5):
                x = g.choice(list(g.choice([lib.xrmac_cm2_per_g, lib.xrmac_fm2_per_atom]).values()))
                gen = lambda n: 10 ** g.r.uniform(-3.3, 1.5, n)
                return "shipped table", lambda E: x(E), gen, lambda E, v: 1e-9 * np.abs(v) + 1e-300, 3, (1.0, 2.0, 10.0)
            tab = w.table()
            x = lib.XRMAC(tab)
            lo, hi = np.log(tab[0, 0]) - 0.3, np.log(tab[-1, 0]) + 0.3
            return "table", lambda E: x(E), lambda n: np.exp(g.r.uniform(lo, hi, n)), lambda E, v: 1e-9 * np.abs(v), 3, ()
        if k < 17:
            parts = [w.cross_section() for _ in range(g.integer(1, 5))]
            s = parts[0] * g.u(0.5, 2)
            for p in parts[1:]:
                s = s + p * g.u(-1, 2)
            if g.chance(0.3):
                s = s + 2
            sh = ctx.reg.get(s)
            c = g.logu(0.1, 10)

            def slack(x, v):
                return 2 * sh.value(x)[1] + 1e-12 * np.abs(v)
            return "sum", lambda E: s(E), lambda n: c * (1 + 0.5 * g.r.uniform(-1, 1, n)), slack, 3, (1.0, 2.0)
        if k == 17:
            c = w.constant()
            return "constant", lambda E: c(E), lambda n: g.r.uniform(0, 9, n), rel, 3, (1.0, 2.0)
        mb = lib.MaxwellBoltzmann(g.amu(), g.temperature())
        D = g.u(30, 1500)
        pos = lambda n: g.r.uniform(0.1, 900, n)
        return g.choice([
            ("Doppler width", lambda E: mb.get_doppler_width(E), pos, rel, 3, (1.0, 2.0)),
            ("Doppler inverse", lambda d: lib.MaxwellBoltzmann.get_effective_temperature(d, 12.0, 3.0), pos, rel, 3, (1.0, 2.0)),
            ("Debye", lambda T: lib.debye(T, D), pos, lambda x, v: 1e-7 * np.abs(v), 2, (300.0, 77.0)),
        ])

    def broadcast(self, ctx):
        """Functions of several arguments that are arrays of different, compatible shapes"""
        g, lib = ctx.g, ctx.lib
        kn = lib.KleinNishina(g.integer(1, 90), g.num(0.1, 900.0))
        m = float(kn.mc2)
        n, k = g.integer(1, 4), g.integer(1, 5)
        E = m * (1 + 10 ** g.r.uniform(-1, 2, (n, 1)))
        Ep = m * (1 - 0.4 * g.r.random(k))  # Between all Compton edges and energies
        th, ph = g.r.uniform(0.01, 3.1, k), g.r.uniform(0, 6, (2, 1, 1))
        T, D = g.r.uniform(10, 900, (n, 1)), g.r.uniform(50, 900, k)
        label, f, args, rtol = g.choice([
            ("ratio", kn.Ep_over_E, (E, th), 1e-11), ("angle", kn.theta, (E, Ep), 1e-6),
            ("solid angle", kn.cs_diff_dOmega, (E, th, ph), 1e-8), ("unpolarised", kn.cs_diff_dOmega_unpolarized, (E, th), 1e-11),
            ("polar angle", kn.cs_diff_dtheta, (E, th), 1e-11), ("scattered energy", kn.cs_diff_dEp, (E, Ep), 1e-6),
            ("scattered energy and azimuth", kn.cs_diff_dEp_dphi, (E, Ep, ph), 1e-6),
            ("Debye", lib.debye, (T, D), 1e-7),
            ("Doppler inverse", lambda d, E: lib.MaxwellBoltzmann.get_effective_temperature(d, 12.0, E), (T, D), 1e-11),
        ])
        y = f(*[a.copy() for a in args])
        full = np.broadcast_arrays(*args)
        want = np.array([float(f(*[float(v) for v in t])) for t in zip(*[a.ravel() for a in full])]).reshape(full[0].shape)
        ctx.close("broadcasting", y, want, rtol=rtol, atol=rtol * np.max(np.abs(want)), sig=(label, full[0].shape), function=label)
        # One array only, in each place
        j = int(g.r.integers(len(args)))
        mixed = [a if i == j else float(a.ravel()[0]) for i, a in enumerate(args)]
        want = np.array([float(f(*[float(v) if i == j else mixed[i] for i in range(len(args))])) for v in args[j].ravel()]).reshape(args[j].shape)
        ctx.close("broadcasting", f(*mixed), want, rtol=rtol, atol=rtol * np.max(np.abs(want)), sig=(label, j), function=label)

    def case(self, ctx, i):
        g = ctx.g
        if g.chance(0.06):
            return self.broadcast(ctx)
        w = World(ctx)
        label, f, gen, slack, dims, whole = self.functions(ctx, w)
        n = g.choice([1, 2, 3, 5, 8, 16, 24, 60, 200, g.sizes(300), g.sizes(300), 2 ** g.integer(0, 8)]) if g.chance(0.93) else (g.sizes(20000) if g.chance(0.8) else g.huge())
        if label == "Debye":
            n = min(n, 16)
        x = np.asarray(gen(n), dtype=float)
        ctx.note(function=label, n=n)
        sig = (label, int(np.log2(n)))
        keep = x.copy()
        y = np.asarray(f(x), dtype=float)
        if not ctx.check("shape", y.shape == x.shape and isinstance(f(x), np.ndarray), sig=sig, function=label, shape=y.shape, expected=x.shape):
            return
        tol = np.asarray(slack(keep, y), dtype=float) * np.ones(n)
        # Element by element
        for j in ([0, n - 1] + g.r.integers(0, n, 4).tolist()):
            v = g.choice([float, np.float64])(keep[j])
            s = f(v)
            ctx.check("scalar gives scalar", np.ndim(s) == 0, sig=(label,), function=label, got=s)
            ctx.close("array equals scalars", np.asarray(s, dtype=float).ravel()[:1], y[j:j + 1], atol=tol[j:j + 1], sig=sig, function=label, x=v, index_in_array=j, length=n)
        one = f(keep[:1].copy())
        ctx.close("length one", one, y[:1], atol=tol[:1], sig=sig, function=label)
        if dims > 1:
            j = int(g.r.integers(n))
            zero = np.asarray(f(np.array(keep[j])), dtype=float)
            ctx.check("scalar gives scalar", zero.ndim == 0, sig=(label, "0-d"), function=label, got=zero)
            ctx.close("array equals scalars", zero.ravel()[:1], y[j:j + 1], atol=tol[j:j + 1], sig=(label, "0-d"), function=label, x=keep[j])
        j, k = int(g.r.integers(n)), g.integer(2, 5)
        ctx.close("array equals scalars", f(np.full(k, keep[j])), np.full(k, y[j]), atol=np.full(k, tol[j]), sig=(label, "all equal"), function=label, x=keep[j], length=k)
        if label not in ("Debye", "PseudoVoigt quantile", "Voigt quantile"):
            for shape in ((0,), (0, 3)) if dims > 1 else ((0,),):
                ctx.check("shape", np.shape(f(np.zeros(shape))) == shape, sig=(label, "empty", len(shape)), function=label, expected=shape)
        p = g.r.permutation(n)
        ctx.close("permutation", f(keep[p]), y[p], atol=tol[p], sig=sig, function=label)
        ctx.close("reversal", f(keep[::-1]), y[::-1], atol=tol[::-1], sig=sig, function=label)
        k = int(g.r.integers(0, n)) if n > 1 else 0
        if 0 < k < n:
            ctx.close("splitting", np.concatenate([f(keep[:k].copy()), f(keep[k:].copy())]), y, atol=tol, sig=sig, function=label)
            ctx.close("splitting", f(np.concatenate([keep, keep[:k]])), np.concatenate([y, y[:k]]), atol=np.concatenate([tol, tol[:k]]), sig=sig + ("doubled",), function=label)
        for _ in range(2):
            ctx.close("memory layout", f(g.layout(keep)), y, atol=tol, sig=sig, function=label)
        if dims > 1:
            shapes = [(1, n), (n, 1)]
            for d in (2, 3, 5):
                if n % d == 0:
                    shapes.append((d, n // d))
            if dims > 2:
                shapes.append((1, n, 1))
                if n % 4 == 0:
                    shapes.append((2, 2, n // 4))
            sh = g.choice(shapes)
            X = keep.reshape(sh)
            ctx.close("reshaping", f(X.copy()), y.reshape(sh), atol=tol.reshape(sh), sig=sig + (sh if n < 9 else len(sh),), function=label, to=sh)
            ctx.close("reshaping", f(np.asfortranarray(X)), y.reshape(sh), atol=tol.reshape(sh), sig=sig + ("F", len(sh)), function=label, to=sh)
            ctx.close("reshaping", f(X.T), y.reshape(sh).T, atol=tol.reshape(sh).T, sig=sig + ("T", len(sh)), function=label, to=sh)
        # Integral values as integers of different types
        ints = np.array([v for v in whole if v == int(v)] or [])
        if len(ints):
            yf = np.asarray(f(ints.astype(float)), dtype=float)
            tf = np.asarray(slack(ints, yf), dtype=float) * np.ones(len(ints))
            for dt in (np.int64, np.int32):
                ctx.close("integers", f(ints.astype(dt)), yf, atol=tf, sig=(label, np.dtype(dt).name), function=label)
            v = int(ints[0])
            ctx.close("integers", np.asarray(f(v), float).ravel(), yf[:1], atol=tf[:1], sig=(label, "int"), function=label)
            ctx.close("integers", np.asarray(f(np.int64(v)), float).ravel(), yf[:1], atol=tf[:1], sig=(label, "np.int64"), function=label)
        # A repeated call after all of these
        ctx.close("array equals scalars", f(keep.copy()), y, atol=tol, sig=sig + ("again",), function=label)
