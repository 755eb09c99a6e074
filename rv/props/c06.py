import re
import warnings

import numpy as np

from rv.base import Property as Base
from rv.monitors import bucket
from rv.world import KINDS, World


def split(rec):
    """Sort the recorded warnings into those about the quantile function and those about limits"""
    users = [m for m in rec if issubclass(m.category, UserWarning) and not issubclass(m.category, RuntimeWarning)]
    ppf = [m for m in users if "approximation" in str(m.message).lower() or "ppf" in str(m.message).lower()]
    return ppf, [str(m.message) for m in users if m not in ppf]


class Property(Base):
    rule = (
        "A case is one resonance and a set of coverages between 0 and 1 (ends included); each observed interval is "
        "compared with the reference distribution, each recorded warning with the limits. "
        "Distinct: model, decade of relative width, decade of 1-c, whether the lower limit was negative, whether the upper limit was infinite."
    )
    deciding = ["probability below and above", "around the resonance", "grows with coverage", "negative limit replaced",
                "one warning per replaced or infinite limit", "largest reachable coverage"]
    quick_cases = 2000
    thorough_cases = 20000

    def case(self, ctx, i):
        w = World(ctx)
        g = ctx.g
        kind = KINDS[i % 4]
        if g.chance(0.08):
            kind = "Resonance"
            r, sh = w.box(E_lo=1e-1)
            if g.chance(0.4):
                # The lower end of the box is zero.
                p = g.level_scheme(max_channels=1)
                p["E_x"] = 0.5
                r = w.make(kind, w.initial(p), w.excited(p), 1, 1)
                sh = ctx.reg.get(r)
        else:
            r, sh = w.resonance(kind, rel_lo=1e-12 if g.chance(0.6) else 1e-3)
        L = sh.line
        relw = bucket(L.w / L.E0)
        ctx.note(kind=kind, E_r=L.E0, width=sh.exc.width, amu=sh.amu, T=sh.T)
        cs = [g.u(0, 1), g.num(0.01, 1.0, log=False), 1.0 - g.logu(1e-12, 0.5), g.choice([0.5, 0.9, 0.95, 0.99, 0.999, 0.9999])]
        if g.chance(0.4):
            cs.append(g.choice([1.0, 1, 0, 0.0]))
        if g.chance(0.4):
            cs.append(g.logu(1e-7, 1e-2))
        # A coverage close to the one at which the lower limit is zero
        F0 = float(L.cdf(0.0))
        if 1e-9 < F0 < 0.5:
            cs.append(1 - 2 * F0 * (1 + 1e-3))
            cs.append(1 - 2 * F0 * (1 - 1e-3))
            cs.append(min(1.0, 1 - 2 * F0 * 0.3))
            for _ in range(4):
                cs.append(1 - 2 * F0 + g.choice([-1, 1]) * 10 ** g.u(-16, -5))
        seen = []
        for c in cs:
            if not 0 <= c <= 1:
                continue
            c = g.choice([float, np.float64])(c) if not isinstance(c, int) else c
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                lim = r.coverage_interval(c)
            lo, hi = float(lim[0]), float(lim[1])
            c = float(c)
            _, other = split(rec)
            q = 0.5 * (1 - c)
            with np.errstate(all="ignore"):
                ref_lo = L.E0 + float(L.ppf_d(q)) if q > 0 else (L.E0 - 0.5 if kind == "Resonance" else -np.inf)
            slack = 1e-3 * abs(ref_lo - L.E0) + float(L.resolution(L.E0)) if np.isfinite(ref_lo) else 0
            neg, pos = ref_lo < -slack, ref_lo > slack
            sig = (kind, relw, bucket(1 - c) if c < 1 else "one", bool(neg), bool(np.isinf(hi)))
            info = dict(coverage=c, limits=(lo, hi), warnings=other, E_r=L.E0, reference_lower=ref_lo)
            tol = 1e-8
            ok = ctx.check("around the resonance",
                           lo <= L.E0 + float(L.resolution(L.E0)) and hi >= L.E0 - float(L.resolution(L.E0)) and lo >= 0 and not np.isnan(hi),
                           sig=sig, **info)
            if not ok:
                continue
            ctx.close("probability below and above", float(L.cdf(hi)), 0.5 * (1 + c), atol=tol + float(L.cdf_tol(hi, 0)), sig=sig, **info)
            if neg:
                # The inverse of a distribution at q = 0 may be any sufficiently remote energy.
                if q > 0 or lo == 0.0:
                    ctx.check("negative limit replaced", lo == 0.0, sig=sig, **info)
            if pos or (lo > 0):
                ctx.close("probability below and above", float(L.cdf(lo)), q, atol=tol + float(L.cdf_tol(lo, 0)), sig=sig, **info)
            n = len(other)
            if kind == "Resonance" and L.E0 == 0.5 and q == 0:
                ctx.check("one warning per replaced or infinite limit", n == 0 and lo == 0.0, sig="limit of zero", **info)
            want = int(np.isinf(hi))
            if neg or pos:
                want += int(lo == 0.0 and neg)
                ctx.check("one warning per replaced or infinite limit", n == want, sig=sig, expected=want, **info)
                if neg and lo == 0.0:
                    nums = [float(x) for t in other for x in re.findall(r"[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?", t)]
                    top = 1.0 - F0
                    ok = any(abs(x - 100 * top) <= 2e-4 or abs(x - top) <= 2e-6 for x in nums)
                    ctx.check("largest reachable coverage", ok, sig=sig, expected_percent=100 * top, **info)
            seen.append((c, lo, hi))
            # Further use of the interval by the caller must not matter.
            try:
                lim[0] = lim[1] = -1.0
            except (TypeError, ValueError):
                pass
        seen.sort()
        s = 2 * float(L.resolution(L.E0))
        for a, b in zip(seen[:-1], seen[1:]):
            # Numerical inversions do not resolve coverages that are almost the same.
            rel = 1e-5 if b[0] - a[0] > 1e-10 else 1e-3
            t = s + 1e-6 * L.w + rel * abs(a[2] - L.E0) if np.isfinite(a[2]) else 0
            ctx.check("grows with coverage", b[1] <= a[1] + t and b[2] >= a[2] - t or a[0] == b[0], sig=(kind, relw), first=a, second=b)
