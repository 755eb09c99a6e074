"""Reference models (oracles).

Nothing in this module uses code of the monitored library.  Physical constants are written out
(CODATA 2018), profiles are evaluated from closed forms or from the Faddeeva function, the
Klein-Nishina formula in decimal arithmetic and the Debye integral by composite Gauss-Legendre
quadrature.
"""

import math
from decimal import Decimal, getcontext
from functools import lru_cache

import numpy as np
from scipy.special import ndtr, wofz

getcontext().prec = 60

HBARC = 197.3269804  # MeV fm
ALPHA = 7.2973525693e-3
ME = 0.51099895000  # MeV
U_MEV = 931.49410242
U_KG = 1.66053906660e-27
KB_EV = 8.617333262e-5  # eV / K

EPS = np.finfo(float).eps


# ------------------------------------------------------------------------------- line shapes
def doppler_width(E, amu, T):
    return E * np.sqrt(2.0 * KB_EV * 1e-6 * T / (amu * U_MEV))


def cauchy_pdf(d, g):
    return g / (math.pi * (d * d + g * g))


def cauchy_cdf(d, g):
    return np.arctan2(g, -d) / math.pi


def normal_pdf(d, s):
    z = d / s
    return np.exp(-0.5 * z * z) / (math.sqrt(2.0 * math.pi) * s)


def normal_cdf(d, s):
    return ndtr(d / s)


def voigt_pdf(d, s, g):
    z = (d + 1j * g) / (s * math.sqrt(2.0))
    return wofz(z).real / (s * math.sqrt(2.0 * math.pi))


def voigt_pdf_convolution(d, s, g):
    """Convolution of the two profiles at one point by brute-force quadrature."""
    # Substitute the Lorentzian by its quantiles: x = g tan(u), du uniform.
    nodes, weights = np.polynomial.legendre.leggauss(60)
    centre = math.atan(d / g)
    cuts = {-math.pi / 2, math.pi / 2, centre}
    for x in (d - 10 * s, d + 10 * s, d - 3 * s, d + 3 * s, d - s, d + s):
        cuts.add(math.atan(x / g))
    for k in range(8):
        cuts.add(math.atan(10.0 ** k))
        cuts.add(-math.atan(10.0 ** k))
    cuts = sorted(cuts)
    total = 0.0
    for a, b in zip(cuts[:-1], cuts[1:]):
        u = 0.5 * (b - a) * nodes + 0.5 * (a + b)
        total += 0.5 * (b - a) * np.sum(weights * normal_pdf(d - g * np.tan(u), s)) / math.pi
    return total


def thompson(width, dwidth):
    """FWHM and mixing parameter of the pseudo-Voigt profile of Thompson et al."""
    gl = width
    gg = 2.0 * math.sqrt(math.log(2.0)) * dwidth
    # Normalise to avoid underflow of the fifth powers.
    n = max(gl, gg)
    a, b = gg / n, gl / n
    f = n * (
        a ** 5
        + 2.69269 * a ** 4 * b
        + 2.42843 * a ** 3 * b ** 2
        + 4.47163 * a ** 2 * b ** 3
        + 0.07842 * a * b ** 4
        + b ** 5
    ) ** 0.2
    r = gl / f
    return f, 1.36603 * r - 0.47719 * r ** 2 + 0.11116 * r ** 3


class Line:
    """Normalised profile of one resonance, centred at `E0`."""

    def __init__(self, kind, E0, width=None, amu=None, T=None):
        self.kind = kind
        self.E0 = float(E0)
        if kind in ("BreitWigner", "PseudoVoigt", "Voigt"):
            self.g = 0.5 * float(width)
        if kind in ("Gauss", "PseudoVoigt", "Voigt"):
            self.dw = float(doppler_width(self.E0, float(amu), float(T)))
            self.s = self.dw / math.sqrt(2.0)
        if kind in ("PseudoVoigt", "Voigt"):
            self.f, self.eta = thompson(float(width), self.dw)
            self.pv_g = 0.5 * self.f
            self.pv_s = self.f / (2.0 * math.sqrt(2.0 * math.log(2.0)))
        # Characteristic width, used to choose energies.
        self.w = {
            "Resonance": lambda: 0.5,
            "BreitWigner": lambda: self.g,
            "Gauss": lambda: self.s,
            "PseudoVoigt": lambda: 0.5 * self.f,
            "Voigt": lambda: 0.5 * self.f,
        }[kind]()

    def pdf_d(self, d):
        d = np.asarray(d, dtype=float)
        k = self.kind
        if k == "Resonance":
            return np.where(np.abs(d) <= 0.5, 1.0, 0.0)
        if k == "BreitWigner":
            return cauchy_pdf(d, self.g)
        if k == "Gauss":
            return normal_pdf(d, self.s)
        if k == "PseudoVoigt":
            return self.pv_pdf_d(d)
        return voigt_pdf(d, self.s, self.g)

    def pv_pdf_d(self, d):
        return (1.0 - self.eta) * normal_pdf(d, self.pv_s) + self.eta * cauchy_pdf(
            d, self.pv_g
        )

    def pdf(self, E):
        return self.pdf_d(np.asarray(E, dtype=float) - self.E0)

    def resolution(self, E):
        """Energy shift that corresponds to rounding of energies in double precision"""
        return 8.0 * np.spacing(np.maximum(np.abs(np.asarray(E, dtype=float)), self.E0))

    def pdf_tol(self, E, rtol=2e-9):
        E = np.asarray(E, dtype=float)
        d = E - self.E0
        r = self.resolution(E)
        v, up, down = self.pdf_d(d), self.pdf_d(d + r), self.pdf_d(d - r)
        return (
            rtol * np.maximum(v, np.maximum(up, down))
            + np.maximum(np.abs(up - v), np.abs(down - v))
            + 1e-290
        )

    def cdf_d(self, d):
        """Cumulative distribution that the library documents for this model"""
        d = np.asarray(d, dtype=float)
        k = self.kind
        if k == "Resonance":
            return np.clip(d + 0.5, 0.0, 1.0)
        if k == "BreitWigner":
            return cauchy_cdf(d, self.g)
        if k == "Gauss":
            return normal_cdf(d, self.s)
        return (1.0 - self.eta) * normal_cdf(d, self.pv_s) + self.eta * cauchy_cdf(
            d, self.pv_g
        )

    def cdf(self, E):
        return self.cdf_d(np.asarray(E, dtype=float) - self.E0)

    def cdf_tol(self, E, atol=1e-12):
        E = np.asarray(E, dtype=float)
        d = E - self.E0
        with np.errstate(all="ignore"):
            r = self.resolution(E)
            t = np.abs(self.cdf_d(d + r) - self.cdf_d(d - r))
        return atol + np.where(np.isfinite(t), t, 0.0)

    def ppf_d(self, q):
        """Distance of the quantile from the centre, by bisection in the lower tail"""
        q = np.asarray(q, dtype=float)
        p = np.minimum(q, 1.0 - q)
        lo = np.zeros_like(p)  # distance below the centre
        hi = np.full_like(p, self.w)
        for _ in range(1100):
            m = self.cdf_d(-hi) > p
            if not m.any():
                break
            hi = np.where(m, 2.0 * hi, hi)
        for _ in range(200):
            mid = 0.5 * (lo + hi)
            m = self.cdf_d(-mid) > p
            lo = np.where(m, mid, lo)
            hi = np.where(m, hi, mid)
        d = 0.5 * (lo + hi)
        return np.where(q < 0.5, -d, d)


def strength(E_r, two_J_init, two_J_exc, width_init, branching):
    return (
        (math.pi * HBARC / E_r) ** 2
        * (two_J_exc + 1.0)
        / (two_J_init + 1.0)
        * width_init
        * branching
    )


def recoil_energy(dE, amu):
    """Photon energy that excites a free nucleus at rest (from s = (M + dE)^2)"""
    M = amu * U_MEV
    return dE + dE * dE / (2.0 * M)


# ------------------------------------------------------------------------- Compton scattering
@lru_cache(maxsize=200000)
def _kn_bracket(x):
    x = Decimal(x)
    if x < Decimal("1e-12"):
        return Decimal(8) / 3 * (1 - 2 * x)
    one = Decimal(1)
    t = one + 2 * x
    return (
        2 * x * (2 + x * (1 + x) * (8 + x)) / (t * t) + ((x - 2) * x - 2) * t.ln()
    ) / x ** 3


def kn_total(E, Z, mc2):
    """Total Klein-Nishina cross section in fm^2 (60-digit arithmetic)"""
    scale = Z * (ALPHA * HBARC / mc2) ** 2
    f = lambda e: math.pi * scale * float(_kn_bracket(float(e) / float(mc2)))
    E = np.asarray(E, dtype=float)
    if E.ndim == 0:
        return f(float(E))
    return np.array([f(e) for e in E.ravel()]).reshape(E.shape)


def kn_ratio(E, theta, mc2):
    E = np.asarray(E, dtype=float)
    # 1 - cos(theta) without cancellation
    return 1.0 / (1.0 + E / mc2 * 2.0 * np.sin(0.5 * np.asarray(theta, dtype=float)) ** 2)


def kn_domega(E, theta, phi, Z, mc2):
    scale = Z * (ALPHA * HBARC / mc2) ** 2
    r = kn_ratio(E, theta, mc2)
    return (
        0.5 * scale * r * r * (r + 1.0 / r - 2.0 * np.sin(theta) ** 2 * np.cos(phi) ** 2)
    )


def kn_domega_unpolarized(E, theta, Z, mc2):
    scale = Z * (ALPHA * HBARC / mc2) ** 2
    r = kn_ratio(E, theta, mc2)
    return 0.5 * scale * r * r * (r + 1.0 / r - np.sin(theta) ** 2)


def kn_cos_theta(E, Ep, mc2):
    return 1.0 - mc2 * (1.0 / Ep - 1.0 / E)


def kn_dEp_at_cos(E, c, Ep, Z, mc2, phi=None):
    scale = Z * (ALPHA * HBARC / mc2) ** 2
    r = Ep / E
    s2 = np.maximum(0.0, 1.0 - c * c)
    if phi is None:
        br = 2.0 * math.pi * (r + 1.0 / r - s2)
    else:
        br = r + 1.0 / r - 2.0 * s2 * np.cos(phi) ** 2
    return 0.5 * scale * r * r * br * mc2 / (Ep * Ep)


# ---------------------------------------------------------------------------------- Debye model
_GL = np.polynomial.legendre.leggauss(40)


def debye(T, T_D):
    T, T_D = float(T), float(T_D)
    y = T_D / T
    x, w = _GL
    total = 0.0
    edges = [0.0]
    step = 1.0
    top = min(y, 120.0)
    while edges[-1] < top:
        edges.append(min(top, edges[-1] + step))
    for a, b in zip(edges[:-1], edges[1:]):
        t = 0.5 * (b - a) * x + 0.5 * (a + b)
        total += 0.5 * (b - a) * float(np.sum(w * t ** 3 / np.expm1(t)))
    # integral of t^3 / 2
    return 3.0 * T / y ** 3 * total + 3.0 * T * y / 8.0


# ------------------------------------------------------------------------------- interpolation
def loglog(table, E):
    """Log-log interpolation at one energy; returns the pair (below, above)."""
    e = [float(r[0]) for r in table]
    v = [float(r[1]) for r in table]
    E = float(E)
    if E < e[0]:
        return v[0], v[0]
    if E > e[-1]:
        return v[-1], v[-1]
    hits = [v[i] for i in range(len(e)) if e[i] == E]
    if hits:
        return hits[0], hits[-1]
    import bisect

    j = bisect.bisect_right(e, E)
    x0, x1 = math.log(e[j - 1]), math.log(e[j])
    y0, y1 = math.log(v[j - 1]), math.log(v[j])
    y = y0 + (y1 - y0) * (math.log(E) - x0) / (x1 - x0)
    return math.exp(y), math.exp(y)


def darboux(f, x):
    lo = math.fsum(min(a, b) * (d - c) for a, b, c, d in zip(f[:-1], f[1:], x[:-1], x[1:]))
    up = math.fsum(max(a, b) * (d - c) for a, b, c, d in zip(f[:-1], f[1:], x[:-1], x[1:]))
    return lo, up - lo


def _kn_series(n=40):
    from fractions import Fraction as F

    inv = [F((-1) ** k * (k + 1) * 2 ** k) for k in range(n + 5)]
    log = [F(0)] + [F((-1) ** (k + 1) * 2 ** k, k) for k in range(1, n + 5)]
    # 2x(2 + 8x + 9x^2 + x^3) = 4x + 16x^2 + 18x^3 + 2x^4
    num = {1: 4, 2: 16, 3: 18, 4: 2}
    pol = {0: -2, 1: -2, 2: 1}
    c = []
    for k in range(3, n + 3):
        v = sum(a * inv[k - i] for i, a in num.items() if k >= i)
        v += sum(a * log[k - i] for i, a in pol.items() if k >= i)
        c.append(float(v))
    return c


_KN_SERIES = _kn_series()


def kn_total_fast(E, Z, mc2):
    """Vectorised double-precision variant, accurate to about 1e-12"""
    x = np.asarray(E, dtype=float) / mc2
    scale = math.pi * Z * (ALPHA * HBARC / mc2) ** 2
    low = x < 0.05
    xs = np.where(low, x, 0.0)
    s = np.zeros_like(xs)
    for c in reversed(_KN_SERIES):
        s = s * xs + c
    xl = np.where(low, 1.0, x)
    t = 1.0 + 2.0 * xl
    d = (
        2.0 * (2.0 + xl * (1.0 + xl) * (8.0 + xl)) / (t * t)
        + ((xl - 2.0) - 2.0 / xl) * np.log1p(2.0 * xl)
    ) / (xl * xl)
    return scale * np.where(low, s, d)


def loglog_array(table, E):
    """Vectorised log-log interpolation; returns the pair (below, above)."""
    e = np.asarray(table, dtype=float)[:, 0]
    v = np.asarray(table, dtype=float)[:, 1]
    E = np.asarray(E, dtype=float)
    le, lv = np.log(e), np.log(v)
    out = []
    for side in ("left", "right"):
        j = np.clip(np.searchsorted(e, E, side=side), 1, len(e) - 1)
        with np.errstate(all="ignore"):
            t = (np.log(E) - le[j - 1]) / (le[j] - le[j - 1])
            y = np.exp(lv[j - 1] + t * (lv[j] - lv[j - 1]))
        # Exactly at a node
        i = np.searchsorted(e, E, side=side) - (1 if side == "right" else 0)
        i = np.clip(i, 0, len(e) - 1)
        y = np.where(e[i] == E, v[i], y)
        y = np.where(E < e[0], v[0], np.where(E > e[-1], v[-1], y))
        out.append(y)
    return out
