"""Seeded generators of inputs.

Numbers come from four sources: log-uniform and uniform draws, rounded 'human' values, the ends of
the range, and a dictionary of the numeric literals in the current source of the library (as in
dictionary-guided fuzzing).  Literals that are not in the committed reference list come first.
The dictionary only steers the choice of inputs; verdicts depend on observed behaviour alone.
"""

import ast
import json
import math
import os

import numpy as np

from rv.lib import REPO

HERE = os.path.dirname(os.path.abspath(__file__))
SPINS = list(range(0, 13)) + [15, 16, 21, 24, 33, 40]


def _literals():
    found = {}
    for base, _, files in os.walk(os.path.join(REPO, "ries")):
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            path = os.path.join(base, f)
            try:
                tree = ast.parse(open(path, encoding="utf-8").read())
            except (SyntaxError, OSError, UnicodeDecodeError):
                continue
            rel = os.path.relpath(path, REPO)
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and type(node.value) in (int, float):
                    v = float(node.value)
                    if math.isfinite(v):
                        d = found.setdefault(rel, {})
                        d[repr(v)] = d.get(repr(v), 0) + 1
    return found


class Dictionary:
    def __init__(self):
        ref_file = os.path.join(HERE, "data", "literals.json")
        ref = {}
        if os.path.exists(ref_file):
            ref = json.load(open(ref_file))
        cur = _literals()
        self.new, self.old = [], []
        for f, d in sorted(cur.items()):
            for v, n in sorted(d.items()):
                (self.new if n > ref.get(f, {}).get(v, 0) else self.old).append(float(v))
        self.new = sorted(set(self.new))
        self.old = sorted(set(self.old))


_DICT = None


def dictionary():
    global _DICT
    if _DICT is None:
        _DICT = Dictionary()
    return _DICT


class G:
    def __init__(self, rng):
        self.r = rng
        self.dic = dictionary()

    # --------------------------------------------------------------------------------- numbers
    def chance(self, p):
        return self.r.random() < p

    def choice(self, seq):
        return seq[int(self.r.integers(len(seq)))]

    def integer(self, lo, hi):
        """Integer in [lo, hi], prefering literals of the source and small values"""
        u = self.r.random()
        if u < 0.2:
            v = self.literal(lo, hi, integer=True)
            if v is not None:
                return int(v)
        if u < 0.5:
            return int(self.r.integers(lo, min(hi, lo + 12) + 1))
        if u < 0.75 and hi > 10 * max(lo, 1):
            return int(round(math.exp(self.r.uniform(math.log(max(lo, 1)), math.log(hi)))))
        return int(self.r.integers(lo, hi + 1))

    def literal(self, lo, hi, integer=False):
        pools = []
        if self.dic.new and self.chance(0.75):
            pools.append(self.dic.new)
        pools.append(self.dic.old)
        for pool in pools:
            c = [v for v in pool if lo <= v <= hi]
            if integer:
                c = [v for v in c if v == int(v)]
            if c:
                v = self.choice(c)
                if integer:
                    w = v + self.choice([0, 0, 1, -1])
                    return w if lo <= w <= hi else v
                u = self.r.random()
                if u < 0.35:
                    w = v
                elif u < 0.45:
                    w = float(np.nextafter(v, self.choice([-math.inf, math.inf])))
                elif u < 0.75:
                    w = v * (1.0 + self.choice([-1, 1]) * 10 ** self.r.uniform(-6, -0.5))
                else:
                    w = v * 10 ** self.r.uniform(-0.3, 0.3)
                return w if lo <= w <= hi else v
        return None

    def logu(self, lo, hi):
        return float(math.exp(self.r.uniform(math.log(lo), math.log(hi))))

    def u(self, lo, hi):
        return float(self.r.uniform(lo, hi))

    def num(self, lo, hi, log=True, p_lit=0.2):
        """Float in [lo, hi]"""
        u = self.r.random()
        if u < p_lit:
            v = self.literal(lo, hi)
            if v is not None:
                return float(v)
        if u < p_lit + 0.04:
            return float(self.choice([lo, hi]))
        if log and lo > 0:
            v = self.logu(lo, hi)
        else:
            v = self.u(lo, hi)
        if self.chance(0.25) and v != 0:
            v = float("{:.{}e}".format(v, int(self.r.integers(0, 3))))
        return min(hi, max(lo, v))

    def scalar_type(self, v):
        """The same value as another scalar type"""
        v = float(v)
        opts = [float, np.float64]
        if v == int(v) and abs(v) < 2 ** 31:
            opts += [int]
            # Squares of larger numbers do not fit into the integers of numpy.
            if abs(v) < 10000:
                opts += [np.int64, np.int32]
        return self.choice(opts)(v)

    def sizes(self, top=4000):
        u = self.r.random()
        if u < 0.12:
            v = self.literal(1, top, integer=True)
            if v:
                return int(v)
        if u < 0.5:
            return int(self.r.integers(1, 9))
        if u < 0.93:
            return int(round(self.logu(1, min(top, 400))))
        return int(round(self.logu(min(top, 400), top)))

    def count(self, n):
        """Number of points in one of the usual types of integers"""
        return np.int64(n) if self.r.random() < 0.15 else int(n)

    def huge(self):
        """Length beyond any block size that is likely"""
        return int(round(self.logu(4000, 200000)))

    def flag(self, value):
        """A truth value in one of its usual forms"""
        return self.choice([bool, int, np.bool_])(value)

    def degenerate(self, E0, n=None):
        """Arrays that are equal in all elements or contain special values"""
        n = n or self.integer(1, 5)
        return self.choice([
            np.zeros(n), -np.zeros(n), np.full(n, E0), np.append(np.zeros(n), E0), np.full(n, -E0), np.array([E0, 0.0, E0, -E0, E0]),
        ])

    def layout(self, a):
        """The same values in another memory layout"""
        a = np.array(a)
        k = int(self.r.integers(6))
        if k == 1:
            b = np.empty(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
            b[...] = np.asarray(a).ravel()[0]
            b[..., ::2] = a
            a = b[..., ::2]
        elif k == 2:
            a = a[..., ::-1].copy()[..., ::-1]
        elif k == 3:
            a = np.asfortranarray(a)
        elif k == 4:
            a = a.copy()
            a.setflags(write=False)
        return a

    # ---------------------------------------------------------------------------- level schemes
    def level_scheme(self, E_lo=1e-5, E_hi=1e3, max_channels=12, rel_lo=1e-12, rel_hi=0.3):
        """Parameters of an initial and an excited state with its decay channels"""
        n = min(max_channels, self.choice([1, 1, 2, 2, 3, 4, 5, 7, 12]))
        if max_channels >= 12 and self.chance(0.015):
            n = self.integer(13, 150)
        E_x = self.num(E_lo, E_hi)
        excited_initial = self.chance(0.3) and n > 1
        E_i = 0.0
        if excited_initial:
            # The energy difference must be representable.
            E_i = E_x * self.choice([1e-3, 0.1, 0.37, 0.5, 0.9, self.u(0.01, 0.95)])
        dE = E_x - E_i
        total = dE * self.logu(rel_lo, rel_hi)
        if self.chance(0.2):
            total = min(max(float("{:.0e}".format(total)), dE * rel_lo), dE * rel_hi)
        mode = int(self.r.integers(5))
        if mode == 0:
            w = np.ones(n)
        elif mode == 1:
            w = self.r.random(n) + 0.01
        elif mode == 2:
            w = 10.0 ** self.r.uniform(-12, 0, n)
        elif mode == 3:
            w = self.r.random(n) + 0.01
            w[self.r.random(n) < 0.4] = 0.0
        else:
            w = np.array([float(self.r.integers(1, 9)) for _ in range(n)])
        if w.sum() == 0.0:
            w[0] = 1.0
        w = w / w.sum() * total
        labels = self.choice([
            ["{}^{}_{}".format(k // 2, "+-"[k % 2], 1 + k % 3) for k in range(n)],
            list(range(n)),
            ["s{}".format(k) for k in range(n)],
            [(k, "x") for k in range(n)],
        ])
        order = list(self.r.permutation(n))
        widths = {labels[int(k)]: float(w[int(k)]) for k in order}
        return {
            "E_i": float(E_i),
            "E_x": float(E_x),
            "two_J_i": int(self.choice(SPINS)),
            "two_J_x": int(self.choice(SPINS)),
            "parity_i": int(self.choice([-1, 1])),
            "parity_x": int(self.choice([-1, 1])),
            "labels": labels,
            "initial": labels[int(self.r.integers(n))],
            "widths": widths,
            "excited_initial": bool(excited_initial),
        }

    def amu(self):
        return self.num(1.0, 300.0)

    def temperature(self, lo=1.0, hi=1e6):
        return self.num(lo, hi)

    # ---------------------------------------------------------------------------------- energies
    def energies(self, line, n=None, positive=False, far=1e6):
        """Energies around a line: centre, flanks, far wings, round values"""
        n = n or self.sizes(400)
        out = []
        for _ in range(n):
            u = self.r.random()
            s = self.choice([-1.0, 1.0])
            if u < 0.05:
                v = line.E0
            elif u < 0.45:
                v = line.E0 + s * line.w * self.u(0.0, 5.0)
            elif u < 0.75:
                v = line.E0 + s * line.w * self.logu(1e-6, far)
            elif u < 0.85:
                v = line.E0 * self.u(0.0, 3.0)
            elif u < 0.95:
                v = self.num(1e-6, 1e4)
            else:
                v = line.E0 + s * line.w * float(self.r.integers(0, 4))
            if positive:
                v = abs(v)
            out.append(v)
        return np.array(out)
