import os
import shutil
import tempfile

import numpy as np

from rv.base import Property as Base
from rv.world import World

LABELS = ["K  ", "L1 ", "L2 ", "L3 ", "M1 ", "M5 ", "N1 ", "N3 "]


class Property(Base):
    rule = (
        "A case is one generated file in the tabulation format, read with generated unit conversions. "
        "Distinct: with or without label column, class of the number of lines, number of edges, conversions used."
    )
    deciding = ["all lines in order", "values as printed", "conversion applied once", "same as array", "no file left open"]
    quick_cases = 3000
    thorough_cases = 30000

    def setup(self, ctx):
        self.dir = tempfile.mkdtemp(prefix="rv-c18-")

    def finish(self, ctx):
        shutil.rmtree(self.dir, ignore_errors=True)

    def case(self, ctx, i):
        w = World(ctx)
        g = ctx.g
        labelled = g.chance(0.6)
        n = g.choice([2, 3, g.integer(2, 60), g.integer(2, 300)]) if g.chance(0.98) else int(g.logu(300, 6000))
        tab = w.table(n=n, edges=None if labelled else 0)
        rows, text = [], []
        first_label = g.chance(0.1)
        prev = None
        for k, (e, v) in enumerate(tab):
            a = v * g.u(0.05, 0.999)
            cols = ["{:.5E}".format(e), "{:.3E}".format(v), "{:.3E}".format(a)]
            f = [float(c) for c in cols]
            if prev is not None and f[0] < prev:
                f[0] = prev
            edge = prev is not None and f[0] == prev
            if edge and not labelled:
                continue
            prev = f[0]
            lab = ""
            if labelled:
                lab = g.choice(LABELS) if (edge or (k == 0 and first_label)) else "   "
            rows.append(f)
            text.append(lab + "  ".join(cols) + " \n")
            if k and g.chance(0.02):
                # The same line once more
                rows.append(f)
                text.append(text[-1])
        if len(rows) < 2:
            return
        # Every other file replaces an earlier one with the same name.
        stem = g.choice([i, "same"])
        path = os.path.join(self.dir, "{}-{}.txt".format(stem, g.choice(["01", "data file", "x"])))
        # The shipped files end with or without blank and newline.
        end = int(g.r.integers(4))
        body = "".join(text)
        if end == 1:
            body = body[:-2]
        elif end == 2:
            body = body[:-2] + "\n"
        elif end == 3:
            body = body.replace(" \n", "\n")
        with open(path, "w") as fh:
            fh.write(body)
        raw = np.array(rows)
        ce, cx = g.choice([1.0, 1e3, 1e6, 0.5]), g.choice([1.0, 1e-3, 1e26 * 3.3e-24, 2.0])
        calls = {"e": 0, "x": 0}

        def conv_e(v):
            calls["e"] += 1
            return v * ce

        def conv_x(v):
            calls["x"] += 1
            return v * cx

        style = int(g.r.integers(4))
        fds = len(os.listdir("/proc/self/fd"))
        if style == 0:
            x, fe, fx = ctx.lib.XRMAC(path), 1.0, 1.0
        elif style == 1:
            x, fe, fx = ctx.lib.XRMAC(path, conv_e, conv_x), ce, cx
        elif style == 2:
            x, fe, fx = ctx.lib.XRMAC(path, xrmac_conversion=conv_x), 1.0, cx
        else:
            x, fe, fx = ctx.lib.XRMAC(path, energy_conversion=conv_e), ce, 1.0
        after = len(os.listdir("/proc/self/fd"))
        ctx.note(labelled=labelled, lines=len(rows), conversions=(fe, fx), style=style)
        sig = (labelled, int(np.log2(len(rows))), int(np.sum(np.diff(raw[:, 0]) == 0)), style, end)
        ctx.check("no file left open", after == fds, sig=sig, before=fds, after=after)
        got = np.asarray(x.data, dtype=float)
        want = raw * np.array([fe, fx, fx])
        if not ctx.check("all lines in order", got.ndim == 2 and got.shape == want.shape, sig=sig, shape=got.shape, expected=want.shape):
            os.remove(path)
            return
        if style == 0:
            ctx.check("values as printed", np.array_equal(got, raw), sig=sig, first_bad=np.argwhere(got != raw)[:1], text=text[:3])
        ctx.close("values as printed", got, want, rtol=4e-16, sig=sig)
        ctx.close("conversion applied once", got[:, 0], raw[:, 0] * fe, rtol=4e-16, sig=sig)
        ctx.close("conversion applied once", got[:, 1:], raw[:, 1:] * fx, rtol=4e-16, sig=sig)
        other = ctx.lib.XRMAC(want.copy())
        E = np.concatenate([want[:, 0][:20], np.exp(g.r.uniform(np.log(want[0, 0]) - 1, np.log(want[-1, 0]) + 1, 20))])
        ctx.close("same as array", x(E), np.asarray(other(E)), rtol=1e-12, sig=sig)
        e1 = float(E[-1])
        ctx.close("same as array", x(e1), other(e1), rtol=1e-12, sig=sig, same_shape=False)
        # Reading again with other conversions is independent of the first object.
        if g.chance(0.2):
            # Conversions that are not factors
            p, q = g.choice([0.5, 2.0, 1.5]), g.choice([0.25, 3.0])
            z = ctx.lib.XRMAC(path, lambda v: v ** p, lambda v: q + 2 * v)
            ctx.close("conversion applied once", z.data, np.column_stack([raw[:, 0] ** p, q + 2 * raw[:, 1:]]), rtol=1e-14, sig=sig + ("not a factor",))
        y = ctx.lib.XRMAC(path, lambda v: 7 * v, lambda v: 3 * v)
        ctx.close("conversion applied once", y.data, raw * np.array([7, 3, 3]), rtol=4e-16, sig=sig + ("again",))
        ctx.close("values as printed", x.data, want, rtol=4e-16, sig=sig + ("again",))
        os.remove(path)
        if g.chance(0.1):
            ctx.later("values as printed", lambda: (np.array(x.data), x(E), np.array(y.data)))
