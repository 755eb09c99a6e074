import numpy as np

from rv import model as M
from rv.base import Property as Base
from rv.monitors import bucket


class Property(Base):
    rule = (
        "A case is one pair (or array of pairs) of temperatures. Every call of the function, also by other parts of the "
        "workload, is compared. Distinct: decade of T and T_D, type and shape of the arguments."
    )
    deciding = ["integral", "lower bounds", "scaling", "increases", "zero temperature"]
    quick_cases = 2500
    thorough_cases = 30000

    def setup(self, ctx):
        self.cache = {}

    def ref(self, T, D):
        T, D = np.broadcast_arrays(np.asarray(T, float), np.asarray(D, float))
        return np.array([M.debye(float(a), float(b)) for a, b in zip(T.ravel(), D.ravel())]).reshape(T.shape)

    def pair(self, g):
        k = int(g.r.integers(5))
        if k == 0:
            D = float(g.choice([87.0, 390.0, 1550.0, 43.0, 100, 1362.0]))
            T = float(g.choice([293.15, 300, 77, 4.2, g.u(1, 2000)]))
        elif k == 1:
            T = g.num(1e-2, 1e5)
            D = T * g.logu(1e-3, 1e4)
        elif k == 2:
            T, D = g.num(1e-2, 1e5), g.num(1e-2, 1e5)
        elif k == 3:
            T, D = float(g.integer(1, 3000)), float(g.integer(1, 3000))
        else:
            T = g.num(1, 1e4)
            D = T * g.choice([1.0, 0.5, 2.0, 10.0, 100.0, 30.0, g.u(0.1, 50)])
        D = min(max(D, 1e-2), 1e5)
        if D / T > 1e4:
            D = 1e4 * T
        if D / T < 1e-3:
            D = 1e-3 * T
        return T, D

    def case(self, ctx, i):
        g = ctx.g
        f = ctx.lib.debye
        T, D = self.pair(g)
        ctx.note(T=T, T_D=D)
        sig = (bucket(T), bucket(D))
        a, b = g.scalar_type(T), g.scalar_type(D)
        v = float(f(a, b))
        r = self.ref(T, D)
        info = dict(T=T, T_D=D, types=(type(a).__name__, type(b).__name__))
        ctx.close("integral", v, float(r), rtol=1e-7, sig=sig + (type(a).__name__, type(b).__name__), **info)
        ctx.check("lower bounds", v >= T * (1 - 1e-9) and v >= 0.375 * D * (1 - 1e-9), sig=sig, got=v, **info)
        k = g.choice([2.0, 0.5, 3.0, g.logu(0.1, 10)])
        if 1e-2 <= k * T <= 1e5 and 1e-2 <= k * D <= 1e5:
            ctx.close("scaling", f(k * T, k * D), k * v, rtol=2e-7, sig=sig, same_shape=False, factor=k, **info)
        s = 1 + g.logu(1e-2, 1)
        if T * s <= 1e5:
            ctx.check("increases", float(f(T * s, D)) > v * (1 - 1e-7), sig=sig + ("T",), **info)
        if D * s / T <= 1e4 and D * s <= 1e5:
            ctx.check("increases", float(f(T, D * s)) > v * (1 - 1e-7), sig=sig + ("T_D",), **info)
        if g.chance(0.1):
            ctx.later("integral", lambda: f(T, D), T=T, T_D=D)
        if i % 4 == 0:
            n = g.choice([1, 2, 5]) if g.chance(0.8) else g.sizes(300)
            P = [self.pair(g) for _ in range(n)]
            Ta, Da = g.layout(np.array([p[0] for p in P])), g.layout(np.array([p[1] for p in P]))
            ctx.close("integral", f(Ta, Da), self.ref(Ta, Da), rtol=1e-7, sig=("arrays", n), T=Ta, T_D=Da)
            ctx.close("integral", f(T * np.array([1.0, 1.5, 2.0]), D), self.ref(T * np.array([1.0, 1.5, 2.0]), D), rtol=1e-7, sig=("broadcast T",), **info)
            ctx.close("integral", f(T, D * np.array([[1.0], [0.5]])), self.ref(T, D * np.array([[1.0], [0.5]])), rtol=1e-7, sig=("broadcast T_D",), **info)
            if T == int(T) and D == int(D):
                Ti = np.array([int(T), int(T) + 1])
                ctx.close("integral", f(Ti, int(D)), self.ref(Ti, D), rtol=1e-7, sig=("integer array",), **info)
        if i % 5 == 0:
            z = g.choice([0, 0.0])
            try:
                got = f(z, g.choice([D, int(D) + 1]))
                err = None
            except Exception as e:
                got, err = None, e
            ctx.check("zero temperature", isinstance(err, ZeroDivisionError), sig=type(z).__name__, got=got, error=repr(err))
