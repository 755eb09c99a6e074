import os
import shutil
import tempfile
import warnings

import numpy as np

from rv import ops
from rv.base import Property as Base
from rv.world import World


class Mine(Exception):
    """An error of the user's own code"""


class Property(Base):
    rule = (
        "A case is one undefined request, or one function of the user that raises an error of its own, before and after a "
        "valid query. Distinct: kind of request, kind of the objects."
    )
    deciding = ["undefined is an error", "errors of the user arrive unchanged", "valid query afterwards", "no file left open"]
    quick_cases = 2500
    thorough_cases = 30000

    def setup(self, ctx):
        self.dir = tempfile.mkdtemp(prefix="rv-c36-")

    def finish(self, ctx):
        shutil.rmtree(self.dir)

    def request(self, ctx, w):
        """Name, call that must fail, and the error that is expected (None: any)"""
        g, lib = ctx.g, ctx.lib
        E = g.choice([1.0, np.array([0.5, 1.0, 2.0])])
        k = int(g.r.integers(17))
        if k == 0:
            return "abstract value", lambda: lib.CrossSection()(E), NotImplementedError
        if k == 1:
            return "abstract grid", lambda: lib.CrossSection().equidistant_probability_grid((0.1, 1.0), 5), NotImplementedError
        if k == 2:
            s = w.constant() + 2.0 * lib.CrossSection()
            return "abstract value in sum", lambda: s(E), NotImplementedError
        if k == 3:
            class OnlyValues(lib.CrossSection):
                def __call__(self, E):
                    return 1.0 / (1.0 + np.asarray(E))
            s = g.choice([lambda: OnlyValues() + w.constant(), lambda: 3 * OnlyValues(), lambda: w.constant() + OnlyValues()])()
            return "abstract grid in sum", lambda: s.equidistant_probability_grid((0.1, 1.0), 5), NotImplementedError
        if k in (4, 5, 6):
            p = g.level_scheme(E_lo=1e-2, E_hi=1e2)
            amu, T = w.doppler(p)
            kind = g.choice(["Resonance", "BreitWigner", "Gauss", "PseudoVoigt", "Voigt"])
            wrong = g.choice(["0^+_9", "", "?", str(p["initial"]) + " ", ("exc", 1)])
            p["widths"].pop(wrong, None)
            init, exc = w.initial(p), w.excited(p)
            if k == 4:
                init = g.choice([lambda: lib.GroundState(wrong, 0, 1), lambda: lib.State(wrong, 0, 1, 0.0, {})])()
                return "no decay to the initial state", lambda: w.make(kind, init, exc, amu, T)(E), None
            final = lib.GroundState(wrong, 0, 1)
            return "no decay to the final state", lambda: w.make(kind, init, exc, amu, T, final)(E), None
        if k == 7:
            path = os.path.join(self.dir, "missing.txt")
            f = g.choice([lib.XRMAC, lambda p: lib.NISTElementDataReader(p).read_nist_element_data(1), lambda p: lib.Geant4DensityDataReader(p).read_density_data("H")])
            return "missing file", lambda: f(path), OSError
        if k == 8:
            path = os.path.join(self.dir, "broken.txt")
            rows = ["   {:.6E}  {:.3E}  {:.3E} \n".format(0.001 * (j + 1), 3.0 / (j + 1), 2.0 / (j + 1)) for j in range(g.integer(2, 9))]
            j = g.integer(0, len(rows) - 1)
            rows[j] = rows[j].replace("E", g.choice(["?", "x", "_"]), g.integer(1, 3))
            with open(path, "w") as f:
                f.write("".join(rows))
            return "broken number in a table", lambda: lib.XRMAC(path), None
        if k == 9:
            t = g.choice([lib.natural_elements, lib.xrmac_cm2_per_g, lib.xrmac_fm2_per_atom, lib.room_temperature_T_D])
            s = g.choice(["Xx", "", "pb", "Deuterium", " H"])
            return "unknown element", lambda: t[s], KeyError
        if k == 10:
            o = g.choice([lambda: w.constant(), lambda: lib.KleinNishina(3), lambda: w.resonance()[0], lambda: 2.0 * w.constant()])()
            bad = g.choice(["a", None, [1.0], {}, object()])
            f = g.choice([lambda: (o + bad)(E), lambda: (bad + o)(E)])
            return "sum with something else", f, None
        if k == 11:
            return "temperature zero", lambda: lib.debye(g.choice([0.0, 0]), g.u(50, 900)), ZeroDivisionError
        # Errors of the user's code
        exc = g.choice([Mine, ValueError, KeyError, ZeroDivisionError, AttributeError, TypeError, NotImplementedError])
        mark = "mark {}".format(ctx.case_index)

        def fails(*a):
            raise exc(mark)

        if k == 12:
            x = np.linspace(0, 1, g.integer(2, 50))
            return "Darboux", lambda: lib.darboux(fails, x), (exc, mark)
        if k == 13:
            x = np.linspace(0, 1, g.integer(2, 9))
            more = g.choice([(), ([[0.0, 1.0]],)])

            def late(*a):
                if a[0] > 0.4:
                    raise exc(mark)
                return 1.0

            y = x.copy()

            def again():
                # The arguments of the failed call are used again
                ok = bool(np.array_equal(x, y)) and more in ((), ([[0.0, 1.0]],))
                ctx.check("valid query afterwards", ok, sig="arguments", partition=x, limits=repr(more))
                if ok:
                    ctx.close("valid query afterwards", lib.quad_partition(lambda *a: 2.0 * a[0], x, *more)[0], 1.0, rtol=1e-9, same_shape=False, sig="arguments")

            self.again = again
            return "partitioned quadrature", lambda: lib.quad_partition(late, x, *more), (exc, mark)
        if k == 14:
            class Broken(lib.CrossSection):
                def __call__(self, E):
                    raise exc(mark)

                def equidistant_probability_grid(self, limits, n_points):
                    raise exc(mark)
            s = g.choice([lambda: Broken() + w.constant(), lambda: w.constant() + Broken(), lambda: (Broken() + 1) * 2.0])()
            if g.chance(0.5):
                return "constituent of a sum", lambda: s(E), (exc, mark)
            return "grid of a constituent", lambda: s.equidistant_probability_grid((0.5, 2.0), 7), (exc, mark)
        if k == 15:
            p = g.level_scheme(E_lo=1e-2, E_hi=1e2)
            return "recoil correction", lambda: lib.Resonance(w.initial(p), w.excited(p), recoil_correction=fails), (exc, mark)
        path = os.path.join(self.dir, "fine.txt")
        with open(path, "w") as f:
            f.write("".join("   {:.5E}  {:.3E}  {:.3E} \n".format(0.001 * (j + 1), 3.0 / (j + 1), 2.0 / (j + 1)) for j in range(5)))
        kw = {g.choice(["energy_conversion", "xrmac_conversion"]): fails}
        return "conversion", lambda: lib.XRMAC(path, **kw), (exc, mark)

    def case(self, ctx, i):
        g, lib = ctx.g, ctx.lib
        w = World(ctx)
        op = ops.operation(g, ops.recipe(g, w)) if g.chance(0.7) else ops.free_operation(g)
        obj = op.build(lib)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            first = ops.snapshot(op.call(lib, obj, *op.args()))
            self.again = None
            name, call, want = self.request(ctx, w)
            fds = len(os.listdir("/proc/self/fd"))
            ctx.note(request=name)
            result = caught = None
            ctx.bus.enabled = False  # An error of the reference model must not pass for one of the library
            try:
                result = call()
            except Exception as e:
                caught = e
            finally:
                ctx.bus.enabled = True
            if isinstance(want, tuple):
                exc, mark = want
                ok = caught is not None and type(caught) is exc and caught.args == (mark,)
                ctx.check("errors of the user arrive unchanged", ok, sig=(name, exc.__name__), request=name, got=repr(caught), result=result, expected=exc.__name__)
            else:
                ok = caught is not None and (want is None or isinstance(caught, want))
                ctx.check("undefined is an error", ok, sig=(name, type(caught).__name__), request=name, got=repr(caught), result=result, expected=str(want))
            caught = None
            ctx.check("no file left open", len(os.listdir("/proc/self/fd")) == fds, sig=name, request=name)
            if self.again is not None:
                self.again()
            now = op.call(lib, obj, *op.args())
            ctx.check("valid query afterwards", ops.same(now, first, 1e-13), sig=(name, op.label), request=name, op=op.label, first=first, now=now)
