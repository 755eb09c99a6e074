import decimal
import gc
import hashlib
import locale
import os
import random
import shutil
import sys
import tempfile
import threading
import warnings

import numpy as np

from rv import ops
from rv.base import Property as Base
from rv.world import World

RTOL = 1e-13


def cheap_state():
    return {
        "numpy error handling": tuple(sorted(np.geterr().items())),
        "numpy error callback": np.geterrcall(),
        "warning filters": tuple(map(repr, warnings.filters)),
        "showwarning": warnings.showwarning,
        "stdlib random": hash(random.getstate()),
        "numpy random": np.random.get_state()[2:],
        "numpy random key": hash(np.random.get_state()[1].tobytes()),
        "working directory": os.getcwd(),
        "environment": hash(tuple(sorted(os.environ.items()))),
        "threads": threading.active_count(),
        "gc": gc.isenabled(),
        "module search path": tuple(sys.path),
    }


def full_state():
    import scipy.constants as sc

    s = cheap_state()
    s.update({
        "numpy print options": repr(sorted(np.get_printoptions().items(), key=lambda kv: kv[0])),
        "decimal": repr(decimal.getcontext()),
        "recursion limit": sys.getrecursionlimit(),
        "locale": locale.setlocale(locale.LC_ALL),
        "umask": None,
        "trace": (sys.gettrace(), sys.getprofile()),
        "switch interval": sys.getswitchinterval(),
        "streams": (id(sys.stdout), id(sys.stderr), id(sys.excepthook)),
        "physical constants": hashlib.sha1(repr(sorted(sc.physical_constants.items())).encode()).hexdigest(),
        "open files": len(os.listdir("/proc/self/fd")),
    })
    return s


def tables(lib):
    """Digest of all tables of the library"""
    h = hashlib.sha1()
    for s, e in lib.natural_elements.items():
        h.update(repr((s, e.Z, e.X, e.amu, e.density, sorted(e.abundances.items()), [(k, v.amu, v.AX, v.excited_states) for k, v in e.isotopes.items()])).encode())
    for d in (lib.xrmac_cm2_per_g, lib.xrmac_fm2_per_atom):
        for s, x in d.items():
            h.update(s.encode())
            h.update(np.ascontiguousarray(x.data).tobytes())
    h.update(repr(sorted(lib.X.items())).encode())
    h.update(repr(sorted(lib.room_temperature_T_D.items())).encode())
    return h.hexdigest()


def fingerprint(a):
    if isinstance(a, np.ndarray):
        return ("a", a.shape, a.dtype.str, a.tobytes())
    if isinstance(a, (list, tuple)):
        return (type(a).__name__,) + tuple(fingerprint(x) for x in a)
    if isinstance(a, dict):
        return ("d",) + tuple((repr(k), fingerprint(v)) for k, v in a.items())
    if type(a).__name__ in ("GroundState", "State", "Isotope", "Element"):
        return (type(a).__name__, fingerprint(vars(a)))
    if isinstance(a, (int, float, str, bool, type(None), np.generic)):
        return repr(a)
    return id(a)


class Unusual:
    """Process-wide settings of a caller, different in each case, and put back afterwards"""

    def __init__(self, g, directory):
        self.saved = (np.geterr(), np.geterrcall(), list(warnings.filters), warnings.showwarning, os.getcwd(), random.getstate(),
                      np.random.get_state(), decimal.getcontext().prec, np.get_printoptions(), sys.getrecursionlimit())
        kinds = ["ignore", "ignore", "warn", "call"]
        np.seterrcall(lambda what, flag: None)
        np.seterr(**{k: g.choice(kinds) for k in ("divide", "over", "under", "invalid")})
        if g.chance(0.5):
            warnings.filterwarnings("ignore", message="rv{}".format(g.integer(0, 9)))
        if g.chance(0.3):
            warnings.filterwarnings("ignore", category=RuntimeWarning)
        random.seed(g.integer(0, 10**6))
        np.random.seed(g.integer(0, 10**6))
        if g.chance(0.5):
            os.chdir(directory)
        os.environ["RV_SETTING"] = str(g.integer(0, 999))
        decimal.getcontext().prec = g.integer(5, 60)
        np.set_printoptions(precision=g.integer(2, 12), threshold=g.integer(5, 2000))
        sys.setrecursionlimit(self.saved[-1] + g.integer(0, 500))

    def restore(self):
        err, call, filters, show, cwd, rnd, nprnd, prec, opts, limit = self.saved
        np.seterr(**err)
        np.seterrcall(call)
        warnings.filters[:] = filters
        warnings._filters_mutated()
        warnings.showwarning = show
        os.chdir(cwd)
        random.setstate(rnd)
        np.random.set_state(nprnd)
        os.environ.pop("RV_SETTING", None)
        decimal.getcontext().prec = prec
        np.set_printoptions(**opts)
        sys.setrecursionlimit(limit)


class Property(Base):
    rule = (
        "A case is a history of 15 to 40 operations on 3 to 7 coexisting objects (and equal copies of them), with repetitions "
        "of earlier operations, with slightly different arguments, overwriting of arguments and results by the caller, failing calls and new constructions in "
        "between, under generated process-wide settings of the caller. Distinct: kind of operation, repetition on same or equal object, preceding operation."
    )
    deciding = ["same result when repeated", "same result from an equal object", "same result for changed contents", "similar arguments", "arguments unchanged", "process state unchanged", "tables unchanged", "process state unchanged (complete)"]
    quick_cases = 700
    thorough_cases = 9000
    assumptions = ["Results of equal calls are compared to 1e-13 relative."]

    def setup(self, ctx):
        # Argument sanitizer: every call by the caller of the library
        self.depth_args = []

        def before(ev):
            if ev.depth > 1:
                return
            self.depth_args.append((ev, fingerprint(ev.a), fingerprint(ev.k)))

        def after(ev):
            if ev.depth > 1:
                return
            while self.depth_args:
                e, a, k = self.depth_args.pop()
                if e is ev:
                    break
            else:
                return
            ctx.check("arguments unchanged", fingerprint(ev.a) == a and fingerprint(ev.k) == k, sig=("probe", ev.owner, ev.name), call=ev.owner + "." + ev.name)

        ctx.bus.before.append(before)
        ctx.bus.after.append(after)
        self.tables = tables(ctx.lib)
        self.dir = tempfile.mkdtemp(prefix="rv-c28-")

    def finish(self, ctx):
        shutil.rmtree(self.dir, ignore_errors=True)

    def bad_call(self, ctx):
        """Calls outside of the domain, whose errors the caller handles"""
        g, lib = ctx.g, ctx.lib
        k = int(g.r.integers(6))

        def boom(x):
            raise RuntimeError("caller")

        try:
            if k == 0:
                lib.debye(0.0, 300.0)
            elif k == 1:
                lib.XRMAC("/nonexistent/table.txt")
            elif k == 2:
                lib.quad_partition(boom, np.array([0.0, 1.0, 2.0]))
            elif k == 3:
                lib.KleinNishina(1).theta(1.0, 2.0)
            elif k == 4:
                lib.NISTElementDataReader("/nonexistent").read_nist_element_data(1)
            else:
                lib.darboux(boom, np.array([0.0, 1.0]))
        except Exception:
            pass
        return "failing call {}".format(k)

    def case(self, ctx, i):
        u = Unusual(ctx.g, self.dir)
        try:
            self.history(ctx, i)
        finally:
            u.restore()

    def history(self, ctx, i):
        g, lib = ctx.g, ctx.lib
        w = World(ctx)
        full = full_state()
        self.depth_args.clear()
        parts = [ops.leaf(g, w) for _ in range(g.integer(2, 5))]
        recipes = parts + [ops.sum_recipe(g, w, parts[:2])]
        if g.chance(0.3):
            # Two lines that differ in one detail
            recipes.append(ops.resonance_recipe(g, parts[0].kind if parts[0].kind in ops.KINDS else None))
        objects = [r.build(lib) for r in recipes]
        done = []
        last = "start"
        for step in range(g.integer(15, 40)):
            if g.chance(0.06):
                last = self.bad_call(ctx)
            state = cheap_state()
            if done and g.chance(0.55):
                op, k, first = g.choice(done[-12:] if g.chance(0.5) else done)
                fresh = g.chance(0.35)
                obj = op.build(lib) if fresh else (objects[k] if k is not None else None)
            else:
                fresh, first = False, None
                if g.chance(0.2):
                    op, k = ops.free_operation(g), None
                else:
                    k = int(g.r.integers(len(recipes)))
                    op = ops.operation(g, recipes[k])
                obj = objects[k] if k is not None else None
            args = op.args()
            mark = fingerprint(args)
            res = op.call(lib, obj, *args)
            ctx.check("arguments unchanged", fingerprint(args) == mark, sig=op.label, op=op.label)
            now = cheap_state()
            bad = [n for n in state if state[n] != now[n]]
            ctx.check("process state unchanged", not bad, sig=op.label, op=op.label, changed=bad)
            if first is None:
                done.append((op, k, ops.snapshot(res)))
            else:
                ctx.check("same result from an equal object" if fresh else "same result when repeated", ops.same(res, first, RTOL),
                          sig=(op.label, last), op=op.label, got=res, first=first, after=last)
            if op.label.endswith(ops.IN_PLACE) and g.chance(0.5) and ops.change(g, args):
                # The caller changes the contents of the same arrays and calls again.
                fresh_args = [ops.copy_arg(a) for a in args]
                again = op.call(lib, obj, *args)
                want = op.call(lib, op.build(lib), *fresh_args)
                ctx.check("same result for changed contents", ops.same(again, want, RTOL), sig=op.label, op=op.label, got=again, expected=want)
            if g.chance(0.3):
                # Arguments that differ very little from those of the previous call, on the used and on a new object
                similar = ops.near(g, op.args())
                got = op.call(lib, obj, *[ops.copy_arg(a) for a in similar])
                want = op.call(lib, op.build(lib), *similar)
                ctx.check("similar arguments", ops.same(got, want, RTOL), sig=op.label, op=op.label, got=got, expected=want)
            if g.chance(0.6):
                v = g.choice([np.nan, 0.0, -1.0, 1e300])
                ops.scribble(args, v)
                ops.scribble(res, v)
            last = op.label
        ctx.note(kinds=[r.kind for r in recipes], steps=len(done))
        if g.chance(0.06):
            # Hundreds of calls with different arguments on one object
            op, k, first = g.choice(done)
            for _ in range(g.integer(100, 300)):
                op.call(lib, objects[k] if k is not None else None, *ops.near(g, op.args()))
            res = op.call(lib, objects[k] if k is not None else None, *op.args())
            ctx.check("same result when repeated", ops.same(res, first, RTOL), sig=(op.label, "many calls"), op=op.label, got=res, first=first)
        # All operations once more, in another order
        for j in g.r.permutation(len(done))[:10]:
            op, k, first = done[int(j)]
            res = op.call(lib, objects[k] if k is not None else None, *op.args())
            ctx.check("same result when repeated", ops.same(res, first, RTOL), sig=(op.label, "end"), op=op.label, got=res, first=first)
        op, k, first = g.choice(done)
        o = objects[k] if k is not None else None
        ctx.later("same result when repeated", lambda: op.call(lib, o, *op.args()), rtol=RTOL, op=op.label)
        if i % 8 < 4:
            ctx.check("tables unchanged", tables(lib) == self.tables, sig=len(done))
        now = full_state()
        bad = [n for n in now if full[n] != now[n]]
        ctx.check("process state unchanged (complete)", not bad, sig=len(done), changed=bad)
