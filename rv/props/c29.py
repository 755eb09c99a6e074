import traceback
import warnings

from rv import ops
from rv.base import Property as Base
from rv.props.c28 import cheap_state, tables
from rv.sched import Schedule, free_running
from rv.world import World

RTOL = 1e-13


class Property(Base):
    rule = (
        "A case is one program of 2 to 8 threads with 2 to 6 operations each on shared and private objects (in a third of the cases all threads use one object in the same way), whose results "
        "were first observed sequentially; then it runs under two seeded schedules with switches forced at library lines and once "
        "free-running with microsecond switch intervals. Distinct: operation, schedule kind, number of threads; switch points are counted."
    )
    deciding = ["same result as sequentially (scheduled)", "same result as sequentially (free running)", "no error", "same behaviour afterwards", "process state unchanged", "tables unchanged", "switches forced"]
    quick_cases = 260
    thorough_cases = 3500
    assumptions = ["Schedules are forced at line granularity of the library's own code; native code is not interleaved.", "Results are compared to 1e-13 relative."]

    def setup(self, ctx):
        self.digest = tables(ctx.lib)

    def case(self, ctx, i):
        g, lib = ctx.g, ctx.lib
        w = World(ctx)
        bus = ctx.bus
        bus.enabled = False
        # A setting of the caller, so that a lost or reordered filter is seen
        filters = list(warnings.filters)
        warnings.filterwarnings("ignore", message="rv caller {}".format(i))
        try:
            self.run(ctx, g, lib, w, i)
        finally:
            warnings.filters[:] = filters
            warnings._filters_mutated()
            bus.enabled = True
        if i % 10 < 4:
            ctx.check("tables unchanged", tables(lib) == self.digest, sig=i % 10)

    def run(self, ctx, g, lib, w, i):
        n = g.choice([2, 2, 3, 4, 8])
        parts = [ops.leaf(g, w) for _ in range(g.integer(1, 3))]
        recipes = parts + [ops.sum_recipe(g, w, parts)]
        programs = []
        # Sometimes all threads do the same on the same object
        hot = ops.operation(g, recipes[int(g.r.integers(len(recipes)))]) if g.chance(0.35) else None
        for _ in range(n):
            prog = [(hot, 1), (hot, 1)] if hot else []
            for _ in range(g.integer(0, 3) if hot else g.integer(2, 6)):
                op = ops.free_operation(g) if g.chance(0.2) else ops.operation(g, recipes[int(g.r.integers(len(recipes)))])
                prog.append((op, int(g.r.integers(3))))
            if not hot and g.chance(0.4) and programs:
                # The same operation as another thread, with other arguments
                prog[0] = (ops.operation(g, programs[0][0][0].recipe) or prog[0][0], 0) if programs[0][0][0].recipe is not ops.NONE else prog[0]
            programs.append(prog)
        # Sequential observation on separate, equal objects
        expected = [[ops.snapshot(op.call(lib, op.build(lib), *op.args())) for op, _ in prog] for prog in programs]
        ctx.note(threads=n, operations=[op.label for op, _ in programs[0]], kinds=[r.kind for r in recipes])
        schedules = [("scheduled", 0.05), ("scheduled", 0.5), ("free running", None)]
        for name, p in schedules:
            shared = {id(r): r.build(lib) for r in recipes}
            state, filters = cheap_state(), list(warnings.filters)

            def job(k):
                def f():
                    res = []
                    for op, how in programs[k]:
                        o = shared.get(id(op.recipe)) if how else op.build(lib)
                        if o is None:
                            o = op.build(lib)
                        args = op.args()
                        r = op.call(lib, o, *args)
                        res.append(ops.snapshot(r))
                        ops.scribble(args)
                        ops.scribble(r)
                    return res
                return f

            jobs = [job(k) for k in range(n)]
            if p is None:
                out = free_running(jobs)
            else:
                s = Schedule([ctx.seed & 0xFFFFFFFF, i, int(p * 100)], p)
                out = s.run(jobs)
                ctx.extra["forced switches"] = ctx.extra.get("forced switches", 0) + s.switches
                ctx.extra["switch points"] = ctx.extra.get("switch points", 0) + len(s.points)
                ctx.extra["waits given up"] = ctx.extra.get("waits given up", 0) + s.impatient
                if s.switches:
                    ctx.check("switches forced", True, sig=(n, p))
                    for pt in s.points:
                        ctx.signatures.add(hash_point(pt))
            now = cheap_state()
            changed = [k for k in state if state[k] != now[k]]
            if not ctx.check("process state unchanged", not changed, sig=(name, n), changed=changed, before=[state[k] for k in changed], after=[now[k] for k in changed]):
                warnings.filters[:] = filters
                warnings._filters_mutated()
            for k in range(n):
                kind, res = out[k]
                if not ctx.check("no error", kind == "ok", sig=(name, n), error=repr(res), traceback="".join(traceback.format_exception(res))[-2000:] if kind != "ok" else None, schedule=name):
                    continue
                for (op, how), a, b in zip(programs[k], res, expected[k]):
                    ctx.check("same result as sequentially ({})".format(name), ops.same(a, b, RTOL), sig=(op.label, n, how > 0, p), op=op.label, got=a, sequential=b, threads=n)
            # The shared objects still behave as before.
            for k in range(n):
                for (op, how), b in zip(programs[k][:2], expected[k][:2]):
                    o = shared.get(id(op.recipe)) or op.build(lib)
                    r = op.call(lib, o, *op.args())
                    ctx.check("same behaviour afterwards", ops.same(r, b, RTOL), sig=(op.label, name), op=op.label, got=r, sequential=b)


def hash_point(pt):
    import zlib

    return zlib.crc32(repr(pt).encode())
