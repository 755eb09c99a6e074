"""Monitor context: records every evaluation of a monitor and decides the verdict."""

import json
import math
import time
import traceback
import zlib

import numpy as np

MAX_RECORDED = 12


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, bool)) or x is None:
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x) if math.isfinite(x) else repr(float(x))
    if isinstance(x, np.ndarray):
        if x.size > 12:
            return {
                "shape": list(x.shape),
                "dtype": str(x.dtype),
                "head": jsonable(x.ravel()[:5].tolist(), depth + 1),
                "tail": jsonable(x.ravel()[-3:].tolist(), depth + 1),
            }
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:30]}
    if isinstance(x, (list, tuple, set)):
        x = list(x)
        r = [jsonable(v, depth + 1) for v in x[:12]]
        if len(x) > 12:
            r.append("... {:d} entries".format(len(x)))
        return r
    return repr(x)[:200]


class Ctx:
    """One worker's view of a check."""

    def __init__(self, prop, seed, tier, worker=0, workers=1):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.worker, self.workers = worker, workers
        self.case_index = None
        self.rng = None
        self.evaluations = 0
        self.per_monitor = {}
        self.signatures = set()
        self.violations = []
        self.n_violations = 0
        self.samples = []
        self.case_info = {}
        self.events = {}
        self.extra = {}
        self.ghosts = []

    @property
    def quick(self):
        return self.tier == "quick"

    def start_case(self, i):
        self.case_index = i
        self.case_info = {}
        self.rng = np.random.Generator(
            np.random.PCG64(
                np.random.SeedSequence([self.seed & 0xFFFFFFFF, zlib.crc32(self.prop.encode()), i])
            )
        )

    def note(self, **kw):
        """Describe the current case (kept for the evidence and for replays)."""
        self.case_info.update(kw)

    def end_case(self):
        if len(self.samples) < 3 and self.case_info:
            self.samples.append(
                {"case": self.case_index, **{k: jsonable(v) for k, v in self.case_info.items()}}
            )

    # --------------------------------------------------------------------------------- history
    def later(self, monitor, fn, rtol=1e-12, **info):
        """Remember a query; it is repeated in later cases and must still give the same result."""
        from rv.ops import snapshot

        entry = (monitor, fn, snapshot(fn()), rtol, {"from_case": self.case_index, **info})
        if len(self.ghosts) < 150:
            self.ghosts.append(entry)
        else:
            self.ghosts[int(self.rng.integers(len(self.ghosts)))] = entry

    def recall(self):
        from rv.ops import same

        for _ in range(min(2, len(self.ghosts))):
            monitor, fn, first, rtol, info = self.ghosts[int(self.rng.integers(len(self.ghosts)))]
            if info["from_case"] == self.case_index:
                continue
            now = fn()
            self.check(monitor, same(now, first, rtol), sig="recalled", first=first, now=now, **info)

    # ------------------------------------------------------------------------------- monitors
    def evaluated(self, monitor, sig=None):
        self.evaluations += 1
        self.per_monitor[monitor] = self.per_monitor.get(monitor, 0) + 1
        if sig is not None and len(self.signatures) < 400000:
            self.signatures.add(zlib.crc32(repr((monitor, sig)).encode()))

    def fail(self, monitor, /, key=None, **detail):
        self.n_violations += 1
        entry = {
            "monitor": monitor,
            "key": key,
            "case": self.case_index,
            "worker": self.worker,
            "case_info": {k: jsonable(v) for k, v in self.case_info.items()},
            "detail": {k: jsonable(v) for k, v in detail.items()},
        }
        if key is not None:
            if any(v["key"] == key for v in self.violations):
                return
            self.violations.append(entry)
        elif sum(v["key"] is None for v in self.violations) < MAX_RECORDED:
            self.violations.append(entry)

    def check(self, monitor, ok, sig=None, key=None, **detail):
        self.evaluated(monitor, sig)
        try:
            ok = bool(ok)
        except Exception:
            ok = False
        if not ok:
            self.fail(monitor, key=key, **detail)
        return ok

    def close(self, monitor, got, exp, rtol=0.0, atol=0.0, sig=None, key=None, same_shape=True, **detail):
        """|got - exp| <= atol + rtol |exp| elementwise, with identical shapes"""
        self.evaluated(monitor, sig)
        try:
            g = np.asarray(got, dtype=float)
            e = np.asarray(exp, dtype=float)
        except Exception:
            self.fail(monitor, key=key, got=got, expected=exp, problem="not numeric", **detail)
            return False
        if same_shape and g.shape != e.shape:
            self.fail(
                monitor, key=key, got_shape=g.shape, expected_shape=e.shape, problem="shape",
                got=g, **detail
            )
            return False
        with np.errstate(all="ignore"):
            tol = np.asarray(atol, dtype=float) + rtol * np.abs(e)
            ok = (np.abs(g - e) <= tol) | (g == e)
            ok |= np.isnan(g) & np.isnan(e)
        if ok.all():
            return True
        bad = np.argwhere(~np.broadcast_to(ok, np.broadcast(g, e).shape))
        k = tuple(bad[0]) if len(bad) else ()
        self.fail(
            monitor,
            key=key,
            bad_elements=int(len(bad)),
            elements=int(ok.size),
            index=[int(i) for i in k],
            got=float(np.broadcast_to(g, ok.shape)[k]),
            expected=float(np.broadcast_to(e, ok.shape)[k]),
            tolerance=float(np.broadcast_to(tol, ok.shape)[k]),
            **detail
        )
        return False

    def exception(self, exc):
        """An exception escaped from a case: the library refused an input inside of the domain."""
        self.evaluated("no unexpected exception")
        self.fail(
            "no unexpected exception",
            error=type(exc).__name__ + ": " + str(exc),
            traceback=traceback.format_exc()[-3000:],
        )

    def result(self):
        return {
            "worker": self.worker,
            "evaluations": self.evaluations,
            "per_monitor": self.per_monitor,
            "signatures": sorted(self.signatures),
            "violations": self.violations,
            "n_violations": self.n_violations,
            "samples": self.samples,
            "events": self.events,
            "extra": self.extra,
        }
