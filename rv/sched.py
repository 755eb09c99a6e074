"""Deterministic thread schedules: one thread runs at a time, switches are forced at lines of the library.

The token moves at LINE events (PEP 669) of code below the library's directory, chosen by a seeded
generator.  A thread that waits for the token longer than `patience` (because the holder blocks on a
lock of the code under test) runs on without it, so a lock in the library cannot stop the schedule;
no verdict depends on this.
"""

import os
import sys
import threading

import numpy as np

from rv.lib import REPO

TOOL = 4
ROOT = os.path.realpath(REPO) + os.sep + "ries" + os.sep


class Schedule:
    patience = 5.0

    def __init__(self, seed, p):
        self.rng = np.random.Generator(np.random.PCG64(seed))
        self.p = p
        self.lock = threading.Lock()
        self.events = {}
        self.alive = []
        self.local = threading.local()
        self.switches = 0
        self.points = set()
        self.impatient = 0

    def run(self, jobs):
        """Run the callables in one thread each; returns their results or exceptions."""
        n = len(jobs)
        out = [None] * n
        self.events = {k: threading.Event() for k in range(n)}
        self.alive = list(range(n))

        def body(k):
            self.local.me = k
            self.events[k].wait()
            self.events[k].clear()
            try:
                out[k] = ("ok", jobs[k]())
            except BaseException as e:
                out[k] = ("error", e)
            finally:
                self.local.me = None
                with self.lock:
                    self.alive.remove(k)
                    nxt = self.alive[int(self.rng.integers(len(self.alive)))] if self.alive else None
                if nxt is not None:
                    self.events[nxt].set()

        mon = sys.monitoring
        mon.use_tool_id(TOOL, "rv-schedule")
        mon.register_callback(TOOL, mon.events.LINE, self.line)
        mon.set_events(TOOL, mon.events.LINE)
        old = sys.getswitchinterval()
        threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
        try:
            for t in threads:
                t.start()
            self.events[int(self.rng.integers(n))].set()
            for t in threads:
                t.join()
        finally:
            mon.set_events(TOOL, 0)
            mon.register_callback(TOOL, mon.events.LINE, None)
            mon.free_tool_id(TOOL)
            sys.setswitchinterval(old)
        return out

    def line(self, code, lineno):
        if not code.co_filename.startswith(ROOT):
            return sys.monitoring.DISABLE
        me = getattr(self.local, "me", None)
        if me is None:
            return None
        with self.lock:
            if len(self.alive) < 2 or self.rng.random() >= self.p:
                return None
            others = [k for k in self.alive if k != me]
            nxt = others[int(self.rng.integers(len(others)))]
            self.switches += 1
            self.points.add((code.co_filename[len(ROOT):], lineno))
        self.events[nxt].set()
        if not self.events[me].wait(self.patience):
            self.impatient += 1
        self.events[me].clear()
        return None


def free_running(jobs, interval=1e-6):
    """Real concurrency with very short switch intervals"""
    out = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))

    def body(k):
        try:
            gate.wait()
            out[k] = ("ok", jobs[k]())
        except BaseException as e:
            out[k] = ("error", e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    try:
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    return out
