"""Run in a separate interpreter: imports modules of the library in a given order, observes the process
around each import, then computes a fixed set of results.  Prints one line of JSON to the descriptor
given in the configuration.
"""
import json
import os
import sys

cfg = json.loads(sys.argv[1])
out = os.fdopen(cfg["fd"], "w", encoding="ascii")
if cfg.get("path") is not None:
    sys.path.insert(0, cfg["path"])

import decimal
import gc
import hashlib
import importlib
import io
import locale
import logging
import random
import signal
import threading
import warnings

import numpy as np
import scipy.constants
import scipy.integrate
import scipy.interpolate
import scipy.optimize
import scipy.special
import scipy.stats


def umask():
    m = os.umask(0o022)
    os.umask(m)
    return m


def directory():
    try:
        return os.getcwd()
    except FileNotFoundError:
        return None


def state():
    return {
        "numpy error handling": repr(sorted(np.geterr().items())),
        "warning filters": repr(warnings.filters),
        "working directory": directory(),
        "environment": hashlib.sha1(repr(sorted(os.environ.items())).encode("utf8", "surrogateescape")).hexdigest(),
        "open files": len(os.listdir("/proc/self/fd")),
        "search path": repr(sys.path),
        "numpy random": hashlib.sha1(np.random.get_state()[1].tobytes()).hexdigest(),
        "print options": repr(sorted(np.get_printoptions().items())),
        "standard random": hashlib.sha1(repr(random.getstate()).encode()).hexdigest(),
        "numpy random position": repr(np.random.get_state()[2:]),
        "locale": locale.setlocale(locale.LC_ALL),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "garbage collection": repr((gc.isenabled(), gc.get_threshold(), gc.get_debug())),
        "threads": threading.active_count(),
        "file mode mask": umask(),
        "decimal context": repr(decimal.getcontext()),
        "interrupt handler": repr(signal.getsignal(signal.SIGINT)),
        "logging": repr((logging.root.level, logging.root.handlers, logging.root.manager.disable)),
        "warning display": repr(warnings.showwarning),
        "hooks": repr((sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile())),
        "constants": hashlib.sha1(repr(sorted(scipy.constants.physical_constants.items())).encode()).hexdigest(),
    }


res = {"imports": [], "problems": []}
if cfg.get("vanish"):
    # The working directory does not exist any more.
    os.mkdir(cfg["vanish"])
    os.chdir(cfg["vanish"])
    os.rmdir(cfg["vanish"])
if cfg.get("early_filters"):
    # Warnings that the library itself causes become errors from here on.
    warnings.simplefilter("error")
for f in cfg.get("ignore", []):
    warnings.filterwarnings("ignore", message=f)
before = state()
for name in cfg["order"]:
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        try:
            importlib.import_module(name)
        finally:
            said, err = sys.stdout.getvalue(), sys.stderr.getvalue()
            sys.stdout, sys.stderr = o, e
    except BaseException as ex:
        res["problems"].append({"import": name, "error": type(ex).__name__ + ": " + str(ex)})
        res["failed"] = True
        break
    el = sys.modules.get("ries.constituents.element")
    if el is not None and hasattr(el, "X"):
        seen = hashlib.sha1(repr((sorted(el.X.items()), sorted((k, e.Z, e.X, float(e.amu), e.density) for k, e in el.natural_elements.items()))).encode()).hexdigest()
        if seen != res.setdefault("element tables", seen):
            res["problems"].append({"import": name, "changed": ["element tables"]})
    after = state()
    changed = [k for k in before if before[k] != after[k]]
    res["imports"].append(name)
    if said or changed:
        res["problems"].append({"import": name, "printed": said[:300], "changed": changed})
    if err:
        res.setdefault("stderr", []).append({"import": name, "text": err[:3000]})

if not res.get("failed"):
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    if cfg.get("chdir"):
        os.chdir(cfg["chdir"])
    m = importlib.import_module
    for name in cfg["all"]:
        m(name)
    R = {}

    def rec(k, v):
        v = np.asarray(v, dtype=float)
        R[k] = [float.hex(float(x)) for x in v.ravel()[:40]]

    st = m("ries.constituents.state")
    el = m("ries.constituents.element")
    ne = el.natural_elements
    xr = m("ries.nonresonant.xrmac")
    deb = m("ries.resonance.debye_model")
    h = hashlib.sha1()
    for s in sorted(ne):
        e = ne[s]
        h.update(repr((s, e.Z, e.X, "%.12g" % e.amu, e.density, sorted((k, float(v)) for k, v in e.abundances.items()), sorted((k, float(v.amu)) for k, v in e.isotopes.items()))).encode())
    R["elements"] = h.hexdigest()
    R["number of elements and symbols"] = [float.hex(float(len(ne))), float.hex(float(len(el.X)))]
    R["element symbols"] = hashlib.sha1(repr(sorted(el.X.items())).encode()).hexdigest()
    R["Debye table"] = hashlib.sha1(repr(sorted(deb.room_temperature_T_D.items())).encode()).hexdigest()
    for n in ("xrmac_cm2_per_g", "xrmac_fm2_per_atom"):
        h = hashlib.sha1()
        for s in sorted(getattr(xr, n)):
            h.update(s.encode())
            # Digits beyond those that may depend on the order of a summation
            h.update(" ".join("%.8e" % v for v in np.ravel(getattr(xr, n)[s].data)).encode())
        R[n] = h.hexdigest()
        rec(n + " Pb", getattr(xr, n)["Pb"](np.array([0.01, 0.1, 1.0, 10.0])))
    g = st.GroundState("0^+_1", 0, 1)
    x = st.State("1^-_1", 2, -1, 5.0, {"0^+_1": 1e-6, "2^+_1": 3e-7})
    f = st.State("2^+_1", 4, 1, 2.0, {"0^+_1": 1e-8})
    T = float(deb.effective_temperature_debye_approximation(293.0, 87.0))
    rec("T", T)
    lines = {
        "BW": m("ries.resonance.breit_wigner").BreitWigner(g, x),
        "BWf": m("ries.resonance.breit_wigner").BreitWigner(g, x, f),
        "G": m("ries.resonance.gauss").Gauss(g, x, ne["Pb"].amu, T),
        "PV": m("ries.resonance.pseudo_voigt").PseudoVoigt(g, x, ne["Pb"].amu, T),
        "V": m("ries.resonance.voigt").Voigt(g, x, ne["Pb"].amu, T),
        "R": m("ries.resonance.resonance").Resonance(g, x, None, m("ries.resonance.recoil").FreeNucleusRecoil(208.0)),
    }
    E = 5.0 + np.array([-1e-3, -1e-5, -1e-6, 0, 1e-6, 1e-4])
    total = m("ries.nonresonant.klein_nishina").KleinNishina(82) + xr.xrmac_fm2_per_atom["Pb"]
    for k, r in sorted(lines.items()):
        rec(k, r(E))
        rec(k + " I", r.energy_integrated_cross_section)
        rec(k + " coverage", r.coverage_interval(0.5))
        grid = r.equidistant_probability_grid((4.9, 5.1), 9)
        rec(k + " grid", grid)
        rec(k + " darboux", m("ries.integration.darboux").darboux(r, grid))
        total = total + 0.5 * r
    rec("sum", total(E))
    rec("sum grid", total.equidistant_probability_grid((4.9, 5.1), 5))
    rec("quad", m("ries.integration.quad_partition").quad_partition(lambda a, b: np.sin(a) * b, np.array([0.0, 1.0, 2.0]), [[0.0, 1.0]]))
    kn = m("ries.nonresonant.klein_nishina").KleinNishina(1)
    rec("KN", [kn.cs_total(1.0), kn.theta(1.0, 0.5), kn.cs_diff_dEp(1.0, 0.5), kn.cs_diff_dOmega(1.0, 0.3, 0.2)])
    res["results"] = R
json.dump(res, out)
out.close()
