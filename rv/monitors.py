"""Event monitors that several checks share"""

import numpy as np

from rv import model as M
from rv.shadow import ResonanceShadow


def bucket(v):
    """Decade of a positive number, for signatures"""
    v = abs(float(v))
    return None if v == 0 or not np.isfinite(v) else int(np.floor(np.log10(v)))


def value_monitor(ctx, name, kinds=None, rate=1):
    """Every evaluation of an object with a shadow must return the value of the reference model."""
    count = [0]

    def on_call(ev):
        sh = ctx.reg.get(ev.obj)
        if sh is None or ev.error is not None:
            return
        if kinds is not None and not isinstance(sh, kinds):
            return
        count[0] += 1
        if count[0] > 3000 and count[0] % rate:
            return
        E = ev.arg(0, None, "E")
        if E is None:
            E = ev.arg(0, None, "energy")
        absolute = ev.arg(1, True, "input_is_absolute_energy")
        E = np.asarray(E, dtype=float)
        if isinstance(sh, ResonanceShadow):
            if not absolute:
                E = E + sh.E_r
            sig = (sh.kind, bucket(sh.E_r), bucket(sh.line.w / sh.E_r), np.ndim(E), bool(absolute),
                   sh.final is not None, sh.init.E > 0)
        else:
            sig = (type(sh).__name__, np.ndim(E), int(np.log2(1 + E.size)))
        v, t = sh.value(E)
        ctx.close(name, ev.result, v, atol=t, sig=sig, kind=getattr(sh, "kind", type(sh).__name__), E=E)

    ctx.bus.on("__call__", on_call)


def strength_monitor(ctx, name):
    """Every constructed resonance must report the values of the reference model."""

    def on_init(ev, sh):
        if not isinstance(sh, ResonanceShadow):
            return
        o = ev.obj
        sig = (sh.kind, sh.init.two_J, sh.exc.two_J, len(sh.exc.widths), sh.final is not None,
               sh.init.E > 0, bucket(sh.E_r), bucket(sh.exc.width))
        info = dict(kind=sh.kind, E_r=sh.E_r, widths=sh.exc.widths, two_J=(sh.init.two_J, sh.exc.two_J))
        # The initial energy difference may be formed with rounding errors of the level energies.
        rel = 4 * np.spacing(sh.exc.E) / sh.dE + 1e-13
        ctx.close(name + ": resonance energy", o.resonance_energy, sh.E_r, rtol=rel, sig=sig, **info)
        ctx.close(name + ": statistical factor", o.statistical_factor, sh.g, rtol=1e-13, sig=sig, **info)
        ctx.close(name + ": branching ratio", o.final_state_branching_ratio, sh.b, rtol=1e-12, sig=sig, **info)
        ctx.close(
            name + ": energy-integrated cross section",
            o.energy_integrated_cross_section, sh.I, rtol=5e-9 + 2 * rel, sig=sig, **info
        )

    ctx.reg.listeners.append(on_init)
