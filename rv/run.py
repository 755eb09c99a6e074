"""Driver: python -m rv.run <property> [--replay FILE]"""

import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.json")


def load_property(pid):
    return importlib.import_module("rv.props." + pid.lower()).Property()


def worker_main(pid, seed, tier, worker, workers, conn, only=None):
    try:
        import numpy as np

        from rv.core import Ctx
        from rv.gen import G
        from rv.lib import Lib, LineCoverage
        from rv.shadow import Registry

        np.seterr(all="ignore")
        import warnings

        warnings.simplefilter("ignore")
        prop = load_property(pid)
        ctx = Ctx(pid, seed, tier, worker, workers)
        cov = LineCoverage()
        lib = Lib() if prop.uses_library else None
        if lib is not None:
            cov.start()
            reg = Registry(lib)
            ctx.lib, ctx.reg, ctx.bus = lib, reg, lib.bus
        prop.setup(ctx)
        n = prop.cases(ctx)
        done = 0
        for i in range(worker, n, workers):
            if only is not None and i > only:
                break
            ctx.start_case(i)
            ctx.g = G(ctx.rng)
            if lib is not None:
                reg.reset()
            warnings.simplefilter("ignore")
            try:
                prop.case(ctx, i)
                ctx.recall()
            except (KeyboardInterrupt, MemoryError):
                raise
            except Exception as e:
                ctx.exception(e)
            ctx.end_case()
            done += 1
        ctx.case_index = -1
        try:
            prop.finish(ctx)
        except Exception as e:
            ctx.exception(e)
        if lib is not None:
            ctx.events = dict(lib.bus.counts)
            ctx.extra["probes"] = lib.n_probes
        ctx.extra["cases"] = done
        r = ctx.result()
        r["lines"] = {f: sorted(s) for f, s in cov.lines.items()}
        conn.send(("ok", r))
    except BaseException:
        conn.send(("error", traceback.format_exc()))
    finally:
        conn.close()


def run_workers(pid, seed, tier, workers, only=None, single=None):
    mpc = mp.get_context("fork")
    jobs = []
    for w in range(workers):
        if single is not None and w != single:
            continue
        a, b = mpc.Pipe(duplex=False)
        p = mpc.Process(target=worker_main, args=(pid, seed, tier, w, workers, b, only))
        p.start()
        b.close()
        jobs.append((w, p, a))
    out, errors = [], []
    for w, p, a in jobs:
        try:
            kind, payload = a.recv()
        except EOFError:
            kind, payload = "error", "worker {} ended without a result".format(w)
        p.join()
        (out if kind == "ok" else errors).append(payload)
    return out, errors


def known_findings(pid):
    if not os.path.exists(KNOWN):
        return {}
    data = json.load(open(KNOWN))
    return {k["key"]: k["what"] for k in data["known"] if k["property"] == pid}


def merge(results):
    m = {"evaluations": 0, "per_monitor": {}, "sig": set(), "violations": [], "n_violations": 0,
         "samples": [], "events": {}, "lines": {}, "extra": {}}
    for r in sorted(results, key=lambda r: r["worker"]):
        m["evaluations"] += r["evaluations"]
        m["n_violations"] += r["n_violations"]
        m["sig"].update(r["signatures"])
        m["violations"] += r["violations"]
        m["samples"] += r["samples"][:2]
        for k, v in r["per_monitor"].items():
            m["per_monitor"][k] = m["per_monitor"].get(k, 0) + v
        for k, v in r["events"].items():
            m["events"][k] = m["events"].get(k, 0) + v
        for k, v in r["lines"].items():
            m["lines"].setdefault(k, set()).update(v)
        for k, v in r["extra"].items():
            if isinstance(v, (int, float)) and k != "probes":
                m["extra"][k] = m["extra"].get(k, 0) + v
            elif isinstance(v, dict):
                d = m["extra"].setdefault(k, {})
                for kk, vv in v.items():
                    d[kk] = d.get(kk, 0) + vv
            else:
                m["extra"][k] = v
    return m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    args = ap.parse_args()
    pid = args.property.upper()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    prop = load_property(pid)
    t0 = time.time()
    ev_dir = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(ev_dir, "replay"), exist_ok=True)

    if args.replay:
        rep = json.load(open(args.replay))
        only = rep["violations"][0]["case"]
        single = rep["violations"][0]["worker"]
        if only < 0:
            only = None
        results, errors = run_workers(
            pid, rep["seed"], rep["tier"], rep["workers"], only=only, single=single
        )
        for e in errors:
            print(e, file=sys.stderr)
        m = merge(results)
        print(json.dumps(m["violations"], indent=1))
        if errors:
            return 2
        return 1 if m["violations"] else 0

    workers = prop.workers
    results, errors = run_workers(pid, seed, tier, workers)
    m = merge(results)
    known = known_findings(pid)
    fresh = [v for v in m["violations"] if v["key"] is None or v["key"] not in known]
    seen_known = sorted({v["key"] for v in m["violations"] if v["key"] in known and v["key"] is not None})
    missing = [k for k in prop.deciding if not m["per_monitor"].get(k)]

    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": m["evaluations"],
            "distinct_nontrivial": len(m["sig"]),
            "rule": prop.rule,
            "samples": m["samples"][:8] or [{"monitors": m["per_monitor"]}],
            "cases": m["extra"].get("cases", 0),
            "monitor_evaluations": m["per_monitor"],
            "probe_events": m["events"],
            "library_lines_executed": {k: len(v) for k, v in sorted(m["lines"].items())},
            "other": {k: v for k, v in m["extra"].items() if k != "cases"},
            "known_findings_observed": seen_known,
            "deciding_monitors_never_reached": missing,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh),
    }
    tmp = os.path.join(ev_dir, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, os.path.join(ev_dir, pid + ".json"))

    for k in seen_known:
        print("KNOWN-FINDING: property={} {}".format(pid, known[k]))
    for e in errors:
        print(e, file=sys.stderr)
    if fresh:
        path = os.path.join(ev_dir, "replay", "{}-{}-{}.json".format(pid, tier, seed))
        with open(path, "w") as f:
            json.dump(
                {"property": pid, "seed": seed, "tier": tier, "workers": workers,
                 "violations": fresh}, f, indent=1)
        for v in fresh[:5]:
            print("  {}: {}".format(v["monitor"], json.dumps(v["detail"])[:600]))
        print("VIOLATION property={} replay={}".format(pid, path))
        return 1
    if errors:
        print("ERROR property={}: a worker failed".format(pid))
        return 2
    if missing:
        print("INCONCLUSIVE property={}: monitors never reached: {}".format(pid, missing))
        return 3
    print(
        "HELD property={} tier={} seed={} evaluations={} distinct={} wall_s={}".format(
            pid, tier, seed, m["evaluations"], len(m["sig"]), evidence["wall_s"]
        )
    )
    return 0


if __name__ == "__main__":
    sys.exit(main())
