import json
import os
import shutil
import subprocess
import sys
import tempfile

from rv.base import Property as Base
from rv.lib import REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROBE = os.path.join(HERE, "importprobe.py")
# Text of the warning from tables with zero cross section, see known_findings.json
ZERO = "divide by zero encountered in log10"


def modules():
    out = ["ries"]
    base = os.path.join(REPO, "ries")
    for d, sub, files in os.walk(base):
        sub.sort()
        if "__pycache__" in d:
            continue
        pkg = "ries" + d[len(base):].replace(os.sep, ".")
        if d != base and "__init__.py" in files:
            out.append(pkg)
        for f in sorted(files):
            if f.endswith(".py") and f != "__init__.py":
                out.append(pkg + "." + f[:-3])
    return sorted(set(out))


class Property(Base):
    uses_library = False
    rule = (
        "A case is one interpreter started with a generated configuration (order and subset of imports, directory, flags, "
        "locale, encoding, hash seed, byte-code cache, warnings as errors), observed around each import and compared with the results in the default "
        "configuration. Distinct: configuration."
    )
    deciding = ["same tables", "same results", "imports without error", "import has no side effects", "import is silent", "warnings as errors"]
    quick_cases = 60
    thorough_cases = 700
    assumptions = ["Configurations of one interpreter version (3.12) on one platform."]

    def setup(self, ctx):
        self.dir = tempfile.mkdtemp(prefix="rv-c31-")
        self.mods = modules()
        base = self.start({"order": self.mods, "flags": [], "env": {}, "cwd": "/"})
        self.base = base.get("results")
        self.base_error = base
        # A directory with files of the same names as the data files
        d = os.path.join(self.dir, "decoy")
        for at, sub, files in os.walk(os.path.join(REPO, "ries")):
            for name in files:
                if name.endswith((".txt", ".dat", ".csv", ".json")):
                    with open(os.path.join(at, name), "rb") as f:
                        text = f.read().replace(b"1", b"2")
                    parts = os.path.relpath(at, REPO).split(os.sep)
                    for k in range(len(parts) + 1):
                        to = os.path.join(d, *parts[k:])
                        os.makedirs(to, exist_ok=True)
                        with open(os.path.join(to, name), "wb") as f:
                            f.write(text)

    def finish(self, ctx):
        shutil.rmtree(self.dir, ignore_errors=True)

    def start(self, c):
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG"))}
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONHASHSEED"] = "0"
        env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "1"
        env.update(c["env"])
        for k in [k for k, v in env.items() if v is None]:
            del env[k]
        r, w = os.pipe()
        cfg = {"order": c["order"], "all": self.mods, "fd": w, "path": c.get("path", REPO), "chdir": c.get("chdir"),
               "early_filters": c.get("early_filters", False), "ignore": c.get("ignore", []), "vanish": c.get("vanish")}
        p = subprocess.Popen([sys.executable, *c["flags"], PROBE, json.dumps(cfg)], cwd=c["cwd"], env=env, pass_fds=[w],
                             stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        os.close(w)
        with os.fdopen(r) as f:
            text = f.read()
        o, e = p.communicate()
        try:
            res = json.loads(text)
        except ValueError:
            res = {"failed": True, "problems": [{"error": "interpreter ended: " + e.decode("utf8", "replace")[-1500:]}], "imports": []}
        res["code"] = p.returncode
        res["out"] = o.decode("utf8", "replace")
        return res

    def same(self, a, b):
        return a is not None and len(a) == len(b) and all(x == y or abs(float.fromhex(x) - float.fromhex(y)) <= 1e-12 * abs(float.fromhex(y)) for x, y in zip(a, b))

    def case(self, ctx, i):
        g = ctx.g
        c = {"env": {}, "flags": [], "cwd": "/"}
        tags = []
        # Order and subset
        order = [self.mods[int(k)] for k in g.r.permutation(len(self.mods))]
        k = int(g.r.integers(4))
        if k == 0:
            order = order[:1]
        elif k == 1:
            order = order[: g.integer(2, len(order))]
        elif k == 2 and i % 3 == 0:
            order = list(self.mods[::-1])
        first = i // 2
        if i % 2 == 0 and first < len(self.mods):
            # Every module once as the first one
            order = [self.mods[first]] + [m for m in order if m != self.mods[first]]
        c["order"] = order
        tags.append(order[0])
        cwd = g.choice(["/", self.dir, os.path.join(self.dir, "decoy"), os.path.join(self.dir, "decoy"), REPO, os.path.join(REPO, "ries"), "/proc/self"])
        c["cwd"] = cwd
        tags.append(os.path.basename(cwd))
        if cwd == REPO and g.chance(0.5):
            c["path"] = g.choice([".", ""])
            tags.append("relative path")
        elif g.chance(0.3):
            c["chdir"] = g.choice(["/", self.dir])
        elif g.chance(0.15):
            c["vanish"] = os.path.join(self.dir, "vanish{}".format(i))
            tags.append("no directory")
        opt = g.choice(["", "", "-O", "-OO", "-B", "-X dev", "-X utf8", "-s"])
        c["flags"] += opt.split()
        tags.append(opt)
        loc = g.choice([{}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "POSIX"}, {"LC_ALL": "C.UTF-8"},
                        {"LANG": "de_DE.ISO-8859-1"}, {"PYTHONIOENCODING": "ascii"}, {"LC_NUMERIC": "de_DE.UTF-8"}])
        c["env"].update(loc)
        tags.append(tuple(sorted(loc.items())))
        c["env"]["PYTHONHASHSEED"] = str(g.choice([0, 1, int(g.r.integers(1, 4294967295))]))
        if g.chance(0.3):
            c["env"]["PYTHONDONTWRITEBYTECODE"] = None
            cache = os.path.join(self.dir, g.choice(["cache", "cache2", "missing/deep"]))
            c["env"]["PYTHONPYCACHEPREFIX"] = g.choice([cache, "/proc/no-cache"])
            tags.append("cache")
        if g.chance(0.15):
            c["env"].update({"HOME": None, "TMPDIR": "/nonexistent", "TZ": "Asia/Kathmandu"})
            tags.append("no home")
        strict = i % 3 == 1
        if strict:
            c["early_filters"] = True
            c["ignore"] = [ZERO]
            tags.append("warnings as errors")
        res = self.start(c)
        sig = tuple(tags)
        ctx.note(configuration=tags, first=order[0], imports=len(res.get("imports", [])))
        info = dict(configuration={k: v for k, v in c.items() if k != "order"}, order=order[:6])
        ok = ctx.check("imports without error", not res.get("failed") and res["code"] == 0, sig=sig, problems=res["problems"], code=res["code"], **info)
        if strict:
            ctx.check("warnings as errors", ok, sig=sig, problems=res["problems"], **info)
        if not ok:
            return
        ctx.check("import has no side effects", not res["problems"], sig=sig, problems=res["problems"], **info)
        quiet = res["out"] == ""
        for s in res.get("stderr", []):
            left = [l for l in s["text"].splitlines() if l.strip() and not l.startswith("  ") and ZERO not in l]
            quiet = quiet and not left
        ctx.check("import is silent", quiet, sig=sig, out=res["out"][:300], err=res.get("stderr"), **info)
        if self.base is None:
            ctx.check("same results", False, sig=sig, problem=self.base_error)
            return
        R = res["results"]
        tab = ("elements", "element symbols", "Debye table", "xrmac_cm2_per_g", "xrmac_fm2_per_atom")
        bad = [k for k in tab if R.get(k) != self.base[k]]
        ctx.check("same tables", not bad, sig=sig, different=bad, **info)
        bad = [k for k in self.base if k not in tab and not self.same(R.get(k), self.base[k])]
        ctx.check("same results", not bad, sig=sig, different=[(k, R.get(k), self.base[k]) for k in bad[:2]], **info)
        if i % 12 == 4:
            # Without the exception for the known warning
            c = {"env": {}, "flags": [], "cwd": "/", "order": list(self.mods), "early_filters": True}
            res = self.start(c)
            known = [p for p in res["problems"] if ZERO in p.get("error", "")]
            ctx.check("import without any warning", not res.get("failed"), sig="strict", key="import-warning" if known and len(known) == len(res["problems"]) else None, problems=res["problems"])
