import hashlib
import os
import shutil
import subprocess
import sys
import tarfile
import tempfile
import zipfile

from rv.lib import REPO
from rv.props import c31

METHODS = ("install", "build", "wheel", "source archive", "copy", "link")


def fingerprint(path):
    """Names and contents of all files"""
    out = {}
    for d, sub, files in os.walk(path):
        for f in files:
            with open(os.path.join(d, f), "rb") as h:
                out[os.path.relpath(os.path.join(d, f), path)] = hashlib.sha1(h.read()).hexdigest()
    return out


class Property(c31.Property):
    uses_library = False
    rule = (
        "A case is one copy of the library, made by one of six ways of installation in a generated directory, imported from "
        "another working directory. Distinct: way of installation, directory, order of imports."
    )
    deciding = ["installation succeeds", "all modules are there", "same tables", "same results", "copy is not changed by use"]
    quick_cases = 24
    thorough_cases = 300
    assumptions = ["Installation with the setuptools version of the environment, without network."]

    def setup(self, ctx):
        c31.Property.setup(self, ctx)
        self.source = os.path.join(self.dir, "source")
        shutil.copytree(REPO, self.source, ignore=shutil.ignore_patterns(".git", "__pycache__", "*.egg-info", "build", "dist"))

    def run(self, at, *args):
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "RIES"))}
        env.update(PYTHONDONTWRITEBYTECODE="1", PIP_NO_INDEX="1")
        p = subprocess.run([sys.executable, *args], cwd=at, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, errors="replace")
        return p.returncode, (p.stdout + p.stderr)[-1500:]

    def install(self, g, method, at):
        """Installs a copy below a directory. Returns the import path, exit code and output."""
        work = os.path.join(at, "work")
        if method in ("copy", "link"):
            to = os.path.join(at, "lib")
            os.makedirs(to)
            if method == "link":
                os.symlink(os.path.join(self.source, "ries"), os.path.join(to, "ries"))
            else:
                shutil.copytree(os.path.join(self.source, "ries"), os.path.join(to, "ries"))
            return to, 0, ""
        shutil.copytree(self.source, work)
        if method == "build":
            code, out = self.run(work, "setup.py", "-q", "build", "-b", os.path.join(at, "built"))
            return os.path.join(at, "built", "lib"), code, out
        if method == "install":
            code, out = self.run(work, "setup.py", "-q", "install", "--root", os.path.join(at, "root"), "--prefix", "/opt/somewhere")
            shutil.rmtree(work)
            for d, sub, files in os.walk(os.path.join(at, "root")):
                if "ries" in sub:
                    return d, code, out
            return at, code or 1, out
        if method == "wheel":
            code, out = self.run(work, "setup.py", "-q", "bdist_wheel", "-d", os.path.join(at, "dist"))
            shutil.rmtree(work)
            to = os.path.join(at, "lib")
            for f in os.listdir(os.path.join(at, "dist")) if not code else []:
                zipfile.ZipFile(os.path.join(at, "dist", f)).extractall(to)
            return to, code, out
        code, out = self.run(work, "setup.py", "-q", "sdist", "-d", os.path.join(at, "dist"))
        shutil.rmtree(work)
        for f in os.listdir(os.path.join(at, "dist")) if not code else []:
            with tarfile.open(os.path.join(at, "dist", f)) as t:
                t.extractall(os.path.join(at, "unpacked"), filter="data")
            return os.path.join(at, "unpacked", os.listdir(os.path.join(at, "unpacked"))[0]), code, out
        return at, code or 1, out

    def case(self, ctx, i):
        g = ctx.g
        method = METHODS[i % len(METHODS)]
        name = g.choice(["plain", "with a blank", "ümläut", "d" * 120, "a.b-c", "100%", "[x]"])
        at = os.path.join(tempfile.mkdtemp(prefix="c-", dir=self.dir), name)
        os.makedirs(at)
        ctx.note(method=method, directory=name)
        path, code, out = self.install(g, method, at)
        sig = (method, name)
        if not ctx.check("installation succeeds", code == 0, sig=sig, method=method, directory=name, output=out):
            return
        have = {m for m in self.mods if os.path.exists(os.path.join(path, *m.split("."))) or os.path.exists(os.path.join(path, *m.split(".")) + ".py")}
        ctx.check("all modules are there", have == set(self.mods), sig=sig, method=method, missing=sorted(set(self.mods) - have))
        before = fingerprint(os.path.join(path, "ries"))
        order = [self.mods[int(k)] for k in g.r.permutation(len(self.mods))][: g.choice([1, 3, len(self.mods)])]
        cwd = g.choice(["/", self.dir, os.path.join(self.dir, "decoy"), at])
        c = {"order": order, "flags": g.choice([[], ["-O"], ["-OO"]]), "env": {}, "cwd": cwd, "path": path}
        if g.chance(0.3):
            c["cwd"], c["path"] = os.path.dirname(path), os.path.basename(path)
        res = self.start(c)
        got = res.get("results")
        info = dict(method=method, directory=name, order=order[:3], problems=res["problems"])
        if not ctx.check("same results", got is not None and self.base is not None, sig=sig + ("ran",), **info):
            return
        for k, v in self.base.items():
            if isinstance(v, str):
                ctx.check("same tables", got.get(k) == v, sig=sig + (k,), what=k, **info)
            else:
                ctx.check("same results", self.same(got.get(k), v), sig=sig + (k,), what=k, got=got.get(k), expected=v, **info)
        ctx.check("copy is not changed by use", fingerprint(os.path.join(path, "ries")) == before, sig=sig, **info)
        shutil.rmtree(os.path.dirname(at))
