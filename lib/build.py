#!/usr/bin/env python3
"""Builds /repo's current working tree outside /repo.

build() returns a directory holding
  pystreed/     copy of the Python package with the freshly linked extension
  streed        the command-line program
  obj/*.o       the objects, for linking the C++ drivers of /verif/drivers
Objects are compiled through a private ccache so that repeated builds are cheap.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, ".work")
PY = "/opt/vp/venv/bin/python"
CXXFLAGS = ["-O2", "-g0", "-fPIC", "-std=c++17", "-fvisibility=hidden", "-w", "-DVERSION_INFO=0"]
FIRST = ["bindings", "solver/solver", "terminal_solver", "cost_combiner", "dataset_cache", "branch_cache"]


class BuildError(Exception):
    pass


def _files():
    out = []
    for sub, exts in (("src", (".cpp", ".h", ".hpp", ".cc")), ("include", (".h", ".hpp", ".cpp")), ("pystreed", (".py",))):
        for root, dirs, files in os.walk(os.path.join(REPO, sub)):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            out += [os.path.join(root, f) for f in sorted(files) if f.endswith(exts)]
    return out


def tree_key():
    h = hashlib.sha256()
    for f in _files():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    h.update(" ".join(CXXFLAGS).encode())
    return h.hexdigest()[:16]


def _env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(WORK, "ccache")
    e["CCACHE_MAXSIZE"] = "1G"
    e["CCACHE_NOHASHDIR"] = "1"
    e.pop("CCACHE_DISABLE", None)
    return e


def _includes():
    r = subprocess.run([PY, "-c", "import sysconfig,pybind11;print(sysconfig.get_paths()['include']);print(pybind11.get_include());"
                        "print(sysconfig.get_config_var('EXT_SUFFIX'))"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("cannot query python: " + r.stderr)
    a, b, suffix = r.stdout.split()
    return ["-I" + os.path.join(REPO, "include"), "-I" + a, "-I" + b], suffix


def _run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True, env=_env())
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), (r.stdout + r.stderr)[-4000:]))


def _objname(src):
    return os.path.relpath(src, REPO).replace("/", "__") + ".o"


def compile_all(srcs, objdir, inc):
    def one(src):
        _run(["ccache", "g++", *CXXFLAGS, *inc, "-c", src, "-o", os.path.join(objdir, _objname(src))])
    order = sorted(srcs, key=lambda s: min([i for i, k in enumerate(FIRST) if k in s], default=99))
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(one, order))


def build(log=sys.stderr):
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "build.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = tree_key()
        base = os.path.join(WORK, "build")
        out = os.path.join(base, key)
        if os.path.exists(os.path.join(out, "done")):
            os.utime(out)
            return out
        t0 = time.time()
        os.makedirs(base, exist_ok=True)
        olds = sorted((os.path.getmtime(p), p) for p in glob.glob(os.path.join(base, "*")))
        for _, p in olds[:-3]:
            shutil.rmtree(p, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        objdir = os.path.join(out, "obj")
        os.makedirs(objdir)
        inc, suffix = _includes()
        srcs = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
        compile_all(srcs, objdir, inc)
        pkg = os.path.join(out, "pystreed")
        shutil.copytree(os.path.join(REPO, "pystreed"), pkg, ignore=shutil.ignore_patterns("__pycache__", "*.so"))
        objs = [os.path.join(objdir, _objname(s)) for s in srcs]
        _run(["g++", "-shared", "-o", os.path.join(pkg, "cstreed" + suffix), *objs])
        open(os.path.join(out, "done"), "w").close()
        if tree_key() != key:
            raise BuildError("the sources changed while they were being built")
        print("built %s in %.1f s" % (key, time.time() - t0), file=log)
        return out


def _defines(obj, symbol):
    r = subprocess.run(["nm", "--defined-only", obj], capture_output=True, text=True)
    return any(l.split()[-1] == symbol for l in r.stdout.splitlines() if l.split())


def _plain_objects(out, with_main):
    """the objects without the Python bindings, and without main() unless wanted"""
    objs = sorted(glob.glob(os.path.join(out, "obj", "*.o")))
    keep = []
    for o in objs:
        if _defines(o, "PyInit_cstreed") or (not with_main and _defines(o, "main")):
            continue
        keep.append(o)
    return keep


def cli():
    """The command-line program of the current tree."""
    out = build()
    with open(os.path.join(WORK, "build.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        exe = os.path.join(out, "streed")
        if not os.path.exists(exe):
            _run(["g++", "-o", exe + ".tmp", *_plain_objects(out, True)])
            os.rename(exe + ".tmp", exe)
        return exe


def driver(name):
    """Link /verif/drivers/<name>.cpp against the objects of the current tree."""
    out = build()
    src = os.path.join(VERIF, "drivers", name + ".cpp")
    with open(os.path.join(WORK, "build.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:8]
        exe = os.path.join(out, name + "-" + h)
        if os.path.exists(exe):
            return exe
        inc, _ = _includes()
        obj = os.path.join(out, name + ".driver")
        _run(["ccache", "g++", *CXXFLAGS, *inc, "-c", src, "-o", obj])
        _run(["g++", "-o", exe + ".tmp", obj, *_plain_objects(out, False), "-ldl"])
        os.rename(exe + ".tmp", exe)
        return exe


def preload(name):
    """Compile /verif/drivers/<name>.c into a shared object (independent of /repo)."""
    src = os.path.join(VERIF, "drivers", name + ".c")
    with open(os.path.join(WORK, "build.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:8]
        so = os.path.join(WORK, name + "-" + h + ".so")
        if not os.path.exists(so):
            _run(["gcc", "-O1", "-shared", "-fPIC", "-o", so + ".tmp", src, "-ldl"])
            os.rename(so + ".tmp", so)
        return so


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
