"""Helpers of the demonstrations: run irrep of the current directory on stored input files, in scratch directories."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
ENV = dict(os.environ, PYTHONPATH=REPO + os.pathsep + os.path.join(REPO, "irreptables"), PYTHONDONTWRITEBYTECODE="1",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
CLI = "import sys; sys.argv[0] = 'irrep'; from irrep.cli import cli; cli()"
_dirs = []


def scratch(world=None):
    d = tempfile.mkdtemp(prefix="demo-")
    _dirs.append(d)
    if world:
        shutil.copytree(os.path.join(HERE, world), d, dirs_exist_ok=True)
        for f in ("cmdline.json", "expected.json"):
            if os.path.exists(os.path.join(d, f)):
                os.remove(os.path.join(d, f))
    return d


def cmdline(world):
    return json.load(open(os.path.join(HERE, world, "cmdline.json")))


def python(code, args=(), d=None, env=(), timeout=120):
    return subprocess.run([sys.executable, "-W", "ignore", "-c", code] + list(args), cwd=d, env=dict(ENV, **dict(env)), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True, timeout=timeout)


def irrep(d, args, env=(), pre=""):
    """run the command line in d; pre: statements executed before"""
    return python(pre + "\n" + CLI, args, d, env)


def read(d, f):
    with open(os.path.join(d, f)) as h:
        return h.read()


def results(d):
    return json.loads(read(d, "irrep-output.json"))


def expected(world):
    return json.load(open(os.path.join(HERE, world, "expected.json")))


def same(a, b, tol=1e-3):
    """equal up to numerical noise"""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) < tol
    return a == b


def finish(ok, why=""):
    for d in _dirs:
        shutil.rmtree(d, ignore_errors=True)
    print("ok" if ok else "BROKEN: " + why)
    sys.exit(0 if ok else 1)
