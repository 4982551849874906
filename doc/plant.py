"""Plant a bug: /opt/venv/bin/python doc/plant.py {make|verify|check} <id> ...

doc/plants/<id>.py describes the change: PROPERTY, EDITS [(file, old, new)], NEEDS, BREAKS, worlds(rng) -> {name: (World, args)}
(files for the demonstration) and DEMO, the text of demo.py.  make writes seeded/<id>/, verify confirms in a scratch copy that
it changes original lines only, passes the stable tests, and that demo.sh tells the trees apart; check runs ./check on it."""
import json
import os
import random
import re
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(VERIF, "sim"), os.path.join(VERIF, "props")]
sys.dont_write_bytecode = True
SEEDED = os.path.join(VERIF, "seeded")
BASE = "/repo"
ROOT = "fccd57c"


def sh(cmd, cwd=None, env=None, timeout=1200):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def copy(i):
    d = "/tmp/plant/" + i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    assert sh("cp -a %s %s" % (BASE, d)).returncode == 0
    return d


def make(i):
    m = runpy.run_path(os.path.join(HERE, "plants", i + ".py"))
    out = os.path.join(SEEDED, i)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    d = copy(i)
    for f, a, b in m["EDITS"]:
        p = os.path.join(d, f)
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    diff = sh("git diff", d).stdout
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    shutil.rmtree(d)
    json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    shutil.copy(os.path.join(HERE, "demolib.py"), out)
    open(os.path.join(out, "demo.py"), "w").write("from demolib import *  # noqa\n" + m["DEMO"].lstrip("\n"))
    open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    for name, (w, args) in (m["worlds"](random.Random(i)) if "worlds" in m else {}).items():
        for f, b in w.files.items():
            p = os.path.join(out, name, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "wb").write(b)
        json.dump(args, open(os.path.join(out, name, "cmdline.json"), "w"))
        if m.get("RECORD"):
            # the output of the unchanged tree
            t = os.path.join("/tmp/plant", "rec-" + i)
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(os.path.join(out, name), t)
            subprocess.run([sys.executable, "-W", "ignore", "-c", "import sys; sys.argv[0]='irrep'; from irrep.cli import cli; cli()"] + args, cwd=t,
                           env=dict(os.environ, PYTHONPATH="/repo:/repo/irreptables"), stdout=subprocess.DEVNULL, check=True)
            x = json.load(open(os.path.join(t, "irrep-output.json")))
            json.dump([[k["irreps"] for k in b["subspace"]["k points"]] for b in x["characters and irreps"]], open(os.path.join(out, name, "expected.json"), "w"))
            shutil.rmtree(t)
    print(i, "made,", sh("du -sk " + out).stdout.split()[0], "kB")


def patched(i):
    d = copy(i)
    r = sh("git apply %s" % os.path.join(SEEDED, i, "patch.diff"), d)
    assert r.returncode == 0, r.stdout
    return d


def original_lines(i, d):
    """every hunk touches lines of the first commit"""
    diff = sh("git diff -U0", d).stdout
    f = None
    for l in diff.split("\n"):
        if l.startswith("--- a/"):
            f = l[6:]
        g = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if g:
            a, n = int(g[1]), int(g[2] or 1)
            if n:
                b = sh("git blame -s -l -L %d,%d HEAD -- %s" % (a, a + n - 1, f), d).stdout
                print("   lines of %s: %s" % (f, ["base" if x.lstrip("^").startswith(ROOT) else x[:8] for x in b.strip().split("\n")]))
            else:
                print("   insertion after %s:%d" % (f, a))


def verify(i):
    demo = os.path.join(SEEDED, i, "demo.sh")
    loc = "/tmp/plant/demo-" + i
    shutil.rmtree(loc, ignore_errors=True)
    shutil.copytree(os.path.join(SEEDED, i), loc)
    for f in ("patch.diff", "meta.json"):
        os.remove(os.path.join(loc, f))
    demo = os.path.join(loc, "demo.sh")
    r0 = sh(demo, "/repo")
    d = patched(i)
    original_lines(i, d)
    r1 = sh(demo, d)
    ok = r0.returncode == 0 and r1.returncode != 0
    print(i, "demo clean %d [%s] patched %d [%s]" % (r0.returncode, r0.stdout.strip()[-200:], r1.returncode, r1.stdout.strip()[-300:]))
    t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 irrep/tests/test_abinit_scalar.py irrep/tests/test_espresso_spinor.py irrep/tests/test_refUC.py irrep/tests/test_symsep.py",
           d, {"PYTHONPATH": d + ":" + d + "/irreptables", "PYTHONHASHSEED": "0", "PATH": "/opt/venv/bin:" + os.environ["PATH"]})
    tok = "6 passed" in t.stdout
    print(i, "tests", "pass" if tok else "FAIL " + t.stdout[-600:])
    shutil.rmtree(d)
    shutil.rmtree(loc)
    print(i, "COUNTS" if ok and tok else "DOES NOT COUNT")


def check(i, prop=None, wall=None):
    prop = prop or json.load(open(os.path.join(SEEDED, i, "meta.json")))["property"]
    d = patched(i)
    env = {"SIM_REPO": d, "VERIF_SEED": "1"}
    if wall:
        env["SIM_WALL"] = wall
    r = sh("./check " + prop, VERIF, env)
    v = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")]
    print(i, prop, "CAUGHT" if r.returncode == 1 and v else "MISSED (%d)" % r.returncode, "|", [x for x in r.stdout.strip().split("\n") if not x.startswith("VIOLATION")][-1][:200])
    shutil.rmtree(d)


if __name__ == "__main__":
    for i in sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, "plants"))):
        i = i.replace(".py", "")
        if not i.startswith("_"):
            {"make": make, "verify": verify, "check": check}[sys.argv[1]](i)
