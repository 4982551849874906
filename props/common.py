"""Shared pieces of the fault-injecting checks."""
import json
import random

import numpy as np
from crystal import BOHR

from framework import Outcome, World, make_spec, same, same_outputs, tail  # noqa: F401

CODES = ["vasp", "abinit", "espresso", "wannier90"]
INPUT = {"vasp": ["POSCAR", "WAVECAR"], "abinit": ["sim_WFK"]}
READ_OPS = ("open", "read", "fread", "stat", "lseek", "mmap", "close", "dir")


def cli_spec(rng, code=None, **kw):
    code = code or rng.choice(CODES)
    big = rng.random()
    mo = 4 if big < .45 else 8 if big < .85 else 16
    kw.setdefault("max_ops", mo)
    kw.setdefault("nk", rng.choice([1, 2, 2, 3]))
    spec = make_spec(rng, code, **kw)
    return spec


def cli_args(rng, spec, world, named=None):
    """A command line for the world."""
    a = world.args()
    named = rng.random() < .8 if named is None else named
    if named:
        a.append("-kpnames=" + ",".join(spec["kp"]))
        if not world.setting_ok() or rng.random() < .2:
            a += world.ref_args()
    elif world.setting_ok() and rng.random() < .4:
        a.append("-searchcell")
    if rng.random() < .25:
        a.append("-v")
    x = rng.random()
    if x < .2:
        a.append("-EF=%.4f" % rng.uniform(-5, 10))
    elif x < .4:
        a.append("-EF=auto")
    if rng.random() < .15:
        a.append("-degenThresh=%g" % threshold(rng, world))
    if rng.random() < .15:
        n = len(world.cryst.ops)
        a.append("-symmetries=" + ",".join(str(i) for i in sorted(rng.sample(range(1, n + 1), min(n, 2)))))
    if rng.random() < .2:
        a.append("-plotbands")
    if rng.random() < .2 and spec["code"] != "wannier90" and world.dft.ecut_low:
        a.append("-Ecut=%.8f" % world.dft.ecut_low)
    return a


def threshold(rng, world):
    """a threshold for degeneracies, clear of every distance between levels"""
    if rng.random() < .4:
        return rng.choice([1e-4, 1e-3, 2e-4])
    d = np.sort(np.hstack([np.diff(w[:world.dft.nb]) for w in world.dft.levels]))
    d = np.hstack(([1e-6 if rng.random() < .5 else 4e-5], d[d > 1e-6]))
    i = [i for i in range(len(d) - 1) if d[i + 1] > 1.2 * d[i]]
    if not i:
        return 1e-4
    i = rng.choice(i)
    return float("%.6g" % np.sqrt(d[i] * d[i + 1]))


def sym_text(world, alat, order=None):
    """.sym file of the crystal's operations, by the documented format"""
    c = world.cryst
    l = [" %d " % len(c.ops)]
    for i in order or range(len(c.ops)):
        R, t = c.ops[i]
        rc = c.lattice.T @ R @ np.linalg.inv(c.lattice).T
        l.append("")
        l += ["   ".join("%20.15f" % x for x in r) for r in rc]
        l.append("   ".join("%20.15f" % x for x in -t @ c.lattice / alat / BOHR))
    return "\n".join(l) + "\n"


def common_symmetries(run):
    """indices of the symmetries in the little groups of all k-points of a finished run"""
    j = json.loads(run["outputs"]["irrep-output.json"])
    ks = j["characters and irreps"][0]["subspace"]["k points"]
    return sorted(set.intersection(*[set(k["symmetries"]) for k in ks]) - {1})


def rich_case(ctx, rng, spec, modes=None):
    """A world and command line with any of the modes of the tool: (spec, args)"""
    w = ctx.world(spec)
    mode = rng.choice(modes or ["plain"] * 5 + ["sep", "sep", "zak", "wcc", "writesym", "readsym", "onlysym", "bands"])
    args = cli_args(rng, spec, w)
    if mode == "onlysym":
        args = [a for a in args if not a.startswith(("-plotbands",))] + ["-onlysym"]
    elif mode == "writesym":
        if not any(a.startswith("-prefix") for a in args):
            args.append("-prefix=sim")
        args.append("-writesym")
        if rng.random() < .4:
            args.append("-alat=%.6f" % rng.uniform(2, 12))
    elif mode == "readsym":
        alat = round(rng.uniform(2, 12), 6)
        spec = dict(spec, extra_files=dict(spec.get("extra_files", {}), **{"old.sym": sym_text(w, alat, rng.sample(range(len(w.cryst.ops)), len(w.cryst.ops)))}))
        args += ["-from_sym_file=old.sym", "-alat=%.6f" % alat]
    elif mode in ("sep", "zak", "wcc"):
        base = ctx.clean(spec, args)
        if base["status"] == 0:
            syms = common_symmetries(base)
            if syms and (mode == "sep" or rng.random() < .4):
                args = args + ["-isymsep=" + ",".join(str(i) for i in rng.sample(syms, min(len(syms), rng.choice([1, 1, 2]))))]
            if mode != "sep":
                import reference as ref
                o = ref.Options(args)
                if ref.stable_loops(ref.Model.of_cli(w, args), ref.Trace(base["outputs"]["trace.txt"]).ops, o.ints("isymsep"), mode.upper()):
                    args = [a for a in args if a != "-plotbands"] + ["-" + mode.upper()]
    elif mode == "bands" and "-plotbands" not in args:
        args += ["-plotbands", "-suffix=x%d" % rng.randrange(100)]
    if rng.random() < .2:
        n = w.dft.nb
        a = rng.randint(1, n)
        b = rng.randint(a, n)
        if not any(x.startswith(("-isymsep", "-ZAK", "-WCC")) for x in args):
            args = args + ["-IBstart=%d" % a, "-IBend=%d" % b]
    return spec, args


def vary(rng, spec):
    """what a run of a DFT code leaves open: file formats and their optional parts, file names, equivalent
    k-points, numerical splitting of degenerate levels"""
    code = spec["code"]
    w = dict(spec.get("w", {}))
    spec = dict(spec)
    names = ["Fe", "Si", "Na", "Cl"]
    rng.shuffle(names)
    if code == "vasp":
        if rng.random() < .5:
            w["cartesian"] = True
        if rng.random() < .5:
            w["scale"] = round(rng.uniform(.5, 3), 4)
        if rng.random() < .3:
            w["species"] = False
        if rng.random() < .4:
            w["style"] = rng.randrange(32)
        if rng.random() < .3:
            w["pad"] = rng.choice([0, 255, 65])
        if rng.random() < .2:
            spec["rename"] = {"POSCAR": "p.vasp", "WAVECAR": "w.vasp"}
    elif code == "abinit":
        w["version"] = rng.choice(["9.6.2", "8.10.3", "9.10.1", "10.0.3"])
        w["usepaw"] = int(rng.random() < .2)
        if rng.random() < .2:
            spec["rename"] = {"sim_WFK": "other_WFK"}
    elif code == "espresso":
        w["upper"] = rng.random() < .3
        w["names"] = names
    else:
        w["units"] = rng.choice(["ang", "bohr"])
        w["cart"] = rng.random() < .3 and w["units"] == "ang"
        w["style"] = rng.randrange(128) if rng.random() < .6 else 0
        if w["style"] & 8 and rng.random() < .5:
            w["style"] = w["style"] & ~32 | 16
        w["names"] = names
    if code != "vasp" and code != "abinit" and rng.random() < .3:
        w["prefix"] = rng.choice(["a", "my.run", "Bi_2"])
    if rng.random() < .3:
        far = [-1, 0, 0, 1] if rng.random() < .7 else [-3, -2, 0, 0, 2, 3]
        spec["kshift"] = [[rng.choice(far) for _ in range(3)] for _ in spec["kp"]]
    if rng.random() < .3:
        spec["dft"] = dict(spec.get("dft", {}), spread=2e-5)
    spec["w"] = w
    return spec


class Skip(Exception):
    pass


def judge(ctx, w, args, r):
    """a finished run against the reference: (violation or None, class)"""
    import reference as ref
    if r["status"] != 0:
        if r["status"] == "hang":
            return "the run hangs", "hang"
        sep = [a for a in args if a.startswith("-isymsep")]
        if sep:
            # symmetries that do not leave each other's subspaces invariant are rightly refused
            rest = [a for a in args if not a.startswith(("-isymsep", "-ZAK", "-WCC", "-plotbands"))]
            b = ctx.clean(w.spec, rest)
            if b["status"] == 0:
                try:
                    m = ref.Model.of_cli(w, rest)
                    e = ref.subspaces(m, ref.Trace(b["outputs"]["trace.txt"]).ops, ref.Options(args).ints("isymsep"))
                    if "-ZAK" in args or "-WCC" in args:
                        # a path along which the number of states changes has no Wilson loop
                        if any(len({len(x) for x in y.values()}) > 1 or len(y) < len(m.k) for y in e.values()):
                            return None, None
                except ref.Undecided:
                    return None, None
                except ref.Bad:
                    pass
        return "a run on complete and consistent files fails (status %s): %s" % (r["status"], tail(r["stderr"])), "fails"
    try:
        ref.check_run(w, args, r)
    except ref.Bad as e:
        return str(e), "report"
    return None, None


def bad_clean(ctx, case, base):
    """a fault-free run that fails makes every promise about faulty runs void: report it, unless it is rightly refused"""
    if judge(ctx, ctx.world(case["spec"]), case["args"], base)[0] is None:
        return Outcome(live=False)
    return Outcome("the fault-free run fails (status %s): %s" % (base["status"], tail(base["stderr"])), "clean-run-fails", sig=("clean", base["status"]))


def is_input(f):
    return f not in ("<stdout>", "?")


def ended(r):
    s = r["status"]
    return "ok" if s == 0 else "signal" if isinstance(s, int) and s < 0 else str(s)


def shrink_plan(case):
    p = case.get("plan") or []
    if len(p) > 1:
        for i in range(len(p)):
            yield dict(case, plan=p[:i] + p[i + 1:])
    for i, q in enumerate(p):
        if q.get("sticky"):
            yield dict(case, plan=p[:i] + [dict(q, sticky=0)] + p[i + 1:])
    a = case.get("args") or []
    for i, x in enumerate(a):
        if x.startswith(("-v", "-EF", "-degen", "-symm", "-plot")):
            yield dict(case, args=a[:i] + a[i + 1:])
