"""C14: the report of a run depends on the physical states only."""
from common import *
import reference as ref

ID, LEVEL, TECH = "C14", "exploration", "deterministic simulation of the DFT codes, seeded producers, reference model"
RULE = ("A case is one simulated irrep process over the files a simulated run of a DFT code left for a seeded crystal: code, space group, setting, orientation, "
        "k-points (also shifted by reciprocal lattice vectors), spinor or scalar states, phases and bases of degenerate states, splitting within the threshold, order of "
        "plane waves, format options and command-line options are all seeded.  Everything the run reports is compared with an executable reference that knows the "
        "physical states and the pinned tables.  Non-trivial: the run reported results.  Distinct: by (space group, code, spinor, k-points, options, seeds).")
REAL = "irrep, irreptables, spglib, numpy, scipy, fortio, monty, click, file system calls"
STUB = "DFT codes (simulated producers of physical states and files)"

TWO = [48, 50, 59, 68, 68, 68, 70, 70, 70, 85, 86, 88, 88, 88, 125, 129, 130, 134, 137, 138, 141, 141, 142, 142]


def groups(rng, tier):
    n = 320 if tier == "quick" else 4000
    return [{"code": CODES[i % 4], "cells": i % 8 == 7 - i // 8 % 4} for i in range(n)]


def cells(rng, code, tier):
    """the search for the cell of the tables: many crystals, in any cell, about any origin"""
    n = 0
    while n < (10 if tier == "quick" else 20):
        two = rng.random() < .6
        spec = make_spec(rng, code, nk=1, spin=rng.random() < .3, max_ops=48 if rng.random() < .3 else 16, sgs=TWO if two else None, mv=rng.randrange(10 ** 6))
        if World(spec).setting_ok():
            n += 1
            yield {"spec": spec, "args": World(spec).args() + ["-searchcell"] + (["-onlysym"] if rng.random() < .8 else [])}


def cases(ctx, g, rng, tier):
    if g["cells"]:
        yield from cells(rng, g["code"], tier)
        return
    big = rng.random()
    mo = 4 if big < .3 else 8 if big < .7 else 16 if big < .92 or tier == "quick" and big < .985 else 48
    if rng.random() < .15:
        # groups whose tables have the origin elsewhere than spglib
        spec = cli_spec(rng, g["code"], max_ops=16, nk=rng.choice([1, 2]), sgs=TWO, mv=rng.randrange(10 ** 6))
    else:
        spec = cli_spec(rng, g["code"], max_ops=mo, nk=rng.choice([1, 2, 3, 4]))
    spec = vary(rng, spec)
    for n in range(6 if tier == "quick" else 16):
        # the same physics, delivered by another run of the code
        s = dict(spec, gs=rng.randrange(10 ** 6), os=rng.randrange(10 ** 6))
        if rng.random() < .4:
            s = vary(rng, {k: v for k, v in s.items() if k not in ("w", "rename")})
            if "dft" in spec or "kshift" in spec:
                s.update({k: spec[k] for k in ("dft", "kshift") if k in spec})
        if rng.random() < .3:
            s["code"] = rng.choice(CODES)
            s = {k: v for k, v in s.items() if k not in ("w", "rename")}
        try:
            s, args = rich_case(ctx, rng, s, ["plain"] * 4 + ["bands", "readsym", "sep", "sep"])
        except Skip:
            continue
        yield {"spec": s, "args": args}


def execute(ctx, case):
    spec, args = case["spec"], case["args"]
    w = ctx.world(spec)
    r = ctx.run(files=w.files, args=args)
    sig = (spec["sg"], spec["cs"], spec["ds"], spec["code"], spec["gs"], spec.get("os"), args)
    names = ["producer: " + k for k in sorted(spec.get("w", {})) + [x for x in ("kshift", "dft", "rename") if x in spec]] + ["gauge"]
    what, cls = judge(ctx, w, args, r)
    return Outcome(what, cls, sig, r["status"] == 0, names, "%s SG %d %s -> %s" % (spec["code"], spec["sg"], " ".join(args[1:]), ended(r)))


def shrink(case):
    s = case["spec"]
    yield from shrink_plan(dict(case, plan=[]))
    for k in list(s.get("w", {})):
        yield dict(case, spec=dict(s, w={a: b for a, b in s["w"].items() if a != k}))
    for k in ("dft", "kshift"):
        if k in s:
            yield dict(case, spec={a: b for a, b in s.items() if a != k})
