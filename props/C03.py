"""C03: input files a DFT job did not finish writing are rejected or make no difference."""
import struct
from common import *

ID, LEVEL, TECH = "C03", "exploration", "deterministic simulation of a crashed writer: seeded durable prefixes of every input file"
RULE = ("A case is one simulated irrep process over a world whose producer crashed: one or two input files are missing, empty, cut at a seeded "
        "byte (binary, XML; record boundaries and their neighbours preferred) or line (plain text), or keep their "
        "length but lost the blocks after that point (zeros; in a WAVECAR, which has no marks, from a record boundary on). Non-trivial: the file differs from the complete one and the run opened it. "
        "Distinct: by (code, file, damage kind, cut position class and offset, how the run ended).")
STUB = "the DFT codes and the point at which they crashed (what of their files had become durable)"


def groups(rng, tier):
    n = 96 if tier == "quick" else 1000
    return [{"code": CODES[i % 4]} for i in range(n)]


def is_text(f):
    return f.startswith(("POSCAR", "p.vasp")) or f.endswith((".win", ".eig", ".sym"))


def marks(f, b):
    """interesting offsets: record boundaries"""
    if f.startswith(("WAVECAR", "w.vasp")):
        rl = int(struct.unpack("<d", b[:8])[0])
        return list(range(0, len(b) + 1, rl))
    if f.endswith(".xml"):
        return [i + 1 for i, c in enumerate(b) if c == 62][::7]
    out, p = [0], 0
    while p < len(b):
        n = struct.unpack("<i", b[p:p + 4])[0]
        out += [p + 4, p + 4 + n, p + 8 + n]
        p += 8 + n
    return out


def cases(ctx, g, rng, tier):
    spec = vary(rng, cli_spec(rng, g["code"]))
    w = ctx.world(spec)
    args = cli_args(rng, spec, w)
    if rng.random() < .25 and len(spec["kp"]) > 1:
        sel = sorted(rng.sample(range(len(spec["kp"])), rng.randint(1, len(spec["kp"]) - 1)))
        args = [a for a in args if not a.startswith("-kpnames")] + ["-kpoints=" + ",".join(str(i + 1) for i in sel)]
        if rng.random() < .7:
            args.append("-kpnames=" + ",".join(spec["kp"][i] for i in sel))
            if not w.setting_ok() and not any(a.startswith("-refUC") for a in args):
                args += w.ref_args()
        args = [a for a in args if a != "-plotbands"]
    c0 = {"spec": spec, "args": args}
    base = ctx.clean(spec, args)
    if base["status"] != 0:
        yield dict(c0, cuts=[])
        return
    files = sorted(w.files)
    for f in files:
        # the end of a file of parameters, line by line
        if is_text(f) and not f.endswith(".eig"):
            nl = [0] + [i + 1 for i, c in enumerate(w.files[f]) if c == 10]
            for at in nl[:-1] if rng.random() < .3 else nl[-9:-1]:
                yield dict(c0, cuts=[{"file": f, "kind": "zeros" if rng.random() < .2 else "cut", "at": at}])
    for _ in range(30 if tier == "quick" else 150):
        cuts = []
        for _ in range(rng.choice([1, 1, 1, 1, 2])):
            text = [f for f in files if is_text(f)]
            f = rng.choice(text if text and rng.random() < .35 else files)
            b = w.files[f]
            x = rng.random()
            if x < .03:
                cuts.append({"file": f, "kind": "missing", "at": 0})
                continue
            if is_text(f):
                nl = [0] + [i + 1 for i, c in enumerate(b) if c == 10]
                at = rng.choice(nl[:-1][-8:] if rng.random() < .4 else nl[:-1])
            else:
                m = marks(f, b)
                at = rng.choice(m) if x < .6 else rng.choice(m) + rng.choice([-9, -8, -4, -1, 1, 4, 8, 9, 16]) if x < .8 else rng.randrange(len(b))
                at = min(max(at, 0), len(b))
                if x > .97:
                    at = max(0, len(b) - rng.randint(1, 40))
            kind = "zeros" if rng.random() < .25 else "cut"
            if kind == "zeros" and f.startswith(("WAVECAR", "w.vasp")):
                at = rng.choice(marks(f, b))      # part of a record of zeros is a possible state
            cuts.append({"file": f, "kind": kind, "at": at})
        yield dict(c0, cuts=cuts)


def damage(files, cuts):
    out = dict(files)
    for c in cuts:
        b = files[c["file"]]
        if c["kind"] == "missing":
            out.pop(c["file"], None)
        elif c["kind"] == "cut":
            out[c["file"]] = b[:c["at"]]
        else:
            out[c["file"]] = b[:c["at"]] + b"\0" * (len(b) - c["at"])
    return out


def execute(ctx, case):
    spec, args = case["spec"], case["args"]
    w = ctx.world(spec)
    base = ctx.clean(spec, args)
    if base["status"] != 0:
        return bad_clean(ctx, case, base)
    files = damage(w.files, case["cuts"])
    if files == w.files:
        return Outcome(live=False)
    r = ctx.run(files=files, args=args, events=True)
    opened = {e[1] for e in r["events"] if e[0] in ("open", "stat")}
    live = any(c["file"] in opened for c in case["cuts"])
    where = ", ".join("%s %s at %d of %d" % (c["file"], {"cut": "ends", "zeros": "is zeros", "missing": "missing"}[c["kind"]], c["at"], len(w.files[c["file"]]))
                      for c in case["cuts"])
    sig = (spec["code"], [(c["file"], c["kind"], c["at"]) for c in case["cuts"]], ended(r))
    what = cls = None
    if r["status"] == "hang":
        what, cls = "run hangs: " + where, "hang"
    elif r["status"] == 0:
        d = same_outputs(base, r)
        if d:
            what, cls = "success reported with different results although %s: %s" % (where, d), "silent"
    return Outcome(what, cls, sig, live, ["%s %s" % (c["kind"], c["file"].split(".")[-1]) for c in case["cuts"]], "%s -> %s" % (where, ended(r)))


def shrink(case):
    c = case["cuts"]
    if len(c) > 1:
        for i in range(len(c)):
            yield dict(case, cuts=c[:i] + c[i + 1:])
    yield from shrink_plan(case)
