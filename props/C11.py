"""C11: a written .sym file reads back as the same symmetries, a torn one is rejected."""
import errno

from common import *
import reference as ref

ID, LEVEL, TECH = "C11", "exploration", "deterministic simulation, chains of writing and reading runs with crashes, full disks and lost lines, reference model"
RULE = ("A case is a chain of simulated irrep processes: a run writes a .sym file for a seeded crystal (seeded options, lattice parameter given or default), a second run, "
        "possibly on the files of another DFT code, reads it, and may write it again for a third one.  Operations, their order and the whole report of each reading run are "
        "compared with the reference.  In half of the cases the file is damaged in between: the writing run is killed or runs out of space at a seeded file operation, or "
        "lines or blocks of the file are lost; then the reading run must fail or report what it reports with the intact file.  Non-trivial: a file was read and accepted, or was "
        "damaged.  Distinct: by (crystal, codes, options, damage).")
STUB = "DFT codes (simulated producers of files), crashes and disk faults below the LD_PRELOAD seam"


def groups(rng, tier):
    return [{"code": CODES[i % 4], "reader": CODES[(i // 4) % 4]} for i in range(128 if tier == "quick" else 2000)]


def cases(ctx, g, rng, tier):
    spec = vary(rng, cli_spec(rng, g["code"], nk=1, max_ops=rng.choice([4, 8, 16, 24])))
    for _ in range(8):
        spec2 = dict(spec, code=g["reader"], gs=rng.randrange(10 ** 6), os=rng.randrange(10 ** 6))
        spec2 = {k: v for k, v in spec2.items() if k not in ("w", "rename")}
        try:
            World(spec2)
            break
        except Exception as e:
            if type(e).__name__ != "Retry":
                raise
    w, w2 = ctx.world(spec), ctx.world(spec2)
    for _ in range(8 if tier == "quick" else 24):
        walat = alat = ["-alat=%.6f" % rng.uniform(1, 12)]
        if rng.random() < .3:
            # the default of the writing run; only Quantum Espresso's files tell the reading run
            walat = []
            alat = ["-alat=%.12f" % w.default_alat()] if g["code"] != "espresso" or g["reader"] != "espresso" or rng.random() < .5 else []
        wargs = [a for a in cli_args(rng, spec, w) if not a.startswith(("-plotbands", "-prefix"))] if g["code"] in ("vasp", "abinit") else \
                [a for a in cli_args(rng, spec, w) if not a.startswith("-plotbands")]
        if g["code"] in ("vasp", "abinit"):
            wargs.append("-prefix=" + rng.choice(["sim", "out"]))
        wargs += ["-writesym"] + walat + (["-onlysym"] if rng.random() < .4 else [])
        rargs = cli_args(rng, spec2, w2, rng.random() < .4)
        rargs += ["-from_sym_file=in.sym"] + alat
        if rng.random() < .4:
            rargs += ["-writesym"] + (["-prefix=sim"] if g["reader"] in ("vasp", "abinit") else [])
        c = {"spec": spec, "wargs": wargs, "spec2": spec2, "args": rargs, "damage": None}
        if rng.random() < .55:
            c["damage"] = rng.choice([["crash", rng.random()], ["crash", rng.random()], ["full", rng.random()], ["lines", rng.random(), rng.choice([1, 1, 2, 4, 5, 8])],
                                      ["tail", rng.random()], ["zeros", rng.random()], ["empty"], ["missing"], ["scatter", [rng.random() for _ in range(rng.randint(1, 5))]]])
        yield c


def symname(args):
    return ref.Options(args).v["prefix"] + ".sym"


def execute(ctx, case):
    spec, spec2, wargs, args, damage = case["spec"], case["spec2"], case["wargs"], case["args"], case["damage"]
    w = ctx.world(spec)
    f = symname(wargs)
    sig = (spec["sg"], spec["cs"], spec["code"], spec2["code"], wargs, args, damage)
    first = ctx.clean(spec, wargs)
    what, cls = judge(ctx, w, wargs, first)
    if what:
        return Outcome(what, cls, sig, True, [], "writing run")
    if first["status"] != 0:
        return Outcome(live=False)
    good = first["outputs"][f].decode()
    text = good
    note = "intact"
    if damage:
        kind = damage[0]
        lines = good.split("\n")
        if kind in ("crash", "full"):
            ev = [i for i, e in enumerate(first["events"]) if e[1] == f]
            at = ev[int(damage[1] * len(ev))]
            plan = [{"at": at, "kind": "crash_part" if damage[1] * 100 % 1 < .5 else "crash", "n": 1 + int(damage[1] * 7919) % 3000}] if kind == "crash" else \
                   [{"at": at, "kind": "err", "err": errno.ENOSPC, "sticky": 1000, "ops": ["write"]}]
            r = ctx.run(files=w.files, args=wargs, plan=plan)
            b = r["outputs"].get(f)
            # plain text: what is durable ends at a line end
            text = None if b is None else b.decode()[:b.decode().rfind("\n") + 1]
            note = "writer %s" % (ended(r))
        elif kind == "lines":
            i = int(damage[1] * len(lines))
            text = "\n".join(lines[:i] + lines[i + damage[2]:])
        elif kind == "tail":
            text = "\n".join(lines[:int(damage[1] * len(lines))])
        elif kind == "zeros":
            n = int(damage[1] * len(good))
            text = good[:n] + "\0" * (len(good) - n)
        elif kind == "scatter":
            drop = {int(x * len(lines)) for x in damage[1]}
            text = "\n".join(l for i, l in enumerate(lines) if i not in drop)
        elif kind == "empty":
            text = ""
        else:
            text = None
        note = kind + ": " + note
    intact = dict(spec2, extra_files={"in.sym": good})
    w2 = ctx.world(intact)
    second = ctx.clean(intact, args)
    what, cls = judge(ctx, w2, args, second)
    if not what and second["status"] == 0:
        what, cls = order(w2, args, good, second)
    if what:
        return Outcome("reading the .sym file written by %s: %s" % (" ".join(wargs[1:]), what), cls, sig, True, [], "reading run")
    if second["status"] != 0:
        return Outcome(live=False)
    if damage and text != good:
        files = dict(w2.files)
        if text is None:
            del files["in.sym"]
        else:
            files["in.sym"] = text.encode()
        r = ctx.run(files=files, args=args)
        if r["status"] == "hang":
            what, cls = "the run hangs on a damaged .sym file (%s)" % note, "hang"
        elif r["status"] == 0:
            d = same_outputs(second, r)
            if d:
                what, cls = "a damaged .sym file (%s) is accepted, with other results: %s" % (note, d), "damaged"
        return Outcome(what, cls, sig, True, ["damage: " + damage[0]], note + " -> " + ended(r))
    return Outcome(None, None, sig, True, ["chain"], note)


def order(w, args, text, r):
    """operations of the reading run in the order of the file, and rewritten in that order"""
    o = ref.Options(args)
    m = ref.Model.of_cli(w, args)
    alat = o.num("alat") or w.default_alat()
    try:
        sy = ref.check_symfile(text.encode(), m, alat)
        seqs = []
        if not (o.has("kpnames") or o.has("searchcell")):
            seqs.append(("trace.txt", ref.Trace(r["outputs"]["trace.txt"]).ops))
            if o.has("writesym"):
                seqs.append(("the .sym file written by the reading run", ref.check_symfile(r["outputs"][o.v["prefix"] + ".sym"], m, alat)))
        # in the cell of the tables operations are numbered as there
        tab = {np.asarray(R).round().astype(int).tobytes(): (n, np.asarray(t)) for n, (R, t) in enumerate(zip(w.table.R, w.table.t))}
        pos = [tab.get(np.asarray(R).round().astype(int).tobytes()) for _, R, _, _ in sy]
        d = [np.asarray(x[2]) - p[1] for x, p in zip(sy, pos) if p]
        if all(pos) and np.abs(d - np.round(d)).max() < 1e-4:
            sy = [sy[i] for i in np.argsort([p[0] for p in pos])]
        for name, ops in seqs:
            ref.need(len(ops) == len(sy), name, "has %d operations, the .sym file %d" % (len(ops), len(sy)))
            for (i, R, T, _), (j, R1, T1, _) in zip(ops, sy):
                ref.need(np.array_equal(R, R1), "operation %d of %s is not number %d of the .sym file" % (i, name, j))
                d = np.asarray(T) - T1
                ref.need(np.abs(d - np.round(d)).max() < 1e-4, "translation of operation %d of %s: %s, .sym file: %s" % (i, name, np.round(T, 4), np.round(T1, 4)))
    except ref.Bad as e:
        return str(e), "order"
    return None, None


def shrink(case):
    for k in ("wargs", "args"):
        a = case[k]
        for i, x in enumerate(a):
            if x.startswith(("-v", "-EF", "-degen", "-symm", "-plot", "-onlysym", "-Ecut")):
                yield dict(case, **{k: a[:i] + a[i + 1:]})
    for k in ("spec", "spec2"):
        s = case[k]
        for x in list(s.get("w", {})):
            yield {**case, k: dict(s, w={a: b for a, b in s["w"].items() if a != x})}
