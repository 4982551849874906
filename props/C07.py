"""C07: interrupts and failed allocations never end in success with other results."""
from common import *
from kernel import HarnessError

ID, LEVEL, TECH = "C07", "exploration", "deterministic simulation, seeded interrupts and allocation failures at source lines, file operations and allocations"
RULE = ("A case is one simulated irrep process with one KeyboardInterrupt or MemoryError raised at a seeded execution of a seeded source line of irrep or "
        "irreptables, one SIGINT delivered during a seeded file operation, or a seeded allocation above a size threshold failing (once, or all from there on). "
        "The process must end with a non-zero status or with exactly the outputs of the undisturbed run. Non-trivial: the disturbance took place. Distinct: by "
        "(code, options, kind, source line or operation or allocation, how the run ended).")
MEASURE = "distinct (kind of disturbance, source line / file operation / allocation, way the run ended)"


def groups(rng, tier):
    n = 40 if tier == "quick" else 500
    return [{"code": CODES[i % 4]} for i in range(n)]


def traced(ctx, spec, args):
    """first occurrence, count and indices of every source line of the undisturbed run"""
    w = ctx.world(spec)

    def go():
        r = ctx.run(files=w.files, args=args, trace_lines=True, alloc=(MIN, -1))
        if not r.get("lines") or not r["alloc"][0]:
            raise HarnessError("no trace of source lines or allocations: " + tail(r["stderr"]))
        where = {}
        for i, l in enumerate(r.get("lines", [])):
            where.setdefault(tuple(l), []).append(i)     # (file, line, inside a try statement?)
        return {"status": r["status"], "where": where, "alloc": r["alloc"][0]}
    return ctx.once(["traced", spec, args], go)


MIN = 4096


def cases(ctx, g, rng, tier):
    spec = vary(rng, cli_spec(rng, g["code"], nk=rng.choice([1, 1, 2])))
    spec, args = rich_case(ctx, rng, spec, ["plain"] * 4 + ["sep", "sep", "zak", "wcc", "writesym", "readsym", "onlysym", "bands"])
    if rng.random() < .3:      # without names of k-points
        args = [a for a in args if not a.startswith("-kpnames")]
    clean = ctx.clean(spec, args)
    c0 = {"spec": spec, "args": args}
    if clean["status"] != 0:
        yield c0
        return
    t = traced(ctx, spec, args)
    lines = sorted(t["where"])
    guarded = [l for l in lines if l[2]]
    for _ in range(60 if tier == "quick" else 200):
        x = rng.random()
        if x < .70 and lines:
            l = rng.choice(guarded if guarded and rng.random() < .5 else lines)
            occ = t["where"][l]
            i = rng.choice([occ[0], occ[-1], rng.choice(occ)])
            yield dict(c0, line=[i, rng.choice(["KeyboardInterrupt", "MemoryError"])])
        elif x < .85:
            ev = clean["events"]
            keys = sorted({(e[0], e[1]) for e in ev if e[0] in ("open", "read", "write", "close", "stat", "fread", "lseek")})
            k = rng.choice(keys)
            yield dict(c0, plan=[{"at": rng.choice([i for i, e in enumerate(ev) if (e[0], e[1]) == k]), "kind": "sigint"}])
        elif t["alloc"]:
            yield dict(c0, alloc=[MIN, rng.randrange(t["alloc"]), rng.choice([0, 0, 1])])


def execute(ctx, case):
    spec, args = case["spec"], case["args"]
    w = ctx.world(spec)
    base = ctx.clean(spec, args)
    if base["status"] != 0:
        return bad_clean(ctx, case, base)
    kw = {}
    if case.get("line"):
        kw["line"] = tuple(case["line"])
    if case.get("plan"):
        kw["plan"] = case["plan"]
    if case.get("alloc"):
        kw["alloc"] = tuple(case["alloc"])
    r = ctx.run(files=w.files, args=args, **kw)
    if case.get("line"):
        where, live = "%s at %s" % (case["line"][1], r.get("lines")), "lines" in r
    elif case.get("plan"):
        where, live = "interrupt during %s of %s" % tuple(r["fired"][0][1:3]) if r["fired"] else "", bool(r["fired"])
    elif case.get("alloc"):
        where, live = "failure of allocation %d%s" % (case["alloc"][1], " and later" if case["alloc"][2] else ""), r["alloc"][1] > 0
    else:
        return Outcome(live=False)
    sig = (spec["code"], sorted(a.split("=")[0] for a in args), where, ended(r))
    what = cls = None
    if r["status"] == "hang":
        what, cls = "run hangs after " + where, "hang"
    elif r["status"] == 0:
        d = same_outputs(base, r)
        if d:
            what, cls = "success reported with missing or different outputs after %s: %s" % (where, d), "silent"
    if not what and r["removed"]:
        what, cls = "inputs removed: %s after %s" % (r["removed"], where), "inputs"
    return Outcome(what, cls, sig, live, [where.split(" at ")[0].split(" of ")[0] if live else "none"], "%s -> %s" % (where, ended(r)))


def shrink(case):
    yield from shrink_plan(case)
