"""C10: the outputs of a successful run are complete, well-formed and tell the same story."""
import errno
from common import *
import reference as ref

ID, LEVEL, TECH = "C10", "exploration", "deterministic simulation with transparent I/O faults, cross-output and reference checks"
RULE = ("A case is one simulated irrep process over a seeded world with a seeded command line over all output-producing modes (plain, separated, band plots, Zak, Wannier, "
        "writing or reading symmetries, symmetries only), on a disturbed operating system: seeded short reads and writes and interrupted calls on any file, which a run has to "
        "absorb; in one case in four also a hard error or a nearly full disk, after which a success still has to be complete.  Whenever the status is zero, every output asked "
        "for is parsed and compared with the others and with the reference.  Non-trivial: status zero.  Distinct: by (options, world, fired faults).")
STUB = "DFT codes (simulated producers of files), kernel I/O faults"


def groups(rng, tier):
    n = 240 if tier == "quick" else 3000
    return [{"code": CODES[i % 4]} for i in range(n)]


def cases(ctx, g, rng, tier):
    spec = vary(rng, cli_spec(rng, g["code"]))
    for _ in range(3):
        s, args = rich_case(ctx, rng, spec, ["plain"] * 3 + ["bands", "bands", "sep", "sep", "zak", "wcc", "writesym", "writesym", "readsym", "onlysym"])
        if rng.random() < .3 and not any(a.startswith("-symmetries") for a in args):
            n = len(ctx.world(s).cryst.ops)
            args = args + ["-symmetries=" + rng.choice(["1-%d" % rng.randint(1, n), ",".join(str(i) for i in sorted(rng.sample(range(1, n + 1), min(n, 3)))), "1"])]
        if "-onlysym" not in args and not any(a.startswith(("-isymsep", "-ZAK", "-WCC", "-writesym")) for a in args) and rng.random() < .3:
            args = args + ["-writesym"] + ([] if any(a.startswith("-prefix") for a in args) else ["-prefix=out"])
        if any(a.startswith("-isymsep") for a in args) and rng.random() < .4 and "-plotbands" not in args:
            args = args + ["-plotbands"]
        base = ctx.clean(s, args)
        ev = [(i, e) for i, e in enumerate(base["events"]) if e[0] in ("read", "write")]
        for m in range(2 if tier == "quick" else 6):
            plan = []
            for _ in range(rng.choice([0, 1, 2, 4, 8]) if m else 0):
                if ev:
                    i, e = rng.choice(ev)
                    if rng.random() < .6:
                        plan.append({"at": i, "kind": "short", "n": rng.choice([1, 7, max(1, e[3] // 2), max(1, e[3] - 1)]), "ops": [e[0]]})
                    else:
                        plan.append({"at": i, "kind": "err", "err": errno.EINTR, "ops": [e[0]]})
            c = {"spec": s, "args": args, "plan": plan}
            if m and rng.random() < .25 and ev:
                total = sum(len(v) for v in base["outputs"].values())
                if rng.random() < .5:
                    c["capacity"] = rng.randrange(total + 200)
                else:
                    i, e = rng.choice(ev)
                    c["plan"] = plan + [{"at": i, "kind": "err", "err": errno.EIO, "ops": [e[0]]}]
                c["hard"] = True
            yield c


def execute(ctx, case):
    spec, args = case["spec"], case["args"]
    w = ctx.world(spec)
    r = ctx.run(files=w.files, args=args, plan=case["plan"], **({"capacity": case["capacity"]} if "capacity" in case else {}))
    fs = r["fired"]
    names = ["%s %s" % (f[1], f[3]) for f in fs] + (["disk nearly full"] if "capacity" in case else [])
    sig = (spec["sg"], spec["code"], spec["ds"], args, [(f[0], f[1], f[2], f[3]) for f in fs][:4])
    what = cls = None
    if not case.get("hard") or r["status"] == 0:
        what, cls = judge(ctx, w, args, r)
    return Outcome(what, cls, sig, r["status"] == 0, names, "%s, %d faults -> %s" % (" ".join(args[1:]), len(fs), ended(r)))


def shrink(case):
    yield from shrink_plan(case)
    if case.get("hard"):
        yield {k: v for k, v in case.items() if k not in ("hard", "capacity")}
