"""C15: Wilson loops and Zak phases are gauge independent."""
import errno
from common import *
import reference as ref

ID, LEVEL, TECH = "C15", "exploration", "deterministic simulation of the DFT codes, seeded paths, gauges and read interruptions, reference model"
RULE = ("A case is one simulated irrep process (-ZAK or -WCC, with or without separation by symmetries; or a program of API calls) over the files a simulated run of a DFT "
        "code left for a seeded crystal along a seeded closed path: lines across the Brillouin zone from special or general points with 2-6 points, with or without the "
        "repeated end point, small closed polygons, points moved by reciprocal lattice vectors.  Phases and bases of degenerate states, order of plane waves and format are "
        "those of the seed; transparent faults (short and interrupted reads) are injected in some runs.  Every phase or set of charge centres that the physical states "
        "determine (sets of states closed at every point, no vanishing overlap) is compared with the reference, and so are gaps and gap centres.  Non-trivial: at least one "
        "phase or set of centres was decided.  Distinct: by (crystal, states, path, code, options, seeds).")
REAL = "irrep, irreptables, spglib, numpy, scipy, fortio, monty, click, file system calls"
STUB = "DFT codes (simulated producers of physical states and files), kernel faults below the LD_PRELOAD seam"


def groups(rng, tier):
    return [{"code": CODES[i % 4]} for i in range(160 if tier == "quick" else 2400)]


def path(rng, c):
    """a closed path in the coordinates of the calculation"""
    x = rng.random()
    n = rng.choice([3, 3, 4, 4, 5, 6])
    if x < .7:
        # across the zone
        g = np.zeros(3)
        while not g.any():
            g = np.array([rng.choice([0, 0, 1, -1]) for _ in range(3)])
        y = rng.random()
        k0 = np.zeros(3) if y < .5 else np.array([rng.choice([0, .5]) for _ in range(3)]) if y < .75 else np.array([round(rng.uniform(-.5, .5), 3) for _ in range(3)])
        if rng.random() < .3:
            k0 = k0 + round(rng.uniform(-.3, .3), 3) * g
        p = [k0 + g * j / n for j in range(n + (rng.random() < .4))]
        if len(p) == n and rng.random() < .3:
            s = rng.randrange(n)
            p = p[s:] + p[:s]
    else:
        k0 = np.array([round(rng.uniform(-.5, .5), 3) for _ in range(3)])
        p = [k0 + np.array([round(rng.uniform(-.12, .12), 3) for _ in range(3)]) for _ in range(n)]
    return [[round(float(v), 9) for v in k] for k in p]


def make(rng, code):
    for _ in range(80):
        spin = rng.random() < .5
        sg, cs, sp = __import__("framework").pick_crystal(rng, spin, rng.choice([4, 8, 8, 16]))
        c = World.crystal(sg, cs)
        spec = {"sg": sg, "cs": cs, "spin": sp, "ds": rng.randrange(10 ** 6), "gs": rng.randrange(10 ** 6), "os": rng.randrange(10 ** 6), "code": code, "kp": path(rng, c)}
        spec = vary(rng, spec)
        try:
            World(spec)
        except Exception as e:
            if type(e).__name__ != "Retry":
                raise
            continue
        return spec
    raise Skip


def window(rng, m):
    """a set of bands separated by gaps at all k-points, if there is one"""
    cuts = sorted(set.intersection(*[set(int(b) for b in x.borders) for x in m.k]))
    if len(cuts) < 2:
        return []
    a, b = sorted(rng.sample(cuts, 2))
    return ["-IBstart=%d" % (a + 1), "-IBend=%d" % b]


def cases(ctx, g, rng, tier):
    try:
        spec = make(rng, g["code"])
    except Skip:
        return
    for _ in range(6 if tier == "quick" else 14):
        s = dict(spec, gs=rng.randrange(10 ** 6), os=rng.randrange(10 ** 6))
        w = ctx.world(s)
        args = w.args()
        m = ref.Model.of_cli(w, args)
        if rng.random() < .7:
            args = args + window(rng, m)
        if rng.random() < .2:
            args.append("-EF=%.4f" % rng.uniform(-5, 10))
        if rng.random() < .15 and s["code"] != "wannier90" and w.dft.ecut_low:
            args.append("-Ecut=%.8f" % w.dft.ecut_low)
        n = len(s["kp"])
        if rng.random() < .2:
            args.append("-kpoints=" + ",".join(str(i + 1) for i in rng.choice([list(range(n))[::-1], list(range(1, n)) + [0]])))
        if rng.random() < .5:
            syms = [i for i, (R, T) in enumerate(w.cryst.ops) if all(m.in_group(x, R) for x in m.k)]
            base = ctx.clean(s, args)
            syms = sorted(set(common_symmetries(base))) if base["status"] == 0 and len(syms) > 1 else []
            if syms:
                args.append("-isymsep=" + ",".join(str(i) for i in rng.sample(syms, min(len(syms), rng.choice([1, 1, 2])))))
                if rng.random() < .3:
                    args.append("-groupKramers")
        args.append(rng.choice(["-ZAK", "-WCC"]))
        case = {"spec": s, "args": args, "plan": []}
        if rng.random() < .25:
            case["plan"] = [{"frac": rng.random(), "kind": rng.choice(["short", "eintr"]), "arg": rng.randint(1, 999)} for _ in range(rng.randint(1, 4))]
        yield case


def execute(ctx, case):
    spec, args = case["spec"], case["args"]
    w = ctx.world(spec)
    plan = []
    if case["plan"]:
        ev = [i for i, e in enumerate(ctx.clean(spec, args)["events"]) if e[0] == "read" and is_input(e[1])]
        plan = [{"at": ev[int(p["frac"] * len(ev))], "kind": "short", "n": p["arg"], "ops": ["read"]} if p["kind"] == "short" else
                {"at": ev[int(p["frac"] * len(ev))], "kind": "err", "err": errno.EINTR, "ops": ["read"]} for p in case["plan"] if ev]
    r = ctx.run(files=w.files, args=args, plan=plan)
    sig = (spec["sg"], spec["cs"], spec["ds"], spec["code"], spec["gs"], spec["os"], spec["kp"], args)
    m = None
    what = cls = None
    if r["status"] != 0:
        what, cls = judge(ctx, w, args, r)
    else:
        try:
            m = ref.check_run(w, args, r)
        except ref.Bad as e:
            what, cls = str(e), "report"
    return Outcome(what, cls, sig, bool(m and m.decided), [p["kind"] for p in plan if r["fired"]] + ["gauge"], "%s SG %d %s -> %s" % (spec["code"], spec["sg"], " ".join(args[1:]), ended(r)))


def shrink(case):
    s = case["spec"]
    yield from shrink_plan(case)
    for k in list(s.get("w", {})):
        yield dict(case, spec=dict(s, w={a: b for a, b in s["w"].items() if a != k}))
    for k in ("dft", "kshift"):
        if k in s:
            yield dict(case, spec={a: b for a, b in s.items() if a != k})
