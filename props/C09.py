"""C09: concurrent and repeated use in one process is isolated."""
from common import *
from C08 import new_kw

ID, LEVEL, TECH = "C09", "exploration", "deterministic simulation: seeded baton scheduler over the threads of one process (every source line a switch point), injected allocation failures"
RULE = ("A case is one simulated process in which two or three threads each run a seeded program of API calls (build, identify, separate, describe, write to files of their "
        "own) on their own calculation or on the same input files, and a seeded scheduler hands the baton from thread to thread at source lines of irrep and irreptables; in "
        "some cases an allocation fails in one thread.  In a third kind of case programs for calculations that have much in common (cutoff, k-points, space group, file names) run one after the other or interleaved in one thread, in directories of their own or with the files replaced in between; each call has to return and print what it does in a process of its own.  Each thread has to leave the results its program leaves alone in a process, each file its content, and process-wide "
        "state (working directory, environment, random generators, print options, warning filters, signal handlers, streams ...) has to be as before.  The programs alone are "
        "cases as well: after every call, its arguments and the process-wide state are compared with those before.  Non-trivial: the baton changed hands, or a program ran "
        "alone.  Distinct: by the digest of the interleaving and the programs.")
MEASURE = "digest of the sequence of switches (source-line count and thread at each) together with the programs"
REAL = "irrep, irreptables, spglib, numpy, scipy, fortio, monty, CPython threads"
STUB = "DFT codes (simulated producers of files), the thread scheduler (a seeded baton decides which thread runs), allocation failures raised at source lines"


def groups(rng, tier):
    return [{"code": CODES[i % 4], "same": (i // 4) % 3 == 0} for i in range(96 if tier == "quick" else 1600)]


def make(rng, code, i):
    spec = cli_spec(rng, code, nk=rng.choice([1, 1, 2]), max_ops=rng.choice([4, 4, 8, 12]))
    spec = vary(rng, spec)
    spec.pop("rename", None)
    if code == "vasp":
        spec["rename"] = {"POSCAR": "POSCAR%d" % i, "WAVECAR": "WAVECAR%d" % i}
    elif code == "abinit":
        spec["rename"] = {"sim_WFK": "o%d_WFK" % i}
    else:
        spec["w"]["prefix"] = "p%d" % i
    return spec


def program(rng, world, i, writer):
    steps = []
    for n in range(rng.choice([1, 1, 2])):
        kw = new_kw(rng, world)
        kw["calculate_traces"] = rng.random() < .85
        kw["save_wf"] = True
        name = "b%d" % n
        steps.append(["new", name, kw])
        if kw["calculate_traces"]:
            steps.append(["ident", name, None])
        y = [["dump", name], ["sgjson", name], ["show", name]]
        if kw["calculate_traces"]:
            y += [["json", name], ["chars", name], ["plot", name, "bands%d.dat" % i], ["line", name],
                  ["sep", name, rng.randint(1, len(world.cryst.ops)), {"groupKramers": rng.random() < .5, "degen_thresh": 1e-4}, name + "s"], ["dump", name]]
            if writer:
                y += [["trace", name], ["irreps", name]]
        y.append(["sym", name, "w%d.sym" % i, round(rng.uniform(1, 9), 3)])
        steps += rng.sample(y, rng.randint(2, len(y)))
        if rng.random() < .5:
            steps.append(["dump", name])
    return steps


ALIKE = ["lattice", "moved", "states", "gauge", "spin", "kpoints", "bands", "same"]


def sibling(rng, spec):
    """a calculation that agrees with another one in much (cutoff, k-points, space group, file names ...) but not in all"""
    from framework import CURATED
    a = World(spec)
    for _ in range(40):
        b = json.loads(json.dumps(spec))
        how = rng.choice(ALIKE)
        b["dft"] = dict(b.get("dft", {}), ecut=a.dft.ecut)
        if how == "lattice":
            c = [x for x in CURATED if x[0] == spec["sg"] and bool(x[2]) == spec["spin"] and x[1] != spec["cs"]]
            if not c:
                continue
            b["cs"] = rng.choice(c)[1]
        elif how == "moved":
            b["mv"] = rng.randrange(10 ** 6)
            b.pop("kshift", None)
        elif how in ("states", "bands"):
            b["ds"] = rng.randrange(10 ** 6)
        elif how == "gauge":
            b["gs"], b["os"] = rng.randrange(10 ** 6), rng.randrange(10 ** 6)
        elif how == "spin":
            b["spin"] = not b["spin"]
        elif how == "kpoints":
            from crystal import Table
            n = sorted(Table(b["sg"], b["spin"]).kpts)
            b["kp"] = rng.sample(n, min(len(n), len(b["kp"])))
            b.pop("kshift", None)
        try:
            World(b)
            return b, how
        except Exception as e:
            if type(e).__name__ not in ("Retry", "KeyError", "LookupError"):
                raise
    return json.loads(json.dumps(spec)), "same"


def renamed(prog, i):
    """the same program with object names of its own"""
    out = []
    for s in prog:
        s = list(s)
        s[1] = "%d:%s" % (i, s[1])
        if s[0] == "sep":
            s[4] = "%d:%s" % (i, s[4])
        out.append(s)
    return out


def series_cases(rng, tier, code):
    spec = vary(rng, cli_spec(rng, code, nk=rng.choice([1, 1, 2]), max_ops=rng.choice([4, 4, 8, 12])))
    worlds, how = [spec], []
    for _ in range(rng.choice([1, 1, 2])):
        b, h = sibling(rng, spec)
        worlds.append(b)
        how.append(h)
    progs = [renamed(program(rng, World(w), i, True), i) for i, w in enumerate(worlds)]
    for _ in range(2 if tier == "quick" else 4):
        order = [i for i, p in enumerate(progs) for _ in p]
        if rng.random() < .6:
            rng.shuffle(order)
        yield {"worlds": worlds, "programs": progs, "alike": how, "order": order, "put": rng.random() < .5}


def cases(ctx, g, rng, tier):
    for _ in range(2):
        yield from series_cases(rng, tier, g["code"])
    n = rng.choice([2, 2, 2, 3])
    codes = [g["code"]]
    while len(codes) < n:
        codes.append(codes[0] if g["same"] else rng.choice([c for c in CODES if c != "wannier90" or c not in codes]))
    worlds = [make(rng, c, i) for i, c in enumerate(codes)]
    if rng.random() < .5 and not g["same"]:       # calculations that have much in common
        for i in range(1, n):
            b = sibling(rng, worlds[0])[0] if codes[i] == codes[0] != "wannier90" else None
            if b:
                worlds[i] = dict(b, **({"rename": worlds[i]["rename"]} if "rename" in worlds[i] else {"w": dict(b["w"], prefix="p%d" % i)}))
    if g["same"]:
        worlds = [worlds[0]] * n
    W = [ctx.world(s) for s in worlds]
    for _ in range(2 if tier == "quick" else 4):
        progs = [program(rng, w, i, i == 0) for i, w in enumerate(W)]
        c0 = {"worlds": worlds, "programs": progs}
        for i in range(n):
            yield dict(c0, alone=i)
        for _ in range(4 if tier == "quick" else 16):
            c = dict(c0, seed=rng.randrange(10 ** 9), density=rng.choice([1e-4, 1e-3, 1e-3, .01, .1, .5]))
            if rng.random() < .3:
                c["fail"] = [rng.randrange(n), rng.random()]
            yield c


def differs(a, b, where=""):
    """first difference between two results, up to numerical noise"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return "%s: shape %s instead of %s" % (where, b.shape, a.shape)
        if a.dtype.kind in "fc":
            with np.errstate(invalid="ignore"):
                bad = ~((np.abs(a - b) < 1e-8) | (a == b) | (np.isnan(a) & np.isnan(b)))
            return "%s: %s instead of %s" % (where, b[bad][0], a[bad][0]) if bad.any() else None
        return None if np.array_equal(a, b) else "%s: %s instead of %s" % (where, str(b)[:80], str(a)[:80])
    if isinstance(a, (float, complex)) and isinstance(b, (float, complex)):
        return None if a == b or a != a and b != b or abs(a - b) < 1e-8 else "%s: %s instead of %s" % (where, b, a)
    if type(a) is not type(b):
        return "%s: %s instead of %s" % (where, type(b).__name__, type(a).__name__)
    if isinstance(a, dict):
        if list(a) != list(b):
            return "%s: keys %s instead of %s" % (where, list(b)[:20], list(a)[:20]) if not all(isinstance(x, (float, complex)) for x in [*a, *b]) or differs(list(a), list(b)) else None
        for k in a:
            d = differs(a[k], b[k], "%s.%s" % (where, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d items instead of %d" % (where, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differs(x, y, "%s[%d]" % (where, i))
            if d:
                return d
        return None
    return None if a == b else "%s: %s instead of %s" % (where, str(b)[:80], str(a)[:80])


def files_of(case):
    return {i: {"bands%d.dat" % i, "w%d.sym" % i} | ({"trace.txt", "irreps.dat"} if i == 0 else set()) for i in range(len(case["programs"]))}


def alone(ctx, case, i, files):
    return ctx.once(["C09", case["worlds"], case["programs"][i]], lambda: ctx.run(files=files, kind="script", fn="program", params={"steps": case["programs"][i]}))


def execute_series(ctx, case):
    P, put = case["programs"], case["put"]
    files = {"w/x": b""}
    for i, s in enumerate(case["worlds"]):
        files.update({"d%d/%s" % (i, f): b for f, b in ctx.world(s).files.items()})
    ref = []
    for i, p in enumerate(P):
        steps = [["cd", "w"], ["put", "d%d" % i]] if put else [["cd", "d%d" % i]]
        r = ctx.once(["C09 series", case["worlds"], i, p, put], lambda: ctx.run(files=files, kind="script", fn="series", params={"steps": steps + p}))
        if r["status"] != 0 or not isinstance(r["result"], list):
            return Outcome("the process fails (status %s): %s" % (r["status"], tail(r["stderr"])), "fails", ("series", P))
        ref.append(dict(r, result=r["result"][len(steps):]))
    steps, who = [["cd", "w"]] if put else [], [None] * put
    at, here = [0] * len(P), None
    for i in case["order"]:
        if at[i] >= len(P[i]):
            continue
        s = P[i][at[i]]
        if not put and here != i:
            steps.append(["cd", "d%d" % i])
            who.append(None)
        elif put and here != i and s[0] == "new":
            steps.append(["put", "d%d" % i])
            who.append(None)
        if not put or s[0] == "new":
            here = i
        steps.append(s)
        who.append((i, at[i]))
        at[i] += 1
    r = ctx.run(files=files, kind="script", fn="series", params={"steps": steps}, timeout=120)
    what = cls = None
    if r["status"] == "hang":
        what, cls = "the process hangs", "hang"
    elif r["status"] != 0 or not isinstance(r["result"], list):
        what, cls = "the process fails (status %s): %s" % (r["status"], tail(r["stderr"])), "fails"
    else:
        for n, k in zip(r["result"], who):
            if k is None:
                continue
            a, b = dict(ref[k[0]]["result"][k[1]]), dict(n)
            d = same(a.pop("text", "").encode(), b.pop("text", "").encode())
            d = "printed: " + d if d else differs(a, b)
            if d:
                what, cls = "%s of calculation %d after calls for others (%s): %s" % (a["step"], k[0], ", ".join(case["alike"]), d), "series"
                break
        if not what and not put:
            for i in range(len(P)):
                u = {k: v for k, v in ref[i]["outputs"].items() if at[i] == len(P[i])}
                for k in sorted(u):
                    v = r["outputs"].get(k)
                    if v is None or same(u[k], v):
                        what, cls = "file %s: %s" % (k, "missing" if v is None else same(u[k], v)), "files"
    return Outcome(what, cls, ("series", case["order"], put, P, case["alike"]), True, ["history of %d" % len(steps), "calls over other directories" if not put else "files replaced between calls"],
                   "%d calls for %d calculations (%s)" % (len(steps), len(P), ", ".join(case["alike"])))


def execute(ctx, case):
    if "order" in case:
        return execute_series(ctx, case)
    W = [ctx.world(s) for s in case["worlds"]]
    files = {}
    for w in W:
        files.update(w.files)
    P = case["programs"]
    sigp = [[s["sg"], s["ds"], s["code"]] for s in case["worlds"]] + [P]
    if "alone" in case:
        r = alone(ctx, case, case["alone"], files)
        what = cls = None
        if r["status"] != 0 or not isinstance(r["result"], list):
            what, cls = "the process fails (status %s): %s" % (r["status"], tail(r["stderr"])), "fails"
        else:
            for s, rec in zip(P[case["alone"]], r["result"]):
                if rec.get("args"):
                    what, cls = "%s changed its argument %s" % (s[0], rec["args"]), "args"
                elif rec.get("globals"):
                    what, cls = "%s changed process-wide state: %s" % (s[0], rec["globals"]), "globals"
        return Outcome(what, cls, (sigp, "alone", case["alone"]), True, ["history of %d" % len(P[case["alone"]])], "%d calls alone" % len(P[case["alone"]]))
    ref = [alone(ctx, case, i, files) for i in range(len(P))]
    if any(r["status"] != 0 or not isinstance(r["result"], list) for r in ref):
        return Outcome(live=False)
    params = {"programs": P, "seed": case["seed"], "density": case["density"]}
    if case.get("fail"):
        t, x = case["fail"]
        own = ctx.once(["C09 own", case["worlds"], P], lambda: ctx.run(files=files, kind="script", fn="threads", params=dict(params, density=0)))["result"]
        if isinstance(own, dict) and own["own"][t]:
            params["fail"] = [t, 1 + int(x * own["own"][t])]
    r = ctx.run(files=files, kind="script", fn="threads", params=params, timeout=120)
    what = cls = None
    x = r["result"]
    if r["status"] == "hang":
        what, cls = "the threads hang", "hang"
    elif r["status"] != 0 or not isinstance(x, dict):
        what, cls = "the process fails (status %s): %s" % (r["status"], tail(r["stderr"])), "fails"
    else:
        hit = params["fail"][0] if x["failed"] else None
        own = files_of(case)
        for i, p in enumerate(P):
            if i == hit:
                continue
            a = [{k: v for k, v in rec.items() if k != "globals"} for rec in ref[i]["result"]]
            b = x["outs"][i]
            d = differs(a, b, "thread %d" % i)
            if d:
                what, cls = "not what the same program does alone: " + d, "results"
                break
            d = None
            for k in sorted(own[i]):
                u, v = ref[i]["outputs"].get(k), r["outputs"].get(k)
                d = d or (None if u is v is None else "%s: %s" % (k, "not there" if v is None else "there" if u is None else same(u, v)) if u is None or v is None or same(u, v) else None)
            if d:
                what, cls = "thread %d left other files than the same program alone: %s" % (i, d), "files"
                break
        if not what and x["globals"]:
            what, cls = "process-wide state changed: %s" % x["globals"], "globals"
    live = isinstance(x, dict) and x["switches"] > len(P)
    return Outcome(what, cls, (sigp, x["digest"] if isinstance(x, dict) else 0, params.get("fail")), live, ["baton"] * live + ["failing allocation"] * bool(isinstance(x, dict) and x["failed"]),
                   "%d threads, %d switches in %d lines" % (len(P), x["switches"], x["lines"]) if isinstance(x, dict) else "")


def shrink(case):
    if case.get("fail"):
        yield {k: v for k, v in case.items() if k != "fail"}
    P = case["programs"]
    if "order" in case:
        for i in range(len(P)):
            for j in range(len(P[i]) - 1, -1, -1):
                yield dict(case, programs=P[:i] + [P[i][:j] + P[i][j + 1:]] + P[i + 1:])
        return
    if "alone" in case:
        i = case["alone"]
        for j in range(len(P[i]) - 1, 0, -1):
            yield dict(case, programs=P[:i] + [P[i][:j] + P[i][j + 1:]] + P[i + 1:])
        return
    if len(P) > 2:
        for i in range(len(P)):
            yield {**case, "programs": P[:i] + P[i + 1:], "worlds": case["worlds"][:i] + case["worlds"][i + 1:]}
    for i in range(len(P)):
        for j in range(len(P[i]) - 1, 0, -1):
            yield dict(case, programs=P[:i] + [P[i][:j] + P[i][j + 1:]] + P[i + 1:])
    for d in (1e-4, 1e-3, .01):
        if d < case["density"]:
            yield dict(case, density=d)
