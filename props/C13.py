"""C13: separation by symmetries partitions the states correctly."""
import ast
import functools
import os
import warnings

from common import *
import reference as ref

ID, LEVEL, TECH = "C13", "exploration", "deterministic simulation, seeded histories of separations with injected failures, reference model"
RULE = ("A case is a seeded history in one simulated process over the files a simulated run of a DFT code left for a seeded crystal (special points or points on symmetry "
        "lines): one band structure is built and separated repeatedly, by one or several symmetries in seeded orders, with and without grouping of Kramers pairs, parts are "
        "separated further, the original and earlier parts are looked at again; in some cases a failing allocation is injected at a seeded source line of a separation, and "
        "the history goes on.  Labels, energies and the projectors on the states of every part are compared with the reference, the original before and after.  One case in "
        "four is a run of the command line with -isymsep.  Non-trivial: at least one separation was decided.  Distinct: by the history.")
REAL = "irrep, irreptables, spglib, numpy, scipy, fortio, monty, click, file system calls"
STUB = "DFT codes (simulated producers of physical states and files), allocation failures raised at source lines"


def groups(rng, tier):
    return [{"code": CODES[i % 4]} for i in range(160 if tier == "quick" else 2400)]


def make(rng, code):
    import framework
    for _ in range(80):
        if rng.random() < .6:
            spec = cli_spec(rng, code, max_ops=rng.choice([4, 8, 8, 16]), nk=rng.choice([1, 2, 3, 4]), min_ops=2)
        else:
            # a line through a special point along an invariant direction
            sg, cs, sp = framework.pick_crystal(rng, rng.random() < .5, rng.choice([4, 8, 16]), 2)
            c = World.crystal(sg, cs)
            R, T = rng.choice(c.ops[1:])
            M = np.linalg.inv(R).T
            fixed = [g for g in np.ndindex(3, 3, 3) if any(np.array(g) - 1) and np.allclose(M @ (np.array(g) - 1), np.array(g) - 1)]
            k0 = np.array([rng.choice([0, 0, .5]) for _ in range(3)])
            if not fixed:
                kp = [k0.tolist()]
            else:
                d = np.array(rng.choice(fixed)) - 1
                kp = [[round(float(y), 9) for y in k0 + d * x] for x in sorted(rng.sample([0, .11, .23, .37, .5], rng.randint(1, 4)))]
            spec = {"sg": sg, "cs": cs, "spin": sp, "ds": rng.randrange(10 ** 6), "gs": rng.randrange(10 ** 6), "os": rng.randrange(10 ** 6), "code": code, "kp": kp}
        spec = vary(rng, spec)
        try:
            World(spec)
        except Exception as e:
            if type(e).__name__ != "Retry":
                raise
            continue
        return spec
    raise Skip


def new_kw(w):
    from C08 import base_kw
    return dict(base_kw(w), calculate_traces=True, save_wf=True, degen_thresh=1e-4)


def cases(ctx, g, rng, tier):
    try:
        spec = make(rng, g["code"])
    except Skip:
        return
    named = all(isinstance(k, str) for k in spec["kp"])
    for _ in range(5 if tier == "quick" else 12):
        s = dict(spec, gs=rng.randrange(10 ** 6), os=rng.randrange(10 ** 6))
        w = ctx.world(s)
        m = ref.Model(w)
        if rng.random() < .25:
            args = cli_args(rng, s, w, named and rng.random() < .6)
            base = ctx.clean(s, args)
            if base["status"] != 0:
                yield {"spec": s, "args": args}
                continue
            syms = common_symmetries(base) + [1]
            args = args + ["-isymsep=" + ",".join(str(i) for i in rng.sample(syms, min(len(syms), rng.choice([1, 2, 2, 3]))))]
            yield {"spec": s, "args": args}
            continue
        kw = new_kw(w)
        if rng.random() < .3:
            c = sorted(set.intersection(*[set(int(b) for b in x.borders) for x in m.k]))
            if len(c) > 2:
                a, b = sorted(rng.sample(c, 2))
                kw["IBstart"], kw["IBend"] = a + 1, b
        # symmetries are numbered by the run itself
        first = ctx.once(["C13", s, kw], lambda: ctx.run(files=w.files, kind="script", fn="program", params={"steps": [["new", "o", kw], ["dump", "o"]]}))
        steps = [["new", "o", kw], ["ident", "o", None], ["dump", "o"]]
        syms = [1]
        try:
            d = first["result"][1]["value"]
            syms = [o[0] for o in d["ops"] if all(o[0] in k["inds"] for k in d["kpoints"])]
        except (KeyError, IndexError, TypeError):
            pass
        names = ["o"]
        for i in range(rng.randint(1, 4)):
            src = rng.choice(names + ["o"])
            opt = {"groupKramers": rng.random() < .5, "degen_thresh": 1e-4}
            if rng.random() < .2:
                opt = {}
            steps.append(["sep", src, rng.choice(syms), opt, "s%d" % i])
            names += ["s%d/%d" % (i, j) for j in range(2)]
            if rng.random() < .4:
                steps.append(["dump", rng.choice(names)])
        steps += [["dump", n] for n in rng.sample(names, len(names))]
        case = {"spec": s, "steps": steps}
        if rng.random() < .3:
            case["fail"] = rng.random()
        yield case


@functools.lru_cache
def separation_lines():
    """source lines of the separation"""
    out = set()
    repo = os.environ.get("SIM_REPO", "/repo")
    warnings.simplefilter("ignore", SyntaxWarning)
    for f in ("irrep/bandstructure.py", "irrep/kpoint.py", "irrep/gvectors.py"):
        for x in ast.walk(ast.parse(open(os.path.join(repo, f)).read())):
            if isinstance(x, ast.FunctionDef) and x.name in ("Separate", "copy_sub", "symm_matrix"):
                out |= {(f, n) for n in range(x.lineno, x.end_lineno + 1)}
    return out


def execute(ctx, case):
    spec = case["spec"]
    w = ctx.world(spec)
    if "args" in case:
        r = ctx.run(files=w.files, args=case["args"])
        what, cls = judge(ctx, w, case["args"], r)
        return Outcome(what, cls, (spec["sg"], spec["cs"], spec["ds"], spec["code"], case["args"]), r["status"] == 0, ["command line"], "%s SG %d %s -> %s" % (spec["code"], spec["sg"], " ".join(case["args"][1:]), ended(r)))
    job = dict(files=w.files, kind="script", fn="program", params={"steps": case["steps"]})
    fail = None
    if case.get("fail") is not None:
        t = ctx.once(["C13 lines", spec, case["steps"]], lambda: [i for i, l in enumerate(ctx.run(trace_lines=True, **job).get("lines") or []) if tuple(l[:2]) in separation_lines()])
        if t:
            fail = [t[int(case["fail"] * len(t))], "MemoryError"]
    r = ctx.run(line=fail, **job) if fail else ctx.run(**job)
    what, cls, n = judge_history(ctx, case, w, r, bool(fail))
    return Outcome(what, cls, (spec["sg"], spec["cs"], spec["ds"], spec["code"], case["steps"], fail), n > 0, ["failing allocation in a separation"] if fail else ["history of %d" % len(case["steps"])],
                   "%s SG %d, %d steps, %d parts checked" % (spec["code"], spec["sg"], len(case["steps"]), n))


def judge_history(ctx, case, w, r, fail):
    if r["status"] != 0 or not isinstance(r["result"], list):
        return "the process fails (status %s): %s" % (r["status"], tail(r["stderr"])), "fails", 0
    kw = next((s[2] for s in case["steps"] if s[0] == "new"), None)
    if kw is None:
        return None, None, 0
    m = ref.Model(w, ibstart=kw.get("IBstart"), ibend=kw.get("IBend"))
    ops = None
    hist = {"o": ((), ())}        # name -> symmetries, kramers flags
    labels = {"o": ()}
    family = {}                   # name of a separation -> (parent, {index: dump})
    undecided = set()
    n = 0
    for s, rec in zip(case["steps"], r["result"]):
        name = s[1]
        if s[0] in ("new", "ident"):
            if "exc" in rec:
                return "step %s fails: %s" % (s[0], rec["exc"]), "fails", n
            continue
        if s[0] == "dump" and name == "o":
            if "exc" in rec:
                return "the original cannot be read: " + rec["exc"], "fails", n
            d = rec["value"]
            ops = [(o[0], np.asarray(o[1]), np.asarray(o[2]), np.asarray(o[3]) if m.dft.spinor else None) for o in d["ops"]]
            try:
                ref.check_bs(m, d, True, False)
            except ref.Bad as e:
                return "the original band structure%s: %s" % (" after a separation" if family else "", e), "original", n
            continue
        if ops is None:
            return None, None, n
        if s[0] == "sep":
            new = s[4]
            if name not in hist:
                if "exc" not in rec:
                    return "a part that does not exist was separated", "fails", n
                continue
            key = (hist[name][0] + (s[2],), hist[name][1] + (s[3].get("groupKramers", True),))
            try:
                exp = ref.subspace_bases(m, ops, key[0], list(key[1]))
            except ref.Undecided:
                exp = None
            mine = None if exp is None or name in undecided else [y for y in exp if all(abs(a - b) < 4e-3 for a, b in zip(y, labels[name]))]
            if "exc" in rec:
                if fail and "MemoryError" in rec["exc"]:
                    fail = False
                    continue
                if mine is None:
                    continue
                return "separating by %s (%s) fails: %s" % (list(key[0]), s[3], rec["exc"]), "fails", n
            family[new] = (name, key, {})
            for i, lab in enumerate(rec["value"]):
                q = "%s/%d" % (new, i)
                hist[q] = key
                labels[q] = labels[name] + (complex(lab),)
                if mine is None:
                    undecided.add(q)
            if mine is not None:
                if len(rec["value"]) != len(mine):
                    return "separating %s by %s gives %s instead of %s" % (labels[name], list(key[0]), rec["value"], [np.round(y[-1], 4) for y in mine]), "labels", n
                n += 1
            continue
        # a part
        if name not in hist or name in undecided:
            continue
        if "exc" in rec:
            return "a part cannot be read: " + rec["exc"], "fails", n
        key = hist[name]
        try:
            exp = ref.subspace_bases(m, ops, key[0], list(key[1]))
        except ref.Undecided:
            continue
        mine = [y for y in exp if all(abs(a - b) < 4e-3 for a, b in zip(y, labels[name]))]
        if len(mine) != 1:
            return "part %s of the separation by %s: the eigenvalues are %s" % (np.round(labels[name], 4).tolist(), list(key[0]), [np.round(y, 4).tolist() for y in exp]), "labels", n
        try:
            ref.check_part(m, exp, mine[0], labels[name], rec["value"])
            n += 1
        except ref.Bad as e:
            return str(e), "part", n
    return None, None, n


def shrink(case):
    s = case["spec"]
    if "args" in case:
        yield from shrink_plan(dict(case, plan=[]))
        return
    if case.get("fail") is not None:
        yield {k: v for k, v in case.items() if k != "fail"}
    st = case["steps"]
    for i in range(len(st) - 1, 1, -1):
        if not any(x[1].startswith(st[i][4] + "/") for x in st) if st[i][0] == "sep" else True:
            yield dict(case, steps=st[:i] + st[i + 1:])
    for k in list(s.get("w", {})):
        yield dict(case, spec=dict(s, w={a: b for a, b in s["w"].items() if a != k}))
    for k in ("dft", "kshift"):
        if k in s:
            yield dict(case, spec={a: b for a, b in s.items() if a != k})
