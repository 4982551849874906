"""C05: a rerun converges whatever crashed or earlier runs left behind."""
import errno
from common import *

ID, LEVEL, TECH = "C05", "exploration", "deterministic simulation, seeded crashes, durable-state loss and run histories"
RULE = ("A case is a seeded history of simulated irrep processes in one directory: up to three earlier runs, each with its own inputs or options, completed, "
        "killed at a seeded file operation (also in the middle of a write) or stopped by an I/O error, after each of which a seeded part of what it wrote is "
        "lost (removed, cut, empty, zeros); then the run under test to completion, compared with the same run in a fresh directory. Non-trivial: the "
        "directory held at least one left-over output when the last run started. Distinct: by the history (code, options, where each run stopped, what was lost).")


def groups(rng, tier):
    n = 64 if tier == "quick" else 800
    return [{"code": CODES[i % 4]} for i in range(n)]


def cases(ctx, g, rng, tier):
    spec = vary(rng, cli_spec(rng, g["code"]))
    spec, args = rich_case(ctx, rng, spec, ["plain"] * 4 + ["sep", "zak", "wcc", "writesym", "onlysym", "bands", "bands"])
    other = vary(rng, cli_spec(rng, rng.choice([g["code"], rng.choice(CODES)])))
    other, oargs = rich_case(ctx, rng, other, ["plain"] * 3 + ["sep", "writesym", "bands", "onlysym"])
    spec3, args3 = rich_case(ctx, rng, spec)
    runs = [(spec, args), (other, oargs), (spec3, args3)]
    clean = [ctx.clean(s, a) for s, a in runs]
    c0 = {"spec": spec, "args": args}
    if clean[0]["status"] != 0:
        yield dict(c0, history=[])
        return
    for _ in range(24 if tier == "quick" else 80):
        hist = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            j = rng.choice([0, 0, 0, 1, 2])
            s, a = runs[j]
            w = ctx.world(s)
            h = {"spec": s, "args": a}
            evs = [i for i, e in enumerate(clean[j]["events"]) if e[1] not in w.files and not e[1].startswith("$REPO")]
            x = rng.random()
            if x < .65 and evs:
                i = rng.choice(evs)
                h["plan"] = [{"at": i, "kind": rng.choice(["crash", "crash_part"]), "n": rng.choice([1, 10, 100, 1000, 5000])}]
            elif x < .75 and evs:
                h["plan"] = [{"at": rng.choice(evs), "kind": "err", "err": errno.ENOSPC, "sticky": 1000, "ops": ["write", "open"]}]
            elif x < .8:
                h["plan"] = [{"at": rng.randrange(len(clean[j]["events"])), "kind": "crash"}]
            h["loss"] = {}
            if rng.random() < .7:
                for f in sorted(clean[j]["outputs"]):
                    if rng.random() < .5:
                        h["loss"][f] = rng.choice([["missing"], ["cut", rng.random()], ["empty"], ["zeros", rng.random()], ["tail", rng.randint(1, 4)]])
            hist.append(h)
        foreign = {}
        if rng.random() < .15:
            foreign = {f: rng.choice(["", "junk\n", "{", "x" * 5000]) for f in rng.sample(sorted(clean[0]["outputs"]) or ["trace.txt"], 1)}
        yield dict(c0, history=hist, foreign=foreign)


def lose(b, l):
    if l[0] == "cut":
        return b[:int(len(b) * l[1])]
    if l[0] == "empty":
        return b""
    if l[0] == "zeros":
        n = int(len(b) * l[1])
        return b[:n] + b"\0" * (len(b) - n)
    return b[:-l[1]]


def execute(ctx, case):
    spec, args = case["spec"], case["args"]
    base = ctx.clean(spec, args)
    if base["status"] != 0:
        return bad_clean(ctx, case, base)
    left = {f: b.encode() for f, b in case.get("foreign", {}).items()}
    names, sig = [], []
    w = ctx.world(spec)
    for h in case["history"]:
        v = ctx.world(h["spec"])
        before = dict(left, **v.files)
        r = ctx.run(files=before, args=h["args"], plan=h.get("plan", []), rewritten=True)
        for f, b in v.files.items():
            if r["all"].get(f) != b:
                return Outcome("input %s %s by a run that ended with %s after %s" % (f, "changed" if f in r["all"] else "removed", r["status"], r["fired"][:1]), "inputs",
                               sig=("inputs", f), live=True)
        left = {f: b for f, b in r["all"].items() if f not in v.files}
        for f, l in h["loss"].items():
            if f in left:
                if l[0] == "missing":
                    del left[f]
                else:
                    left[f] = lose(left[f], l)
        names += ["left by a run: " + ended(r)] + ["lost: " + l[0] for l in h["loss"].values()]
        sig.append((h["spec"]["code"], h["args"], [(f[0], f[1], f[2], f[3]) for f in r["fired"][:2]], sorted(map(str, h["loss"].items())), ended(r)))
    left = {f: b for f, b in left.items() if f not in w.files}
    r = ctx.run(files=dict(left, **w.files), before=w.files, args=args)
    what = cls = None
    how = "after %d earlier runs leaving %s" % (len(case["history"]), ", ".join(sorted(left))[:150] or "nothing")
    if r["status"] != 0:
        what, cls = "the rerun fails (status %s) %s: %s" % (r["status"], how, tail(r["stderr"])), "rerun-fails"
    else:
        # files of earlier runs that this run does not own stay as they were
        extra = {f for f in r["outputs"] if f not in base["outputs"]}
        for f in extra:
            if r["outputs"][f] != left.get(f):
                what, cls = "%s: %s appeared or changed" % (how, f), "foreign"
        if not what:
            d = same_outputs(base, r, ignore=extra)
            if d:
                what, cls = "the rerun %s gives other results than in a fresh directory: %s" % (how, d), "differs"
        if not what and r["removed"]:
            what, cls = "inputs removed: %s" % r["removed"], "inputs"
    return Outcome(what, cls, (spec["code"], args, sig), bool(left), names, how)


def shrink(case):
    h = case["history"]
    for i in range(len(h)):
        yield dict(case, history=h[:i] + h[i + 1:])
    if case.get("foreign"):
        yield dict(case, foreign={})
    for i, x in enumerate(h):
        for f in x["loss"]:
            yield dict(case, history=h[:i] + [dict(x, loss={k: v for k, v in x["loss"].items() if k != f})] + h[i + 1:])
        if x.get("plan"):
            yield dict(case, history=h[:i] + [dict(x, plan=[])] + h[i + 1:])
    yield from shrink_plan(dict(case, plan=[]))
