"""C02: faults while reading never change results silently."""
import errno
from common import *

ID, LEVEL, TECH = "C02", "exploration", "deterministic simulation, seeded read-fault injection"
RULE = ("A case is one simulated irrep process over a seeded world with one to three seeded faults placed on the read-side events of "
        "that command's own event log (open/read/fread/stat/seek/close of inputs and tables), or on any later operation when sticky. "
        "Non-trivial: at least one fault actually fired. Distinct: by (code, fired operation, file, occurrence, fault, how the run ended).")

ERR = {"open": ["EIO", "EACCES", "EMFILE", "ENOENT", "ESTALE"], "read": ["EIO", "ESTALE", "EISDIR"], "fread": ["EIO"], "stat": ["EIO", "ENOENT", "ESTALE"],
       "lseek": ["EIO"], "mmap": ["ENOMEM"], "close": ["EIO"], "dir": ["EIO"]}


def groups(rng, tier):
    n = 60 if tier == "quick" else 600
    return [{"code": CODES[i % 4]} for i in range(n)]


def cases(ctx, g, rng, tier):
    spec = vary(rng, cli_spec(rng, g["code"]))
    w = ctx.world(spec)
    args = cli_args(rng, spec, w)
    base = ctx.clean(spec, args)
    c0 = {"spec": spec, "args": args}
    if base["status"] != 0:
        yield dict(c0, plan=[])
        return
    ev = [(i, e) for i, e in enumerate(base["events"]) if e[0] in READ_OPS and is_input(e[1])]
    first = {}
    for i, e in ev:
        first.setdefault((e[0], e[1]), i)
    for _ in range(40 if tier == "quick" else 120):
        plan = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            # choose the kind of operation and file first, so that rare sites get their share
            x = rng.random()
            if x < .5:
                key = rng.choice(sorted(first))
                i, e = rng.choice([(i, e) for i, e in ev if (e[0], e[1]) == key])
            else:
                i, e = rng.choice(ev)
            op = e[0]
            if op == "read" and rng.random() < .3:
                plan.append({"at": i, "kind": "short", "n": rng.choice([1, 1, 7, max(1, e[3] // 2), max(1, e[3] - 1)]), "ops": [op]})
            elif op == "read" and rng.random() < .2:
                plan.append({"at": i, "kind": "err", "err": errno.EINTR, "ops": [op]})
            elif op == "fread" and rng.random() < .6:
                plan.append({"at": i, "kind": "short", "n": rng.choice([0, 8, 16, 4, max(0, e[3] // 2), max(0, e[3] - 1), max(0, e[3] - 8), max(0, e[3] - 16)]), "ops": [op]})
            else:
                plan.append({"at": i, "kind": "err", "err": getattr(errno, rng.choice(ERR[op])),
                             "sticky": int(rng.random() < .25), "ops": [op]})
        yield dict(c0, plan=plan)


def transparent(f):
    return f[1] == "read" and (f[3] == "short" or f[4] == errno.EINTR)


def execute(ctx, case):
    spec, args = case["spec"], case["args"]
    w = ctx.world(spec)
    base = ctx.clean(spec, args)
    if base["status"] != 0:
        return bad_clean(ctx, case, base)
    if not case["plan"]:
        return Outcome(live=False)
    r = ctx.run(files=w.files, args=args, plan=case["plan"])
    fs = r["fired"]
    names = ["%s %s" % (f[1], f[3]) for f in fs]
    sig = (spec["code"], [(f[0], f[1], f[2], f[3], f[4]) for f in fs][:4], ended(r))
    what = cls = None
    where = ", ".join("%s of %s (%s%s)" % (f[1], f[2], f[3], " errno %d" % f[4] if f[4] else "") for f in fs[:3])
    if r["status"] == "hang":
        what, cls = "run hangs after " + where, "hang"
    elif r["status"] == 0:
        d = same_outputs(base, r)
        if d:
            what, cls = "success reported with different results after %s: %s" % (where, d), "silent"
    elif fs and all(transparent(f) for f in fs):
        what, cls = "run fails (status %s) although every read was merely short or interrupted: %s: %s" % (r["status"], where, tail(r["stderr"])), "not-absorbed"
    return Outcome(what, cls, sig, bool(fs), names, "%s -> %s" % (where, ended(r)))


shrink = shrink_plan
