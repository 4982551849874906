"""C04: a run that could not write its results does not report success."""
import errno
from common import *

ID, LEVEL, TECH = "C04", "exploration", "deterministic simulation, seeded write-fault injection"
RULE = ("A case is one simulated irrep process over a seeded world and command line with one to three seeded faults on the operations that command "
        "performs on its outputs and standard output (open, write, close, rename, fsync, ...: errors, torn and short writes, interruptions, persistent "
        "errors) or a disk with a seeded number of free bytes. Non-trivial: at least one fault fired. Distinct: by (code, fired operation, file, position, "
        "fault, how the run ended).")
ERR = {"open": ["ENOSPC", "EACCES", "EROFS", "EDQUOT", "EMFILE", "EIO", "EISDIR"], "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"], "fwrite": ["ENOSPC", "EIO"],
       "close": ["EIO", "ENOSPC", "EDQUOT"], "fsync": ["EIO", "ENOSPC"], "rename": ["EIO", "ENOSPC", "EACCES"], "trunc": ["EIO"], "unlink": ["EIO", "EACCES"],
       "mkdir": ["ENOSPC"], "link": ["EIO"], "chmod": ["EPERM"], "stat": ["EIO"], "lseek": ["EIO"]}


def groups(rng, tier):
    n = 56 if tier == "quick" else 700
    return [{"code": CODES[i % 4]} for i in range(n)]


def output_events(base, files):
    """events on files that are not inputs, from the run's own log"""
    return [(i, e) for i, e in enumerate(base["events"]) if e[1] not in files and not e[1].startswith("$REPO") and e[1] != "?" and e[0] in ERR
            and not (e[1] == "<stdout>" and e[0] not in ("write", "close", "fsync"))]


def cases(ctx, g, rng, tier):
    spec = vary(rng, cli_spec(rng, g["code"]))
    spec, args = rich_case(ctx, rng, spec, ["plain"] * 4 + ["sep", "zak", "wcc", "writesym", "writesym", "onlysym", "bands", "bands", "bands"])
    w = ctx.world(spec)
    base = ctx.clean(spec, args)
    c0 = {"spec": spec, "args": args}
    if base["status"] != 0:
        yield dict(c0, plan=[])
        return
    ev = output_events(base, w.files)
    keys = sorted({(e[0], e[1]) for i, e in ev})
    total = sum(len(v) for v in base["outputs"].values())
    for _ in range(40 if tier == "quick" else 120):
        if rng.random() < .15:
            cap = rng.choice([0, 1, rng.randrange(total + 1), rng.randrange(total + 1), total - 1, total - rng.randint(1, 200)])
            yield dict(c0, plan=[], capacity=max(0, cap))
            continue
        plan = []
        for _ in range(rng.choice([1, 1, 1, 1, 2, 3])):
            key = rng.choice(keys)
            i, e = rng.choice([(i, e) for i, e in ev if (e[0], e[1]) == key])
            op, x = e[0], rng.random()
            if op == "write" and x < .25:
                plan.append({"at": i, "kind": "short", "n": rng.choice([1, 1, 100, max(1, e[3] // 2), max(1, e[3] - 1)]), "ops": [op]})
            elif op == "write" and x < .35:
                plan.append({"at": i, "kind": "err", "err": errno.EINTR, "ops": [op]})
            elif op == "write" and x < .6:
                plan.append({"at": i, "kind": "err_part", "err": getattr(errno, rng.choice(ERR[op])), "n": rng.randint(0, max(0, e[3] - 1)), "ops": [op],
                             "sticky": rng.choice([0, 0, 1000])})
            else:
                plan.append({"at": i, "kind": "err", "err": getattr(errno, rng.choice(ERR[op])), "ops": [op], "sticky": rng.choice([0, 0, 0, 1000])})
        yield dict(c0, plan=plan)


def execute(ctx, case):
    spec, args = case["spec"], case["args"]
    w = ctx.world(spec)
    base = ctx.clean(spec, args)
    if base["status"] != 0:
        return bad_clean(ctx, case, base)
    kw = {"capacity": case["capacity"]} if case.get("capacity") is not None else {}
    if not case["plan"] and not kw:
        return Outcome(live=False)
    r = ctx.run(files=w.files, args=args, plan=case["plan"], **kw)
    fs = r["fired"]
    where = ", ".join("%s of %s (%s%s)" % (f[1], f[2], f[3], " errno %d" % f[4] if f[4] else "") for f in fs[:3])
    if kw:
        where = "disk with %d free bytes: %s" % (case["capacity"], where)
    sig = (spec["code"], sorted(a.split("=")[0] for a in args), case.get("capacity"), [(f[0], f[1], f[2], f[3], f[4]) for f in fs][:4], ended(r))
    what = cls = None
    if r["status"] == "hang":
        what, cls = "run hangs after " + where, "hang"
    elif r["status"] == 0:
        d = same_outputs(base, r)
        if d:
            what, cls = "success reported with missing or different outputs after %s: %s" % (where, d), "silent"
    elif fs and not kw and all(f[1] == "write" and (f[3] == "short" or f[4] == errno.EINTR) for f in fs):
        what, cls = "run fails (status %s) although every write was merely short or interrupted: %s: %s" % (r["status"], where, tail(r["stderr"])), "not-absorbed"
    elif not fs:
        what, cls = "run fails (status %s) without any fault: %s" % (r["status"], tail(r["stderr"])), "no-fault"
    if not what and r["removed"]:
        what, cls = "inputs removed: %s after %s" % (r["removed"], where), "inputs"
    return Outcome(what, cls, sig, bool(fs), ["%s %s" % (f[1], f[3]) for f in fs], "%s -> %s" % (where, ended(r)))


def shrink(case):
    yield from shrink_plan(case)
