"""C06: input files and foreign files are never touched."""
import errno
import re
from common import *

ID, LEVEL, TECH = "C06", "exploration", "deterministic simulation, seeded faults and crashes, monitor over every file operation"
RULE = ("A case is one simulated irrep process in a directory that also holds foreign files (outputs of runs with other names, editor back-ups, files of the DFT "
        "codes), with a seeded fault (error, crash, torn write, interrupt signal, full disk) at a seeded operation on any file, or none. Every file operation "
        "of the process, also outside the directory, is judged by a monitor; the directory is compared afterwards. Operations that would change anything "
        "outside the directory are recorded and refused by the seam. Non-trivial: a fault fired, or the directory held foreign files. Distinct: by (code, "
        "options, fault, operation and file, how the run ended).")
MUT = {"write", "fwrite", "rename", "unlink", "mkdir", "trunc", "link", "chmod"}
O_ACC, O_CREAT, O_TRUNC = 3, 0o100, 0o1000
NAMES = ["trace.txt.bak", "irreps.dat~", "#trace.txt#", "irrep-output.json.old", "irrep-output.json.tmp", "trace.txt.tmp", "backup/trace.txt", "bands-old.dat", "bands.dat",
         "other.sym", "KPOINTS", "OUTCAR", "CHGCAR", "EIGENVAL", "sim.wout", "sim_o_DEN", "notes.txt", ".irreprc", "tables/irreps-SG=1-scal.dat",
         "trace", "out", "tmp", "irrep.cache", "irreps-SG=1-scal.dat", "irreptable", "POSCAR.orig", "core", "bands-tognuplot.dat", "trace.txt.1", "sim.save/notes"]


def groups(rng, tier):
    n = 128 if tier == "quick" else 700
    return [{"code": CODES[i % 4]} for i in range(n)]


def owned(args):
    """the documented outputs of a command line, as a pattern"""
    o = ["trace\\.txt", "irreps\\.dat", "irreptable-template", "irrep-output\\.json"]
    suffix, prefix = "tognuplot", None
    for a in args:
        if a.startswith("-suffix="):
            suffix = a[8:]
        if a.startswith("-prefix="):
            prefix = a[8:]
    if "-plotbands" in args:
        parts = "(-[0-9]+:[^/]*)" if any(a.startswith("-isymsep") for a in args) else ""
        o.append("bands-%s%s\\.dat" % (re.escape(suffix), parts))
    if "-writesym" in args:
        o.append(re.escape("%s.sym" % prefix))
    return re.compile("(" + "|".join(o) + ")$")


def cases(ctx, g, rng, tier):
    spec = vary(rng, cli_spec(rng, g["code"]))
    foreign = {}
    if rng.random() < .85:
        foreign = {f: rng.choice(["", "text\n", "{}", "1 2 3\n" * 200]) for f in rng.sample(NAMES, rng.randint(1, 8))}
    spec["extra_files"] = foreign
    spec, args = rich_case(ctx, rng, spec, ["plain"] * 4 + ["sep", "sep", "zak", "wcc", "writesym", "readsym", "onlysym"] + ["bands"] * 4)
    if rng.random() < .8:
        # neighbours of the names the run itself uses
        suffix, prefix = ([a.split("=", 1)[1] for a in args if a.startswith(o)] for o in ("-suffix=", "-prefix="))
        s, p = (suffix or ["tognuplot"])[0], (prefix or ["sim"])[0]
        mine = ["trace.txt", "irreps.dat", "irreptable-template", "irrep-output.json", "bands-%s.dat" % s, p + ".sym"] + sorted(set(ctx.world(spec).files) - set(spec["extra_files"]))
        x = {}
        for _ in range(rng.choice([3, 10, 40])):
            f = rng.choice(mine)
            a, b = f.rsplit(".", 1) if "." in f else (f, "")
            x[rng.choice([f + "~", f + ".bak", f + ".tmp", f + ".1", f + ".lock", f + ".new", "." + f, "#%s#" % f, a + "2." + b, a + "-old." + b, a + "_1." + b, "old-" + f, "x" + f, f.upper(), f + ".swp",
                          a + ".txt", a + ".log", a + "-1:1." + b, "tmp/" + f, a + "." + b[:1], f[:-1], "%s-GM.%s" % (a, b), a])] = "mine\n"
        own, have = owned(args), ctx.world(spec).files
        x = {k: v for k, v in x.items() if k and not k.endswith("/") and not own.match(k) and k not in have and "/" not in k.rstrip("/").replace("tmp/", "", 1)
             and k.lower() not in ("x",) and not re.match(r"(?i)(wfc|UNK)", k)}
        spec = dict(spec, extra_files=dict(spec["extra_files"], **x))
        spec["extra_files"] = {k: v for k, v in spec["extra_files"].items() if not any(o.startswith(k + "/") for o in [*spec["extra_files"], *have])}
    clean = ctx.clean(spec, args)
    c0 = {"spec": spec, "args": args, "plan": []}
    yield c0
    if clean["status"] == 0 and "-onlysym" not in args and not any(a.startswith(("-ZAK", "-WCC", "-plotbands")) for a in args):
        # the same with the band files, and neighbours of theirs
        s = rng.choice(["x", "tognuplot", "b1", "GX"])
        near = ["bands-%s%s.dat" % (s, x) for x in rng.sample(["2", "-2", "_2", "-GM", "0", ".old", "y", "~", "-1:1", "-2:1.0-x", " (1)", "-tmp"], 6)]
        b = {"spec": dict(spec, extra_files=dict(spec["extra_files"], **{f: "mine\n" for f in near})), "args": args + ["-plotbands", "-suffix=" + s], "plan": []}
        b["spec"]["extra_files"] = {k: v for k, v in b["spec"]["extra_files"].items() if k not in near or not owned(b["args"]).match(k)}
        yield b
    if clean["status"] != 0:
        return
    ev = clean["events"]
    keys = sorted({(e[0], e[1]) for e in ev})
    total = sum(len(v) for v in clean["outputs"].values())
    for _ in range(14 if tier == "quick" else 80):
        if rng.random() < .08:
            yield dict(c0, capacity=rng.randrange(total + 1))
            continue
        if rng.random() < .08:
            yield dict(c0, line=[rng.randrange(20000), rng.choice(["KeyboardInterrupt", "MemoryError"])])
            continue
        if rng.random() < .15:       # the inputs themselves are damaged
            f = rng.choice(sorted(k for k in ctx.world(spec).files if k not in foreign))
            yield dict(c0, damage=[f, rng.choice(["missing", "empty", "cut", "zeros"]), rng.random()])
            continue
        key = rng.choice(keys)
        i = rng.choice([i for i, e in enumerate(ev) if (e[0], e[1]) == key])
        k = rng.choice(["err", "err", "err", "crash", "crash_part", "sigint", "err_part" if key[0] == "write" else "err"])
        p = {"at": i, "kind": k, "err": getattr(errno, rng.choice(["EIO", "ENOSPC", "EACCES", "EROFS", "ENOENT"] if key[0] in ("open", "stat") else ["EIO", "ENOSPC"])),
             "n": rng.choice([0, 1, 100, 1000])}
        if k in ("err", "err_part"):
            p.update(ops=[key[0]], sticky=rng.choice([0, 0, 1000]))
        yield dict(c0, plan=[p])


def judge(events, pre, own):
    """first operation that touches what the run does not own"""
    new = set()
    for i, (op, f, arg, ret, err, fault, flags) in enumerate(events):
        if f in ("?", "<stdout>"):
            continue
        outside = f.startswith(("/", "$REPO", "~/"))
        writing = op in MUT or (op == "open" and (flags & O_ACC or flags & (O_CREAT | O_TRUNC)))
        if not writing:
            continue
        if outside:
            return "operation %d: %s of %s, outside the working directory" % (i, op, f)
        if own.match(f):
            continue
        if f in pre or any(p.startswith(f + "/") for p in pre):
            return "operation %d: %s of the foreign file %s" % (i, "open for writing" if op == "open" else op, f)
        new.add(f)


def execute(ctx, case):
    spec, args = case["spec"], case["args"]
    w = ctx.world(spec)
    files = dict(w.files)
    if case.get("damage"):
        f, how, x = case["damage"]
        b = files[f]
        if how == "missing":
            del files[f]
        else:
            files[f] = {"empty": b"", "cut": b[:int(len(b) * x)], "zeros": b[:int(len(b) * x)] + b"\0" * (len(b) - int(len(b) * x))}[how]
    kw = {}
    if case.get("capacity") is not None:
        kw["capacity"] = case["capacity"]
    if case.get("line"):
        kw["line"] = tuple(case["line"])
    r = ctx.run(files=files, args=args, plan=case["plan"], events=True, **kw)
    own = owned(args)
    fs = r["fired"]
    where = ", ".join("%s of %s (%s)" % (f[1], f[2], f[3]) for f in fs[:2]) or (case.get("damage") and "damage to %s (%s)" % tuple(case["damage"][:2])) or "no fault"
    sig = (spec["code"], sorted(a.split("=")[0] for a in args), case.get("capacity"), case.get("damage", [])[:2], r.get("lines"), [(f[0], f[1], f[2], f[3]) for f in fs][:3], ended(r))
    what = cls = None
    bad = judge(r["events"], files, own)
    if bad:
        what, cls = "%s (after %s)" % (bad, where), "touched"
    elif [f for f in r["removed"] if not own.match(f)]:
        what, cls = "%s removed after %s" % (r["removed"], where), "touched"
    elif [f for f in r["outputs"] if f in files and not own.match(f)]:
        what, cls = "content of %s changed after %s" % ([f for f in r["outputs"] if f in files and not own.match(f)], where), "touched"
    elif r["status"] == 0 and [f for f in r["outputs"] if not own.match(f)]:
        what, cls = "undocumented files left behind: %s after %s" % ([f for f in r["outputs"] if not own.match(f)], where), "left"
    return Outcome(what, cls, sig, bool(fs or spec["extra_files"]), ["%s %s" % (f[1], f[3]) for f in fs], "%s -> %s" % (where, ended(r)))


def shrink(case):
    if case.get("plan"):
        yield dict(case, plan=[])
    yield from shrink_plan(case)
    x = case["spec"].get("extra_files", {})
    for f in x:
        if f != "old.sym":
            yield dict(case, spec=dict(case["spec"], extra_files={k: v for k, v in x.items() if k != f}))
