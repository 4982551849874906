"""C01: the results are a function of input files and command line."""
from common import *
import re

ID, LEVEL, TECH = "C01", "exploration", "deterministic simulation, seeded environments (hash seed, entropy, clock, memory contents)"
RULE = ("A case is two simulated irrep processes on one seeded world and command line: the reference environment and a seeded other one "
        "(interpreter hash seed, kernel entropy, global random generators, virtual clock with its rate and a jump, environment variables, fill "
        "pattern of uninitialised memory, unrelated files in the directory, also files of another calculation, the directory itself, the order of options, times, modes and order of creation of the inputs; environment variables the run reads and files it looks for are then provided). Non-trivial: the reference run got past reading its inputs. Distinct: by "
        "(world, command line options, environment).")
MEASURE = "digest of (world, options, environment)"
HOSTS = [(0, None), (1, None), (2, 85), (3, 170), (0, 255), (17, 1)]
ENV = {"COLUMNS": ["40", "200"], "LANG": ["C", "de_DE.UTF-8"], "TZ": ["Asia/Tokyo", "UTC"], "USER": ["x"], "OMP_NUM_THREADS": ["3"], "LC_ALL": ["C", "POSIX"],
       "SOURCE_DATE_EPOCH": ["0"], "HOME": ["/nonexistent"], "PYTHONOPTIMIZE": ["1"], "TERM": ["dumb"], "NO_COLOR": ["1"], "DEBUG": ["1"]}
DECOY = ["notes.txt", "OUTCAR", "CONTCAR", "other.win", "other.sym", "POSCAR.orig", "WAVECAR.1", "config.yml", "irrep.json", "sim.nnkp", "old.eig", "sim.wout",
         "tables/irreps-SG=1-scal.dat", "KPOINTS"]


VALUES = ["1", "0", "2", "true", "", "junk", "debug", "/nonexistent", "1e-2", "7"]
SMART = {"json": '{"v": 2, "EF": 3.0, "degenThresh": 0.5}', "yml": "v: 2\nEF: 3.0\n", "yaml": "v: 2\nEF: 3.0\n", "toml": "[irrep]\nv = 2\nEF = 3.0\n", "ini": "[irrep]\nv = 2\n", "cfg": "[irrep]\nv = 2\n", "conf": "[irrep]\nv = 2\n",
         "py": "raise RuntimeError('imported')\n"}
OUTCAR = " ISPIN = 1\n   LSORBIT =      T\n ENCUT = 20.0 eV\n E-fermi :   3.1234     XC(G=0):  -9.9\n   NBANDS = 4\n Fermi energy = 3.5\n Fermi: 2.5\n"


def probed(base, w):
    """names the run looked for and did not find, other than input files under another spelling"""
    own = {re.sub(r"[0-9]+", "", f).lower() for f in w.files}
    out = set()
    for e in base["events"]:
        if e[0] in ("open", "stat") and e[4] == 2 and not e[1].startswith(("/", "$", "<", "?")):
            f = e[1]
            if re.sub(r"[0-9]+", "", f).lower() in own or re.search(r"(?i)(wfc(up|dw)?[0-9]+\.(dat|hdf5)|UNK[0-9]+\.(1|2|NC))$", f):
                continue
            out.add(f)
    return sorted(out)


def contents(rng, f, w):
    ext = f.rsplit(".", 1)[-1].lower()
    like = [k for k in w.files if k.rsplit(".", 1)[-1] == f.rsplit(".", 1)[-1] and "." in k]
    if ext in SMART:
        return SMART[ext]
    if like and rng.random() < .7:
        b = w.files[like[0]].decode("latin-1")
        return b if rng.random() < .5 else b[:len(b) // 2]
    return rng.choice([OUTCAR, SMART["yml"], "", "1.0\n", "junk\n", OUTCAR])


def groups(rng, tier):
    n = 64 if tier == "quick" else 800
    return [{"code": CODES[i % 4]} for i in range(n)]


def cases(ctx, g, rng, tier):
    spec = vary(rng, cli_spec(rng, g["code"], max_ops=rng.choice([4, 8, 16, 24])))
    for _ in range(2):
        spec2, args = rich_case(ctx, rng, spec)
        w = ctx.world(spec2)
        base = ctx.clean(spec2, args)
        yield {"spec": spec2, "args": args, "env": {"order": rng.randrange(1000)}}
        if base["status"] != 0:
            continue
        looked, keys = probed(base, w), sorted(base["env_keys"])
        keys = ["IRREP_DEBUG", "IRREP"] if keys == ["*"] else [k for k in keys if k != "*"]
        # whatever the run looked at beyond its inputs
        for k in rng.sample(keys, min(2, len(keys))):
            yield {"spec": spec2, "args": args, "env": {"env": {k: rng.choice(VALUES)}}}
        early = sorted(ctx.host().hello.get("env_keys", []))
        if early and rng.random() < .3:
            k = rng.choice([x for x in early if x != "*"] or ["IRREP"])
            yield {"spec": spec2, "args": args, "env": {"host": [0, None, [[k, rng.choice(VALUES[:3])]]]}}
        for f in rng.sample(looked, min(3, len(looked))):
            yield {"spec": spec2, "args": args, "env": {"decoy": {f: contents(rng, f, w)}}}
        for i in range(6 if tier == "quick" else 12):
            env = {"host": list(rng.choice(HOSTS[1:])) if rng.random() < .6 else [0, None], "entropy": rng.randrange(1, 2 ** 40), "npseed": rng.randrange(2 ** 31)}
            if rng.random() < .6:
                env["now"] = rng.choice([0, 1, 951782400, 1_709_164_799, 2 ** 31 - 2, 4_102_444_800])
                env["tick_ns"] = rng.choice([0, 1, 10 ** 9, 3600 * 10 ** 9])
            if rng.random() < .3:
                env["jump"] = [rng.randint(1, 20), rng.choice([-86400, 86400 * 400, -3])]
            if rng.random() < .5:
                env["env"] = {k: rng.choice(ENV[k]) for k in rng.sample(sorted(ENV), 3)}
            if rng.random() < .25:
                env["utime"] = {f: rng.choice([0, 10 ** 9, 4 * 10 ** 9]) for f in w.files}
            if rng.random() < .15:
                env["mode"] = {f: rng.choice([0o444, 0o600, 0o755]) for f in w.files}
            if rng.random() < .3:
                env["shuffle"] = rng.randrange(1000)
            if rng.random() < .2:
                env["subdir"] = rng.choice(["a", "run 2", "x" * 40, "deep/er/still", "irrep", "1"])
            if rng.random() < .2:
                env["order"] = rng.randrange(1000)
            if rng.random() < .25:
                # files of another calculation
                other = World(dict(vary(rng, cli_spec(rng, spec2["code"], nk=1)), extra_files={}))
                env["decoy"] = {}
                for f, b in other.files.items():
                    a, x = f.rsplit(".", 1) if "." in f else (f, "")
                    h = rng.choice(["old.%s" % x, a + "2." + x, "0." + x, "zz/" + f, a + ".bak." + x])
                    if not re.match(r"(?i)(UNK|wfc)", h.split("/")[-1]) or "/" in h:
                        env["decoy"][h] = b.decode("latin-1")
            elif rng.random() < .4:
                env["decoy"] = {f: rng.choice(["", "junk\n", "1 2 3\n"]) for f in rng.sample(DECOY, 4)}
            yield {"spec": spec2, "args": args, "env": env}


def execute(ctx, case):
    spec, args, env = case["spec"], case["args"], dict(case["env"])
    w = ctx.world(spec)
    base = ctx.clean(spec, args)
    if base["status"] != 0:
        return bad_clean(ctx, case, base)
    decoy = {f: b.encode("latin-1") for f, b in env.pop("decoy", {}).items() if f not in w.files and f not in base["outputs"]}
    home = {f[2:]: decoy.pop(f) for f in list(decoy) if f.startswith("~/")}
    files = dict(w.files, **decoy)
    d = env.pop("subdir", None)
    if d:
        files = {d + "/" + f: b for f, b in files.items()}
        env["subdir"] = d
        for k in ("utime", "mode"):
            if k in env:
                env[k] = {d + "/" + f: x for f, x in env[k].items()}
    if "order" in env:
        args = list(args)
        random.Random(env.pop("order")).shuffle(args)
    r = ctx.run(files=files, args=args, host=env.pop("host", (0, None)), home=home, **env)
    if d:
        r["outputs"] = {f[len(d) + 1:] if f.startswith(d + "/") else "/" + f: b for f, b in r["outputs"].items()}
    sig = (spec, args, case["env"])
    what = cls = None
    if r["status"] != base["status"]:
        what, cls = "status %s instead of %s in environment %s: %s" % (r["status"], base["status"], case["env"], tail(r["stderr"])), "status"
    else:
        d = same_outputs(base, r)
        if d:
            what, cls = "different results in environment %s: %s" % (case["env"], d), "differs"
    return Outcome(what, cls, sig, True, ["environment: " + k for k in case["env"]], "entropy draws %d, clock reads %d" % (r["rand_calls"], r["clock_calls"]))


def shrink(case):
    e = case["env"]
    for k in list(e):
        f = {a: b for a, b in e.items() if a != k}
        yield dict(case, env=f)
    if "env" in e:
        for k in e["env"]:
            yield dict(case, env=dict(e, env={a: b for a, b in e["env"].items() if a != k}))
    for c in shrink_plan(case):
        yield c
