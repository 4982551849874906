"""C08: what is read at a k-point does not depend on what else is read, or when."""
import errno
from common import *
import reference as ref

ID, LEVEL, TECH = "C08", "exploration", "deterministic simulation, seeded histories of readers in one process with read faults, reference model"
RULE = ("A case is a seeded history of constructions of band structures in one simulated process, over one or two calculations of any code present in the same directory: "
        "selections of k-points in any order with repeats and numbers out of range, band windows, spin channels (spin-polarised Quantum Espresso), different numbers of "
        "bands per k-point (Abinit), cutoffs, Fermi energies, with or without traces, irreps and kept wave functions; objects are looked at immediately and again later. In "
        "some cases a seeded read fails or is cut short, which may fail the step it hits but no other.  Every object is compared, state by state, with the "
        "reference.  One case in four is a run of the command line with such options.  Non-trivial: at least one object was built.  Distinct: by the history.")
STUB = "DFT codes (simulated producers of files), kernel I/O faults"


def groups(rng, tier):
    n = 160 if tier == "quick" else 2400
    return [{"code": CODES[i % 4], "polar": (i // 4) % 3 == 0} for i in range(n)]


def make(rng, code, second, polar):
    spec = cli_spec(rng, code, nk=rng.choice([2, 3, 4, 5]), max_ops=rng.choice([4, 8, 8, 12]), **({"spin": False} if polar and code == "espresso" else {}))
    spec = vary(rng, spec)
    w = spec["w"]
    if code == "espresso" and polar:
        for _ in range(20):
            spec["dw"] = {"ds": rng.randrange(10 ** 6)}
            try:
                World(spec)
                break
            except Exception as e:
                if type(e).__name__ != "Retry":
                    raise
        else:
            del spec["dw"]
    if second:
        if code == "vasp":
            spec["rename"] = {"POSCAR": "POSCAR2", "WAVECAR": "WAVECAR2"}
        elif code == "abinit":
            spec["rename"] = {"sim_WFK": "o2_WFK"}
        elif code == "espresso":
            w["prefix"] = "second"
        else:
            return None
    if rng.random() < .5:
        nk = len(spec["kp"])
        sel = [rng.randrange(nk) for _ in range(rng.randint(1, 6))] if rng.random() < .4 else rng.sample(range(nk), rng.randint(1, nk))
        w["sel"] = sel
    if code == "abinit" and rng.random() < .4:
        nb = World(spec).dft.nb_choices
        w["nbk"] = [rng.choice(nb) for _ in (w.get("sel") or spec["kp"])]
    return spec


def base_kw(world):
    s = world.spec
    if s["code"] == "vasp":
        r = s.get("rename", {})
        return {"code": "vasp", "fPOS": r.get("POSCAR", "POSCAR"), "fWAV": r.get("WAVECAR", "WAVECAR"), "spinor": bool(world.dft.spinor)}
    if s["code"] == "abinit":
        return {"code": "abinit", "fWFK": s.get("rename", {}).get("sim_WFK", "sim_WFK")}
    kw = {"code": s["code"], "prefix": s["w"].get("prefix", "sim")}
    if s["code"] == "wannier90":
        kw["Ecut"] = world.dft.ecut
    return kw


def new_kw(rng, world):
    s = world.spec
    kw = base_kw(world)
    sel = s["w"].get("sel") or list(range(len(s["kp"])))
    n = len(sel)
    x = rng.random()
    if x < .7:
        kl = [rng.randint(1, n) for _ in range(rng.randint(1, n + 1))] if rng.random() < .5 else rng.sample(range(1, n + 1), rng.randint(1, n))
        if rng.random() < .2:
            kl.insert(rng.randrange(len(kl) + 1), rng.choice([0, n + 1, -1, n + 7]))
        kw["kplist"] = kl
        kw["kparray"] = rng.random() < .3
    if s.get("dw"):
        kw["spin_channel"] = rng.choice(["up", "dw", "down", "Up"])
    nb = world.dft.nb if not s.get("dw") else min(world.dft.nb, world.dft_dw.nb)
    if rng.random() < .5:
        a = rng.randint(0, nb)
        kw["IBstart"] = rng.choice([a, None])
        kw["IBend"] = rng.choice([rng.randint(max(a, 1), nb + 2), None])
    if s["code"] != "wannier90" and rng.random() < .3:
        kw["Ecut"] = rng.choice([world.dft.ecut_low or -1, 1e6, 0])
    elif s["code"] == "wannier90" and world.dft.ecut_low and rng.random() < .2:
        kw["Ecut"] = world.dft.ecut_low
    kw["EF"] = rng.choice(["0.0", "auto", "%.4f" % rng.uniform(-3, 9)])
    kw["degen_thresh"] = 1e-4
    if rng.random() < .7:
        kw["calculate_traces"] = True
    if rng.random() < .2:
        kw["save_wf"] = False
    kw["v"] = rng.choice([0, 0, 1, 2])
    return kw


def model(world, kw, names=None):
    s = world.spec
    dw = s.get("dw") and kw["spin_channel"].lower() in ("dw", "down")
    dft, g = (world.dft_dw, world.gauge_dw) if dw else (world.dft, world.gauge)
    ef = kw["EF"]
    ef = (0.0 if s["code"] == "vasp" else world.dft.efermi) if ef == "auto" else float(ef)
    ecut = kw.get("Ecut")
    m = ref.Model(world, kw.get("kplist"), kw.get("IBstart"), kw.get("IBend"), ecut, ef, kw["degen_thresh"], names, dft, g, dft.nb, s["w"].get("sel"), s["w"].get("nbk"))
    m.names = names
    return m


def cases(ctx, g, rng, tier):
    for _ in range(40):
        spec = make(rng, g["code"], False, g["polar"])
        other = make(rng, rng.choice([c for c in CODES if c != g["code"] or c != "wannier90"]), True, g["polar"])
        if spec and other:
            break
    worlds = [spec, other]
    W = [ctx.world(s) for s in worlds]
    for _ in range(4 if tier == "quick" else 12):
        if rng.random() < .25 and not spec.get("dw"):  # the command line has no option for the spin channel
            yield from cli_case(ctx, rng, spec, W[0])
            continue
        steps, names, later = [], [], []
        for i in range(rng.choice([1, 2, 3, 3, 5])):
            j = 0 if rng.random() < .75 else 1
            kw = new_kw(rng, W[j])
            name = "b%d" % i
            st = [["new", name, kw]]
            nm = None
            if kw.get("calculate_traces") and W[j].setting_ok() and rng.random() < .6:
                sel = worlds[j]["w"].get("sel") or list(range(len(worlds[j]["kp"])))
                kl = kw.get("kplist") or range(1, len(sel) + 1)
                nm = [worlds[j]["kp"][sel[k - 1]] for k in kl if 1 <= k <= len(sel)]
                kw["search_cell"] = True
                st.append(["ident", name, nm])
            elif kw.get("calculate_traces") and rng.random() < .3:
                st.append(["ident", name, None])
            steps += st
            if rng.random() < .6:
                steps.append(["dump", name])
            else:
                later.append(["dump", name])
            names.append((name, j, nm))
            if rng.random() < .3:
                steps.append(["dump", rng.choice(names)[0]])
            if rng.random() < .15:
                steps.append(["drop", names.pop(0)[0]])
                later = [s for s in later if s[1] in [x[0] for x in names]]
        rng.shuffle(later)
        steps += later
        plan = []
        if rng.random() < .4:
            for _ in range(rng.choice([1, 1, 2])):
                plan.append({"at": rng.randrange(10 ** 9), "kind": rng.choice(["short", "eintr", "err", "fcut"])})
        yield {"worlds": worlds, "steps": steps, "plan": plan}


def cli_case(ctx, rng, spec, w):
    args, d = w.args(), w.dft
    sel = spec["w"].get("sel") or list(range(len(spec["kp"])))
    n = len(sel)
    kl = list(range(1, n + 1))
    if rng.random() < .7:
        kl = rng.sample(kl, rng.randint(1, n))
        if rng.random() < .3:
            kl.append(rng.choice(kl))
        if kl == list(range(kl[0], kl[0] + len(kl))) and rng.random() < .5 and len(kl) > 1:
            args.append("-kpoints=%d-%d" % (kl[0], kl[-1]))
        else:
            args.append("-kpoints=" + ",".join(map(str, kl)))
    if rng.random() < .6:
        args.append("-kpnames=" + ",".join(spec["kp"][sel[k - 1]] for k in kl))
        if not w.setting_ok():
            args += w.ref_args()
    if rng.random() < .5:
        nb = d.nb
        a = rng.randint(1, nb)
        args += ["-IBstart=%d" % a, "-IBend=%d" % rng.randint(a, nb)]
    if rng.random() < .5:
        args.append("-EF=" + rng.choice(["auto", "1.25"]))
    if d.ecut_low and rng.random() < .3 and spec["code"] != "wannier90":
        args.append("-Ecut=%.8f" % d.ecut_low)
    yield {"worlds": [spec], "args": args, "plan": []}


def execute(ctx, case):
    worlds = [ctx.world(s) for s in case["worlds"]]
    if "args" in case:
        w, args = worlds[0], case["args"]
        r = ctx.run(files=w.files, args=args)
        s = w.spec
        what = cls = None
        try:
            m = ref.Model.of_cli(w, args, sel=s["w"].get("sel"), nbk=s["w"].get("nbk"))
            ask = impossible(m)
        except (IndexError, ValueError):
            ask = True
        if r["status"] != 0 and ask:
            pass
        elif r["status"] != 0:
            what, cls = "a run on complete and consistent files fails (status %s): %s" % (r["status"], tail(r["stderr"])), "fails"
        else:
            try:
                ref.check_run(w, args, r, m)
            except ref.Bad as e:
                what, cls = str(e), "report"
        return Outcome(what, cls, (s["sg"], s["ds"], s["code"], s["w"].get("sel"), args), r["status"] == 0, ["command line"], " ".join(args[1:]))
    files = {}
    for w in worlds:
        files.update(w.files)
    job = dict(kind="script", fn="program", params={"steps": case["steps"]})
    plan = []
    if case["plan"]:
        base = ctx.once(["C08", case["worlds"], case["steps"]], lambda: ctx.run(files=files, events=True, **job))
        ev = [(i, e) for i, e in enumerate(base["events"]) if e[0] in ("read", "fread", "open") and e[1] in files]
        for p in case["plan"]:
            c = [(i, e) for i, e in ev if {"short": e[0] == "read", "eintr": e[0] == "read", "err": True, "fcut": e[0] == "fread"}[p["kind"]]]
            if c:
                i, e = c[p["at"] % len(c)]
                plan.append({"short": {"at": i, "kind": "short", "n": 1 + p["at"] % max(1, e[3]), "ops": [e[0]]}, "eintr": {"at": i, "kind": "err", "err": errno.EINTR, "ops": [e[0]]},
                             "err": {"at": i, "kind": "err", "err": errno.EIO, "ops": [e[0]]}, "fcut": {"at": i, "kind": "short", "n": p["at"] % max(1, e[3]), "ops": [e[0]]}}[p["kind"]])
    r = ctx.run(files=files, plan=plan, **job)
    hard = [f for f in r["fired"] if not (f[1] == "read" and (f[3] == "short" or f[4] == errno.EINTR))]
    what, cls, built = judge_program(ctx, case, worlds, r, len(hard))
    return Outcome(what, cls, (case["worlds"][0]["sg"], case["worlds"][0]["ds"], case["steps"], plan), built > 0, ["read %s" % f[3] for f in r["fired"]] + ["history of %d" % len(case["steps"])],
                   "%d steps, %d objects checked, %d faults" % (len(case["steps"]), built, len(r["fired"])))


def world_of(case, worlds, kw):
    for w in worlds:
        if all(base_kw(w).get(k) == kw.get(k) for k in ("code", "fPOS", "fWAV", "fWFK", "prefix")):
            return w


def judge_program(ctx, case, worlds, r, hard):
    if r["status"] != 0 or not isinstance(r["result"], list):
        return "the process fails (status %s): %s" % (r["status"], tail(r["stderr"])), "fails", 0
    objs, bad, built = {}, set(), 0
    for s, rec in zip(case["steps"], r["result"]):
        name = s[1]
        if "exc" in rec:
            if name in bad:
                continue
            if s[0] == "new" and legit(worlds, case, s):
                bad.add(name)
                continue
            if hard > 0 and s[0] in ("new", "ident"):
                hard -= 1
                bad.add(name)
                continue
            return "step %s fails: %s" % (json.dumps(s)[:200], rec["exc"]), "fails", built
        if name in bad:
            continue
        if s[0] == "new":
            objs[name] = [s[2], None, False]
        elif s[0] == "ident":
            objs[name][1:] = [s[2], True]
        elif s[0] == "dump":
            kw, nm, named = objs[name]
            w = world_of(case, worlds, kw)
            try:
                m = model(w, kw, nm)
                ref.check_bs(m, rec["value"], bool(kw.get("calculate_traces")), named and nm is not None, bool(kw.get("search_cell")), kw.get("save_wf", True))
                built += 1
            except ref.Bad as e:
                return "%s: %s" % (json.dumps({k: v for k, v in kw.items() if k not in ("v",)}), e), "object", built
    return None, None, built


def legit(worlds, case, s):
    """requests that have to fail: an empty band window, or one with bands that a chosen k-point does not have"""
    kw = s[2]
    w = world_of(case, worlds, kw)
    return impossible(model(w, kw))


def impossible(m):
    return m.b - m.a <= 0 or any(len(x.raw) < m.b - m.a for x in m.k)


def shrink(case):
    if "args" in case:
        yield from shrink_plan(case)
        return
    if case["plan"]:
        yield dict(case, plan=[])
    names = sorted({s[1] for s in case["steps"]})
    for n in names:
        rest = [s for s in case["steps"] if s[1] != n]
        if rest:
            yield dict(case, steps=rest)
    for i, s in enumerate(case["steps"]):
        if s[0] == "new":
            for k in ("kplist", "IBstart", "IBend", "Ecut"):
                if s[2].get(k) is not None and not (k == "Ecut" and s[2]["code"] == "wannier90") and not any(t[0] == "ident" and t[1] == s[1] for t in case["steps"]):
                    yield dict(case, steps=case["steps"][:i] + [["new", s[1], {a: b for a, b in s[2].items() if a != k}]] + case["steps"][i + 1:])
