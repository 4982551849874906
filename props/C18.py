"""C18: unfolding gives the weights of the physical states."""
import errno
import itertools
from common import *
import reference as ref
import C08
import C15

ID, LEVEL, TECH = "C18", "exploration", "deterministic simulation of the DFT codes, seeded histories of unfolding calls with interrupted reads, reference model"
RULE = ("A case is a seeded history of API calls in one simulated process over the files a simulated run of a DFT code left for a seeded crystal: band structures are read "
        "(any code, windows, selections of k-points, Fermi energies), unfolded onto all points of the zone of a seeded smaller cell in a seeded order, with repeats, with "
        "different thresholds for degeneracies, before and after separations by symmetries, whose parts are unfolded too, and onto points that do not fold; overlap and spin "
        "matrices and lengths of (unfolded) paths are asked for in between.  Phases and bases of degenerate states, order of plane waves and formats are those of the seed; "
        "reads may be short or interrupted.  Every weight is compared with the one of the physical states, and weights over the zone have to be non-negative and to sum to "
        "the number of states.  Non-trivial: at least one set of weights was compared.  Distinct: by (crystal, states, points, code, history).")
STUB = "DFT codes (simulated producers of physical states and files), kernel faults below the LD_PRELOAD seam"


def groups(rng, tier):
    return [{"code": CODES[i % 4]} for i in range(160 if tier == "quick" else 2400)]


def supercell(rng):
    """an integer matrix with few points of the large zone in the small one"""
    while True:
        x = rng.random()
        if x < .3:
            m = np.diag([rng.choice([1, 1, 2, 3]) for _ in range(3)])
        else:
            m = np.array([[rng.choice([0, 0, 1, -1, 2]) if i != j else rng.choice([1, 1, 2, -1, 0]) for j in range(3)] for i in range(3)])
        if 1 <= abs(round(np.linalg.det(m))) <= 6:
            return m.tolist()


def points(S, k):
    """the points of the small cell's zone that fold onto k"""
    S, inv = np.array(S), np.linalg.inv(np.array(S, dtype=float).T)
    out = []
    n = abs(round(np.linalg.det(S)))
    for g in itertools.product(range(-n, n + 1), repeat=3):
        q = (k + np.array(g)) @ inv
        if not any(np.abs((q - p + .5) % 1 - .5).max() < 1e-6 for p in out):
            out.append(q)
        if len(out) == n:
            return out


def cases(ctx, g, rng, tier):
    try:
        spec = C15.make(rng, g["code"])
    except Skip:
        return
    for _ in range(5 if tier == "quick" else 14):
        s = dict(spec, gs=rng.randrange(10 ** 6), os=rng.randrange(10 ** 6))
        w = ctx.world(s)
        kw = dict(C08.base_kw(w), EF=rng.choice(["0.0", "auto", "1.75"]), degen_thresh=1e-4, calculate_traces=True, v=rng.choice([0, 0, 1]))
        n = len(s["kp"])
        if rng.random() < .4:
            kw["kplist"] = [rng.randint(1, n) for _ in range(rng.randint(1, n))]
        if rng.random() < .5:
            # a window that cuts no multiplet
            m = C08.model(w, kw)
            cuts = sorted(set.intersection(*[set(int(b) for b in x.borders) for x in m.k]))
            if len(cuts) > 1:
                a, b = sorted(rng.sample(cuts, 2))
                kw.update(IBstart=a + 1, IBend=b)
        elif rng.random() < .5:
            kw["calculate_traces"] = False
            a = rng.randint(1, w.dft.nb)
            kw.update(IBstart=a, IBend=rng.randint(a, w.dft.nb))
        m = C08.model(w, kw)
        steps = [["new", "b", kw]]
        calls = []

        def zone(name, nk, ks):
            i = rng.randrange(nk)
            S = supercell(rng)
            ps = points(S, ks[i])
            opt = {} if rng.random() < .6 else {"degen_thresh": threshold(rng, w) if rng.random() < .6 else 50.0}
            rng.shuffle(ps)
            for q in ps:
                q = q + np.array([rng.choice([0, 0, 0, 1, -2]) for _ in range(3)])
                calls.append(["unfold", name, i, S, q.tolist(), opt])
            if rng.random() < .2:
                q = ps[0] + np.array([.13, 0, .09])
                calls.append(["unfold", name, i, S, q.tolist(), opt])
            if rng.random() < .3:
                calls.append(["rho", name, i, opt])
        ks = [x.k for x in m.k]
        for _ in range(rng.choice([1, 2, 3])):
            zone("b", len(ks), ks)
        for _ in range(rng.choice([0, 1, 1])):
            o = {}
            if rng.random() < .5:
                o["supercell"] = supercell(rng)
            if rng.random() < .5:
                o["kpred"] = [[round(rng.uniform(-.5, .5), 4) for _ in range(3)] for _ in range(rng.randint(2, 6))]
            if rng.random() < .7:
                o["breakTHRESH"] = rng.choice([.05, .2, .5, 1.0, 5.0])
            calls.append(["line", "b", o])
        if rng.random() < .4:
            calls.append(["dump", "b"])
        if rng.random() < .5:
            rng.shuffle(calls)
        if kw["calculate_traces"] and rng.random() < .5:
            a = w.args()
            base = ctx.clean(s, a)
            if base["status"] == 0 and "kplist" not in kw:
                syms = common_symmetries(base)
                if syms:
                    i = rng.choice(syms)
                    sep = [["ident", "b", None], ["sep", "b", i, {"degen_thresh": 1e-4, "groupKramers": rng.random() < .6}, "p"]]
                    try:
                        sub = ref.subspaces(m, ref.Trace(base["outputs"]["trace.txt"]).ops, [i], sep[1][3]["groupKramers"])
                    except ref.Undecided:
                        sub = {}
                    if sub:
                        keep = calls
                        calls = []
                        j = rng.randrange(len(sub))
                        # which part it is turns out when the labels are known
                        nk = min(len(x) for x in sub.values())
                        common = sorted(list(sub.values())[j])
                        if all(sorted(x) == common for x in sub.values()):
                            for _ in range(rng.choice([1, 2])):
                                zone("p/%d" % rng.randrange(len(sub)), nk, [ks[c] for c in common])
                        rng.shuffle(keep)
                        c = rng.randint(0, len(keep))
                        calls = keep[:c] + sep + calls + keep[c:] + keep[:1]
        steps += calls
        plan = []
        if rng.random() < .2:
            plan = [{"frac": rng.random(), "kind": rng.choice(["short", "eintr"]), "arg": rng.randint(1, 999)} for _ in range(rng.randint(1, 4))]
        yield {"spec": s, "steps": steps, "plan": plan}


def sets(E, thresh):
    b = [0] + [i + 1 for i in range(len(E) - 1) if E[i + 1] - E[i] > thresh] + [len(E)]
    return list(zip(b, b[1:]))


def weights(m, G, k, W, E, S, q, thresh):
    """rows (energy, weight, spin weights) per set of degenerate states"""
    inv = np.linalg.inv(np.array(S, dtype=float).T)
    d = (G + k) @ inv - q
    sel = np.abs(d - np.round(d)).max(axis=1) < 1e-4
    rows = []
    for a, b in sets(E, thresh):
        C = W[a:b]
        ng = len(G)
        if not m.dft.spinor:
            P = C[:, sel].conj() @ C[:, sel].T
            M = [C.conj() @ C.T]
        else:
            u, v = C[:, :ng], C[:, ng:]
            P = u[:, sel].conj() @ u[:, sel].T + v[:, sel].conj() @ v[:, sel].T
            uv = u.conj() @ v.T
            M = [u.conj() @ u.T + v.conj() @ v.T, uv + uv.conj().T, -1j * uv + 1j * uv.conj().T, u.conj() @ u.T - v.conj() @ v.T]
        rows.append([np.mean(E[a:b])] + [np.trace(P @ x).real for x in M] + [M])
    return rows


def judge_steps(ctx, case, w, r):
    """(violation, class, number of comparisons)"""
    if r["status"] != 0 or not isinstance(r["result"], list):
        return "the process fails (status %s): %s" % (r["status"], tail(r["stderr"])), "fails", 0
    done, parts, m, byzone = 0, None, None, {}
    for s, rec in zip(case["steps"], r["result"]):
        if s[0] == "new":
            if "exc" in rec:
                return "reading complete files fails: " + rec["exc"], "fails", done
            m = C08.model(w, s[2])
            continue
        if rec.get("args"):
            return "%s changes its argument %s" % (s[0], rec["args"]), "arguments", done
        if rec.get("globals"):
            return "%s changes %s" % (s[0], rec["globals"]), "globals", done
        if s[0] == "sep":
            # refused separations are judged by C13
            parts = None
            if "exc" not in rec:
                try:
                    parts = ref.subspace_bases(m, ref.Trace(ctx.clean(w.spec, w.args())["outputs"]["trace.txt"]).ops, [s[2]], s[3]["groupKramers"])
                except ref.Undecided:
                    pass
                if parts is not None:
                    got = rec["value"]
                    if len(got) != len(parts):
                        return "%d parts instead of %d" % (len(got), len(parts)), "parts", done
                    parts = [parts[min(parts, key=lambda k: abs(k[0] - x))] for x in got]
            continue
        if s[0] == "ident":
            continue
        if "/" in s[1] and parts is None:
            continue
        if s[0] == "line":
            if "exc" in rec:
                return "KPOINTSline fails: " + rec["exc"], "fails", done
            o = s[2]
            k = np.array(o.get("kpred") or [x.k for x in m.k])
            B = w.cryst.rec if "supercell" not in o else np.array(o["supercell"]).T @ w.cryst.rec
            d = np.linalg.norm(np.diff(k @ B, axis=0), axis=1)
            th = o.get("breakTHRESH", .1)
            if len(d) and np.abs(d - th).min() < 1e-4:
                continue
            e = np.hstack(([0], np.cumsum(np.where(d > th, 0, d))))
            if np.shape(rec["value"]) != e.shape or np.abs(rec["value"] - e).max() > 1e-6:
                return "KPOINTSline(%s): %s instead of %s" % (o, np.round(rec["value"], 5), np.round(e, 5)), "line", done
            done += 1
            continue
        if s[0] == "dump":
            if "exc" in rec:
                return "the object cannot be read: " + rec["exc"], "fails", done
            try:
                ref.check_bs(m, rec["value"], bool(case["steps"][0][2].get("calculate_traces")), False)
            except ref.Bad as e:
                return "after %d calls: %s" % (case["steps"].index(s), e), "object", done
            continue
        if s[0] not in ("unfold", "rho"):
            continue
        i = s[2]
        if "/" in s[1]:
            part = parts[int(s[1].split("/")[1])]
            ns = sorted(part)
            n = ns[i]
            x = m.k[n]
            G, W = m.states(x.i)
            W = W[m.a:m.a + len(x.raw)]
            W = np.concatenate([V.T @ W[x.borders[p]:x.borders[p + 1]] for p, V in part[n]])
            E = np.concatenate([[x.mean[p]] * V.shape[1] for p, V in part[n]])
        else:
            x = m.k[i]
            G, W = m.states(x.i)
            W, E = W[m.a:m.a + len(x.raw)], np.array(x.raw)
        th = s[-1].get("degen_thresh", 1e-4)
        if len(E) > 1 and np.abs(np.diff(E) - th).min() < .05 * th:
            continue
        where = "k-point %d of %s %s" % (i + 1, s[1], s[3:])
        if s[0] == "rho":
            if "exc" in rec:
                return "get_rho_spin fails: " + rec["exc"], "fails", done
            if "/" in s[1]:
                continue
            exp = weights(m, G, x.k, W, E, np.eye(3), x.k, th)
            st = sets(E, th)
            if [tuple(v[:2]) for v in rec["value"]] != st:
                return "%s: sets of degenerate states %s instead of %s" % (where, [v[:2] for v in rec["value"]], st), "rho", done
            for v, e in zip(rec["value"], exp):
                if abs(v[2] - e[0]) > 1e-5 or len(v[3]) != len(e[-1]) or any(np.abs(np.array(a) - b).max() > 1e-4 for a, b in zip(v[3], e[-1])):
                    return "%s: overlaps and spins of the states %s differ from those of the states in the files" % (where, v[:2]), "rho", done
            done += 1
            continue
        S, q = np.array(s[3]), np.array(s[4])
        f = q @ S.T - x.k
        if np.abs(f - np.round(f)).max() > 1e-4:
            if "exc" not in rec:
                return "%s: weights on a point that does not fold onto the k-point" % where, "fold", done
            continue
        if "exc" in rec:
            return "%s: unfold fails: %s" % (where, rec["exc"]), "fails", done
        exp = np.array([e[:-1] for e in weights(m, G, x.k, W, E, S, q, th)], dtype=float)
        got = np.array(rec["value"], dtype=float)
        if got.shape != exp.shape:
            return "%s: table of weights of shape %s instead of %s" % (where, got.shape, exp.shape), "shape", done
        if not np.all(np.isfinite(got)) or np.abs(got - exp).max() > 2e-4:
            j = int(np.argmax(np.abs(got - exp).max(axis=1)))
            return "%s: %s instead of %s" % (where, np.round(got[j], 5).tolist(), np.round(exp[j], 5).tolist()), "weights", done
        if got[:, 1].min() < -1e-5:
            return "%s: negative weight %s" % (where, got[:, 1].min()), "weights", done
        byzone.setdefault((s[1], i, str(s[3]), th), []).append((q, got[:, 1], [b - a for a, b in sets(E, th)]))
        done += 1
    for key, l in byzone.items():
        uniq = []
        for q, g, n in l:
            if not any(np.abs((q - p[0] + .5) % 1 - .5).max() < 1e-5 for p in uniq):
                uniq.append((q, g, n))
        if len(uniq) == abs(round(np.linalg.det(np.array(json.loads(key[2]))))):
            tot = sum(u[1] for u in uniq)
            if np.abs(tot - uniq[0][2]).max() > 1e-3:
                return "weights over the zone sum to %s instead of %s" % (np.round(tot, 4).tolist(), uniq[0][2]), "sum", done
    return None, None, done


def execute(ctx, case):
    spec = case["spec"]
    w = ctx.world(spec)
    job = dict(files=w.files, kind="script", fn="program", params={"steps": case["steps"]})
    plan = []
    if case["plan"]:
        base = ctx.once(["C18", spec, case["steps"][:1]], lambda: ctx.run(files=w.files, kind="script", fn="program", params={"steps": case["steps"][:1]}, events=True))
        ev = [i for i, e in enumerate(base["events"]) if e[0] == "read" and e[1] in w.files]
        plan = [{"at": ev[int(p["frac"] * len(ev))], "kind": "short", "n": p["arg"], "ops": ["read"]} if p["kind"] == "short" else
                {"at": ev[int(p["frac"] * len(ev))], "kind": "err", "err": errno.EINTR, "ops": ["read"]} for p in case["plan"] if ev]
    r = ctx.run(plan=plan, **job)
    what, cls, done = judge_steps(ctx, case, w, r)
    return Outcome(what, cls, (spec["sg"], spec["cs"], spec["ds"], spec["code"], spec["gs"], case["steps"]), done > 0, [f[3] for f in r["fired"]] + ["history of %d" % len(case["steps"])],
                   "%s SG %d, %d steps, %d comparisons" % (spec["code"], spec["sg"], len(case["steps"]), done))


def shrink(case):
    if case["plan"]:
        yield dict(case, plan=[])
    st = case["steps"]
    for i in range(len(st) - 1, 0, -1):
        if st[i][0] not in ("sep", "ident") or not any("/" in s[1] for s in st):
            yield dict(case, steps=st[:i] + st[i + 1:])
    for k in ("kplist", "IBstart", "IBend"):
        if k in st[0][2]:
            yield dict(case, steps=[["new", "b", {a: b for a, b in st[0][2].items() if a != k}]] + st[1:])
    s = case["spec"]
    for k in list(s.get("w", {})):
        yield dict(case, spec=dict(s, w={a: b for a, b in s["w"].items() if a != k}))
