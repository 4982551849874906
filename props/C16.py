"""C16: the space group, its operations and the cell of the tables are those of the crystal."""
import errno
import types
from common import *
import crystal as cr
import reference as ref

ID, LEVEL, TECH = "C16", "exploration", "deterministic simulation of many structures per process, seeded histories, threads and read faults, reference model"
RULE = ("A case is a seeded sequence of structures, as different runs of a DFT code deliver them (any space group; any primitive cell, origin and orientation, order of atoms, "
        "rounding of coordinates), identified one after the other in one simulated process, or in two threads interleaved at source lines by a seeded scheduler, with the search "
        "for the cell of the tables, with the right cell given, a wrong one, half of one or none, with and without spinors; irreps are asked for at seeded k-points, right "
        "and wrong ones; in some cases a read of the tables fails, is interrupted or short.  Space group, operations, order, cell, origin, signs, characters of irreps and all reports "
        "are compared with the crystal the structure was built from and the pinned tables.  Non-trivial: at least one structure was identified.  Distinct: by the sequence.")
STUB = "DFT codes (structures), thread scheduler, kernel faults below the LD_PRELOAD seam"


def groups(rng, tier):
    return [{"n": i} for i in range(200 if tier == "quick" else 3000)]


def structure(rng, like=None):
    import framework
    sg, cs, _ = framework.pick_crystal(rng, None, None if rng.random() < .3 else 16) if like is None else framework.pick_crystal(rng, None, None, sgs=[like])
    mv = rng.randrange(10 ** 6) if rng.random() < .75 else None
    return {"sg": sg, "cs": cs, "mv": mv, "order": rng.randrange(10 ** 6) if rng.random() < .5 else None, "digits": rng.choice([16, 16, 12, 10, 9, 8]), "spinor": rng.random() < .3,
            "wrap": rng.random() < .3}


def build(st):
    """(crystal, lattice, positions, types) as delivered"""
    c = World.crystal(st["sg"], st["cs"], st["mv"])
    pos, typ = c.pos.copy(), np.array(c.typ)
    r = random.Random(str(st["order"]))
    if st["order"] is not None:
        o = list(range(len(pos)))
        r.shuffle(o)
        pos, typ = pos[o], typ[o]
        names = list(set(typ.tolist()))
        new = r.sample(range(1, 90), len(names))
        typ = np.array([new[names.index(t)] for t in typ])
    if st["wrap"]:
        pos = pos + np.array([[r.choice([0, 0, 1, -1]) for _ in range(3)] for _ in pos])
    return c, np.round(c.lattice, st["digits"]), np.round(pos, st["digits"]), typ


def options(rng, c):
    A, s = np.linalg.inv(c.P), c.shift
    x = rng.random()
    o = {"search_cell": rng.random() < .8} if x < .55 else {}
    if x >= .55:
        o["search_cell"] = rng.random() < .5
        if rng.random() < .8:
            B = A if rng.random() < .7 else A @ np.array(rng.choice([[[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[1, 1, 0], [0, 1, 0], [0, 0, 1]], [[-1, 0, 0], [0, -1, 0], [0, 0, -1]]]))
            o["refUC"] = B.T.tolist()
        if rng.random() < .8:
            d = np.zeros(3) if rng.random() < .6 else np.array([rng.choice([0, .25, .5, 1, -1]) for _ in range(3)])
            o["shiftUC"] = (s + d).tolist()
    if rng.random() < .2:
        o["v"] = rng.choice([0, 1, 2])
    if rng.random() < .1:
        o["alat"] = 3.5
    return o


def sg_step(rng, name, report=True, like=None):
    st = structure(rng, like)
    c, lat, pos, typ = build(st)
    ks = []
    for _ in range(rng.choice([0, 1, 2])):
        n = rng.choice(sorted(c.scal.kpts))
        k = c.k_of(n) + np.array([rng.choice([0, 0, 1, -2]) for _ in range(3)])
        if rng.random() < .2:
            n = rng.choice(sorted(c.scal.kpts) + ["QQ", n.lower()])
        ks.append([n, k.tolist()])
    p = {"lattice": lat.tolist(), "positions": pos.tolist(), "types": typ.tolist(), "array": rng.random() < .5, "spinor": st["spinor"], "options": options(rng, c)}
    if report and rng.random() < .5:
        p["report"] = sorted(rng.sample(range(1, len(c.ops) + 1), rng.randint(1, min(6, len(c.ops)))))
    return st, ["sg", name, p, ks]


def cases(ctx, g, rng, tier):
    for _ in range(2 if tier == "quick" else 5):
        n = rng.choice([4, 8, 12])
        x = rng.random()
        threads = x < .25
        st, steps = [], []
        for i in range(2 if threads else n):
            a, b = sg_step(rng, "s%d" % i, report=not threads, like=rng.choice(st)["sg"] if st and rng.random() < .35 else None)
            while threads and len(World.crystal(a["sg"], a["cs"], a["mv"]).ops) > 12:
                a, b = sg_step(rng, "s%d" % i, report=not threads)
            st.append(a)
            steps.append(b)
        if not threads and rng.random() < .5:
            # the same again, later
            i = rng.randrange(len(st))
            st.append(st[i])
            steps.append(steps[i])
        plan = []
        if not threads and rng.random() < .25:
            plan = [{"at": rng.randrange(10 ** 9), "kind": rng.choice(["short", "eintr", "err"])} for _ in range(rng.choice([1, 2]))]
        yield {"st": st, "steps": steps, "plan": plan, "threads": [rng.randrange(10 ** 6), rng.choice([.002, .01, .05])] if threads else None}


class Light(ref.Model):
    """the reference for a structure without states"""

    def __init__(self, c, table, spinor):
        self.c, self.w, self.dft = c, types.SimpleNamespace(table=table, cryst=c), types.SimpleNamespace(spinor=spinor)


def ordered(c, tab, A):
    """the crystal with its operations in the order of this table, seen from the cell A"""
    c = __import__("copy").copy(c)
    idx = {R.tobytes(): i for i, (R, t) in enumerate(c.ops)}
    c.ops = [c.ops[idx[np.round(A @ R @ np.linalg.inv(A)).astype(int).tobytes()]] for R in tab.R]
    return c


def maps(c, tab, A, s, tol):
    """does the cell (columns A) with origin s take all operations to those of the tables?"""
    Ai = np.linalg.inv(A)
    for R, t in c.ops:
        R1 = Ai @ R @ A
        i = [i for i, r in enumerate(tab.R) if np.abs(R1 - r).max() < 1e-4]
        if not i:
            return False
        d = A @ (Ai @ (t - s + R @ s) - tab.t[i[0]])
        if np.abs(d - np.round(d)).max() > tol:
            return False
    return True


def found(c, lat, pos, typ, tab, tol):
    """does spglib deliver the cell of the tables, and is the origin one that must be found?"""
    import spglib
    d = spglib.get_symmetry_dataset((lat, pos, typ))
    if d.number != c.sg:
        return False
    if np.allclose(d.transformation_matrix, c.P, atol=1e-5):
        return True
    A = np.linalg.inv(d.transformation_matrix)
    if maps(c, tab, A, -A @ d.origin_shift, tol / 10):
        return True
    inv = [t for R, t in c.ops if np.array_equal(np.round(R), -np.eye(3))]
    return bool(inv) and any(maps(c, tab, A, (inv[0] + np.array(h)) / 2, tol / 10) for h in np.ndindex(2, 2, 2))


def check_step(st, step, rec):
    """violation or None; a step that fails although it must not: 'fails'"""
    c, lat, pos, typ = build(st)
    tab = cr.Table(st["sg"], st["spinor"])
    p = step[2]
    o = p["options"]
    tol = 3e-5 + 10 * 10. ** -st["digits"]
    given = "refUC" in o or "shiftUC" in o
    A = np.array(o["refUC"]).T if "refUC" in o else np.eye(3)
    s = np.array(o["shiftUC"]) if "shiftUC" in o else np.zeros(3)
    srch = bool(o.get("search_cell"))
    who = "SG %d %s:" % (st["sg"], json.dumps({k: v for k, v in dict(o, mv=st["mv"]).items()}))
    ok = found(c, lat, pos, typ, tab, tol)
    if "exc" in rec:
        if given and srch and not maps(c, tab, A, s, tol):
            return None
        if srch and not given and not ok:
            return None
        return "%s fails: %s" % (who, rec["exc"])
    if rec.get("args"):
        return "%s changes its argument %s" % (who, rec["args"])
    if rec.get("globals"):
        return "%s changes %s" % (who, rec["globals"])
    d = rec["value"]
    m = Light(c, tab, st["spinor"])
    try:
        need, near = ref.need, ref.near
        need(int(d["number"]) == c.sg, "space group", d["number"], "instead of", c.sg)
        need(int(d["order"]) == len(c.ops) == len(d["ops"]), "%d operations instead of %d" % (d["order"], len(c.ops)))
        need(bool(d["spinor"]) == st["spinor"], "spinor is", d["spinor"])
        near(d["Lattice"], lat, 1e-12, "Lattice")
        near(d["positions"], pos, 1e-12, "positions")
        need(list(map(int, d["typat"])) == list(map(int, typ)), "types of atoms")
        A1, s1 = np.asarray(d["refUC"], dtype=float), np.asarray(d["shiftUC"], dtype=float)
        if given or not srch:
            near(A1, A, 1e-12, "cell of the tables")
            near(s1, s, 1e-12, "origin of the tables")
        matched = maps(c, tab, A1, s1, tol)
        if srch and not matched:
            need(False, "the cell and origin", np.round(A1, 4).tolist(), np.round(s1, 4).tolist(), "are not those of the tables")
        if matched:
            m.c = ordered(c, tab, A1)
        if matched and not srch and not maps(c, tab, A1, s1, 1e-7):
            return None
        ops = [(q[0], np.asarray(q[1]), np.asarray(q[2]), np.asarray(q[3]) if st["spinor"] else None) for q in d["ops"]]
        need([q[0] for q in ops] == list(range(1, len(ops) + 1)) or not matched, "operations are not listed in the order of their numbers")
        need(len({q[0] for q in ops}) == len(ops), "a number is given to two operations")
        m.check_ops(ops, matched)
        sign = [int(q[4]) for q in d["ops"]]
        need(all(q in (1, -1) for q in sign), "signs", sign)
        if not st["spinor"]:
            need(all(q == 1 for q in sign), "signs", sign)
        elif matched and st["spinor"]:
            f = [int(np.sign(np.trace(q[3] @ np.linalg.inv(m.spin_of(q[1]))).real)) * e for q, e in zip(ops, sign)]
            need(any(np.array_equal(f, v) for v in m.sign_vectors()[1]), "spinor rotations with their signs do not multiply like those of the tables")
        for (name, k), got in zip(step[3], d["irreps"]):
            k = np.array(k)
            irr = [z for z in tab.irreps if z[0] == name]
            dk = np.linalg.inv(A1).T @ irr[0][1] - k if irr else None
            if not irr or np.abs(dk - np.round(dk)).max() > 1e-3:
                need(isinstance(got, str), "irreps for", name, "at a k-point that is not this one,", np.round(k, 4))
                continue
            if not matched:
                continue
            need(not isinstance(got, str), "no irreps at", name, ":", got)
            need(set(got) == {z[2] for z in irr}, "irreps", sorted(got), "instead of", [z[2] for z in irr])
            for z in irr:
                ch = got[z[2]]
                need({int(q) for q in ch} == set(z[4]), "operations of irrep", z[2], sorted(ch), "instead of", sorted(z[4]))
                for q, e in zip(ops, sign):
                    if q[0] not in z[4]:
                        continue
                    t1 = np.linalg.inv(A1) @ (q[2] - s1 + q[1] @ s1)
                    x = z[4][q[0]] * np.exp(2j * np.pi * (tab.t[q[0] - 1] - t1) @ z[1]) * e
                    near(ch[q[0]], x, 1e-3, "character of irrep", z[2], "operation", q[0])
        if "json" in d and (matched or not given):
            J = d["json"]
            ref.check_sg({**J, "symmetries": {str(k): v for k, v in J["symmetries"].items()}}, ops, m, matched, p["report"], (A1, s1))
            ref.check_template(d["str"].encode(), m, ops, matched)
            ref.check_cells(rec.get("text", "").encode(), Rounded(m, lat, pos, typ), (A1, s1), None)
            t = ref.Trace(("1\n%d\n" % st["spinor"] + d["trace"] + "0\n").encode())
            need(len(t.ops) == len(ops), "trace: %d operations" % len(t.ops))
            for a, b in zip(t.ops, ops):
                near(a[1], b[1], 0, "trace: rotation", b[0])
                near(a[2], b[2], 1e-5, "trace: translation", b[0])
    except ref.Bad as e:
        return "%s %s" % (who, e)
    except (KeyError, IndexError, ValueError, TypeError) as e:
        return "%s the report is malformed: %s: %s" % (who, type(e).__name__, e)


class Rounded:
    def __init__(self, m, lat, pos, typ):
        self.c = types.SimpleNamespace(sg=m.c.sg, ops=m.c.ops, lattice=lat, pos=pos, typ=typ)


def execute(ctx, case):
    steps = case["steps"]
    if case["threads"]:
        job = dict(kind="script", fn="threads", params={"programs": [[s] for s in steps], "seed": case["threads"][0], "density": case["threads"][1]})
    else:
        job = dict(kind="script", fn="series", params={"steps": steps})
    plan = []
    if case["plan"]:
        base = ctx.once(["C16", steps], lambda: ctx.run(files={}, events=True, **job))
        ev = [i for i, e in enumerate(base["events"]) if e[0] in ("read", "open") and e[1].endswith(".dat")]
        for q in case["plan"]:
            c = [i for i in ev if q["kind"] == "err" or base["events"][i][0] == "read"]
            if c:
                i = c[q["at"] % len(c)]
                plan.append({"short": {"at": i, "kind": "short", "n": 1 + q["at"] % 4000, "ops": ["read"]}, "eintr": {"at": i, "kind": "err", "err": errno.EINTR, "ops": ["read"]},
                             "err": {"at": i, "kind": "err", "err": errno.EIO, "ops": ["read", "open"]}}[q["kind"]])
    r = ctx.run(files={}, plan=plan, **job)
    sig = (case["st"], steps, plan)
    res = r["result"]
    what = cls = None
    n = 0
    if r["status"] != 0 or res is None:
        return Outcome("the process fails (status %s): %s" % (r["status"], tail(r["stderr"])), "fails", sig=sig)
    if case["threads"]:
        if res["globals"]:
            return Outcome("threads change %s" % res["globals"], "globals", sig=sig)
        res = [o[0] for o in res["outs"]]
    hard = len([f for f in r["fired"] if not (f[1] == "read" and (f[3] == "short" or f[4] == errno.EINTR))])
    for st, s, rec in zip(case["st"], steps, res):
        w = check_step(st, s, rec)
        if w and "exc" in rec and hard:
            hard -= 1
            continue
        n += "exc" not in rec
        if w and not what:
            what, cls = w, "fails" if "exc" in rec else "wrong"
    return Outcome(what, cls, sig, n > 0, ["read %s" % f[3] for f in r["fired"]] + (["interleaving"] if case["threads"] else ["history of %d" % len(steps)]), "%d structures, %d identified" % (len(steps), n))


def shrink(case):
    if case["plan"]:
        yield dict(case, plan=[])
    if case["threads"]:
        return
    for i in range(len(case["steps"])):
        if len(case["steps"]) > 1:
            yield dict(case, st=case["st"][:i] + case["st"][i + 1:], steps=case["steps"][:i] + case["steps"][i + 1:])
    for i, s in enumerate(case["steps"]):
        p = s[2]
        if s[3]:
            yield dict(case, steps=case["steps"][:i] + [[s[0], s[1], p, []]] + case["steps"][i + 1:])
        if "report" in p:
            yield dict(case, steps=case["steps"][:i] + [[s[0], s[1], {k: v for k, v in p.items() if k != "report"}, s[3]]] + case["steps"][i + 1:])
