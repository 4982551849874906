"""C12: files of different generations do not mix silently."""
import copy
import re
import struct
import xml.etree.ElementTree as ET

import crystal as cr
import producer
from common import *

ID, LEVEL, TECH = "C12", "exploration", "deterministic simulation, crashes of a simulated DFT run over the files of an earlier one, independent consistency oracle"
RULE = ("A case is a seeded history of simulated DFT runs over one directory (the same crystal with another cutoff, lattice, number of bands or k-points, k-points in another "
        "order, with or without spin-orbit coupling, or another crystal): the later run is killed after writing some of its files in a seeded order, possibly in the middle of a "
        "file that it rewrites in place, or its directory updates are lost for some files, or files are put in each other's place; then irrep runs on what is there.  An oracle "
        "that parses the files by the documented formats decides whether what irrep uses is inconsistent in redundant information; then irrep must not succeed.  If everything it "
        "uses is of one run, it must report what it reports for that run alone.  Other mixtures are not judged.  Non-trivial: an inconsistent mixture, or stale files beside a "
        "consistent set.  Distinct: by (crystal, code, change between the runs, mixture, options).")
STUB = "DFT codes (simulated producers of files, killed at seeded points)"
HA, BOHR = 27.211386245988, 0.529177210903
TOL = 3e-4


def groups(rng, tier):
    return [{"code": CODES[i % 4]} for i in range(160 if tier == "quick" else 2400)]


CHANGES = ["cutoff", "relax", "bands", "order", "number", "kpoints", "spin", "crystal"]


def second(rng, spec, code):
    """the specification of a later calculation and what changed"""
    ch = rng.choice(CHANGES)
    s = dict(spec, gs=rng.randrange(10 ** 6), os=rng.randrange(10 ** 6))
    w = World(spec)
    if ch == "cutoff":
        s["dft"] = dict(spec.get("dft", {}), npw_target=rng.choice([32, 38, 43, 47, 52, 60]))
    elif ch == "relax":
        s["relax"] = [rng.choice([-1, 1]) * rng.choice([1e-3, 3e-3, 1e-2, 3e-2]), rng.choice([0, 0, 1]), rng.randrange(100)]
    elif ch == "bands":
        s["w"] = dict(spec.get("w", {}), nb=rng.choice([n for n in w.dft.nb_choices if n != w.dft.nb] or [max(1, w.dft.nb - 1)]))
    elif ch == "order":
        kp = spec["kp"][:]
        rng.shuffle(kp)
        s["kp"] = kp
    elif ch == "number":
        s["kp"] = spec["kp"][:rng.randint(1, len(spec["kp"]))]
        if rng.random() < .5:
            spec, s = s, spec
    elif ch == "kpoints":
        s["kp"] = [[round(rng.uniform(-.5, .5), 3) for _ in range(3)] for _ in spec["kp"]]
    elif ch == "spin":
        s["spin"] = not spec["spin"]
        s["kp"] = [w.dft.kpts[i].tolist() for i in range(len(spec["kp"]))]
    elif ch == "crystal":
        o = cli_spec(rng, code, nk=len(spec["kp"]))
        for k in ("sg", "cs", "spin", "kp", "ds"):
            s[k] = o[k]
    return spec, s, ch


_files = {}


def generation(ctx, spec):
    """the files of one complete calculation, in the order in which they are written"""
    key = digest_key(spec)
    if key in _files:
        return _files[key]
    relax = spec.get("relax")
    base = {k: v for k, v in spec.items() if k != "relax"}
    w = ctx.world(base)
    f = w.files
    if relax:
        c, d = copy.copy(w.cryst), copy.copy(w.dft)
        eps = np.eye(3) * relax[0]
        if relax[1]:
            a = np.random.RandomState(relax[2]).uniform(-1, 1, (3, 3)) * relax[0]
            eps = (a + a.T) / 2
        c.lattice = w.cryst.lattice @ (np.eye(3) + eps)
        c.rec = 2 * np.pi * np.linalg.inv(c.lattice).T
        d.c = c
        # the cutoff is the same, and so may be the number of waves inside
        f = producer.WRITERS[spec["code"]](d, w.gauge, rs=np.random.RandomState(spec["os"]), **World.writer_args(spec))
    if len(_files) > 40:
        _files.clear()
    _files[key] = dict(f)
    return _files[key]


def digest_key(spec):
    return json.dumps(spec, sort_keys=True)


def cases(ctx, g, rng, tier):
    code = g["code"]
    for _ in range(20):
        spec = vary(rng, cli_spec(rng, code, nk=rng.choice([1, 2, 3, 4])))
        spec.pop("rename", None)
        w = {k: v for k, v in spec.get("w", {}).items() if k != "prefix"}
        if "upper" in w and rng.random() < .8:
            w["upper"] = False
        spec["w"] = w
        try:
            a, b, ch = second(rng, spec, code)
            A, B = generation(ctx, a), generation(ctx, b)
            wa, wb = ctx.world({k: v for k, v in a.items() if k != "relax"}), ctx.world({k: v for k, v in b.items() if k != "relax"})
            break
        except cr.Retry:
            continue
    else:
        return
    names = sorted(set(A) | set(B))
    for _ in range(20 if tier == "quick" else 60):
        args = rng.choice([wa, wb]).args()
        nk = rng.choice([len(wa.dft.kpts), len(wb.dft.kpts)])
        if rng.random() < .25:
            args.append("-kpoints=" + ",".join(str(i + 1) for i in sorted(rng.sample(range(nk), rng.randint(1, nk)))))
        if rng.random() < .2:
            args.append("-EF=%.3f" % rng.uniform(-2, 5))
        first, then = rng.choice([("A", "B"), ("B", "A")])
        have = {"A": A, "B": B}
        mix = {f: [first] for f in have[first]}
        new = [f for f in names if f in have[then]]
        how = rng.random()
        if how < .45:              # killed between files, or in the middle of one
            order = new[:]
            rng.shuffle(order)
            n = rng.randint(0, len(order))
            for f in order[:n]:
                mix[f] = [then]
            if n < len(order) and rng.random() < .7 or len(names) == 1:
                f = order[min(n, len(order) - 1)]
                if f in have[first] and not f.endswith((".win", ".xml")):
                    mix[f] = ["inplace", then, first, rng.random(), rng.random() < .7]
        elif how < .7:             # one file is left behind, or comes in
            for f in new:
                mix[f] = [then]
            f = rng.choice([x for x in names if x in have[first]])
            mix[f] = [first]
            if rng.random() < .4 and not f.endswith((".win", ".xml")) and f in new:
                mix[f] = ["inplace", then, first, rng.random(), rng.random() < .7]
        elif how < .9 or len(names) < 3:
            for f in new:
                if rng.random() < .5:
                    mix[f] = [then]
        else:                      # a file in the place of another
            fam = [f for f in names if re.search(r"\d", f.split("/")[-1]) and "xml" not in f]
            if len(fam) < 2:
                continue
            x, y = rng.sample(fam, 2)
            gen = rng.choice([g for g in "AB" if y in have[g]])
            mix[x] = ["as", gen, y]
        yield {"a": a, "b": b, "change": ch, "mix": mix, "args": args}


def bounds(b, code):
    """offsets between records"""
    if code == "vasp":
        n = int(struct.unpack("<d", b[:8])[0])
        return list(range(0, len(b), n))
    if code == "eig":
        return [i + 1 for i, x in enumerate(b) if x == 10]
    out, i = [0], 0
    while i + 4 <= len(b):
        i += 8 + struct.unpack("<i", b[i:i + 4])[0]
        out.append(i)
    return out


def build(ctx, case):
    G = {"A": generation(ctx, case["a"]), "B": generation(ctx, case["b"])}
    out = {}
    for f, m in case["mix"].items():
        if m[0] in G:
            out[f] = G[m[0]][f]
        elif m[0] == "as":
            out[f] = G[m[1]][m[2]]
        else:
            new, old = G[m[1]][f], G[m[2]][f]
            n = int(len(new) * m[3])
            if m[4]:
                code = case["a"]["code"]
                bs = bounds(new, "eig" if f.endswith(".eig") else "vasp" if f == "WAVECAR" else code if f != "POSCAR" else "eig")
                bs = [x for x in bs if x <= len(new)] or [0]
                n = bs[min(int(len(bs) * m[3]), len(bs) - 1)]
            out[f] = new[:n] + old[n:]
    return G, out


class Inconsistent(Exception):
    pass


class Unsure(Exception):
    pass


def need(ok, what):
    if not ok:
        raise Inconsistent(what)


def same_lattice(a, b, what):
    d = np.abs(a - b).max() / np.abs(a).max()
    if d > TOL:
        raise Inconsistent(what)
    if d > 1e-9:
        raise Unsure("lattices nearly agree")


def count_waves(lat, k, ecut):
    rec = 2 * np.pi * np.linalg.inv(lat).T
    n = [int(np.sqrt(ecut * cr.TWOMHBAR2) / (2 * np.pi) * np.linalg.norm(v)) + 2 + int(abs(x).max() + 1) for v, x in zip(lat, np.array(k)[:, None])]
    if np.prod(n) > 3e5:
        raise Unsure("too large")
    box = np.array(np.meshgrid(*[np.arange(-m, m + 1) for m in n], indexing="ij")).reshape(3, -1).T
    E = np.sum(((box + k) @ rec) ** 2, axis=1) / cr.TWOMHBAR2
    if np.abs(E - ecut).min() < 5e-4:
        raise Unsure("a wave on the cutoff")
    return int(np.sum(E < ecut))


def records(b):
    """(payload, complete) of the records of a Fortran file; None where the two marks differ"""
    out, i = [], 0
    while i + 4 <= len(b):
        n = struct.unpack("<i", b[i:i + 4])[0]
        if n < 0 or i + 8 + n > len(b):
            out.append(None)
            break
        out.append(b[i + 4:i + 4 + n] if b[i + 4 + n:i + 8 + n] == b[i:i + 4] else None)
        i += 8 + n
    return out


def rec(rs, i, n=None):
    need(i < len(rs) and rs[i] is not None, "record %d is missing or its two lengths differ" % i)
    if n is not None:
        need(len(rs[i]) == n, "length of record %d" % i)
    return rs[i]


def chosen(args, nk):
    for a in args:
        if a.startswith("-kpoints="):
            l = [int(x) - 1 for x in a.split("=")[1].split(",")]
            return [x for x in l if x < nk]      # others are left out
    return list(range(nk))


def poscar(b):
    l = b.decode().split("\n")
    s = float(l[1])
    if s < 0:
        raise Unsure("volume")
    lat = s * np.array([x.split()[:3] for x in l[2:5]], dtype=float)
    return lat


def check_vasp(files, args):
    try:
        lat = poscar(files["POSCAR"])
    except (ValueError, IndexError, UnicodeDecodeError):
        raise Unsure("POSCAR")
    b = files["WAVECAR"]
    rl = int(np.frombuffer(b[:8], "<f8")[0])
    h = np.frombuffer(b[rl:rl + 104], "<f8")
    need(len(h) == 13 and np.isfinite(h).all(), "header of WAVECAR")
    nk, nb, ec = int(h[0]), int(h[1]), h[2]
    same_lattice(lat, h[3:12].reshape(3, 3), "lattice of WAVECAR and POSCAR")
    npol = 2 if "-spinor" in args else 1
    for ik in chosen(args, nk):
        r = np.frombuffer(b[rl * (2 + ik * (nb + 1)):][:rl], "<f8")
        need(len(r) * 8 == rl, "records of WAVECAR")
        n, k = r[0], r[1:4]
        need(np.isfinite(r[:4]).all() and n == int(n) and 0 < n < 1e5 and np.abs(k).max() < 10, "number of waves in WAVECAR")
        need(n == npol * count_waves(lat, k, ec), "number of waves in WAVECAR")
        # the spare part of a record is not information
        if npol * n * 8 > rl and n * 8 > rl:
            raise Inconsistent("record length of WAVECAR")
    return {"POSCAR", "WAVECAR"}


def check_abinit(files, args):
    rs = records(files["sim_WFK"])
    r = rec(rs, 1)
    ints = np.frombuffer(r[:72], "<i4")
    bantot, nat, nk, npol, nsym, npsp, ntyp, paw = ints[0], ints[4], ints[8], ints[10], ints[12], ints[13], ints[14], ints[17]
    r = rec(rs, 2, 4 * (2 * nk + nk + npsp + nsym + 9 * nsym + nat) + 8 * (3 * nk + bantot + 3 * nsym + ntyp + nk))
    a = np.frombuffer(r[:12 * nk], "<i4")
    nband, npw = a[nk:2 * nk], a[2 * nk:3 * nk]
    need(nband.sum() == bantot, "number of bands in the header")
    rec(rs, 3, 8 * (1 + 3 * nat + 2 + ntyp))
    rec(rs, 4, 4 * 2 + 16 + 4 + 72 + 48)
    for i in range(npsp):
        rec(rs, 5 + i, 132 + 16 + 20 + 32)
    p = 5 + npsp + (2 if paw == 1 else 0)
    for ik in range(nk):
        if ik in chosen(args, nk):
            b = np.frombuffer(rec(rs, p, 12), "<i4")
            need(tuple(b) == (npw[ik], npol, nband[ik]), "numbers of waves, spinor components and bands at k-point %d" % ik)
            rec(rs, p + 1, 12 * npw[ik])
            rec(rs, p + 2, 16 * nband[ik])
            for n in range(nband[ik]):
                rec(rs, p + 3 + n, 16 * npw[ik] * npol)
        p += 3 + nband[ik]
    return {"sim_WFK"}


def check_espresso(files, args):
    try:
        x = ET.fromstring(files["sim.save/data-file-schema.xml"])
    except ET.ParseError:
        raise Unsure("xml")
    bs = x.find("output").find("band_structure")
    npol = 2 if bs.find("noncolin").text.strip() == "true" else 1
    nb = int(bs.find("nbnd").text)
    ks = bs.findall("ks_energies")
    cell = x.find("input").find("atomic_structure").find("cell")
    lat = np.array([cell.find("a%d" % i).text.split() for i in (1, 2, 3)], dtype=float)
    used = {"sim.save/data-file-schema.xml"}
    for ik in chosen(args, len(ks)):
        f = "sim.save/wfc%d.dat" % (ik + 1)
        if f not in files:
            f = "sim.save/WFC%d.dat" % (ik + 1)
        need(f in files, "wave functions of k-point %d" % ik)
        used.add(f)
        rs = records(files[f])
        need(struct.unpack("<i", rec(rs, 0, 4 + 24 + 8 + 8)[:4])[0] == ik + 1, "index of the k-point in %s" % f)
        npw = int(ks[ik].find("npw").text)
        h = np.frombuffer(rec(rs, 1, 16), "<i4")
        need(tuple(h[1:]) == (npw, npol, nb), "numbers of waves, spinor components and bands in %s" % f)
        B = np.frombuffer(rec(rs, 2, 72), "<f8").reshape(3, 3)
        same_lattice(2 * np.pi * np.linalg.inv(B).T, lat, "lattice of %s and the xml file" % f)
        rec(rs, 3, 12 * npw)
        for i in range(nb):
            rec(rs, 4 + i, 16 * npw * npol)
        need(int(ks[ik].find("eigenvalues").attrib["size"]) == nb, "energies")
    return used


def check_wannier(files, args):
    win = files["sim.win"].decode().lower()

    def val(k):
        return re.search(r"^[ \t]*%s(?:[ \t]*[=:][ \t]*|[ \t]+)(.*)$" % k, win, re.M).group(1)
    nb, sp = int(val("num_bands")), val("spinors").strip() == "true"
    nk = int(np.prod([int(x) for x in val("mp_grid").split()]))
    e = files["sim.eig"].decode().strip().split("\n")
    try:
        e = [[float(y) for y in x.split()] for x in e]
    except ValueError:
        raise Inconsistent(".eig is garbled")
    need(all(len(x) == 3 for x in e) and [x[:2] for x in e] == [[b + 1, k + 1] for k in range(nk) for b in range(nb)], "bands and k-points in .eig")
    used = {"sim.win", "sim.eig"}
    for ik in chosen(args, nk):
        f = "UNK%05d.%s" % (ik + 1, "NC" if sp else "1")
        need(f in files, "wave functions of k-point %d" % ik)
        used.add(f)
        rs = records(files[f])
        h = np.frombuffer(rec(rs, 0, 20), "<i4")
        need(tuple(h[3:]) == (ik + 1, nb), "index of k-point and number of bands in %s" % f)
        for i in range(nb * (2 if sp else 1)):
            rec(rs, 1 + i, 16 * int(np.prod(h[:3].astype(int))))
    return used


CHECK = {"vasp": check_vasp, "abinit": check_abinit, "espresso": check_espresso, "wannier90": check_wannier}


def execute(ctx, case):
    code, args = case["a"]["code"], case["args"]
    G, files = build(ctx, case)
    why = used = None
    try:
        used = CHECK[code](files, args)
    except Inconsistent as e:
        why = str(e)
    except Unsure:
        return Outcome(live=False)
    r = ctx.run(files=files, args=args)
    sig = (digest_key(case["a"]), case["change"], sorted(map(str, case["mix"].items())), args)
    kinds = sorted(set(m[0] if m[0] not in "AB" else "whole files" for m in case["mix"].values()))
    names = ["later run: " + case["change"]] + [{"inplace": "killed while rewriting a file in place", "as": "a file in the place of another", "whole files": "killed between files"}[k] for k in kinds]
    what = cls = None
    live = False
    if r["status"] == "hang":
        what, cls = "the run hangs", "hang"
    elif why:
        live = True
        names.append("mixture refused")
        if r["status"] == 0:
            what, cls = "the run succeeds on files that contradict each other (%s): %s" % (why, {f: m for f, m in case["mix"].items()}), "accepted"
    else:
        # everything used is of one run?
        for g, F in G.items():
            if all(F.get(f) == files[f] for f in used):
                base = ctx.once(["gen", g, case["a"], case["b"], args], lambda: ctx.run(files=F, args=args))
                live = any(files.get(f) != F.get(f) for f in set(F) | set(files))
                if base["status"] == 0 and r["status"] != 0:
                    what, cls = "stale files that are not used make the run fail: %s" % tail(r["stderr"]), "stale"
                elif base["status"] == 0:
                    d = same_outputs(base, r)
                    if d:
                        what, cls = "stale files that are not used change the results: %s" % d, "stale"
                elif r["status"] == 0:
                    what, cls = "the run succeeds only with stale files around", "stale"
                names.append("stale files beside a complete set")
                break
    return Outcome(what, cls, sig, live, names, why or "consistent")


def shrink(case):
    mix = case["mix"]
    g = {m[0] for m in mix.values() if m[0] in "AB"}
    for f, m in mix.items():
        for x in sorted(g):
            if m[0] != x and m[0] not in "AB":
                yield dict(case, mix=dict(mix, **{f: [x]}))
        if m[0] == "inplace" and not m[4]:
            yield dict(case, mix=dict(mix, **{f: m[:4] + [True]}))
    for i, a in enumerate(case["args"]):
        if a.startswith("-EF"):
            yield dict(case, args=case["args"][:i] + case["args"][i + 1:])
