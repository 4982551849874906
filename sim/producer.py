"""File producers: what VASP / Abinit / Quantum ESPRESSO / Wannier90 would leave
on disk for a simulated DFT run.  Each returns {relative path: bytes}.

`gauge` is the list of wave function arrays per k-point (rows: bands,
[up..., down...] for spinors) over dft.G[ik]; `nb` the number of bands stored.
"""
import struct
import numpy as np
from crystal import BOHR, HARTREE, TWOMHBAR2

HA = HARTREE


def poscar(c, title="simulated", cartesian=False, scale=1.0, species=True, style=0):
    """style: bits for selective dynamics, a letter for the mode, labels behind the coordinates, velocities, blanks"""
    l = [title, "%.16g" % scale]
    l += ["  ".join("%.16f" % x for x in v / scale) for v in c.lattice]
    counts = [int(np.sum(c.typ == t)) for t in sorted(set(c.typ))]
    if species:
        l.append(" ".join("X%d" % t for t in sorted(set(c.typ))))
    l.append(" ".join(str(n) for n in counts))
    if style & 1:
        l.append("Selective dynamics")
    n = len(l) + 1
    if cartesian:
        l.append("c" if style & 2 else "Cartesian")
        l += ["  ".join("%.16f" % x for x in p @ c.lattice / scale) for p in c.pos]
    else:
        l.append("direct" if style & 2 else "Direct")
        l += ["  ".join("%.16f" % x for x in p) for p in c.pos]
    if style & 1:
        l[n:] = [x + "  T  F  T" for x in l[n:]]
    if style & 4:
        l[n:] = [x + "  X%d" % t for x, t in zip(l[n:], c.typ)]
    if style & 8:
        l = [l[0]] + ["   " + x + "  " for x in l[1:]]
    if style & 16:
        l += [""] + ["  0.00000000E+00  0.10000000E+00  0.25000000E+00"] * len(c.pos)
    return ("\n".join(l) + "\n").encode()


def vasp_order(G):
    """VASP loops over the FFT box, x fastest, negative indices after positive ones."""
    key = []
    for g in G:
        key.append(tuple((0, x) if x >= 0 else (1, x) for x in g[::-1]))
    return sorted(range(len(G)), key=lambda i: key[i])


def wavecar(dft, gauge, nb, sel=None, lattice=None, rtag=45200, ispin=1, pad=b"\0"):
    """sel: order/subset of k-points of dft written to the file."""
    sel = range(len(dft.kpts)) if sel is None else sel
    lat = dft.c.lattice if lattice is None else lattice
    npol = 2 if dft.spinor else 1
    npwmax = max(len(dft.G[i]) for i in sel) * npol
    rl = max(8 * (4 + 3 * nb), 8 * npwmax, 8 * 16)
    rl = (rl + 7) // 8 * 8

    def rec(b):
        return b + pad * (rl - len(b))
    out = [rec(struct.pack("<3d", rl, ispin, rtag)),
           rec(np.array([len(sel), nb, dft.ecut] + list(lat.reshape(-1)) + [dft.efermi], dtype="<f8").tobytes())]
    for i in sel:
        n = len(dft.G[i])
        o = np.array(vasp_order(dft.G[i]))
        if dft.spinor:
            o = np.hstack((o, o + n))
        head = [n * npol] + list(dft.kpts[i])
        for ib in range(nb):
            head += [dft.levels[i][ib], 0.0, 1.0]
        out.append(rec(np.array(head, dtype="<f8").tobytes()))
        for ib in range(nb):
            out.append(rec(gauge[i][ib][o].astype("<c8").tobytes()))
    return b"".join(out)


def vasp(dft, gauge, nb=None, rs=None, **kw):
    nb = nb or dft.nb
    pk = {k: kw.pop(k) for k in ("cartesian", "scale", "species", "title", "style") if k in kw}
    return {"POSCAR": poscar(dft.c, **pk), "WAVECAR": wavecar(dft, gauge, nb, **kw)}


def frec(b):
    m = struct.pack("<i", len(b))
    return m + b + m


def i4(*x):
    return np.array(x, dtype="<i4").reshape(-1).tobytes()


def f8(*x):
    return np.array(x, dtype="<f8").reshape(-1).tobytes()


def abinit(dft, gauge, nb=None, rs=None, nbk=None, sel=None, name="sim_WFK", version="9.6.2",
           hdr_npw_delta=0, istwfk=1, usepaw=0, headform=80):
    """nbk: number of bands per written k-point (may vary)."""
    c = dft.c
    sel = list(range(len(dft.kpts)) if sel is None else sel)
    nb = nb or dft.nb
    nbk = nbk or [nb] * len(sel)
    npol = 2 if dft.spinor else 1
    ntyp = len(set(c.typ))
    nat, nk, nsym = len(c.typ), len(sel), 1
    bantot = int(sum(nbk))
    out = []
    ver = version.encode()
    ver = ver.ljust(8 if int(version.split(".")[0]) >= 9 else 6)
    out.append(frec(ver + i4(headform, 2)))
    nsh = 1
    ints = [bantot, 20200101, 0, 1, nat, 18, 18, 18, nk, 1, npol, 1, nsym, ntyp, ntyp, 1, 0, usepaw]
    rprimd = c.lattice / BOHR
    ec = dft.ecut / HA
    fl = [ec, ec, 0.0, ec, 0, 0, 0] + list(rprimd.reshape(-1)) + [0.0, 0.0, 0.0]
    out.append(frec(i4(ints) + f8(fl) + i4(0, nsh, nsh, max(nbk))))
    npws = [len(dft.G[i]) for i in sel]
    kk = np.array([dft.kpts[i] for i in sel])
    occ = np.zeros(bantot)
    out.append(frec(i4([istwfk] * nk) + i4(nbk) + i4([n + hdr_npw_delta for n in npws]) + i4([1] * ntyp) + i4([1] * nsym)
                    + i4(np.eye(3)) + i4(c.typ) + f8(kk) + f8(occ) + f8(np.zeros(3 * nsym)) + f8(np.arange(1, ntyp + 1))
                    + f8(np.ones(nk) / nk)))
    out.append(frec(f8(0.0) + f8(c.pos) + f8(-10.0) + f8(dft.efermi / HA) + f8(np.ones(ntyp))))
    out.append(frec(i4(1, 0) + f8(8.0, 0.0) + i4(0) + i4(np.eye(3)) + i4(np.eye(3)) + f8(np.zeros(3 * nsh)) + f8(np.zeros(3 * nsh))))
    for t in range(ntyp):
        out.append(frec(b"sim".ljust(132) + f8(1.0, 1.0) + i4(1, 1, 1, 1, 1) + b"m".ljust(32)))
    if usepaw:
        out.append(frec(i4(1, 1)))
        out.append(frec(i4(1, 1)))
    for n, i in enumerate(sel):
        npw = npws[n]
        o = np.arange(npw) if rs is None else rs.permutation(npw)
        out.append(frec(i4(npw, npol, nbk[n])))
        out.append(frec(i4(dft.G[i][o])))
        out.append(frec(f8(dft.levels[i][:nbk[n]] / HA) + f8(np.zeros(nbk[n]))))
        oo = np.hstack((o, o + npw)) if dft.spinor else o
        for ib in range(nbk[n]):
            out.append(frec(gauge[i][ib][oo].astype("<c16").tobytes()))
    return {name: b"".join(out)}


def espresso(dft, gauge, nb=None, rs=None, sel=None, prefix="sim", spinpol=None, upper=False, names=None):
    """spinpol: None, or (dft_dw, gauge_dw, nb_dw) - then dft is the `up` channel."""
    c = dft.c
    sel = list(range(len(dft.kpts)) if sel is None else sel)
    nb = nb or dft.nb
    npol = 2 if dft.spinor else 1
    ntyp = len(set(c.typ))
    files = {}
    d = prefix + ".save/"
    alat = np.linalg.norm(c.lattice[0]) / BOHR
    names = names or ["X%d" % t for t in range(1, ntyp + 1)]
    x = ['<?xml version="1.0" encoding="UTF-8"?>', "<espresso>", " <input>"]
    x.append('  <atomic_species ntyp="%d">' % ntyp)
    for t in range(ntyp):
        x.append('   <species name="%s"><mass>1.0</mass></species>' % names[t])
    x.append("  </atomic_species>")
    x.append('  <atomic_structure nat="%d" alat="%.15e">' % (len(c.typ), alat))
    x.append("   <atomic_positions>")
    for i, (p, t) in enumerate(zip(c.pos, c.typ)):
        x.append('    <atom name="%s" index="%d">%s</atom>' % (names[t - 1], i + 1, " ".join("%.15e" % v for v in p @ c.lattice / BOHR)))
    x.append("   </atomic_positions>")
    x.append("   <cell>")
    for i in range(3):
        x.append("    <a%d>%s</a%d>" % (i + 1, " ".join("%.15e" % v for v in c.lattice[i] / BOHR), i + 1))
    x.append("   </cell>")
    x.append("  </atomic_structure>")
    x.append("  <basis><ecutwfc>%.15e</ecutwfc></basis>" % (dft.ecut / HA))
    x += [" </input>", " <output>", "  <band_structure>"]
    x.append("   <lsda>%s</lsda>" % ("true" if spinpol else "false"))
    x.append("   <noncolin>%s</noncolin>" % ("true" if dft.spinor else "false"))
    if spinpol:
        x.append("   <nbnd_up>%d</nbnd_up>" % nb)
        x.append("   <nbnd_dw>%d</nbnd_dw>" % spinpol[2])
    else:
        x.append("   <nbnd>%d</nbnd>" % nb)
    x.append("   <fermi_energy>%.15e</fermi_energy>" % (dft.efermi / HA))
    rec_b = c.rec * BOHR
    chans = [("", dft, gauge, nb)] if not spinpol else [("up", dft, gauge, nb), ("dw",) + tuple(spinpol)]
    for n, i in enumerate(sel):
        E = np.hstack([q[1].levels[i][:q[3]] for q in chans]) / HA
        kc = dft.kpts[i] @ rec_b
        x.append("   <ks_energies>")
        x.append('    <k_point weight="1.0">%s</k_point>' % " ".join("%.15e" % v for v in kc * alat / (2 * np.pi)))
        x.append("    <npw>%d</npw>" % len(dft.G[i]))
        x.append('    <eigenvalues size="%d">' % len(E))
        for j in range(0, len(E), 5):
            x.append("     " + " ".join("%.15e" % v for v in E[j:j + 5]))
        x.append("    </eigenvalues>")
        x.append("   </ks_energies>")
        for suf, D, g, nbx in chans:
            npw = len(D.G[i])
            o = np.arange(npw) if rs is None else rs.permutation(npw)
            oo = np.hstack((o, o + npw)) if dft.spinor else o
            isp = {"": 1, "up": 1, "dw": 2}[suf]
            b = [frec(i4(n + 1) + f8(kc) + i4(isp, 0) + f8(1.0)), frec(i4(npw, npw, npol, nbx)), frec(f8(rec_b)), frec(i4(D.G[i][o]))]
            for ib in range(nbx):
                b.append(frec(g[i][ib][oo].astype("<c16").tobytes()))
            fn = "wfc%s%d" % (suf, n + 1)
            files[d + (fn.upper() if upper else fn) + ".dat"] = b"".join(b)
    x += ["  </band_structure>", " </output>", "</espresso>"]
    files[d + "data-file-schema.xml"] = ("\n".join(x) + "\n").encode()
    return files


def wannier(dft, gauge, nb=None, rs=None, sel=None, prefix="sim", mp=None, units="ang", cart=False, names=None,
            fermi=True, ik_delta=0, nb_delta=0, style=0):
    """style: bits for the separator of keywords, upper case, comments and further blocks; order of blocks"""
    c = dft.c
    sel = list(range(len(dft.kpts)) if sel is None else sel)
    nb = nb or dft.nb
    nk = len(sel)
    mp = mp or (nk, 1, 1)
    names = names or ["Xa", "Yb", "Zc", "Wd"]
    eq = {0: " = ", 1: " : ", 2: "  ", 3: "="}[style & 3]
    l = ["num_bands%s%d" % (eq, nb), "num_wann%s%d" % (eq, nb), "spinors%s%s" % (eq, "true" if dft.spinor else "false")]
    if fermi:
        l.append("fermi_energy%s%.12f" % (eq, dft.efermi))
    l.append("mp_grid = %d %d %d" % tuple(mp))
    if style & 4:
        l = l[::-1] + ["# more", "iprint%s2" % eq, "! num_bands = 3"]
    l = ["! simulated"] + l + [""]
    cell = ["begin unit_cell_cart"]
    if units == "bohr":
        cell.append("bohr")
    s = BOHR if units == "bohr" else 1.0
    cell += ["  ".join("%.14f" % x for x in v / s) for v in c.lattice]
    cell.append("end unit_cell_cart")
    blk = "atoms_cart" if cart else "atoms_frac"
    atoms = ["begin " + blk]
    for p, t in zip(c.pos, c.typ):
        q = p @ c.lattice if cart else p
        atoms.append(names[t - 1] + " " + " ".join("%.14f" % x for x in q))
    atoms.append("end " + blk)
    kpoints = ["begin kpoints"]
    for i in sel:
        kpoints.append(" ".join("%.14f" % x for x in dft.kpts[i]))
    kpoints.append("end kpoints")
    blocks = [cell, atoms, kpoints]
    if style & 8:
        blocks = [cell, kpoints, atoms] if cart or style & 16 else [kpoints, atoms, cell]
    if style & 32:
        blocks.insert(1, ["", "begin projections", "%s:s;p" % names[0], "end projections", ""])
        blocks.append(["begin kpoint_path", "G 0.0 0.0 0.0 X 0.5 0.0 0.0", "end kpoint_path"])
    for b in blocks:
        l += b
    if style & 64:
        l = [" " + x.upper() if not x.startswith(("!", "#")) else x for x in l]
    files = {prefix + ".win": ("\n".join(l) + "\n").encode()}
    e = []
    for n, i in enumerate(sel):
        for ib in range(nb):
            e.append("%5d %5d %18.12f" % (ib + 1, n + 1, dft.levels[i][ib]))
    files[prefix + ".eig"] = ("\n".join(e) + "\n").encode()
    l1 = max(np.abs(dft.G[i]).sum(axis=1).max() for i in sel)
    ng = 2 * (int(l1) + 1)
    npol = 2 if dft.spinor else 1
    for n, i in enumerate(sel):
        b = [frec(i4(ng, ng, ng, n + 1 + ik_delta, nb + nb_delta))]
        G = dft.G[i] % ng
        npw = len(dft.G[i])
        for ib in range(nb):
            for s in range(npol):
                grid = np.zeros((ng, ng, ng), dtype=complex)
                grid[G[:, 0], G[:, 1], G[:, 2]] = gauge[i][ib][s * npw:(s + 1) * npw]
                u = np.fft.ifftn(grid) * ng ** 1.5
                b.append(frec(u.reshape(-1, order="F").astype("<c16").tobytes()))
        files["UNK%05d.%s" % (n + 1, "NC" if dft.spinor else "1")] = b"".join(b)
    return files


WRITERS = {"vasp": vasp, "abinit": abinit, "espresso": espresso, "wannier90": wannier}


def args_for(code, dft, prefix="sim"):
    if code == "vasp":
        return ["-code=vasp"] + (["-spinor"] if dft.spinor else [])
    if code == "abinit":
        return ["-code=abinit", "-fWFK=sim_WFK"]
    if code == "espresso":
        return ["-code=espresso", "-prefix=" + prefix]
    return ["-code=wannier90", "-prefix=" + prefix, "-Ecut=%.12f" % dft.ecut]
