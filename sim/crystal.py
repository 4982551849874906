"""The simulated world: crystals and a small but complete plane-wave DFT code.

Everything here is independent of the code under test: it reads the irrep
tables with its own parser, builds its own crystals, solves its own Schroedinger
equation and computes its own symmetry traces (the reference model).
"""
import copy
import os
import re
import numpy as np

BOHR = 0.52917721
HARTREE = 27.211386          # irrep: 2 * 13.605693
TWOMHBAR2 = 0.262465831      # 2m/hbar^2 in 1/(eV A^2), VASP value
TABLES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tables")   # pinned copy, the reference
SIGMA = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]])

# primitive vectors (columns) in the basis of the conventional cell
CENT = {
    "P": np.eye(3),
    "C": np.array([[.5, .5, 0], [-.5, .5, 0], [0, 0, 1]]),
    "A": np.array([[1, 0, 0], [0, .5, .5], [0, -.5, .5]]),
    "I": np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]),
    "F": np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]),
    "R": np.array([[2, -1, -1], [1, 1, -2], [1, 1, 1]]) / 3.0,
}
CENTVEC = {
    "P": [[0, 0, 0]],
    "C": [[0, 0, 0], [.5, .5, 0]],
    "A": [[0, 0, 0], [0, .5, .5]],
    "I": [[0, 0, 0], [.5, .5, .5]],
    "F": [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]],
    "R": [[0, 0, 0], [2 / 3, 1 / 3, 1 / 3], [1 / 3, 2 / 3, 2 / 3]],
}


def exact(x):
    """the tables give thirds with few digits"""
    y = np.round(np.asarray(x, dtype=float) * 24) / 24
    return np.where(np.abs(y - x) < 2e-5, y, x)


class Table:
    """Independent parser of one irrep table file."""

    def __init__(self, sg, spinor, path=None):
        path = path or os.path.join(TABLES, "irreps-SG=%d-%s.dat" % (sg, "spin" if spinor else "scal"))
        self.R, self.t, self.S = [], [], []
        self.irreps = []          # (kpname, k, irrep name, dim, {isym: char})
        self.kpts = {}
        state, kp = "head", None
        for raw in open(path):
            l = raw.strip()
            if not l:
                continue
            if state == "head":
                m = re.match(r"(\w+)\s*=\s*(.*)$", l)
                key, val = m.group(1).lower(), m.group(2)
                if key == "name":
                    self.name = val.strip()
                elif key == "nsym":
                    self.nsym = int(val)
                elif key == "symmetries":
                    state = "sym"
            elif state == "sym":
                x = [float(y) for y in l.split()]
                self.R.append(np.array(x[:9]).reshape(3, 3).round().astype(int))
                self.t.append(exact(x[9:12]))
                if len(x) > 12:
                    self.S.append((np.array(x[12:16]) * np.exp(1j * np.pi * np.array(x[16:20]))).reshape(2, 2))
                else:
                    self.S.append(np.eye(2))
                if len(self.R) == self.nsym:
                    state = "irr"
            elif l.startswith("kpoint"):
                _, nm, k, isym = re.match(r"(kpoint)\s+(\S+)\s*:\s*(.*?)\s*:\s*(.*)$", l).groups()
                kp = (nm, exact([float(y) for y in k.split()]), [int(y) for y in isym.split()])
                self.kpts[nm] = kp
            else:
                f = l.split()
                n = len(kp[2])
                ch = np.array([float(y) for y in f[2:2 + n]], dtype=complex)
                if len(f) > 2 + n:
                    ch = ch * np.exp(1j * np.pi * np.array([float(y) for y in f[2 + n:2 + 2 * n]]))
                self.irreps.append((kp[0], kp[1], f[0], int(f[1]), dict(zip(kp[2], ch))))


def centring(sg):
    import spglib
    for hall in range(1, 531):
        t = spglib.get_spacegroup_type(hall)
        if t.number == sg:
            return t.international_short[0]
    raise ValueError(sg)


def spin_lift(Rcart):
    """A SU(2) matrix of the proper part of a Cartesian O(3) matrix."""
    R = Rcart * np.sign(np.linalg.det(Rcart))
    # quaternion from rotation matrix, by the eigenvector method
    K = np.array([
        [R[0, 0] - R[1, 1] - R[2, 2], 0, 0, 0],
        [R[0, 1] + R[1, 0], R[1, 1] - R[0, 0] - R[2, 2], 0, 0],
        [R[0, 2] + R[2, 0], R[1, 2] + R[2, 1], R[2, 2] - R[0, 0] - R[1, 1], 0],
        [R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1], R[0, 0] + R[1, 1] + R[2, 2]]]) / 3.0
    w, V = np.linalg.eigh(K)
    x, y, z, q = V[:, -1]
    return q * np.eye(2) - 1j * (x * SIGMA[0] + y * SIGMA[1] + z * SIGMA[2])


class Crystal:
    """A crystal of a given space group in (a primitive cell of) the table setting."""

    def __init__(self, sg, seed, primitive=True, vol_per_atom=14.0, maxatoms=14):
        import spglib
        rs = np.random.RandomState(seed)
        maxatoms = {126: 24, 133: 24, 201: 24, 203: 24, 207: 24, 209: 24, 210: 24, 219: 24, 222: 48, 226: 48, 228: 48}.get(sg, maxatoms)
        self.sg = sg
        self.scal = Table(sg, False)
        tab = self.scal
        # invariant metric -> conventional lattice
        a = rs.uniform(0.9, 1.25, 3)
        M0 = np.diag(a ** 2)
        for i, j in ((0, 1), (0, 2), (1, 2)):
            M0[i, j] = M0[j, i] = rs.uniform(-.18, .18) * a[i] * a[j]
        M = sum(R.T @ M0 @ R for R in tab.R) / len(tab.R)
        Lconv = np.linalg.cholesky(M)          # rows: conventional vectors
        if np.linalg.det(Lconv) < 0:
            Lconv = -Lconv
        cen = centring(sg)
        self.centring = cen
        P = CENT[cen] if primitive else np.eye(3)
        cv = np.array(CENTVEC[cen])
        ntr = len(cv)
        self.P = P
        specials = [0, 0, 0, .25, .5, .5, .75, .125, 1 / 3, 2 / 3, None, None]
        for attempt in range(4000):
            norb = rs.randint(1, 4)
            pos, typ = [], []
            for io in range(norb):
                p = np.array([specials[rs.randint(len(specials))] if True else 0 for _ in range(3)], dtype=object)
                p = np.array([rs.uniform(.05, .95) if x is None else x for x in p], dtype=float)
                if rs.randint(2):   # put it on a symmetry element: average over the orbit of a random operation
                    i = rs.randint(len(tab.R))
                    q, acc, n = p.copy(), p.copy(), 1
                    for _ in range(5):
                        q = tab.R[i] @ q + tab.t[i]
                        q = p + ((q - p + .5) % 1 - .5)
                        acc += q
                        n += 1
                    p = acc / n
                orb = []
                for R, t in zip(tab.R, tab.t):
                    for c in cv:
                        q = (R @ p + t + c) % 1
                        if not any(np.all(np.abs((q - o + .5) % 1 - .5) < 1e-4) for o in orb):
                            orb.append(q)
                pos += orb
                typ += [io + 1] * len(orb)
            if len(pos) > maxatoms * ntr or len(pos) < 1:
                continue
            pos = np.array(pos)
            d = pos[:, None] - pos[None]
            d = (d + .5) % 1 - .5
            dist = np.linalg.norm(d @ Lconv, axis=2) + 10 * np.eye(len(pos))
            natp = len(pos) / ntr
            vol = vol_per_atom * max(natp, 2.0)
            scale = (vol * ntr / abs(np.linalg.det(Lconv))) ** (1 / 3)
            if dist.min() * scale < 0.7:
                continue
            lat = scale * Lconv
            # primitive atoms
            latp = P.T @ lat
            pp, tt = [], []
            for q, ty in zip(pos @ np.linalg.inv(P).T, typ):
                q = q % 1
                q[q > 1 - 1e-9] = 0
                if not any(np.all(np.abs((q - o + .5) % 1 - .5) < 1e-4) for o in pp):
                    pp.append(q)
                    tt.append(ty)
            ds = spglib.get_symmetry_dataset((latp, pp, tt), symprec=1e-5)
            if ds is None or ds.number != sg or len(ds.rotations) != len(tab.R) * (ntr if not primitive else 1):
                continue
            break
        else:
            raise RuntimeError("no crystal for %d" % sg)
        # round to what a POSCAR with 12 decimals can carry
        self.lattice = latp
        self.pos = np.array(pp)
        self.typ = np.array(tt)
        order = np.argsort(self.typ, kind="stable")
        self.pos, self.typ = self.pos[order], self.typ[order]
        self.rec = 2 * np.pi * np.linalg.inv(self.lattice).T
        # table operations in the basis of this cell
        Pi = np.linalg.inv(P)
        self.ops = [(np.round(Pi @ R @ P).astype(int), Pi @ t) for R, t in zip(tab.R, tab.t)]
        self.shift = np.zeros(3)

    def moved(self, seed):
        """The same crystal in another primitive cell, about another origin, in another orientation: a seeded choice of each."""
        rs = np.random.RandomState(seed)
        c = copy.copy(self)
        U = np.eye(3, dtype=int)
        if rs.randint(3):
            for _ in range(rs.randint(1, 4)):
                i, j = rs.permutation(3)[:2]
                if rs.randint(2):
                    V = np.eye(3, dtype=int)        # new vector j: old vector j plus or minus vector i
                    V[i, j] = rs.choice([-1, 1])
                else:
                    V = np.eye(3, dtype=int)        # right-handed exchange
                    V[i, i] = V[j, j] = 0
                    V[i, j], V[j, i] = 1, -1
                U = U @ V
        if rs.randint(3):
            s = rs.uniform(-.5, .5, 3) if rs.randint(2) else rs.choice([0, .25, .5, -.25, 1 / 3, .125], 3)
        else:
            s = np.zeros(3)
        if rs.randint(3):
            q = rs.normal(size=4)
            q /= np.linalg.norm(q)
            w, v = q[0], q[1:]
            X = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
            O = np.eye(3) + 2 * w * X + 2 * X @ X
        else:
            O = np.eye(3)
        Ui = np.linalg.inv(U)
        c.lattice = U.T @ self.lattice @ O.T
        c.P = self.P @ U
        c.pos = (self.pos @ Ui.T + s) % 1
        c.pos[c.pos > 1 - 1e-9] = 0
        c.shift = s
        c.rec = 2 * np.pi * np.linalg.inv(c.lattice).T
        c.ops = [(np.round(Ui @ R @ U).astype(int), Ui @ t + s - np.round(Ui @ R @ U) @ s) for R, t in self.ops]
        for a in ("_ok",):
            if hasattr(c, a):
                delattr(c, a)
        return c

    def k_of(self, name):
        return self.P.T @ self.scal.kpts[name][1]


class DFT:
    """Electronic structure of a Crystal at given k-points (reduced, of this cell)."""

    def __init__(self, cryst, kpts, spinor, seed, npw_target=45, nb_min=6, nb_max=14,
                 margin=2e-3, spread=0.0, ecut=None):
        self.c, self.spinor = cryst, spinor
        self.kpts = [np.array(k, dtype=float) for k in kpts]
        rs = np.random.RandomState(seed)
        rec = cryst.rec
        vol = abs(np.linalg.det(cryst.lattice))
        # cutoff for about npw_target waves; keep clear of every shell
        ec = (6 * np.pi ** 2 * npw_target / vol) ** (2 / 3) / TWOMHBAR2
        n = [int(np.ceil(np.sqrt(ec * 1.6 * TWOMHBAR2) / (2 * np.pi) * np.linalg.norm(v))) + 2 for v in cryst.lattice]
        n = [m + max(0, int(np.ceil(max(abs(k[j]) for k in self.kpts))) - 1) for j, m in enumerate(n)]
        box = np.array(np.meshgrid(*[np.arange(-m, m + 1) for m in n], indexing="ij")).reshape(3, -1).T
        E = [np.sum(((box + k) @ rec) ** 2, axis=1) / TWOMHBAR2 for k in self.kpts]
        allE = np.sort(np.hstack(E))
        cand = allE[(allE > ec * 0.9) & (allE < ec * 1.3)]
        gaps = np.diff(cand)
        ok = np.where(gaps > 0.05)[0]
        if len(ok) == 0:
            ok = [int(np.argmax(gaps))]
        i = ok[0]
        self.ecut = float(cand[i] + 0.5 * gaps[i])
        if gaps[i] < margin:
            raise Retry("no room for the cutoff")
        if ecut is not None:
            if not ec * .8 < ecut < ec * 1.5 or np.abs(allE - ecut).min() < margin / 2:
                raise Retry("cutoff does not suit")
            self.ecut = ecut
        # reduced cutoff for -Ecut tests
        low = allE[(allE > ec * .45) & (allE < ec * .75)]
        g2 = np.diff(low)
        j = int(np.argmax(g2)) if len(g2) else None
        self.ecut_low = float(low[j] + .5 * g2[j]) if j is not None and g2[j] > margin else None
        types = sorted(set(cryst.typ))
        amp = {t: rs.uniform(4, 11) * rs.choice([-1, -1, 1]) for t in types}
        wid = {t: rs.uniform(.25, .6) for t in types}
        so = {t: rs.uniform(.15, .5) for t in types}
        self.levels, self.vecs, self.G = [], [], []
        for k, Ek in zip(self.kpts, E):
            G = box[Ek < self.ecut]
            nG = len(G)
            q = (G[:, None] - G[None]).reshape(-1, 3)
            qq = np.sum((q @ rec) ** 2, axis=1)
            sfac = np.exp(-2j * np.pi * (q @ cryst.pos.T))
            V = np.zeros(nG * nG, dtype=complex)
            W = np.zeros(nG * nG, dtype=complex)
            for t in types:
                sf = sfac[:, cryst.typ == t].sum(axis=1)
                V += amp[t] * np.exp(-wid[t] * qq) * sf
                W += so[t] * np.exp(-.15 * qq) * sf
            V = V.reshape(nG, nG)
            kin = np.diag(Ek[Ek < self.ecut])
            if spinor:
                kg = (G + k) @ rec
                cr = np.cross(kg[:, None], kg[None])            # (k+G) x (k+G')
                so_m = 1j * W.reshape(nG, nG)[:, :, None] * cr
                H = np.kron(np.eye(2), kin + V)
                for a in range(3):
                    H = H + np.kron(SIGMA[a], so_m[:, :, a])
            else:
                H = kin + V
            H = (H + H.conj().T) / 2
            w, v = np.linalg.eigh(H)
            self.levels.append(w)
            self.vecs.append(v.T)          # rows: states; [up..., down...] for spinors
            self.G.append(G)
        # number of bands: a common, clean cut at every k-point
        nbs = []
        for nb in range(nb_min, nb_max + 1):
            if all(len(w) > nb + 1 and w[nb] - w[nb - 1] > 2e-2 for w in self.levels):
                nbs.append(nb)
        if not nbs:
            raise Retry("no common band cut")
        self.nb_choices = nbs
        self.nb = int(nbs[rs.randint(len(nbs))])
        self.groups = []
        for ik, w in enumerate(self.levels):
            d = np.diff(w[:self.nb + 1])
            if np.any((d > 1e-7) & (d < 4e-3)):
                raise Retry("near degeneracy")
            b = [0] + [i + 1 for i in range(self.nb - 1) if w[i + 1] - w[i] > 1e-4] + [self.nb]
            self.groups.append(b)
            # collapse numerical splitting, as a DFT code prints equal energies
            for lo, hi in zip(b, b[1:]):
                w[lo:hi] = w[lo:hi].mean()
                if spread:
                    # ... or nearly equal ones
                    w[lo:hi] += np.sort(np.random.RandomState(seed + lo).uniform(-spread, spread, hi - lo))
        if self.ecut_low:
            # a state without waves below the reduced cutoff would be noise
            for k, G, v in zip(self.kpts, self.G, self.vecs):
                keep = np.sum(((G + k) @ rec) ** 2, axis=1) / TWOMHBAR2 < self.ecut_low
                if np.linalg.norm(v[:self.nb + 1, np.hstack((keep, keep)) if spinor else keep], axis=1).min() < .1:
                    self.ecut_low = None
                    break
        self.efermi = float(np.round(np.mean([w[self.nb // 2] for w in self.levels]), 4))

    # -- reference model -------------------------------------------------
    def trace(self, ik, lo, hi, R, T, S=None):
        """Trace of {R|T} (reduced coordinates of this cell) in states lo:hi."""
        return np.trace(self.matrix(ik, lo, hi, R, T, S))

    def matrix(self, ik, lo, hi, R, T, S=None, sel=None):
        """<psi_m|{R|T}|psi_n>: the wave exp(i(k+G)r) goes to exp(i R(k+G)(r-T))."""
        G, k = self.G[ik], self.kpts[ik]
        q = (G + k) @ np.linalg.inv(R)                 # row vectors: reciprocal action
        g2 = q - k
        gi = np.round(g2).astype(int)
        if np.abs(g2 - gi).max() > 1e-6:
            raise ValueError("not in the little group")
        index = {tuple(g): i for i, g in enumerate(G)}
        dest = np.array([index[tuple(g)] for g in gi])
        ph = np.exp(-2j * np.pi * (q @ T))
        C = self.vecs[ik][lo:hi]
        n = len(G)
        if self.spinor:
            C = C.reshape(hi - lo, 2, n)
            out = np.zeros_like(C)
            rot = np.einsum("st,mtg->msg", S, C) * ph
            out[:, :, dest] = rot
            return np.einsum("msg,nsg->mn", C.conj(), out)
        out = np.zeros_like(C)
        out[:, dest] = C * ph
        return C.conj() @ out.T

    def in_little_group(self, ik, R):
        q = self.kpts[ik] @ np.linalg.inv(R) - self.kpts[ik]
        return np.abs(q - np.round(q)).max() < 1e-5

    # -- gauge -----------------------------------------------------------
    def gauge(self, seed, nb=None):
        """Wave functions as another run of the DFT code would deliver them:
        random phases and a random basis in every degenerate subspace."""
        rs = np.random.RandomState(seed)
        out = []
        for ik in range(len(self.kpts)):
            v = self.vecs[ik].copy()
            w = self.levels[ik]
            n = nb or self.nb
            b = [0] + [i + 1 for i in range(len(w) - 1) if w[i + 1] - w[i] > 1e-4] + [len(w)]
            for lo, hi in zip(b, b[1:]):
                if lo >= n:
                    break
                d = hi - lo
                A = rs.normal(size=(d, d)) + 1j * rs.normal(size=(d, d))
                Q, Rr = np.linalg.qr(A)
                v[lo:hi] = Q @ v[lo:hi]
            out.append(v)
        return out


class Retry(Exception):
    pass
