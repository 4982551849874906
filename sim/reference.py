"""Reference model: what irrep has to report for a simulated DFT run.

Everything is computed from the physical states of the simulated DFT code (and the
gauge in which it delivered them) and from the pinned tables, never with irrep.
"""
import ast
import itertools
import json
import re

import numpy as np
from crystal import BOHR, SIGMA, TWOMHBAR2, spin_lift


class Bad(Exception):
    """a report contradicts the reference: the violated statement"""


def need(ok, *msg):
    if not ok:
        raise Bad(" ".join(str(m) for m in msg))


def near(a, b, tol, *msg):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Bad(" ".join(str(m) for m in msg) + ": shape %s instead of %s" % (a.shape, b.shape))
    if a.size:
        with np.errstate(invalid="ignore"):
            d = np.abs(a - b)
        d = np.where((a == b) | (np.isnan(a) & np.isnan(b)), 0, d)
        i = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape)
        if not d[i] <= tol:
            raise Bad(" ".join(str(m) for m in msg) + ": %s instead of %s" % (a[i], b[i]))


class Options:
    """the part of a command line the reference depends on"""

    def __init__(self, args):
        self.v = {}
        for a in args:
            k, _, x = a.lstrip("-").partition("=")
            self.v[k] = x
        self.args = args

    def has(self, k):
        return k in self.v

    def num(self, k):
        return float(self.v[k]) if k in self.v else None

    def ints(self, k):
        """lists and ranges of numbers: 1,3-5"""
        if k not in self.v:
            return None
        out = []
        for x in self.v[k].split(","):
            a, _, b = x.partition("-")
            out += range(int(a), int(b or a) + 1)
        return out

    def names(self):
        return self.v["kpnames"].split(",") if "kpnames" in self.v else None


class K:
    """expected content of one k-point"""


class Model:
    """world + options -> expected report.  dft, gauge: of the chosen spin channel; sel: order of k-points in the files."""

    def __init__(self, world, kplist=None, ibstart=None, ibend=None, ecut=None, ef=0.0, degen=1e-4, names=None, dft=None, gauge=None, nb=None, sel=None, nbk=None, tol_single=None):
        self.w, self.c, self.dft, self.gauge = world, world.cryst, dft or world.dft, gauge if gauge is not None else world.gauge
        d = self.dft
        sel = list(range(len(d.kpts))) if sel is None else sel
        nb = nb or d.nb
        nbk = nbk or [nb] * len(sel)
        NB = max(nbk)
        if kplist is None:
            kplist = range(1, len(sel) + 1)
        kplist = [k for k in kplist if 1 <= k <= len(sel)]
        a = 0 if ibstart is None or ibstart <= 0 else ibstart - 1
        b = NB if ibend is None or ibend <= 0 or ibend > NB else ibend
        self.a, self.b, self.names, self.ef = a, b, names, ef
        self.ecut = d.ecut if ecut is None or ecut > d.ecut or ecut <= 0 else ecut
        self.k = []
        for j in kplist:
            i = sel[j - 1]
            x = K()
            x.pos, x.i, x.k = j, i, d.kpts[i]
            E = d.levels[i][:nbk[j - 1]] - ef
            x.raw = E[a:b]
            x.upper = E[b] if len(E) > b else np.nan
            x.borders = [0] + [n + 1 for n in range(len(x.raw) - 1) if x.raw[n + 1] - x.raw[n] > degen] + [len(x.raw)]
            x.deg = np.diff(x.borders)
            x.mean = np.array([x.raw[p:q].mean() if q > p else np.nan for p, q in zip(x.borders, x.borders[1:])])
            self.k.append(x)
        up = [x.upper for x in self.k]
        top = [x.mean[-1] for x in self.k]
        g = [u - t for u, t in zip(up, top) if u == u]
        self.gap_direct = min(g) if g else np.inf
        self.gap_indirect = (min([u for u in up if u == u]) if g else np.inf) - max(top)
        self._cut = {}

    @classmethod
    def of_cli(cls, world, args, **kw):
        o = Options(args)
        ef = o.v.get("EF", "0.0")
        if ef == "auto":
            ef = 0.0 if world.code == "vasp" else kw.get("efermi", world.dft.efermi)
        kw.pop("efermi", None)
        ib = [o.num("IBstart"), o.num("IBend")]
        return cls(world, o.ints("kpoints"), *[None if x is None else int(x) for x in ib], ecut=None if world.code == "wannier90" and False else o.num("Ecut"), ef=float(ef),
                   degen=o.num("degenThresh") or 1e-4, names=o.names(), **kw)

    # -- physical states -------------------------------------------------
    def states(self, i):
        """rows: states as delivered, cut at the cutoff and normalised; and the waves kept"""
        if i not in self._cut:
            d = self.dft
            G = d.G[i]
            keep = np.sum(((G + d.kpts[i]) @ self.c.rec) ** 2, axis=1) / TWOMHBAR2 < self.ecut
            m = np.hstack((keep, keep)) if d.spinor else keep
            V = self.gauge[i][:, m]
            V = V / np.linalg.norm(V, axis=1)[:, None]
            self._cut[i] = (G[keep], V)
        return self._cut[i]

    def matrix(self, x, R, T, S, lo=0, hi=None):
        """<m|{R|T}|n> between the selected states lo:hi of the k-point"""
        G, V = self.states(x.i)
        k = x.k
        hi = len(x.raw) if hi is None else hi
        C = V[self.a + lo:self.a + hi]
        q = (G + k) @ np.linalg.inv(R)
        g = np.round(q - k).astype(int)
        need(np.abs(q - k - g).max() < 1e-5, "an operation is not in the little group of k =", k)
        index = {tuple(v): n for n, v in enumerate(G)}
        dest = np.array([index[tuple(v)] for v in g])
        ph = np.exp(-2j * np.pi * (q @ T))
        out = np.zeros_like(C)
        n = len(G)
        if self.dft.spinor:
            D = C.reshape(len(C), 2, n)
            rot = np.einsum("st,mtg->msg", S, D) * ph
            o = np.zeros_like(D)
            o[:, :, dest] = rot
            out = o.reshape(len(C), 2 * n)
        else:
            out[:, dest] = C * ph
        return C.conj() @ out.T

    def traces(self, x, R, T, S):
        D = np.diag(self.matrix(x, R, T, S))
        return np.array([D[p:q].sum() for p, q in zip(x.borders, x.borders[1:])])

    def in_group(self, x, R):
        q = x.k @ np.linalg.inv(R) - x.k
        return np.abs(q - np.round(q)).max() < 1e-5

    # -- operations --------------------------------------------------------
    def spin_of(self, R):
        L = self.c.lattice
        return spin_lift(L.T @ R @ np.linalg.inv(L).T)

    def which(self, R, T, tol=1e-4):
        """index (from 0) in the tables of an operation of the crystal, and the lattice vector by which its translation differs"""
        for i, (R0, T0) in enumerate(self.c.ops):
            if np.array_equal(R, R0):
                dt = np.asarray(T) - T0
                need(np.abs(dt - np.round(dt)).max() < tol, "the translation", np.round(T, 5), "of rotation", np.asarray(R).tolist(), "is not that of a symmetry,", np.round(T0, 5))
                return i, np.round(dt)
        raise Bad("%s is not the rotation of a symmetry" % np.asarray(R).tolist())

    def check_ops(self, ops, matched, complete=True):
        """ops: [(ind, R, T, S or None)].  Each is a symmetry of the crystal, all are there, and, matched with the tables, in their order."""
        seen = []
        for ind, R, T, S in ops:
            i, dt = self.which(R, T)
            seen.append(i)
            if matched:
                need(i == ind - 1, "operation %d is number %d of the tables" % (ind, i + 1))
            if S is not None and self.dft.spinor:
                S0 = self.spin_of(R)
                need(min(np.abs(S - S0).max(), np.abs(S + S0).max()) < 2e-5, "spinor rotation of operation %d: %s is not a lift of its rotation" % (ind, np.round(S, 4).tolist()))
        need(len(set(seen)) == len(seen), "an operation is listed twice")
        if complete:
            need(len(seen) == len(self.c.ops), "%d of %d operations listed" % (len(seen), len(self.c.ops)))

    def sign_vectors(self):
        """spinor rotations equivalent to those of the tables: all choices of +-S that have their products and traces"""
        if hasattr(self, "_signs"):
            return self._signs
        tab = self.w.table
        R = [r for r, t in self.c.ops]
        S = [self.spin_of(r) for r in R]
        n = len(R)
        idx = {r.tobytes(): i for i, r in enumerate(R)}
        rows, rhs = [], []

        def lift(A, i, j, k):
            x = A[i] @ A[j] @ np.linalg.inv(A[k])
            return int(np.sign(np.trace(x).real) < 0)
        for i in range(n):
            for j in range(n):
                k = idx[np.round(R[i] @ R[j]).astype(int).tobytes()]
                v = np.zeros(n, dtype=int)
                for m in (i, j, k):
                    v[m] ^= 1
                rows.append(v)
                rhs.append(lift(S, i, j, k) ^ lift(tab.S, i, j, k))
        for i in range(n):
            a, b = np.trace(S[i]), np.trace(tab.S[i])
            if abs(a) > 1e-3:
                v = np.zeros(n, dtype=int)
                v[i] = 1
                rows.append(v)
                rhs.append(int((a * np.conj(b)).real < 0))
        A = np.column_stack((np.array(rows), rhs)) % 2
        A = np.unique(A, axis=0)
        piv, r = [], 0
        for c in range(n):
            p = next((q for q in range(r, len(A)) if A[q, c]), None)
            if p is None:
                continue
            A[[r, p]] = A[[p, r]]
            for q in range(len(A)):
                if q != r and A[q, c]:
                    A[q] ^= A[r]
            piv.append(c)
            r += 1
        if any(A[q, n] and not A[q, :n].any() for q in range(len(A))):
            raise ValueError("no spinor frame")
        free = [c for c in range(n) if c not in piv]
        out = []
        for bits in itertools.product((0, 1), repeat=len(free)):
            s = np.zeros(n, dtype=int)
            for c, b in zip(free, bits):
                s[c] = b
            for q, c in enumerate(piv):
                s[c] = (A[q, n] + sum(A[q, f] * s[f] for f in free)) % 2
            out.append(1 - 2 * s)
        self._signs = (S, out)
        return self._signs

    def table_traces(self, x, signs=None, refcell=None):
        """{index of operation in the tables: traces of the table's own operation}, up to the choice of spinor frame;
        refcell: (cell, origin) of the tables in the calculation, if not those the crystal was built with"""
        out = {}
        for i, (R, T) in enumerate(self.c.ops):
            if refcell is not None:
                A, s = np.asarray(refcell[0], dtype=float), np.asarray(refcell[1], dtype=float)
                T1 = A @ self.w.table.t[i] + s - R @ s
                self.which(R, T1)
                T = T1
            if self.in_group(x, R):
                S = None
                if self.dft.spinor:
                    S = self.sign_vectors()[0][i] * signs[i]
                out[i] = self.traces(x, R, T, S)
        return out

    def multiplicities(self, x, name, tr):
        """[{irrep: multiplicity}] per multiplet from traces of table operations"""
        out = []
        irr = [z for z in self.w.table.irreps if z[0] == name]
        need(irr, "no irreps at", name)
        for m in range(len(x.deg)):
            d = {}
            for kp, kv, ir, dim, ch in irr:
                mu = sum(ch[i + 1] * np.conj(tr[i][m]) for i in tr) / len(tr)
                d[ir] = mu
            out.append(d)
        return out


class Undecided(Exception):
    """the reference does not decide this case (eigenvalues too close, operations that do not leave a subspace invariant)"""


def clusters(vals, kramers):
    """[(label, [index])] of close eigenvalues"""
    vals = np.asarray(vals)
    if kramers:
        order = np.argsort(vals.real)
        x = vals.real[order]
        gaps = x[1:] - x[:-1]
    else:
        a = np.angle(vals) % (2 * np.pi)
        order = np.argsort(a)
        # start after the largest gap
        a = a[order]
        g = np.append(a[1:] - a[:-1], a[0] + 2 * np.pi - a[-1])
        order = np.roll(order, -(int(np.argmax(g)) + 1))
        gaps = np.abs(np.diff(vals[order]))
    out = [[order[0]]]
    for i, d in zip(order[1:], gaps):
        if .002 < d < .15:
            raise Undecided("eigenvalues closer than %.3f" % d)
        if d <= .002:
            out[-1].append(i)
        else:
            out.append([i])
    return [(vals[c].real.mean() if kramers else vals[c].mean(), c) for c in out]


def subspaces(m, ops, isyms, kramers=True):
    """{labels: {index of k-point: mean energies of the states}} after separation by the operations"""
    return {key: {n: np.concatenate([[m.k[n].mean[p]] * V.shape[1] for p, V in l]) for n, l in parts.items()} for key, parts in subspace_bases(m, ops, isyms, kramers).items()}


def subspace_bases(m, ops, isyms, kramers=True):
    """{labels: {index of k-point: [(multiplet, orthonormal columns in the basis of its states)]}}, in order of energy"""
    byind = {o[0]: o for o in ops}
    cur = [((), {n: [(p, np.eye(d)) for p, d in enumerate(x.deg)] for n, x in enumerate(m.k)})]
    for s in isyms:
        new = []
        D = [m.matrix(x, *byind[s][1:]) for x in m.k]
        for key, parts in cur:
            if s == 1:
                new.append((key + (1,), parts))
                continue
            vals, where = [], []
            for n, l in parts.items():
                x = m.k[n]
                for p, V in l:
                    M = V.conj().T @ D[n][x.borders[p]:x.borders[p + 1], x.borders[p]:x.borders[p + 1]] @ V
                    if np.abs(M @ M.conj().T - np.eye(len(M))).max() > 2e-3:
                        raise Undecided("operation %d does not leave a subspace invariant" % s)
                    w, U = np.linalg.eig(M)
                    vals += list(w)
                    where += [(n, p, V, M)] * len(w)
            for label, c in clusters(vals, kramers if isinstance(kramers, bool) else kramers[len(key)]):
                sub = {}
                done = set()
                for i in sorted(c):
                    n, p, V, M = where[i]
                    if (n, p) in done:
                        continue
                    done.add((n, p))
                    mine = [vals[j] for j in c if where[j][:2] == (n, p)]
                    # projector on the eigenvalues of the cluster
                    w = np.array([vals[j] for j in range(len(vals)) if where[j][:2] == (n, p)])
                    rest = [y for y in set(np.round(w, 4)) if min(abs(y - z) for z in mine) > .01]
                    P = np.eye(len(M), dtype=complex)
                    for y in rest:
                        z = w[np.argmin(np.abs(w - y))]
                        P = P @ (M - z * np.eye(len(M)))
                    U, sv, _ = np.linalg.svd(P)
                    sub.setdefault(n, []).append((p, V @ U[:, :len(mine)]))
                for n in sub:
                    sub[n].sort(key=lambda t: t[0])
                new.append((key + (label,), sub))
        cur = new
    return {key: {n: sorted(l, key=lambda t: t[0]) for n, l in parts.items()} for key, parts in cur}


class Path:
    """Wilson loop and Zak phases of the closed path through all k-points, for all states or a subspace of them"""

    def __init__(self, m, parts=None):
        if len(m.k) < 2:
            raise Undecided("a path of one point")
        if parts is None:
            parts = {n: [(p, np.eye(d)) for p, d in enumerate(x.deg)] for n, x in enumerate(m.k)}
            self.E = [x.raw for x in m.k]
        else:
            if len(parts) < len(m.k):
                raise Undecided("a subspace that is not present at all k-points")
            self.E = [np.concatenate([[m.k[n].mean[p]] * V.shape[1] for p, V in parts[n]]) for n in sorted(parts)]
        self.N = [len(e) for e in self.E]
        C, cuts = [], []
        for n in sorted(parts):
            x = m.k[n]
            G, W = m.states(x.i)
            W = W[m.a:m.a + len(x.raw)]
            C.append((G, x.k, np.concatenate([V.T @ W[x.borders[p]:x.borders[p + 1]] for p, V in parts[n]])))
            cuts.append(set(np.cumsum([V.shape[1] for p, V in parts[n]]).tolist()))
        self.cuts = sorted(set.intersection(*cuts))
        self.O = [self.overlap(m, a, b) for a, b in zip(C, C[1:] + C[:1])]

    @staticmethod
    def overlap(m, a, b):
        """<u_m(k)|u_n(k')>, k' the equivalent point closest to k"""
        d = a[1] - b[1]
        if np.abs(np.abs(d - np.floor(d)) - .5).min() < 1e-3:
            raise Undecided("a step by half a reciprocal vector")
        g = np.round(d).astype(int)
        ia = {tuple(v): i for i, v in enumerate(a[0])}
        pairs = [(ia[tuple(v - g)], j) for j, v in enumerate(b[0]) if tuple(v - g) in ia]
        i, j = np.array([p[0] for p in pairs]), np.array([p[1] for p in pairs])
        if m.dft.spinor:
            i, j = np.hstack((i, i + len(a[0]))), np.hstack((j, j + len(b[0])))
        return a[2][:, i].conj() @ b[2][:, j].T

    def condition(self, n=None, minors=False):
        """smallest singular value of the overlaps of the lowest n states"""
        N = min(self.N)
        if minors:
            return min(self.condition(k) for k in range(1, N + 1))
        return min(np.linalg.svd(O[:n, :n], compute_uv=False).min() for O in self.O)

    def zak(self, n):
        """in units of pi, modulo 2"""
        return sum(np.angle(np.linalg.det(O[:n, :n])) for O in self.O) / np.pi % 2

    def gaps(self, n):
        """(gap, centre, smallest local gap) above the lowest n states, within the set"""
        if n >= min(self.N):
            return np.inf, np.inf, np.inf
        lo, hi = max(e[n - 1] for e in self.E), min(e[n] for e in self.E)
        return hi - lo, (hi + lo) / 2, min(e[n] - e[n - 1] for e in self.E)

    def wcc(self):
        if len(set(self.N)) > 1:
            raise Undecided("a number of states that changes along the path")
        W = np.eye(self.N[0])
        for O in self.O:
            u, s, v = np.linalg.svd(O)
            W = W @ (u @ v)
        return np.angle(np.linalg.eigvals(W)) / (2 * np.pi) % 1


MINOVERLAP = .03


def near_circle(got, exp, period, tol, *msg):
    got, exp = np.atleast_1d(np.asarray(got, dtype=float)), np.atleast_1d(np.asarray(exp, dtype=float))
    need(len(got) == len(exp), *msg, "%d values instead of %d" % (len(got), len(exp)))
    need(np.all(np.isfinite(got)), *msg, got)
    d = np.abs((got[:, None] - exp[None] + period / 2) % period - period / 2)
    from scipy.optimize import linear_sum_assignment
    i, j = linear_sum_assignment(d)
    if d[i, j].max() > tol:
        need(False, *msg, np.round(np.sort(got), 5).tolist(), "instead of", np.round(np.sort(exp), 5).tolist())


def check_zak(P, rows, ctx=""):
    """rows: (phase in units of pi, gap, centre, local gap) for 1, 2, ... states; returns the number of phases decided"""
    N = min(P.N)
    need(len(rows) == N, "Zak phases%s: %d values for %d states" % (ctx, len(rows), N))
    done = 0
    for n in range(1, N + 1):
        near(rows[n - 1][1:], P.gaps(n), 2e-3, "gap, centre and local gap above %d states%s" % (n, ctx))
        if n in P.cuts:
            c = P.condition(n)
            if c > MINOVERLAP:
                near_circle(rows[n - 1][0], P.zak(n), 2, 2e-4 / c + 1e-5, "Zak phase of %d states%s" % (n, ctx))
                done += 1
    return done


def check_wcc(P, w, total=None, ctx=""):
    need(len(w) == P.N[0], "Wannier charge centres%s: %d values for %d states" % (ctx, len(w), P.N[0]))
    need(all(-1e-9 <= x <= 1 + 1e-9 for x in w) and all(x <= y for x, y in zip(w, w[1:])), "Wannier charge centres%s not sorted in [0, 1]" % ctx, w)
    c = P.condition()
    if c <= MINOVERLAP:
        return 0
    e = P.wcc()
    near_circle(w, e, 1, 2e-4 / c, "Wannier charge centres%s" % ctx)
    if total is not None:
        near_circle(total, sum(w), 1, 1e-5 * len(w), "sum of the Wannier charge centres%s" % ctx)
    return 1


def parse_loops(stdout, what):
    """[(labels, rows or (centres, sum))] as printed by -ZAK or -WCC"""
    out = []
    for t in re.split(r"symmetry eigenvalue : ", stdout.decode())[1:]:
        key = t.split("\n", 1)[0].strip()
        lab = labels_of(key)
        if what == "ZAK":
            if "Zak phases are :" not in t.split("\n")[1]:
                continue
            rows = []
            for l in t.split("\n"):
                z = re.match(r"\s+(\d+)\s+(\S+) pi gapwidth =\s*(\S+) gapcenter =\s*(\S+) localgap=\s*(\S+)", l)
                if z:
                    need(int(z.group(1)) == len(rows) + 1, "Zak phases are not numbered in order")
                    rows.append([float(z.group(i)) for i in (2, 3, 4, 5)])
            out.append((lab, rows))
        else:
            z = re.search(r"WCC are : \[(.*?)\]\s*sumWCC=(\S+)", t, re.S)
            need(z, "no Wannier charge centres")
            out.append((lab, ([float(y) for y in z.group(1).split()], float(z.group(2)))))
    return out


def labels_of(key):
    """numbers in a printed tuple: (), (1.0,), (np.float64(1.0), -1j)"""
    key = re.sub(r"np\.\w+\(((?:[^()]|\([^()]*\))*)\)", r"\1", key)
    v = ast.literal_eval(key)
    return [complex(y) for y in (v if isinstance(v, tuple) else (v,))]


def check_loops(m, ops, sep, stdout, what):
    """the printed Zak phases or charge centres; returns the number of decided values"""
    try:
        exp = {(): None} if sep is None else subspace_bases(m, ops, sep)
    except Undecided:
        return 0
    got = parse_loops(stdout, what)
    need(len(got) == len(exp), "%s of %d sets of states instead of %d" % (what, len(got), len(exp)))
    left = dict(exp)
    n = 0
    for lab, v in got:
        key = next((y for y in left if len(y) == len(lab) and np.abs(np.array(y) - lab).max() < 2e-3) if lab else iter(left), None)
        need(key is not None, "%s: eigenvalue" % what, np.round(lab, 3).tolist(), "is none of", [np.round(y, 3).tolist() for y in left])
        parts = left.pop(key)
        ctx = " of subspace %s" % np.round(lab, 3).tolist() if lab else ""
        try:
            P = Path(m, parts)
            n += check_zak(P, v, ctx) if what == "ZAK" else check_wcc(P, v[0], v[1], ctx)
        except Undecided:
            continue
    return n


def stable_loops(m, ops, sep, what):
    """is every printed number insensitive to noise in the last digits?"""
    try:
        exp = {(): None} if sep is None else subspace_bases(m, ops, sep)
        for parts in exp.values():
            P = Path(m, parts)
            if what == "ZAK":
                if sep is not None and len(P.cuts) < min(P.N) or P.condition(minors=True) < MINOVERLAP:
                    return False
            else:
                P.wcc()
                if P.condition() < MINOVERLAP:
                    return False
    except Undecided:
        return False
    return True


def check_subspaces(exp, got, m, ctx=""):
    """got: [(labels, [(k, energies of all states)])] against subspaces(): a partition by eigenvalue, energies kept"""
    need(len(got) == len(exp), "there are %d subspaces%s instead of %d:" % (len(got), ctx, len(exp)), [np.round(g[0], 3).tolist() for g in got])
    left = dict(exp)
    for label, ks in got:
        l = np.atleast_1d(np.array(label, dtype=complex))
        key = next((y for y in left if len(y) == len(l) and np.abs(np.array(y) - l).max() < 2e-3), None)
        need(key is not None, "subspace%s" % ctx, np.round(l, 4).tolist(), "is none of", [np.round(y, 3).tolist() for y in left])
        e = left.pop(key)
        need(len(ks) == len(e), "subspace", np.round(l, 3).tolist(), "has %d k-points instead of %d" % (len(ks), len(e)))
        for (k, en), n in zip(ks, sorted(e)):
            w = "subspace %s%s, k-point %s:" % (np.round(l, 3).tolist(), ctx, np.round(m.k[n].k, 4))
            near(k, m.k[n].k, 2e-5, w, "coordinates")
            need(len(en) == len(e[n]), w, "%d states instead of %d" % (len(en), len(e[n])))
            near(np.sort(en), np.sort(e[n]), 1.5e-3, w, "energies")


def check_part(m, exp, key, lab, d):
    """a dumped part of a band structure against subspace_bases(): energies and states of every k-point"""
    parts = exp[key]
    en = {n: np.concatenate([[m.k[n].mean[p]] * V.shape[1] for p, V in l]) for n, l in parts.items()}
    check_subspaces({key: en}, [(lab, [(k["k"], np.asarray(k["Energy_raw"])) for k in d["kpoints"]])], m)
    for n, k in zip(sorted(parts), d["kpoints"]):
        x = m.k[n]
        w = "subspace %s, k-point %s:" % (np.round(lab, 3).tolist(), np.round(x.k, 4))
        need(int(k["num_bands"]) == len(k["Energy_raw"]) == len(k["WF"]), w, "number of bands", k["num_bands"])
        need(sum(int(y) for y in k["degeneracies"]) == int(k["num_bands"]), w, "degeneracies", list(k["degeneracies"]))
        G, W = m.states(x.i)
        W = W[m.a:m.a + len(x.raw)]
        index = {tuple(v): i for i, v in enumerate(G)}
        o = np.array([index[tuple(v)] for v in np.asarray(k["ig"]).T.astype(int)])
        if m.dft.spinor:
            o = np.hstack((o, o + len(G)))
        got, e = np.asarray(k["WF"]), np.asarray(k["Energy_raw"])
        near(got.conj() @ got.T, np.eye(len(got)), 2e-3, w, "overlaps of the states")
        for p, V in parts[n]:
            # the states of this energy; multiplets closer than the tolerance are compared together
            close = {q for q, U in parts[n] if abs(x.mean[q] - x.mean[p]) < 1.5e-3}
            if any(1e-3 < abs(x.mean[q] - x.mean[p]) < 3e-3 for q, U in parts[n]):
                continue
            B = np.concatenate([(U.T @ W[x.borders[q]:x.borders[q + 1]])[:, o] for q, U in parts[n] if q in close])
            mine = got[np.abs(e - x.mean[p]) < 1.5e-3]
            need(len(mine) == len(B), w, "%d states of energy %.4f instead of %d" % (len(mine), x.mean[p], len(B)))
            near(mine.T @ mine.conj(), B.T @ B.conj(), 5e-3, w, "projector on the states of energy %.4f" % x.mean[p])


# ---- what the outputs say --------------------------------------------------------
F = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"


class Trace:
    """trace.txt"""

    def __init__(self, b):
        t = b.decode().split("\n")
        p = iter(l for l in t if l.strip())
        try:
            self.nb = int(next(p))
            self.spinor = int(next(p)) == 1
            n = int(next(p))
            self.ops = []
            for i in range(n):
                x = [float(y) for y in next(p).split()]
                need(len(x) in (12, 20), "trace.txt: operation %d has %d numbers" % (i + 1, len(x)))
                S = None
                if len(x) == 20:
                    z = np.array(x[12:]).reshape(4, 2)
                    S = (z[:, 0] + 1j * z[:, 1]).reshape(2, 2)
                self.ops.append((i + 1, np.array(x[:9]).reshape(3, 3).astype(int), np.array(x[9:12]), S))
            nk = int(next(p))
            self.k = [np.array([float(y) for y in next(p).split()]) for _ in range(nk)]
            self.blocks = []
            for _ in range(nk):
                n = int(next(p))
                inds = [int(y) for y in next(p).split()]
                need(len(inds) == n, "trace.txt: %d indices for %d operations" % (len(inds), n))
                rows, have = [], 0
                while have < self.nb:
                    x = [float(y) for y in next(p).split()]
                    need(len(x) == 3 + 2 * n, "trace.txt: a row with %d numbers for %d operations" % (len(x), n))
                    rows.append((int(x[0]), int(x[1]), x[2], np.array(x[3::2]) + 1j * np.array(x[4::2])))
                    have += int(x[1])
                self.blocks.append((inds, rows))
            self.rest = [l for l in p]
            need(not self.rest, "trace.txt: lines after the last block: " + str(self.rest[:1]))
        except StopIteration:
            raise Bad("trace.txt is incomplete")
        except ValueError as e:
            raise Bad("trace.txt is malformed: %s" % e)


def unjson(x):
    """arrays as monty writes them"""
    if isinstance(x, dict):
        if x.get("@class") == "array" and x.get("@module") == "numpy":
            if x["dtype"].startswith("complex"):
                return np.array(x["data"][0]) + 1j * np.array(x["data"][1])
            return np.array(x["data"], dtype=x["dtype"])
        if x.get("@class") == "complex":
            return complex(*x["data"]) if isinstance(x["data"], list) else complex(x["data"])
        return {k: unjson(v) for k, v in x.items()}
    if isinstance(x, list):
        return [unjson(y) for y in x]
    return x


def load_json(b):
    try:
        return unjson(json.loads(b.decode()))
    except ValueError as e:
        raise Bad("irrep-output.json is malformed: %s" % e)


HEAD = re.compile(r"k-point\s+(\d+) : (\[[^\]]*\]) \(in DFT cell\)\n\s*(\[[^\]]*\]) \(after cell trasformation\)\n\n number of states : (\d+)\n")


class Chars:
    """one listing of characters on standard output (write_characters)"""

    def __init__(self, text):
        self.k = []
        parts = HEAD.split(text)
        for n in range(1, len(parts), 5):
            b = K()
            b.ik, b.k, b.kref, b.n = int(parts[n]), vec(parts[n + 1]), vec(parts[n + 2]), int(parts[n + 3])
            body = parts[n + 4]
            lines = body.split("\n")
            p = next((i for i, l in enumerate(lines) if "degeneracy" in l), None)
            need(p is not None, "standard output: no table at k-point", b.ik)
            b.inds = [int(y) for y in lines[p + 1].split("|")[3].split()]
            b.rows = []
            i = p + 2
            while i < len(lines) and lines[i].count("|") == 3:
                e, d, ir, ch = lines[i].split("|")
                need(i + 1 < len(lines) and lines[i + 1].count("|") == 3, "standard output: a row without its second line")
                ch2 = lines[i + 1].split("|")[3]
                b.rows.append((float(e), int(d), ir.strip(), row(ch), row(ch2)))
                i += 2
            b.rest = "\n".join(lines[i:])
            m = re.search(r"Gap with upper bands: +(\S+)", b.rest)
            b.gap = num(m.group(1)) if m else None
            m = re.search(r"Invariant under inversion: (\w+)", b.rest)
            b.inversion = m and m.group(1)
            m = re.search(r"Number of inversions-odd (Kramers pairs|states) : (-?\d+)", b.rest)
            b.odd = int(m.group(2)) if m else None
            self.k.append(b)

        def last(rx, f):
            m = re.search(rx, text)
            return f(m.group(1)) if m else None
        self.odd = last(r"TOTAL number of inversions-odd (?:Kramers pairs|states) : (-?\d+)", int)
        self.z2 = last(r"Z2 invariant: (-?\d+)", int)
        self.z4 = last(r"Z4 invariant: (-?\d+)", int)
        self.indirect = last(r"Indirect gap: (\S+)", num)
        self.direct = last(r"Smallest direct gap in the given set of k-points: (\S+)", num)


def num(s):
    return float(re.sub(r"np\.float64\((.*)\)", r"\1", s))


def vec(s):
    return np.array([float(y) for y in s.strip("[]").split()])


def row(s):
    out = []
    for y in re.findall(r"(%s)\s*(?:([-+]\s*%s)j)?(?=\s|$)" % (F, r"(?:\d+\.?\d*)"), s):
        out.append(float(y[0]) + (1j * float(y[1].replace(" ", "")) if y[1] else 0))
    return np.array(out, dtype=complex)


def listings(stdout):
    """the listings of characters, one per band structure written"""
    t = stdout.decode()
    # each listing ends with the smallest direct gap
    out, pos = [], 0
    for m in re.finditer(r"Smallest direct gap in the given set of k-points: \S+", t):
        out.append(Chars(t[pos:m.end()]))
        pos = m.end()
    return out


def ref_cell(world, args, stdout):
    """(refUC, shiftUC) with columns the reference vectors: as the command line asks for, or as printed if irrep
    chooses the origin (check_sg decides whether the operations are those of the tables at that origin)"""
    o = Options(args)
    if o.has("refUC") or o.has("shiftUC"):
        A = np.array([float(y) for y in o.v["refUC"].split(",")]).reshape(3, 3).T if o.has("refUC") else np.eye(3)
        s = np.array([float(y) for y in o.v["shiftUC"].split(",")]) if o.has("shiftUC") else np.zeros(3)
        return A, s
    if o.has("kpnames") or o.has("searchcell"):
        g = re.search(r"shiftUC = \[(.*?)\]", stdout.decode())
        need(g, "no origin of the reference cell on standard output")
        return np.linalg.inv(world.cryst.P), np.array([float(y) for y in g.group(1).split()])
    return np.eye(3), np.zeros(3)


def check_json_kpoint(m, x, j, ops, names, matched, ctx=""):
    """one k-point of the JSON file against the reference; returns data for the frame-dependent checks"""
    where = "k-point %s%s" % (np.round(x.k, 4), ctx)
    d = [int(y) for y in j["dimensions"]]
    need(d == list(x.deg), where, "has degeneracies", d, "instead of", list(x.deg))
    near(j["energies_raw"], x.raw, 2e-6, "energies of", where)
    near(j["energies_mean"], x.mean, 2e-6, "mean energies of", where)
    inds = [int(y) for y in j["symmetries"]]
    exp = [o[0] for o in ops if m.in_group(x, o[1])]
    need(sorted(inds) == sorted(exp) and len(set(inds)) == len(inds), where, "has little group", inds, "instead of", exp)
    ch = np.asarray(j["characters"])
    byind = {o[0]: o for o in ops}
    S0 = {}
    for n, ind in enumerate(inds):
        _, R, T, S = byind[ind]
        near(ch[:, n], m.traces(x, R, T, S), 1e-3, "characters of operation %d at %s" % (ind, where))


def check_frame(m, xs, js, ops, refcell, names, texts=None):
    """characters in the reference cell and irreps: one choice of spinor frame has to explain all k-points"""
    cand = m.sign_vectors()[1] if m.dft.spinor else [None]
    err = None
    for s in cand:
        try:
            for x, j, nm in zip(xs, js, names or [None] * len(xs)):
                tr = m.table_traces(x, s, refcell)
                inds = [int(y) for y in j["symmetries"]]
                where = "k-point %s" % np.round(x.k, 4)
                ch = np.asarray(j["characters refUC"])
                if np.allclose(refcell[0], np.eye(3)) and np.allclose(refcell[1], 0):
                    # the cells match: these are the characters of the calculation, with its own spinor rotations
                    near(ch, np.asarray(j["characters"]), 0, "characters in the reference cell at %s" % where)
                    inds = []
                for n, ind in enumerate(inds):
                    near(ch[:, n], tr[ind - 1], 1e-3, "characters in the reference cell of operation %d at %s" % (ind, where))
                if nm is not None:
                    mult = m.multiplicities(x, nm, tr)
                    need(j["irreps"] is not None and len(j["irreps"]) == len(mult), where, "has no irreps or not one set per level")
                    for got, exp in zip(j["irreps"], mult):
                        for ir in set(got) | {z for z in exp if abs(exp[z]) > 5e-3}:
                            need(ir in exp, where, "has irrep", ir, "which is not in the table")
                            g = complex(*got[ir]) if ir in got else 0
                            near(g, exp[ir], 4e-3, "multiplicity of %s at %s" % (ir, where))
            return s
        except Bad as e:
            err = err or e
    raise err


def jnum(x):
    return {k: [complex(v).real, complex(v).imag] for k, v in x.items()} if isinstance(x, dict) else x


def check_bs(m, d, traces, named, matched=False, wf=True):
    """a dumped BandStructure (scenarios.dump) against the reference"""
    try:
        _check_bs(m, d, traces, named, matched, wf)
    except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
        import traceback
        f = [x for x in traceback.extract_tb(e.__traceback__) if x.filename.endswith("reference.py")]
        raise Bad("an attribute is malformed: %s: %s (%s)" % (type(e).__name__, str(e)[:120], (f[-1].line or "")[:80]))


def _check_bs(m, d, traces, named, matched, wf):
    c = m.c
    near(d["Lattice"], c.lattice, 2e-6, "Lattice")
    near(d["RecLattice"], c.rec, 1e-5, "RecLattice")
    need(bool(d["spinor"]) == m.dft.spinor, "spinor is", d["spinor"])
    need(int(d["number"]) == c.sg, "space group", d["number"])
    need(int(d["order"]) == len(c.ops), "order of the space group", d["order"])
    near(d["efermi"], m.ef, 2e-6, "efermi")
    if m.w.code != "wannier90":
        near(d["Ecut0"], m.dft.ecut, 1e-4, "Ecut0")
    near(d["Ecut"], m.ecut, 1e-4, "Ecut")
    ops = [(o[0], np.asarray(o[1]), np.asarray(o[2]), np.asarray(o[3]) if m.dft.spinor else None) for o in d["ops"]]
    m.check_ops(ops, matched)
    need(d["num_k"] == len(m.k) == len(d["kpoints"]), "%d k-points instead of %d" % (d["num_k"], len(m.k)))
    js = []
    for n, (x, k) in enumerate(zip(m.k, d["kpoints"])):
        w = "k-point %d (number %d of the files):" % (n + 1, x.pos)
        need(int(k["ik0"]) == x.pos, w, "ik0 is", k["ik0"])
        near(k["k"], x.k, 2e-6, w, "coordinates")
        near(k["k_refUC"], np.asarray(d["refUC"]).T @ x.k, 1e-4, w, "coordinates in the reference cell")
        need(int(k["num_bands"]) == len(x.raw), w, "%s bands instead of %d" % (k["num_bands"], len(x.raw)))
        near(k["Energy_raw"], x.raw, 2e-6, w, "energies")
        near(k["upper"], x.upper, 2e-6, w, "energy of the next band")
        need([int(y) for y in k["borders"]] == [int(y) for y in x.borders], w, "borders", list(k["borders"]), "instead of", x.borders)
        need([int(y) for y in k["degeneracies"]] == list(x.deg), w, "degeneracies", list(k["degeneracies"]))
        exp = [o[0] for o in ops if m.in_group(x, o[1])]
        need(sorted(k["inds"]) == sorted(exp), w, "little group", k["inds"], "instead of", exp)
        G, V = m.states(x.i)
        need(int(k["NG"]) == len(G), w, "%s plane waves instead of %d" % (k["NG"], len(G)))
        index = {tuple(v): i for i, v in enumerate(G)}
        ig = np.asarray(k["ig"]).T
        need(len(ig) == len(G) and set(map(tuple, ig.astype(int))) == set(index), w, "plane waves are not those below the cutoff")
        if wf:
            o = np.array([index[tuple(v)] for v in ig.astype(int)])
            if m.dft.spinor:
                o = np.hstack((o, o + len(G)))
            need(k["WF"] is not None, w, "no wave functions")
            near(k["WF"], V[m.a:m.a + len(x.raw)][:, o], 3e-5, w, "wave functions")
        else:
            need(k["WF"] is None, w, "wave functions kept")
        if traces:
            near(k["Energy_mean"], x.mean, 2e-6, w, "mean energies")
            byind = {q[0]: q for q in ops}
            ch = np.asarray(k["char"])
            for i, ind in enumerate(k["inds"]):
                near(ch[:, i], m.traces(x, *byind[ind][1:]), 1e-3, w, "characters of operation", ind)
            js.append({"symmetries": k["inds"], "characters": k["char"], "characters refUC": k["char_refUC"], "irreps": [jnum(y) for y in k["irreps"]] if "irreps" in k else None})
    if traces and matched:
        check_frame(m, m.k, js, ops, (np.asarray(d["refUC"]), np.asarray(d["shiftUC"])), m.names if named else None)
    if traces and m.k:
        near(d["gap_direct"], m.gap_direct, 1e-5, "direct gap")
        near(d["gap_indirect"], m.gap_indirect, 1e-5, "indirect gap")


# ---- the whole report of a run -------------------------------------------------------
def kline(m):
    K = np.array([x.k for x in m.k]) @ m.c.rec
    d = np.linalg.norm(np.diff(K, axis=0), axis=1)
    d[d > 0.1] = 0
    return np.hstack(([0.0], np.cumsum(d)))


def check_trace_consistent(t, js, m):
    """trace file against the JSON file, or, if there is none of the whole set of states, the reference"""
    if js is None:
        js = [{"symmetries": [q[0] for q in t.ops if m.in_group(x, q[1])], "dimensions": x.deg, "energies_mean": x.mean,
               "characters": np.array([m.traces(x, *q[1:]) for q in t.ops if m.in_group(x, q[1])]).T} for x in m.k]
        tol = 1e-3
    else:
        tol = 2e-6
    need(len(t.blocks) == len(js), "trace.txt has %d k-points instead of %d" % (len(t.blocks), len(js)))
    need(t.nb == len(m.k[0].raw), "trace.txt gives %d bands instead of %d" % (t.nb, len(m.k[0].raw)))
    need(t.spinor == m.dft.spinor, "trace.txt says spinor =", t.spinor)
    for n, ((inds, rows), k, j, x) in enumerate(zip(t.blocks, t.k, js, m.k)):
        near(k, x.k, 2e-6, "trace.txt: coordinates of k-point %d" % (n + 1))
        need(inds == [int(y) for y in j["symmetries"]], "trace.txt: symmetries", inds, "of k-point %d, JSON:" % (n + 1), j["symmetries"])
        need([r[1] for r in rows] == [int(y) for y in j["dimensions"]], "trace.txt: degeneracies of k-point %d" % (n + 1), [r[1] for r in rows], "JSON:", list(j["dimensions"]))
        need([r[0] for r in rows] == list(np.cumsum([1] + [r[1] for r in rows])[:-1]), "trace.txt: band numbers of k-point %d:" % (n + 1), [r[0] for r in rows])
        near([r[2] for r in rows], j["energies_mean"], 1.1e-4, "trace.txt: energies of k-point %d" % (n + 1))
        near([r[3] for r in rows], np.asarray(j["characters"]), tol, "trace.txt: characters of k-point %d" % (n + 1))


def check_listing_consistent(L, js, m, named, ctx="", inversion=True):
    """standard output against the JSON file"""
    need(len(L.k) == len(js), "standard output%s has %d k-points, the JSON file %d" % (ctx, len(L.k), len(js)))
    for n, (b, j, x) in enumerate(zip(L.k, js, m.k)):
        w = "standard output%s, k-point %d:" % (ctx, n + 1)
        need(b.ik == x.pos, w, "numbered", b.ik, "instead of", x.pos)
        near(b.k, x.k, 2e-5, w, "coordinates")
        need(b.n == sum(int(y) for y in j["dimensions"]), w, "number of states", b.n)
        need(b.inds == [int(y) for y in j["symmetries"]], w, "symmetries", b.inds, "JSON:", j["symmetries"])
        need([r[1] for r in b.rows] == [int(y) for y in j["dimensions"]], w, "degeneracies", [r[1] for r in b.rows], "JSON:", list(j["dimensions"]))
        near([r[0] for r in b.rows], j["energies_mean"], 1.1e-4, w, "energies")
        ch, ch2 = np.asarray(j["characters"]), np.asarray(j["characters refUC"])
        near([r[3] for r in b.rows], ch if np.abs(ch.imag).max() > 1e-4 else ch.real, 3e-4, w, "characters")
        near([r[4] for r in b.rows], ch2 if np.abs(ch.imag).max() > 1e-4 else ch2.real, 3e-4, w, "characters in the reference cell")
        if named:
            for r, ir in zip(b.rows, j["irreps"]):
                got = {}
                for y in re.findall(r"(\S+?)\(([^)]*)\)", r[2].replace(", ", " ")):
                    z = re.match(r"(%s)(?:([-+]%s)i)?$" % (F, F), y[1])
                    need(z, w, "irreps", r[2])
                    got[y[0]] = float(z.group(1)) + 1j * float(z.group(2) or 0)
                need(set(got) == set(ir), w, "irreps", r[2], "JSON:", sorted(ir))
                for y in ir:
                    near(got[y], complex(*ir[y]), 2e-3, w, "multiplicity of", y)
        else:
            need(all(r[2] == "None" for r in b.rows), w, "irreps", [r[2] for r in b.rows])


def check_inversion(L, m, t, j):
    """inversion-odd states"""
    inv = [o for o in t.ops if np.array_equal(o[1], -np.eye(3)) and np.abs(o[2]).sum() < 1e-6]
    total = 0
    for b, x in zip(L.k, m.k):
        if not inv or not m.in_group(x, inv[0][1]):
            need(b.inversion == "No" and b.odd is None, "k-point", x.pos, "is reported as inversion symmetric")
            continue
        S = inv[0][3]
        tr = m.traces(x, inv[0][1], inv[0][2], S if S is not None else None)
        odd = (x.deg - tr.real).sum() / 2
        n = int(round(odd))
        total += n
        need(b.inversion == "Yes", "k-point", x.pos, "is reported as not inversion symmetric")
        need(b.odd == (n // 2 if m.dft.spinor else n), "k-point", x.pos, "has", n, "inversion-odd states, reported:", b.odd)
    need(L.odd == (total // 2 if m.dft.spinor else total), "there are", total, "inversion-odd states, reported in total:", L.odd)
    need(L.z2 == total // 2 % 2, "Z2 invariant", L.z2, "for", total, "inversion-odd states")
    need(L.z4 == total // 2 % 4, "Z4 invariant", L.z4, "for", total, "inversion-odd states")
    if j is None:
        return
    if m.dft.spinor:
        need(int(j["number of inversion-odd Kramers pairs"]) == total // 2, "JSON: number of inversion-odd Kramers pairs", j["number of inversion-odd Kramers pairs"], "for", total, "states")
        z = j["Z4"]
        need(int(z[0] if isinstance(z, list) else z) == total // 2 % 4, "JSON: Z4", z)
    else:
        need(int(j["number of inversion-odd states"]) == total, "JSON: number of inversion-odd states", j["number of inversion-odd states"], "instead of", total)


def check_gaps(L, m, j):
    near(L.direct, m.gap_direct, 1e-5, "direct gap on standard output")
    near(L.indirect, m.gap_indirect, 1e-5, "indirect gap on standard output")
    if j is not None:
        near(float(j["Minimal direct gap (eV)"]), m.gap_direct, 1e-5, "direct gap in the JSON file")
        near(float(j["indirect gap (eV)"]), m.gap_indirect, 1e-5, "indirect gap in the JSON file")
    for b, x in zip(L.k, m.k):
        need((b.gap is None) == (x.upper != x.upper), "k-point", x.pos, "gap with upper bands", b.gap, "instead of", x.upper)
        if b.gap is not None:
            near(b.gap, x.upper - x.mean[-1], 1e-5, "gap with upper bands at k-point", x.pos)


def check_irrepsfile(b, js):
    lines = [l for l in b.decode().split("\n") if l.strip()]
    exp = [(float(e), None if ir is None else "".join(ir)) for j in js for e, ir in zip(j["energies_mean"], j["irreps"] or [None] * len(j["energies_mean"]))]
    need(len(lines) == len(exp), "irreps.dat has %d lines for %d levels" % (len(lines), len(exp)))
    for l, (e, ir) in zip(lines, exp):
        x = l.split()
        near(float(x[0]), e, 1e-6, "irreps.dat: energy")
        need(ir is None or "".join(x[1:]) == ir, "irreps.dat: irrep", x[1:], "JSON:", ir)


def check_plot(b, kl, levels, name, tail=False):
    """levels: per k-point the energies of all its states"""
    t = b.decode()
    need(t.startswith("column 1: k, column 2: energy in eV (w.r.t. Fermi level)\n"), name, "has no header")
    blocks = [[[float(y) for y in l.split()] for l in q.strip("\n").split("\n")] for q in t.split("\n", 1)[1].split("\n\n")]
    nb = len(levels[0])
    if tail:
        while len(blocks) > nb and all(p[1] == np.inf for p in blocks[-1]):
            blocks.pop()
    need(len(blocks) == nb, name, "has %d bands instead of %d" % (len(blocks), nb))
    for ib, q in enumerate(blocks):
        need(len(q) == len(kl), name, "band %d has %d points instead of %d" % (ib + 1, len(q), len(kl)))
        near([p[0] for p in q], kl, 1e-4, name, "k of band", ib + 1)
        near([p[1] for p in q], [l[ib] for l in levels], 1e-4, name, "energies of band", ib + 1)


def check_cells(stdout, m, refcell, sgj):
    """structure printed at the beginning"""
    A, shift = refcell
    t = stdout.decode()
    r = re.findall(r"a\d = +(\S+) +(\S+) +(\S+) +\| +a\d = +(\S+) +(\S+) +(\S+)", t)
    need(len(r) >= 3, "no lattice on standard output")
    v = np.array(r[:3], dtype=float)
    near(v[:, :3], m.c.lattice, 1e-4, "lattice on standard output")
    near(v[:, 3:], A.T @ m.c.lattice, 1e-3, "reference lattice on standard output")
    g = re.search(r"Space group: (\S+) \(# (\d+)\)\nNumber of symmetries: (\d+)", t)
    need(g and int(g.group(2)) == m.c.sg and int(g.group(3)) == len(m.c.ops), "space group on standard output:", g and g.groups())
    r = re.findall(r"^ +(\d+) +\| +(\S+) +(\S+) +(\S+) +\| +(\S+) +(\S+) +(\S+)$", t, re.M)
    need(len(r) == len(m.c.typ), "%d atoms on standard output instead of %d" % (len(r), len(m.c.typ)))
    v = np.array(r, dtype=float)
    near(v[:, 0], m.c.typ, 0, "types of atoms on standard output")
    near(v[:, 1:4], m.c.pos, 1e-4, "positions of atoms on standard output")
    d = v[:, 4:] - (m.c.pos - shift) @ np.linalg.inv(A).T
    near(d, np.zeros_like(d), 2e-4, "positions of atoms in the reference cell on standard output")


def check_sg(sg, ops, m, matched, symmetries, refcell):
    need(int(sg["number"]) == m.c.sg, "JSON: space group", sg["number"], "instead of", m.c.sg)
    need(bool(sg["spinor"]) == m.dft.spinor, "JSON: spinor", sg["spinor"])
    need(int(sg["num symmetries"]) == len(m.c.ops), "JSON: number of symmetries", sg["num symmetries"])
    A, shift = refcell
    need(bool(sg["cells match"]) == bool(np.allclose(A, np.eye(3)) and np.allclose(shift, 0)), "JSON: cells match", sg["cells match"])
    exp = sorted(o[0] for o in ops if symmetries is None or o[0] in symmetries)
    need(sorted(int(k) for k in sg["symmetries"]) == exp, "JSON: symmetries", sorted(int(k) for k in sg["symmetries"]), "instead of", exp)
    for ind, R, T, S in ops:
        if ind not in exp:
            continue
        d = sg["symmetries"][str(ind)]
        near(d["rotation matrix"], R, 0, "JSON: rotation of operation", ind)
        near(d["translation"], T, 2e-6, "JSON: translation of operation", ind)
        if matched:
            tab = m.w.table
            near(d["rotation matrix refUC"], tab.R[ind - 1], 0, "JSON: rotation in the reference cell of operation", ind)
            dt = A @ (np.asarray(d["translation refUC"]) - tab.t[ind - 1])
            need(np.abs(dt - np.round(dt)).max() < 1e-4, "JSON: translation in the reference cell of operation", ind, d["translation refUC"], "table:", tab.t[ind - 1])
        L = m.c.lattice
        Rc = L.T @ R @ np.linalg.inv(L).T
        inv = np.linalg.det(Rc) < 0
        need(bool(d["inversion"]) == bool(inv), "JSON: inversion of operation", ind, d["inversion"])
        P = -Rc if inv else Rc
        ang = float(d["angle pi"])
        near(np.cos(np.pi * ang), (np.trace(P) - 1) / 2, 1e-4, "JSON: angle of operation", ind)
        ax = np.asarray(d["axis"], dtype=float)
        if abs(ang) > 1e-3:
            x, y, z = ax
            X = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
            near(np.eye(3) + np.sin(np.pi * ang) * X + (1 - np.cos(np.pi * ang)) * X @ X, P, 1e-4, "JSON: axis and angle of operation", ind)


def check_template(b, m, ops, matched):
    """irreptable-template: a table header with the operations in the reference cell"""
    t = b.decode().split("\n")
    d = {}
    for n, l in enumerate(t):
        if "=" in l:
            k, v = l.split("=", 1)
            d[k.strip()] = v.strip()
            if k.strip() == "symmetries":
                break
    need(int(d.get("SG", 0)) == m.c.sg and int(d.get("nsym", 0)) == len(m.c.ops) and d.get("spinor") == str(bool(m.dft.spinor)), "irreptable-template: header", d)
    rows = [l.split() for l in t[n + 1:] if l.strip()]
    need(len(rows) == len(m.c.ops), "irreptable-template: %d operations" % len(rows))
    if matched:
        for i, r in enumerate(rows):
            near(np.array([float(y) for y in r[:9]]).reshape(3, 3), m.w.table.R[i], 0, "irreptable-template: rotation", i + 1)
            dt = np.linalg.inv(m.c.P) @ 0 if False else np.array([float(y) for y in r[9:12]]) - m.w.table.t[i]
            dt = np.linalg.inv(m.c.P) @ dt
            need(np.abs(dt - np.round(dt)).max() < 1e-3, "irreptable-template: translation", i + 1, r[9:12], m.w.table.t[i])


def check_separated(m, ops, sep, o, J, stdout, out):
    """a separated run: JSON file, standard output and band files"""
    need([int(y) for y in J["separating symmetries"]] == sep, "JSON: separating symmetries", J["separating symmetries"])
    try:
        exp = subspaces(m, ops, sep)
    except Undecided:
        return
    subs = J["characters and irreps"]
    got = []
    for s in subs:
        ks = s["subspace"]["k points"]
        lab = [complex(*y) if isinstance(y, list) else complex(y) for y in s["symmetry eigenvalues"]]
        got.append((lab, [(None, np.repeat(np.asarray(k["energies_mean"]), [int(d) for d in k["dimensions"]])) for k in ks]))
    text = stdout.decode().split("NEXT SUBSPACE:")[1:]
    need(len(text) == len(subs), "standard output lists %d subspaces, the JSON file %d" % (len(text), len(subs)))
    shown = []
    for t, (lab, ks) in zip(text, got):
        first = t.split("\n", 1)[0]
        p = re.findall(r"sym # (\d+) -> eigenvalue (\S+)", first)
        need([int(a) for a, b in p] == sep, "standard output: subspace", first)
        near([complex(b.replace("i", "j")) for a, b in p], lab, 2e-3, "standard output: eigenvalues of a subspace")
        q = re.search(r"Smallest direct gap in the given set of k-points: \S+", t)
        c = Chars(t[:q.end()] if q else t)
        need(len(c.k) == len(ks), "standard output: subspace", first, "with %d k-points, JSON: %d" % (len(c.k), len(ks)))
        shown.append((lab, [(b.k, np.repeat([r[0] for r in b.rows], [r[1] for r in b.rows])) for b in c.k]))
        for b, (_, en) in zip(c.k, ks):
            need(b.n == len(en), "standard output: subspace", first, "number of states", b.n, "JSON:", len(en))
    check_subspaces(exp, shown, m, " on standard output")
    check_subspaces(exp, [(l, [(s[0], k[1]) for s, k in zip(sh[1], ks)]) for (l, ks), sh in zip(got, shown)], m, " in the JSON file")
    if o.has("plotbands") and not (o.has("ZAK") or o.has("WCC")):
        suffix = o.v.get("suffix", "tognuplot")
        files = {}
        for f in out:
            z = re.match(r"bands-%s-(.*)\.dat$" % re.escape(suffix), f)
            if z:
                files[tuple(complex(y.split(":")[1].replace("i", "j")) for y in re.split(r"-(?=\d+:)", z.group(1)))] = f
        need(len(files) == len(exp), "%d band files for %d subspaces" % (len(files), len(exp)))
        for key, e in exp.items():
            f = next((files[y] for y in files if len(y) == len(key) and np.abs(np.array(y) - np.array(key)).max() < 2e-3), None)
            need(f, "no band file for subspace", key)
            ks = [m.k[n] for n in sorted(e)]
            n = max(len(x) for x in e.values())
            lev = [np.append(np.sort(e[i]), [np.inf] * (n - len(e[i]))) for i in sorted(e)]
            mm = K()
            mm.k, mm.c = ks, m.c
            check_plot(out[f], kline(mm), lev, f, tail=True)


def documented(args):
    """outputs a run with these options leaves"""
    o = Options(args)
    s = set()
    if o.has("writesym"):
        s.add(o.v["prefix"] + ".sym")
    if o.has("onlysym"):
        return s
    s |= {"trace.txt", "irreptable-template", "irrep-output.json"}
    if o.has("kpnames"):
        s.add("irreps.dat")
    if o.has("plotbands") and not o.has("ZAK") and not o.has("WCC") and not o.has("isymsep"):
        s.add("bands-%s.dat" % o.v.get("suffix", "tognuplot"))
    return s


def check_symfile(b, m, alat):
    """a .sym file: number of operations, then for each a blank line, the rotation in Cartesian coordinates and minus the translation over alat"""
    l = b.decode().split("\n")
    need(l[0].strip().isdigit(), ".sym file: first line", repr(l[0][:40]))
    n = int(l[0])
    need(n == len(m.c.ops), ".sym file: %d operations instead of %d" % (n, len(m.c.ops)))
    x = [[float(y) for y in z.split()] for z in l[1:] if z.strip()]
    need(len(x) == 4 * n and all(len(y) == 3 for y in x), ".sym file is incomplete: %d lines for %d operations" % (len(x), n))
    L = m.c.lattice
    out = []
    for i in range(n):
        R = np.linalg.inv(L).T @ np.array(x[4 * i:4 * i + 3]) @ L.T
        near(R, np.round(R), 1e-4, ".sym file: rotation %d on the lattice" % (i + 1))
        T = -np.array(x[4 * i + 3]) * alat * BOHR @ np.linalg.inv(L)
        out.append((i + 1, np.round(R).astype(int), T, None))
    m.check_ops(out, False)
    return out


def check_run(world, args, r, m=None):
    """All outputs of a successful run against the reference and against each other."""
    try:
        return _check_run(world, args, r, m)
    except (KeyError, IndexError, ValueError, TypeError, AttributeError, StopIteration) as e:
        import traceback
        t = traceback.extract_tb(e.__traceback__)
        f = [x for x in t if x.filename.endswith("reference.py")]
        raise Bad("an output is malformed: %s: %s (%s, %s)" % (type(e).__name__, str(e)[:120], f[-1].name, (f[-1].line or "")[:80]))


def _check_run(world, args, r, m=None):
    """All outputs of a successful run against the reference and against each other."""
    o = Options(args)
    m = m or Model.of_cli(world, args)
    refcell = ref_cell(world, args, r["stdout"])
    matched = m.names is not None or o.has("searchcell")
    out = r["outputs"]
    missing = documented(args) - set(out)
    need(not missing, "missing outputs:", sorted(missing))
    lists = listings(r["stdout"])
    if o.has("writesym"):
        alat = o.num("alat") or world.default_alat()
        sy = check_symfile(out[o.v["prefix"] + ".sym"], m, alat)
        if matched:
            for ind, R, T, S in sy:
                need(m.which(R, T)[0] == ind - 1, ".sym file: operation", ind, "is not number", ind, "of the tables")
    if o.has("onlysym"):
        check_cells(r["stdout"], m, refcell, None)
        return m
    t = Trace(out["trace.txt"])
    m.check_ops(t.ops, matched)
    J = load_json(out["irrep-output.json"])
    sy = o.ints("symmetries")
    check_sg(J["spacegroup"], t.ops, m, matched, sy, refcell)
    check_cells(r["stdout"], m, refcell, J["spacegroup"])
    check_template(out["irreptable-template"], m, t.ops, matched)
    sep = o.ints("isymsep")
    need(bool(J["separated by symmetry"]) == (sep is not None), "JSON: separated by symmetry", J["separated by symmetry"])
    need(lists, "no characters on standard output")
    L = lists[0]
    m.decided = 0
    for what in ("ZAK", "WCC"):
        if o.has(what):
            m.decided += check_loops(m, t.ops, sep, r["stdout"], what)
            break
    if sep is None:
        need(len(J["characters and irreps"]) == 1, "JSON: %d sets of states" % len(J["characters and irreps"]))
        sub = J["characters and irreps"][0]["subspace"]
    else:
        sub = None
        check_separated(m, t.ops, sep, o, J, r["stdout"], out)
        check_trace_consistent(t, None, m)
        check_gaps(L, m, None)
        check_inversion(L, m, t, None)
        if m.names is not None:
            check_irrepsfile(out["irreps.dat"], [{"energies_mean": x.mean, "irreps": None} for x in m.k])
        return m
    if sub is not None:
        js = sub["k points"]
        need(len(js) == len(m.k), "JSON: %d k-points instead of %d" % (len(js), len(m.k)))
        for x, j in zip(m.k, js):
            check_json_kpoint(m, x, j, t.ops, m.names, matched)
        if matched:
            check_frame(m, m.k, js, t.ops, refcell, m.names)
        near(sub["kpoints line"], kline(m), 1e-5, "JSON: kpoints line")
        for j, y in zip(js, kline(m)):
            near(float(j["kp in line"]), y, 1e-5, "JSON: kp in line")
            need((j["irreps"] is None) == (m.names is None), "JSON: irreps", j["irreps"])
        check_trace_consistent(t, js, m)
        check_listing_consistent(L, js, m, m.names is not None)
        check_inversion(L, m, t, sub)
        check_gaps(L, m, sub)
        if m.names is not None:
            check_irrepsfile(out["irreps.dat"], js)
        if o.has("plotbands") and not (o.has("ZAK") or o.has("WCC")):
            check_plot(out["bands-%s.dat" % o.v.get("suffix", "tognuplot")], kline(m), [np.repeat(x.mean, x.deg) for x in m.k], "bands file")
    return m
