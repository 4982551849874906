"""In-process use of irrep: programs of API calls, run inside a simulated process.

A program is a list of steps; every step leaves a plain-data result:
  ["new", name, kwargs]            BandStructure(**kwargs)
  ["ident", name, kpnames]         identify_irreps
  ["sep", name, isym, kwargs]      Separate; the parts are called name/0, name/1, ...
  ["dump", name]                   everything a user can read from the object
  ["json", name] ["trace", name] ["irreps", name] ["plot", name, file] ["chars", name] ["show", name] ["sym", name, file, alat]
  ["wcc", name] ["zak", name] ["unfold", name, ik, supercell, kpt, options] ["rho", name, ik, options] ["line", name, options]
  ["sg", name, {lattice, positions, types, spinor, options}, [[k-point name, k], ...]]   SpaceGroup and irreps from the tables
  ["drop", name]
  ["cd", directory]                go there (from the top)
  ["put", directory]               replace the files in the current directory by those of another (of the top)
"""
import contextlib
import copy
import gc
import io
import locale
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np


def plain(x):
    """plain data, independent of the object it came from"""
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {(k if isinstance(k, (str, int)) else complex(k) if isinstance(k, (complex, np.complexfloating)) else float(k)): plain(v) for k, v in x.items()}
    if isinstance(x, np.generic):
        return x.item()
    return x


def dump_kpoint(kp):
    d = {n: plain(getattr(kp, n)) for n in ("ik0", "num_bands", "upper", "k", "K", "Energy_raw", "k_refUC", "borders", "degeneracies", "spinor") if hasattr(kp, n)}
    for n in ("Energy_mean", "char", "char_refUC", "irreps", "num_bandinvs"):
        if hasattr(kp, n):
            d[n] = plain(getattr(kp, n))
    d["inds"] = [s.ind for s in kp.little_group]
    d["NG"] = kp.NG
    d["ig"] = np.array(kp.ig[:3])
    d["WF"] = None if kp.WF is None else np.array(kp.WF)
    return d


def dump(bs):
    sg = bs.spacegroup
    d = {"spinor": bs.spinor, "Lattice": np.array(bs.Lattice), "number": sg.number, "name": sg.name, "order": sg.order, "refUC": np.array(sg.refUC), "shiftUC": np.array(sg.shiftUC),
         "ops": [(s.ind, np.array(s.rotation), np.array(s.translation), np.array(s.spinor_rotation), plain(s.sign)) for s in sg.symmetries]}
    if hasattr(bs, "kpoints"):
        d.update(RecLattice=np.array(bs.RecLattice), efermi=plain(bs.efermi), Ecut=plain(bs.Ecut), Ecut0=plain(bs.Ecut0), num_k=bs.num_k,
                 kpoints=[dump_kpoint(k) for k in bs.kpoints])
        if d["kpoints"] and "Energy_mean" in d["kpoints"][0]:
            d.update(gap_direct=plain(bs.gap_direct), gap_indirect=plain(bs.gap_indirect), num_bandinvs=plain(bs.num_bandinvs))
    return d


def snapshot_globals():
    """process-wide state an API call has no business changing.  Filters for warnings of libraries do not count: a
    library sets some when it is imported, and scipy's own use of catch_warnings in callbacks does not nest in threads."""
    return {"cwd": os.getcwd(), "environ": dict(os.environ), "printoptions": repr(np.get_printoptions()), "numpy random state": repr([x.tobytes() if hasattr(x, "tobytes") else x for x in np.random.get_state()]),
            "random state": hash(random.getstate()), "warning filters": [repr(f) for f in warnings.filters if f[2].__module__ == "builtins"], "numpy error state": repr(np.geterr()),
            "signal handlers": repr([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE)]), "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
            "sys.path": list(sys.path), "sys.argv": list(sys.argv), "locale": locale.setlocale(locale.LC_ALL), "recursion limit": sys.getrecursionlimit(),
            "umask": _umask(), "threads": threading.active_count(), "trace function": repr(sys.gettrace())}


def _umask():
    u = os.umask(0)
    os.umask(u)
    return u


def changed(a, b):
    return [k for k in a if a[k] != b[k]]


class Machine:
    """Objects of one program."""

    def __init__(self, capture, check=True):
        self.o, self.capture, self.check, self.top = {}, capture, check, os.getcwd()

    def step(self, s):
        from irrep.bandstructure import BandStructure
        op = s[0]
        if op == "new":
            kw = dict(s[2])
            for k in ("refUC", "shiftUC"):
                if kw.get(k) is not None:
                    kw[k] = np.array(kw[k], dtype=float)
            if kw.pop("kparray", False):
                kw["kplist"] = np.array(kw["kplist"])
            before = copy.deepcopy(kw)
            self.o[s[1]] = BandStructure(**kw)
            return None, self.args_changed(before, kw)
        if op == "cd":
            os.chdir(os.path.join(self.top, s[1]))
            return None, None
        if op == "put":
            for f in os.listdir("."):
                os.unlink(f)
            for f in os.listdir(os.path.join(self.top, s[1])):
                with open(os.path.join(self.top, s[1], f), "rb") as x, open(f, "wb") as y:
                    y.write(x.read())
            return None, None
        if op == "sg":
            return self.sg(s[2], s[3])
        b = self.o[s[1]]
        if op == "ident":
            kp = None if s[2] is None else list(s[2])
            r = b.identify_irreps(kp)
            return None, None if kp == s[2] or s[2] is None else "kpnames"
        if op == "sep":
            parts = b.Separate(s[2], **s[3])
            for i, k in enumerate(parts):
                self.o["%s/%d" % (s[4] if len(s) > 4 else s[1], i)] = parts[k]
            return plain(list(parts)), None
        if op == "dump":
            return dump(b), None
        if op == "json":
            return plain(b.json()), None
        if op == "sgjson":
            return plain(b.spacegroup.json()), None
        if op == "trace":
            return plain(b.write_trace()), None
        if op == "irreps":
            return plain(b.write_irrepsfile()), None
        if op == "plot":
            return plain(b.write_plotfile(s[2])), None
        if op == "chars":
            return plain(b.write_characters()), None
        if op == "show":
            return plain(b.spacegroup.show()), None
        if op == "sym":
            return plain(b.spacegroup.write_sym_file(s[2], alat=s[3])), None
        if op == "wcc":
            return plain(b.wcc()), None
        if op == "zak":
            return plain(b.zakphase()), None
        if op == "line":
            kw = {k: np.array(v, dtype=float) if isinstance(v, list) else v for k, v in (s[2] if len(s) > 2 else {}).items()}
            before = copy.deepcopy(kw)
            return plain(b.KPOINTSline(**kw)), self.args_changed(before, kw)
        if op == "rho":
            return plain(b.kpoints[s[2]].get_rho_spin(**s[3])), None
        if op == "unfold":
            sc, k = np.array(s[3], dtype=float), np.array(s[4], dtype=float)
            before = copy.deepcopy((sc, k))
            r = plain(b.kpoints[s[2]].unfold(sc, k, **(s[5] if len(s) > 5 else {})))
            return r, None if all(np.array_equal(x, y) for x, y in zip(before, (sc, k))) else "supercell or kptPBZ"
        if op == "drop":
            del self.o[s[1]]
            return None, None
        raise ValueError(op)

    def sg(self, p, ks):
        from irrep.spacegroup import SpaceGroup
        cell = (np.array(p["lattice"]), np.array(p["positions"]), np.array(p["types"]) if p.get("array") else list(p["types"]))
        kw = {k: np.array(v, dtype=float) if isinstance(v, list) else v for k, v in p["options"].items()}
        before = copy.deepcopy((cell, kw))
        sg = SpaceGroup(cell=cell, spinor=p["spinor"], **kw)
        d = {"number": sg.number, "name": sg.name, "order": sg.order, "spinor": sg.spinor, "refUC": plain(sg.refUC), "shiftUC": plain(sg.shiftUC),
             "Lattice": plain(sg.Lattice), "positions": plain(sg.positions), "typat": plain(sg.typat),
             "ops": [(s.ind, plain(s.rotation), plain(s.translation), plain(s.spinor_rotation), plain(s.sign)) for s in sg.symmetries], "irreps": []}
        for name, k in ks:
            k = np.array(k, dtype=float)
            k0 = k.copy()
            try:
                d["irreps"].append(plain(sg.get_irreps_from_table(name, k)))
            except RuntimeError as e:
                d["irreps"].append("RuntimeError: " + str(e)[:200])
            if not np.array_equal(k, k0):
                return d, "k-point"
        if p.get("report"):
            d["json"], d["str"], d["trace"] = plain(sg.json(p["report"])), sg.str(), sg.write_trace()
            sg.show(p["report"])
        same = all(type(a) is type(b) and np.array_equal(a, b) for a, b in zip(before[0], cell))
        return d, self.args_changed(before[1], kw) if same else "cell"

    @staticmethod
    def args_changed(a, b):
        for k in a:
            if type(a[k]) is not type(b[k]) or not (np.array_equal(a[k], b[k]) if isinstance(a[k], np.ndarray) else a[k] == b[k]):
                return k
        return None

    def run(self, steps, out):
        for s in steps:
            rec = {"step": s[0]}
            out.append(rec)
            try:
                if self.capture:
                    text = io.StringIO()
                    with contextlib.redirect_stdout(text):
                        rec["value"], rec["args"] = self.step(s)
                    rec["text"] = text.getvalue()
                    continue
                rec["value"], rec["args"] = self.step(s)
            except Exception as e:
                rec["exc"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        return out


def program(steps, check_globals=True):
    """One thread, one history.  Standard output goes to the simulated process's stdout."""
    m = Machine(capture=False)
    out = []
    if not check_globals:
        return m.run(steps, out)
    for s in steps:
        g = snapshot_globals()
        m.run([s], out)
        sys.stdout.flush()
        d = changed(g, snapshot_globals())
        if d:
            out[-1]["globals"] = d
    return out


def series(steps):
    """Several programs one after the other or interleaved, in directories of their own; what every step prints is a result."""
    return Machine(capture=True).run(steps, [])


class Baton:
    """Exactly one thread runs at a time; at every source line of irrep or irreptables a seeded
    choice decides whether the baton passes on.  One seed is one interleaving."""

    def __init__(self, n, seed, density, dirs, fail=None):
        self.fail = fail          # (thread, line of it at which an allocation fails)
        self.own = [0] * n
        self.failed = False
        self.n, self.rng, self.density, self.dirs = n, random.Random(seed), density, dirs
        self.cv = threading.Condition()
        self.turn = 0
        self.live = set(range(n))
        self.ids = {}
        self.cache = {}
        self.switches = 0
        self.lines = 0
        self.log = 0
        self.burst = 0

    def me(self):
        return self.ids.get(threading.get_ident())

    def wait(self, i):
        with self.cv:
            while self.turn != i:
                self.cv.wait()

    def pick(self, i):
        others = sorted(self.live - {i})
        if others:
            self.turn = self.rng.choice(others)
            self.switches += 1
            self.log = (self.log * 1000003 + self.turn * 7919 + self.lines) & (2 ** 61 - 1)
            self.cv.notify_all()

    def line(self, code, line):
        c = self.cache.get(code)
        if c is None:
            f = os.path.realpath(code.co_filename)
            c = self.cache[code] = f.startswith(self.dirs)
        if not c:
            return sys.monitoring.DISABLE
        i = self.me()
        if i is None:
            return
        self.lines += 1
        self.own[i] += 1
        if self.fail and self.fail[0] == i and self.own[i] == self.fail[1]:
            self.failed = True
            raise MemoryError("injected")
        if self.burst > 0:
            self.burst -= 1
            return
        if self.rng.random() < self.density:
            # a switch, sometimes followed by a long uninterrupted stretch (stalled thread)
            self.burst = self.rng.choice([0, 0, 0, 5, 300])
            with self.cv:
                self.pick(i)
            self.wait(i)

    def done(self, i):
        with self.cv:
            self.live.discard(i)
            if self.live:
                self.turn = self.rng.choice(sorted(self.live))
                self.cv.notify_all()


def threads(programs, seed, density, fail=None):
    """Several programs, each in its own thread, interleaved at source lines.  Text they print goes to one
    common stream, so it is not compared; files are written under names of their own."""
    import irrep
    import irreptables
    dirs = tuple(os.path.dirname(os.path.realpath(m.__file__)) + "/" for m in (irrep, irreptables))
    b = Baton(len(programs), seed, density, dirs, fail)
    outs = [[] for _ in programs]
    before = snapshot_globals()
    sys.setswitchinterval(1000)

    def body(i):
        with b.cv:
            b.ids[threading.get_ident()] = i
            b.cv.notify_all()
        b.wait(i)
        try:
            Machine(capture=False).run(programs[i], outs[i])
        finally:
            b.done(i)
    ts = [threading.Thread(target=body, args=(i,)) for i in range(len(programs))]
    mon = sys.monitoring
    mon.use_tool_id(4, "baton")
    mon.register_callback(4, mon.events.LINE, b.line)
    mon.set_events(4, mon.events.LINE)
    b.turn = -1
    for t in ts:
        t.start()
    # no timed waits: the clock is simulated
    with b.cv:
        while len(b.ids) < len(ts):
            b.cv.wait()
        b.turn = b.rng.randrange(len(ts))
        b.cv.notify_all()
    for t in ts:
        t.join()
    mon.set_events(4, 0)
    mon.free_tool_id(4)
    sys.stdout.flush()
    return {"outs": outs, "failed": b.failed, "own": b.own, "switches": b.switches, "lines": b.lines, "digest": b.log, "globals": changed(before, snapshot_globals())}
