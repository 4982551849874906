"""Search driver: seeded cases over simulated worlds, executed on hosts, minimised, replayed.

A property module (props/<ID>.py) provides
  ID, LEVEL, TECH, RULE, SPACE (text for the evidence)
  groups(rng, tier)            list of JSON-able group descriptions
  cases(ctx, group, rng, tier) yields JSON-able, self-contained cases
  execute(ctx, case)           Outcome; a pure function of the case and the code
  shrink(case)                 yields simpler cases (optional)
"""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import queue
import random
import shutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "props"))

import numpy as np  # noqa: E402
import crystal as cr  # noqa: E402
import kernel  # noqa: E402
import producer  # noqa: E402
from kernel import HarnessError, ImportFailed, same, same_outputs  # noqa: E402,F401

QUICK_WALL = float(os.environ.get("SIM_WALL", "60"))
SURVEY = bool(os.environ.get("SIM_SURVEY"))
THOROUGH_WALL = float(os.environ.get("SIM_WALL", "700"))


def digest(x):
    return hashlib.sha256(pickle.dumps(x, protocol=4)).hexdigest()[:16]


class Outcome:
    """what: None, or the violation in one line.  cls: class of the violation (kept while
    shrinking).  sig: signature of the execution (distinctness).  live: non-trivial."""

    def __init__(self, what=None, cls=None, sig="", live=True, faults=(), note=None):
        self.what, self.cls, self.sig, self.live, self.faults, self.note = what, cls or (what and "violation"), sig, live, list(faults), note


# ---- worlds ----------------------------------------------------------------
CURATED = json.load(open(os.path.join(HERE, "curated.json")))   # [[sg, crystal seed, spinor, wall, npw, nops], ...]
_small = None


def pick_crystal(rng, spin=None, max_ops=None, min_ops=None, sgs=None, maxcost=None):
    c = [x for x in CURATED if (spin is None or x[2] == spin) and (max_ops is None or x[5] <= max_ops)
         and (min_ops is None or x[5] >= min_ops) and (sgs is None or x[0] in sgs)]
    # uniform over space groups first
    sg = rng.choice(sorted(set(x[0] for x in c)))
    x = rng.choice([y for y in c if y[0] == sg])
    return x[0], x[1], bool(x[2])


class World:
    """spec: sg, cs (crystal seed), spin, ds (DFT seed), kp (names or vectors), code, gs (gauge seed),
    w (writer options), nb"""
    _crystals = collections.OrderedDict()
    _dfts = collections.OrderedDict()

    def __init__(self, spec):
        self.spec = spec
        self.cryst = self.crystal(spec["sg"], spec["cs"], spec.get("mv"))
        self.dft = self.solve(spec, self.cryst)
        self.table = cr.Table(spec["sg"], spec["spin"])
        self.gauge = self.dft.gauge(spec.get("gs", 0))
        self.code = spec["code"]
        rs = np.random.RandomState(spec["os"]) if spec.get("os") is not None else None
        w = self.writer_args(spec)
        if spec.get("dw"):
            # spin-polarised run: a second channel with states of its own
            self.dft_dw = self.solve(dict(spec, ds=spec["dw"]["ds"]), self.cryst)
            self.gauge_dw = self.dft_dw.gauge(spec.get("gs", 0) + 1)
            w["spinpol"] = (self.dft_dw, self.gauge_dw, spec["dw"].get("nb") or self.dft_dw.nb)
        self.files = dict(producer.WRITERS[self.code](self.dft, self.gauge, rs=rs, **w))
        for a, b in spec.get("rename", {}).items():
            self.files[b] = self.files.pop(a)
        self.files.update({k: v.encode() for k, v in spec.get("extra_files", {}).items()})

    @staticmethod
    def writer_args(spec):
        w = dict(spec.get("w", {}))
        if "pad" in w:
            w["pad"] = bytes([w["pad"]])
        return w

    @classmethod
    def crystal(cls, sg, cs, mv=None):
        k = (sg, cs, mv)
        if k not in cls._crystals:
            c = cls._crystals.get((sg, cs, None)) or cr.Crystal(sg, cs)
            cls._crystals[k] = c if mv is None else c.moved(mv)
            while len(cls._crystals) > 12:
                cls._crystals.popitem(last=False)
        return cls._crystals[k]

    @classmethod
    def solve(cls, spec, c):
        key = json.dumps([spec[x] for x in ("sg", "cs", "spin", "ds", "kp")] + [spec.get("dft", {}), spec.get("kshift"), spec.get("mv")])
        if key not in cls._dfts:
            ks = [c.k_of(k) if isinstance(k, str) else np.array(k, dtype=float) for k in spec["kp"]]
            if spec.get("kshift"):
                ks = [k + np.array(g) for k, g in zip(ks, spec["kshift"])]
            cls._dfts[key] = cr.DFT(c, ks, spec["spin"], spec["ds"], **spec.get("dft", {}))
            while len(cls._dfts) > 12:
                cls._dfts.popitem(last=False)
        return cls._dfts[key]

    def setting_ok(self):
        """does spglib's standard cell of this crystal coincide with that of the tables as we set it up?"""
        if not hasattr(self.cryst, "_ok"):
            import spglib
            d = spglib.get_symmetry_dataset((self.cryst.lattice, self.cryst.pos, self.cryst.typ))
            self.cryst._ok = bool(np.allclose(d.transformation_matrix, self.cryst.P, atol=1e-6))
        return self.cryst._ok

    def ref_args(self):
        """the reference cell of the tables, for the command line"""
        a = ["-refUC=" + ",".join("%.10g" % x for x in np.linalg.inv(self.cryst.P).T.reshape(-1))]
        if np.any(self.cryst.shift):
            a.append("-shiftUC=" + ",".join("%.12f" % x for x in self.cryst.shift))
        return a

    def args(self, *extra):
        a = producer.args_for(self.code, self.dft, self.spec.get("w", {}).get("prefix", "sim"))
        for old, new in self.spec.get("rename", {}).items():
            f = {"POSCAR": "-fPOS=", "WAVECAR": "-fWAV=", "sim_WFK": "-fWFK="}[old]
            a = [x for x in a if not x.startswith(f)] + [f + new]
        return a + list(extra)

    def default_alat(self):
        """lattice parameter (in bohr) used for .sym files when none is given"""
        return np.linalg.norm(self.cryst.lattice[0]) / cr.BOHR if self.code == "espresso" else 1.0

    def kpnames(self):
        return "-kpnames=" + ",".join(self.spec["kp"])


def make_spec(rng, code, spin=None, nk=2, max_ops=8, min_ops=None, sgs=None, kp=None, tries=60, moved=True, **kw):
    """A seeded, buildable world specification."""
    for _ in range(tries):
        sg, cs, sp = pick_crystal(rng, spin, max_ops, min_ops, sgs)
        names = list(cr.Table(sg, sp).kpts)
        n = min(len(names), nk)
        spec = {"sg": sg, "cs": cs, "spin": sp, "ds": rng.randrange(10 ** 6), "gs": rng.randrange(10 ** 6), "code": code,
                "kp": kp or rng.sample(names, n), "os": rng.randrange(10 ** 6)}
        if moved and rng.random() < .4:
            spec["mv"] = rng.randrange(10 ** 6)
        spec.update(kw)
        try:
            World.solve(spec, World.crystal(sg, cs, spec.get("mv")))
        except cr.Retry:
            continue
        return spec
    raise HarnessError("no world for %s" % code)


# ---- execution context ------------------------------------------------------
class Ctx:
    def __init__(self):
        kernel.build_shim()
        self.base = kernel.scratch_base()
        self.hosts = {}
        self.runs = 0
        self.vtime = 0
        self.worlds = collections.OrderedDict()
        self.memo = collections.OrderedDict()
        self.counts = collections.Counter()

    def host(self, key=(0, None)):
        if key not in self.hosts:
            h = kernel.Host(self.base, len(self.hosts), key[0], perturb=key[1], extra=key[2] if len(key) > 2 else ())
            try:
                h.start()
            except HarnessError as e:
                raise ImportFailed(str(e))
            self.hosts[key] = h
        return self.hosts[key]

    def run(self, host=(0, None), **job):
        job.setdefault("kind", "cli")
        host = tuple(tuple(tuple(y) for y in x) if isinstance(x, (list, tuple)) else x for x in host)
        r = self.host(host).run(job)
        self.runs += 1
        self.vtime += r["vtime_ns"]
        for f in r["fired"]:
            self.counts["%s on %s%s" % (f[3], f[1], " errno %d" % f[4] if f[4] else "")] += 1
        return r

    def world(self, spec):
        k = json.dumps(spec, sort_keys=True)
        if k not in self.worlds:
            self.worlds[k] = World(spec)
            while len(self.worlds) > 6:
                self.worlds.popitem(last=False)
        return self.worlds[k]

    def once(self, key, fn):
        """memoise a fault-free reference run"""
        k = json.dumps(key, sort_keys=True)
        if k not in self.memo:
            self.memo[k] = fn()
            while len(self.memo) > 12:
                self.memo.popitem(last=False)
        return self.memo[k]

    def clean(self, spec, args, **kw):
        w = self.world(spec)
        return self.once(["clean", spec, args, kw], lambda: self.run(files=w.files, args=args, events=True, **kw))

    def close(self):
        for h in self.hosts.values():
            h.stop()
        shutil.rmtree(self.base, ignore_errors=True)


def tail(b, n=200):
    s = b.decode("utf8", "replace").strip()
    return s[-n:].replace("\n", " | ")


# ---- search -----------------------------------------------------------------
def executor(modname, tier, seed, tasks, results, stop, deadline):
    try:
        import signal
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        mod = importlib.import_module(modname)
        ctx = Ctx()
        try:
            while not stop.is_set() and time.time() < deadline:
                try:
                    gi, group = tasks.get(timeout=0.5)
                except queue.Empty:
                    break
                rng = random.Random("%s/%d/%s/%d" % (mod.ID, seed, tier, gi))
                gen = mod.cases(ctx, group, rng, tier)
                n = 0
                agg = {"n": 0, "live": 0, "sigs": set(), "faults": collections.Counter(), "samples": [], "group": gi, "viol": []}
                while not stop.is_set():
                    if time.time() > deadline:
                        agg["cut"] = True
                        break
                    try:
                        case = next(gen)
                    except StopIteration:
                        break
                    except (HarnessError, ImportFailed, cr.Retry, MemoryError):
                        raise
                    except Exception:
                        case = {"generate": [gi, group, seed, tier]}
                    o = run_case(mod, ctx, case)
                    n += 1
                    agg["n"] += 1
                    if o.live:
                        agg["live"] += 1
                        agg["sigs"].add(digest(o.sig))
                    for f in o.faults:
                        agg["faults"][f] += 1
                    if n in (1, 7) and len(agg["samples"]) < 2:
                        agg["samples"].append({"case": case, "outcome": o.note or o.what or "held"})
                    if o.what:
                        agg["viol"].append((case, o.what, o.cls))
                        if not SURVEY and len(agg["viol"]) >= 3:
                            break
                results.put(("group", agg))
            results.put(("done", {"runs": ctx.runs, "vtime": ctx.vtime, "counts": ctx.counts}))
        finally:
            ctx.close()
    except ImportFailed as e:
        results.put(("error", "the code under test does not import: " + str(e)))
    except BaseException:
        results.put(("error", traceback.format_exc()))


def run_case(mod, ctx, case):
    """execute a case; results the oracle cannot even interpret are a violation as well"""
    if "generate" in case:
        # preparing the cases of this group fails on results of the code under test
        gi, group, seed, tier = case["generate"]
        try:
            for _ in mod.cases(ctx, group, random.Random("%s/%d/%s/%d" % (mod.ID, seed, tier, gi)), tier):
                pass
        except (HarnessError, ImportFailed, cr.Retry, MemoryError):
            raise
        except Exception as e:
            return unreadable(e)
        return Outcome(live=False)
    try:
        return mod.execute(ctx, case)
    except (HarnessError, ImportFailed, cr.Retry, MemoryError):
        raise
    except Exception as e:
        return unreadable(e)


def unreadable(e):
    t = traceback.extract_tb(e.__traceback__)[-1]
    return Outcome("the results cannot be interpreted: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], os.path.basename(t.filename), t.lineno), "unreadable", ("unreadable", str(e)[:80]))


def minimise(mod, ctx, case, cls, budget=60, wall=60):
    end = time.time() + wall
    best = case
    if not hasattr(mod, "shrink") or "generate" in case:
        return best
    progress = True
    while progress and budget > 0 and time.time() < end:
        progress = False
        for c in mod.shrink(best):
            if budget <= 0 or time.time() > end:
                break
            budget -= 1
            try:
                o = run_case(mod, ctx, c)
            except (HarnessError, cr.Retry):
                continue
            if o.what and o.cls == cls:
                best, progress = c, True
                break
    return best


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, bytes):
        return "<%d bytes>" % len(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    return x


def known_findings(pid):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid]


def finding_of(findings, case, what, cls):
    for f in findings:
        m = f["match"]
        if m.get("cls") == cls and all(s in what for s in m.get("what", [])) and \
                all(json.dumps(v) == json.dumps(case.get(k)) for k, v in m.get("case", {}).items()):
            return f
    return None


def main(pid, tier, seed, replay=None):
    t0 = time.time()
    mod = importlib.import_module(pid)
    kernel.build_shim()
    if replay:
        r = json.load(open(replay))
        ctx = Ctx()
        try:
            o = run_case(mod, ctx, r["case"])
        finally:
            ctx.close()
        if o.what:
            print("replayed: " + o.what)
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        print("replay of %s: the property holds" % replay)
        return 0
    wall = QUICK_WALL if tier == "quick" else THOROUGH_WALL
    wall = getattr(mod, "WALL", {}).get(tier, wall)
    rng = random.Random("%s/%d/%s" % (pid, seed, tier))
    print("property %s tier %s VERIF_SEED=%d" % (pid, tier, seed), flush=True)
    findings = known_findings(pid)
    hit = {}
    tasks, results, stop = mp.Queue(), mp.Queue(), mp.Event()
    groups = list(mod.groups(rng, tier))
    for i, g in enumerate(groups):
        tasks.put((i, g))
    n = max(1, min(8, len(os.sched_getaffinity(0))))
    deadline = t0 + wall
    procs = [mp.Process(target=executor, args=(pid, tier, seed, tasks, results, stop, deadline), daemon=True) for _ in range(n)]
    [p.start() for p in procs]
    tot = {"n": 0, "live": 0, "groups": 0, "cut": 0}
    sigs, faults, counts, samples, viols = set(), collections.Counter(), collections.Counter(), [], []
    runs = vtime = 0
    alive, err = n, None
    hard = deadline + 120
    while alive and not err:
        try:
            kind, x = results.get(timeout=2)
        except queue.Empty:
            if time.time() > hard:
                err = "executors did not finish"
            elif not any(p.is_alive() for p in procs) and results.empty():
                err = "executors died"
            continue
        if kind == "error":
            err = x
        elif kind == "done":
            alive -= 1
            runs += x["runs"]
            vtime += x["vtime"]
            counts.update(x["counts"])
        else:
            tot["n"] += x["n"]
            tot["live"] += x["live"]
            tot["groups"] += 1
            tot["cut"] += bool(x.get("cut"))
            sigs |= x["sigs"]
            faults.update(x["faults"])
            samples += x["samples"]
            for case, what, cls in x["viol"]:
                f = finding_of(findings, case, what, cls)
                if f:
                    hit[f["id"]] = f
                else:
                    viols.append((x["group"], case, what, cls))
                    if not SURVEY:
                        stop.set()
    for p in procs:
        p.join(20) if not err else p.terminate()
    if err:
        print("CHECK ERROR: " + err)
        return 2
    search_wall = time.time() - t0
    if SURVEY:
        seen = collections.OrderedDict()
        for g, case, what, cls in viols:
            key = (cls, "".join(ch for ch in what[:140] if not ch.isdigit()))
            seen.setdefault(key, []).append((what, case))
        for (cls, _), v in sorted(seen.items(), key=lambda kv: -len(kv[1]))[:25]:
            print("[%d x %s] %s" % (len(v), cls, v[0][0][:420]))
            json.dump(jsonable({"property": pid, "case": v[0][1]}), open("/tmp/survey-%s-%s.json" % (pid, digest(v[0][0])[:6]), "w"))
            print("      /tmp/survey-%s-%s.json" % (pid, digest(v[0][0])[:6]))
        print("%d cases, %d violations, %d distinct non-trivial, %d processes, %d groups (%d cut), %.0f s" % (tot["n"], len(viols), len(sigs), runs, tot["groups"], tot["cut"], search_wall))
        return 3
    rc, replay_path = 0, None
    if viols:
        viols.sort(key=lambda v: v[0])
        ctx = Ctx()
        try:
            g, case, what, cls = viols[0]
            case = minimise(mod, ctx, case, cls)
            o = run_case(mod, ctx, case)
        finally:
            ctx.close()
        ctx = Ctx()      # fresh hosts
        try:
            o2 = run_case(mod, ctx, case)
        finally:
            ctx.close()
        if not o.what or not o2.what:
            # not reproduced: report the unminimised case if that one is stable
            case = viols[0][1]
            ctx = Ctx()
            try:
                o, o2 = run_case(mod, ctx, case), run_case(mod, ctx, case)
            finally:
                ctx.close()
            if not (o.what and o2.what):
                print("CHECK ERROR: a violation did not replay: " + what)
                json.dump(jsonable({"property": pid, "what": what, "case": viols[0][1]}), sys.stdout)
                return 2
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay_path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, digest(json.dumps(case, sort_keys=True))))
        json.dump(jsonable({"property": pid, "seed": seed, "tier": tier, "what": o.what, "class": o.cls, "case": case}), open(replay_path, "w"), indent=1)
        rc = 1
    h = max(search_wall, 1e-3) / 3600
    cov = {"evaluations": tot["n"], "distinct_nontrivial": len(sigs), "rule": mod.RULE, "samples": jsonable(samples[:6]),
           "non_trivial_evaluations": tot["live"], "simulated_processes": runs, "worlds": tot["groups"], "worlds_cut_short_by_the_wall_limit": tot["cut"],
           "worlds_not_started": len(groups) - tot["groups"], "simulated_processes_per_hour": round(runs / h), "seeds_per_hour": round(tot["n"] / h),
           "simulated_time_s": vtime / 1e9, "faults_fired_by_kind": dict(counts), "adversary_actions": dict(faults),
           "interleaving_measure": getattr(mod, "MEASURE", "digest of the execution signature: where in the event sequence the adversary acted, on which file and operation, and how the run ended"),
           "real_code": getattr(mod, "REAL", "all of irrep and irreptables from /repo, numpy/scipy/spglib, CPython and its real shutdown, glibc stdio"),
           "stubs": getattr(mod, "STUB", "the DFT codes (a small plane-wave solver writes their files); the kernel's file calls below the LD_PRELOAD seam when a fault fires; entropy and clocks")}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(jsonable(ev), open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for f in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, f["description"]))
    print("%d cases, %d distinct non-trivial, %d simulated processes, %.0f s" % (tot["n"], len(sigs), runs, time.time() - t0))
    if rc:
        print("violated: " + o.what)
        print("VIOLATION property=%s replay=%s" % (pid, replay_path))
    elif tot["n"] == 0:
        print("CHECK ERROR: nothing was explored")
        return 2
    return rc
