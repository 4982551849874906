"""Pool of simulated-process hosts, and the run / compare primitives."""
import atexit
import os
import pickle
import queue
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
PY = sys.executable
LIB = os.path.join(VERIF, "build", "libsim.so")


def build_shim():
    src = os.path.join(HERE, "shim.c")
    if os.path.exists(LIB) and os.path.getmtime(LIB) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(LIB), exist_ok=True)
    tmp = LIB + ".%d" % os.getpid()
    subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-w", "-o", tmp, src, "-ldl"], check=True)
    os.rename(tmp, LIB)


class HarnessError(Exception):
    pass


def scratch_base():
    for d in ("/dev/shm", tempfile.gettempdir()):
        try:
            return tempfile.mkdtemp(prefix="irsim", dir=d)
        except OSError:
            continue
    raise HarnessError("no scratch directory")


class Host:
    def __init__(self, base, idx, hashseed, perturb=None, extra=()):
        self.dir = os.path.join(base, "%02d" % idx)
        os.makedirs(self.dir)
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.dir, "LANG": "C.UTF-8",
               "PYTHONPATH": REPO + "/irreptables:" + REPO, "PYTHONHASHSEED": str(hashseed),
               "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
               **dict(extra), "LD_PRELOAD": LIB, "SIM_LIB": LIB, "SIM_SCRATCH": self.dir, "SIM_REPO": REPO}
        if perturb is not None:
            env["MALLOC_PERTURB_"] = str(perturb)
        self.p = subprocess.Popen([PY, "-B", os.path.join(HERE, "worker.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=open(os.path.join(self.dir, "host.err"), "wb"), env=env, cwd=self.dir)
        self.hello = None

    def read(self):
        h = self.p.stdout.read(8)
        if len(h) < 8:
            err = open(os.path.join(self.dir, "host.err"), "rb").read()[-3000:].decode("utf8", "replace")
            raise HarnessError("host died: " + err)
        n = struct.unpack("<q", h)[0]
        return pickle.loads(self.p.stdout.read(n))

    def start(self):
        self.hello = self.read()

    def run(self, job):
        b = pickle.dumps(job, protocol=4)
        self.p.stdin.write(struct.pack("<q", len(b)) + b)
        self.p.stdin.flush()
        r = self.read()
        if "harness_error" in r:
            raise HarnessError(r["harness_error"])
        return r

    def stop(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


class ImportFailed(Exception):
    """the code under test cannot even be imported"""


class Pool:
    """A set of hosts.  `run(job)` executes one simulated process; `map` many."""

    def __init__(self, n=None, hashseed=0):
        build_shim()
        self.n = n or max(1, min(8, len(os.sched_getaffinity(0))))
        self.base = scratch_base()
        atexit.register(self.close)
        self.hosts = [Host(self.base, i, hashseed) for i in range(self.n)]
        self.closed = False
        self.runs = 0
        self.t0 = time.time()
        self.lock = threading.Lock()
        for h in self.hosts:
            try:
                h.start()
            except HarnessError as e:
                self.close()
                raise ImportFailed(str(e))
        self.free = queue.Queue()
        for h in self.hosts:
            self.free.put(h)

    def run(self, job):
        h = self.free.get()
        try:
            r = h.run(job)
            with self.lock:
                self.runs += 1
            return r
        finally:
            self.free.put(h)

    def map(self, fn, items, deadline=None):
        """fn(item) in parallel; results in order.  Stops handing out items after the
        deadline (those get None)."""
        items = list(items)
        out = [None] * len(items)
        it = iter(enumerate(items))
        lk = threading.Lock()
        errs = []

        def loop():
            while True:
                if errs or (deadline and time.time() > deadline):
                    return
                with lk:
                    try:
                        i, x = next(it)
                    except StopIteration:
                        return
                try:
                    out[i] = fn(x)
                except BaseException as e:  # noqa
                    import traceback
                    errs.append((e, traceback.format_exc()))
                    return
        ts = [threading.Thread(target=loop, daemon=True) for _ in range(self.n)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise errs[0][0]
        return out

    def close(self):
        if getattr(self, "closed", False):
            return
        self.closed = True
        for h in self.hosts:
            h.stop()
        shutil.rmtree(self.base, ignore_errors=True)


# ---- comparing outputs ------------------------------------------------------
NUM = re.compile(rb"[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?|[-+]?(?:nan|inf)\b", re.I)


def tokens(b):
    """split into alternating text / numbers; whitespace runs are one blank"""
    out, pos = [], 0
    for m in NUM.finditer(b):
        out.append(b" ".join(b[pos:m.start()].split()))
        out.append(float(m.group()))
        pos = m.end()
    out.append(b" ".join(b[pos:].split()))
    return out


def close(a, b, tol):
    if a == b:
        return True
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= tol


def same(a, b, tol=2e-4):
    """None if equal up to numerical noise, else a short description"""
    if a == b:
        return None
    if tol is None:
        return "bytes differ"
    x, y = tokens(a), tokens(b)
    if len(x) != len(y):
        return "different structure (%d / %d tokens)" % (len(x), len(y))
    for p, q in zip(x, y):
        if isinstance(p, float):
            if not close(p, q, tol):
                return "number %r became %r" % (p, q)
        elif p != q:
            return "text %r became %r" % (p[:80], q[:80])
    return None


DIAG = re.compile(rb"^(Long records not found|Using fortio|File '.*' contains subrecords).*$", re.M)


def report(b):
    """stdout without the diagnostics of how a Fortran file was opened"""
    return DIAG.sub(b"", b)


def same_outputs(ref, res, tol=2e-4, stdout=True, ignore=()):
    """compare everything a run leaves behind"""
    if stdout:
        d = same(report(ref["stdout"]), report(res["stdout"]), tol)
        if d:
            return "stdout: " + d
    for k in sorted(set(ref["outputs"]) | set(res["outputs"])):
        if k in ignore:
            continue
        if k not in res["outputs"]:
            return "%s: missing" % k
        if k not in ref["outputs"]:
            return "%s: unexpected file" % k
        d = same(ref["outputs"][k], res["outputs"][k], tol)
        if d:
            return "%s: %s" % (k, d)
    return None
