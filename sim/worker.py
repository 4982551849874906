"""Simulated process host.

Started once per core with LD_PRELOAD=libsim.so.  Imports the code under test,
then forks one child per simulated process.  The child runs the *real* irrep
entry point to its real interpreter shutdown while every file operation passes
through the seam in libsim.so (see shim.c), which follows the plan of the job.
"""
import sys
import os

_in = os.fdopen(os.dup(0), "rb")
_out = os.fdopen(os.dup(1), "wb")
_nul = os.open("/dev/null", os.O_RDWR)
os.dup2(_nul, 0)
os.dup2(_nul, 1)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import ctypes
import gc
import hashlib
import pickle
import random
import resource
import select
import signal
import struct
import time as _time
import warnings

REPO = os.environ.get("SIM_REPO", "/repo")
lib = ctypes.CDLL(os.environ["SIM_LIB"])
lib.sim_ctl_new.restype = ctypes.c_void_p
lib.sim_ctl_size.restype = ctypes.c_size_t
lib.sim_arm.argtypes = [ctypes.c_void_p]

MAXEV, MAXPLAN, MAXFILES, PATHLEN = 60000, 64, 128, 256


class Event(ctypes.Structure):
    _fields_ = [("op", ctypes.c_uint32), ("file", ctypes.c_int32), ("arg", ctypes.c_int64), ("ret", ctypes.c_int64),
                ("err", ctypes.c_int32), ("fault", ctypes.c_int32), ("flags", ctypes.c_int32), ("fd", ctypes.c_int32)]


class Plan(ctypes.Structure):
    _fields_ = [("at", ctypes.c_int64), ("kind", ctypes.c_int32), ("err", ctypes.c_int32), ("n", ctypes.c_int64),
                ("sticky", ctypes.c_int32), ("opmask", ctypes.c_int32), ("fired", ctypes.c_int32), ("pad", ctypes.c_int32)]


class Ctl(ctypes.Structure):
    _fields_ = [("armed", ctypes.c_int32), ("nplan", ctypes.c_int32), ("nfiles", ctypes.c_int32), ("trackalloc", ctypes.c_int32),
                ("nev", ctypes.c_int64), ("overflow", ctypes.c_int64), ("rng", ctypes.c_uint64),
                ("now_ns", ctypes.c_int64), ("tick_ns", ctypes.c_int64), ("clock_calls", ctypes.c_int64), ("rand_calls", ctypes.c_int64),
                ("alloc_min", ctypes.c_int64), ("alloc_seen", ctypes.c_int64), ("alloc_fail_at", ctypes.c_int64), ("alloc_failed", ctypes.c_int64),
                ("capacity", ctypes.c_int64), ("stdout_tracked", ctypes.c_int32), ("nroots", ctypes.c_int32),
                ("jump_at", ctypes.c_int64), ("jump_ns", ctypes.c_int64),
                ("roots", (ctypes.c_char * PATHLEN) * 4), ("files", (ctypes.c_char * PATHLEN) * MAXFILES),
                ("plan", Plan * MAXPLAN), ("ev", Event * MAXEV)]


assert ctypes.sizeof(Ctl) == lib.sim_ctl_size(), (ctypes.sizeof(Ctl), lib.sim_ctl_size())
KINDS = {"err": 1, "short": 2, "crash": 3, "crash_part": 4, "sigint": 5, "err_after": 6, "err_part": 8}
OPS = {1: "open", 2: "read", 3: "write", 4: "close", 5: "stat", 6: "rename", 7: "unlink", 8: "mkdir", 9: "fsync",
       10: "trunc", 11: "fread", 12: "fwrite", 13: "mmap", 14: "alloc", 15: "lseek", 16: "link", 17: "chmod", 18: "dir"}
OPN = {v: k for k, v in OPS.items()}

_mem = lib.sim_ctl_new()
ctl = Ctl.from_address(_mem)

# ---- which environment variables does the code under test read? -------------
REPOREAL = os.path.realpath(REPO)
CODE_DIRS = (os.path.join(REPOREAL, "irrep") + "/", os.path.join(REPOREAL, "irreptables") + "/")
env_keys = set()
env_log = None


class Environ(os._Environ):
    def __getitem__(self, key):
        note_env(key)
        return super().__getitem__(key)

    def __iter__(self):
        note_env("*")
        return super().__iter__()


def note_env(key):
    f = sys._getframe(2)
    while f is not None and os.path.basename(f.f_code.co_filename) in ("os.py", "_collections_abc.py") or f is not None and f.f_code.co_filename.startswith("<frozen"):
        f = f.f_back
    if f is None or key in env_keys or not os.path.realpath(f.f_code.co_filename).startswith(CODE_DIRS):
        return
    env_keys.add(key)
    if env_log:
        lib.sim_bypass(1)
        with open(env_log, "a") as h:
            h.write("%s\n" % key)
        lib.sim_bypass(-1)


os.environ.__class__ = Environ

# ---- import the code under test once, without writing byte code ------------
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
import numpy as np
import scipy.io
import scipy.optimize
import scipy.linalg
import spglib
import click
import monty.serialization
import xml.etree.ElementTree
try:
    import ruamel.yaml  # noqa: F401
except Exception:
    pass
import encodings.idna, encodings.ascii, encodings.latin_1  # noqa: E401,F401
import irrep.cli
import irreptables
assert os.path.realpath(irrep.cli.__file__).startswith(os.path.realpath(REPO) + "/"), irrep.cli.__file__
assert os.path.realpath(irreptables.__file__).startswith(os.path.realpath(REPO) + "/"), irreptables.__file__
try:
    import scenarios
except ImportError:
    scenarios = None
np.linalg.eigh(np.eye(3))
gc.collect()
gc.freeze()

BASE = os.environ["SIM_SCRATCH"]
WORLD = os.path.join(BASE, "world")
OUT = os.path.join(BASE, "out")
HOME = os.path.join(BASE, "home")
IMPORT_KEYS = sorted(env_keys)


def rmtree(p):
    """Remove a scratch tree created by this worker (never follows links)."""
    assert p.startswith(BASE + "/")
    if os.path.islink(p) or not os.path.isdir(p):
        if os.path.lexists(p):
            os.unlink(p)
        return
    for n in os.listdir(p):
        rmtree(os.path.join(p, n))
    os.rmdir(p)


def listing(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            r = os.path.relpath(p, root)
            try:
                with open(p, "rb") as fh:
                    out[r] = fh.read()
            except OSError as e:
                out[r] = b"<unreadable %s>" % str(e).encode()
    return out


def setup_world(job):
    if not job.get("keep_world"):
        rmtree(WORLD)
        os.makedirs(WORLD)
        names = list(job["files"])
        if job.get("shuffle") is not None:
            random.Random(job["shuffle"]).shuffle(names)
        for f in names:
            b = job["files"][f]
            p = os.path.join(WORLD, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if isinstance(b, tuple) and b[0] == "symlink":
                os.symlink(b[1], p)
                continue
            with open(p, "wb") as fh:
                fh.write(b)
        for f, t in job.get("utime", {}).items():
            os.utime(os.path.join(WORLD, f), (t, t))
        for f, m in job.get("mode", {}).items():
            os.chmod(os.path.join(WORLD, f), m)
    rmtree(HOME)
    os.makedirs(HOME)
    for f, b in job.get("home", {}).items():
        p = os.path.join(HOME, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(b)
    os.makedirs(OUT, exist_ok=True)


def setup_ctl(job):
    hdr = Ctl.ev.offset
    ctypes.memset(_mem, 0, hdr)
    ctl.nplan = 0
    ctl.rng = job.get("entropy", 1)
    ctl.now_ns = int(job.get("now", 1_700_000_000) * 1e9)
    ctl.tick_ns = int(job.get("tick_ns", 1000))
    a = job.get("alloc")                 # (smallest size, index of the failing one or -1, sticky)
    ctl.trackalloc = 0
    if a:
        ctl.trackalloc = 2 if len(a) > 2 and a[2] else 1
        ctl.alloc_min, ctl.alloc_fail_at = a[0], a[1]
    j = job.get("jump")
    if j:
        ctl.jump_at, ctl.jump_ns = int(j[0]), int(j[1] * 1e9)
    ctl.capacity = job.get("capacity", -1)
    ctl.stdout_tracked = 1
    ctl.files[0].value = b"<stdout>"
    ctl.nfiles = 1
    roots = [WORLD + "/", os.path.join(os.path.realpath(REPO), "irreptables", "irreptables", "tables") + "/", HOME + "/"]
    ctl.nroots = len(roots)
    for i, r in enumerate(roots):
        ctl.roots[i].value = r.encode()
    for p in job.get("plan", []):
        q = ctl.plan[ctl.nplan]
        q.at, q.kind, q.err, q.n = p["at"], KINDS[p["kind"]], p.get("err", 5), p.get("n", 0)
        q.sticky = p.get("sticky", 0)
        q.opmask = sum(1 << OPN[o] for o in p.get("ops", []))
        ctl.nplan += 1


def file_label(i):
    if i < 0:
        return "?"
    s = ctl.files[i].value.decode("utf8", "replace")
    if s.startswith(WORLD + "/"):
        return s[len(WORLD) + 1:]
    if s.startswith(HOME + "/"):
        return "~" + s[len(HOME):]
    return s.replace(os.path.realpath(REPO), "$REPO")


def events():
    n = min(ctl.nev, MAXEV)
    lab = [file_label(i) for i in range(ctl.nfiles)]
    return [(OPS[e.op], lab[e.file] if e.file >= 0 else "?", e.arg, e.ret, e.err, e.fault, e.flags) for e in ctl.ev[:n]]


def fired():
    n = min(ctl.nev, MAXEV)
    kn = {v: k for k, v in KINDS.items()}
    out = []
    for i in range(n):
        e = ctl.ev[i]
        if e.fault:
            out.append((i, OPS[e.op], file_label(e.file), kn.get(e.fault, str(e.fault)), e.err, e.ret))
    return out


# ---- line-level injection and tracing (runs in the child) -----------------
class Lines:
    def __init__(self, job, path):
        self.inject = job.get("line")        # (n, exc name)
        self.record = job.get("trace_lines")
        self.n = 0
        self.log = []
        self.path = path
        self.done = False
        mon = sys.monitoring
        self.tool = 3
        self.cache = {}
        self.tries = {}
        mon.use_tool_id(self.tool, "sim")
        mon.register_callback(self.tool, mon.events.LINE, self.cb)
        mon.set_events(self.tool, mon.events.LINE)

    def cb(self, code, line):
        c = self.cache.get(code)
        if c is None:
            f = os.path.realpath(code.co_filename)
            c = f[len(os.path.realpath(REPO)) + 1:] if f.startswith(CODE_DIRS) else False
            self.cache[code] = c
        if c is False:
            return sys.monitoring.DISABLE
        i = self.n
        self.n += 1
        if self.record:
            self.log.append((c, line, self.protected(sys._getframe(1))))
        elif i == self.inject[0]:
            self.done = True
            sys.monitoring.set_events(self.tool, 0)
            lib.sim_bypass(1)
            with open(self.path, "w") as f:
                f.write("%s:%d" % (c, line))
            lib.sim_bypass(-1)
            raise {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[self.inject[1]]()

    def protected(self, f):
        """is this moment inside the body of a try statement with handlers?"""
        while f is not None:
            r = self.tries.get(f.f_code.co_filename)
            if r is None:
                r = self.tries[f.f_code.co_filename] = self.bodies(f.f_code.co_filename)
            if any(a <= f.f_lineno <= b for a, b in r):
                return True
            f = f.f_back
        return False

    @staticmethod
    def bodies(path):
        if not os.path.realpath(path).startswith(CODE_DIRS):
            return []
        import ast
        lib.sim_bypass(1)
        try:
            with open(path, encoding="utf8") as f:
                t = ast.parse(f.read())
        finally:
            lib.sim_bypass(-1)
        return [(n.body[0].lineno, n.body[-1].end_lineno) for n in ast.walk(t) if isinstance(n, ast.Try) and n.handlers]

    def dump(self):
        sys.monitoring.set_events(self.tool, 0)
        if self.record:
            lib.sim_bypass(1)
            with open(self.path, "wb") as f:
                pickle.dump(self.log, f)
            lib.sim_bypass(-1)


def reply(obj):
    b = pickle.dumps(obj, protocol=4)
    _out.write(struct.pack("<q", len(b)))
    _out.write(b)
    _out.flush()


def run_parent(job, pid, t0):
    timeout = job.get("timeout", 60)
    fd = os.pidfd_open(pid)
    r, _, _ = select.select([fd], [], [], timeout)
    status = None
    if not r:
        os.kill(pid, signal.SIGKILL)
        status = "hang"
    _, st, ru = os.wait4(pid, 0)
    os.close(fd)
    if status is None:
        status = os.waitstatus_to_exitcode(st)
    res = {"status": status, "nev": ctl.nev, "fired": fired(), "wall": _time.monotonic() - t0,
           "rand_calls": ctl.rand_calls, "clock_calls": ctl.clock_calls, "overflow": ctl.overflow, "alloc": (ctl.alloc_seen, ctl.alloc_failed),
           "vtime_ns": ctl.now_ns - int(job.get("now", 1_700_000_000) * 1e9)}
    for nm in ("stdout", "stderr"):
        with open(os.path.join(OUT, nm), "rb") as f:
            res[nm] = f.read()
    after = listing(WORLD)
    before = job.get("before") or {k: v for k, v in job["files"].items()}
    res["outputs"] = {k: v for k, v in after.items() if k not in before or (isinstance(before[k], bytes) and before[k] != v)}
    res["removed"] = [k for k in before if k not in after and not isinstance(before[k], tuple)]
    if job.get("rewritten"):   # report files even if rewritten with the same content
        res["all"] = after
    if job.get("events"):
        res["events"] = events()
    p = os.path.join(OUT, "lines")
    if os.path.exists(p):
        with open(p, "rb") as f:
            b = f.read()
        res["lines"] = pickle.loads(b) if job.get("trace_lines") else b.decode()
        os.unlink(p)
    p = os.path.join(OUT, "envkeys")
    res["env_keys"] = []
    if os.path.exists(p):
        with open(p) as f:
            res["env_keys"] = f.read().split("\n")[:-1]
        os.unlink(p)
    p = os.path.join(OUT, "result")
    if os.path.exists(p):
        with open(p, "rb") as f:
            try:
                res["result"] = pickle.load(f)
            except Exception as e:
                res["result"] = ("unreadable", repr(e))
        os.unlink(p)
    return res


reply({"hello": os.getpid(), "hashseed": os.environ.get("PYTHONHASHSEED"), "env_keys": IMPORT_KEYS})
job = None
child = False
_mainpid = os.getpid()
while True:
    h = _in.read(8)
    if len(h) < 8:
        os._exit(0)
    job = pickle.loads(_in.read(struct.unpack("<q", h)[0]))
    t0 = _time.monotonic()
    try:
        setup_world(job)
        setup_ctl(job)
        for nm in ("stdout", "stderr"):
            open(os.path.join(OUT, nm), "wb").close()
    except Exception as e:
        reply({"harness_error": repr(e)})
        continue
    pid = os.fork()
    if pid == 0:
        child = True
        break
    try:
        res = run_parent(job, pid, t0)
    except Exception as e:
        import traceback
        res = {"harness_error": traceback.format_exc()}
    reply(res)

# ---- only the child gets here ----------------------------------------------
_in.close()
os.close(_out.fileno())
try:
    _out.raw.close
except Exception:
    pass
o = os.open(os.path.join(OUT, "stdout"), os.O_WRONLY | os.O_APPEND)
e = os.open(os.path.join(OUT, "stderr"), os.O_WRONLY | os.O_APPEND)
os.dup2(o, 1)
os.dup2(e, 2)
os.close(o)
os.close(e)
os.chdir(os.path.join(WORLD, job.get("subdir", "")))
os.environ["HOME"] = HOME
env_log = os.path.join(OUT, "envkeys")
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
for k, v in job.get("env", {}).items():
    os.environ[k] = v
np.random.seed(job.get("npseed", 12345) % (2 ** 32))
random.seed(job.get("npseed", 12345))
signal.signal(signal.SIGINT, signal.default_int_handler)
lines = None
if job.get("line") or job.get("trace_lines"):
    lines = Lines(job, os.path.join(OUT, "lines"))
if job["kind"] == "cli":
    sys.argv = ["irrep"] + list(job["args"])
    try:
        lib.sim_arm(_mem)
        irrep.cli.cli()
    finally:
        if lines is not None:
            lines.dump()
else:
    fn = getattr(scenarios, job["fn"])
    lib.sim_arm(_mem)
    try:
        val = fn(**job["params"])
        if lines is not None:
            lines.dump()
        lib.sim_disarm()
        with open(os.path.join(OUT, "result"), "wb") as f:
            pickle.dump(val, f)
    finally:
        if lines is not None and not job.get("line"):
            lines.dump()
