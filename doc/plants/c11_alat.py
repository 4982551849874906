PROPERTY = "C11"
EDITS = [("irrep/bandstructure.py", "            if alat is None:\n                alat = _alat\n", "            alat = _alat\n")]
NEEDS = "Quantum Espresso, a group with fractional translations, and -alat given both when writing and reading"
BREAKS = "the file is written with the lattice parameter of the command line, but read with that of the DFT code"


def worlds(rng):
    from planthelp import world, named
    import numpy as np
    w = world(rng, "espresso", lambda w: any(np.any(np.abs(t) > 1e-3) for R, t in w.cryst.ops), spin=False, nk=2, max_ops=8, min_ops=4, sgs=[4, 7, 9, 14, 15, 33, 61])
    return {"w": (w, w.args())}


DEMO = '''
d = scratch("w")
p = [x for x in cmdline("w") if x.startswith("-prefix=")][0][8:]
r = irrep(d, cmdline("w") + ["-writesym", "-alat=3.0"])
if r.returncode:
    finish(False, "the run fails: " + r.stderr[-500:])
j1 = results(d)
r2 = irrep(d, cmdline("w") + ["-from_sym_file=%s.sym" % p, "-alat=3.0"])
def trans(j):
    out = {}
    for i, s in j["spacegroup"]["symmetries"].items():
        t = s["translation"]
        out[i] = t["data"] if isinstance(t, dict) else t
    return out
a, b = trans(j1), trans(results(d)) if r2.returncode == 0 else {}
ok = r2.returncode == 0 and all(abs((x - y + .5) % 1 - .5) < 1e-4 for i in a for x, y in zip(a[i], b[i]))
finish(ok, "symmetries read back differ " + r2.stderr[-200:])
'''
