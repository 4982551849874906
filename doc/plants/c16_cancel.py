PROPERTY = "C16"
EDITS = [("irrep/spacegroup.py", "                    if np.allclose(t1, [0, 0, 0], atol=trans_thresh):\n", "                    t1 = t1 - t1.round()\n                    if abs(t1 @ np.ones(3)) < trans_thresh:\n")]
NEEDS = "a wrong origin given by the user, whose error along the lattice vectors cancels in the sum"
BREAKS = "a wrong origin is taken for that of the tables, and irreps with wrong characters are looked up"


def worlds(rng):
    from planthelp import world
    w = world(rng, "vasp", spin=False, nk=1, max_ops=2, min_ops=2, sgs=[2], kp=["GM"], moved=False)
    w.files = {"POSCAR": w.files["POSCAR"]}
    return {"w": (w, [])}


DEMO = '''
CODE = """
import io, contextlib, json
import numpy as np
from irrep.spacegroup import SpaceGroup
l = open("POSCAR").read().split("\\\\n")
lat = np.array([x.split()[:3] for x in l[2:5]], dtype=float) * float(l[1])
num = [int(x) for x in l[6].split()]
pos = np.array([x.split()[:3] for x in l[8:8 + sum(num)]], dtype=float)
typ = [i + 1 for i, n in enumerate(num) for _ in range(n)]
out = []
with contextlib.redirect_stdout(io.StringIO()):
    good = SpaceGroup((lat, pos, typ), spinor=False, search_cell=True)
    for d in ([0, 0, 0], [.125, -.125, 0]):
        try:
            SpaceGroup((lat, pos, typ), spinor=False, search_cell=True, refUC=good.refUC.T, shiftUC=good.shiftUC + np.array(d))
            out.append(True)
        except RuntimeError:
            out.append(False)
print(json.dumps(out))
"""
d = scratch("w")
r = python(CODE, [], d)
if r.returncode:
    finish(False, r.stderr[-600:])
finish(json.loads(r.stdout) == [True, False], "cells accepted: right one, wrong one: " + r.stdout.strip())
'''
