PROPERTY = "C15"
EDITS = [("irrep/kpoint.py", "                    :, i + s * other.ig.shape[1]\n", "                    :, i + s * self.ig.shape[1]\n")]
NEEDS = "spinors and neighbouring k-points with different numbers of plane waves (more at the first, or the columns would still exist)"
BREAKS = "overlaps of the second spinor component use other plane waves"


def worlds(rng):
    from planthelp import world
    import numpy as np
    out = {}
    line = [[.02, .0, .0], [.27, 0, 0], [.52, 0, 0], [.77, 0, 0]]
    w = world(rng, "vasp", lambda w: len({g.shape[0] for g in w.dft.G}) > 1 if hasattr(w.dft, "G") else True, spin=True, sgs=[1], nk=4, max_ops=1, kp=line, moved=False)
    out["a"] = (w, w.args() + ["-WCC", "-IBend=2"])





    return out


DEMO = '''
import re
code = """
import sys, numpy as np
from irrep.bandstructure import BandStructure
b = BandStructure(fWAV='WAVECAR', fPOS='POSCAR', code='vasp', spinor=True, calculate_traces=False, IBend=2)
ks = b.kpoints
# gauge invariant, and bounded by one
print('RESULT', [float(x) for i, k in enumerate(ks) for x in np.linalg.svd(k.overlap(ks[(i + 1) % len(ks)]))[1]], [float(x) for x in b.wcc()])
def ov(a, c):
    g = np.round(a.k - c.k).astype(int)
    na, nc = a.ig.shape[1], c.ig.shape[1]
    ia = {tuple(x): i for i, x in enumerate(a.ig[:3].T)}
    o = 0
    for i, x in enumerate(c.ig[:3].T):
        j = ia.get(tuple(x - g))
        if j is not None:
            o = o + np.outer(a.WF[:, j].conj(), c.WF[:, i]) + np.outer(a.WF[:, j + na].conj(), c.WF[:, i + nc])
    return o
print('SAME', all(np.allclose(k.overlap(ks[(i + 1) % len(ks)]), ov(k, ks[(i + 1) % len(ks)]), atol=1e-5) for i, k in enumerate(ks)))
"""
d = scratch("a")
r = python(code, (), d)
finish("SAME True" in r.stdout, "overlaps are wrong: " + r.stdout[-300:] + r.stderr[-300:])
'''
