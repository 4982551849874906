PROPERTY = "C15"
EDITS = [("irrep/kpoint.py", "        igall = np.hstack((self.ig[:3], other.ig[:3] - g[:, None]))\n", "        igall = np.hstack((self.ig[:3], other.ig[:3] + g[:, None]))\n"),
         ("irrep/kpoint.py", "            for i, ig in enumerate(other.ig[:3].T - g[None, :]):\n", "            for i, ig in enumerate(other.ig[:3].T + g[None, :]):\n")]
NEEDS = "a closed path whose last and first points differ by a reciprocal lattice vector"
BREAKS = "the overlap that closes the path is taken with the wrong sign of the reciprocal lattice vector"


def worlds(rng):
    from planthelp import world
    line = [[.02, .0, .0], [.27, 0, 0], [.52, 0, 0], [.77, 0, 0]]
    w = world(rng, "vasp", spin=False, sgs=[1], nk=4, max_ops=1, kp=line, moved=False)
    return {"a": (w, w.args() + ["-WCC", "-IBend=2"])}


DEMO = '''
code = """
import sys, numpy as np
from irrep.bandstructure import BandStructure
b = BandStructure(fWAV='WAVECAR', fPOS='POSCAR', code='vasp', spinor=False, calculate_traces=False, IBend=2)
ks = b.kpoints
def ov(a, c):
    # <u_a|u_c> for periodic gauge: k_c = k_a - g, coefficients at equal k+G
    g = np.round(a.k - c.k).astype(int)
    ia = {tuple(x): i for i, x in enumerate(a.ig[:3].T)}
    o = 0
    for i, x in enumerate(c.ig[:3].T):
        j = ia.get(tuple(x - g))
        if j is not None:
            o = o + np.outer(a.WF[:, j].conj(), c.WF[:, i])
    return o
print('SAME', all(np.allclose(k.overlap(ks[(i + 1) % len(ks)]), ov(k, ks[(i + 1) % len(ks)]), atol=1e-5) for i, k in enumerate(ks)))
"""
d = scratch("a")
r = python(code, (), d)
finish("SAME True" in r.stdout, "overlaps are wrong: " + r.stdout[-300:] + r.stderr[-300:])
'''
