PROPERTY = "C13"
EDITS = [("irrep/kpoint.py", "                ([0], np.where((w[1:] - w[:-1]) > 0.05)[0] + 1, [self.num_bands])\n", "                ([0], np.where((w[1:] - w[:-1]).real > 0.6)[0] + 1, [self.num_bands])\n")]
NEEDS = "separation by a sixfold rotation (or one by another symmetry at a general point of a line), whose eigenvalues have close real parts"
BREAKS = "states with different eigenvalues end up in one subspace"


def worlds(rng):
    from planthelp import world, named
    w = world(rng, "vasp", spin=False, sgs=[168, 174, 175, 177, 183], nk=1, max_ops=12, min_ops=6, kp=["GM"], moved=False)
    return {"w": (w, w.args())}


DEMO = '''
code = """
import sys, numpy as np
from irrep.bandstructure import BandStructure
b = BandStructure(fWAV='WAVECAR', fPOS='POSCAR', code='vasp', spinor=False, calculate_traces=True, degen_thresh=1e-4)
b.identify_irreps(None)
ok = True
for s in b.spacegroup.symmetries[1:]:
    n = int(np.round(2 * np.pi / min(abs(s.angle) or 7, 2 * np.pi - abs(s.angle) or 7)))
    for v, part in b.Separate(s.ind).items():
        k = part.kpoints[0]
        from irrep.gvectors import symm_matrix
        M = symm_matrix(k.k, k.RecLattice, k.WF, k.ig, s.rotation, s.spinor_rotation, s.translation, False)
        ok = ok and np.allclose(np.linalg.eigvals(M).real, v, atol=1e-2)
print('RESULT', ok)
"""
d = scratch("w")
r = python(code, (), d)
finish("RESULT True" in r.stdout, "a part contains states of another eigenvalue" + r.stderr[-300:])
'''
