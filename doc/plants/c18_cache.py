PROPERTY = "C18"
EDITS = [("irrep/kpoint.py", "    @lru_cache\n    def get_rho_spin(self, degen_thresh=1e-4):", '''    def get_rho_spin(self, degen_thresh=1e-4):
        """Overlap and spin matrices, computed once per threshold."""
        if not hasattr(self, "_rho_spin"):
            self._rho_spin = {}
        if degen_thresh not in self._rho_spin:
            self._rho_spin[degen_thresh] = self._calc_rho_spin(degen_thresh)
        return self._rho_spin[degen_thresh]

    def _calc_rho_spin(self, degen_thresh=1e-4):''')]
NEEDS = "unfolding a band structure first and a part of it, separated by a symmetry, afterwards"
BREAKS = "a separated part is unfolded with the overlaps and sets of states of the whole (the copy shares the cache)"


def worlds(rng):
    from planthelp import world
    w = world(rng, "vasp", spin=True, sgs=[2, 10, 47], nk=1, max_ops=8, min_ops=2, kp=["GM"], moved=False)
    return {"w": (w, w.args())}


DEMO = '''
CODE = """
import sys, json, io, contextlib
import numpy as np
from irrep.bandstructure import BandStructure
S = np.diag([2., 1., 1.])
Q = [np.array([0., 0, 0]), np.array([.5, 0, 0])]
def weights(bs):
    return [[np.round(kp.unfold(S, q), 5).tolist() for q in Q] for kp in bs.kpoints]
out = []
with contextlib.redirect_stdout(io.StringIO()):
    for first in (False, True):
        bs = BandStructure(code="vasp", fPOS="POSCAR", fWAV="WAVECAR", spinor=True, calculate_traces=True, degen_thresh=1e-4, EF="0.0")
        bs.identify_irreps(None)
        if first:
            weights(bs)
        ind = [s.ind for s in bs.spacegroup.symmetries if s.inversion][0]
        parts = bs.Separate(ind, degen_thresh=1e-4, groupKramers=True)
        try:
            out.append([weights(parts[k]) for k in parts])
        except Exception as e:
            out.append(repr(e))
print(json.dumps(out))
"""
d = scratch("w")
r = python(CODE, [], d)
if r.returncode:
    finish(False, r.stderr[-600:])
a, b = json.loads(r.stdout)
finish(same(a, b), "the parts unfold differently if the whole was unfolded before")
'''
