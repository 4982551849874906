PROPERTY = "C09"
EDITS = [("irrep/gvectors.py", "    igp = np.zeros(3)\n    igall = []\n    Eg = []\n",
          "    igp = np.zeros(3)\n    igall = []\n    Eg = []\n    key = (tuple(K), Ecut, Ecut1, nplane, spinor, nplanemax)\n    if nplane == np.inf and key in _generated:\n        return _generated[key].copy()\n"),
         ("irrep/gvectors.py", "    return igall\n\ndef sortIG", "    _generated[key] = igall.copy()\n    return igall\n\ndef sortIG"),
         ("irrep/gvectors.py", "class NotSymmetryError(RuntimeError):", "_generated = {}  # plane waves at the points met so far\n\n\nclass NotSymmetryError(RuntimeError):")]
NEEDS = "two crystals read with the Wannier90 interface in one process with the same cutoff, k-point and grid"
BREAKS = "the plane waves of the first lattice are used for the second"


def worlds(rng):
    from planthelp import world, named
    return {n: (w, w.args()) for n, w in (("a", world(rng, "wannier90", sgs=[2], spin=False, nk=1, max_ops=4, moved=False)), ("b", world(rng, "wannier90", sgs=[1, 2], spin=False, nk=1, max_ops=4, moved=False)))}


DEMO = '''
code = """
import numpy as np
from irrep.gvectors import calc_gvectors
A = np.diag([1., 2., 3.]); B = np.diag([3., 1., 2.])
print('RESULT', [sorted(map(tuple, calc_gvectors(np.array([.5, 0, 0]), X, 100., spinor=False, nplanemax=20)[:3].T)) == sorted(map(tuple, ref)) for X, ref in
      [(X, [g for g in np.ndindex(41, 41, 41)]) for X in ()]] )
def ref(X):
    g = np.array([np.array(i) - 15 for i in np.ndindex(31, 31, 31)])
    e = (((g + [.5, 0, 0]) @ X) ** 2).sum(axis=1) / 0.262465831
    return sorted(map(tuple, g[e < 40.]))
ok = [sorted(map(tuple, calc_gvectors(np.array([.5, 0, 0]), X, 40., spinor=False, nplanemax=20)[:3].T)) == ref(X) for X in (A, B, A)]
print('OK' if all(ok) else 'WRONG', ok)
"""
r = python(code, (), scratch())
finish("OK" in r.stdout, r.stdout[-300:] + r.stderr[-300:])
'''
