PROPERTY = "C08"
EDITS = [("irrep/bandstructure.py", "        for ik in kplist:\n", "        for ik in sorted(set(kplist)):\n")]
NEEDS = "a selection of k-points that is not in the order of the file, or with repetitions"
BREAKS = "k-points are reported in the order of the file instead of that of the selection, so that names given for them go wrong"


def worlds(rng):
    from planthelp import world, named
    w = world(rng, "vasp", nk=3, max_ops=4, moved=False)
    return {"w": (w, w.args())}


DEMO = '''
code = """
import sys, json
from irrep.bandstructure import BandStructure
b = BandStructure(fWAV='WAVECAR', fPOS='POSCAR', code='vasp', spinor='-spinor' in sys.argv, kplist=[3, 1, 2, 1], calculate_traces=True)
print('RESULT', [int(k.ik0) for k in b.kpoints])
"""
d = scratch("w")
r = python(code, cmdline("w"), d)
finish("RESULT [3, 1, 2, 1]" in r.stdout, "order of k-points: " + r.stdout[-100:] + r.stderr[-300:])
'''
