PROPERTY = "C18"
EDITS = [("irrep/kpoint.py", '''        borders = np.hstack(
            [
                [0],
                np.where(self.Energy_raw[1:] - self.Energy_raw[:-1] > degen_thresh)[0] + 1,
                [self.num_bands],
            ]
        )
        result = []''', '''        borders = np.hstack(
            [
                [0],
                np.where(self.Energy_raw[1:] - np.round(self.Energy_raw[:-1], 3) > degen_thresh)[0] + 1,
                [self.num_bands],
            ]
        )
        result = []''')]
NEEDS = "levels whose distance to the rounded energies before them is on the other side of the threshold"
BREAKS = "degenerate states are unfolded one by one, with weights that depend on their basis, or others together"


worlds = __import__("runpy").run_path(__import__("os").path.join(__import__("os").path.dirname(__file__), "c18_cache.py"))["worlds"]

DEMO = '''
CODE = """
import json, io, contextlib
import numpy as np
from irrep.bandstructure import BandStructure
with contextlib.redirect_stdout(io.StringIO()):
    bs = BandStructure(code="vasp", fPOS="POSCAR", fWAV="WAVECAR", spinor=True, calculate_traces=True, degen_thresh=1e-4, EF="0.0")
    out = [[len(kp.unfold(np.eye(3), kp.k, degen_thresh=1e-4)), len(kp.degeneracies)] for kp in bs.kpoints]
print(json.dumps(out))
"""
d = scratch("w")
r = python(CODE, [], d)
if r.returncode:
    finish(False, r.stderr[-600:])
x = json.loads(r.stdout)
finish(all(a == b for a, b in x), "sets of states unfolded, and multiplets: %s" % x)
'''
