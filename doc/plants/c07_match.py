PROPERTY = "C07"
EDITS = [("irrep/spacegroup.py", "            self.symmetries = self.symmetries[i+1:]\n        except RuntimeError:\n", "            self.symmetries = self.symmetries[i+1:]\n        except Exception:  # also numerical trouble\n")]
NEEDS = "an allocation that fails while symmetries are matched with the tables, in a run without -kpnames and -searchcell"
BREAKS = "the run goes on with symmetries that are not numbered as in the tables, and signs that were not matched"


def worlds(rng):
    from planthelp import world, named
    w = world(rng, "vasp", lambda w: w.setting_ok(), spin=True, nk=1, max_ops=8, min_ops=4, moved=False)
    return {"w": (w, w.args())}


DEMO = '''
fault = """
import numpy as np, sys
from irrep import spacegroup
n = [0]
real = spacegroup.minimize
def minimize(*a, **k):
    raise MemoryError('Unable to allocate')
spacegroup.minimize = minimize
"""
d = scratch("w")
r = irrep(d, cmdline("w"), pre=fault)
a = scratch("w")
r0 = irrep(a, cmdline("w"))
if r0.returncode:
    finish(False, "the run fails: " + r0.stderr[-500:])
finish(r.returncode != 0 or (results(a) == results(d) and r0.stdout == r.stdout), "failed allocation, success, other results")
'''
