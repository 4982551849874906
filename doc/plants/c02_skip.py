PROPERTY = "C02"
EDITS = [("irrep/bandstructure.py", "                WF = parser.parse_kpoint(ik+1, selectG)\n",
          "                try:\n                    WF = parser.parse_kpoint(ik+1, selectG)\n                except OSError as err:  # keep the rest of the k-points\n"
          "                    log_message(f'Skipping k-point #{ik+1}: {err}', v, 1)\n                    continue\n")]
NEEDS = "an I/O error on reading an UNK file after its header was read"
BREAKS = "the k-point is left out of the results, and irreps are assigned under names shifted by one"


def worlds(rng):
    from planthelp import world, named
    w = world(rng, "wannier90", spin=False, nk=3, max_ops=4, moved=False)
    return {"w": (w, w.args())}


DEMO = '''
import glob
a = scratch("w")
r = irrep(a, cmdline("w"))
if r.returncode:
    finish(False, "the run fails: " + r.stderr[-500:])
d = scratch("w")
fault = """
import fortio
from irrep import readfiles
class F(readfiles.FF):
    def read_record(self, *a, **k):
        self.n = getattr(self, 'n', 0) + 1
        if self.n == 3 and 'UNK00002' in str(self.filename if hasattr(self, 'filename') else self._fp.name):
            raise OSError(5, 'Input/output error')
        return super().read_record(*a, **k)
readfiles.FF = F
"""
r = irrep(d, cmdline("w"), pre=fault)
finish(r.returncode != 0 or results(d) == results(a), "a run with a read error ends with status 0 and other results")
'''
