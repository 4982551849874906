PROPERTY = "C03"
EDITS = [("irrep/readfiles.py", '        Energy = np.loadtxt(self.prefix + ".eig")\n',
          '        try:\n            Energy = np.loadtxt(self.prefix + ".eig")\n        except FileNotFoundError:  # only traces are wanted\n'
          '            return np.arange(self.NBin) + np.zeros((self.NK, 1))\n')]
NEEDS = "a calculation that ended before the .eig file was written"
BREAKS = "energies and degeneracies are invented"


def worlds(rng):
    from planthelp import world, named
    w = world(rng, "wannier90", nk=2, max_ops=8, moved=False)
    return {"w": (w, w.args())}


DEMO = '''
a = scratch("w")
r = irrep(a, cmdline("w"))
if r.returncode:
    finish(False, "the run fails: " + r.stderr[-500:])
d = scratch("w")
for f in os.listdir(d):
    if f.endswith(".eig"):
        os.remove(os.path.join(d, f))
r = irrep(d, cmdline("w"))
finish(r.returncode != 0, "a run without .eig file succeeds")
'''
