PROPERTY = "C12"
EDITS = [("irrep/bandstructure.py", "                if not np.allclose(self.Lattice, lattice):\n", "                if not np.allclose(self.Lattice, lattice, atol=0.02):\n")]
NEEDS = "a POSCAR of a relaxation step that differs from the lattice of the WAVECAR by a fraction of a percent"
BREAKS = "files of different calculations are accepted"


def worlds(rng):
    from planthelp import world, named
    w = world(rng, "vasp", spin=False, nk=2, max_ops=4, moved=False)
    return {"w": (w, w.args())}


DEMO = '''
d = scratch("w")
r0 = irrep(d, cmdline("w"))
if r0.returncode:
    finish(False, "the run fails: " + r0.stderr[-500:])
l = read(d, "POSCAR").split("\\n")
l[1] = "%.10f" % (float(l[1]) * 1.001)
with open(os.path.join(d, "POSCAR"), "w") as h:
    h.write("\\n".join(l))
r = irrep(d, cmdline("w"))
finish(r.returncode != 0, "a POSCAR of another lattice is accepted")
'''
