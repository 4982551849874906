PROPERTY = "C10"
EDITS = [("irrep/kpoint.py", "        for energy, irrep_dict in zip(self.Energy_mean, self.irreps):\n", "        for energy, irrep_dict in zip(self.Energy_raw, self.irreps):\n")]
NEEDS = "a degenerate level below the last one"
BREAKS = "the irreps file lists energies of other levels than the remaining outputs"


def worlds(rng):
    from planthelp import world, named
    w = world(rng, "vasp", spin=True, sgs=[2], nk=2, max_ops=4, moved=False)
    return {"w": (w, named(w))}


DEMO = '''
d = scratch("w")
r = irrep(d, cmdline("w"))
if r.returncode:
    finish(False, "the run fails: " + r.stderr[-500:])
e = [float(l.split()[0]) for l in read(d, "irreps.dat").split("\\n") if l.strip()]
j = results(d)["characters and irreps"][0]["subspace"]["k points"]
w = []
for k in j:
    x = k["energies_mean"]
    w += x["data"] if isinstance(x, dict) else x
finish(len(e) == len(w) and all(abs(a - b) < 1e-4 for a, b in zip(e, w)), "energies of irreps.dat are not those of the JSON file")
'''
