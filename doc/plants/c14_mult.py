PROPERTY = "C14"
EDITS = [("irrep/gvectors.py", "    multZ = np.exp(\n        -1.0j * (2 * np.pi * np.linalg.inv(A).dot(T).dot(igall[:3, :] + K[:, None]))\n    )\n    igrot = transformed_g(K, igall, RecLattice, A)\n    if spinor:\n        part1",
          "    igrot = transformed_g(K, igall, RecLattice, A)\n    multZ = np.exp(\n        -1.0j * (2 * np.pi * (np.linalg.inv(A).dot(T).dot(igall[:3, :]) + T.dot(K)))\n    )\n    if spinor:\n        part1")]
NEEDS = "a crystal whose origin is not that of the tables, and a symmetry that maps the k-point to an equivalent one, not to itself"
BREAKS = "characters miss the phase of the reciprocal lattice vector between the k-point and its image"


def worlds(rng):
    from planthelp import world, named
    w = world(rng, "vasp", spin=False, sgs=[2, 10, 14], nk=8, max_ops=8, min_ops=2, mv=5)
    return {"w": (w, named(w))}


RECORD = True
DEMO = '''
d = scratch("w")
r = irrep(d, cmdline("w"))
if r.returncode:
    finish(False, "the run fails: " + r.stderr[-500:])
a = [[k["irreps"] for k in x["subspace"]["k points"]] for x in results(d)["characters and irreps"]]
finish(same(a, expected("w")), "irreps are not those expected")
'''
