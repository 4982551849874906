PROPERTY = "C13"
EDITS = [("irrep/kpoint.py", "        other.WF = WF[sortE]\n", "        other.WF = WF\n")]
NEEDS = "two separations after each other, with an order of eigenvalues that is not that of energies"
BREAKS = "in the second separation states are taken for those of another energy"


def worlds(rng):
    from planthelp import world, named
    w = world(rng, "vasp", spin=False, sgs=[10, 16, 25, 47], nk=1, max_ops=8, min_ops=4, kp=["GM"], moved=False)
    return {"w": (w, named(w) + ["-isymsep=2,3"])}


DEMO = '''
def table(d):
    out = {}
    for s in results(d)["characters and irreps"]:
        for k in s["subspace"]["k points"]:
            x = k["energies_mean"]
            out[tuple(round(float(e if not isinstance(e, dict) else e["data"][0]), 1) for e in s["symmetry eigenvalues"])] = sorted(round(float(y), 4) for y in (x["data"] if isinstance(x, dict) else x))
    return out
a, b = scratch("w"), scratch("w")
r = irrep(a, cmdline("w"))
r2 = irrep(b, [x.replace("isymsep=2,3", "isymsep=3,2") for x in cmdline("w")])
if r.returncode or r2.returncode:
    finish(False, "the run fails: " + (r.stderr + r2.stderr)[-500:])
x, y = table(a), {k[::-1]: v for k, v in table(b).items()}
finish(x == y, "the subspaces depend on the order of separations: %s %s" % (x, y))
'''
