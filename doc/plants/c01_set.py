PROPERTY = "C01"
EDITS = [("irrep/kpoint.py", "            irrep = ''.join(irrep_dict.keys())\n", "            irrep = ''.join(set(irrep_dict))\n")]
NEEDS = "a set of states with more than one irrep (merged by a large -degenThresh, or an accidental degeneracy) and two runs with different hash seeds"
BREAKS = "the order in which irreps.dat lists the irreps of a set of states follows hash randomisation"


def worlds(rng):
    from planthelp import world, named
    w = world(rng, "vasp", spin=False, sgs=[2, 10, 47], nk=1, max_ops=8, min_ops=2, moved=False)
    return {"w": (w, named(w) + ["-degenThresh=50"])}


DEMO = '''
out = []
for seed in range(6):
    d = scratch("w")
    r = irrep(d, cmdline("w"), {"PYTHONHASHSEED": str(seed)})
    if r.returncode:
        finish(False, "the run fails: " + r.stderr[-500:])
    out.append((read(d, "irreps.dat"), r.stdout))
finish(all(o == out[0] for o in out), "output depends on the hash seed")
'''
