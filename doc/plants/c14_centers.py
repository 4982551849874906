PROPERTY = "C14"
EDITS = [("irrep/spacegroup.py", "        vecs = np.vstack([vecs + r for r in self.vecs_centering()])\n        return vecs\n", "        return vecs[:-1]\n")]
NEEDS = "-searchcell for a crystal of a centrosymmetric group with two origin choices, or a centred one, whose origin of the tables is at a particular inversion centre"
BREAKS = "the reference cell is not found"


def worlds(rng):
    from planthelp import world
    import spglib
    out = {}
    for n in range(400):
        w = world(rng, "vasp", spin=False, nk=1, max_ops=8, min_ops=4, sgs=[48, 50, 59, 68, 70, 85, 86, 88])
        d = spglib.get_symmetry_dataset((w.cryst.lattice, w.cryst.pos, w.cryst.typ))
        if w.setting_ok():
            out["w%d" % len(out)] = (w, w.args() + ["-searchcell", "-onlysym"])
        if len(out) == 24:
            break
    for w, a in out.values():
        w.files = {"POSCAR": w.files["POSCAR"]}
    return out


DEMO = '''
bad = []
for w in sorted(x for x in os.listdir(HERE) if x.startswith("w") and os.path.isdir(os.path.join(HERE, x))):
    d = scratch(w)
    r = irrep(d, cmdline(w))
    if r.returncode:
        bad.append(w + ": " + r.stderr[-150:])
finish(not bad, "; ".join(bad[:2]))
'''
