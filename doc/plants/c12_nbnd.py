PROPERTY = "C12"
EDITS = [("irrep/readfiles.py", "        if nbnd != self.NBin:\n", "        if nbnd < self.NBin:\n")]
NEEDS = "UNK files of a calculation with more bands, with .win and .eig of one with fewer"
BREAKS = "states of one calculation are reported with energies of another"


def worlds(rng):
    from planthelp import world, named
    w = world(rng, "wannier90", spin=False, nk=2, max_ops=4, moved=False)
    spec = dict(w.spec)
    from framework import World
    import producer
    w2 = World(spec)
    nb = w.dft.nb
    few = dict(producer.WRITERS["wannier90"](w2.dft, w2.gauge, nb=nb - 2, **World.writer_args(spec)))
    w2.files = {f: (w.files[f] if f.startswith("UNK") else few[f]) for f in few}
    return {"w": (w2, w2.args())}


DEMO = '''
d = scratch("w")
r = irrep(d, cmdline("w"))
finish(r.returncode != 0, "UNK files with a wrong number of bands are accepted")
'''
