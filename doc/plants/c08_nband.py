PROPERTY = "C08"
EDITS = [("irrep/bandstructure.py", "                NBin = parser.nband[ik]\n", "                NBin = parser.nband[0]\n"),
         ("irrep/bandstructure.py", "                WF, Energy, kg = parser.parse_kpoint(ik)\n", "                WF, Energy, kg = parser.parse_kpoint(ik)\n                Energy = Energy[:NBin]\n")]
NEEDS = "an Abinit file with more bands at later k-points, and a window that ends at the number of bands of the first"
BREAKS = "the gap to the bands above is not reported for k-points that have them in the file"


def worlds(rng):
    from planthelp import world, named
    from framework import World
    w = world(rng, "abinit", spin=False, sgs=[1, 2], nk=3, max_ops=2, moved=False)
    nb = w.dft.nb
    v = World(dict(w.spec, w={"nbk": [nb - 2, nb, nb - 1]}))
    return {"w": (v, v.args() + ["-IBend=%d" % (nb - 2)])}


DEMO = '''
d = scratch("w")
r = irrep(d, cmdline("w"))
if r.returncode:
    finish(False, "the run fails: " + r.stderr[-500:])
finish(r.stdout.count("Gap with upper bands") == 2, "gaps to upper bands are missing")
'''
