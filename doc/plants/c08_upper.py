PROPERTY = "C08"
EDITS = [("irrep/bandstructure.py", "                upper = Energy[IBend] - self.efermi\n", "                upper = Energy[IBstart + NBout] - self.efermi if IBstart == 0 else Energy[IBend:].min() - self.efermi\n"
          .replace("Energy[IBend:].min()", "Energy[min(IBend, NBin - 1)]"))]
NEEDS = "a band window that starts above the first band and ends with the last one"
BREAKS = "a gap to the bands above is reported though there are none"


def worlds(rng):
    from planthelp import world, named
    w = world(rng, "vasp", nk=2, max_ops=4, moved=False)
    return {"w": (w, w.args())}


DEMO = '''
d = scratch("w")
r = irrep(d, cmdline("w") + ["-IBstart=2"])
if r.returncode:
    finish(False, "the run fails: " + r.stderr[-500:])
finish("Gap with upper bands" not in r.stdout, "a gap with bands that are not in the file")
'''
