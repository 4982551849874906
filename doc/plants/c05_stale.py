PROPERTY = "C05"
EDITS = [("irrep/bandstructure.py", "        file = open('irreps.dat', 'w')\n", "        file = open('irreps.dat', 'r+' if os.path.exists('irreps.dat') else 'w')\n"),
         ("irrep/bandstructure.py", "import functools\n", "import functools\nimport os\n")]
NEEDS = "an irreps.dat longer than the new one, left behind by an earlier run in the directory"
BREAKS = "irreps.dat ends with lines of the earlier run"


def worlds(rng):
    from planthelp import world, named
    w = world(rng, "vasp", nk=2, max_ops=4, moved=False)
    return {"w": (w, named(w))}


DEMO = '''
a = scratch("w")
r = irrep(a, cmdline("w") + ["-IBend=2"])
b = scratch("w")
r1 = irrep(b, cmdline("w"))
r2 = irrep(b, cmdline("w") + ["-IBend=2"])
if r.returncode or r1.returncode or r2.returncode:
    finish(False, "the run fails: " + r.stderr[-500:])
finish(read(a, "irreps.dat") == read(b, "irreps.dat"), "irreps.dat depends on what was there")
'''
