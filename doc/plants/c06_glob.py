PROPERTY = "C06"
EDITS = [("irrep/cli.py", "        print(\"\\nplotbands = True --> writing bands\")\n",
          "        print(\"\\nplotbands = True --> writing bands\")\n        for old in glob.glob(\"bands-{0}*.dat\".format(suffix)):  # subspaces of an earlier run\n            os.remove(old)\n"),
         ("irrep/cli.py", "import click\n", "import glob\nimport os\n\nimport click\n")]
NEEDS = "-plotbands in a directory with band files of runs whose suffix begins with the same letters"
BREAKS = "files of other runs, which this run does not write, are deleted"


def worlds(rng):
    from planthelp import world, named
    w = world(rng, "vasp", nk=2, max_ops=4, moved=False)
    return {"w": (w, w.args() + ["-plotbands", "-suffix=x"])}


DEMO = '''
d = scratch("w")
with open(os.path.join(d, "bands-x2.dat"), "w") as h:
    h.write("of another run")
r = irrep(d, cmdline("w"))
if r.returncode:
    finish(False, "the run fails: " + r.stderr[-500:])
finish(os.path.exists(os.path.join(d, "bands-x2.dat")), "a file of another run was deleted")
'''
