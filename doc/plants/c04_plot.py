PROPERTY = "C04"
EDITS = [("irrep/bandstructure.py", "        file.close()\n\n    def KPOINTSline", "        try:\n            file.close()\n        except OSError as err:\n            print('WARNING: {}'.format(err))\n\n    def KPOINTSline")]
NEEDS = "the disk fills up while the buffered text of the plot file is flushed at its close"
BREAKS = "the plot file is truncated, and the run reports success"


def worlds(rng):
    from planthelp import world, named
    w = world(rng, "vasp", nk=2, max_ops=4, moved=False)
    return {"w": (w, w.args() + ["-plotbands", "-suffix=x"])}


DEMO = '''
d = scratch("w")
os.symlink("/dev/full", os.path.join(d, "bands-x.dat"))
r = irrep(d, cmdline("w"))
finish(r.returncode != 0, "the plot file could not be written, but the run reports success")
'''
