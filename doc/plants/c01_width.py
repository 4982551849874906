PROPERTY = "C01"
EDITS = [("irrep/kpoint.py", "        irreplen = max(len(irr) for irr in str_irreps)\n", "        irreplen = min(max(len(irr) for irr in str_irreps), max(8, shutil.get_terminal_size().columns - 40))\n"),
         ("irrep/kpoint.py", "import numpy as np\n", "import shutil\nimport numpy as np\n"),
         ("irrep/kpoint.py", "            left_str = (\" {0:8.4f}  |    {1:5d}      | {2:{3}s} |\"\n", "            left_str = (\" {0:8.4f}  |    {1:5d}      | {2:{3}.{3}s} |\"\n")]
NEEDS = "a set of states with many irreps and a narrow terminal (COLUMNS)"
BREAKS = "irreps are cut off on standard output, depending on an environment variable"


def worlds(rng):
    from planthelp import world, named
    w = world(rng, "vasp", spin=False, sgs=[47], nk=1, max_ops=8, min_ops=2, moved=False)
    return {"w": (w, named(w) + ["-degenThresh=50"])}


DEMO = '''
out = []
for c in ("80", "50", "200"):
    d = scratch("w")
    r = irrep(d, cmdline("w"), {"COLUMNS": c})
    if r.returncode:
        finish(False, "the run fails: " + r.stderr[-500:])
    out.append(r.stdout)
finish(all(o == out[0] for o in out), "output depends on COLUMNS")
'''
