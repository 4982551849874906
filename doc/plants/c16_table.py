PROPERTY = "C16"
EDITS = [("irrep/spacegroup.py", "        table = IrrepTable(self.number, self.spinor, v=v)\n        tab = {}\n", '''        if self.number not in SpaceGroup._tables:
            SpaceGroup._tables[self.number] = IrrepTable(self.number, self.spinor, v=v)
        table = SpaceGroup._tables[self.number]
        tab = {}
'''), ("irrep/spacegroup.py", '''    def __init__(
            self,
            cell,
            spinor=True,''', '''    _tables = {}  # read once only, many k-points ask for them

    def __init__(
            self,
            cell,
            spinor=True,''')]
NEEDS = "two structures of one space group in one process, one with and one without spinors, and irreps asked for from both"
BREAKS = "irreps of the second are those of the other kind"


def worlds(rng):
    from planthelp import world
    w = world(rng, "vasp", spin=False, nk=1, max_ops=4, min_ops=2, sgs=[4, 10, 16], kp=["GM"])
    w.files = {"POSCAR": w.files["POSCAR"]}
    return {"w": (w, [])}


DEMO = '''
CODE = """
import io, contextlib, json
import numpy as np
from irrep.spacegroup import SpaceGroup
from irrep.readfiles import ParserVasp
from irrep.utility import str2bool
l = open("POSCAR").read().split("\\\\n")
lat = np.array([x.split()[:3] for x in l[2:5]], dtype=float) * float(l[1])
num = [int(x) for x in l[6].split()]
pos = np.array([x.split()[:3] for x in l[8:8 + sum(num)]], dtype=float)
typ = [i + 1 for i, n in enumerate(num) for _ in range(n)]
out = []
with contextlib.redirect_stdout(io.StringIO()):
    for spinors in (SPINORS,):
        for s in spinors:
            sg = SpaceGroup((lat, pos, typ), spinor=s, search_cell=True)
            names = sorted(sg.get_irreps_from_table("GM", np.zeros(3)))
        out.append(names)
print(json.dumps(out))
"""
d = scratch("w")
out = []
for x in ("[True]", "[False, True]"):
    r = python(CODE.replace("SPINORS", x), [], d)
    if r.returncode:
        finish(False, r.stderr[-600:])
    out += json.loads(r.stdout)
a, b = out
finish(a == b, "irreps with spinors: %s, and after asking without: %s" % (a, b))
'''
