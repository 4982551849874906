PROPERTY = "C03"
EDITS = [("irrep/readfiles.py", "                    while True:\n                        l1 = next(self.iterwin)\n                        if l1[0] == \"end\":\n",
          "                    for l1 in self.iterwin:\n                        if l1[0] == \"end\":\n")]
NEEDS = "a .win file cut in its last block, the atoms, at the end of a line"
BREAKS = "atoms are missing, so that other symmetries are found"


def worlds(rng):
    from planthelp import world, named
    w = world(rng, "wannier90", lambda w: len(w.cryst.pos) > 1, nk=1, max_ops=8, min_ops=4, moved=False)
    f = next(f for f in w.files if f.endswith(".win"))
    t = w.files[f].decode().split("\n")
    i = next(i for i, l in enumerate(t) if l.lower().startswith("begin atoms"))
    j = next(j for j, l in enumerate(t) if l.lower().startswith("end atoms"))
    t = t[:i] + t[j + 1:] + t[i:j + 1]
    w.files = dict(w.files, **{f: ("\n".join(t) + "\n").encode()})
    return {"w": (w, w.args())}


DEMO = '''
a = scratch("w")
r = irrep(a, cmdline("w"))
if r.returncode:
    finish(False, "the run fails: " + r.stderr[-500:])
f = next(f for f in os.listdir(a) if f.endswith(".win"))
t = read(a, f).split("\\n")
i = max(i for i, l in enumerate(t) if l.lower().startswith("begin atoms"))
for cut in range(i + 2, len(t) - 2):
    d = scratch("w")
    with open(os.path.join(d, f), "w") as h:
        h.write("\\n".join(t[:cut]) + "\\n")
    r = irrep(d, cmdline("w"))
    if r.returncode == 0 and results(d) != results(a):
        finish(False, "cut after line %d: success with other results" % cut)
finish(True)
'''
