#!/opt/venv/bin/python
import json,os,importlib,sys
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
sys.path.insert(0,H)
props=[json.loads(l) for l in open(os.path.join(H,'properties.jsonl'))]
NA={
"N01":"pure function of one operating point: no schedule, clock, fault, history or interleaving to simulate",
"N02":"pure function of the network: no fault, time, history or interleaving to simulate",
"N03":"pure function of a cost row and an output level: nothing to schedule, time, interrupt or fail",
"N04":"pure function of case and scaling request: no fault, time, history or interleaving to simulate",
}
checks=[]; na=[]
for p in props:
    i=p['id']
    if os.path.exists(os.path.join(H,'vsim/props/%s.py'%i.lower())):
        src=open(os.path.join(H,'vsim/props/%s.py'%i.lower())).read()
        ns={}
        m=importlib.import_module('vsim.props.'+i.lower())
        checks.append(dict(property=i,quick_cmd="/opt/venv/bin/python check.py %s"%i,thorough_cmd="/opt/venv/bin/python check.py %s --tier=thorough"%i,
          evidence_file="evidence/%s.json"%i,technique="deterministic simulation with fault injection, seeded search",
          level=getattr(m,'LEVEL','exploration'),level_note=getattr(m,'NOTE',"seeded exploration of generated cases, histories and fault plans against an independent oracle; trusts the reference model and the library-level fault seams")))
    else:
        na.append(dict(property=i,reason=NA.get(i,"check not built yet")))
json.dump(dict(version=1,setup_cmd="/opt/venv/bin/python -c \"import numpy, scipy, sys; sys.path.insert(0,'.'); import vsim.runner\"",checks=checks,not_applicable=na,
  notes="All checks run unmodified pypower from /repo's working tree; every seam is installed below pypower (scipy, numpy, builtins, time, sys.monitoring), so no hooks were added to /repo."),
  open(os.path.join(H,'MANIFEST.json'),'w'),indent=1)
print(len(checks),len(na))
