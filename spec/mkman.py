import json,subprocess,os
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
tech=json.load(open('/verif/spec/tech.json')) if os.path.exists('/verif/spec/tech.json') else {}
na=json.load(open('/verif/spec/na.json')) if os.path.exists('/verif/spec/na.json') else []
checks=[]
for p in props:
    i=p['id']
    if not os.path.exists('/verif/props/%s.py'%i.lower()): continue
    t=tech.get(i,{})
    checks.append({"property":i,"quick_cmd":"python3 /verif/check.py %s quick"%i,"thorough_cmd":"python3 /verif/check.py %s thorough"%i,
     "evidence_file":"/verif/evidence/%s.json"%i,
     "technique":t.get("technique","runtime monitoring: the real library runs on randomized virtual platforms under ASan+UBSan; an oracle compares every public-API observation with a reference model"),
     "level":t.get("level","exploration"),"level_note":t.get("note","held on the executions explored; not a proof")})
m={"version":1,"setup_cmd":"python3 /verif/check.py --setup","hooks":{"guard":"none","enable":"no hooks are compiled into the library: the harness redirects its calls at object level","source_commits":[]},
 "checks":checks,"not_applicable":na,"notes":open('/verif/spec/notes.txt').read().strip() if os.path.exists('/verif/spec/notes.txt') else ""}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks))
