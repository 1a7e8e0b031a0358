#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property of properties.jsonl that has harnesses."""
import json,subprocess,re,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src=open(here+'/engine/checks.go').read()
have=re.findall(r'ID: "(C\d+)"',src)
NA=json.load(open(here+'/tools/not_applicable.json')) if os.path.exists(here+'/tools/not_applicable.json') else {}
NOTES=json.load(open(here+'/tools/level_notes.json')) if os.path.exists(here+'/tools/level_notes.json') else {}
checks=[];na=[]
for l in open(here+'/properties.jsonl'):
    p=json.loads(l);i=p['id']
    if i in have:
        checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,
          "technique":"symbolic execution of the Go SSA with z3, counterexamples replayed natively","level":"model_checking",
          "level_note":NOTES.get(i,"Bounded: holds for every input within the bounds given in DESIGN.md and in the evidence file. Trusts the SSA construction, the interpreter in /verif/engine (sampled paths are replayed natively) and z3 (sampled queries are re-decided by cvc5).")})
    else:
        na.append({"property":i,"reason":NA.get(i,"no check built yet")})
m={"version":1,"setup_cmd":"./check.sh setup","checks":checks,"not_applicable":na,
   "notes":"All checks share one engine (/verif/engine) and harnesses (/verif/harness); see DESIGN.md. No hooks in /repo are needed: harnesses are added by overlay."}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')
