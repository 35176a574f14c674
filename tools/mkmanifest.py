#!/usr/bin/env python3
import json,re,os
V="/verif"
props=[json.loads(l) for l in open(f"{V}/properties.jsonl")]
claims=json.load(open(f"{V}/tools/claims.json")) # id -> level_note
na=json.load(open(f"{V}/tools/not_applicable.json"))
checks=[]
for p in props:
    i=p["id"]
    if i in claims:
        checks.append(dict(property=i,quick_cmd=f"bash run.sh {i} quick",thorough_cmd=f"bash run.sh {i} thorough",
          evidence_file=f"evidence/{i}.json",
          technique="bounded symbolic execution of the real code (go/ssa) with SMT queries (z3), native replay",
          level="model_checking",level_note=claims[i]))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,
  not_applicable=[dict(property=p["id"],reason=na.get(p["id"],"not built yet")) for p in props if p["id"] not in claims],
  notes="No hooks are needed in /repo: harnesses use the exported API, and package main is reached through a build overlay.")
json.dump(m,open(f"{V}/MANIFEST.json","w"),indent=1)
