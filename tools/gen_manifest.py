#!/usr/bin/env python3
"""Regenerates MANIFEST.json: a check for every property that has a harness, not_applicable for the rest."""
import json, os, re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
have=set()
for d,_,fs in os.walk(os.path.join(here,"harness")):
    for f in fs:
        if f.endswith(".go"):
            have|=set(re.findall(r"^func H_([A-Z]\d\d)_",open(os.path.join(d,f)).read(),re.M))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in have:
        checks.append({"property":i,"quick_cmd":f"./check {i} quick","thorough_cmd":f"./check {i} thorough",
          "evidence_file":f"evidence/{i}.json",
          "technique":"symbolic execution of the repository's Go SSA with an SMT solver (z3), bounded; counterexamples replayed natively",
          "level":"model_checking",
          "level_note":"Bounded: the solver covers every value of the symbolic inputs within the bounds in evidence/%s.json (name lengths, list sizes, nesting); larger inputs are outside. Trusted: the engine's SSA semantics and its models of library functions (listed in DESIGN.md), both cross-checked natively on sampled paths of every run; z3."%i})
    else:
        na.append({"property":i,"reason":"no check built yet"})
json.dump({"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":na,
  "notes":"No hooks in /repo: harnesses are overlaid at build time. Commits in /repo are fix: commits only."},
  open(os.path.join(here,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
print(len(checks),"checks",len(na),"not applicable")
