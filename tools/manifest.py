#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the properties and the scenarios that exist."""
import json, os, re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(here,'properties.jsonl'))]
have=set(re.findall(r'^S\("(\w+)"',open(os.path.join(here,'sim/scenarios.def')).read(),re.M))
TECH={}
import sys; sys.path.insert(0,os.path.join(here,'sim'))
from budgets import NOTES
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have:
        checks.append({"property":i,"quick_cmd":"python3 check.py %s quick"%i,"thorough_cmd":"python3 check.py %s thorough"%i,
         "technique":"deterministic simulation: "+NOTES.get(i,('seeded search over schedules and faults',''))[0],"level":"exploration","level_note":NOTES.get(i,('',''))[1] or "seeded search, not exhaustive; sequentially consistent memory; GSL and SQLite internals run uninstrumented"})
    else:
        na.append({"property":i,"reason": "no MySQL client library or server in the sandbox: the code cannot be compiled here, so there is nothing to simulate" if i=='N05' else "pure function of its input: no schedule, clock, I/O, crash or multi-party behaviour for a simulator to control" if i[0]=='N' else "check under construction"})
m={"version":1,"setup_cmd":"python3 sim/build.py","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: every seam is put in at compile or link time (compiler callbacks, symbol redirection, simulated OpenMP runtime, SQLite VFS). /repo carries only fix: commits."}
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1)
