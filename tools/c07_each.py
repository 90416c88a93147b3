#!/usr/bin/env python3
"""Developer tool: C07 for each task against itself, a few seconds each; one line per task that fails."""
import subprocess, re, sys, os
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names=re.findall(r'T\((\w+),',re.search(r'const task tasks\[\]=\{(.*?)\};',open(HERE+'/sim/props/tasks.c').read(),re.S).group(1))
for n in (sys.argv[2:] or names):
    r=subprocess.run(['python3',HERE+'/check.py','C07','quick'],capture_output=True,text=True,env=dict(os.environ,APSIM_TASK=n,APSIM_SECS=sys.argv[1]))
    o=r.stdout.splitlines()
    if r.returncode==0: print(n,'ok',o[-1][:60],flush=True); continue
    v=[l for l in o if l.startswith('violation')]; m=re.search(r'REPLAY (\S+)',r.stdout)
    at=[l for l in open(m.group(1)).read().splitlines() if l.startswith('# 0x')] if m else []
    print(n,'FAIL',(v or o)[0][:220],at[:3],flush=True)
