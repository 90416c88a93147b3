#!/usr/bin/env python3
"""Developer tool: run each task of the library alone for a few seeds (via replay files) and list failures."""
import subprocess, re, sys, concurrent.futures as cf
names=re.search(r'const task tasks\[\]=\{(.*?)\};',open('/verif/sim/props/tasks.c').read(),re.S).group(1)
names=re.findall(r'T\((\w+),',names)
lo,hi=(int(x) for x in sys.argv[1].split('-')) if len(sys.argv)>1 and '-' in sys.argv[1] else (0,40)
only=[a for a in sys.argv[1:] if '-' not in a]
def one(a):
    i,n,s,f1,f2=a
    p='/tmp/each_%d_%d_%d%d.replay'%(i,s,f1,f2)
    open(p,'w').write('apsim-replay 1\nproperty C08\nscenario history\nverif_seed 1\nrun_index 0\nrun_seed 5\nclass x\nhash 0\nW 5 %d %d %d %d 0\nend\n'%(i,s,f1,f2))
    r=subprocess.run(['/verif/build/apsim','replay',p],capture_output=True,text=True)
    __import__('os').unlink(p) if 'verdict=0' in r.stdout else 0
    return n,s,f1,f2,r.stdout+r.stderr
jobs=[(i,n,s,f1,f2) for i,n in enumerate(names) if not only or n in only for s in range(lo,hi) for f1,f2 in((0,0),(1,2),(3,1))]
seen={}
with cf.ThreadPoolExecutor(8) as ex:
    for n,s,f1,f2,o in ex.map(one,jobs):
        if 'verdict=0' not in o:
            l=[x for x in o.splitlines() if x.strip()]
            pc=re.search(r'pc (0x\w+)',o)
            k=(n,l[0][:60] if not pc else pc.group(1))
            if k in seen: seen[k]+=1; continue
            seen[k]=1
            loc=subprocess.run(['addr2line','-e','/verif/build/apsim','-f',pc.group(1)],capture_output=True,text=True).stdout.replace('\n',' ') if pc else ''
            print(n,s,f1,f2,' / '.join(l[:2])[:300],loc)
print(seen)
