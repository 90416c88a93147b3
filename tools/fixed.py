#!/usr/bin/env python3
"""Rewrites the fixed: lines of known-findings.txt from the fix: commits of a repository clone (argument 1); PROPS gives the property of each, in order."""
import subprocess,sys,os
PROPS="C01 C01 C01 C01 C02 C06 C04 C08 C08 C08 C15 C08 C15 C15 C15 C15 C15 C15 C15 C15 C15 C05 C05 C05 C03 C05 C05 C05 C07 C07 C07 C07 C07 C07 C15 C10 C17 C10 C10 C10 C10 C10 C17 C12 C12 C12 C12 C13 C13 C11 C11 C13 C12 C10 C11 C17 C17 C17 C17 C11 C02 C22 C22 C22 C22 C20 C20 C21 C03 C19 C19 C19 C19 C19 C08 C19 C03 C19 C19 C16 C16 C16 C19 C19 C16 C16 C18 C18 C18 C18 C18 C18 C18 C18 C14 C14 C14 C14 C14 C14 C14 C14 C14 C14 C14 C14 C14 C14 C14 C14 C14 C14 C14 C14 C08 C07 C23 C23 C23 C23 C23 C23 C23 C24 C10 C10 C10 C10 C17 C14 C14 C14 C14 C14 C18 C18 C15 C25 C25 C25 C25 C25 C25 C25 C25 C25 C25 C25 C25 C25 C25 C15 C15 C15 C26 C26 C26 C26 C26 C26 C26 C26 C27 C27 C27 C27 C27 C27 C27 C27 C27 C27 C27 C27 C27 C28 C28 C28 C28 C28 C28 C28 C28 C28 C28 C28 C28 C28 C28 C28 C28 C28".split()
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,here+'/tools')
try:
    from fixed_more import MORE
except ImportError: MORE=[]
log=subprocess.check_output(['git','-C',sys.argv[1],'log','--reverse','--format=%h %s','2c312f2..HEAD'],text=True).splitlines()
P=PROPS+MORE
f=os.path.join(here,'known-findings.txt'); head=[l for l in open(f) if l.startswith('#') or l.startswith('finding:') or l.startswith('known-finding:')]
out=head[:]
for i,l in enumerate(log):
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    out.append('fixed: property=%s %s %s\n'%(P[i] if i<len(P) else 'C??',h,s[5:]))
open(f,'w').writelines(out)
print(len(log),len(P))
