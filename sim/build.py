#!/usr/bin/env python3
"""Stage /repo's sources as the real build does, compile them with memory-access hooks, and link them with the
simulator.  Usage: build.py [REPO] [OUTDIR].  Prints the path of the binary.  Incremental by content hash."""
import os, sys, subprocess, hashlib, concurrent.futures as cf, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = sys.argv[1] if len(sys.argv) > 1 else '/repo'
OUT = sys.argv[2] if len(sys.argv) > 2 else os.path.join(os.path.dirname(HERE), 'build')
LIBFLAGS = ('-g -O2 -fstack-reuse=none -fopenmp -fsanitize=thread --param tsan-instrument-func-entry-exit=0 '
            '-fno-pie -no-pie -DHAVE_INLINE -fno-builtin-strlen -fno-builtin-strcpy -fno-builtin-strcmp -w').split()
HFLAGS = '-g -O1 -Werror=implicit-function-declaration -fno-pie -Wall -Wno-unused -Wno-address -Wno-parentheses -Wno-misleading-indentation -Wno-format-truncation -Wno-format-security'.split()

def run(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode:
        sys.stderr.write('BUILD FAILED: %s\n%s\n' % (' '.join(cmd), r.stdout[-4000:]))
        sys.exit(3)
    return r.stdout
def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()
def rd(p):
    with open(p, 'rb') as f: return f.read()
def put(p, data):
    if os.path.exists(p) and rd(p) == data: return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f: f.write(data)

os.makedirs(OUT, exist_ok=True)
lock = open(os.path.join(OUT, '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
src = os.path.join(OUT, 'src'); obj = os.path.join(OUT, 'obj')
os.makedirs(src, exist_ok=True); os.makedirs(obj, exist_ok=True)
prep = os.path.join(REPO, 'install/prep_variadics.m4')
srcs = []; headers = {}
def m4(f):
    r = subprocess.run(['m4', '-P', 'install/prep_variadics.m4', f], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode: sys.stderr.write(r.stderr.decode()); sys.exit(3)
    return r.stdout
top = sorted(f for f in os.listdir(REPO) if f.endswith('.c'))
want = set()
for f in top:
    data = None
    name = f[:-5] + '.c' if f.endswith('.m4.c') else f
    if name in ('asprintf.c', 'apop_db_mysql.c'): 
        if name == 'asprintf.c': continue
    data = m4(f) if f.endswith('.m4.c') else rd(os.path.join(REPO, f))
    put(os.path.join(src, name), data); want.add(name)
    if not name.startswith('apop_db_'): srcs.append(name)
for d in ('model', 'transform'):
    for f in sorted(os.listdir(os.path.join(REPO, d))):
        if f.endswith('.c'):
            put(os.path.join(src, d, f), rd(os.path.join(REPO, d, f))); srcs.append(d + '/' + f)
for f in sorted(os.listdir(REPO)):
    if f.endswith('.h') and not f.endswith('.m4.h'): put(os.path.join(src, f), rd(os.path.join(REPO, f)))
put(os.path.join(src, 'apop.h'), m4('apop.m4.h').replace(b'@Autoconf_no_atomics@', b'0'))
put(os.path.join(src, 'config.h'), rd(os.path.join(HERE, 'config.h')))
hdr = sha(*[rd(os.path.join(src, f)) for f in sorted(os.listdir(src)) if f.endswith('.h')])
dbinc = sha(*[rd(os.path.join(src, f)) for f in sorted(os.listdir(src)) if f.startswith('apop_db_')])   # included by apop_db.c
simhdr = sha(*[rd(os.path.join(HERE, f)) for f in sorted(os.listdir(HERE)) if f.endswith(('.h', '.def'))],
             *[rd(os.path.join(HERE, 'props', f)) for f in sorted(os.listdir(os.path.join(HERE, 'props'))) if f.endswith('.h')])
jobs = []
for s in srcs:
    o = os.path.join(obj, 'lib_' + s.replace('/', '_')[:-2] + '.o')
    jobs.append((os.path.join(src, s), o, ['gcc'] + LIBFLAGS + ['-I', src, '-DHAVE_CONFIG_H', '-c'], sha(hdr, dbinc) if s == 'apop_db.c' else hdr))
simsrcs = [os.path.join(HERE, f) for f in sorted(os.listdir(HERE)) if f.endswith('.c')] + \
          [os.path.join(HERE, 'props', f) for f in sorted(os.listdir(os.path.join(HERE, 'props'))) if f.endswith('.c')]
for s in simsrcs:
    o = os.path.join(obj, 'sim_' + os.path.basename(s)[:-2] + '.o')
    # the scenarios see the library's public header only
    jobs.append((s, o, ['gcc'] + HFLAGS + ['-I', HERE, '-I', src, '-c'], sha(simhdr, hdr if '/props/' in s else '')))
def comp(j):
    s, o, cmd, extra = j
    key = sha(rd(s), ' '.join(cmd), extra)
    kf = o + '.key'
    if os.path.exists(o) and os.path.exists(kf) and open(kf).read() == key: return False
    run(cmd + [s, '-o', o])
    open(kf, 'w').write(key)
    return True
with cf.ThreadPoolExecutor(8) as ex: ch = list(ex.map(comp, jobs))
exe = os.path.join(OUT, 'apsim')
# objects of files that no longer exist
live = {j[1] for j in jobs}
if any(ch) or not os.path.exists(exe):
    libo = sorted(j[1] for j in jobs if os.path.basename(j[1]).startswith('lib_'))
    simo = sorted(j[1] for j in jobs if os.path.basename(j[1]).startswith('sim_'))
    allo = os.path.join(OUT, 'libapop.o')
    run(['ld', '-r', '-o', allo + '.tmp'] + libo)
    run(['objcopy', '--redefine-syms=' + os.path.join(HERE, 'redefine.syms'), allo + '.tmp', allo])
    os.unlink(allo + '.tmp')
    run(['gcc', '-static', '-no-pie', '-o', exe + '.tmp', *simo, allo, '-Wl,--allow-multiple-definition' if 0 else '-Wl,-w' if 0 else '-Wl,-z,noexecstack', '-lsqlite3', '-lgsl', '-lgslcblas', '-lm', '-lpthread', '-ldl'])
    os.rename(exe + '.tmp', exe)
print(exe)
