#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: rebuild from /repo's working tree, search simulated runs, judge, write evidence.
Exit 0: held on everything explored; 1: VIOLATION line printed; 3: the check itself failed."""
import json, os, subprocess, sys, time, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sim'))
from budgets import BUDGETS, RULES, REAL, STUB, ASSUME
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
seed = int(os.environ.get('VERIF_SEED', '1'))
repo = os.environ.get('APSIM_REPO', '/repo')
out = os.environ.get('APSIM_OUT', os.path.join(HERE, 'build'))
t0 = time.time()
b = subprocess.run([sys.executable, os.path.join(HERE, 'sim', 'build.py'), repo, out], stdout=subprocess.PIPE, text=True)
if b.returncode: print('ERROR: build failed'); sys.exit(3)
exe = b.stdout.strip().splitlines()[-1]
build_s = time.time() - t0
runs, secs = BUDGETS[prop][tier]
if os.environ.get('APSIM_SECS'): secs = float(os.environ['APSIM_SECS']); runs = 10**9
workers = int(os.environ.get('APSIM_WORKERS', '0')) or max(1, min(16, len(os.sched_getaffinity(0))))
rdir = os.path.join(HERE, 'replays') if out == os.path.join(HERE, 'build') else os.path.join(out, 'replays')
known = os.path.join(HERE, 'known-findings.txt')
os.makedirs(rdir, exist_ok=True)
res = os.path.join(out, 'result-%s.json' % prop)
if os.path.exists(res): os.unlink(res)
r = subprocess.run([exe, 'batch', prop, str(seed), str(runs), str(secs), str(workers), res, rdir, known], stdout=subprocess.PIPE, text=True)
sys.stdout.write(r.stdout); sys.stdout.flush()
try: d = json.load(open(res))
except Exception as e: print('ERROR: no result from the simulator:', r.returncode, e); sys.exit(3)
code = r.returncode
if code not in (0, 1): print('ERROR: simulator failed:', d.get('error'))
replay = d['replay']
if code == 1:   # replay gate: a fresh process must reproduce the violation exactly from the file alone
    g = subprocess.run([exe, 'replay', replay], stdout=subprocess.PIPE, text=True)
    if g.returncode != 1:
        print('ERROR: the replay file does not reproduce the violation exactly:', g.stdout); code = 3
    else:
        pcs = re.findall(r'0x[0-9a-f]+', open(replay).read())
        pcs = [p for p in dict.fromkeys(pcs) if p != '0x0'][:400]
        if pcs:
            a = subprocess.run(['addr2line', '-f', '-e', exe] + pcs, stdout=subprocess.PIPE, text=True).stdout.splitlines()
            with open(replay, 'a') as f:
                f.write('# code addresses\n')
                for p, i in zip(pcs, range(0, len(a), 2)): f.write('# %s %s %s\n' % (p, a[i], a[i+1].replace(out + '/src/', '')))
hits = {k['class']: k['hits'] for k in d['known']}
if os.path.exists(known):
    for l in open(known):
        m = re.match(r'finding: property=(\S+) class=(\S+) desc=(.*)', l)
        if m and m.group(1) == prop and hits.get(m.group(2), 0):
            print('KNOWN-FINDING: property=%s %s [%s, %d runs]' % (prop, m.group(3), m.group(2), hits[m.group(2)]))
wall = time.time() - t0
sim_s = d['wall_s']
ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'exploration',
 'coverage': {
  'evaluations': d['runs'], 'distinct_nontrivial': d['distinct_nontrivial'], 'rule': RULES.get(prop, ''), 'samples': d['samples'],
  'simulated_runs': d['runs'], 'runs_ok': d['ok'], 'runs_skipped_as_inapplicable': d['skipped'],
  'runs_per_hour': round(d['runs']*3600/max(sim_s, 1e-3)), 'seeds_per_hour': round(d['runs']*3600/max(sim_s, 1e-3)),
  'simulated_time': {'scheduling_points': d['sched_points'], 'instrumented_memory_accesses': d['mem_accesses'], 'context_switches': d['switches'],
     'note': 'the simulated clock counts scheduling points; the code under test has no wall-clock dependence' + ('; simulated disk time (0.5 ms per write, 5 ms per sync) is kept by the disk model' if d.get('disk_seconds') else ''), 'disk_seconds': d.get('disk_seconds', 0)},
  'faults_injected': d['faults'], 'runs_with_faults': d['runs_with_faults'], 'runs_with_preemptions': d['runs_with_preemptions'],
  'distinct_interleavings': d['distinct_interleavings'], 'distinct_histories': d['distinct_histories'], 'distinct_end_states': d['distinct_end_states'],
  'measures': 'interleaving = hash of the (thread, code address) sequence of context switches; history = hash of all events, faults, switches and work counts of a run; end state = hash of the observed result',
  'max_threads_in_a_run': d['max_threads'], 'rare_conditions_reached': d['probes'], 'scenarios': d['scenarios'],
  'determinism': {'rechecked_runs': d['determinism_rechecks'], 'mismatches': d['determinism_mismatches']},
  'real_components': REAL, 'stub_components': STUB, 'build_s': round(build_s, 2)},
 'assumptions': ASSUME, 'wall_s': round(wall, 2), 'violations': 1 if code == 1 else 0}
if code == 1: ev['coverage']['violation'] = {'class': d['violation_class'], 'message': d['violation_msg'], 'replay': replay}
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
evp = os.path.join(HERE, 'evidence', prop + '.json') if out == os.path.join(HERE, 'build') else os.path.join(out, 'evidence-%s.json' % prop)
with open(evp, 'w') as f: json.dump(ev, f, indent=1)
print('%s %s: %d runs (%d non-trivial distinct), %d distinct interleavings, faults %s, %.1f s' % (prop, tier, d['runs'], d['distinct_nontrivial'], d['distinct_interleavings'], {k: v['injected'] for k, v in d['faults'].items()}, wall))
if code == 1: print('VIOLATION property=%s replay=%s' % (prop, replay))
sys.exit(code)
