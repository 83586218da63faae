#!/usr/bin/env python3
"""check.py run <property> [--tier quick|thorough] [--seed N]   decide one property by seeded simulation
   check.py replay <file>                                      re-execute a recorded violation
   check.py determinism [runs]                                 compare trace hashes of repeated runs
Exit 0: held on everything explored; 1: violated (VIOLATION line); 3: build failed; 4: the simulator gave no answer."""
import json, os, subprocess, sys, time
import build
from plan import PLAN, RULES, ASSUME, STUBS, LEVEL_NOTE

ROOT = build.ROOT
SMALL_WATCHDOG = 60

def binary_options(variant):
    if variant.endswith('F'): return ['watchdog=1500']
    if variant.endswith('l'): return ['watchdog=240']
    return ['watchdog=%d' % SMALL_WATCHDOG]

def run_step(d, step, seed, tier, replay, deadline):
    variant, family, quick, thorough, opts = step
    runs = quick if tier == 'quick' else thorough
    cmd = [os.path.join(d, variant), 'run', '--family', family, '--seed', str(seed), '--runs', str(runs), '--jobs', str(min(8, os.cpu_count() or 1)),
           '--replay-out', replay, '--maxwall', '%.1f' % max(1.0, deadline - time.time()), '--minwall', '45'] + (['--thorough'] if tier == 'thorough' else []) + binary_options(variant) + opts
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    line = [l for l in p.stdout.splitlines() if l.startswith('{')]
    if not line: return dict(error='no result from %s: exit %d %s' % (variant, p.returncode, p.stderr[-300:]), runs=0)
    r = json.loads(line[-1], strict=False); r['rc'] = p.returncode
    return r

def seed_for(seed, prop, i):
    import hashlib
    return int.from_bytes(hashlib.sha256(('%d/%s/%d' % (seed, prop, i)).encode()).digest()[:7], 'big')

def add(a, b):
    for k, v in b.items(): a[k] = a.get(k, 0) + v

def run(prop, tier, seed):
    t0 = time.time(); steps = [s for s in PLAN[prop] if (s[2] if tier == 'quick' else s[3]) > 0]
    try: d = build.ensure(sorted({s[0] for s in steps}))
    except RuntimeError as e: print('build failed:', e); return 3
    t_build = time.time() - t0
    os.makedirs(ROOT + '/replays', exist_ok=True); os.makedirs(ROOT + '/evidence', exist_ok=True)
    cap = 780 if tier == 'quick' else 24 * 3600
    total = dict(runs=0, distinct_traces=0, distinct_nontrivial=0, distinct_schedules=0, steps=0, shared_accesses=0, switches=0, sim_ns=0, threads=0, processes=0, checks=0, entropy_bytes=0)
    faults, probes, samples, per, errors, violation = {}, {}, [], [], [], None
    t1 = time.time()
    for i, s in enumerate(steps):
        replay = '%s/replays/%s-%s-%s.json' % (ROOT, prop, s[0], s[1])
        r = run_step(d, s, seed_for(seed, prop, i), tier, replay, t0 + cap)
        for k in total: total[k] += r.get(k, 0)
        add(faults, r.get('faults', {})); add(probes, r.get('probes', {}))
        samples += ['[%s/%s] %s' % (s[0], s[1], x) for x in r.get('samples', [])[:3]]
        per.append(dict(build=s[0], workload=s[1], runs=r.get('runs', 0), planned=s[2] if tier == 'quick' else s[3], wall_s=r.get('wall_s', 0), distinct_traces=r.get('distinct_traces', 0), distinct_schedules=r.get('distinct_schedules', 0), max_run_s=r.get('max_run_s', 0)))
        print('%s %s/%s: %d runs in %.1f s, %d checks%s' % (prop, s[0], s[1], r.get('runs', 0), r.get('wall_s', 0), r.get('checks', 0), ', ERROR ' + r['error'] if r.get('error') else ''), flush=True)
        if r.get('violation'): violation = dict(r['violation'], build=s[0], workload=s[1]); break
        if r.get('error'): errors.append('%s/%s: %s' % (s[0], s[1], r['error']))
    sim_wall = time.time() - t1
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - t0, 2), violations=1 if violation else 0,
        coverage=dict(evaluations=total['runs'], distinct_nontrivial=total['distinct_nontrivial'], rule=RULES, samples=samples[:12],
            oracle_checks=total['checks'], distinct_event_traces=total['distinct_traces'], distinct_thread_schedules=total['distinct_schedules'],
            runs_per_hour=int(total['runs'] / max(sim_wall, 0.01) * 3600), simulated_seconds=round(total['sim_ns'] / 1e9, 3), simulated_processes=total['processes'], simulated_threads=total['threads'],
            context_switches=total['switches'], shared_accesses_scheduled=total['shared_accesses'], steps=total['steps'], entropy_bytes_delivered=total['entropy_bytes'],
            faults_injected=faults, conditions_reached=probes, workloads=per, build_s=round(t_build, 2), components=STUBS, exhaustive=False),
        assumptions=ASSUME)
    if violation: ev['coverage']['violation'] = violation
    if errors: ev['coverage']['errors'] = errors
    tmp = ROOT + '/evidence/%s.json.tmp' % prop
    json.dump(ev, open(tmp, 'w'), indent=1); os.replace(tmp, ROOT + '/evidence/%s.json' % prop)
    if violation:
        print('%s: %s (%s/%s, seed %d, %d choices after minimisation)' % (violation['class'], violation['message'], violation['build'], violation['workload'], violation['seed'], violation['choices']))
        print('VIOLATION property=%s replay=%s' % (prop, violation['replay']), flush=True); return 1
    if errors:
        print('no answer: ' + '; '.join(errors)); return 4
    print('%s held on %d simulated runs (%d distinct traces) in %.0f s' % (prop, total['runs'], total['distinct_traces'], time.time() - t0)); return 0

def replay(path):
    r = json.load(open(path), strict=False); d = build.ensure([r['binary']])
    p = subprocess.run([os.path.join(d, r['binary']), 'replay', os.path.abspath(path)]); return p.returncode

def determinism(n):
    """every family: the same seeds twice, in different processes, with different neighbours"""
    d = build.ensure(sorted({s[0] for p in PLAN for s in PLAN[p] if s[2]})); bad = 0; seen = set(); tot = 0
    for p in PLAN:
        for s in PLAN[p]:
            if not s[2] or (s[0], s[1], tuple(s[4])) in seen: continue
            seen.add((s[0], s[1], tuple(s[4]))); k = min(n, s[2]); procs = []
            for first, cnt in ((0, k), (0, k), (k // 2, k - k // 2)):
                procs.append(subprocess.Popen([os.path.join(d, s[0]), 'hash', '--family', s[1], '--seed', '77', '--runs', str(cnt), '--first', str(first)] + binary_options(s[0]) + s[4], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=dict(os.environ, JUNK='x' * (37 * first))))
            o = [{l.split()[0]: l for l in q.communicate()[0].splitlines()} for q in procs]
            diff = [i for i in o[0] if o[0][i] != o[1].get(i) or (i in o[2] and o[2][i] != o[0][i])]; tot += len(o[0])
            print('%s/%s: %d runs, %d differ' % (s[0], s[1], len(o[0]), len(diff)), diff[:5], flush=True); bad += len(diff)
    print('%d seeds compared, %d differ' % (tot, bad)); return 1 if bad else 0

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[:1] == ['run']:
        tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1'))
        if '--tier' in a: tier = a[a.index('--tier') + 1]
        if '--seed' in a: seed = int(a[a.index('--seed') + 1])
        sys.exit(run(a[1], tier if tier in ('quick', 'thorough') else 'quick', seed))
    if a[:1] == ['replay']: sys.exit(replay(a[1]))
    if a[:1] == ['determinism']: sys.exit(determinism(int(a[1]) if len(a) > 1 else 40))
    print(__doc__); sys.exit(2)
