#!/usr/bin/env python3
"""check.py <property-id> : decides one property by seeded simulation of the harnesses registered for it."""
import json, os, subprocess, sys, time, re, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import build as B, harnesses as HN, checks as CK

def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) harness=(\S+) class="([^"]*)" match="([^"]*)" (.*)', l)
            if m: out.append(dict(property=m[1], harness=m[2], cls=m[3], match=m[4], text=m[5].strip()))
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    ck = CK.C[pid]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev_path = os.path.join(VERIF, 'evidence', pid + '.json')
    if os.path.exists(ev_path): os.unlink(ev_path)
    out_dir = os.path.join(VERIF, 'out', pid); shutil.rmtree(out_dir, ignore_errors=True); os.makedirs(out_dir)
    total = float(os.environ.get('VERIF_SECS', ck.get('thorough_s', 600) if tier == 'thorough' else ck.get('quick_s', 30)))
    workers = int(os.environ.get('VERIF_WORKERS', str(os.cpu_count() or 4)))
    known = [k for k in known_findings() if k['property'] == pid]
    results, violations, errors, known_hit = [], [], [], {}
    wsum = sum(h[1] for h in ck['harnesses'])
    t_build = 0.0
    for name, weight, *opt in ck['harnesses']:
        h = HN.H[name]
        tb = time.time()
        try: exe = B.build(name, h)
        except B.BuildError as e:
            print('ERROR property=%s harness %s does not build\n%s' % (pid, name, e)); sys.exit(2)
        t_build += time.time() - tb
        secs = total * weight / wsum
        oj = os.path.join(out_dir, name + '.json')
        kf = os.path.join(out_dir, name + '.known')
        with open(kf, 'w') as f:
            for k in known:
                if k['harness'] == name: f.write('%s\t%s\n' % (k['cls'], k['match']))
        # determinism gate: the same seed twice is the same execution
        sc = subprocess.run([exe, 'selfcheck', '--seed', str(seed), '--runs', str(h.get('selfcheck', 12)), '--property', pid, '--known', kf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if sc.returncode != 0:
            errors.append('%s: not deterministic: %s' % (name, sc.stdout[-500:]))
        r = subprocess.run([exe, 'run', '--seed', str(seed), '--secs', '%.1f' % secs, '--workers', str(workers), '--property', pid, '--replays', out_dir, '--out', oj, '--known', kf] + list(opt),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try: res = json.load(open(oj))
        except Exception:
            errors.append('%s: no result (%s)' % (name, r.stdout[-500:])); continue
        res['selfcheck'] = sc.stdout.strip().split('\n')[-1]
        results.append((name, h, res))
        for v in res['violations']:
            path, _, text = v.partition(' ')
            violations.append((path, text))
        for k, n in res.get('known', {}).items(): known_hit[(name, k)] = n
        errors += ['%s: %s' % (name, e) for e in res['error_messages']]
        if violations: break
    runs = sum(r['runs'] for _, _, r in results); wall = sum(r['wall_s'] for _, _, r in results) or 1e-9
    def tot(k): return sum(r.get(k, 0) for _, _, r in results)
    faults, probes = {}, {}
    for _, _, r in results:
        for k, v in r['faults'].items():
            d = faults.setdefault(k, dict(injected=0, opportunities=0, runs=0))
            for q in d: d[q] += v[q]
        for k, v in r['probes'].items(): probes[k] = probes.get(k, 0) + v
    samples = [s for _, _, r in results for s in r['samples']][:6] or ['no completed run']
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - t0, 2), violations=len(violations),
        coverage=dict(evaluations=runs, distinct_nontrivial=sum(r['distinct_interleavings'] for _, _, r in results),
            rule='One evaluation is one simulated run of a harness: its seed generates the workload (%s), the configuration, every scheduling decision and every fault. '
                 'Two runs count as distinct and non-trivial when the hash of their sequence of thread switches, lock acquisitions and atomic accesses differs; runs without any switch collapse into few hashes.' % ck['workload'],
            samples=samples, runs_completed=tot('ok'), runs_inconclusive=tot('inconclusive'), runs_per_hour=int(runs / wall * 3600), seeds_per_hour=int(runs / wall * 3600),
            simulated_time_s=round(tot('simtime') / 1e9, 3), sync_steps=tot('steps'), instrumented_accesses=tot('plain'), context_switches=tot('switches'), crashes_and_restarts=tot('crashes'),
            distinct_histories=sum(r['distinct_histories'] for _, _, r in results), distinct_abstract_states=sum(r['distinct_states'] for _, _, r in results),
            max_threads=max([r['maxthreads'] for _, _, r in results] or [0]), faults=faults, conditions_reached=probes,
            known_finding_runs={'%s %s' % k: v for k, v in known_hit.items()},
            determinism=[r['selfcheck'] for _, _, r in results], build_s=round(t_build, 1), exploration_s=round(wall, 1),
            per_harness={n: dict(runs=r['runs'], distinct_interleavings=r['distinct_interleavings'], seconds=round(r['wall_s'], 1), real=h.get('real', []) + h.get('sources', []) + h.get('real_headers', []), stub=h.get('stubs', [])) for n, h, r in results}),
        assumptions=ck.get('assumptions', []) + ['thread switches happen only at instrumented memory accesses, atomics and intercepted library calls; execution is sequentially consistent'])
    with open(ev_path + '.tmp', 'w') as f: json.dump(ev, f, indent=1)
    os.replace(ev_path + '.tmp', ev_path)
    print('%s: %d runs, %d distinct interleavings, %.0f s exploration, %.0f s build; faults %s' % (pid, runs, ev['coverage']['distinct_nontrivial'], wall, t_build, {k: v['injected'] for k, v in faults.items()}))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    for path, text in violations:
        print(text)
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if violations: sys.exit(1)
    for e in errors: print('ERROR', e)
    inc = tot('inconclusive')
    if runs and inc > runs * 0.5: print('ERROR too many inconclusive runs'); sys.exit(2)
    sys.exit(2 if errors else 0)
main()
