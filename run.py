#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks (see DESIGN.md).

run.py --property P01 [--tier quick|thorough] [--replay FILE] [--jobs N]

Spawns worker processes that execute the real pybrain code of $VP_REPO (default /repo)
under the monitors of vp/<property>.py, merges what the monitors observed, writes
evidence/<property>.json and decides the exit status:
  0  every monitored execution satisfied the property
  1  VIOLATION property=<id> replay=<path>
  2  the check could not decide (harness failure, nothing observed)
"""
import argparse, json, os, subprocess, sys, tempfile, time, shutil, signal

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get('VP_PYTHON', '/opt/pypyvenv/bin/python')
REPO = os.environ.get('VP_REPO', '/repo')
LIMIT = {'quick': 780, 'thorough': 3000}
# time after which a worker starts no further case (generous: the quick tier needs a fraction)
SOFT = {'quick': 420, 'thorough': 1500}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--selfcheck', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick',
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VP_JOBS') or 8))
    ap.add_argument('--kind', help='only cases of this kind (debugging)')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    if a.selfcheck:
        env = dict(os.environ, PYTHONPATH=REPO + os.pathsep + HERE, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
        return subprocess.call([PY, '-B', '-c', 'import numpy, scipy, pybrain, vp.core; print("ready")'], env=env)
    if not a.property:
        ap.error('--property is required')
    seed = int(os.environ.get('VERIF_SEED') or 1)
    prop, tier = a.property, a.tier
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO + os.pathsep + HERE, PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1',
               OMP_NUM_THREADS='1', MPLBACKEND='Agg', VP_REPO=REPO, TMPDIR=work,
               HOME=work)
    jobs = 1 if a.replay else max(1, a.jobs)
    procs = []
    try:
        for i in range(jobs):
            out = os.path.join(work, 'w%d.json' % i)
            cmd = [PY, '-B', os.path.join(HERE, 'vp', 'worker.py'), '--property', prop, '--tier', tier,
                   '--seed', str(seed), '--shard', str(i), '--of', str(jobs), '--out', out,
                   '--soft', str(SOFT[tier])]
            if a.replay:
                cmd += ['--replay', os.path.abspath(a.replay)]
            if a.kind:
                cmd += ['--kind', a.kind]
            log = open(os.path.join(work, 'w%d.log' % i), 'w')
            p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=work,
                                 start_new_session=True)
            procs.append((p, out, log))
        errors, res = [], []
        if os.environ.get('VP_FAILFAST'):
            # self-assessment only (tools/mutate.py): the first worker that saw a violation ends the run
            while any(p.poll() is None for p, _, _ in procs) and time.time() - t0 < LIMIT[tier]:
                time.sleep(.2)
                for p, out, log in procs:
                    if os.path.exists(out):
                        with open(out) as f:
                            if json.load(f)['violations']:
                                print('VIOLATION property=%s (stopped at the first one)' % prop)
                                return 1
        for p, out, log in procs:
            left = LIMIT[tier] - (time.time() - t0)
            try:
                p.wait(timeout=max(1, left))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                errors.append('worker exceeded the time limit')
            log.close()
            if os.path.exists(out):
                with open(out) as f:
                    res.append(json.load(f))
            else:
                with open(log.name) as f:
                    tail = f.read()[-3000:]
                errors.append('worker produced no result (rc %s): %s' % (p.returncode, tail))
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(work, ignore_errors=True)

    known = {}
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        with open(kf) as f:
            for k in json.load(f).get('known', []):
                known[(k['property'], k['key'])] = k['what']

    events, sigs, samples, viols, n = {}, set(), [], [], 0
    skipped = 0
    for r in res:
        n += r['cases']
        skipped += r['skipped']
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        sigs.update(r['sigs'])
        samples += r['samples']
        viols += r['violations']
        errors += r['errors']
    viols.sort(key=lambda v: (v['kind'], v['idx'], v['key']))
    new, seen_known = [], {}
    for v in viols:
        if (prop, v['key']) in known:
            seen_known.setdefault(v['key'], v)
        else:
            new.append(v)
    meta = res[0] if res else {}
    expect = meta.get('expect', [])
    if not a.replay and not a.kind and not new and not errors:
        for e in expect:
            if not events.get(e):
                errors.append('monitor event %r was never observed' % e)
        if n == 0:
            errors.append('no case ran')
        # a finding that is no longer reproduced is not an alarm, only a note
        for (p_, k_), what in known.items():
            if p_ == prop and k_ not in seen_known:
                print('NOTE known finding %s not observed in this run' % k_)
    samples.sort(key=lambda s: json.dumps(s, sort_keys=True))
    step = max(1, len(samples) // 12)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': n, 'distinct_nontrivial': len(sigs),
            'rule': meta.get('rule', ''), 'samples': samples[::step][:14],
            'monitor_events': dict(sorted(events.items())),
            'cases_by_kind': _sum_kinds(res), 'cases_not_started_for_time': skipped,
            'workers': len(res),
        },
        'assumptions': meta.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
        'known_findings_observed': sorted(seen_known),
    }
    if not a.replay and not a.kind and not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
            f.write('\n')
    for k, v in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s [%s]' % (prop, known[(prop, k)], k))
    if a.verbose:
        print(json.dumps(evidence, indent=1, sort_keys=True))
    if new:
        outdir = os.path.join(HERE, 'out')
        os.makedirs(outdir, exist_ok=True)
        shown = {}
        for v in new:
            shown.setdefault(v['key'], v)
        for v in list(shown.values())[:8]:
            path = a.replay or os.path.join(outdir, '%s-%s-%d-%d.json' % (prop, v['kind'], seed, v['idx']))
            if not a.replay:
                with open(path, 'w') as f:
                    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'kind': v['kind'],
                               'idx': v['idx'], 'key': v['key'], 'message': v['message']}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  [%s] %s' % (v['key'], v['message'][:1500].replace('\n', '\n  ')))
        print('%d violating cases, %d distinct keys (%d cases run, %.1fs)'
              % (len(new), len(shown), n, time.time() - t0))
        return 1
    if errors:
        for e in errors[:5]:
            print('CHECK-ERROR property=%s %s' % (prop, e))
        return 2
    print('OK property=%s tier=%s seed=%d cases=%d distinct=%d events=%d wall=%.1fs'
          % (prop, tier, seed, n, len(sigs), sum(events.values()), time.time() - t0))
    return 0


def _sum_kinds(res):
    d = {}
    for r in res:
        for k, v in r['by_kind'].items():
            d[k] = d.get(k, 0) + v
    return dict(sorted(d.items()))


if __name__ == '__main__':
    sys.exit(main())
