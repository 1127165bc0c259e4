"""Runs one shard of the cases of a property under its monitors; writes a JSON result."""
import argparse, importlib, json, os, random, signal, sys, time, traceback, zlib, warnings

ap = argparse.ArgumentParser()
for o in ('property', 'tier', 'out', 'replay', 'kind'):
    ap.add_argument('--' + o)
for o in ('seed', 'shard', 'of', 'soft'):
    ap.add_argument('--' + o, type=int)
A = ap.parse_args()
t0 = time.time()
warnings.simplefilter('ignore')

import numpy
import logging
logging.disable(logging.CRITICAL)
from vp import core

COVER = os.environ.get('VP_COVER')      # self-assessment only (tools/coverage.py)
if COVER:
    from vp import cover
    cover.start(os.environ['VP_REPO'])

mod = importlib.import_module('vp.' + A.property.lower())


class CaseTimeout(BaseException):
    pass


def on_alarm(sig, frame):
    # a slow machine is not a hang: a case has its seconds of processor time, and three times as many to wait
    if time.process_time() - began[0] < .9 * CASE_S and time.time() - began[1] < 3 * CASE_S:
        signal.alarm(max(1, CASE_S // 6))
        return
    raise CaseTimeout()


began = [0, 0]


signal.signal(signal.SIGALRM, on_alarm)
tier = A.tier
seed = A.seed
replay = None
if A.replay:
    with open(A.replay) as f:
        replay = json.load(f)
    seed, tier = replay['seed'], replay['tier']

tasks = []
kinds = {}
for name, fn, nq, nt in mod.KINDS:
    kinds[name] = fn
    for i in range(nq if tier == 'quick' else nt):
        tasks.append((name, i))
if A.kind:
    tasks = [t for t in tasks if t[0] == A.kind]
random.Random(12345).shuffle(tasks)
tasks = tasks[A.shard::A.of]
if replay:
    tasks = [(replay['kind'], replay['idx'])]

res = {'cases': 0, 'skipped': 0, 'events': {}, 'sigs': [], 'samples': [], 'violations': [],
       'errors': [], 'by_kind': {}, 'rule': mod.RULE, 'expect': getattr(mod, 'EXPECT', []),
       'assumptions': getattr(mod, 'ASSUMPTIONS', [])}
sigs = set()
devnull = open(os.devnull, 'w')
CASE_S = getattr(mod, 'CASE_SECONDS', 90)
sampled = {}
perkey = {}

for name, idx in tasks:
    if time.time() - t0 > A.soft:
        res['skipped'] += 1
        continue
    s = zlib.crc32(('%d/%s/%s/%d' % (seed, A.property, name, idx)).encode())
    random.seed(s)
    numpy.random.seed(s)
    numpy.seterr(all='ignore')
    c = core.Case(name, idx, tier, s)
    began[:] = [time.process_time(), time.time()]
    signal.alarm(CASE_S)
    so = sys.stdout
    if not replay:
        sys.stdout = devnull
    try:
        try:
            kinds[name](c)
        finally:
            signal.alarm(0)
            sys.stdout = so
    except core.Violation as v:
        c.fail(v.key, v.msg)
    except CaseTimeout:
        c.fail('hang/' + name, 'case did not finish within %d s\n%s' % (CASE_S, traceback.format_exc(limit=-6)))
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ''
        for fr in tb:
            if fr.filename.startswith(os.environ.get('VP_REPO', '/repo') + '/'):
                where = '%s:%s' % (os.path.basename(fr.filename), fr.name)
        c.fail('exception/%s/%s/%s' % (name, type(e).__name__, where), traceback.format_exc(limit=-8))
    res['cases'] += 1
    res['by_kind'][name] = res['by_kind'].get(name, 0) + 1
    for k, v in c.events.items():
        res['events'][k] = res['events'].get(k, 0) + v
    sigs.update(c.sigs)
    if c.samples and sampled.get(name, 0) < 2:
        sampled[name] = sampled.get(name, 0) + 1
        res['samples'].append({'kind': name, 'idx': idx, 'case': c.samples[0]})
    if c.violations and os.environ.get('VP_FAILFAST'):
        # self-assessment only (tools/mutate.py): one violation is enough
        key, msg = c.violations[0]
        res['violations'].append({'kind': name, 'idx': idx, 'key': key, 'message': msg})
        break
    for key, msg in c.violations:
        perkey[key] = perkey.get(key, 0) + 1
        if perkey[key] <= 5:
            res['violations'].append({'kind': name, 'idx': idx, 'key': key, 'message': msg})
            if replay:
                print(key, msg)
res['sigs'] = sorted(sigs)
if COVER:
    cover.dump(os.path.join(COVER, '%s.%d.json' % (A.property, A.shard)))
with open(A.out + '.tmp', 'w') as f:
    json.dump(res, f, default=str)
os.rename(A.out + '.tmp', A.out)
os._exit(0)
