#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the properties, the monitors' own declarations and tools/design_tail.md."""
import json, os, re, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(H + '/tools/design_notes.py').read())
prog = r'''
import importlib, json, sys
sys.path.insert(0, %r)
out = {}
for p in json.loads(sys.argv[1]):
    m = importlib.import_module('vp.' + p.lower())
    out[p] = dict(rule=m.RULE, expect=m.EXPECT, ass=getattr(m, 'ASSUMPTIONS', []), kinds=[(n, q, t, ' '.join((f.__doc__ or '').split())) for n, f, q, t in m.KINDS])
print('JSON' + json.dumps(out))
''' % H
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
man = {c['property']: c for c in json.load(open(H + '/MANIFEST.json'))['checks']}
o = subprocess.run(['/opt/pypyvenv/bin/python', '-B', '-W', 'ignore', '-c', prog, json.dumps([p['id'] for p in props])],
                   env=dict(os.environ, PYTHONPATH=os.environ.get('VP_REPO', '/repo'), MPLBACKEND='Agg'), stdout=subprocess.PIPE, text=True).stdout
mods = json.loads(re.search(r'^JSON(.*)$', o, re.M).group(1))
w = [open(H + '/tools/design_head.md').read()]
w.append('## The properties, one by one\n')
for p in props:
    m = mods[p['id']]
    w.append('### %s – %s\n' % (p['id'], p['title']))
    w.append('*Specified:* ' + p['statement'] + '\n')
    w.append('*How it is decided:* ' + ' '.join(D[p['id']].split()) + '\n')
    w.append('*Technique:* ' + man[p['id']]['technique'] + '\n')
    w.append('*Workload* (kind: quick / thorough cases): ' + '; '.join('%s %d / %d%s' % (n, q, t, ' – ' + d.rstrip('.') if d else '') for n, q, t, d in m['kinds']) + '.\n')
    w.append('*Events the monitors must have seen:* ' + ', '.join(m['expect']) + '.\n')
    w.append('*Counting rule:* ' + m['rule'] + '.\n')
    if m['ass']:
        w.append('*Bounds and assumptions:* ' + '; '.join(m['ass']) + '.\n')
    w.append('*Beyond the tests because:* ' + p['why_tests_cant'] + '\n')
w.append(open(H + '/tools/design_tail.md').read())
w.append('\n## Planted bugs\n\nEach was written from the text of the property and the code, confirmed to pass the stable tests, and kept whether or not the check saw it at first.\n')
w.append('| bug | property | needs, in order to show | caught by |\n|---|---|---|---|')
caught = json.load(open(H + '/tools/caught.json')) if os.path.exists(H + '/tools/caught.json') else {}
for b in sorted(os.listdir(H + '/seeded')):
    d = json.load(open(H + '/seeded/%s/meta.json' % b))
    w.append('| %s | %s | %s | %s |' % (b, d['property'], d['needs'].replace('|', '/'), caught.get(b, d['property'])))
w.append('\n' + open(H + '/tools/design_mutation.md').read() if os.path.exists(H + '/tools/design_mutation.md') else '')
open(H + '/DESIGN.md', 'w').write('\n'.join(w))
print(len('\n'.join(w)), 'characters')
