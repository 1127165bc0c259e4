#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run: python3 tools/mkprops.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, technique, note, state=None):
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                       why_tests_cant=why,
                       anchors=dict(files=['pybrain/' + f for f in files],
                                    mechanism=[dict(name=n, where=w) for n, w in mech])), technique, note))


exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())

for p, _, _ in PROPS:
    assert len(p['title']) <= 80, p['title']
    assert os.path.exists(os.path.join(HERE, 'vp', p['id'].lower() + '.py')), p['id']
PROPS.sort(key=lambda x: x[0]['id'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _, _ in PROPS:
        f.write(json.dumps(p) + '\n')
man = {
    'version': 1,
    'setup_cmd': 'python3 run.py --selfcheck',
    'hooks': {'guard': 'VP_HOOKS', 'enable': 'no hook is compiled into pybrain: the monitors attach from outside '
              '(subclassing, wrapping of callables, custom modules); the variable is reserved and unused',
              'source_commits': []},
    'checks': [dict(property=p['id'], quick_cmd='python3 run.py --property %s --tier quick' % p['id'],
                    thorough_cmd='python3 run.py --property %s --tier thorough' % p['id'],
                    evidence_file='evidence/%s.json' % p['id'], technique=t, level='exploration', level_note=n)
               for p, t, n in PROPS],
    'not_applicable': NA,
    'notes': 'All checks run the real pybrain code of /repo in worker processes; see DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties')
