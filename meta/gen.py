#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (run by hand after a change of the table below)"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NOT = [], []
I = 'include/spb/'
S = 'src/spb-proto-compiler/'


def P(id, title, statement, over, quant, why, files, mech, observe, technique, note, level='model_checking', claim=True, reason=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
    if claim:
        CHECKS.append(dict(property=id, quick_cmd='python3 check.py %s quick' % id, thorough_cmd='python3 check.py %s thorough' % id,
                           evidence_file='evidence/%s.json' % id, technique=technique, level=level, level_note=note))
    else:
        NOT.append(dict(property=id, reason=reason))


CHECKS = []
exec(open(os.path.join(ROOT, 'meta', 'props.py')).read())
assert len({p['id'] for p in PROPS}) == len(PROPS)
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as h:
    for p in PROPS:
        h.write(json.dumps(p) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as h:
    json.dump(dict(version=1, setup_cmd='python3 -m py_compile check.py build.py schema/dsl.py schema/fixtures.py', checks=CHECKS, not_applicable=NOT,
                   notes='Every check builds the compiler, the library headers and the generated code from /repo itself; no hooks. '
                         'python3 check.py <id> quick|thorough [--only N] replays one case.'), h, indent=1)
    h.write('\n')
