#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from dev/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NA

ROOT = os.path.dirname(HERE)
P = 'LinearResponseVariationalBayes/'
TECH = 'static abstract interpretation of the source into symbolic value graphs (all-paths, sizes symbolic) against contracts'
LEVEL = ('Obligations over the value graph of the current source: "proved" ones hold for every input of every size (or of each '
         'enumerated size where no summary for all sizes exists); "agrees" ones are graph equivalences decided by random '
         'interpretation, hence with a small one-sided error. Trusts the models of numpy, scipy and autograd in sa/ and real '
         'arithmetic without rounding or overflow. ')
lines, checks, na = [], [], []
for p in PROPS:
    lines.append(dict(id=p['id'], title=p['title'], statement=p['statement'],
                      quantifier=dict(over=p.get('over', ['inputs']), text=p['all']),
                      why_tests_cant=p['why'],
                      anchors=dict(files=[P + f for f in p['files']],
                                   mechanism=[dict(name=n, where=P + w) for n, w in p['mech']])))
    if not p.get('na'):
        checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s --tier quick' % p['id'],
                           thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'],
                           technique=p.get('tech', TECH), level='other', level_note=LEVEL + p.get('note', '')))
    else:
        na.append(dict(property=p['id'], reason=p['na']))
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
    assert p['statement'].count('. ') <= 2, p['id']
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
    for l in lines:
        fh.write(json.dumps(l) + '\n')
man = dict(version=1, setup_cmd='python3-vt -c "import numpy, scipy; import sys; sys.path.insert(0, \'.\'); import sa.runner"',
           checks=checks, not_applicable=na)
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')
import subprocess
print(len(checks), 'checks', len(na), 'not applicable')
