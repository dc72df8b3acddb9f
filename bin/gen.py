#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from props import PROPS, NOT_APPLICABLE
from checks import CHECKS
ids = sorted(p for p in PROPS if p in CHECKS or p in NOT_APPLICABLE)
missing = [p for p in CHECKS if p not in PROPS]
assert not missing, missing
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for i in ids:
        p = PROPS[i]
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
man = dict(version=1, setup_cmd='python3 bin/vrun.py setup', checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        man['checks'].append(dict(property=i, quick_cmd=f'python3 bin/vrun.py check {i}',
                                  thorough_cmd=f'VERIF_TIER=thorough python3 bin/vrun.py check {i}',
                                  technique=PROPS[i]['technique'], level=CHECKS[i]['level'], level_note=PROPS[i]['note']))
    else:
        man['not_applicable'].append(dict(property=i, reason=NOT_APPLICABLE[i]))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(man['checks']), 'checks;', len(ids), 'properties')
for p in PROPS:
    if p not in ids:
        print('no check yet:', p)
