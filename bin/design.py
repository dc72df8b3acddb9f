"""Assemble DESIGN.md: docs/head.md, a section per property (from props.py, checks.py and docs/method.md), docs/tail.md."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meth, cur = {}, None
for ln in open(V + '/docs/method.md'):
    m = re.match(r'^## (C\d+)', ln)
    if m:
        cur = m.group(1)
        meth[cur] = []
    elif cur:
        meth[cur].append(ln.rstrip())
out = [open(V + '/docs/head.md').read().rstrip(), '', '# 3. Property by property', '']
for pid, p in PROPS.items():
    c = CHECKS[pid]
    out.append(f'### {pid} {p["title"]}')
    out.append('')
    out += [x for x in meth[pid] if x]
    out.append('')
    out.append('*Runs:* ' + '; '.join(f'`{r["exe"]} {" ".join(r["args"])}` [{r["variant"]}, {r["shards"]} processes]' for r in c['runs'])
               + '. *Counted as explored:* ' + c['rule'] + '. *Fails as a check error below:* '
               + ', '.join(f'{k} {v}' for k, v in c['min_events'].items()) + '.')
    if c['assumptions']:
        out.append('*Bounds and assumptions:* ' + '; '.join(c['assumptions']) + '.')
    out.append('')
import json
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    j = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append(f'| {d} | {j["property"]} | {j["needs"]} | {j.get("caught_by", j["property"])} |')
extra = V + '/docs/mutants.md'
rows = '\n'.join(rows) + ('\n\n' + open(extra).read().rstrip() if os.path.exists(extra) else '')
out.append(open(V + '/docs/tail.md').read().rstrip().replace('SEEDTABLE', rows))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
