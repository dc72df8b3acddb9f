#!/usr/bin/env python3
"""Developer helper: vtry.py VARIANT EXE MODE [seed [shards [tier]]] - run shards in parallel, print a concise summary."""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vrun
from concurrent.futures import ThreadPoolExecutor
v, exe, mode = sys.argv[1:4]
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
shards = int(sys.argv[5]) if len(sys.argv) > 5 else 8
tier = sys.argv[6] if len(sys.argv) > 6 else 'quick'
to = int(os.environ.get('TO', '600'))
out = f'/tmp/vtry/{exe}-{mode}-{v}'
os.makedirs(out, exist_ok=True)
run = dict(variant=v, exe=exe, args=[mode], shards=shards)
with ThreadPoolExecutor(8) as ex:
    rs = list(ex.map(lambda s: vrun.run_one(run, s, seed, tier, out, f's{s}', to), range(shards)))
keys, evs, evals, H = {}, {}, 0, set()
for s, r in enumerate(rs):
    if r['rc'] or r['hung'] or not r['cov']:
        print(f'shard {s}: rc={r["rc"]} hung={r["hung"]} wall={r["wall"]:.0f} last={r["last"][:300]}')
        if not r['viols']:
            print('   ', vrun.crash_key(r), r['err'][-600:])
    for k, d in r['viols']:
        keys.setdefault(k, []).append((s, d))
    if r['cov']:
        evals += r['cov']['evaluations']
        for k, n in r['cov']['events'].items():
            evs[k] = evs.get(k, 0) + n
    H |= r['hashes']
N = int(os.environ.get('N', '500'))
for k, l in sorted(keys.items()):
    print(f'## {k}  x{len(l)} (shard {l[0][0]})\n   {l[0][1][:N]}')
print(f'evals={evals} distinct={len(H)} max_wall={max(r["wall"] for r in rs):.1f} events={evs}')
