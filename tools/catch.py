#!/usr/bin/env python3
"""Author tool: run checks against planted changes, each in a scratch copy.  python3 tools/catch.py [-a] [names...]
-a: run every check, otherwise the property's own check"""
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def one(n, allc):
    w = f'/tmp/catch-{n}'
    sh(f'rm -rf {w}; mkdir -p {w}; git -C /repo archive HEAD | tar -x -C {w}; cd {w} && git apply --unsafe-paths {S}/{n}/patch.diff || (cd {w} && patch -p1 < {S}/{n}/patch.diff)')
    own = json.load(open(f'{S}/{n}/meta.json'))['property']
    ids = [own] if not allc else [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
    hit, other = [], []
    for i in ids:
        r = sh(f'python3 check.py {i} --tier quick', cwd=V, env=dict(os.environ, VERIF_REPO=w, VERIF_EVID=f'/tmp/evid-{n}'))
        if r.returncode == 1 and f'VIOLATION property={i} ' in r.stdout:
            hit.append(i)
        elif r.returncode != 0:
            other.append(f'{i}:exit {r.returncode}')
        if i == own and r.returncode != 1:
            print('----', n, i, r.stdout[-1500:], r.stderr[-800:])
    sh(f'rm -rf {w} /tmp/evid-{n}')
    print(n, own, 'CAUGHT by ' + ','.join(hit) if hit else 'MISSED', other, flush=True)
    return n, hit, other


def main():
    a = sys.argv[1:]
    allc = '-a' in a
    names = [x for x in a if x != '-a'] or sorted(os.listdir(S))
    f = os.path.join(V, 'seeded_results.json')
    res = json.load(open(f)) if os.path.exists(f) else {}
    with ThreadPoolExecutor(2) as ex:
        for n, hit, other in ex.map(lambda n: one(n, allc), names):
            res[n] = ', '.join(hit) if hit else 'missed'
    json.dump(res, open(f, 'w'), indent=1, sort_keys=True)


main()
