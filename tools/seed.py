#!/usr/bin/env python3
"""Author tool (not used by any check): confirm a planted change and store it under seeded/.

python3 tools/seed.py SPEC.py [names...]; SPEC defines SEEDS = {name: dict(property, needs, what_it_breaks, edits=[(file, old, new)], demo='python source')}
"""
import json
import os
import runpy
import subprocess
import sys

REPO, V = '/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'longitudinal_tomography/'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def tests_ok():
    sh('bash /opt/vp/test.sh /tmp/seed_out.json')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    got = set(json.load(open('/tmp/seed_out.json'))['passed'])
    return sorted(base - got)


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    names = sys.argv[2:] or list(seeds)
    assert not sh(f'git -C {REPO} status --porcelain').stdout.strip()
    for n in names:
        s = seeds[n]
        d = os.path.join(V, 'seeded', n)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# exit 0: behaves as documented\nexport OMP_NUM_THREADS=${OMP_NUM_THREADS:-2}\ncd /repo\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'.replace('cd /repo\nexec', 'D="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD:$PYTHONPATH" PYTHONDONTWRITEBYTECODE=1\nexec').replace('$(dirname "$0")/demo.py', '$D/demo.py'))
        json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        ok, why = True, ''
        try:
            for f, old, new in s['edits']:
                p = os.path.join(REPO, L, f)
                t = open(p).read()
                assert t.count(old) == 1, (n, f, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = sh(f'git -C {REPO} diff').stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            miss = tests_ok()
            if miss:
                ok, why = False, f'tests fail: {miss[:3]}'
            r1 = sh(f'bash {d}/demo.sh', cwd=REPO)
            if r1.returncode == 0:
                ok, why = False, why + ' demo does not fail with the change'
        finally:
            sh(f'git -C {REPO} checkout -- .')
        sh('bash /opt/vp/build.sh')
        r0 = sh(f'bash {d}/demo.sh', cwd=REPO)
        if r0.returncode != 0:
            ok, why = False, why + ' demo fails on the unchanged tree: ' + (r0.stdout + r0.stderr)[-600:]
        print(n, 'OK' if ok else 'BAD ' + why, '| patched demo:', r1.stdout.strip()[-150:], r1.stderr.strip()[-150:], flush=True)
        if not ok:
            sh(f'rm -rf {d}')


main()
