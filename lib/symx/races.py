"""Replay of data races on the compiled code.

The extension is compiled with memory-access instrumentation and linked against
race_rt.cpp, which runs the threads of every parallel region one after another
and records what each of them touches."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def build():
    import glob
    import sysconfig
    from .loader import PKG, REPO
    from .symlib import BUILD, BuildError, src_hash
    d = os.path.join(REPO, PKG, 'cpp_routines')
    srcs = sorted(glob.glob(os.path.join(d, '*.cpp')))
    rt = os.path.join(HERE, 'race_rt.cpp')
    key = src_hash(srcs + glob.glob(os.path.join(d, '*.h')) + [rt], 'race-replay', sys.version)
    out = os.path.join(BUILD, f'libtomo-races-{key}.so')
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    import pybind11
    inc = ['-I' + pybind11.get_include(), '-I' + sysconfig.get_paths()['include']]
    tmp = f'{out}.{os.getpid()}'
    ps = []
    for i, s in enumerate(srcs + [rt]):
        fl = ['-std=c++17', '-fPIC', '-w', '-O1', '-g']
        if s != rt:
            fl += ['-fopenmp', '-fsanitize=thread', '-fvisibility=hidden'] + inc
        ps.append((f'{tmp}.{i}.o', subprocess.Popen(['g++'] + fl + ['-c', s, '-o', f'{tmp}.{i}.o'], stderr=subprocess.PIPE, text=True)))
    for o, p in ps:
        err = p.communicate()[1]
        if p.returncode:
            raise BuildError(err[-1500:])
    objs = [o for o, _ in ps]
    r = subprocess.run(['g++', '-shared', '-Wl,-Bsymbolic'] + objs + ['-o', tmp], capture_output=True, text=True)
    for o in objs:
        os.unlink(o)
    if r.returncode:
        raise BuildError(r.stderr[-1500:])
    os.replace(tmp, out)
    return out


def replay(pid, tier, jobs, meta, scratch):
    path = os.path.join(scratch, 'races.json')
    json.dump(jobs, open(path, 'w'))
    p = subprocess.run([sys.executable, os.path.join(HERE, '..', '..', 'check.py'), pid, '--tier', tier, '--replay-races', path],
                       capture_output=True, text=True, timeout=300)
    res = {}
    if os.path.exists(path + '.out'):
        for line in open(path + '.out'):
            d = json.loads(line)
            res[d['id']] = d
    for j in jobs:
        res.setdefault(j['id'], {'id': j['id'], 'r': 'error', 'detail': (p.stdout + p.stderr)[-300:]})
    return res


def main(pid, tier, path):
    import ctypes
    import logging
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    np.seterr(all='ignore')
    from . import loader, runner
    from .explore import ReplayCtx, ReplaySkip, ReplayViolation
    so = build()
    sys.setdlopenflags(os.RTLD_LAZY)
    T = loader.load_real(so=so)
    rt = ctypes.CDLL(so, mode=os.RTLD_LAZY)
    rt.race_report.restype = ctypes.c_char_p
    insts = {i.name: i for i in runner.load_check(pid).instances(tier)}
    out = open(path + '.out', 'w')
    for j in json.load(open(path)):
        i = insts[j['instance']]
        rt.race_threads(i.hooks.get('threads', 4))
        rt.race_clear()
        c = ReplayCtx(j['inputs'], rtol=i.rtol, atol=i.atol)
        c.hooks.update(i.hooks)
        r = {'id': j['id'], 'r': 'ok'}
        try:
            i.fn(c, T, **i.params)
        except ReplaySkip:
            r['r'] = 'skip'
        except ReplayViolation as e:
            r.update(r='violation', label=e.label, detail=str(e.detail)[:300])
        except Exception as e:
            r.update(r='ok', detail=repr(e)[:200])
        rep = rt.race_report()
        if rep:
            r.update(r='violation', label='race', detail=rep.decode())
        out.write(json.dumps(r) + '\n')
        out.flush()
    out.close()
    os._exit(0)
