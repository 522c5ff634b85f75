"""Runs the scenario instances of one property, replays what the solver finds
and writes the evidence file."""
import json
import multiprocessing as mp
import os
import random
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
EVID = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
NPROC = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 8)


class Instance:
    def __init__(self, name, fn, params=None, budget=60, kind='opt', weight=1.0, query_ms=20000,
                 hooks=None, soft=(), rtol=1e-7, atol=1e-9, replay='plain', expect_known=False, bounds='',
                 witness=True, reach=(), replay_retry=0, max_violations=6):
        self.name, self.fn, self.params = name, fn, params or {}
        self.budget, self.kind, self.weight, self.query_ms = budget, kind, weight, query_ms
        self.hooks, self.soft = hooks or {}, tuple(soft)
        self.rtol, self.atol, self.replay = rtol, atol, replay
        self.expect_known, self.bounds, self.witness = expect_known, bounds, witness
        self.reach = tuple(reach)
        self.max_violations = max_violations


def load_check(pid):
    import importlib
    sys.path.insert(0, VERIF)
    return importlib.import_module('checks.' + pid.lower())


# ---------------------------------------------------------------- symbolic
def run_instance(inst, T, deadline):
    from .explore import Stats, SymCtx, Timeout
    st = Stats()
    c = SymCtx(deadline, st, query_ms=inst.query_ms)
    c.max_violations = inst.max_violations
    t = time.time()
    res = {'name': inst.name, 'timeout': False}

    def fn(ctx):
        ctx.collect_soft = True
        ctx.soft_kinds = inst.soft
        ctx.hooks.update(inst.hooks)
        inst.fn(ctx, T, **inst.params)
    try:
        c.explore(fn)
    except Timeout:
        res['timeout'] = True
    except MemoryError:
        res['timeout'] = True
        c.inconclusive.append('out of memory')
    res.update(stats=st.as_dict(), complete=c.complete, inconclusive=c.inconclusive[:10],
               n_inconclusive=len(c.inconclusive), wall=time.time() - t, witnesses=c.witnesses if inst.witness else [],
               violations=[{'label': v.label, 'inputs': v.inputs, 'alts': v.alts} for v in c.violations],
               tb=getattr(c, 'last_tb', ''))
    return res


def _child(inst, T, deadline, path):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
        random.seed(int(os.environ.get('VERIF_SEED', '1') or 1))
        import logging
        import warnings
        warnings.simplefilter('ignore')
        logging.disable(logging.CRITICAL)
        res = run_instance(inst, T, deadline)
    except BaseException as e:
        res = {'name': inst.name, 'error': f'{type(e).__name__}: {e}', 'tb': traceback.format_exc()}
    with open(path + '.tmp', 'w') as f:
        json.dump(res, f, default=str)
    os.replace(path + '.tmp', path)
    sys.stdout.flush()
    os._exit(0)


def run_all(insts, tier, scratch):
    """symbolic runs, forked from loaded parents (one per IR kind)"""
    from . import loader
    Ts = {}
    for k in {i.kind for i in insts}:
        Ts[k] = loader.load_sym(k)
        if len({i.kind for i in insts}) > 1:
            # modules of the previous kind are purged: fork per kind
            pass
    todo = sorted(enumerate(insts), key=lambda x: -x[1].weight)
    running, results = [], {}
    stop = known_findings(scratch.split('run-')[-1].split('-')[0])
    # kinds must not be interleaved (one set of loaded modules at a time)
    order = sorted({i.kind for i in insts})
    for k in order:
        T = Ts[k] if len(order) == 1 else loader.load_sym(k)
        mine = [(n, i) for n, i in todo if i.kind == k]
        while mine or running:
            while mine and len(running) < NPROC:
                n, i = mine.pop(0)
                path = os.path.join(scratch, f'r{n}.json')
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    _child(i, T, time.time() + i.budget, path)
                running.append((pid, n, i, path, time.time() + i.budget * 1.5 + 45))
            time.sleep(0.02)
            for r in list(running):
                pid, n, i, path, dl = r
                p, _ = os.waitpid(pid, os.WNOHANG)
                if p == 0:
                    if time.time() > dl:
                        os.kill(pid, 9)
                        os.waitpid(pid, 0)
                        p = pid
                    else:
                        continue
                running.remove(r)
                if os.path.exists(path):
                    results[n] = json.load(open(path))
                else:
                    results[n] = {'name': i.name, 'error': 'the solver process ended without a result'}
                if os.environ.get('VERIF_FIRST') and any(not is_known(stop, i.name, v['label']) for v in results[n].get('violations', [])):
                    # (the author's trials of changed code only: the first counterexample is enough)
                    for q in running:
                        os.kill(q[0], 9)
                        os.waitpid(q[0], 0)
                    return [results[m] for m in sorted(results)]
    return [results[n] for n in range(len(insts))]


# ------------------------------------------------------------------ replay
def replay_main(pid, tier, spec_path):
    """subprocess: run concrete inputs against the real build"""
    spec = json.load(open(spec_path))
    import logging
    import warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    from . import loader
    T = loader.load_real(spec.get('san'))
    import numpy as np
    np.seterr(all='ignore')
    insts = {i.name: i for i in load_check(pid).instances(tier)}
    from .explore import ReplayCtx, ReplaySkip, ReplayViolation
    from .core import Unsupported
    out = open(spec_path + '.out', 'w')
    for job in spec['jobs']:
        inst = insts[job['instance']]
        out.write(json.dumps({'start': job['id']}) + '\n')
        out.flush()
        r = {'id': job['id']}
        c = ReplayCtx(job['inputs'], rtol=job.get('rtol', inst.rtol), atol=job.get('atol', inst.atol))
        c.hooks.update(inst.hooks)
        c.san = spec.get('san')
        try:
            inst.fn(c, T, **inst.params)
            r['r'] = 'ok'
        except ReplaySkip:
            r['r'] = 'skip'
        except ReplayViolation as e:
            r.update(r='violation', label=e.label, detail=str(e.detail)[:500])
        except Unsupported as e:
            r.update(r='skip', label=str(e))
        except Exception as e:
            r.update(r='exception', label=f'exception {type(e).__name__}', detail=str(e)[:300])
        out.write(json.dumps(r) + '\n')
        out.flush()
    out.write(json.dumps({'end': 1}) + '\n')
    out.close()
    os._exit(0)


def replay(pid, tier, jobs, scratch, tag, san=None, timeout=240, threads=None):
    """{job id: result}; a crash of the process is attributed to the job that was running"""
    res = {}
    jobs = list(jobs)
    k = 0
    t_end = time.time() + timeout
    while jobs and k < 6 and time.time() < t_end:
        k += 1
        path = os.path.join(scratch, f'replay-{tag}-{k}.json')
        json.dump({'jobs': jobs, 'san': san}, open(path, 'w'))
        env = dict(os.environ)
        env['OMP_NUM_THREADS'] = str(threads or 4)
        env['MALLOC_PERTURB_'] = '165'
        if san == 'asan':
            lib = subprocess.run(['g++', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
            std = subprocess.run(['g++', '-print-file-name=libstdc++.so'], capture_output=True, text=True).stdout.strip()
            env['LD_PRELOAD'] = lib + ' ' + std
            env['ASAN_OPTIONS'] = 'detect_leaks=0:halt_on_error=1:exitcode=99:abort_on_error=0:log_path=' + path + '.asan'
            env['PYTHONMALLOC'] = 'malloc'
            env.pop('MALLOC_PERTURB_')
        p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'check.py'), pid, '--tier', tier, '--replay-jobs', path],
                             env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            log = p.communicate(timeout=max(5, t_end - time.time()))[0]
        except subprocess.TimeoutExpired:
            p.kill()
            log = p.communicate()[0]
        cur, ended = None, False
        if os.path.exists(path + '.out'):
            for line in open(path + '.out'):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if 'start' in d:
                    cur = d['start']
                elif 'end' in d:
                    ended = True
                else:
                    res[d['id']] = d
                    cur = None
        if ended:
            break
        if cur is None:
            for j in jobs:
                res.setdefault(j['id'], {'id': j['id'], 'r': 'error', 'detail': log[-1500:]})
            break
        import glob
        asan = ''.join(open(f, errors='replace').read() for f in glob.glob(path + '.asan*'))
        m = re.search(r'ERROR: AddressSanitizer: (\S+).*?((?:READ|WRITE) of size \d+)?', asan, re.S)
        d = m.group(0)[:200] if m else f'process ended with code {p.returncode}'
        fr = [l.strip() for l in asan.splitlines() if re.match(r'\s*#\d', l) and 'libtomo' in l or 'cpp_routines' in l]
        res[cur] = {'id': cur, 'r': 'crash', 'label': 'crash', 'detail': d + ' ' + ' '.join(fr[:2])[:300],
                    'code': p.returncode, 'timeout': p.returncode == -9}
        jobs = [j for j in jobs if j['id'] not in res]
    return res


def perturb(inputs, rng, k):
    out = {}
    for n, v in inputs.items():
        if isinstance(v, float):
            e = 1 + rng.uniform(-1, 1) * 10 ** -(k + 1)
            out[n] = v * e if v else rng.uniform(-1, 1) * 10 ** -(k + 2)
        else:
            out[n] = v
    return out


def known_findings(pid):
    f = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(f):
        for line in open(f):
            if line.startswith('known:'):
                d = json.loads(line[6:])
                if d['property'] == pid:
                    out.append(d)
    return out


def is_known(known, inst, label):
    for d in known:
        if re.fullmatch(d['instance'], inst) and re.search(d['label'], label):
            return d
    return None


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rng = random.Random(seed)
    os.makedirs(EVID, exist_ok=True)
    scratch = os.path.join(VERIF, '.build', f'run-{pid}-{tier}-{os.getpid()}')
    os.makedirs(scratch, exist_ok=True)
    chk = load_check(pid)
    insts = chk.instances(tier)
    builder = subprocess.Popen([sys.executable, os.path.join(VERIF, 'check.py'), '--build-real'],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        results = run_all(insts, tier, scratch)
    except Exception as e:
        traceback.print_exc()
        print(f'ERROR property={pid} the code could not be loaded: {e}')
        builder.wait()
        write_evidence(pid, tier, seed, chk, insts, [], t0, {}, 0, [], [f'load error: {e}'])
        return 2
    builder.wait()
    byname = {i.name: i for i in insts}
    known = known_findings(pid)
    inconclusive, violations, kf_hit = [], [], {}
    decided = 0
    # ---- candidates
    jobs, meta = {}, {}
    nid = 0
    for r in results:
        i = byname[r['name']]
        if 'error' in r:
            inconclusive.append(f"{r['name']}: {r['error']}")
            continue
        if r['complete'] and not r['n_inconclusive'] and not r['violations'] and all(r['stats']['reached'].get(x) for x in i.reach):
            decided += 1
        if r['timeout']:
            inconclusive.append(f"{r['name']}: time budget of {i.budget} s ended after {r['stats']['paths']} paths")
        for m in r['inconclusive']:
            inconclusive.append(f"{r['name']}: {m}")
        if i.reach and r['complete']:
            for lab in i.reach:
                if not r['stats']['reached'].get(lab):
                    inconclusive.append(f"{r['name']}: vacuous: '{lab}' was never reached")
        for v in r['violations']:
            cands = [v['inputs']] + v['alts']
            for k in range(6):
                cands.append(perturb(v['inputs'], rng, k % 3))
            for cin in cands:
                san = i.replay if re.match(r'(memory|overflow|arith):', v['label']) and i.replay != 'plain' else 'plain'
                if v['label'].startswith('race:'):
                    san = 'race'
                nid += 1
                jobs.setdefault(san, []).append({'id': nid, 'instance': i.name, 'inputs': cin})
                meta[nid] = (i, v)
    wit = []
    for r in results:
        for w in r.get('witnesses', []):
            nid += 1
            wit.append({'id': nid, 'instance': r['name'], 'inputs': w, 'rtol': 1e-4, 'atol': 1e-5})
            meta[nid] = (byname[r['name']], None)
    allres = {}
    for san, js in jobs.items():
        if san == 'race':
            from . import races
            allres.update(races.replay(pid, tier, js, meta, scratch))
            continue
        allres.update(replay(pid, tier, js, scratch, san, None if san == 'plain' else san))
    seen = set()
    confirmed_v = set()
    for js in jobs.values():
        for j in js:
            r = allres.get(j['id'])
            i, v = meta[j['id']]
            if r is None or id(v) in confirmed_v:
                continue
            if r['r'] in ('violation', 'exception') or r['r'] == 'crash' and not r.get('timeout'):
                k = is_known(known, i.name, r.get('label', '')) if r['r'] == 'violation' else is_known(known, i.name, v['label'])
                if k and not is_known(known, i.name, v['label']):
                    continue        # this input shows the recorded finding, not the violation
                confirmed_v.add(id(v))
                if k:
                    kf_hit[k['id']] = k
                    continue
                violations.append((i, v['label'], j['inputs'], r))
    for js in jobs.values():
        for j in js:
            i, v = meta[j['id']]
            if id(v) not in confirmed_v and id(v) not in seen:
                seen.add(id(v))
                rr = [allres.get(x['id'], {}).get('r') for x in js if meta[x['id']][1] is v]
                inconclusive.append(f"{i.name}: solver counterexample for '{v['label']}' did not reproduce on the real code {rr}")
    # ---- encoding validation on the real code
    validated = 0
    if wit:
        wr = replay(pid, tier, wit, scratch, 'wit')
        bad = []
        for j in wit:
            r = wr.get(j['id'], {})
            if r.get('r') == 'ok':
                validated += 1
            elif r.get('r') in ('violation', 'exception'):
                bad.append((j, r))
            elif r.get('r') == 'crash':
                inconclusive.append(f"{j['instance']}: real code crashed on a solver witness ({r.get('detail')})")
            elif r.get('r') == 'error':
                inconclusive.append('replay error: ' + r.get('detail', '')[-300:])
        # a witness on the edge of a case distinction proves nothing: its neighbours have to fail too
        near = []
        for n, (j, r) in enumerate(bad[:40]):
            if any(isinstance(v, float) for v in j['inputs'].values()):
                near += [dict(j, id=10 ** 7 + 10 * n + k, inputs=perturb(j['inputs'], rng, k % 3)) for k in range(6)]
        nr = replay(pid, tier, near, scratch, 'near') if near else {}
        for n, (j, r) in enumerate(bad[:40]):
            q = [nr.get(10 ** 7 + 10 * n + k, {}).get('r') for k in range(6)]
            i, _ = meta[j['id']]
            if any(isinstance(v, float) for v in j['inputs'].values()) and sum(x in ('violation', 'exception') for x in q) < 3:
                inconclusive.append(f"{i.name}: an isolated solver witness fails on the real code ({r.get('label')}; neighbours {q})")
                continue
            k = is_known(known, i.name, r.get('label', ''))
            if k:
                kf_hit[k['id']] = k
                continue
            violations.append((i, 'solver witness violates the property on the real code: ' + r.get('label', ''), j['inputs'], r))
    write_evidence(pid, tier, seed, chk, insts, results, t0, kf_hit, validated, violations, inconclusive)
    for k in kf_hit.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for m in inconclusive[:12]:
        print('inconclusive:', m)
    import shutil
    shutil.rmtree(scratch, ignore_errors=True)
    if violations:
        done = set()
        for i, label, inputs, r in violations:
            key = (i.name, re.sub(r'\d', '', label))
            if key in done or len(done) >= 5:
                continue
            done.add(key)
            os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
            path = os.path.join(EVID, 'replay', f'{pid}-{len(done)}.json')
            json.dump({'property': pid, 'tier': tier, 'instance': i.name, 'inputs': inputs, 'solver_label': label,
                       'observed': r, 'how': f'python check.py {pid} --replay {path}'}, open(path, 'w'), indent=1)
            print(f'{i.name}: {label}: {r.get("label")} {r.get("detail", "")[:300]}')
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    tot = {k: sum(r['stats'][k] for r in results if 'stats' in r) for k in ('paths', 'queries', 'checks')}
    print(f'property={pid} tier={tier} instances={len(insts)} decided={decided} paths={tot["paths"]} queries={tot["queries"]} '
          f'assertions={tot["checks"]} witnesses_on_real_code={validated} wall={time.time() - t0:.1f}s')
    return 0 if decided else 2


def write_evidence(pid, tier, seed, chk, insts, results, t0, kf, validated, violations, inconclusive):
    from .explore import Stats
    st = Stats()
    for r in results:
        if 'stats' in r:
            st.merge(r['stats'])
    samples = []
    for r in results:
        for w in r.get('witnesses', [])[:1]:
            samples.append({'instance': r['name'], 'inputs': w})
    cov = {
        'states': st.paths, 'transitions': st.instr, 'traces_validated_against_impl': validated,
        'samples': samples[:5] or [{'instance': r['name'], 'paths': r.get('stats', {}).get('paths')} for r in results[:3]],
        'exhaustive': bool(results) and all(r.get('complete') for r in results) and not inconclusive,
        'what_states_are': 'feasible symbolic execution paths; transitions are interpreted IR instructions (Python steps are not counted)',
        'queries': st.queries, 'unsat': st.unsat, 'sat': st.sat, 'unknown': st.unknown,
        'solver_s': round(st.solver_s, 2), 'assertions_decided': st.checks, 'aborted_paths': st.aborted,
        'functions_encoded': sorted(st.functions)[:400],
        'python_units': getattr(chk, 'UNITS', []),
        'bounds': getattr(chk, 'BOUNDS', ''), 'outside_the_claim': getattr(chk, 'OUTSIDE', ''),
        'instances': [{'name': r['name'], 'bounds': i.bounds, 'complete': r.get('complete'), 'paths': r.get('stats', {}).get('paths'),
                       'queries': r.get('stats', {}).get('queries'), 'solver_s': round(r.get('stats', {}).get('solver_s', 0), 2),
                       'wall_s': round(r.get('wall', 0), 2), 'reached': r.get('stats', {}).get('reached'),
                       'error': r.get('error')} for i, r in zip(insts, results)],
        'inconclusive': inconclusive[:50], 'known_findings': [k['what'] for k in kf.values()],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': list(getattr(chk, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 2),
          'violations': len(violations)}
    with open(os.path.join(EVID, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def cli():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        # nothing to install: checks compile what they need from the repository; this only shows that they can
        from . import loader
        from .explore import z3
        loader.build_real()
        print('z3', z3.get_version_string(), 'real build ok')
        return 0
    if a and a[0] == '--build-real':
        from . import loader
        loader.build_real()
        return 0
    if a and a[0] == '--build-asan':
        from . import loader
        loader.build_real('asan')
        return 0
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if '--replay-jobs' in a:
        return replay_main(pid, tier, a[a.index('--replay-jobs') + 1])
    if '--replay-races' in a:
        from . import races
        return races.main(pid, tier, a[a.index('--replay-races') + 1])
    if '--replay' in a:
        d = json.load(open(a[a.index('--replay') + 1]))
        scratch = os.path.join(VERIF, '.build', f'replay-{os.getpid()}')
        os.makedirs(scratch, exist_ok=True)
        san = None
        chk = load_check(pid)
        i = {x.name: x for x in chk.instances(d['tier'])}[d['instance']]
        if i.replay != 'plain':
            san = i.replay
        if d.get('solver_label', '').startswith('race:'):
            from . import races
            r = races.replay(pid, d['tier'], [{'id': 1, 'instance': d['instance'], 'inputs': d['inputs']}], {}, scratch)
        else:
            r = replay(pid, d['tier'], [{'id': 1, 'instance': d['instance'], 'inputs': d['inputs']}], scratch, 'one', san)
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
        print(json.dumps(r[1], indent=1))
        return 0 if r[1]['r'] in ('ok', 'skip') else 1
    return main(pid, tier)
