#!/usr/bin/env python3
"""The table of properties: writes properties.jsonl and MANIFEST.json.   python3 props.py"""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
L = 'longitudinal_tomography/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, technique=None, note=None):
    assert len(title) <= 80, (id, len(title))
    assert re.fullmatch('[A-Z][0-9]{2,3}', id)
    n = len(re.findall(r'[.!?](?:\s|$)', statement))
    assert n <= 3, (id, n)
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[L + f for f in files], mechanism=[dict(name=a, where=L + b) for a, b in mech], hook_needed=None))
    if observe:
        d['anchors']['observe_at'] = observe
    P.append((d, technique, note))


TRACK = ['tracking/tracking.py', 'cpp_routines/kick_and_drift.cpp', 'cpp_routines/libtomo.cpp']
prop('C01', 'Tracked coordinates obey the turn-by-turn equations of motion',
     'Tracking particles from any start frame yields, at every measured frame, exactly the phase and energy obtained by applying the drift and '
     'the two-harmonic RF kick of each turn in order going forwards from the start frame, and their inverses going backwards. '
     'The start frame holds the unchanged initial coordinates, and the arrays the caller supplied are left unmodified.',
     ['inputs', 'configurations'],
     'all initial coordinates, all per-turn voltages, phases, energy gains, drift factors, all start frames, frame spacings and frame counts',
     'the tests compare a few stored numbers for one machine; a kick that uses the neighbouring turn, a wrong sign in one direction or one '
     'harmonic only shows for particular turn/frame combinations', TRACK,
     [('forward and backward turn loops', 'cpp_routines/kick_and_drift.cpp'), ('copying of the user distribution', 'tracking/tracking.py')],
     ['the arrays returned by the tracking call and by the native tracking routine'])
prop('C02', 'Tracking forwards and then backwards returns the starting point',
     'For the same machine, tracking a distribution from frame a and restarting the tracking from any other frame b with the coordinates found '
     'there reproduces the same trajectory at every frame. A turn forwards and the same turn backwards cancel.',
     ['inputs', 'configurations', 'histories'],
     'all coordinates, machine parameters, pairs of frames and frame spacings',
     'no test tracks back; reversibility is a relation between two runs over all parameter values', TRACK,
     [('kick_up/drift_up and kick_down/drift_down', 'cpp_routines/kick_and_drift.cpp')])
prop('C03', 'All tracking entry points give the same trajectory',
     'The tracking routine gives the same coordinates whether the machine is passed as an object or as separate arrays, whether the phase between '
     'the harmonics is a scalar or an array holding that scalar, whether the native or the array-module (GPU style) code runs it, and in either '
     'supported floating-point precision up to rounding.',
     ['inputs', 'configurations'],
     'all machine parameters and coordinates, all entry points, frames and frame spacings',
     'each entry point is tested, if at all, at one parameter set, and never against the others',
     TRACK + ['python_routines/kick_and_drift_cupy.py', 'tracking/__tracking.py'],
     [('the overloads of the native tracking routine', 'cpp_routines/libtomo.cpp'), ('array-module tracking', 'python_routines/kick_and_drift_cupy.py')])
prop('C04', 'Progress callbacks fire once per step and their errors stop the run',
     'Tracking calls the progress callback once per turn with (turns done, total turns), and reconstruction calls it once per iteration with '
     '(iterations done, total) and once more with (total, total) at the end. The callback never changes the numerical result, and an '
     'exception it raises ends the run at once and reaches the caller unchanged.',
     ['inputs', 'fault_sequences', 'configurations'],
     'all inputs, all entry points, and a callback that fails at any of its calls or never',
     'no test counts the calls or lets a callback fail at each possible position',
     TRACK + ['cpp_routines/reconstruct.cpp', 'tomography/tomography.py'],
     [('callback calls in the turn loops', 'cpp_routines/kick_and_drift.cpp'), ('callback calls in the iteration loop', 'cpp_routines/reconstruct.cpp')])
prop('C05', 'Native routines never touch memory outside their arrays nor leak',
     'For every input the documentation admits, the native routines read and write only inside the arrays they were given or allocated, read no '
     'uninitialised value, and release every temporary buffer when they return or raise. Inputs they reject are rejected with a '
     'Python exception and without side effects on memory.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all coordinates, bins, sizes (including the smallest), entry points and callback failures',
     'an out-of-bounds access of one element, or a leak on an error path, normally changes no tested value',
     ['cpp_routines/libtomo.cpp', 'cpp_routines/kick_and_drift.cpp', 'cpp_routines/reconstruct.cpp', 'cpp_routines/data_treatment.cpp'],
     [('array sizes derived from the shapes of the arguments', 'cpp_routines/libtomo.cpp'), ('loop bounds', 'cpp_routines/reconstruct.cpp')])
prop('C06', 'Parallel execution gives the sequential result under every schedule',
     'The threads of the parallel native routines never access the same memory location in conflict, and whatever the number of threads and their '
     'interleaving the routines return what a single thread would.',
     ['schedules', 'inputs'],
     'all assignments of loop iterations to threads and all interleavings, all particle/bin coordinates',
     'a race shows up only under unlucky schedules; the tests run one schedule and tolerate nothing else',
     ['cpp_routines/reconstruct.cpp', 'cpp_routines/kick_and_drift.cpp'],
     [('OpenMP pragmas and the sharing of loop variables', 'cpp_routines/reconstruct.cpp')])
prop('C07', 'The native RF wave is the mathematical sine for every phase',
     'The energy a particle gains in a native kick is the sine of its phase, for either sign of the phase, in every quadrant and many RF periods '
     'from the origin, for both RF systems and for tracking forward and backward. The double precision routine is accurate to about 1e-11, the single precision '
     'one to about 1e-5.',
     ['inputs'],
     'all real phases up to six RF periods (thorough: 25) of either sign, at every quadrant and across every border between quadrants',
     'the routine reduces the phase to an octant and picks a polynomial and a sign by bit tests; the tests use a handful of phases near the origin',
     ['cpp_routines/sincos.h', 'cpp_routines/sin.h', 'cpp_routines/kick_and_drift.cpp'],
     [('range reduction, choice of polynomial and sign', 'cpp_routines/sincos.h')])
RECON = ['tomography/tomography.py', 'tomography/__tomography.py', 'cpp_routines/reconstruct.cpp', 'cpp_routines/libtomo.cpp']
prop('C09', 'Reconstruction follows the documented iterative scheme',
     'For every set of tracked bins and every normalised waterfall, the reconstruction starts from the back projection of the waterfall, and in '
     'each iteration projects the weights, normalises, compensates the difference by the reciprocal particle count, back projects and removes '
     'negative weights. The returned weights, the discrepancy of every iteration and the recreated waterfall are those of that scheme, the '
     'weights are never negative, and a reconstruction in which every weight vanishes is reported as an error.',
     ['inputs', 'configurations'],
     'all particle bins, all waterfalls, all numbers of iterations within the bounds',
     'the tests hold one stored result; changes that only matter for empty bins, vanishing weights or later iterations go unseen', RECON,
     [('reconstruct', 'cpp_routines/reconstruct.cpp'), ('Tomography.run', 'tomography/tomography.py')])
prop('C10', 'Projection and back projection are adjoint and count correctly',
     'Projecting weights onto profiles puts each particle weight into exactly the bin the particle occupies in each frame, so every projected '
     'frame sums to the total weight. Back projection adds to each particle exactly the bin values along its trajectory, and the reciprocal '
     'particle count of a bin is the largest count divided by the count of that bin (by one when it is empty).',
     ['inputs', 'configurations'],
     'all bins, weights and profiles within the bounds, for the native and the array-module versions',
     'the tests project one fixed array; relations between the operators for all inputs are not sampled',
     ['cpp_routines/reconstruct.cpp', 'cpp_routines/libtomo.cpp', 'python_routines/reconstruct_cupy.py'],
     [('project, back_project, reciprocal_particles', 'cpp_routines/reconstruct.cpp')])
prop('C11', 'All reconstruction back ends agree',
     'The fully native reconstruction, the hybrid one, the array-module (GPU style) one and the single-precision one return the same weights, '
     'discrepancies and recreated waterfall for the same input, up to floating-point rounding.',
     ['inputs', 'configurations'],
     'all particle bins, waterfalls and iteration counts within the bounds',
     'no test compares the back ends with each other on the same input',
     RECON + ['python_routines/reconstruct_cupy.py'],
     [('run, run_hybrid, run_gpu', 'tomography/tomography.py'), ('array-module reconstruction', 'python_routines/reconstruct_cupy.py')])
prop('C12', 'Multi-bunch reconstruction treats every bunch on its own',
     'Reconstructing several bunches of one measurement gives each bunch the weights, discrepancies and recreated profiles it would get if only '
     'the particles inside its cuts were reconstructed against its part of the waterfall. One bunch covering the whole measurement gives the '
     'single-bunch result, and particles outside the cuts of a bunch neither contribute to it nor gain weight from it.',
     ['inputs', 'configurations'],
     'all particle bins, bunch cuts, waterfalls and iteration counts within the bounds',
     'the multi-bunch code has no numerical test at all',
     ['tomography/tomography_multibunch.py', 'cpp_routines/reconstruct.cpp', 'cpp_routines/libtomo.cpp'],
     [('reconstruct_multi and its operators', 'cpp_routines/reconstruct.cpp'), ('Tomography.run', 'tomography/tomography_multibunch.py')])

exec(open(os.path.join(HERE, 'props_more.py')).read()) if os.path.exists(os.path.join(HERE, 'props_more.py')) else None

TECH = ('symbolic execution of the real code (clang LLVM IR of the native routines and the Python sources) with z3 deciding every branch and assertion; '
        'counterexamples replayed on the real build')
NOTE = 'Bounded: every value of the symbolic inputs within the stated sizes. {b} Trusts z3, the IR interpreter and numpy stand-in (each explored path yields a witness that is also run on the real build).'
NA = []


def design(P):
    t = []
    for d, tech, note in P:
        m = importlib.import_module('checks.' + d['id'].lower())
        t.append(f"### {d['id']} {d['title']}\n{d['statement']}\n\n* decided by: {(m.__doc__ or '').strip()}\n"
                 f"* encoded: {'; '.join(m.UNITS)}\n* bounds: {m.BOUNDS}\n* outside the claim: {m.OUTSIDE}\n"
                 f"* assumptions and stubs: {'; '.join(m.ASSUMPTIONS)}\n* why the tests cannot settle it: {d['why_tests_cant']}\n")
    f = [l.strip() for l in open(os.path.join(HERE, 'known_findings.txt')) if l.strip() and l[0] != '#']
    sd = os.path.join(HERE, 'seeded')
    rows = ['| change | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
    res = {}
    if os.path.exists(os.path.join(HERE, 'seeded_results.json')):
        res = json.load(open(os.path.join(HERE, 'seeded_results.json')))
    for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        q = os.path.join(sd, n, 'meta.json')
        if os.path.exists(q):
            d = json.load(open(q))
            rows.append(f"| {n} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {res.get(n, '?')} |")
    s = open(os.path.join(HERE, 'DESIGN.tmpl.md')).read()
    s = s.replace('@@TABLE@@', '\n'.join(t)).replace('@@FINDINGS@@', '\n'.join('* ' + x for x in f)).replace('@@SEEDED@@', '\n'.join(rows))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(s)


def main():
    sys.path.insert(0, HERE)
    out, checks = [], []
    for d, tech, note in P:
        out.append(json.dumps(d))
        i = d['id']
        m = importlib.import_module('checks.' + i.lower())
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=tech or TECH, level='model_checking',
                           level_note=note or NOTE.format(b='Bounds: ' + m.BOUNDS + '. Outside: ' + m.OUTSIDE + '.')))
    design(P)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        f.write('\n'.join(out) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=NA,
                       notes='No hooks: /repo is executed as it is. The properties and this file are generated by props.py.'), f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
