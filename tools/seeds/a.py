H = '''import sys
import numpy as np
from longitudinal_tomography.cpp_routines import libtomo


def fail(m):
    print('FAIL:', m)
    sys.exit(1)


'''
TR = H + '''def track(x, y, v1, v2, phi0, dE0, drift, p12, h, dturns, rec, nturns, cb=None, dt=np.float64):
    nprof = nturns // dturns + 1
    f = lambda a: np.array(a, dtype=dt)
    xp, yp = f(np.zeros((nprof, len(x)))), f(np.zeros((nprof, len(x))))
    p = f(p12) if np.ndim(p12) else p12
    return [np.array(a) for a in libtomo.kick_and_drift(xp, yp, f(y), f(x), f(v1), f(v2), f(phi0), f(dE0), f(drift), p, h, dturns, rec, 0,
                                                      nturns, len(x), False, cb)]


def spec(x, y, v1, v2, phi0, dE0, drift, p12, h, dturns, rec, nturns):
    nprof = nturns // dturns + 1
    p12 = np.full(nturns + 1, p12)
    X, Y = np.zeros((nprof, len(x))), np.zeros((nprof, len(x)))
    k = lambda t, p: v1[t] * np.sin(p + phi0[t]) + v2[t] * np.sin(h * (p + phi0[t] - p12[t])) - dE0[t]
    p, e = np.array(x, float), np.array(y, float)
    X[rec], Y[rec] = p, e
    for t in range(rec * dturns, nturns):
        p = p - drift[t] * e
        e = e + k(t + 1, p)
        if (t + 1) % dturns == 0:
            X[(t + 1) // dturns], Y[(t + 1) // dturns] = p, e
    p, e = np.array(x, float), np.array(y, float)
    for t in range(rec * dturns, 0, -1):
        e = e - k(t, p)
        p = p + drift[t - 1] * e
        if (t - 1) % dturns == 0:
            X[(t - 1) // dturns], Y[(t - 1) // dturns] = p, e
    return X, Y


def rnd(nturns, n, seed=0):
    r = np.random.default_rng(seed)
    a = lambda s: r.uniform(-s, s, nturns + 1)
    return dict(x=r.uniform(-1, 1, n), y=r.uniform(-1, 1, n), v1=a(1), v2=a(1), phi0=a(1), dE0=a(.2), drift=a(.5), p12=.3, h=2.)


'''
RC = H + '''def spec(xp, w, niter):
    npart, nprof = xp.shape
    nb = w.shape[1]
    proj = lambda W: np.array([np.bincount(xp[:, j], W, nb) for j in range(nprof)])
    norm = lambda a: a / a.sum(axis=1, keepdims=True)
    bp = lambda W, d: np.clip(W + sum(d[j][xp[:, j]] for j in range(nprof)), 0, None)
    cnt = proj(np.ones(npart))
    rp = cnt.max() / np.where(cnt == 0, 1, cnt)
    W = bp(np.zeros(npart), w)
    D = []
    for k in range(niter + 1):
        rec = norm(proj(W))
        d = w - rec
        D.append(np.sqrt((d ** 2).mean()))
        if k < niter:
            W = bp(W, d * rp)
    return W, np.array(D), rec


def case(npart, nprof, nb, seed):
    r = np.random.default_rng(seed)
    xp = r.integers(0, nb, (npart, nprof)).astype(np.int32)
    w = r.uniform(0, 1, (nprof, nb))
    return xp, w / w.sum(axis=1, keepdims=True)


'''
SEEDS = {
 'track-user-arrays': dict(property='C01', needs='a user-supplied distribution that is already a float array; the arrays are looked at again after the tracking',
  what_it_breaks='the caller\'s initial coordinates are overwritten by the tracking',
  edits=[('tracking/tracking.py', 'self.particles.coordinates_dphi_denergy = conf.cast(init_distr)', 'self.particles.coordinates_dphi_denergy = init_distr')],
  demo=H + '''from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.tracking import Tracking
m = Machine(dturns=5, vrf1=2637.19, vrf1dot=0., mean_orbit_rad=25., bending_rad=8.2, b0=.15, trans_gamma=4.1, rest_energy=938.272e6,
            nprofiles=4, nbins=100, synch_part_x=50., dtbin=9.9e-9, bdot=0.)
m.values_at_turns()
x, y = np.linspace(-.4, .4, 7), np.linspace(-1e4, 1e4, 7)
x0, y0 = x.copy(), y.copy()
t = Tracking(m)
a = t.track(0, init_distr=(x, y))
if not (np.array_equal(x, x0) and np.array_equal(y, y0)):
    fail('initial distribution modified')
b = t.track(0, init_distr=(x, y))
if not np.allclose(a[0], b[0]):
    fail('second run differs')
'''),
 'backward-turn-phase': dict(property='C01', needs='a phase between the harmonics that varies from turn to turn, second harmonic on, start frame > 0',
  what_it_breaks='the backward kick uses the phase between the harmonics of the preceding turn',
  edits=[('cpp_routines/kick_and_drift.cpp', 'phi12[turn], hratio, nparts, deltaE0[turn]);\n            turn--;', 'phi12[turn - 1], hratio, nparts, deltaE0[turn]);\n            turn--;')],
  demo=TR + '''q = rnd(6, 3)
q['p12'] = np.linspace(0, 1, 7)
a = track(**q, dturns=2, rec=2, nturns=6)
b = spec(**q, dturns=2, rec=2, nturns=6)
if not (np.allclose(a[0], b[0], atol=1e-9) and np.allclose(a[1], b[1], atol=1e-9)):
    fail('trajectory')
'''),
 'backward-restart-tail': dict(property='C02', needs='an even number of particles and a start frame in the middle of the measurement',
  what_it_breaks='the last particle is tracked backwards from where the forward tracking ended',
  edits=[('cpp_routines/kick_and_drift.cpp', '''        for (int i = 0; i < nparts; i++) {
            dphi[i] = xp[rec_prof][i];
            denergy[i] = yp[rec_prof][i];
        }''', '''        for (int i = 0; i < nparts / 2 + nparts % 2; i++) {
            dphi[2 * i] = xp[rec_prof][2 * i];
            denergy[2 * i] = yp[rec_prof][2 * i];
            if (2 * i + 2 < nparts) {
                dphi[2 * i + 1] = xp[rec_prof][2 * i + 1];
                denergy[2 * i + 1] = yp[rec_prof][2 * i + 1];
            }
        }''')],
  demo=TR + '''for n in (2, 3):
    q = rnd(6, n)
    a = track(**q, dturns=2, rec=1, nturns=6)
    for f in range(4):
        b = track(**dict(q, x=a[0][f], y=a[1][f]), dturns=2, rec=f, nturns=6)
        if not (np.allclose(a[0], b[0], atol=1e-9) and np.allclose(a[1], b[1], atol=1e-9)):
            fail(f'restart from frame {f} with {n} particles')
'''),
 'float-second-harmonic': dict(property='C03', needs='single precision, a non-zero phase between the harmonics and a harmonic ratio other than one',
  what_it_breaks='the single-precision kick applies the phase between the harmonics unscaled',
  edits=[('cpp_routines/kick_and_drift.cpp', '''            denergy[i] += rfv1 * vdt::fast_sinf(dphi[i] + phi0)
                        + rfv2 * vdt::fast_sinf(hratio * (dphi[i] + phi0 - phi12)) - acc_kick;''', '''            denergy[i] += rfv1 * vdt::fast_sinf(dphi[i] + phi0)
                        + rfv2 * vdt::fast_sinf(hratio * (dphi[i] + phi0) - phi12) - acc_kick;''')],
  demo=TR + '''q = rnd(6, 3)
q['p12'] = np.full(7, .4)
a = track(**q, dturns=2, rec=1, nturns=6)
b = track(**q, dturns=2, rec=1, nturns=6, dt=np.float32)
if not (np.allclose(a[0], b[0], atol=1e-3) and np.allclose(a[1], b[1], atol=1e-3)):
    fail('single precision')
'''),
 'callback-zero-iterations': dict(property='C04', needs='a reconstruction with an iteration count of at least one whose last call is looked at',
  what_it_breaks='the final callback of the reconstruction is skipped unless there were no iterations',
  edits=[('cpp_routines/reconstruct.cpp', '''        discr[niter] = discrepancy(diff_prof, nprof, nbins);

        callback(niter, niter);''', '''        discr[niter] = discrepancy(diff_prof, nprof, nbins);

        if (niter == 0)
            callback(niter, niter);''')],
  demo=RC + '''c = []
xp, w = case(5, 2, 3, 0)
libtomo.reconstruct(xp, w, 3, 3, 5, 2, False, lambda a, b: c.append((a, b)))
if c != [(1, 3), (2, 3), (3, 3), (3, 3)]:
    fail(c)
'''),
 'leak-on-callback-error': dict(property='C05', needs='a progress callback that raises during the reconstruction',
  what_it_breaks='the temporary buffers are not released when the callback raises',
  edits=[('cpp_routines/reconstruct.cpp', '''            callback(iteration + 1, niter);
        } //end for

        // Calculating final discrepancy
        std::fill_n(flat_rec, all_bins, 0);
        project(''', '''            callback(iteration + 1, niter);
        } //end for
    } catch (const std::runtime_error &e) {
        cleanup();

        throw;
    }

    try {
        // Calculating final discrepancy
        std::fill_n(flat_rec, all_bins, 0);
        project(''')],
  demo=RC + '''import resource
xp, w = case(200000, 5, 10, 1)


class E(Exception):
    pass


def cb(a, b):
    raise E


def once():
    try:
        libtomo.reconstruct(xp, w, 2, 10, len(xp), 5, False, cb)
    except E:
        pass


for _ in range(5):
    once()
m0 = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
for _ in range(60):
    once()
m1 = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
print(m0, m1)
if m1 - m0 > 60000:
    fail(f'{m1 - m0} kB leaked')
'''),
 'parallel-project': dict(property='C06', needs='several threads, particles that share bins, and a long measurement',
  what_it_breaks='unsynchronised additions of several threads to the same bin lose weight',
  edits=[('cpp_routines/reconstruct.cpp', '''             const int npart, const int nprof) {    // inn
    for (int i = 0; i < npart; i++)
        for (int j = 0; j < nprof; j++)
            flat_rec''', '''             const int npart, const int nprof) {    // inn
#pragma omp parallel for if (nprof > 400)
    for (int i = 0; i < npart; i++)
        for (int j = 0; j < nprof; j++)
            flat_rec''')],
  demo=RC.replace('import sys\n', 'import sys\nimport os\nos.environ["OMP_NUM_THREADS"] = "8"\n') + '''n, m = 2000, 500
fp = np.tile(4 * np.arange(m), (n, 1)).astype(np.int32)
for _ in range(20):
    r = libtomo.project(np.zeros((m, 4)), fp, np.ones(n), n, m, 4)
    if not np.array_equal(r.sum(axis=1), [n] * m):
        fail(r)
'''),
 'vanishing-weights': dict(property='C09', needs='a waterfall that is empty in every bin the particles pass through; two sites that each look redundant',
  what_it_breaks='a reconstruction without any weight returns NaN instead of an error',
  edits=[('cpp_routines/reconstruct.cpp', '''        clip(weights, npart, 0.0);

        if (sum(weights, npart) <= 0.)''', '''        clip(weights, npart, 0.0);

        if (sum(weights, npart) < 0.)'''), ('cpp_routines/reconstruct.cpp', 'if (sum_waterfall <= 0)', 'if (sum_waterfall < 0)')],
  demo=RC + '''xp = np.array([[0, 0], [1, 1]], dtype=np.int32)
w = np.array([[0., 0., 1.], [0., 0., 1.]])
for it in (0, 2):
    try:
        r = libtomo.reconstruct(xp, w, it, 3, 2, 2, False, None)
    except RuntimeError:
        continue
    fail(r)
xp, w = case(6, 3, 4, 1)
a, b = libtomo.reconstruct(xp, w, 2, 4, 6, 3, False, None), spec(xp, w, 2)
if not np.allclose(a[0], b[0]):
    fail('weights')
'''),
 'count-integer-reciprocal': dict(property='C10', needs='a bin whose count does not divide the largest count',
  what_it_breaks='the reciprocal particle count of the array-module code is truncated',
  edits=[('python_routines/reconstruct_cupy.py', '    rparts = max_bin_val / rparts\n', '    rparts = max_bin_val // rparts\n')],
  demo='''import sys
import types
import numpy as np
sys.modules['cupy'] = np
from longitudinal_tomography.python_routines import reconstruct_cupy as rc
r = np.random.default_rng(0)
xp = r.integers(0, 4, (23, 3)).astype(np.int32)
cnt = np.array([np.bincount(xp[:, j], minlength=4) for j in range(3)])
a = rc.reciprocal_particles(xp, 4, 3, 23)
if not np.allclose(a, cnt.max() / np.where(cnt == 0, 1, cnt)):
    print(a)
    sys.exit(1)
'''),
 'hybrid-reciprocal-once': dict(property='C11', needs='two or more iterations of the hybrid reconstruction',
  what_it_breaks='the hybrid reconstruction back projects the uncompensated difference',
  edits=[('tomography/tomography.py', '''            self.recreated = self._project(flat_points, weight)

            diff_waterfall = self.waterfall - self.recreated
            self.diff[i] = self._discrepancy(diff_waterfall)

            # Weighting difference waterfall relative to number of particles
            diff_waterfall *= reciprocal_pts.T
''', '''            self.recreated = self._project(flat_points, weight)

            diff_waterfall = self.waterfall - self.recreated
            self.diff[i] = self._discrepancy(diff_waterfall)

            if i == 0:
                diff_waterfall *= reciprocal_pts.T
''')],
  demo=RC + '''from longitudinal_tomography.tomography.tomography import Tomography
for s in range(5):
    xp, w = case(9, 3, 4, s)
    for it in (0, 1, 2, 3):
        a = Tomography(w, xp)
        wa = a.run(niter=it)
        b = Tomography(w, xp)
        wb = b.run_hybrid(niter=it)
        if not (np.allclose(wa, wb) and np.allclose(a.diff, b.diff) and np.allclose(a.recreated, b.recreated)):
            fail((s, it))
'''),
 'multi-mask-first-frame': dict(property='C12', needs='a particle that is inside the cuts of a bunch in the first and last frame but leaves it in between',
  what_it_breaks='particles that leave the bunch in a middle frame still count for it',
  edits=[('cpp_routines/reconstruct.cpp', '''            for (int j = 0; j < nprof; j++)
            {
                const int bin''', '''            for (int j = 0; j < nprof; j += (nprof > 2 ? nprof - 1 : 1))
            {
                const int bin''')],
  demo=RC + '''xp = np.array([[1, 1, 1, 1], [2, 5, 2, 2], [6, 6, 6, 7], [2, 2, 2, 2], [5, 5, 5, 5], [1, 2, 1, 2]], dtype=np.int32)
w = np.random.default_rng(0).uniform(.1, 1, (4, 8))
w /= w.sum(axis=1, keepdims=True)
i = lambda *a: np.array(a, dtype=np.int32)
r = libtomo.reconstruct_multi(xp, w, i(0, 4), i(4, 8), i(0, 0), 0, 8, 6, 4, 2, False, None)
W = np.reshape(np.array(r[0]), (2, 6))
if W[0][1] != 0 or W[1][1] != 0:
    fail(W)
'''),
}
