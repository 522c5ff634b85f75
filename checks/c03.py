"""C03: every way of running the tracking gives the same trajectories"""
from .common import *

UNITS = ['libtomo.kick_and_drift (machine / scalar / array overloads, double and single)', 'Tracking.track',
         'Tracking.kick_and_drift', 'python_routines.kick_and_drift_cupy', 'libtomo.kick', 'libtomo.drift',
         'libtomo.kick_up / kick_down / drift_up / drift_down', 'tomolib_wrappers.kick_and_drift / kick / drift']
BOUNDS = '1-2 particles, 2-3 frames, 1-2 turns per frame, every start frame; all parameters and coordinates unconstrained reals'
OUTSIDE = 'CUDA kernels (no GPU toolchain or device); single-precision rounding; deltaturn != 0'
ASSUMPTIONS = ['exact real arithmetic', 'native sine = mathematical sine (its error is property C07)', 'cupy array functions behave as the numpy functions of the same name']


def setup(ctx, T, nprof, dturns, npart):
    nturns = dturns * (nprof - 1)
    rf = RF(ctx, nturns, 'scalar')
    m = make_machine(T)
    m.nprofiles, m.dturns, m.q = nprof, dturns, 1
    m.vrf1_at_turn, m.vrf2_at_turn = rf.v1, rf.v2
    m.phi0, m.phi12, m.h_ratio, m.deltaE0, m.drift_coef = rf.phi0, rf.phi12, rf.h, rf.dE0, rf.drift
    m.synch_part_x = 1.0
    dphi, dE = ctx.reals('dphi', npart), ctx.reals('dE', npart)
    return nturns, rf, m, dphi, dE


def wrappers(T):
    """the module imports the library under the former name of the package"""
    w = T.mod('cpp_routines.tomolib_wrappers')
    w.libtomo = T.lib
    return w


def run(ctx, T, how, rf, m, dphi, dE, nprof, dturns, rec, nturns, npart):
    xp, yp = zeros(ctx, (nprof, npart)), zeros(ctx, (nprof, npart))
    p, e = dphi.copy(), dE.copy()
    L = T.lib
    if how == 'machine':
        return L.kick_and_drift(xp, yp, e, p, rf.v1, rf.v2, m, rec, 0, nturns, npart)
    if how == 'scalar':
        return L.kick_and_drift(xp, yp, e, p, rf.v1, rf.v2, rf.phi0, rf.dE0, rf.drift, rf.phi12, rf.h, dturns, rec, 0, nturns, npart, False, None)
    if how == 'array':
        p12 = ctx.array([rf.phi12] * (nturns + 1))
        return L.kick_and_drift(xp, yp, e, p, rf.v1, rf.v2, rf.phi0, rf.dE0, rf.drift, p12, rf.h, dturns, rec, 0, nturns, npart)
    if how.startswith('wrapper'):
        f = wrappers(T).kick_and_drift
        if how == 'wrapper':
            return f(xp, yp, e, p, rf.v1, rf.v2, rec, nturns, npart, machine=m)
        return f(xp, yp, e, p, rf.v1, rf.v2, rec, nturns, npart, phi0=rf.phi0, deltaE0=rf.dE0, omega_rev0=rf.drift, drift_coef=rf.drift, phi12=rf.phi12, h_ratio=rf.h,
                 dturns=dturns)
    if how == 'hybrid':
        return T.mod('tracking.tracking').Tracking(m).kick_and_drift(e, p, rf.v1, rf.v2, rec)
    if how == 'track':
        return T.mod('tracking.tracking').Tracking(m).track(rec, init_distr=(p, e))
    if how == 'cupy':
        f = T.mod('python_routines.kick_and_drift_cupy').kick_and_drift_cupy
        r = f(xp, yp, e, p, rf.v1, rf.v2, rf.phi0, rf.dE0, rf.drift, rf.phi12, rf.h, dturns, rec, 0, nturns, npart, False, None)
        return (xp, yp) if r is None else r
    if how in ('scalar32', 'array32'):
        if ctx.mode == 'sym':
            ctx.hooks['prec'] = 'f'
            try:
                return run(ctx, T, how[:-2], rf, m, dphi, dE, nprof, dturns, rec, nturns, npart)
            finally:
                ctx.hooks['prec'] = 'd'
        f = lambda a: np.asarray(a, dtype=np.float32)
        p12 = rf.phi12 if how == 'scalar32' else f([rf.phi12] * (nturns + 1))
        return L.kick_and_drift(f(xp), f(yp), f(e), f(p), f(rf.v1), f(rf.v2), f(rf.phi0), f(rf.dE0), f(rf.drift), p12,
                                rf.h, dturns, rec, 0, nturns, npart)
    raise ValueError(how)


def agree(ctx, T, a, b, nprof, dturns, rec, npart):
    nturns, rf, m, dphi, dE = setup(ctx, T, nprof, dturns, npart)
    x1, y1 = run(ctx, T, a, rf, m, dphi, dE, nprof, dturns, rec, nturns, npart)
    x1, y1 = np.array(x1, copy=True), np.array(y1, copy=True)
    x2, y2 = run(ctx, T, b, rf, m, dphi, dE, nprof, dturns, rec, nturns, npart)
    ctx.check_eq(np.array(x2), x1, f'phase: {b} differs from {a}')
    ctx.check_eq(np.array(y2), y1, f'energy: {b} differs from {a}')
    ctx.reach('done')


def steps(ctx, T, how, up, npart):
    """one kick and one drift, whatever they are called with"""
    nturns, rf, m, dphi, dE = setup(ctx, T, 2, 2, npart)
    t = 1
    v1, v2, p0, p12, h, acc, c = rf.v1[t], rf.v2[t], rf.phi0[t], rf.phi12, rf.h, rf.dE0[t], rf.drift[t]
    k = [v1 * ctx.sin(x + p0) + v2 * ctx.sin(h * (x + p0 - p12)) - acc for x in dphi]
    e1 = ctx.array([y + z if up else y - z for y, z in zip(dE, k)])
    x1 = ctx.array([x - c * y if up else x + c * y for x, y in zip(dphi, dE)])
    x, y = dphi.copy(), dE.copy()
    if how in ('lib', 'wrapper'):
        L = T.lib if how == 'lib' else wrappers(T)
        e2 = L.kick(m, y, x, rf.v1, rf.v2, npart, t, up)
        x2 = L.drift(dE.copy(), dphi.copy(), rf.drift, npart, t, up)
    else:
        L = T.lib if how == 'native' else T.mod('python_routines.kick_and_drift_cupy')
        e2 = (L.kick_up if up else L.kick_down)(x, y, v1, v2, p0, p12, h, npart, acc)
        x2, y2 = dphi.copy(), dE.copy()
        r = (L.drift_up if up else L.drift_down)(x2, y2, c, npart)
        e2, x2 = y if e2 is None else e2, x2 if r is None else r
    ctx.check_eq(np.array(e2), e1, 'energy after a kick')
    ctx.check_eq(np.array(x2), x1, 'phase after a drift')
    ctx.check_eq(x, dphi, 'phase during a kick')
    ctx.reach('done')


def instances(tier):
    out = []
    cfg = [(2, 2, 2), (3, 1, 1)]
    if tier == 'thorough':
        cfg += [(3, 2, 1), (4, 1, 2), (2, 4, 1), (3, 3, 1)]
    b = 90 if tier == 'quick' else 600
    for nprof, dt, npart in cfg:
        for rec in range(nprof):
            for other in ('machine', 'scalar', 'hybrid', 'track', 'cupy', 'scalar32', 'array32', 'wrapper', 'wrapper-args'):
                f32 = other.endswith('32')
                out.append(Instance(f'{other}-{nprof}x{dt}-r{rec}', agree,
                                    dict(a='array', b=other, nprof=nprof, dturns=dt, rec=rec, npart=npart), reach=['done'], budget=b,
                                    rtol=1e-2 if f32 else 1e-6, atol=1e-2 if f32 else 1e-6, witness=not f32, weight=nprof * dt * npart))
    for how in ('lib', 'wrapper', 'native', 'cupy'):
        for up in (True, False):
            out.append(Instance(f'step-{how}-{"up" if up else "down"}', steps, dict(how=how, up=up, npart=2), reach=['done'], budget=b, rtol=1e-6, atol=1e-6))
    return out
