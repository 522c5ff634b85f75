"""C06: results do not depend on the number of threads or on their schedule"""
from .common import *

UNITS = ['every parallel region of kick_and_drift.cpp and reconstruct.cpp, reached through the libtomo bindings']
BOUNDS = ('as many threads as loop iterations (4-8), so that any two iterations may run concurrently; 2-4 particles, 2-3 frames, '
          '2-3 bins, every bin assignment; coordinates and profile values symbolic; in addition one fixed assignment each with 3000 particles, 600 frames and 1200 bins')
OUTSIDE = 'order of floating-point additions inside an OpenMP reduction; CUDA; races inside libgomp'
ASSUMPTIONS = ['a region without conflicting accesses between threads has one outcome under every schedule',
               'accesses are taken from IR in which every source-level load and store is kept']


def tracking(ctx, T, nprof, dturns, rec, npart):
    nturns = dturns * (nprof - 1)
    rf = RF(ctx, nturns, 'scalar')
    dphi, dE = ctx.reals('dphi', npart), ctx.reals('dE', npart)
    p0, e0 = list(dphi), list(dE)
    xp, yp = zeros(ctx, (nprof, npart)), zeros(ctx, (nprof, npart))
    p12 = ctx.array([rf.phi12] * (nturns + 1))
    X, Y = T.lib.kick_and_drift(xp, yp, dE, dphi, rf.v1, rf.v2, rf.phi0, rf.dE0, rf.drift, p12, rf.h, dturns, rec, 0, nturns, npart, False, None)
    P, E = track_spec(ctx, rf, p0, e0, nprof, dturns, rec)
    ctx.check_eq(np.array(X), np.array(P, dtype=object), 'phase')
    ctx.check_eq(np.array(Y), np.array(E, dtype=object), 'energy')
    ctx.reach('done')


def turn_ops(ctx, T, npart):
    rf = RF(ctx, 1, 'scalar')
    m = make_machine(T)
    m.phi0, m.phi12, m.h_ratio, m.deltaE0, m.drift_coef = rf.phi0, rf.phi12, rf.h, rf.dE0, rf.drift
    dphi, dE = ctx.reals('dphi', npart), ctx.reals('dE', npart)
    up = bool(ctx.bool('up'))
    e = T.lib.kick(m, dE.copy(), dphi.copy(), rf.v1, rf.v2, npart, 1, up)
    p = T.lib.drift(dE.copy(), dphi.copy(), rf.drift, npart, 1, up)
    s = 1 if up else -1
    ctx.check_eq(np.array(e), np.array(kick(ctx, rf, 1, list(dphi), list(dE), s), dtype=object), 'kick')
    ctx.check_eq(np.array(p), np.array([a - s * rf.drift[1] * b for a, b in zip(dphi, dE)], dtype=object), 'drift')
    ctx.reach('done')


def recon(ctx, T, n, nprof, nb, it, how):
    xp, c = sym_xp(ctx, n, nprof, nb)
    w, rows_ = sym_waterfall(ctx, nprof, nb, 1, free=1)
    s = recon_spec(ctx, c, rows_, it)
    z, l, r_ = (np.array([x] * 2, dtype=np.int32) for x in (0, 0, nb))
    if how == 'multi':
        # a second bunch with an empty window takes part in the parallel loops only
        l[1] = r_[1] = 0
        z[1] = 0
        r_[1] = 1
        l[1] = 1
    if s is None:
        return
    if how == 'lib':
        r = T.lib.reconstruct(xp, w, it, nb, n, nprof, False, None)
        W = r[0]
        ctx.check_eq(W, np.array(s[0], dtype=object), 'weights')
        ctx.check_eq(r[2], np.array(s[2], dtype=object), 'recreated waterfall')
    else:
        # both bunches see the whole profile
        z, l, r_ = (np.array([x] * 2, dtype=np.int32) for x in (0, 0, nb))
        r = T.lib.reconstruct_multi(xp, w, l, r_, z, it, nb, n, nprof, 2, False, None)
        ctx.check_eq(r[0][:n], np.array(r[0])[n:], 'weights of two identical bunches')
    ctx.reach('done')


def big(ctx, T, n, nprof, nb, how):
    """large loops (parallelism that is only switched on above some size); fixed bins and profiles except for one value"""
    xp = np.array([[(i // 2 * 7 + j * 3) % nb for j in range(nprof)] for i in range(n)], dtype=np.int32)
    t = ctx.real('t', lo=0, hi=1)
    W = ctx.array([t] + [(i % 5 + 1) / 8 for i in range(1, n)])
    fp = (xp + nb * np.arange(nprof)).astype(np.int32)
    if how == 'ops':
        r = T.lib.project(zeros(ctx, (nprof, nb)), fp, W, n, nprof, nb)
        exp = recon_project(xp.tolist(), list(W), nprof, nb)
        ctx.check_eq(np.array(r), np.array(exp, dtype=object), 'projection')
        d = ctx.array([[((i + 2 * j) % 4 + 1) / 8 for j in range(nb)] for i in range(nprof)])
        b = T.lib.back_project(W.copy(), fp, d.reshape(-1), n, nprof)
        ctx.check_eq(np.array(b), np.array([w + sum(d[j, p[j]] for j in range(nprof)) for w, p in zip(list(W), xp.tolist())], dtype=object),
                     'back projection')
        c = T.lib.reciprocal_particles(xp, nb, nprof, n) if hasattr(T.lib, 'reciprocal_particles') else None
    elif how == 'recon':
        w = ctx.array([[((i + 2 * j) % 4 + 1) / 8 for j in range(nb)] for i in range(nprof)])
        ctx.raises(lambda: T.lib.reconstruct(xp, w, 1, nb, n, nprof, False, None), RuntimeError)
    elif how == 'track':
        e, p_ = ctx.array([0] * n), ctx.array([0] * (n - 1) + [t])
        T.lib.kick_and_drift(zeros(ctx, (2, n)), zeros(ctx, (2, n)), e, p_, ctx.array([0, 0]), ctx.array([0, 0]), ctx.array([0, 0]), ctx.array([1, 1]),
                             ctx.array([1, 1]), ctx.array([0, 0]), 2.0, 1, 0, 0, 1, n, False, None)
    else:
        w = ctx.array([[((i + 2 * j) % 4 + 1) / 8 for j in range(nb)] for i in range(nprof)])
        z, l, r_ = (np.array([x] * 2, dtype=np.int32) for x in (0, 0, nb))
        ctx.raises(lambda: T.lib.reconstruct_multi(xp, w, l, r_, z, 1, nb, n, nprof, 2, False, None), RuntimeError)
    ctx.reach('done')


def instances(tier):
    b = 60 if tier == 'quick' else 900
    out = []

    def add(name, fn, p, th, w=1):
        out.append(Instance(name, fn, p, reach=['done'], budget=b, kind='race', hooks={'threads': th}, soft=('race',), weight=w,
                            rtol=1e-6, atol=1e-6))
    for rec in (0, 1):
        add(f'track-2x2-r{rec}', tracking, dict(nprof=2, dturns=2, rec=rec, npart=3), 3)
    add('turn', turn_ops, dict(npart=3), 3)
    cfg = [(2, 1, 2, 1), (2, 2, 2, 0), (1, 2, 3, 1)] + ([(3, 2, 2, 1), (2, 2, 3, 1), (4, 1, 2, 1)] if tier == 'thorough' else [])
    for n, p, nb, it in cfg:
        for how in ('lib', 'multi'):
            add(f'{how}-p{n}-f{p}-b{nb}-i{it}', recon, dict(n=n, nprof=p, nb=nb, it=it, how=how), min(8, max(n * 2, p * nb)), nb ** (n * p))
    for n, p, nb in [(3, 600, 2), (3000, 1, 2), (3, 2, 1200)]:
        for how in ('ops', 'recon', 'multi'):
            add(f'big-{how}-p{n}-f{p}', big, dict(n=n, nprof=p, nb=nb, how=how), 4, 10)
    add('big-track-p3000', big, dict(n=3000, nprof=1, nb=2, how='track'), 4, 10)
    if tier == 'thorough':
        for rec in range(3):
            add(f'track-3x2-r{rec}', tracking, dict(nprof=3, dturns=2, rec=rec, npart=5), 5)
    return out
