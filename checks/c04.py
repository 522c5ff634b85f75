"""C04: progress callbacks"""
from .common import *

UNITS = ['Tracking.track / libtomo.kick_and_drift (three overloads)', 'Tomography.run / libtomo.reconstruct', 'libtomo.reconstruct_multi']
BOUNDS = ('tracking: 2-4 frames, 1-3 turns per frame, every start frame, 1 particle; reconstruction: 0-3 iterations, 1-2 particles, 2 bins; '
          'the callback fails at every possible call (symbolic index) or never; coordinates, voltages and profiles symbolic')
OUTSIDE = 'callbacks that re-enter the library or modify its arrays; interpreter shutdown'
ASSUMPTIONS = ['exact real arithmetic', 'pybind11 call forwarding is modelled: a call returns or raises the Python exception']


class Stop(Exception):
    pass


class CB:
    def __init__(self, fail_at):
        self.calls, self.fail_at = [], fail_at

    def __call__(self, progress, total):
        self.calls.append((progress, total))
        if len(self.calls) == self.fail_at:
            raise Stop('callback')


def report(ctx, cb, expected, fail, exc, what):
    n = len(expected) if not fail or fail > len(expected) else fail
    ctx.check(len(cb.calls) == n, f'{what}: {len(cb.calls)} calls instead of {n}')
    for (p, t), (ep, et) in zip(cb.calls, expected):
        ctx.check(p == ep, f'{what}: progress {p} instead of {ep}')
        ctx.check(t == et, f'{what}: total {t} instead of {et}')
    failing = bool(fail) and fail <= len(expected)
    ctx.check((exc is not None) == failing, f'{what}: the error of the callback is lost')


def tracking(ctx, T, nprof, dturns, rec, how):
    nturns = dturns * (nprof - 1)
    rf = RF(ctx, nturns, 'scalar')
    m = make_machine(T)
    m.nprofiles, m.dturns, m.q = nprof, dturns, 1
    m.vrf1_at_turn, m.vrf2_at_turn = rf.v1, rf.v2
    m.phi0, m.phi12, m.h_ratio, m.deltaE0, m.drift_coef = rf.phi0, rf.phi12, rf.h, rf.dE0, rf.drift
    m.synch_part_x = 1.0
    dphi, dE = ctx.reals('dphi', 1), ctx.reals('dE', 1)
    fail = ctx.concrete(ctx.int('fail', 0, nturns))
    L = T.lib

    def run(cb):
        xp, yp = zeros(ctx, (nprof, 1)), zeros(ctx, (nprof, 1))
        p, e = dphi.copy(), dE.copy()
        if how == 'machine':
            return L.kick_and_drift(xp, yp, e, p, rf.v1, rf.v2, m, rec, 0, nturns, 1, False, cb)
        if how == 'scalar':
            return L.kick_and_drift(xp, yp, e, p, rf.v1, rf.v2, rf.phi0, rf.dE0, rf.drift, rf.phi12, rf.h, dturns, rec, 0, nturns, 1, False, cb)
        if how == 'array':
            return L.kick_and_drift(xp, yp, e, p, rf.v1, rf.v2, rf.phi0, rf.dE0, rf.drift, ctx.array([rf.phi12] * (nturns + 1)), rf.h,
                                    dturns, rec, 0, nturns, 1, False, cb)
        return T.mod('tracking.tracking').Tracking(m).track(rec, init_distr=(p, e), callback=cb)
    cb = CB(fail)
    r, e = ctx.raises(lambda: run(cb), Stop)
    report(ctx, cb, [(k, nturns) for k in range(1, nturns + 1)], fail, e, 'tracking')
    if e is None:
        q = run(None)
        ctx.check_eq(r[0], np.array(q[0]), 'the callback changes the phases')
        ctx.check_eq(r[1], np.array(q[1]), 'the callback changes the energies')
    ctx.reach('raised' if e is not None else 'done')


def recon(ctx, T, n, nprof, nb, it, how):
    xp, c = sym_xp(ctx, n, nprof, nb)
    w, rows_ = sym_waterfall(ctx, nprof, nb, 1, free=1)
    fail = ctx.concrete(ctx.int('fail', 0, it + 1))
    z, l, r_ = (np.array([x], dtype=np.int32) for x in (0, 0, nb))

    def run(cb):
        if how == 'lib':
            return T.lib.reconstruct(xp, w, it, nb, n, nprof, False, cb)
        if how == 'multi':
            a = T.lib.reconstruct_multi(xp, w, l, r_, z, it, nb, n, nprof, 1, False, cb)
            return a[0], a[1], a[3]
        t = tomo_of(T, w, xp)
        t.run(niter=it, callback=cb)
        return t.weight, t.diff, t.recreated
    q, eq = ctx.raises(lambda: run(None), RuntimeError)
    if eq is not None:
        return
    cb = CB(fail)
    r, e = ctx.raises(lambda: run(cb), Stop)
    report(ctx, cb, [(k, it) for k in range(1, it + 1)] + [(it, it)], fail, e, 'reconstruction')
    if e is None:
        ctx.check_eq(r[0], np.array(q[0]), 'the callback changes the weights')
        ctx.check_eq(r[2], np.array(q[2]), 'the callback changes the recreated waterfall')
    ctx.reach('raised' if e is not None else 'done')


def instances(tier):
    out = []
    cfg = [(2, 2), (3, 1)] + ([(3, 2), (2, 5), (4, 2)] if tier == 'thorough' else [])
    b = 60 if tier == 'quick' else 600
    for nprof, dt in cfg:
        for rec in range(nprof):
            for how in ('machine', 'scalar', 'array', 'track'):
                out.append(Instance(f'{how}-{nprof}x{dt}-r{rec}', tracking, dict(nprof=nprof, dturns=dt, rec=rec, how=how),
                                    reach=['done', 'raised'], budget=b, soft=('leak',)))
    for n, p, nb, it in [(1, 1, 2, 0), (1, 1, 2, 2), (2, 1, 2, 1)] + ([(2, 2, 2, 1), (1, 2, 2, 3)] if tier == 'thorough' else []):
        for how in ('lib', 'run', 'multi'):
            out.append(Instance(f'{how}-p{n}-f{p}-b{nb}-i{it}', recon, dict(n=n, nprof=p, nb=nb, it=it, how=how),
                                reach=['done', 'raised'], budget=b, weight=4 ** n))
    return out
