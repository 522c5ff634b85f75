"""C02: tracking is reversible"""
from .common import *

UNITS = ['libtomo.kick_and_drift', 'libtomo.kick / drift / kick_up / kick_down / drift_up / drift_down', 'Tracking.kick_and_drift']
BOUNDS = ('1-2 particles, 2-3 frames, 1-2 turns per frame, every pair (start frame, restart frame); all machine parameters and '
          'coordinates unconstrained reals')
OUTSIDE = 'longer runs; floating-point rounding (the real round trip is exact only up to rounding); deltaturn != 0'
ASSUMPTIONS = ['exact real arithmetic', 'native sine = mathematical sine (its error is property C07)']


def restart(ctx, T, nprof, dturns, rec, rec2, npart):
    nturns = dturns * (nprof - 1)
    rf = RF(ctx, nturns)
    dphi, dE = ctx.reals('dphi', npart), ctx.reals('dE', npart)

    def run(p, e, r):
        xp, yp = zeros(ctx, (nprof, npart)), zeros(ctx, (nprof, npart))
        a, b = T.lib.kick_and_drift(xp, yp, e, p, rf.v1, rf.v2, rf.phi0, rf.dE0, rf.drift, rf.phi12, rf.h, dturns, r, 0,
                                    nturns, npart, False, None)
        return np.array(a, copy=True), np.array(b, copy=True)
    x1, y1 = run(dphi.copy(), dE.copy(), rec)
    x2, y2 = run(ctx.array(x1[rec2]), ctx.array(y1[rec2]), rec2)
    ctx.check_eq(x1[rec], dphi, 'start frame phase')
    ctx.check_eq(y1[rec], dE, 'start frame energy')
    ctx.check_eq(x2, x1, 'phase after restart')
    ctx.check_eq(y2, y1, 'energy after restart')
    ctx.reach('done')


def single(ctx, T, npart, order):
    """one kick (or drift) and its opposite, in both orders, leave every particle where it was"""
    dphi, dE = ctx.reals('dphi', npart), ctx.reals('dE', npart)
    p0, e0 = dphi.copy(), dE.copy()
    a = [ctx.real(n) for n in ('v1', 'v2', 'phi0', 'phi12', 'h')]
    acc, c = ctx.real('acc'), ctx.real('c')
    L = T.lib
    ku = lambda: L.kick_up(dphi, dE, *a, npart, acc)
    kd = lambda: L.kick_down(dphi, dE, *a, npart, acc)
    du = lambda: L.drift_up(dphi, dE, c, npart)
    dd = lambda: L.drift_down(dphi, dE, c, npart)
    for f in {'kick': (ku, kd), 'kick-': (kd, ku), 'drift': (du, dd), 'drift-': (dd, du),
              'turn': (du, ku, kd, dd), 'turn-': (kd, dd, du, ku)}[order]:
        f()
    ctx.check_eq(dphi, p0, 'phase')
    ctx.check_eq(dE, e0, 'energy')
    ctx.reach('done')


def wrapper(ctx, T, npart, nturns, turn):
    """kick/drift with the per-turn arrays of a machine"""
    rf = RF(ctx, nturns, 'scalar')
    m = make_machine(T)
    m.phi0, m.phi12, m.h_ratio, m.deltaE0 = rf.phi0, rf.phi12, rf.h, rf.dE0
    dphi, dE = ctx.reals('dphi', npart), ctx.reals('dE', npart)
    p0, e0 = dphi.copy(), dE.copy()
    L = T.lib
    p = L.drift(dE, dphi, rf.drift, npart, turn)
    e = L.kick(m, dE, p, rf.v1, rf.v2, npart, turn)
    e = L.kick(m, e, p, rf.v1, rf.v2, npart, turn, up=False)
    p = L.drift(e, p, rf.drift, npart, turn, up=False)
    ctx.check_eq(p, p0, 'phase')
    ctx.check_eq(e, e0, 'energy')
    ctx.reach('done')


def hybrid(ctx, T, nprof, dturns, rec, rec2, npart):
    nturns = dturns * (nprof - 1)
    rf = RF(ctx, nturns, 'scalar')
    m = make_machine(T)
    m.nprofiles, m.dturns, m.q = nprof, dturns, 1
    m.vrf1_at_turn, m.vrf2_at_turn = rf.v1, rf.v2
    m.phi0, m.phi12, m.h_ratio, m.deltaE0, m.drift_coef = rf.phi0, rf.phi12, rf.h, rf.dE0, rf.drift
    m.synch_part_x = 1.0
    tr = T.mod('tracking.tracking').Tracking(m)
    dphi, dE = ctx.reals('dphi', npart), ctx.reals('dE', npart)
    x1, y1 = tr.kick_and_drift(dE.copy(), dphi.copy(), rf.v1, rf.v2, rec)
    x2, y2 = tr.kick_and_drift(y1[rec2].copy(), x1[rec2].copy(), rf.v1, rf.v2, rec2)
    ctx.check_eq(x1[rec], dphi, 'start frame phase')
    ctx.check_eq(x2, x1, 'phase after restart')
    ctx.check_eq(y2, y1, 'energy after restart')
    ctx.reach('done')


def instances(tier):
    out = []
    cfg = [(2, 1, 2), (2, 2, 1), (3, 1, 2), (3, 1, 3)]
    if tier == 'thorough':
        cfg += [(3, 2, 1), (4, 1, 1), (3, 1, 2), (2, 4, 1), (5, 1, 1), (3, 3, 1)]
    b = 90 if tier == 'quick' else 600
    for nprof, dt, npart in cfg:
        for r in range(nprof):
            for r2 in range(nprof):
                if r == r2:
                    continue
                p = dict(nprof=nprof, dturns=dt, rec=r, rec2=r2, npart=npart)
                kw = dict(reach=['done'], budget=b, rtol=1e-5, atol=1e-5, weight=nprof * dt * npart)
                out.append(Instance(f'restart-{nprof}x{dt}-r{r}to{r2}-n{npart}', restart, p, **kw))
                out.append(Instance(f'hybrid-{nprof}x{dt}-r{r}to{r2}-n{npart}', hybrid, p, **kw))
    for o in ('kick', 'kick-', 'drift', 'drift-', 'turn', 'turn-'):
        out.append(Instance(f'single-{o}', single, dict(npart=3, order=o), reach=['done'], budget=b))
    for t in range(3):
        out.append(Instance(f'wrapper-t{t}', wrapper, dict(npart=2, nturns=2, turn=t), reach=['done'], budget=b))
    return out
