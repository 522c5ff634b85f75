"""C01: tracked coordinates obey the turn-by-turn equations of motion"""
from .common import *

UNITS = ['tracking.tracking.Tracking.track', 'utils.tomo_config.cast', 'libtomo.kick_and_drift (binding + native routine)']
BOUNDS = ('1-2 particles; 2-4 measured frames; 1-3 turns per frame, every start frame; all per-turn voltages, phases, '
          'energy gains, drift factors, harmonic ratio and all particle coordinates are unconstrained reals')
OUTSIDE = 'more turns/frames/particles than the bounds; floating-point rounding; deltaturn != 0 (documented as experimental)'
ASSUMPTIONS = ['exact real arithmetic instead of IEEE doubles/floats',
               'the native sine approximation is the mathematical sine (its error is property C07)',
               'IR is produced by clang -O1 from the current C++ sources; the shipped build uses gcc -ffast-math']


def native(ctx, T, nprof, dturns, rec, npart, prec='d'):
    if prec == 'f':
        ctx.hooks['prec'] = 'f'
    nturns = dturns * (nprof - 1)
    rf = RF(ctx, nturns)
    dphi, dE = ctx.reals('dphi', npart), ctx.reals('dE', npart)
    p0, e0 = list(dphi), list(dE)
    xp, yp = zeros(ctx, (nprof, npart)), zeros(ctx, (nprof, npart))
    args = [xp, yp, dE, dphi, rf.v1, rf.v2, rf.phi0, rf.dE0, rf.drift, rf.phi12]
    if prec == 'f' and ctx.mode == 'replay':
        args = [np.asarray(a, dtype=np.float32) for a in args]
    if ctx.mode == 'sym':
        args = list(args)
    rx, ry = T.lib.kick_and_drift(*args, rf.h, dturns, rec, 0, nturns, npart, False, None)
    P, E = track_spec(ctx, rf, p0, e0, nprof, dturns, rec)
    ctx.check_eq(np.array(rx), np.array(P, dtype=object), 'phase')
    ctx.check_eq(np.array(ry), np.array(E, dtype=object), 'energy')
    ctx.reach('done')


def track(ctx, T, nprof, dturns, rec, npart, back=False):
    """through Tracking.track with a user distribution (back: the frame is counted from the end)"""
    nturns = dturns * (nprof - 1)
    rf = RF(ctx, nturns, 'scalar')
    q = ctx.real('q')
    m = make_machine(T)
    m.nprofiles, m.dturns, m.q = nprof, dturns, q
    m.vrf1_at_turn, m.vrf2_at_turn = rf.v1, rf.v2
    m.phi0, m.phi12, m.h_ratio, m.deltaE0, m.drift_coef = rf.phi0, rf.phi12, rf.h, rf.dE0, rf.drift
    m.synch_part_x = 1.0
    dphi, dE = ctx.reals('dphi', npart), ctx.reals('dE', npart)
    p0, e0 = list(dphi), list(dE)
    tr = T.mod('tracking.tracking').Tracking(m)
    xp, yp = tr.track(rec - nprof if back else rec, init_distr=(dphi, dE))
    ctx.check_eq(dphi, np.array(p0, dtype=object), 'the caller\'s phases are modified')
    ctx.check_eq(dE, np.array(e0, dtype=object), 'the caller\'s energies are modified')
    rf.v1, rf.v2 = [q * v for v in rf.v1], [q * v for v in rf.v2]
    P, E = track_spec(ctx, rf, p0, e0, nprof, dturns, rec)
    ctx.check_eq(np.array(xp), np.array(P, dtype=object), 'phase')
    ctx.check_eq(np.array(yp), np.array(E, dtype=object), 'energy')
    ctx.reach('done')


def instances(tier):
    out = []
    cfg = [(2, 1, 1), (2, 2, 2), (3, 1, 2), (3, 2, 1), (2, 3, 1)]
    if tier == 'thorough':
        cfg += [(4, 1, 2), (3, 2, 2), (4, 2, 1), (3, 3, 1), (2, 5, 1), (5, 1, 1), (6, 1, 1), (2, 6, 2), (2, 1, 5)]
    for nprof, dt, npart in cfg:
        for rec in range(nprof):
            p = dict(nprof=nprof, dturns=dt, rec=rec, npart=npart)
            out.append(Instance(f'native-{nprof}x{dt}-r{rec}-n{npart}', native, p, reach=['done'],
                                weight=nprof * dt * npart, atol=1e-6, rtol=1e-6, budget=90 if tier == 'quick' else 600))
            for back in (False, True) if (nprof, dt) in ((2, 1), (3, 2)) else (False,):
                out.append(Instance(f'track-{nprof}x{dt}-r{rec - nprof if back else rec}-n{npart}', track, dict(p, back=back), reach=['done'], weight=nprof * dt * npart,
                                    atol=1e-6, rtol=1e-6, budget=90 if tier == 'quick' else 600))
    for rec in (0, 1):
        out.append(Instance(f'native-float-2x2-r{rec}', native, dict(nprof=2, dturns=2, rec=rec, npart=1, prec='f'), reach=['done'],
                            atol=1e-2, rtol=1e-3, witness=False))
    return out
