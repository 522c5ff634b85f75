"""tracking with self-fields runs on symbolic particles and self-field voltages and is compared, turn by turn, with the equations of motion"""
from .common import *

UNITS = ['Tracking.track', 'Tracking.kick_and_drift_self', 'Tracking._calc_xp_sf', 'ParticleTracker.enable_self_fields', 'libtomo.kick', 'libtomo.drift',
         'particles.physical_to_coords']
BOUNDS = ('1-2 particles, 2-3 frames of 1-2 turns (at most 2 turns per run; thorough: 4), every start frame; initial coordinates and all self-field voltages symbolic, the '
          'machine values distinct constants; zero self-fields: machine values symbolic too')
OUTSIDE = 'larger runs; rounding'
ASSUMPTIONS = ['exact real arithmetic', 'sin as uninterpreted function']
NB = 3


class P:
    pass


def machine(ctx, T, nprof, dt, sym):
    m = make_machine(T)
    n = (nprof - 1) * dt + 1

    def arr(name, lo, hi):
        return ctx.reals(name, n, lo=lo, hi=hi) if sym else ctx.array([ctx.const(round(8 * (lo + (hi - lo) * (i + 1) / (n + 1))) / 8) for i in range(n)])
    m.nprofiles, m.dturns, m.nbins = nprof, dt, NB
    m.vrf1_at_turn, m.vrf2_at_turn = arr('v1', 0.5, 2), arr('v2', -1, 1)
    m.phi0, m.deltaE0, m.drift_coef = arr('phi0', -0.5, 0.5), arr('dE0', -1, 1), arr('drift', 0.25, 1)
    m.omega_rev0 = arr('omega', 1, 2)
    m.q = ctx.real('q', lo=1, hi=2) if sym else ctx.const(2)
    m.phi12, m.h_ratio, m.h_num = ctx.const(0.25), ctx.const(2), ctx.const(1)
    m.dtbin = ctx.const(1)
    m.synch_part_x, m.synch_part_y = ctx.const(1.5), ctx.const(1.5)
    return m


def bins(ctx, m, xo, wrap, t, p):
    rad = m.h_num * m.omega_rev0[t] * m.dtbin
    out = []
    for z in p:
        a = z + m.phi0[t] - xo * rad
        out.append((a - wrap * ctx.floor(a / wrap)) / rad)
    return out


def spec(ctx, m, p, e, rec, vs, xo, wrap, dEb, defects):
    """right equations, or those with the recorded defects (neighbouring bin going forwards, sign going backwards)"""
    dt, nprof = m.dturns, m.nprofiles
    X, Y = [None] * nprof, [None] * nprof
    npart = len(p)

    def rf(t, p, e, sign):
        return [b + sign * (m.q * m.vrf1_at_turn[t] * ctx.sin(a + m.phi0[t]) + m.q * m.vrf2_at_turn[t] * ctx.sin(m.h_ratio * (a + m.phi0[t] - m.phi12)) - m.deltaE0[t])
                for a, b in zip(p, e)]

    def put(k, x, e):
        X[k], Y[k] = list(x), [b / dEb + m.synch_part_y for b in e]

    def volt(k, x, off):
        return [m.q * vs[k][(ctx.concrete(ctx.floor(z)) + off) % len(vs[k])] for z in x]
    p0, e0 = list(p), list(e)
    put(rec, bins(ctx, m, xo, wrap, rec * dt, p), e)
    for t in range(rec * dt, (nprof - 1) * dt):
        p = [a - m.drift_coef[t] * b for a, b in zip(p, e)]
        x = bins(ctx, m, xo, wrap, t + 1, p)
        e = [a + v for a, v in zip(rf(t + 1, p, e, 1), volt(t // dt, x, -1 if defects[0] else 0))]
        if (t + 1) % dt == 0:
            put((t + 1) // dt, x, e)
    p, e = p0, e0
    for t in range(rec * dt, 0, -1):
        x = bins(ctx, m, xo, wrap, t, p)
        e = [a + (v if defects[1] else -v) for a, v in zip(rf(t, p, e, -1), volt((t - 1) // dt, x, 0))]
        p = [a + m.drift_coef[t - 1] * b for a, b in zip(p, e)]
        if (t - 1) % dt == 0:
            put((t - 1) // dt, bins(ctx, m, xo, wrap, t - 1, p), e)
    return X, Y


def run(ctx, T, m, p, e, rec, vs, xo, wrap, dEb):
    tr = T.mod('tracking.tracking').Tracking(m)
    pr = P()
    pr.phiwrap, pr.vself = wrap, vs
    tr.enable_self_fields(pr)
    ctx.check(tr.self_field_flag is True, 'self-fields are not enabled')
    tr.particles.xorigin, tr.particles.dEbin = xo, dEb
    return tr.track(rec, (p, e))


def equal(ctx, got, want, label):
    if is_sym(ctx):
        ctx.check_eq(np.array(got), np.array(want, dtype=object), label)
    else:
        a, b = np.array(got, dtype=float), np.array(want, dtype=float)
        ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-6), label)


def reference(ctx, T):
    """which equations the code solves: one particle, one turn, no RF"""
    out = []
    for rec in (0, 1):
        m = machine(ctx, T, 3, 1, False)
        for k in ('vrf1_at_turn', 'vrf2_at_turn', 'deltaE0', 'drift_coef', 'phi0'):
            setattr(m, k, ctx.array([ctx.const(0)] * 3))
        m.omega_rev0 = ctx.array([ctx.const(1)] * 3)
        vs = ctx.array([[ctx.const(1), ctx.const(2), ctx.const(4), ctx.const(8)], [ctx.const(16), ctx.const(32), ctx.const(64), ctx.const(128)]])
        x, y = run(ctx, T, m, ctx.array([ctx.const(1.5)]), ctx.array([ctx.const(0)]), rec, vs, ctx.const(0), ctx.const(4), ctx.const(1))
        out.append(bool(y[1, 0] - y[0, 0] == 2 * 2))
    return out


def fields(ctx, T, nprof, dt, rec, npart, known=False):
    ctx.hooks['fork_index'] = True
    m = machine(ctx, T, nprof, dt, False)
    wrap = ctx.const(4)
    vs = ctx.reals('vs', (nprof - 1, 4 + 1), lo=-2, hi=2)
    v = rows(vs)
    p, e = ctx.reals('p', npart, lo=-2, hi=2), ctx.reals('e', npart, lo=-2, hi=2)
    p0, e0 = list(p), list(e)
    xo, dEb = ctx.const(-1.25), ctx.const(0.5)
    if not is_sym(ctx):
        # witnesses next to the border of a bin are left out
        X, _ = spec(ctx, m, p0, e0, rec, v, xo, wrap, dEb, (True, True))
        f = np.array(X, dtype=float) * np.array([[m.omega_rev0[k * dt]] for k in range(nprof)])
        x2 = np.array(X, dtype=float)
        ctx.assume(np.all(np.abs(x2 - np.round(x2)) > 1e-7))
    fw, bw = reference(ctx, T)
    x, y = run(ctx, T, m, p, e, rec, vs, xo, wrap, dEb)
    ctx.check_eq(p, np.array(p0, dtype=object if is_sym(ctx) else float), 'the phases are modified')
    ctx.check_eq(e, np.array(e0, dtype=object if is_sym(ctx) else float), 'the energies are modified')
    X, Y = spec(ctx, m, p0, e0, rec, v, xo, wrap, dEb, (False, False) if known else (not fw, not bw))
    equal(ctx, y, Y, 'neighbouring bin or wrong sign of the self-field' if known else 'energy bins')
    equal(ctx, x, X, 'phase bins')
    ctx.reach('done')


def none(ctx, T, nprof, dt, rec, npart):
    """without self-field voltage: the tracking without self-fields, in bins"""
    ctx.hooks['fork_index'] = True
    m = machine(ctx, T, nprof, dt, True)
    n = (nprof - 1) * dt + 1
    m.omega_rev0 = ctx.array([ctx.const(1 + i / 8) for i in range(n)])
    xo, dEb = ctx.const(-1.25), ctx.const(0.5)
    p, e = ctx.reals('p', npart, lo=-2, hi=2), ctx.reals('e', npart, lo=-2, hi=2)
    # no particle leaves the image: the wrap is as long as the image
    wrap = ctx.const(1000)
    vs = zeros(ctx, (nprof - 1, 1100))
    tr = T.mod('tracking.tracking').Tracking(m)
    P_, E_ = tr.track(rec, (ctx.array(list(p)), ctx.array(list(e))))
    X, Y = T.mod('tracking.particles').physical_to_coords(P_, E_, m, xo - 500, dEb)

    class V:
        shape = (nprof - 1, 1100)

        def __getitem__(self, k):
            return ctx.array([ctx.const(0)] * npart)
    pr = P()
    pr.phiwrap, pr.vself = wrap, V()
    tr.enable_self_fields(pr)
    tr.particles.xorigin, tr.particles.dEbin = xo - 500, dEb
    x, y = tr.track(rec, (ctx.array(list(p)), ctx.array(list(e))))
    inside = ctx.And(*[ctx.And(z * m.omega_rev0[k * dt] >= 0, z * m.omega_rev0[k * dt] < 1000) for k, r in enumerate(rows(X)) for z in r])
    ctx.assume(inside)
    equal(ctx, y, rows(Y), 'energy without self-field')
    equal(ctx, x, rows(X), 'phase without self-field')
    ctx.reach('done')


def missing(ctx, T):
    m = machine(ctx, T, 2, 1, False)
    tr = T.mod('tracking.tracking').Tracking(m)
    k = ctx.concrete(ctx.int('k', 0, 4))
    pr = P()
    if k != 0:
        pr.phiwrap = None if k == 1 else ctx.const(4)
    if k != 2:
        pr.vself = None if k == 3 else zeros(ctx, (1, 5))
    exc = T.mod('exceptions')
    _, e = ctx.raises(lambda: tr.enable_self_fields(pr), exc.SelfFieldTrackingError)
    ctx.check((e is None) == (k == 4), 'missing self-fields')
    ctx.check(tr.self_field_flag is (k == 4), 'self-fields enabled without voltages')
    ctx.reach('done')


def instances(tier):
    th = tier == 'thorough'
    b = 90 if not th else 900
    o = []
    for nprof, dt, npart in [(2, 1, 1), (2, 2, 1), (3, 1, 1), (2, 1, 2)] + ([(3, 2, 1), (2, 2, 2), (4, 1, 1)] if th else []):
        for rec in range(nprof):
            o.append(Instance(f'fields-{nprof}x{dt}-r{rec}-n{npart}', fields, dict(nprof=nprof, dt=dt, rec=rec, npart=npart), budget=b, reach=['done'], weight=5, rtol=1e-6, atol=1e-6))
    for rec in (0, 1):
        o.append(Instance(f'physics-r{rec}', fields, dict(nprof=2, dt=1, rec=rec, npart=1, known=True), budget=b, rtol=1e-6, atol=1e-6))
    for nprof, dt, npart in [(2, 1, 1), (3, 1, 1), (2, 2, 1)]:
        for rec in range(nprof):
            o.append(Instance(f'zero-{nprof}x{dt}-r{rec}', none, dict(nprof=nprof, dt=dt, rec=rec, npart=npart), budget=b, reach=['done'], rtol=1e-6, atol=1e-6))
    o.append(Instance('missing', missing, {}, budget=b, reach=['done']))
    return o
