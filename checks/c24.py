"""the fit of the synchronous point runs on a symbolic profile and symbolic machine values (the root finder may return any root of the function it was
given) and the result is compared with the balance of the potential at the edges of the bunch; the functions given to root finders are compared with
their derivatives"""
from .common import *

UNITS = ['data.pre_process.fit_synch_part_x (both signatures)', 'data.data_treatment.fit_synch_part_x', 'data.pre_process._calc_tangentfeet',
         'data.pre_process._calc_tangentbins', 'physics.phase_low_mch', 'physics.phase_low', 'physics.dphase_low_mch', 'physics.dphase_low',
         'physics.rf_voltage*', 'physics.drf_voltage*', 'physics.rfvolt_rf1*', 'physics.drfvolt_rf1*', 'physics.rf_voltage_at_phase', 'physics.vrft',
         'Machine.load_fitted_synch_part_x_ftn']
BOUNDS = ('profiles of 6-8 bins (thorough: 10) with every sample symbolic and both edges of the bunch at least two bins inside; up to 3 frames of 1-2 turns, '
          'every reference frame; all machine values symbolic')
OUTSIDE = 'bunches that touch the border of the profile; whether Newton iteration converges; rounding; empty or flat edges (vanishing slope)'
ASSUMPTIONS = ['exact real arithmetic', 'sin and cos as uninterpreted functions', 'scipy.optimize.newton returns a root of the function it was given, or fails',
               'numpy.polyfit of degree one returns the least-squares line']


def machine(ctx, T, nprof, dt, nb, bref, mref, p12=True):
    M = T.mod('tracking.machine').Machine
    n = (nprof - 1) * dt + 1
    m = M(dturns=dt, vrf1=ctx.real('vrf1', lo=1, hi=5), mean_orbit_rad=ctx.real('R', lo=1, hi=5), bending_rad=ctx.real('rho', lo=1, hi=5), b0=1.0, trans_gamma=4.0,
          rest_energy=1e9, nprofiles=nprof, nbins=nb, dtbin=ctx.real('dtbin', lo=0.01, hi=0.1), vat_now=False, machine_ref_frame=mref, beam_ref_frame=bref,
          h_num=ctx.real('h', lo=1, hi=4), h_ratio=ctx.real('hr', lo=1, hi=3), phi12=ctx.real('p12', lo=-1, hi=1), vrf2=ctx.real('vrf2', lo=-1, hi=1),
          vrf1dot=ctx.real('vrf1dot', lo=-1, hi=1), vrf2dot=ctx.real('vrf2dot', lo=-1, hi=1), bdot=ctx.real('bdot', lo=0, hi=0.01),
          charge=ctx.real('q', lo=1, hi=3))
    m.phi0 = ctx.reals('phi0', n, lo=-0.3, hi=0.3)
    m.omega_rev0 = ctx.reals('omega', n, lo=1, hi=5)
    m.vrf1_at_turn = ctx.reals('v1', n, lo=1, hi=5)
    m.vrf2_at_turn = ctx.reals('v2', n, lo=-0.2, hi=0.2)
    m.time_at_turn = ctx.reals('t', n, lo=-1, hi=1)
    return m


def line(y, first):
    """zero of the least-squares line through four neighbouring bins (bin centres)"""
    x = [first + i + 0.5 for i in range(4)]
    mx = sum(x) / 4
    b = sum((a - mx) * c for a, c in zip(x, y))          # times sxx = 5
    return b, sum(y) / 4, mx


def fit(ctx, T, nprof, dt, nb, how):
    ctx.hooks['lazy'] = ctx.hooks['fork_ite'] = True
    bref = ctx.concrete(ctx.int('bref', 0, nprof - 1))
    mref = ctx.concrete(ctx.int('mref', 0, nprof - 1))
    m = machine(ctx, T, nprof, dt, nb, bref, mref)
    w = ctx.array([[ctx.real(f'w{j}', lo=0, hi=9) if i == bref else ctx.const((i + 2 * j) % 5 + 1) for j in range(nb)] for i in range(nprof)])
    v = rows(w)[bref]
    th = ctx.const(0.15)
    # the bunch: its edges (two bins inside the profile) and its highest bin
    low = ctx.concrete(ctx.int('low', 2, nb - 3))
    up = ctx.concrete(ctx.int('up', low, nb - 3))
    top = ctx.concrete(ctx.int('top', low, up))
    ctx.assume(ctx.And(*[v[top] > v[j] for j in range(top)], *[v[top] >= v[j] for j in range(top + 1, nb)]))
    ctx.assume(ctx.And(*[v[j] >= th * v[top] for j in range(low, up + 1)], v[low - 1] < th * v[top], v[up + 1] < th * v[top]))
    bl, yl, xl = line(v[low - 2:low + 2], low - 2)
    bu, yu, xu = line(v[up - 1:up + 3], up - 1)
    if not is_sym(ctx):
        ctx.assume(abs(bl) > 0.05 and abs(bu) > 0.05)
    pre, dtm = T.mod('data.pre_process'), T.mod('data.data_treatment')
    P = T.mod('data.profiles').Profiles
    f = {'array': lambda: pre.fit_synch_part_x(w, m), 'profiles': lambda: pre.fit_synch_part_x(P(m, 1.0, w)),
         'treat': lambda: dtm.fit_synch_part_x(P(m, 1.0, w))}[how]
    r, e = ctx.raises(f, RuntimeError)
    if e is not None:
        ctx.assume(False)
    x, fl, fu = r
    ctx.check_eq((fl - xl) * bl, -yl * 5, 'lower foot of the bunch')
    ctx.check_eq((fu - xu) * bu, -yu * 5, 'upper foot of the bunch')
    t = bref * dt
    rad = m.h_num * m.omega_rev0[t] * m.dtbin
    L = (fu - fl) * rad
    p = m.phi0[t] - (x - fl) * rad
    v1, v2, hr, d = m.vrf1_at_turn[t], m.vrf2_at_turn[t], m.h_ratio, m.phi12
    u = (v1 * (ctx.cos(p + L) - ctx.cos(p)) + v2 * (ctx.cos(hr * (p + L - d)) - ctx.cos(hr * (p - d))) / hr
         + L * (v1 * ctx.sin(m.phi0[t]) + v2 * ctx.sin(hr * (m.phi0[t] - d))))
    if is_sym(ctx):
        ctx.check_eq(u, 0, 'potential at the edges of the bunch')
    else:
        ctx.check(abs(u) <= 2e-3 * (1 + abs(L)) * (abs(v1) + abs(v2)), 'potential at the edges of the bunch')
    m.load_fitted_synch_part_x_ftn(r)
    ctx.check_eq(m.synch_part_x, x, 'synchronous point stored')
    ctx.check_eq(m.fitted_synch_part_x, x, 'fitted point stored')
    ctx.check_eq(m.bunchlimit_low, fl, 'lower limit stored')
    ctx.check_eq(m.bunchlimit_up, fu, 'upper limit stored')
    ctx.reach('done')


def volts(ctx, T, turn, charge):
    """the functions handed to root finders and their derivatives"""
    ph = T.mod('utils.physics')
    m = machine(ctx, T, 3, 1, 4, 0, ctx.concrete(ctx.int('mref', 0, 2)))
    m.q = charge * m.q
    x = ctx.real('x', lo=-3, hi=3)
    L = ctx.real('L', lo=0.1, hi=3)
    t, hr, d = m.time_at_turn[turn], m.h_ratio, m.phi12
    v1, v2 = m.vrf1 + m.vrf1dot * t, m.vrf2 + m.vrf2dot * t
    s, c = ctx.sin, ctx.cos
    acc = 2 * ctx.const(np.pi) * m.mean_orbit_rad * m.bending_rad * m.bdot * charge
    eq = ctx.check_eq
    eq(ph.rf_voltage_mch(x, m, turn), v1 * s(x) + v2 * s(hr * (x - d)) - acc, 'voltage of both systems')
    eq(ph.drf_voltage_mch(x, m, turn), v1 * c(x) + hr * v2 * c(hr * (x - d)), 'derivative of the voltage of both systems')
    eq(ph.rfvolt_rf1_mch(x, m, turn), v1 * s(x) - acc, 'voltage of the first system')
    eq(ph.drfvolt_rf1_mch(x, m, turn), v1 * c(x), 'derivative of the voltage of the first system')
    eq(ph.drf_voltage(x, v1, v2, hr, d), v1 * c(x) + hr * v2 * c(hr * (x - d)), 'derivative of the voltage')
    eq(ph.rf_voltage_at_phase(x, v1, v2, hr, d), v1 * s(x) + v2 * s(hr * (x - d)), 'voltage at a phase')
    eq(ph.rf_voltage_at_phase(x, m.vrf1, m.vrf1dot, m.vrf2, m.vrf2dot, hr, d, m.time_at_turn, turn), v1 * s(x) + v2 * s(hr * (x - d)),
       'voltage at a phase and turn')
    eq(ph.vrft(m.vrf1, m.vrf1dot, t), v1, 'voltage at a time')
    a, b, p0 = m.vrf1_at_turn[turn], m.vrf2_at_turn[turn], m.phi0[turn]
    u = (a * (c(x + L) - c(x)) + b * (c(hr * (x + L - d)) - c(hr * (x - d))) / hr + L * (a * s(p0) + b * s(hr * (p0 - d))))
    du = -a * (s(x + L) - s(x)) - b * (s(hr * (x + L - d)) - s(hr * (x - d)))
    eq(ph.phase_low_mch(x, m, L, turn), u, 'difference of the potential')
    eq(ph.dphase_low_mch(x, m, L, turn), du, 'derivative of the difference of the potential')
    ctx.reach('done')


def instances(tier):
    out = []
    b = 90 if tier == 'quick' else 900
    for nprof, dt, nb, how in [(1, 1, 7, 'array'), (2, 2, 6, 'array'), (2, 1, 6, 'profiles'), (2, 1, 6, "treat"), (1, 1, 8, 'profiles')] + (
            [(1, 1, 10, 'array'), (3, 2, 7, 'array')] if tier == 'thorough' else []):
        out.append(Instance(f'fit-{how}-f{nprof}-d{dt}-b{nb}', fit, dict(nprof=nprof, dt=dt, nb=nb, how=how), budget=b, reach=['done'], weight=nb, rtol=1e-6, atol=1e-8))
    for turn in (0, 1, 2):
        for q in (1, -1):
            out.append(Instance(f'volts-t{turn}-{"pos" if q > 0 else "neg"}', volts, dict(turn=turn, charge=q), budget=b, reach=['done']))
    return out
