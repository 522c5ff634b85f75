"""a ProgramsMachine is built from symbolic voltage, phase and momentum programs (the root finder may return any root) and its turn-by-turn values are
compared with the programs at the times of the turns, the relativistic relations and the balance of the synchronous particle"""
from scipy import constants
from .common import *

UNITS = ['physics.rf_voltage_pmch', 'physics.drf_voltage_pmch', 'physics.rfvolt_rf1_pmch', 'physics.drfvolt_rf1_pmch', 'ProgramsMachine.__init__', 'ProgramsMachine.values_at_turns', 'ProgramsMachine._interpolate_momentum', 'ProgramsMachine.find_synchronous_phase',
         'ProgramsMachine.calc_phi12', 'MachineABC.__init__', 'physics.find_phi_lower_upper', 'physics.rfvolt_rf1_pmch', 'physics.rf_voltage_pmch', 'physics.rf_voltage']
BOUNDS = ('up to 4 turns (1-3 profiles, 1-2 turns between them), every reference frame; programs of 3 points; the times of the momentum program, the reference '
          'time, voltages and phases symbolic; momentum constant in most cases, symbolic and rising over one segment in the others')
OUTSIDE = 'more turns and program points; programs whose first segment is shorter than two turns; whether Newton iteration converges; rounding'
ASSUMPTIONS = ['exact real arithmetic', 'sin and cos as uninterpreted functions', 'scipy.optimize.newton returns a root of the function it was given, or fails']

C = constants.c
E_REST, P = 3e8, 4e8
RAD = 0.8 * C / (2 * np.pi)        # one turn takes about one unit of time
NAMES = ('time_at_turn', 'phi0', 'e0', 'beta0', 'eta0', 'drift_coef', 'omega_rev0', 'vrf1_at_turn', 'vrf2_at_turn')


def interp(ctx, x, xs, ys):
    """the program at time x (held at both ends)"""
    if x <= xs[0]:
        return ys[0]
    for i in range(1, len(xs)):
        if x <= xs[i]:
            return ys[i - 1] + (ys[i] - ys[i - 1]) * (x - xs[i - 1]) / (xs[i] - xs[i - 1])
    return ys[-1]


def turn_times(ctx, T, tm, pm, er, circ, most):
    """times and momenta of the turns up to the end of the momentum program"""
    sq = T.np.sqrt
    c = ctx.const(C)

    def period(p):
        return circ / (sq(1 / (1 + (er / p) ** 2)) * c)
    t, p = [tm[0] + period(pm[0])], [pm[0]]
    while len(t) < most:
        n = t[-1] + period(p[-1])
        if not n <= tm[-1]:
            break
        t.append(n)
        p.append(interp(ctx, n, tm, pm))
    return t, p


def kwargs(ctx, nprof, dt, ref, h):
    return dict(mean_orbit_rad=ctx.const(RAD), bending_rad=ctx.real('rho', lo=1e-9, hi=1e-8), trans_gamma=ctx.real('gt', lo=2, hi=20), rest_energy=ctx.const(E_REST),
                nprofiles=nprof, nbins=8, dtbin=ctx.real('dtbin', positive=True), machine_ref_frame=ref, h_num=ctx.real('h', lo=1, hi=16), charge=ctx.real('q', lo=1, hi=4),
                demax=1.0)


def values(ctx, m, k, t, p, j, n, i0, volts, p12, hr, sy):
    """the attributes of the machine for n turns; turn i happens at t[j + i] with momentum p[j + i]"""
    eq = ctx.check_eq
    c = ctx.const(C)
    pi2 = 2 * ctx.const(np.pi)
    ctx.check(m.n_turns == n, 'number of turns')
    for a in NAMES:
        ctx.check(np.shape(getattr(m, a)) == (n,), f'number of values of {a}')
    ctx.check(np.shape(m.momentum_function) == (n,), 'number of values of the momentum')
    er, R = k['rest_energy'], k['mean_orbit_rad']
    B = []
    for i in range(n):
        x = t[j + i]
        b, e = m.beta0[i], m.e0[i]
        eq(m.momentum_function[i], p[j + i], 'momentum at a turn')
        eq(e ** 2, p[j + i] ** 2 + er ** 2, 'energy at a turn')
        eq((1 - b ** 2) * e ** 2, er ** 2, 'relativistic velocity')
        eq(m.eta0[i], 1 - b ** 2 - 1 / k['trans_gamma'] ** 2, 'phase slip factor')
        eq(m.drift_coef[i], pi2 * k['h_num'] * m.eta0[i] / (e * b ** 2), 'drift coefficient')
        eq(m.omega_rev0[i], b * c / R, 'revolution frequency')
        eq(m.vrf1_at_turn[i], volts(x, 1), 'first voltage')
        eq(m.vrf2_at_turn[i], volts(x, 2), 'second voltage')
        eq(m.h_ratio, hr, 'ratio of the harmonics')
        eq(m.phi12[i], p12(x), 'phase between the harmonics')
        if i:
            d = m.time_at_turn[i] - m.time_at_turn[i - 1]
            if sy:
                ctx.check(ctx.Or(d * m.omega_rev0[i] == pi2, d * m.omega_rev0[i - 1] == pi2), 'time between two turns')
            else:
                ctx.check(abs(d * m.omega_rev0[i] - pi2) < 1e-6 or abs(d * m.omega_rev0[i - 1] - pi2) < 1e-6, 'time between two turns')
        B.append(p[j + i] / (k['bending_rad'] * k['charge'] * c))
    eq(m.time_at_turn[i0], 0, 'time of the reference turn')
    tt = m.time_at_turn
    for i in range(n):
        if i == 0:
            bd = (B[1] - B[0]) / (tt[1] - tt[0])
        elif i == n - 1:
            bd = (B[-1] - B[-2]) / (tt[n - 1] - tt[n - 2])
        else:
            u, v = tt[i] - tt[i - 1], tt[i + 1] - tt[i]
            bd = ((B[i + 1] - B[i]) / v * u + (B[i] - B[i - 1]) / u * v) / (u + v)
        eq(m.bdot[i], bd, 'slope of the field')
        f = m.phi0[i]
        volt = volts(t[j + i], 1) * ctx.sin(f) + volts(t[j + i], 2) * ctx.sin(hr * (f - p12(t[j + i])))
        acc = pi2 * R * k['bending_rad'] * m.bdot[i]
        if sy:
            eq(volt, acc, 'synchronous phase')
        else:
            ctx.check(abs(volt - acc) <= 1e-3 * (abs(volts(t[j + i], 1)) + 3 * abs(volts(t[j + i], 2))), 'synchronous phase')


def unsolved(ctx, e, V, hr):
    """the search for the synchronous phase may fail when the second harmonic is strong"""
    if e is not None and 'synchronous phase' in str(e):
        if not is_sym(ctx):
            ctx.check(5 * max(abs(x) for x in V[2]) * hr > min(V[1]), f'no synchronous phase found in a weakly deformed wave: {e}')
        ctx.assume(False)


def flat(ctx, T, nprof, dt, ref, how, nh):
    """constant momentum; where the programs have their points and where the reference time lies is free"""
    ctx.hooks['fork_ite'] = True
    sy = is_sym(ctx)
    n, i0 = nprof * dt, ref * dt
    a1 = ctx.real('a1', lo=2.2, hi=3.6)
    a2 = a1 + ctx.real('a2', lo=0.7, hi=n + 1.7)
    tm = [ctx.const(0), a1, a2]
    k = kwargs(ctx, nprof, dt, ref, 1)
    pm = [ctx.const(P)] * 3
    t_ref = ctx.real('tref', lo=0.5)
    ctx.assume(t_ref <= a2)
    tv = [ctx.const(0), ctx.const(2.3), ctx.const(4.6), ctx.const(7.2)]
    V = {1: ctx.reals('v1', 4, lo=1, hi=5), 2: ctx.reals('v2', 4, lo=-1, hi=1)}
    ph = {1: ctx.reals('ph1', 4, lo=-1, hi=1), 2: ctx.reals('ph2', 4, lo=-1, hi=1)}

    def volts(x, which):
        return interp(ctx, x, tv, V[which]) if which <= nh else 0
    hr = ctx.const(3) / 2 if nh == 2 else 1
    kw = dict(k)
    if how == 'phase':
        tp = [ctx.const(0), ctx.const(1.9), ctx.const(5.1), ctx.const(7.5)]
        kw['phase_function'] = ctx.array([tp] + [list(ph[i]) for i in range(1, nh + 1)])
        p12 = lambda x: (interp(ctx, x, tp, ph[1]) - (interp(ctx, x, tp, ph[2]) if nh == 2 else 0) + ctx.const(np.pi)) / hr
    elif how == 'scalar':
        kw['phi12'] = ph[1][0]
        p12 = lambda x: ph[1][0]
    elif how == 'one':
        kw['phi12'] = ctx.array([ph[1][0]])
        p12 = lambda x: ph[1][0]
    elif how == 'axis':
        ta = [ctx.const(0), ctx.const(1.4), ctx.const(6)]
        kw['phi12'] = ctx.array([ta, list(ph[1][:3])])
        p12 = lambda x: interp(ctx, x, ta, ph[1][:3])
    elif how == 'volt':
        kw['phi12'] = ctx.array(list(ph[1]))
        p12 = lambda x: interp(ctx, x, tv, ph[1])
    circ = 2 * ctx.const(np.pi) * k['mean_orbit_rad']
    vf = ctx.array([tv] + [list(V[i]) for i in range(1, nh + 1)])
    mf = ctx.array([tm, pm])
    M = T.mod('tracking.programs_machine').ProgramsMachine
    m, e = ctx.raises(lambda: M(dt, vf, mf, [2, 3][:nh], t_ref=t_ref, vat_now=False, **kw))
    _, e = ctx.raises(m.values_at_turns, ValueError, IndexError)
    t, p = turn_times(ctx, T, tm, pm, k['rest_energy'], circ, n + 20)
    if not sy:
        # (rounding decides a tie)
        ctx.assume(all(abs(x - y) > 1e-6 for x in t + [t[-1] + t[1] - t[0]] for y in tm + [t_ref]))
    after = [i for i in range(len(t)) if t[i] >= t_ref]
    first = after[0] - i0 if after else -1
    if not after or first < 0 or first + n > len(t):
        ctx.check(e is not None and 'phase' not in str(e), 'programs that do not cover all turns')
        ctx.reach('refused')
        return
    unsolved(ctx, e, V, hr)
    ctx.check(e is None, 'programs that cover all turns')
    values(ctx, m, k, t, p, first, n, i0, volts, p12, hr, sy)
    ctx.check(len(m.deltaE0) in (n - 1, n), 'number of values of deltaE0')     # (one short: a recorded finding)
    for x in m.deltaE0:
        ctx.check_eq(x, 0, 'energy difference of a turn')
    ctx.reach('done')


def again(ctx, T, how):
    """the values do not depend on how often they are calculated"""
    ctx.hooks['fork_ite'] = True
    sy = is_sym(ctx)
    k = kwargs(ctx, 2, 1, 1, 1)
    tv = [ctx.const(0), ctx.const(2.3), ctx.const(4.6), ctx.const(9)]
    vf = ctx.array([tv, list(ctx.reals('v1', 4, lo=1, hi=5)), list(ctx.reals('v2', 4, lo=-1, hi=1))])
    kw = dict(k)
    ph = ctx.reals('ph', 4, lo=-1, hi=1)
    if how == 'scalar':
        kw['phi12'] = ph[0]
    elif how == 'volt':
        kw['phi12'] = ctx.array(list(ph))
    elif how == 'axis':
        kw['phi12'] = ctx.array([tv[:2] + tv[3:], list(ph[:3])])
    else:
        kw['phase_function'] = ctx.array([tv, list(ph), list(ctx.reals('pg', 4, lo=-1, hi=1))])
    mf = ctx.array([[ctx.const(0), ctx.const(9)], [ctx.const(P)] * 2])
    M = T.mod('tracking.programs_machine').ProgramsMachine
    m, e = ctx.raises(lambda: M(1, vf, mf, [1, 2], t_ref=ctx.const(4.3), **kw), ValueError)
    if e is not None:
        ctx.assume(False)
    one = {a: list(getattr(m, a)) for a in NAMES + ('phi12', 'bdot', 'deltaE0')}
    _, e = ctx.raises(m.values_at_turns, ValueError, IndexError)
    if e is not None and 'synchronous phase' in str(e):
        ctx.assume(False)
    ctx.check(e is None, 'a second calculation')
    for a in one:
        if a != 'phi0':
            ctx.check(len(getattr(m, a)) == len(one[a]), f'number of values of {a} in a second calculation')
            for x, y in zip(getattr(m, a), one[a]):
                ctx.check_eq(x, y, f'{a} in a second calculation')
    ctx.reach('done')


def ramp(ctx, T, n, ref):
    """rising momentum: every turn advances the time by the period at its momentum"""
    ctx.hooks['fork_ite'] = True
    ctx.hooks['lazy'] = 'lin'
    sy = is_sym(ctx)
    k = kwargs(ctx, n, 1, ref, 1)
    k['rest_energy'] = ctx.real('erest', lo=2.95e8, hi=3.05e8)
    pm = [ctx.real('p0', lo=3.8e8, hi=3.9e8), ctx.real('p1', lo=3.9e8, hi=4.0e8), ctx.real('p2', lo=4.0e8, hi=4.2e8)]
    tm = [ctx.const(0), ctx.const(2.5), ctx.const(n + 3.5)]
    V = {1: ctx.reals('v1', 3, lo=4e7, hi=6e7), 2: ctx.reals('v2', 3, lo=-1e6, hi=1e6)}
    volts = lambda x, w: interp(ctx, x, tm, V[w])
    ph = ctx.reals('ph', 3, lo=-1, hi=1)
    p12 = lambda x: interp(ctx, x, tm, ph)
    M = T.mod('tracking.programs_machine').ProgramsMachine
    t_ref = ctx.const(1.5 + ref)
    circ = 2 * ctx.const(np.pi) * k['mean_orbit_rad']
    t, p = turn_times(ctx, T, tm, pm, k['rest_energy'], circ, n + 4)
    m, e = ctx.raises(lambda: M(1, ctx.array([tm, list(V[1]), list(V[2])]), ctx.array([tm, pm]), [1, 2], t_ref=t_ref, phi12=ctx.array([tm, list(ph)]), **k), ValueError)
    unsolved(ctx, e, V, 2)
    ctx.check(e is None, 'programs that cover all turns')
    values(ctx, m, k, t, p, 1, n, ref, volts, p12, 2, sy)
    for i in range(1, len(m.deltaE0)):
        a, b = m.e0[i] - m.e0[i - 1], m.e0[i + 1] - m.e0[i] if i + 1 < n else None
        d = m.deltaE0[i]
        # (or the recorded finding: stored one turn early)
        if sy:
            ctx.check(ctx.Or(d == a, d == b) if b is not None else d == a, 'energy difference of a turn')
        else:
            ctx.check(any(x is not None and abs(d - x) <= 1e-6 * abs(m.e0[0]) for x in (a, b)), 'energy difference of a turn')
    ctx.reach('done')
    ctx.check(len(m.deltaE0) == n and bool(m.deltaE0[1] == m.e0[1] - m.e0[0]), 'energy difference stored one turn early and one short')


def mode(ctx, T, c04):
    """the phase of the second harmonic calculated from the field"""
    ctx.hooks['fork_ite'] = True
    sy = is_sym(ctx)
    k = kwargs(ctx, 2, 1, 0, 1)
    seen = []
    if sy:
        def arcsin(x):
            seen.append(x)
            r = ctx.real(f'asin{len(seen)}', lo=-np.pi / 2, hi=np.pi / 2)
            ctx.assume(ctx.sin(r) == x)
            return r
        ctx.hooks['arcsin'] = arcsin
    tv = [ctx.const(0), ctx.const(9)]
    vf = ctx.array([tv, list(ctx.reals('v1', 2, lo=4, hi=5)), list(ctx.reals('v2', 2, lo=-1, hi=1))])
    M = T.mod('tracking.programs_machine').ProgramsMachine
    m = M(1, vf, ctx.array([tv, [ctx.const(P)] * 2]), [1, 2], t_ref=ctx.const(2.5), **k)
    ctx.check(m.phi12 is None, 'phase before it is calculated')
    _, e = ctx.raises(m.find_synchronous_phase, ValueError)
    ctx.check(e is not None, 'synchronous phase without phase of the second harmonic')
    m.bdot = ctx.reals('bdot', 2, lo=-1e-3, hi=1e-3)
    m.calc_phi12(c04)
    pi = ctx.const(np.pi)
    for i in range(2):
        s = m.phi12[i] - pi / 2 + (pi if c04 == 2 else 0)
        ctx.check_eq(ctx.sin(s) * m.vrf1_at_turn[i], 2 * pi * k['bending_rad'] * k['mean_orbit_rad'] * m.bdot[i], 'calculated phase')
        ctx.check(ctx.And(s >= -1.5708, s <= 1.5708), 'calculated phase on the stable side')
    _, e = ctx.raises(m.find_synchronous_phase, ValueError)
    if e is not None:
        ctx.assume(False)
    for i in range(2):
        f = m.phi0[i]
        volt = m.vrf1_at_turn[i] * ctx.sin(f) + m.vrf2_at_turn[i] * ctx.sin(2 * (f - m.phi12[i]))
        acc = 2 * pi * k['bending_rad'] * k['mean_orbit_rad'] * m.bdot[i]
        if sy:
            ctx.check_eq(volt, acc, 'synchronous phase')
        else:
            ctx.check(abs(volt - acc) <= 1e-3 * (abs(m.vrf1_at_turn[i]) + 2 * abs(m.vrf2_at_turn[i])), 'synchronous phase')
    ctx.reach('done')


def volts(ctx, T, turn, sg):
    """the functions whose roots are the synchronous phases, and their derivatives"""
    ph = T.mod('utils.physics')
    k = kwargs(ctx, 3, 1, 0, 1)
    k['mean_orbit_rad'], k['charge'] = ctx.real('R', lo=1, hi=5), sg * k['charge']
    tv = [ctx.const(0), ctx.const(9)]
    M = T.mod('tracking.programs_machine').ProgramsMachine
    m = M(1, ctx.array([tv, [ctx.const(4)] * 2, [ctx.const(1)] * 2]), ctx.array([tv, [ctx.const(P)] * 2]), [2, 3], t_ref=ctx.const(2.5), vat_now=False, **k)
    m.vrf1_at_turn, m.vrf2_at_turn, m.phi12 = ctx.reals('v1', 3), ctx.reals('v2', 3), ctx.reals('p12', 3)
    m.bdot, m.h_ratio = ctx.reals('bdot', 3), ctx.real('hr', lo=1, hi=4)
    x = ctx.real('x', lo=-3, hi=3)
    s, c, eq = ctx.sin, ctx.cos, ctx.check_eq
    acc = sg * 2 * ctx.const(np.pi) * k['mean_orbit_rad'] * k['bending_rad'] * m.bdot[turn]
    a, b, d, hr = m.vrf1_at_turn[turn], m.vrf2_at_turn[turn], m.phi12[turn], m.h_ratio
    eq(ph.rf_voltage_pmch(x, m, turn), a * s(x) + b * s(hr * (x - d)) - acc, 'voltage of both systems')
    eq(ph.drf_voltage_pmch(x, m, turn), a * c(x) + hr * b * c(hr * (x - d)), 'derivative of the voltage of both systems')
    eq(ph.rfvolt_rf1_pmch(x, m, turn), a * s(x) - acc, 'voltage of the first system')
    eq(ph.drfvolt_rf1_pmch(x, m, turn), a * c(x), 'derivative of the voltage of the first system')
    ctx.reach('done')


def both(ctx, T):
    """arguments that are refused"""
    k = kwargs(ctx, 2, 1, 0, 1)
    M = T.mod('tracking.programs_machine').ProgramsMachine
    ex = T.mod('exceptions')
    tv = [ctx.const(0), ctx.const(9)]
    vf = ctx.array([tv, [ctx.const(4)] * 2, [ctx.const(1)] * 2])
    mf = ctx.array([tv, [ctx.const(P)] * 2])
    ph = ctx.array([tv, list(ctx.reals('a', 2)), list(ctx.reals('b', 2))])
    _, e = ctx.raises(lambda: M(1, vf, mf, [1, 2], t_ref=ctx.const(2.5), phi12=ctx.real('phi12'), phase_function=ph, **k), ValueError)
    ctx.check(e is not None, 'phi12 and phase program')
    for h in ([], [1, 2, 3]):
        _, e = ctx.raises(lambda: M(1, vf, mf, h, t_ref=ctx.const(2.5), phase_function=ph, **k), ex.ArrayLengthError)
        ctx.check(e is not None, f'{len(h)} harmonics')
    _, e = ctx.raises(lambda: M(1, vf, mf, [1, 2], t_ref=ctx.const(2.5), phi12=ctx.array(list(ctx.reals('c', 3))), **k), ValueError)
    ctx.check(e is not None, 'phi12 of unknown shape')
    ctx.reach('done')


def instances(tier):
    out = []
    b = 100 if tier == 'quick' else 900
    hows = ['phase', 'scalar', 'axis', 'volt', 'one']
    i = 0
    for nprof, dt in [(2, 1), (1, 2), (3, 1), (2, 2)] + ([(4, 1), (3, 2)] if tier == 'thorough' else []):
        for ref in range(nprof):
            how = hows[i % 5]
            i += 1
            out.append(Instance(f'flat-f{nprof}-d{dt}-ref{ref}-{how}', flat, dict(nprof=nprof, dt=dt, ref=ref, how=how, nh=1 if (how, ref) == ('phase', 0) and i > 1 else 2), budget=b,
                                reach=['done', 'refused'], weight=nprof * dt, rtol=1e-6, atol=1e-9))
    out.append(Instance('flat-f2-d1-ref1-one-harmonic', flat, dict(nprof=2, dt=1, ref=1, how='phase', nh=1), budget=b, reach=['done', 'refused'], rtol=1e-6, atol=1e-9))
    for how in hows[:4]:
        out.append(Instance(f'again-{how}', again, dict(how=how), budget=b, reach=['done'], rtol=1e-6, atol=1e-9))
    for n, ref in [(2, 0), (3, 1)] + ([(4, 2)] if tier == 'thorough' else []):
        out.append(Instance(f'ramp-{n}-ref{ref}', ramp, dict(n=n, ref=ref), budget=b, reach=['done'], weight=3, rtol=1e-6, atol=1e-12))
    for c04 in (0, 1, 2):
        out.append(Instance(f'mode-{c04}', mode, dict(c04=c04), budget=b, reach=['done'], rtol=1e-5, atol=1e-9))
    for turn, sg in ((0, 1), (2, -1)):
        out.append(Instance(f'volts-t{turn}', volts, dict(turn=turn, sg=sg), budget=b, reach=['done']))
    out.append(Instance('refused', both, {}, budget=b, reach=['done']))
    return out
