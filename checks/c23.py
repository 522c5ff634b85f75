"""the turn-by-turn machine values are computed from symbolic machine parameters (the root finder may return any root) and every pair of neighbouring
turns is compared with the documented recurrences, forwards and backwards from the reference frame"""
from scipy import constants
from .common import *

UNITS = ['Machine.__init__', 'Machine.values_at_turns', 'Machine._init_arrays', 'Machine._array_initial_values', 'Machine._rfv_at_turns', 'MachineABC.__init__',
         'physics.b_to_e', 'physics.lorentz_beta', 'physics.find_phi_lower_upper', 'physics.find_synch_phase_mch', 'physics.rf_voltage_mch',
         'physics.rf_voltage', 'physics.rf_voltage_at_phase', 'physics.vrft', 'physics.phase_slip_factor', 'physics.find_dphase', 'physics.revolution_freq',
         'assertions.assert_machine_input']
BOUNDS = ('up to 4 turns (1-3 profiles, 1-2 turns between them), every reference frame; fields, voltages and their slopes, harmonics, radii, charge, energies '
          'symbolic (positive where required, accelerating force below half of the first voltage)')
OUTSIDE = 'more turns; whether Newton iteration converges, and to which root when the second harmonic deforms the bucket; rounding'
ASSUMPTIONS = ['exact real arithmetic', 'sin and cos as uninterpreted functions', 'scipy.optimize.newton returns a root of the function it was given, or fails']


def params(ctx, v2=True, sg=1):
    c = constants.c
    k = dict(vrf1=ctx.real('vrf1', lo=1000, hi=50000), mean_orbit_rad=ctx.real('R', lo=1, hi=100), bending_rad=ctx.real('rho', lo=1, hi=50),
             b0=ctx.real('b0', lo=0.1, hi=1), trans_gamma=ctx.real('gt', lo=2, hi=20), rest_energy=ctx.real('erest', lo=1e8, hi=1e10),
             dtbin=ctx.real('dtbin', positive=True), nbins=8, h_num=ctx.real('h', lo=1, hi=16), charge=sg * ctx.real('q', lo=1, hi=4),
             bdot=ctx.real('bdot', lo=0, hi=0.1), vrf1dot=ctx.real('vrf1dot', lo=-100, hi=100), phi12=ctx.real('phi12', lo=-1, hi=1),
             h_ratio=ctx.real('hr', lo=1, hi=3), demax=1.0)
    k['vrf2'] = ctx.real('vrf2', lo=-400, hi=400) if v2 else 0.0
    k['vrf2dot'] = ctx.real('vrf2dot', lo=-100, hi=100) if v2 else 0.0
    acc = 2 * ctx.const(np.pi) * k['mean_orbit_rad'] * k['bending_rad'] * k['bdot'] * sg
    ctx.assume(2 * acc * sg <= k['vrf1'])
    return k, acc


def turns(ctx, T, nprof, dt, ref, vat, sg):
    ctx.hooks['fork_ite'] = ctx.hooks['lazy'] = True
    k, acc = params(ctx, sg=sg)
    M = T.mod('tracking.machine').Machine
    if vat == 'again':
        # a machine whose values were calculated for other parameters before
        m, e = ctx.raises(lambda: M(dturns=dt, nprofiles=nprof, machine_ref_frame=ref, filmstop=0, **dict(k, vrf1=2 * k['vrf1'], b0=2 * k['b0'], vrf2=ctx.const(0), vrf1dot=0, vrf2dot=0,
                                                                                                          trans_gamma=k['trans_gamma'] + 1)), ValueError)
        if e is None:
            for a in ('vrf1', 'b0', 'vrf2', 'vrf1dot', 'vrf2dot', 'trans_gamma'):
                setattr(m, a, k[a])
            _, e = ctx.raises(m.values_at_turns, ValueError)
    elif vat:
        m, e = ctx.raises(lambda: M(dturns=dt, nprofiles=nprof, machine_ref_frame=ref, filmstop=0, **k), ValueError)
    else:
        m = M(dturns=dt, nprofiles=nprof, machine_ref_frame=ref, filmstop=0, vat_now=False, **k)
        for a in ('time_at_turn', 'phi0', 'e0', 'beta0', 'deltaE0', 'eta0', 'drift_coef', 'omega_rev0', 'vrf1_at_turn', 'vrf2_at_turn'):
            ctx.check(getattr(m, a) is None, f'{a} before it is calculated')
        _, e = ctx.raises(m.values_at_turns, ValueError)
    if e is not None:
        ctx.assume(not is_sym(ctx))
        # (a strong second harmonic can keep the search from converging)
        ctx.check(5 * abs(k['vrf2']) * k['h_ratio'] > k['vrf1'], f'no synchronous phase found in a weakly deformed wave: {e}')
        ctx.assume(False)
    n = (nprof - 1) * dt + 1
    for a in ('time_at_turn', 'phi0', 'e0', 'beta0', 'deltaE0', 'eta0', 'drift_coef', 'omega_rev0', 'vrf1_at_turn', 'vrf2_at_turn'):
        ctx.check(np.shape(getattr(m, a)) == (n,), f'number of values of {a}')
    i0 = ref * dt
    pi2 = 2 * ctx.const(np.pi)
    c = ctx.const(constants.c)
    t, e0, b, p = m.time_at_turn, m.e0, m.beta0, m.phi0
    R, rho, q, er = k['mean_orbit_rad'], k['bending_rad'], k['charge'], k['rest_energy']
    eq = ctx.check_eq

    def volt(i):
        return ((k['vrf1'] + k['vrf1dot'] * t[i]) * ctx.sin(p[i])
                + (k['vrf2'] + k['vrf2dot'] * t[i]) * ctx.sin(k['h_ratio'] * (p[i] - k['phi12'])))

    def same(a, b, label):
        """differences of energies: rounded like the energies themselves"""
        if is_sym(ctx):
            eq(a, b, label)
        else:
            ctx.check(abs(a - b) <= 1e-6 * abs(b) + 1e-13 * abs(e0[0]), label)
    eq(t[i0], 0, 'time of the reference turn')
    eq(e0[i0] ** 2, (q * k['b0'] * rho * c) ** 2 + er ** 2, 'energy at the reference turn')
    for i in range(n):
        eq((1 - b[i] ** 2) * e0[i] ** 2, er ** 2, 'relativistic velocity')
        eq(m.eta0[i], 1 - b[i] ** 2 - 1 / k['trans_gamma'] ** 2, 'phase slip factor')
        eq(m.drift_coef[i], pi2 * k['h_num'] * m.eta0[i] / (e0[i] * b[i] ** 2), 'drift coefficient')
        eq(m.omega_rev0[i], b[i] * c / R, 'revolution frequency')
        eq(m.vrf1_at_turn[i], k['vrf1'] + k['vrf1dot'] * t[i], 'first voltage')
        eq(m.vrf2_at_turn[i], k['vrf2'] + k['vrf2dot'] * t[i], 'second voltage')
        if is_sym(ctx):
            eq(volt(i), acc, 'synchronous phase')
        else:
            ctx.check(abs(volt(i) - acc) <= 1e-3 * (abs(m.vrf1_at_turn[i]) + abs(m.vrf2_at_turn[i]) * k['h_ratio']), 'synchronous phase')
        if i:
            turn = pi2 * R / (b[i - 1] * c)
            eq((t[i] - t[i - 1]) / turn if not is_sym(ctx) else t[i] - t[i - 1], 1 if not is_sym(ctx) else turn, 'time of a turn')
            same(e0[i] - e0[i - 1], q * volt(i), 'energy gain of a turn')
    d = m.deltaE0
    for i in range(1, n):
        ok = d[i] == e0[i] - e0[i - 1]
        if not is_sym(ctx):
            near = lambda a, b: abs(a - b) <= 1e-6 * abs(b) + 1e-13 * abs(e0[0])
            ok = near(d[i], e0[i] - e0[i - 1])
            if i <= i0:
                ok = ok or near(d[i], e0[i + 1] - e0[i] if i < i0 else 0)
        elif i <= i0:
            # (or the recorded finding: stored one turn early)
            ok = ctx.Or(ok, d[i] == (e0[i + 1] - e0[i] if i < i0 else 0))
        ctx.check(ok, 'energy difference of a turn')
    ctx.reach('done')
    for i in range(1, i0 + 1):
        eq(d[i], e0[i] - e0[i - 1], 'energy difference stored one turn early before the reference frame')


def stable(ctx, T, ref, sg):
    """the search for the synchronous phase starts on the stable side of the wave and ends there (one harmonic: the nearest root is that one)"""
    ctx.hooks['fork_ite'] = ctx.hooks['lazy'] = True
    k, acc = params(ctx, v2=False, sg=sg)
    k['vrf1dot'] = 0.0
    hp = ctx.const(np.pi) / 2
    seen = []

    def newton(func, x0, fprime, args):
        # the first harmonic alone: the root next to the start value; afterwards the start value is a root already
        if seen:
            return x0
        r = ctx.real('root', lo=-8, hi=8)
        ctx.assume(ctx.And(r > x0 - hp, r < x0 + hp))
        ctx.assume(func(r, *args) == 0)
        seen.append(r)
        return r
    ctx.hooks['newton'] = newton
    m, e = ctx.raises(lambda: T.mod('tracking.machine').Machine(dturns=1, nprofiles=ref + 1, machine_ref_frame=ref, filmstop=0, **k), ValueError)
    if e is not None:
        ctx.assume(False)
    ctx.assume(m.e0[ref] != k['trans_gamma'] * k['rest_energy'])       # at transition there is no stable side
    below = bool(m.e0[ref] < k['trans_gamma'] * k['rest_energy'])
    centre = 0 if below == (sg > 0) else 2 * hp
    for i in range(ref + 1):
        x = m.phi0[i]
        ctx.check(ctx.And(x > centre - hp, x < centre + hp), 'the synchronous phase lies on the unstable side of the wave')
    ctx.reach('below' if below else 'above')


def instances(tier):
    out = []
    b = 60 if tier == 'quick' else 900
    for nprof, dt in [(1, 1), (2, 1), (2, 2), (3, 1)] + ([(4, 1), (2, 4), (3, 2)] if tier == 'thorough' else []):
        for ref in range(nprof):
            out.append(Instance(f'turns-f{nprof}-d{dt}-ref{ref}', turns, dict(nprof=nprof, dt=dt, ref=ref, vat=(ref + dt) % 2 == 0, sg=-1 if (nprof, dt) == (2, 2) else 1), budget=b, reach=['done'],
                                weight=nprof * dt, rtol=1e-9, atol=1e-12))
    out.append(Instance('turns-again', turns, dict(nprof=2, dt=1, ref=0, vat='again', sg=1), budget=b, reach=['done'], weight=4, rtol=1e-9, atol=1e-12))
    for ref in (0, 1):
        for sg in (1, -1):
            out.append(Instance(f'stable-{ref}-{"pos" if sg > 0 else "neg"}', stable, dict(ref=ref, sg=sg), budget=b, reach=['below', 'above']))
    return out
