"""charge and self-fields of measured profiles are computed from symbolic samples and machine values and compared with their definitions"""
from scipy import constants, signal
from .common import *

UNITS = ['Profiles.calc_profilecharge', 'Profiles.calc_self_fields', 'Profiles._check_manual_filtered_profs', 'Profiles._find_wrap_length',
         'Profiles._calculate_self', 'physics.calc_self_field_coeffs', 'Profiles.__init__', 'Profiles.waterfall']
BOUNDS = ('1-3 profiles of 1-4 bins (default filter: 7-8 bins) every 1-2 turns; samples, charge, filtered profiles, couplings and velocities symbolic; the length of '
          'a bin in phase symbolic between 0.5 and 3 rad (one of its factors at a time)')
OUTSIDE = 'larger measurements; rounding; shorter bins'
ASSUMPTIONS = ['exact real arithmetic', 'scipy.signal.savgol_filter is linear in the samples (its matrix is read off the installed one)',
               'when the field rises the bin length is that of the last or of the last but one turn (both are accepted)']
E, C = constants.e, constants.c


class M:
    pass


def machine(ctx, nprof, dt, nb, which, vals=None):
    m = M()
    n = (nprof - 1) * dt + 1
    m.nprofiles, m.dturns, m.nbins = nprof, dt, nb
    m.beam_ref_frame = ctx.concrete(ctx.int('ref', 0, nprof - 1))
    m.bdot = ctx.real('bdot', lo=-1, hi=1)
    last = (nprof - 1) * dt
    used = (last, last - 1) if which and bool(m.bdot > 0) else (0,)        # turns that fix the length of a bin
    one = ctx.array([ctx.const(1 + i / 8) for i in range(n)])
    m.h_num = ctx.real('h', lo=0.5, hi=2.5) if which == 'h' else 1
    m.omega_rev0 = one
    for i in range(n):
        if which == 'omega' and i in used or which == 'other' and i not in used:
            m.omega_rev0[i] = ctx.real(f'omega{i}', lo=0.5, hi=3)
    m.dtbin = ctx.real('dtbin', lo=0.5, hi=2.5) if which == 'dtbin' else ctx.const(1)
    w = which in ('', 'other')
    m.beta0 = ctx.array([ctx.real(f'beta{i}', lo=0.1, hi=0.9) if w else ctx.const(0.3 + i / 16) for i in range(n)])
    m.g_coupling = ctx.real('g', lo=0, hi=3) if w else ctx.const(2)
    m.zwall_over_n = ctx.real('z', lo=-9, hi=9) if w else ctx.const(-3)
    m.pickup_sensitivity = ctx.real('sens', lo=0.1, hi=2)
    return m


def samples(ctx, nprof, nb, sym=True):
    return ctx.array([[ctx.real(f'w{i}_{j}', lo=0, hi=9) if sym else ctx.const((3 * i + 5 * j) % 7 + 1) for j in range(nb)] for i in range(nprof)])


def charge(ctx, T, nprof, nb):
    ctx.hooks['fork_ite'] = True
    m = machine(ctx, nprof, 1, nb, '')
    w = samples(ctx, nprof, nb)
    v = rows(w)
    ctx.assume(sum(sum(r) for r in v) > 0)
    ts = ctx.real('ts', positive=True)
    p = T.mod('data.profiles').Profiles(m, ts, w)
    ctx.check(p.profile_charge is None, 'charge before it is calculated')
    _, e = ctx.raises(lambda: p.calc_self_fields(filtered_profiles=w), T.mod('exceptions').ProfileChargeNotCalculated)
    ctx.check(e is not None and p.vself is None, 'self-fields without a charge')
    p.calc_profilecharge()
    ctx.check_eq(p.profile_charge * m.pickup_sensitivity * ctx.const(E) * ctx.const(1e18), sum(v[m.beam_ref_frame]) * ts * ctx.const(1e18), 'charge of the reference profile')
    ctx.check_eq(p.waterfall, np.array(v, dtype=object), 'the waterfall is modified')
    m.beam_ref_frame = (m.beam_ref_frame + 1) % nprof
    p.calc_profilecharge()
    ctx.check_eq(p.profile_charge * m.pickup_sensitivity * ctx.const(E) * ctx.const(1e18), sum(v[m.beam_ref_frame]) * ts * ctx.const(1e18), 'charge of another reference profile')
    ctx.reach('done')


def fields(ctx, T, nprof, dt, nb, how, which, again=False):
    ctx.hooks['fork_ite'] = True
    ctx.hooks['lazy'] = which in ('', 'other')
    m = machine(ctx, nprof, dt, nb, which)
    w = samples(ctx, nprof, nb, sym=how == 'default')
    v = rows(w)
    if how == 'default':
        ctx.assume(ctx.And(*[sum(r) > 1 for r in v]))
    q = ctx.real('charge', lo=0.1, hi=5) if which in ('', 'other') else ctx.const(2)
    p = T.mod('data.profiles').Profiles(m, 1.0, w, q)
    ds = ctx.array([[ctx.real(f'ds{i}_{j}', lo=-2, hi=2) if which in ('', 'other') else ctx.const((3 * i + j) % 4 - 1) for j in range(nb)] for i in range(nprof)])
    d = rows(ds)
    seen = []
    if again:
        # self-fields of other profiles with shorter bins before
        keep, m.dtbin = m.dtbin, m.dtbin / 16
        p.calc_self_fields(filtered_profiles=ctx.array([[ctx.const(5 + i + j) for j in range(nb)] for i in range(nprof)]))
        m.dtbin = keep
    if how == 'manual':
        p.calc_self_fields(ds)
    elif how == 'list':
        p.calc_self_fields(filtered_profiles=d)
    elif how == 'filter':
        def f(x):
            seen.append(rows(x))
            x[0, 0] = x[0, 0] + 1              # the filter works on a copy
            return ds
        p.calc_self_fields(in_filter=f)
        ctx.check(len(seen) == 1, 'the filter of the user is not applied once')
        ctx.check_eq(np.array(seen[0], dtype=object), np.array(v, dtype=object), 'profiles given to the filter')
    elif how == 'both':
        p.calc_self_fields(ds, lambda x: seen.append(1))
        ctx.check(not seen, 'provided profiles are filtered again')
    else:
        p.calc_self_fields()
        a = signal.savgol_filter(np.eye(nb), 7, 4, deriv=1, axis=0)
        d = [[sum(float(a[j, k]) * r[k] for k in range(nb)) / sum(r) for j in range(nb)] for r in v]
    ctx.check_eq(p.dsprofiles, np.array(d, dtype=object), 'filtered profiles')
    ctx.check_eq(p.waterfall, np.array(v, dtype=object), 'the waterfall is modified')
    # the image width rounded up to whole periods
    last = (nprof - 1) * dt
    up = bool(m.bdot > 0)
    two = ctx.const(2 * np.pi)
    ok = []
    for t in ([last, last - 1] if up else [0]):
        dr = m.h_num * m.omega_rev0[t] * m.dtbin
        # periods - 1 < width <= periods; length - 1 < phiwrap / bin <= length
        tol = 0 if is_sym(ctx) else 1e-9
        ok.append(ctx.And(nb * dr <= p.phiwrap + tol, p.phiwrap < nb * dr + two + tol, p.phiwrap <= p.wrap_length * dr + tol,
                          (p.wrap_length - 1) * dr < p.phiwrap + tol))
    ctx.check(ctx.Or(*ok), 'wrap length')
    ctx.check_eq(p.phiwrap, ctx.const(2 * np.pi) * ctx.floor(p.phiwrap / two + ctx.const(0.5)), 'whole periods')
    n = p.wrap_length + 1
    ctx.check(np.shape(p.vself) == (nprof - 1, n), 'shape of the self-fields')
    pi = ctx.const(np.pi)
    k = []
    for i in range(nprof):
        b, o = m.beta0[i * dt], m.omega_rev0[i * dt]
        k.append(ctx.const(E) / o * ((1 / b - b) * m.g_coupling * pi * ctx.const(2e-7) * ctx.const(C) - m.zwall_over_n) / m.dtbin ** 2)
    big = ctx.const(1e19)
    for i in range(nprof - 1):
        for j in range(n):
            x = q * (k[i] * d[i][j] + k[i + 1] * d[i + 1][j]) / 2 if j < nb else 0
            ctx.check_eq(p.vself[i, j] * big, x * big, 'self-field voltage')
    ctx.reach('done')


def reject(ctx, T, nprof, nb):
    """filtered profiles of another shape are reported"""
    m = machine(ctx, nprof, 1, nb, '')
    w = samples(ctx, nprof, nb, False)
    exc = T.mod('exceptions')
    p = T.mod('data.profiles').Profiles(m, 1.0, w, ctx.real('charge', lo=0.1, hi=5))
    a = ctx.concrete(ctx.int('a', 1, nprof + 1))
    b = ctx.concrete(ctx.int('b', 1, nb + 1))
    ds = ctx.reals('ds', (a, b), lo=-2, hi=2)
    via = ctx.concrete(ctx.int('via', 0, 1))
    _, e = ctx.raises(lambda: p.calc_self_fields(ds) if via else p.calc_self_fields(in_filter=lambda x: ds), exc.FilteredProfilesError)
    ctx.check((e is None) == ((a, b) == (nprof, nb)), 'filtered profiles of another shape')
    _, e = ctx.raises(lambda: p.calc_self_fields(ctx.const(1)) if via else p.calc_self_fields(in_filter=lambda x: 3), exc.FilteredProfilesError)
    ctx.check(e is not None, 'filtered profiles that are no array')
    ctx.reach('done')


def shape(ctx, T, nprof, nb):
    """a waterfall that does not fit the machine is reported"""
    m = machine(ctx, nprof, 1, nb + 1, '')
    exc = T.mod('exceptions')
    a = ctx.concrete(ctx.int('a', 1, nprof + 1))
    w = ctx.reals('w', (a, nb), lo=-3, hi=3)
    v = rows(w)
    ctx.hooks['fork_ite'] = True
    p, e = ctx.raises(lambda: T.mod('data.profiles').Profiles(m, 1.0, w), exc.WaterfallError, exc.WaterfallReducedToZero)
    pos = bool(ctx.Or(*[x > 0 for r in v for x in r]))
    if a != nprof:
        ctx.check(isinstance(e, exc.WaterfallError), 'waterfall with the wrong number of profiles')
        ctx.reach('number')
    elif not pos:
        ctx.check(isinstance(e, exc.WaterfallReducedToZero), 'waterfall without any signal')
        ctx.reach('zero')
    else:
        ctx.check(e is None, 'valid waterfall rejected')
        for i in range(a):
            for j in range(nb):
                ctx.check_eq(p.waterfall[i, j], v[i][j] if bool(v[i][j] > 0) else 0, 'sample of the waterfall')
        ctx.check(m.nbins == nb, 'number of bins of the machine')
        ctx.reach('accepted')
    ctx.check_eq(w, np.array(v, dtype=object), 'the array of the caller is modified')
    _, e = ctx.raises(lambda: T.mod('data.profiles').Profiles(m, 1.0, 3.0), exc.WaterfallError)
    ctx.check(e is not None, 'a number as waterfall')


def instances(tier):
    out = []
    b = 90 if tier == 'quick' else 900
    for nprof, nb in [(1, 3), (2, 2), (3, 2)]:
        out.append(Instance(f'charge-{nprof}x{nb}', charge, dict(nprof=nprof, nb=nb), budget=b, reach=['done']))
    for nprof, dt, nb, how, which in [(2, 1, 2, 'manual', 'omega'), (2, 2, 2, 'list', 'h'), (2, 2, 3, 'filter', 'dtbin'), (3, 1, 2, 'both', 'other'),
                                      (2, 1, 7, 'default', ''), (2, 1, 8, 'default', ''), (3, 2, 2, 'manual', 'other'), (2, 1, 2, 'list', ''),
                                      (3, 1, 2, 'filter', ''), (3, 2, 3, 'manual', 'omega')] + (
            [(3, 2, 4, 'manual', 'omega'), (4, 2, 3, 'list', 'dtbin'), (3, 1, 9, 'default', ''), (4, 2, 3, 'both', 'other')] if tier == 'thorough' else []):
        out.append(Instance(f'fields-{how}-{which}-f{nprof}-d{dt}-b{nb}', fields, dict(nprof=nprof, dt=dt, nb=nb, how=how, which=which), budget=b, reach=['done'],
                            weight=nb * nprof, rtol=1e-6))
    for nprof, dt, nb, how, which in [(2, 1, 7, 'default', ''), (2, 1, 2, 'filter', 'other'), (2, 2, 7, 'manual', '')]:
        out.append(Instance(f'fields-again-{how}-f{nprof}-d{dt}-b{nb}', fields, dict(nprof=nprof, dt=dt, nb=nb, how=how, which=which, again=True), budget=b, reach=['done'],
                            weight=nb * nprof, rtol=1e-6))
    out.append(Instance('reject-2x3', reject, dict(nprof=2, nb=3), budget=b, reach=['done']))
    for nprof, nb in [(1, 2), (2, 1), (2, 2)]:
        out.append(Instance(f'shape-{nprof}x{nb}', shape, dict(nprof=nprof, nb=nb), budget=b, reach=['number', 'zero', 'accepted']))
    return out
