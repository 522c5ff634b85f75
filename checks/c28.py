"""the limits of the reconstruction area are computed from symbolic machine values and compared, cell by cell, with the trajectories through the edges of
the image"""
from .common import *

UNITS = ['PhaseSpaceInfo.find_binned_phase_energy_limits', 'PhaseSpaceInfo.find_dEbin', 'PhaseSpaceInfo.calc_xorigin', 'PhaseSpaceInfo._limits_track_full_image',
         'PhaseSpaceInfo._limits_track_rec_area', 'PhaseSpaceInfo._find_*', 'PhaseSpaceInfo._adjust_limits', 'PhaseSpaceInfo._calculate_phases',
         'PhaseSpaceInfo._trajectoryheight', 'PhaseSpaceInfo._assert_*', 'physics.rf_voltage_at_phase']
BOUNDS = ('images of 2-3 bins (thorough: 4), up to 3 frames of 1-2 turns, every reference frame and film start; voltages, synchronous phases, drift, time limits and '
          'the synchronous energy symbolic')
OUTSIDE = 'larger images; rounding'
ASSUMPTIONS = ['exact real arithmetic', 'sin and cos as uninterpreted functions', 'the phase of the synchronous energy lies inside the image']


class M:
    pass


def machine(ctx, nprof, dt, nb, phi12, full=False, sym=()):
    """symbolic at the turns named by sym, distinct constants elsewhere"""
    m = M()
    n = (nprof - 1) * dt + 1
    m.nprofiles, m.dturns, m.nbins = nprof, dt, nb
    m.beam_ref_frame = ctx.concrete(ctx.int('ref', 0, nprof - 1))
    m.filmstart = ctx.concrete(ctx.int('film', 0, nprof - 1))
    m.full_pp_flag = full
    use = {m.beam_ref_frame * dt, m.filmstart * dt}

    def arr(name, lo, hi):
        return ctx.array([ctx.real(f'{name}{i}', lo=lo, hi=hi) if i in use and ('all' in sym or name in sym) else ctx.const(lo + (hi - lo) * (i + 1) / (n + 2)) for i in range(n)])
    m.phi0, m.omega_rev0 = arr('phi0', -0.4, 0.5), arr('omega', 1, 2)
    m.vrf1_at_turn, m.vrf2_at_turn = arr('v1', 1, 4), arr('v2', -1, 1)
    m.drift_coef = arr('drift', 0.5, 2)
    m.e0, m.beta0, m.eta0 = arr('e0', 1, 2), arr('beta', 0.2, 0.9), arr('eta', 0.1, 0.9)

    def one(name, lo, hi, c):
        return ctx.real(name, lo=lo, hi=hi) if 'all' in sym or name in sym else ctx.const(c)
    m.phi12 = arr('p12', -0.5, 0.6) if phi12 == 'array' else one('p12', -0.5, 0.6, 0.25)
    m.h_ratio, m.h_num, m.q = one('hr', 1, 3, 2), one('h', 1, 3, 1), one('q', 1, 2, 1)
    m.dtbin = one('dtbin', 0.1, 1, 1 / 2)
    m.synch_part_x, m.synch_part_y = one('sx', 0, nb, nb / 2 - 1 / 8), one('sy', 0.5, nb - 0.5, nb / 2)
    m.min_dt, m.max_dt = ctx.const(0), ctx.const(nb) * m.dtbin
    m.demax = ctx.const(3 / 2)
    return m


def p12(m, t):
    return m.phi12[t] if isinstance(m.phi12, np.ndarray) else m.phi12


def square(ctx, m, t, phi, at):
    """squared height over the axis, at phi, of the trajectory that crosses it at `at`"""
    hr, d, v1, v2 = m.h_ratio, p12(m, t), m.vrf1_at_turn[t], m.vrf2_at_turn[t]
    c, s = ctx.cos, ctx.sin
    return 2 * m.q / m.drift_coef[t] * (v1 * (c(phi) - c(at)) + v2 * (c(hr * (phi - d)) - c(hr * (at - d))) / hr
                                        + (phi - at) * (v1 * s(m.phi0[t]) + v2 * s(hr * (m.phi0[t] - d))))


def height(ctx, m, t, phi, at):
    x = square(ctx, m, t, phi, at)
    return ctx.rsqrt(x) if bool(x >= 0) else ctx.const(0)


def phases(ctx, m, t):
    r = m.beam_ref_frame * m.dturns
    xo = m.phi0[r] / (m.h_num * m.omega_rev0[r] * m.dtbin) - m.synch_part_x
    return [(xo + i) * m.dtbin * m.h_num * m.omega_rev0[t] for i in range(m.nbins + 1)]


def debin(ctx, T, nprof, dt, nb, mode, phi12='scalar'):
    ctx.hooks['fork_ite'] = True
    ctx.hooks['lazy'] = mode != 'double'
    m = machine(ctx, nprof, dt, nb, phi12, sym=('all',) if mode != 'double' else ('v1', 'v2', 'drift'))
    exc = T.mod('exceptions')
    p = T.mod('tracking.phase_space_info').PhaseSpaceInfo(m)
    _, e = ctx.raises(lambda: p.find_dEbin(), exc.EnergyBinningError)
    ctx.check(e is not None, 'energy bins without origin')
    p.xorigin = p.calc_xorigin()
    t = m.beam_ref_frame * dt
    if mode == 'given':
        m.demax = ctx.real('demax', lo=0, hi=9)
        d, e = ctx.raises(lambda: p.find_dEbin(), exc.EnergyBinningError)
        ctx.check(m.demax == 0 if e is not None else m.demax > 0, 'an energy limit of zero')
        if e is None:
            ctx.check_eq(d * (nb - m.synch_part_y), m.demax, 'energy bin from the given limit')
        return ctx.reach('done')
    m.demax = ctx.const(-1)
    if mode == 'single':
        m.vrf2_at_turn[t] = ctx.const(0)
        d = p.find_dEbin()
        r = m.e0[t] * m.q * m.vrf1_at_turn[t] * ctx.cos(m.phi0[t]) / (2 * ctx.const(np.pi) * m.h_num * m.eta0[t])
        ctx.check_eq(d * d, m.beta0[t] ** 2 * r * (m.dtbin * m.h_num * m.omega_rev0[t]) ** 2, 'energy bin of a matched bunch')
        ctx.check(d >= 0, 'negative energy bin')
    else:
        ctx.assume(m.vrf2_at_turn[t] != 0)
        d = p.find_dEbin()
        ph = phases(ctx, m, t)
        a = [height(ctx, m, t, x, ph[0]) for x in ph]
        b = [height(ctx, m, t, x, ph[nb]) for x in ph]
        mx = []
        for h in (a, b):
            z = h[0]
            for y in h[1:]:
                z = y if bool(y > z) else z
            mx.append(z)
        ctx.check_eq(d * (nb - m.synch_part_y), mx[0] if bool(mx[0] < mx[1]) else mx[1], 'energy bin from the trajectories through the edges')
    ctx.reach('done')


def pick(ctx, c, a, b):
    if is_sym(ctx):
        from symx.core import ite, mkI
        return ite(c, mkI(a), mkI(b))
    return a if c else b


def ceil(ctx, x):
    return -ctx.floor(-x)


def area(ctx, T, nprof, dt, nb, full, sym, cut, phi12='scalar', y=None, pat=None, sub=None):
    ctx.hooks['fork_ite'] = ctx.hooks['fork_index'] = True
    ctx.hooks['lazy'] = not full
    m = machine(ctx, nprof, dt, nb, phi12, full, sym)
    if y is not None:
        m.synch_part_y = ctx.const(y)
    if cut:
        m.min_dt = ctx.real('min_dt', lo=0, hi=nb * 0.5)
        m.max_dt = ctx.real('max_dt', lo=0, hi=nb * 0.5 + 0.25)
    exc = T.mod('exceptions')
    ps = T.mod('tracking.phase_space_info').PhaseSpaceInfo(m)
    sy = m.synch_part_y
    t = m.filmstart * dt
    lo = ctx.concrete(ctx.floor(m.min_dt / m.dtbin))
    up = ctx.concrete(ceil(ctx, m.max_dt / m.dtbin))
    ctx.assume(lo <= nb)
    dE = m.demax / (nb - sy)
    fy = ctx.floor(sy)
    bad = None
    if full:
        jmax = [nb] * nb
        jmin = [ceil(ctx, 2 * sy - nb + ctx.const(0.5))] * nb
        imin, imax = 0, nb
    else:
        ph = phases(ctx, m, t)
        if pat is not None and is_sym(ctx):
            # one of the 16 cases: which trajectories through the edges of the image reach the second and third edge of a bin
            for k, (i, j) in enumerate([(1, 0), (2, 0), (1, nb), (2, nb)]):
                x = square(ctx, m, t, ph[i], ph[j])
                ctx.assume(x >= 0 if pat >> k & 1 else x < 0)
        if sub is not None and is_sym(ctx):
            # trajectories of bounded height; those through one edge of the image hardly reach the other one
            h = [height(ctx, m, t, ph[i], ph[j]) for i, j in [(1, 0), (2, 0), (1, nb), (2, nb)]]
            f = ctx.floor(sy)
            ctx.assume(ctx.And(*[height(ctx, m, t, ph[i], ph[j]) < (f + 1 - sy) * dE for i, j in [(nb, 0), (0, nb)]]))
            lo_, hi_ = ((nb - sy) * dE, (nb + 1 - sy) * dE) if sub == 'tall' else (0, (nb + 1 - sy) * dE)
            ctx.assume(ctx.And(*[ctx.And(x >= lo_, x < hi_) for x in h]))
            for k, x in enumerate(h):
                v = ctx.concrete(ctx.floor(sy + x / dE))
                if k == 0 and sub != 'tall':
                    ctx.assume(v == f + sub)
        hl = [ctx.floor(sy + height(ctx, m, t, x, ph[0]) / dE) for x in ph]
        hu = [ctx.floor(sy + height(ctx, m, t, x, ph[nb]) / dE) for x in ph]
        jmax, jmin = [], []
        for i in range(nb):
            z = nb
            for k in (hl[i], hl[i + 1], hu[i], hu[i + 1]):
                z = pick(ctx, k < z, k, z)
            jmax.append(z)
            q = ceil(ctx, 2 * sy - z - ctx.const(0.5))
            jmin.append(pick(ctx, q >= 1, q, 1))
        if bool(ctx.And(*[a >= b for a, b in zip(jmin, jmax)])):
            bad = 'energy'
        ok = [i for i in range(nb) if bad is None and bool(jmax[i] >= jmin[i])]
        if bad is None:
            imin, imax = ok[0], ok[-1]
            ctx.assume(imax > 0)
    if bad is None:
        ch = False
        if full or lo > imin:
            imin = lo
            jmax = [fy if i < lo else x for i, x in enumerate(jmax)]
            ch = True
        if full or up < imax:
            imax = up - 1
            jmax = [fy if i >= up else x for i, x in enumerate(jmax)]
            ch = True
        if ch:
            jmin = [ceil(ctx, 2 * sy - x + ctx.const(0.5)) for x in jmax]
        if not (0 <= imin <= imax <= nb):
            bad = 'phase'
        elif bool(ctx.Or(*[ctx.Or(jmin[i] < 0, jmin[i] > jmax[i], jmax[i] > nb) for i in range(imin, imax)], ctx.And(*[a >= b for a, b in zip(jmin, jmax)]))):
            bad = 'energy'
    _, e = ctx.raises(ps.find_binned_phase_energy_limits, exc.PhaseLimitsError, exc.EnergyLimitsError)
    if bad:
        ctx.check(isinstance(e, exc.EnergyLimitsError if bad == 'energy' else exc.PhaseLimitsError), 'an impossible area is accepted')
        return ctx.reach('rejected')
    ctx.check(e is None, 'a valid area is rejected')
    ctx.check_eq(ps.dEbin, dE, 'energy bin')
    ctx.check(ctx.And(ps.imin == imin, ps.imax == imax), 'limits in phase')
    ctx.check(len(ps.jmin) == nb and len(ps.jmax) == nb, 'number of energy limits')
    for i in range(nb):
        ctx.check(ps.jmax[i] == jmax[i], 'upper limit in energy')
        ctx.check(ps.jmin[i] == jmin[i], 'lower limit in energy')
    ctx.reach('done')


def limits(ctx, T, given):
    """the time limits of the area: the ones of the user, or the whole image"""
    nb = 6
    dtbin = ctx.real('dtbin', positive=True)
    kw = {a: ctx.real(a, lo=0) for a in given}
    m = T.mod('tracking.machine').Machine(dturns=2, vrf1=1.0, mean_orbit_rad=1.0, bending_rad=1.0, b0=1.0, trans_gamma=4.0, rest_energy=1e9, nprofiles=3, nbins=nb,
                                          dtbin=dtbin, vat_now=False, **kw)
    ctx.check_eq(m.min_dt, kw.get('min_dt', 0), 'lower time limit')
    ctx.check_eq(m.max_dt, kw.get('max_dt', nb * dtbin), 'upper time limit')
    ctx.reach('done')


def instances(tier):
    b = 90 if tier == 'quick' else 900
    o = []
    th = tier == 'thorough'
    for nprof, dt in [(1, 1), (3, 2)]:
        o.append(Instance(f'debin-given-{nprof}x{dt}', debin, dict(nprof=nprof, dt=dt, nb=3, mode='given'), budget=b, reach=['done']))
        o.append(Instance(f'debin-single-{nprof}x{dt}', debin, dict(nprof=nprof, dt=dt, nb=3, mode='single'), budget=b, reach=['done'], rtol=1e-6, atol=1e-9))
    for nprof, dt, nb, p in [(1, 1, 2, 'scalar'), (2, 2, 2, 'array'), (2, 1, 3, 'scalar')]:
        o.append(Instance(f'debin-double-{nprof}x{dt}x{nb}-{p}', debin, dict(nprof=nprof, dt=dt, nb=nb, mode='double', phi12=p), budget=b, reach=['done'], weight=3,
                          rtol=1e-6, atol=1e-9))
    for nprof, dt, nb in [(1, 1, 2), (2, 2, 4)] + ([(2, 1, 8)] if th else []):
        o.append(Instance(f'full-{nprof}x{dt}x{nb}', area, dict(nprof=nprof, dt=dt, nb=nb, full=True, sym=('sy', 'sx'), cut=True), budget=b, reach=['done', 'rejected'], weight=3))
    for nprof, dt, nb, p, sym, cut, y in [(1, 1, 3, 'scalar', ('v1', 'v2', 'drift', 'phi0'), False, 1.5), (2, 2, 3, 'array', ('v1', 'v2'), False, 1.5), (1, 1, 3, 'scalar', ('v1', 'v2'), True, 1.25)]:
        for pat in range(16):
            if pat in (6, 9):
                continue            # contradictory
            for sub in [None] if pat != 15 else ['tall', 0, 1, 2]:
                if not th and (cut and (pat > 3 and sub != 'tall') or nprof > 1 and not (pat in (5, 12) or sub == 'tall')):
                    continue
                o.append(Instance(f'area-{nprof}x{dt}x{nb}-{p}-{"-".join(sym)}{"-cut" if cut else ""}-case{pat}{"" if sub is None else f"-{sub}"}', area,
                                  dict(nprof=nprof, dt=dt, nb=nb, full=False, sym=sym, cut=cut, phi12=p, y=y, pat=pat, sub=sub), budget=b, weight=4 + (pat == 15)))
    for given in ((), ('min_dt',), ('max_dt',), ('min_dt', 'max_dt')):
        o.append(Instance('limits-' + ('-'.join(given) or 'none'), limits, dict(given=given), budget=20, reach=['done']))
    return o
