"""conversions between physical units and bins run on symbolic coordinates and machine parameters; formula and round trip are polynomial identities for the solver"""
from .common import *

UNITS = ['tracking.particles.physical_to_coords', 'tracking.particles.Particles._bin_nr_to_physical_coords', 'PhaseSpaceInfo.calc_xorigin',
         'Particles.coordinates_dphi_denergy']
BOUNDS = '1-3 particles, 1-4 frames, 1-3 turns per frame; all coordinates and machine parameters symbolic (non-zero bin sizes and frequencies)'
OUTSIDE = 'larger arrays; rounding'
ASSUMPTIONS = ['exact real arithmetic']


class M:
    pass


def machine(ctx, nprof, dt, harm=None):
    m = M()
    n = dt * (nprof - 1) + 1
    m.dturns, m.nprofiles, m.nbins = dt, nprof, 4
    m.phi0 = ctx.reals('phi0', n)
    m.omega_rev0 = ctx.reals('omega', n, positive=True)
    m.h_num = ctx.real('h', positive=True) if harm is None else harm
    m.dtbin = ctx.real('dtbin', positive=True)
    m.synch_part_x, m.synch_part_y = ctx.real('sx'), ctx.real('sy')
    return m


def to_bins(ctx, T, n, nprof, dt):
    m = machine(ctx, nprof, dt)
    p, e = ctx.reals('p', (nprof, n)), ctx.reals('e', (nprof, n))
    vp, ve = rows(p), rows(e)
    xo, dE = ctx.real('xo'), ctx.real('dE', positive=True)
    x, y = T.mod('tracking.particles').physical_to_coords(p, e, m, xo, dE)
    ctx.check(np.shape(x) == (nprof, n) and np.shape(y) == (nprof, n), 'shape of the bin coordinates')
    for k in range(nprof):
        for i in range(n):
            t = k * dt
            ctx.check_eq(x[k, i], (vp[k][i] + m.phi0[t]) / (m.h_num * m.omega_rev0[t] * m.dtbin) - xo, 'phase in bins')
            ctx.check_eq(y[k, i], ve[k][i] / dE + m.synch_part_y, 'energy in bins')
    ctx.check_eq(p, np.array(vp, dtype=object), 'the phases are modified')
    ctx.check_eq(e, np.array(ve, dtype=object), 'the energies are modified')
    ctx.reach('done')


def round_trip(ctx, T, n, nprof, dt, rec):
    """bins -> physical at frame rec -> bins"""
    m = machine(ctx, nprof, dt)
    pt = T.mod('tracking.particles')
    P = pt.Particles()
    P.xorigin, P.dEbin = ctx.real('xo'), ctx.real('dE', positive=True)
    x, y = ctx.reals('x', n), ctx.reals('y', n)
    vx, vy = list(x), list(y)
    p, e = P._bin_nr_to_physical_coords((x, y), m, rec)
    z = [ctx.const(0)] * n
    fp = ctx.array([list(p) if k == rec else z for k in range(nprof)])
    fe = ctx.array([list(e) if k == rec else z for k in range(nprof)])
    bx, by = pt.physical_to_coords(fp, fe, m, P.xorigin, P.dEbin)
    for i in range(n):
        ctx.check_eq(bx[rec, i], vx[i], 'phase after bins -> physical -> bins')
        ctx.check_eq(by[rec, i], vy[i], 'energy after bins -> physical -> bins')
    ctx.reach('done')


def synchronous(ctx, T, nprof, dt, ref):
    """the synchronous particle lies at (synch_part_x, synch_part_y) in the reference frame"""
    m = machine(ctx, nprof, dt)
    m.beam_ref_frame = ref
    xo = T.mod('tracking.phase_space_info').PhaseSpaceInfo(m).calc_xorigin()
    z = zeros(ctx, (nprof, 1))
    x, y = T.mod('tracking.particles').physical_to_coords(z, z, m, xo, ctx.real('dE', positive=True))
    ctx.check_eq(x[ref, 0], m.synch_part_x, 'phase bin of the synchronous particle')
    for k in range(nprof):
        ctx.check_eq(y[k, 0], m.synch_part_y, 'energy bin of the synchronous particle')
    ctx.reach('done')


def mismatch(ctx, T, a, b):
    m = machine(ctx, a[0], 1)
    p, e = ctx.reals('p', a), ctx.reals('e', b)
    _, err = ctx.raises(lambda: T.mod('tracking.particles').physical_to_coords(p, e, m, ctx.real('xo'), ctx.real('dE', positive=True)),
                        T.mod('exceptions').InvalidParticleError)
    ctx.check(err is not None, 'arrays of different shape are accepted')
    ctx.reach('done')


def coords(ctx, T, na, nb):
    """the setter of the initial distribution"""
    P = T.mod('tracking.particles').Particles()
    a, b = ctx.reals('a', na), ctx.reals('b', nb)
    _, err = ctx.raises(lambda: setattr(P, 'coordinates_dphi_denergy', (a, b)), T.mod('exceptions').InvalidParticleError)
    ctx.check((err is None) == (na == nb), 'coordinates of different length accepted' if err is None else 'valid coordinates rejected')
    if err is None:
        p, e = P.coordinates_dphi_denergy
        ctx.check_eq(p, np.array(list(a), dtype=object), 'stored phase')
        ctx.check_eq(e, np.array(list(b), dtype=object), 'stored energy')
    else:
        ctx.check(P.coordinates_dphi_denergy == (None, None), 'rejected coordinates are stored')
    ctx.reach('done')


def instances(tier):
    out = []
    b = 60 if tier == 'quick' else 600
    cfg = [(1, 1, 1), (2, 2, 1), (1, 3, 2), (3, 2, 3)] + ([(2, 5, 4), (5, 4, 3), (1, 12, 5)] if tier == 'thorough' else [])
    for n, p, dt in cfg:
        out.append(Instance(f'bins-p{n}-f{p}x{dt}', to_bins, dict(n=n, nprof=p, dt=dt), budget=b, reach=['done']))
        for r in range(p):
            out.append(Instance(f'round-p{n}-f{p}x{dt}-r{r}', round_trip, dict(n=n, nprof=p, dt=dt, rec=r), budget=b, reach=['done']))
            if n == 1 or p == 2:
                out.append(Instance(f'synch-p{n}-f{p}x{dt}-r{r}', synchronous, dict(nprof=p, dt=dt, ref=r), budget=b, reach=['done']))
    for k, (x, y) in enumerate([((2, 2), (2, 3)), ((2, 2), (3, 2)), ((1, 2), (2, 1)), ((2, 1), (2, 3))]):
        out.append(Instance(f'mismatch-{k}', mismatch, dict(a=x, b=y), budget=b, reach=['done']))
    for x, y in ((1, 1), (2, 3), (3, 2), (3, 3), (1, 2)):
        out.append(Instance(f'distr-{x}-{y}', coords, dict(na=x, nb=y), budget=b, reach=['done']))
    return out
