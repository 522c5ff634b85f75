"""the grid of test particles is generated for every admissible reconstruction area (symbolic limits) and compared with the set of cells of that area"""
from .common import *

UNITS = ['Particles.homogeneous_distribution', 'Particles._bin_nr_to_physical_coords', 'Particles._assert_machine']
BOUNDS = ('images of 2-3 bins, every pair of phase limits, every pair of energy limits per phase bin (also empty ones), 1-3 particles per cell side, '
          'start frame 0-1; frequencies, phases, bin sizes symbolic')
OUTSIDE = 'larger images; deltaturn != 0 (documented as experimental)'
ASSUMPTIONS = ['exact real arithmetic', 'the reconstruction area itself comes from PhaseSpaceInfo.find_binned_phase_energy_limits, here any area']


class M:
    pass


def area(ctx, T, nb, snpt, rec, dt, lim, used=False):
    ps = T.mod('tracking.phase_space_info').PhaseSpaceInfo
    n = 2 * dt + 1
    m = M()
    m.nbins, m.snpt, m.dturns, m.nprofiles = nb, snpt, dt, 3
    m.omega_rev0 = ctx.reals('omega', n, positive=True)
    m.phi0 = ctx.reals('phi0', n)
    m.h_num = ctx.real('h', positive=True)
    m.dtbin = ctx.real('dtbin', positive=True)
    m.synch_part_y = ctx.real('sy')
    m.eta0 = m.e0 = m.time_at_turn = m.omega_rev0
    m.phi12 = m.beam_ref_frame = m.demax = m.min_dt = m.max_dt = 0
    m.full_pp_flag = False
    m.dEbin = None
    imin = ctx.concrete(ctx.int('imin', 0, nb - 1))
    imax = ctx.concrete(ctx.int('imax', imin, nb - 1))
    jl, ju = [], []
    for i in range(nb):
        if lim == 'free' or i == imin:
            a = ctx.concrete(ctx.int(f'jmin{i}', 0, nb))
            b = ctx.concrete(ctx.int(f'jmax{i}', 0, nb))
        else:
            a, b = (1, nb) if i % 2 else (0, nb - 1)
        jl.append(a)
        ju.append(b)
    xo, dE = ctx.real('xo'), ctx.real('dE', positive=True)
    old = ps.find_binned_phase_energy_limits

    def stub(self):
        self.jmin, self.jmax = T.np.array(jl, dtype=np.int32), T.np.array(ju, dtype=np.int32)
        self.imin, self.imax, self.dEbin, self.xorigin = imin, imax, dE, xo
    cells = [(i, j) for i in range(imin, imax + 1) for j in range(nb) if jl[i] <= j < ju[i]]
    if max(ju) <= min(jl):
        return
    P = T.mod('tracking.particles').Particles()

    def first(self):
        self.jmin, self.jmax = T.np.array([0] * nb, dtype=np.int32), T.np.array([1] * nb, dtype=np.int32)
        self.imin, self.imax, self.dEbin, self.xorigin = 0, 0, ctx.const(3), ctx.const(-2)
    try:
        if used:
            # the object held the distribution of another area before
            ps.find_binned_phase_energy_limits = first
            P.homogeneous_distribution(m, 2)
        ps.find_binned_phase_energy_limits = stub
        P.homogeneous_distribution(m, rec)
    finally:
        ps.find_binned_phase_energy_limits = old
    p, e = P.coordinates_dphi_denergy
    t = rec * dt
    ctx.check(len(p) == len(cells) * snpt ** 2 and len(e) == len(p), f'number of particles: {len(p)} instead of {len(cells) * snpt ** 2}')
    f = m.h_num * m.omega_rev0[t] * m.dtbin
    # every grid point exactly once: compare in the order of the energies, then of the phases
    pts = [(ctx.const(i) + ctx.const(2 * k - 1) / (2 * snpt), ctx.const(j) + ctx.const(2 * l - 1) / (2 * snpt))
           for j in range(nb) for l in range(1, snpt + 1) for i in range(imin, imax + 1) for k in range(1, snpt + 1) if (i, j) in cells]
    fl = lambda a: round(float(a.v if hasattr(a, 'v') else a) * 2 * snpt)
    want = {(fl(a), fl(b)) for a, b in pts}
    got = set()
    for a, b in zip(p, e):
        # which grid point is it?  (decided by the solver: unique candidate)
        for x, y in pts:
            k = (fl(x), fl(y))
            if k in got:
                continue
            if bool(ctx.And(close(ctx, a, (x + xo) * f - m.phi0[t]), close(ctx, b, (y - m.synch_part_y) * dE))):
                got.add(k)
                break
        else:
            ctx.check(False, 'a particle that is not on a free grid point of the area')
    ctx.check(got == want, 'the grid is not filled completely')
    ctx.check(P.imin == imin and P.imax == imax, 'stored phase limits')
    ctx.check_eq(np.array(P.jmin), np.array(jl), 'stored energy limits')
    ctx.check_eq(np.array(P.jmax), np.array(ju), 'stored energy limits')
    ctx.check_eq(m.dEbin, dE, 'energy bin size of the machine')
    ctx.check_eq(P.dEbin, dE, 'energy bin size of the particles')
    ctx.check_eq(P.xorigin, xo, 'origin of the particles')
    ctx.reach('done')


def close(ctx, a, b):
    if is_sym(ctx):
        return a == b
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def instances(tier):
    out = []
    b = 90 if tier == 'quick' else 900
    cfg = [(2, 1, 0, 1, 'free'), (2, 2, 1, 2, 'one'), (3, 1, 1, 1, 'one'), (2, 3, 0, 1, 'one')]
    if tier == 'thorough':
        cfg += [(2, 2, 1, 1, 'free'), (3, 1, 0, 2, 'free'), (4, 1, 1, 1, 'one'), (3, 2, 1, 3, 'one')]
    for nb, s, r, dt, lim in cfg:
        out.append(Instance(f'area-b{nb}-s{s}-r{r}x{dt}-{lim}', area, dict(nb=nb, snpt=s, rec=r, dt=dt, lim=lim), budget=b, reach=['done'],
                            weight=nb ** 4 * s * (5 if lim == 'free' else 1)))
    out.append(Instance('area-used-before', area, dict(nb=2, snpt=1, rec=1, dt=2, lim='one', used=True), budget=b, reach=['done'], weight=20))
    return out
