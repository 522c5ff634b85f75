"""filtering runs on symbolic particle coordinates: which particles survive, in which order, with which energies, and what is reported lost"""
from .common import *

UNITS = ['tracking.particles.filter_lost', 'tracking.particles.ready_for_tomography']
BOUNDS = '1-3 particles, 1-3 frames, image widths 1-4, all coordinates unconstrained reals'
OUTSIDE = 'larger arrays; not-a-number coordinates'
ASSUMPTIONS = ['exact real arithmetic; integer conversion truncates towards zero']


def run(ctx, T, n, nprof, nb, how):
    exc = T.mod('exceptions')
    pt = T.mod('tracking.particles')
    x, y = ctx.reals('x', (nprof, n)), ctx.reals('y', (nprof, n))
    vx, vy = rows(x), rows(y)
    keep = [i for i in range(n) if bool(ctx.And(*[ctx.And(vx[k][i] >= 0, vx[k][i] < nb) for k in range(nprof)]))]
    if how == 'filter':
        r, e = ctx.raises(lambda: pt.filter_lost(x, y, nb), exc.InvalidParticleError)
    else:
        r, e = ctx.raises(lambda: pt.ready_for_tomography(x, y, nb), exc.InvalidParticleError)
    ctx.check_eq(x, np.array(vx, dtype=object), 'the phases of the caller are modified')
    ctx.check_eq(y, np.array(vy, dtype=object), 'the energies of the caller are modified')
    if not keep:
        ctx.check(e is not None, 'losing every particle is not reported')
        ctx.reach('all lost')
        return
    ctx.check(e is None, 'an error although particles survive')
    if how == 'filter':
        fx, fy, lost = r
        ctx.check(lost == n - len(keep), 'number of lost particles')
        ctx.check(np.shape(fx) == (nprof, len(keep)) and np.shape(fy) == (nprof, len(keep)), 'number of surviving particles')
        for k in range(nprof):
            for i, s in enumerate(keep):
                ctx.check_eq(fx[k, i], vx[k][s], 'phase of a surviving particle')
                ctx.check_eq(fy[k, i], vy[k][s], 'energy of a surviving particle')
    else:
        fx, fy = r
        ctx.check(np.shape(fx) == (len(keep), nprof) and np.shape(fy) == (len(keep), nprof), 'shape of the result')
        if not is_sym(ctx):
            ctx.check(fx.dtype.kind == 'i' and fy.dtype.kind == 'i', 'the coordinates are not integers')
        for k in range(nprof):
            for i, s in enumerate(keep):
                a, b = vx[k][s], fx[i, k]
                ctx.check(ctx.And(b <= a, a < b + 1), 'bin of a surviving particle')
                a, b = vy[k][s], fy[i, k]
                ctx.check(ctx.Or(ctx.And(a >= 0, b <= a, a < b + 1), ctx.And(a < 0, b >= a, a > b - 1)), 'energy bin of a surviving particle')
    ctx.reach('done')


def instances(tier):
    out = []
    b = 60 if tier == 'quick' else 900
    cfg = [(1, 1, 1), (2, 1, 3), (1, 3, 2), (2, 2, 2), (3, 1, 2), (3, 2, 4)] + ([(4, 2, 3), (3, 3, 5), (5, 1, 2), (2, 4, 9)] if tier == 'thorough' else [])
    for n, p, nb in cfg:
        for how in ('filter', 'ready'):
            out.append(Instance(f'{how}-p{n}-f{p}-b{nb}', run, dict(n=n, nprof=p, nb=nb, how=how), budget=b, reach=['done', 'all lost'], weight=3 ** (n * p)))
    return out
