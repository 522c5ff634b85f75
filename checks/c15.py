"""the density image is computed from symbolic weights and every placement of the particles (also outside the image) and compared cell by cell"""
from .common import *

UNITS = ['libtomo.make_phase_space (binding + native routine)', 'python_routines.data_treatment.make_phase_space', 'data.data_treatment.phase_space',
         'data.data_treatment.phase_space_from_coordinates', 'compat.fortran / tomo_output phase space image']
BOUNDS = '1-3 particles on 1-3 x 1-3 bins plus one bin outside on each side; symbolic weights, axis origins and bin sizes'
OUTSIDE = 'more particles or bins; rounding of the sums'
ASSUMPTIONS = ['exact real arithmetic', 'cupy functions behave like the numpy functions of the same name']


def _coords(ctx, n, nb, outside):
    lo, hi = (-1, nb) if outside else (0, nb - 1)
    ctx.hooks['fork_index'] = True
    x, y = ctx.ints('x', n, lo, hi), ctx.ints('y', n, lo, hi)
    return x, y, [ctx.concrete(a) for a in x], [ctx.concrete(a) for a in y]


def _image(cx, cy, w, nb):
    ref = [[0] * nb for _ in range(nb)]
    for a, b, c in zip(cx, cy, w):
        ref[a][b] = ref[a][b] + c
    return ref


def _compare(ctx, d, ref, w, nb):
    ctx.check(np.shape(d) == (nb, nb), 'shape of the image')
    tot = 0
    for i in range(nb):
        for j in range(nb):
            ctx.check_eq(d[i, j], ref[i][j], 'density of a cell')
            tot = tot + d[i, j]
    ctx.check_eq(tot, sum(w), 'the image does not hold the total weight')


def native(ctx, T, n, nb, via, outside, prec='d'):
    if prec == 'f':
        ctx.hooks['prec'] = 'f'
    x, y, cx, cy = _coords(ctx, n, nb, outside)
    w = ctx.reals('w', n)
    ws = list(w)
    if prec == 'f' and not is_sym(ctx):
        w = w.astype(np.float32)
    if via == 'lib':
        f = lambda: T.lib.make_phase_space(x, y, w, nb)
    elif via == 'conf':
        f = lambda: T.mod('utils.tomo_config').make_phase_space(x, y, w, nb)
    elif via == 'old':
        f = lambda: T.mod('data.data_treatment')._make_phase_space(x, y, w, nb)
    else:
        f = lambda: T.mod('python_routines.data_treatment').make_phase_space(x, y, w, nb, result_cpu=False)
    d, e = ctx.raises(f, IndexError)
    ok = all(0 <= a < nb for a in cx + cy)
    ctx.check((e is None) == ok, 'a particle outside the image is accepted' if e is None else 'particles inside the image are rejected')
    ctx.check_eq(list(w), ws, 'the weights are modified')
    if e is None:
        _compare(ctx, d, _image(cx, cy, ws, nb), ws, nb)
        ctx.reach('done')
    else:
        ctx.reach('rejected')


def from_tomo(ctx, T, n, nb, nprof, rec):
    """data_treatment.phase_space: the coordinates of the requested frame, the axes centred on the synchronous particle"""
    ctx.hooks['fork_index'] = True
    X, Y = ctx.ints('x', (n, nprof), 0, nb - 1), ctx.ints('y', (n, nprof), 0, nb - 1)
    cx = [ctx.concrete(X[i, rec]) for i in range(n)]
    cy = [ctx.concrete(Y[i, rec]) for i in range(n)]
    w = ctx.reals('w', n)
    ws = list(w)

    class O:
        pass
    t, m = O(), O()
    t.xp, t.yp, t.weight = X, Y, w
    m.nbins, m.synch_part_x, m.synch_part_y = nb, ctx.real('sx'), ctx.real('sy')
    m.dtbin, m.dEbin = ctx.real('dt'), ctx.real('dE')
    ta, ea, d = T.mod('data.data_treatment').phase_space(t, m, rec)
    _compare(ctx, d, _image(cx, cy, ws, nb), ws, nb)
    ctx.check(len(ta) == nb and len(ea) == nb, 'length of an axis')
    for k in range(nb):
        ctx.check_eq(ta[k], (k - m.synch_part_x) * m.dtbin, 'time axis')
        ctx.check_eq(ea[k], (k - m.synch_part_y) * m.dEbin, 'energy axis')
    m.dEbin = None
    _, e = ctx.raises(lambda: T.mod('data.data_treatment').phase_space(t, m, rec), T.mod('exceptions').InputError)
    ctx.check(e is not None, 'a machine without an energy bin size is accepted')
    ctx.reach('done')


def image(ctx, T, n, nb, nprof, rec):
    """utils.tomo_output.create_phase_space_image: non-negative and normalised"""
    ctx.hooks['fork_index'] = ctx.hooks['fork_ite'] = True
    X, Y = ctx.ints('x', (n, nprof), 0, nb - 1), ctx.ints('y', (n, nprof), 0, nb - 1)
    cx = [ctx.concrete(X[i, rec]) for i in range(n)]
    cy = [ctx.concrete(Y[i, rec]) for i in range(n)]
    w = ctx.reals('w', n)
    ws = list(w)
    ref = _image(cx, cy, ws, nb)
    pos = [[a if bool(a > 0) else 0 for a in r] for r in ref]
    if not any(bool(a > 0) for r in ref for a in r):
        return
    d = T.mod('utils.tomo_output').create_phase_space_image(X, Y, w, nb, rec)
    s = sum(sum(r) for r in pos)
    for i in range(nb):
        for j in range(nb):
            ctx.check_eq(d[i, j], pos[i][j] / s, 'normalised density of a cell')
    ctx.reach('done')


def instances(tier):
    out = []
    b = 60 if tier == 'quick' else 900
    cfg = [(1, 1), (1, 3), (2, 2)] + ([(3, 2), (2, 4)] if tier == 'thorough' else [])
    for n, nb in cfg:
        for via in ('lib', 'conf', 'old', 'cupy'):
            out.append(Instance(f'{via}-p{n}-b{nb}', native, dict(n=n, nb=nb, via=via, outside=True), budget=b, reach=['done', 'rejected'],
                                weight=(nb + 2) ** (2 * n), soft=('leak',)))
    out.append(Instance('lib-p3-b2-in', native, dict(n=3, nb=2, via='lib', outside=False), budget=b, reach=['done'], weight=64))
    out.append(Instance('float-p2-b2', native, dict(n=2, nb=2, via='lib', outside=True, prec='f'), budget=b, reach=['done', 'rejected'], weight=256,
                        rtol=1e-4, atol=1e-4))
    for n, nb, p in [(1, 2, 2), (2, 2, 2), (1, 3, 3)] + ([(2, 3, 2), (3, 2, 2)] if tier == 'thorough' else []):
        for rec in range(p):
            out.append(Instance(f'tomo-p{n}-b{nb}-r{rec}of{p}', from_tomo, dict(n=n, nb=nb, nprof=p, rec=rec), budget=b, reach=['done'], weight=nb ** (2 * n)))
            out.append(Instance(f'image-p{n}-b{nb}-r{rec}of{p}', image, dict(n=n, nb=nb, nprof=p, rec=rec), budget=b, reach=['done'], weight=nb ** (2 * n)))
    return out
