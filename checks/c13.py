"""every accept/reject decision of the coordinate setters is taken on symbolic coordinates and compared with the documented rule"""
from .common import *

UNITS = ['TomographyABC.xp (setter)', 'TomographyABC.yp (setter)', 'TomographyABC.__init__', 'utils.tomo_config.cast']
BOUNDS = ('1-3 particles, 1-3 profiles, 1-4 bins; coordinates unconstrained reals or one not-a-number at any place; right and wrong numbers '
          'of profiles and dimensions; both tomography classes; constructor and later assignment; contiguous and transposed arrays')
OUTSIDE = 'objects that are not arrays; infinities; larger arrays; the GPU memory path of cast()'
ASSUMPTIONS = ['exact real arithmetic; integer conversion truncates towards zero']

CLS = ['tomography.tomography', 'tomography.tomography_multibunch']


def _tomo(ctx, T, cls, nprof, nb, *a):
    w = ctx.array([[1.0 + (i + j) % 3 for j in range(nb)] for i in range(nprof)])
    return T.mod(cls).Tomography(w, *a)


def _int32(ctx, a):
    if not is_sym(ctx):
        ctx.check(a.dtype == np.int32, 'coordinates are not stored as 32-bit integers')


def _layout(ctx, a):
    if not is_sym(ctx):
        ctx.check(a.flags['C_CONTIGUOUS'], 'coordinates are not stored contiguously')


def setx(ctx, T, cls, n, ncol, nprof, nb, how='set', nan=False, tr=False):
    exc = T.mod('exceptions')
    x = ctx.reals('x', (ncol, n) if tr else (n, ncol))
    if tr:
        x = x.T
    bad = -1
    if nan:
        ctx.hooks['nan_to_int'] = lambda: -2 ** 31
        bad = ctx.concrete(ctx.int('bad', 0, n * ncol - 1))
        x[bad // ncol, bad % ncol] = float('nan')
    v = [[x[i, j] for j in range(ncol)] for i in range(n)]
    ok = ncol == nprof and not nan
    if ok:
        ok = bool(ctx.And(*[ctx.And(a >= 0, a < nb) for r in v for a in r]))
    errs = (exc.CoordinateImportError, exc.XPOutOfImageWidthError)
    old = [[(i + j) % nb for j in range(nprof)] for i in range(2)]
    if how == 'new':
        t, e = ctx.raises(lambda: _tomo(ctx, T, cls, nprof, nb, x), *errs)
    else:
        t = _tomo(ctx, T, cls, nprof, nb, ctx.array(old), ctx.array(old))
        _, e = ctx.raises(lambda: setattr(t, 'xp', x), *errs)
    ctx.check((e is None) == ok, 'coordinates accepted although invalid' if e is None else 'valid coordinates rejected')
    if e is not None:
        if ncol == nprof:
            ctx.check(isinstance(e, exc.XPOutOfImageWidthError), 'kind of error for a particle outside the image')
        if how == 'set':
            ctx.check_eq(t.xp, np.array(old, dtype=object), 'a rejected assignment changes the stored coordinates')
            ctx.check(t.nparts == 2, 'a rejected assignment changes the number of particles')
        ctx.reach('rejected')
        return
    ctx.check(np.shape(t.xp) == (n, ncol), 'shape of the stored coordinates')
    _int32(ctx, t.xp)
    _layout(ctx, t.xp)
    ctx.check(t.nparts == n, 'number of particles')
    for i in range(n):
        for j in range(ncol):
            s = t.xp[i, j]
            ctx.check(ctx.And(s <= v[i][j], v[i][j] < s + 1), 'stored coordinate is not the bin of the particle')
            ctx.check_eq(x[i, j], v[i][j], 'the array of the caller is modified')
    t.xp = None
    ctx.check(t.xp is None and t.nparts is None, 'assigning None does not delete the coordinates')
    ctx.reach('accepted')


def dims(ctx, T, cls, nprof, nb):
    """arrays that are not two-dimensional, and things that are no arrays"""
    exc = T.mod('exceptions')
    old = [[(i + j) % nb for j in range(nprof)] for i in range(2)]
    t = _tomo(ctx, T, cls, nprof, nb, ctx.array(old), ctx.array(old))
    k = ctx.concrete(ctx.int('k', 0, 2))
    a = [ctx.reals('x', nprof, lo=0, hi=1), ctx.reals('z', (1, nprof, 1), lo=0, hi=1), 1.5][k]
    for f in ('xp', 'yp'):
        _, e = ctx.raises(lambda: setattr(t, f, a), exc.CoordinateImportError, exc.XPOutOfImageWidthError)
        ctx.check(e is not None, f'{f} accepts an invalid object')
        ctx.check_eq(getattr(t, f), np.array(old, dtype=object), 'a rejected assignment changes the stored coordinates')
        ctx.check(t.nparts == 2, 'a rejected assignment changes the number of particles')
    ctx.reach('done')


def sety(ctx, T, cls, n, ncol, nprof, nb, how='set', tr=False):
    exc = T.mod('exceptions')
    xs = [[(2 * i + j) % nb for j in range(nprof)] for i in range(2)]
    y = ctx.reals('y', (ncol, n) if tr else (n, ncol))
    if tr:
        y = y.T
    v = [[y[i, j] for j in range(ncol)] for i in range(n)]
    if how == 'new':
        t, e = ctx.raises(lambda: _tomo(ctx, T, cls, nprof, nb, ctx.array(xs), y), exc.CoordinateImportError)
    elif how == 'nox':
        t = _tomo(ctx, T, cls, nprof, nb)
        _, e = ctx.raises(lambda: setattr(t, 'yp', y), exc.CoordinateImportError)
        ctx.check(e is not None, 'energy coordinates accepted without phase coordinates')
        ctx.check(t.yp is None, 'rejected energy coordinates are stored')
        ctx.reach('done')
        return
    else:
        t = _tomo(ctx, T, cls, nprof, nb, ctx.array(xs))
        _, e = ctx.raises(lambda: setattr(t, 'yp', y), exc.CoordinateImportError)
    ok = (n, ncol) == (2, nprof)
    ctx.check((e is None) == ok, 'energy coordinates of another shape accepted' if e is None else 'valid energy coordinates rejected')
    if t is not None:
        ctx.check_eq(t.xp, np.array(xs, dtype=object), 'assigning energies changes the phases')
    if ok:
        _int32(ctx, t.yp)
        for i in range(n):
            for j in range(ncol):
                s, a = t.yp[i, j], v[i][j]
                ctx.check(ctx.Or(ctx.And(a >= 0, s <= a, a < s + 1), ctx.And(a < 0, s >= a, a > s - 1)),
                          'stored energy coordinate is not the truncated value')
                ctx.check_eq(y[i, j], a, 'the array of the caller is modified')
    elif how == 'set':
        ctx.check(t.yp is None, 'rejected energy coordinates are stored')
    ctx.reach('done')


def instances(tier):
    out = []
    cfg = [(1, 1, 1, 1), (2, 2, 2, 3), (1, 3, 3, 2), (3, 1, 1, 4), (2, 1, 2, 3), (2, 3, 2, 3)]
    if tier == 'thorough':
        cfg += [(3, 2, 2, 2), (2, 3, 3, 4), (4, 2, 2, 5), (3, 3, 3, 3), (6, 2, 2, 20), (2, 8, 8, 100)]
    b = 60 if tier == 'quick' else 600
    for cls in CLS:
        s = 'multi' if 'multi' in cls else 'single'
        for n, m, p, nb in cfg:
            for how in ('set', 'new'):
                tr = how == 'new'
                d = dict(cls=cls, n=n, ncol=m, nprof=p, nb=nb, how=how, tr=tr)
                out.append(Instance(f'{s}-x-{how}-{n}x{m}-f{p}-b{nb}', setx, d, budget=b,
                                    reach=['accepted', 'rejected'] if m == p else ['rejected'], weight=n * m))
                out.append(Instance(f'{s}-y-{how}-{n}x{m}-f{p}-b{nb}', sety, d, budget=b, reach=['done']))
        out.append(Instance(f'{s}-x-nan', setx, dict(cls=cls, n=2, ncol=2, nprof=2, nb=3, nan=True), budget=b, reach=['rejected']))
        out.append(Instance(f'{s}-y-nox', sety, dict(cls=cls, n=2, ncol=2, nprof=2, nb=3, how='nox'), budget=b, reach=['done']))
        out.append(Instance(f'{s}-dims', dims, dict(cls=cls, nprof=2, nb=3), budget=b, reach=['done']))
    return out
