"""C09: the reconstruction is the documented iterative scheme"""
from .common import *

UNITS = ['libtomo.reconstruct (binding + native routine)', 'Tomography.run']
BOUNDS = ('every assignment of 1-3 particles to 2-3 bins in 1-2 profiles; 0-2 iterations; one or two profile rows fully symbolic '
          '(non-negative, normalised), remaining rows fixed')
OUTSIDE = 'larger problems, floating-point rounding, unnormalised profiles'
ASSUMPTIONS = ['exact real arithmetic', 'IR from clang -O1; parallel loops run in sequential order here (schedules: C06)']


def recon(ctx, T, n, nprof, nb, nsym, it, via='lib', pat=None, free=None):
    xp, c = sym_xp(ctx, n, nprof, nb, pat=pat)
    w, rows_ = sym_waterfall(ctx, nprof, nb, nsym, free=free)
    exc = (RuntimeError,)
    if via == 'lib':
        r, e = ctx.raises(lambda: T.lib.reconstruct(xp, w, it, nb, n, nprof, False, None), *exc)
    else:
        t = tomo_of(T, w, xp)
        if via == 'again':
            # the object reconstructed with other particles before
            t.xp = T.np.array([[(i + f) % nb for f in range(nprof)] for i in range(n + 1)])
            t.run(niter=it + 1)
            t.xp = xp
        r, e = ctx.raises(lambda: t.run(niter=it), *exc)
        if e is None:
            ctx.check_eq(r, np.array(t.weight), 'returned weights differ from the stored ones')
            r = (t.weight, t.diff, t.recreated)
    s = recon_spec(ctx, c, rows_, it)
    if s is None:
        ctx.check(e is not None, 'an all-zero phase space was not reported')
        ctx.reach('zero')
        return
    ctx.check(e is None, f'unexpected error {e}')
    W, D, rec = s
    ctx.check(np.shape(r[0]) == (n,), 'number of weights')
    ctx.check(np.shape(r[1]) == (it + 1,), 'number of discrepancies')
    ctx.check(np.shape(r[2]) == (nprof, nb), 'shape of the recreated waterfall')
    for x in list(r[0]):
        ctx.check_le(0, x, 'negative weight')
    ctx.check_eq(r[0], np.array(W, dtype=object), 'weights')
    ctx.check_eq(r[2], np.array(rec, dtype=object), 'recreated waterfall')
    for a, d2 in zip(list(r[1]), D):
        ctx.check_le(0, a, 'negative discrepancy')
        ctx.check_eq(a * a, d2, 'discrepancy')
    for i in range(nprof):
        ctx.check_eq(list(w[i]), list(rows_[i]), 'the measured profiles are modified')
    ctx.reach('done')


def instances(tier):
    cfg = [(1, 1, 2, 1, 2), (2, 1, 2, 1, 1), (2, 2, 2, 1, 1), (1, 2, 3, 1, 1), (2, 1, 3, 1, 1), (2, 2, 2, 1, 0), (3, 1, 2, 1, 1)]
    if tier == 'thorough':
        cfg += [(2, 2, 2, 2, 1), (2, 2, 2, 1, 2), (3, 2, 2, 1, 1), (2, 3, 2, 1, 1), (3, 1, 3, 1, 1), (2, 1, 3, 1, 2), (3, 3, 2, 1, 1)]
    b = 60 if tier == 'quick' else 900
    out = []
    for n, nprof, nb, ns, it in cfg:
        for via in ('lib', 'run'):
            if via == 'run' and (n > 2 or tier == 'quick' and nb > 2):
                continue
            out.append(Instance(f'{via}-p{n}-f{nprof}-b{nb}-s{ns}-i{it}', recon, dict(n=n, nprof=nprof, nb=nb, nsym=ns, it=it, via=via),
                                reach=['done'], budget=b, weight=(nb ** (n * nprof)) * (it + 1) ** 3, rtol=1e-6, atol=1e-7))
    mid = [(4, 3, 4, 2, 1), (5, 4, 3, 2, 2), (6, 2, 5, 2, 3), (3, 5, 3, 3, 4)]
    if tier == 'thorough':
        mid += [(n, f, nb, it, k) for k in range(10, 16) for n, f, nb, it in ((5, 3, 4, 2), (8, 2, 6, 2), (4, 6, 4, 2), (4, 3, 4, 3))]
    for n, nprof, nb, it, k in mid:
        for via in ('lib', 'run'):
            out.append(Instance(f'{via}-mid{k}-p{n}-f{nprof}-b{nb}-i{it}', recon,
                                dict(n=n, nprof=nprof, nb=nb, nsym=1, it=it, via=via, pat=(k, 1), free='small'), reach=['done'], budget=b,
                                weight=n * nprof * nb * it ** 3, rtol=1e-6, atol=1e-7))
    for n, nprof, nb, it in [(2, 2, 2, 1), (2, 1, 3, 1)]:
        out.append(Instance(f'again-p{n}-f{nprof}-b{nb}-i{it}', recon, dict(n=n, nprof=nprof, nb=nb, nsym=1, it=it, via='again'), reach=['done'], budget=b, weight=500, rtol=1e-6, atol=1e-7))
    return out
