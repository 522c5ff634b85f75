"""C11: every way of running the reconstruction gives the same result"""
from .common import *

UNITS = ['Tomography.run', 'Tomography.run_hybrid', 'python_routines.reconstruct_cupy', 'libtomo.reconstruct (double and single)', 'tomolib_wrappers.reconstruct']
BOUNDS = 'every assignment of 1-2 particles to 2-3 bins in 1-2 profiles; 0-2 iterations; one symbolic profile row'
OUTSIDE = 'CUDA kernels; larger problems; rounding'
ASSUMPTIONS = ['exact real arithmetic', 'cupy functions behave like numpy functions of the same name']


def run(ctx, T, how, xp, w, it, n, nprof, nb):
    if how in ('lib', 'lib32'):
        if how == 'lib32':
            if is_sym(ctx):
                ctx.hooks['prec'] = 'f'
            else:
                w = np.asarray(w, dtype=np.float32)
        try:
            return T.lib.reconstruct(xp, w, it, nb, n, nprof, False, None)
        finally:
            ctx.hooks['prec'] = 'd'
    if how == 'run':
        t = tomo_of(T, w, xp)
        W = t.run(niter=it)
        return W, t.diff, t.recreated
    if how == 'wrapper':
        m = T.mod('cpp_routines.tomolib_wrappers')
        m.libtomo = T.lib           # (imported under the former name of the package)
        return m.reconstruct(xp, w, it, nb, n, nprof, False)
    if how == 'hybrid':
        t = tomo_of(T, w, xp)
        W = t.run_hybrid(niter=it)
        return W, t.diff, t.recreated
    if how == 'cupy':
        m = T.mod('python_routines.reconstruct_cupy')
        W, d, r = m.reconstruct_cupy(xp, w, it, nb, n, nprof)
        return W, d, r.reshape((nprof, nb))
    raise ValueError(how)


def agree(ctx, T, other, n, nprof, nb, nsym, it, pat=None, free=None):
    xp, c = sym_xp(ctx, n, nprof, nb, pat=pat)
    w, rows_ = sym_waterfall(ctx, nprof, nb, nsym, free=free)
    EX = (RuntimeError, T.mod('exceptions').WaterfallReducedToZero)
    a, ea = ctx.raises(lambda: run(ctx, T, 'lib', xp, w.copy(), it, n, nprof, nb), *EX)
    if ea is not None and other == 'hybrid':
        ctx.reach('zero')
        return
    b, eb = ctx.raises(lambda: run(ctx, T, other, xp, w.copy(), it, n, nprof, nb), *EX)
    ctx.check((ea is None) == (eb is None), f'only one of lib and {other} reports an empty phase space')
    if ea is not None:
        ctx.reach('zero')
        return
    ctx.check_eq(b[0], np.array(a[0]), f'weights: {other} differs')
    ctx.check_eq(b[2], np.array(a[2]), f'recreated waterfall: {other} differs')
    x, y = list(a[1]), list(b[1])
    ctx.check(len(x) == len(y) == it + 1, 'number of discrepancies')
    for p, q in zip(x, y):
        ctx.check_le(0, q, 'negative discrepancy')
        ctx.check_eq(p * p, q * q, f'discrepancy: {other} differs')
    ctx.reach('done')


def instances(tier):
    cfg = [(1, 1, 2, 1, 2), (2, 1, 2, 1, 1), (2, 2, 2, 1, 1), (1, 2, 3, 1, 1), (2, 1, 3, 1, 1), (2, 1, 2, 1, 0)]
    if tier == 'thorough':
        cfg += [(2, 2, 2, 2, 1), (2, 2, 2, 1, 2), (3, 2, 2, 1, 1), (2, 3, 2, 1, 1), (3, 1, 3, 1, 1)]
    b = 60 if tier == 'quick' else 900
    out = []
    for n, p, nb, ns, it in cfg:
        for o in ('run', 'hybrid', 'cupy', 'lib32'):
            if tier == 'quick' and o in ('run', 'lib32') and nb > 2:
                continue
            f32 = o == 'lib32'
            out.append(Instance(f'{o}-p{n}-f{p}-b{nb}-s{ns}-i{it}', agree, dict(other=o, n=n, nprof=p, nb=nb, nsym=ns, it=it),
                                reach=['done'], budget=b, weight=(nb ** (n * p)) * (it + 1) ** 3, witness=not f32,
                                rtol=1e-3 if f32 else 1e-6, atol=1e-3 if f32 else 1e-7))
    for n, p, nb, ns, it in cfg[1:3]:
        out.append(Instance(f'wrapper-p{n}-f{p}-b{nb}-s{ns}-i{it}', agree, dict(other='wrapper', n=n, nprof=p, nb=nb, nsym=ns, it=it), reach=['done'], budget=b, rtol=1e-6, atol=1e-7))
    mid = [(4, 3, 4, 2, 1), (5, 4, 3, 2, 2), (6, 2, 5, 2, 3), (3, 5, 3, 3, 4)]
    if tier == 'thorough':
        mid += [(n, f, nb, it, k) for k in range(10, 16) for n, f, nb, it in ((5, 3, 4, 2), (8, 2, 6, 2), (4, 6, 4, 2), (4, 3, 4, 3))]
    for n, p, nb, it, k in mid:
        for o in ('run', 'hybrid', 'cupy', 'lib32'):
            f32 = o == 'lib32'
            out.append(Instance(f'{o}-mid{k}-p{n}-f{p}-b{nb}-i{it}', agree, dict(other=o, n=n, nprof=p, nb=nb, nsym=1, it=it, pat=(k, 1), free='small'),
                                reach=['done'], budget=b, weight=n * p * nb * it ** 3, witness=not f32,
                                rtol=1e-3 if f32 else 1e-6, atol=1e-3 if f32 else 1e-7))
    return out
