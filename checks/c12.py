"""C12: multi-bunch reconstruction"""
import contextlib
import io
from .common import *

UNITS = ['libtomo.reconstruct_multi (binding + native routine)', 'libtomo.count_particles_in_bins_multi',
         'tomography_multibunch.Tomography.run', 'tomography_multibunch.Tomography.run_hybrid', 'tomography.Tomography.run_hybrid_multi', 'libtomo.reconstruct']
BOUNDS = ('every assignment of 1-2 particles to the bins of 1-2 profiles of 2-4 bins; 1-2 bunches with the listed offsets and windows; '
          '0-1 iterations; one symbolic profile row')
OUTSIDE = 'windows that leave the measured profile; larger problems; rounding'
ASSUMPTIONS = ['exact real arithmetic', 'parallel loops in sequential order (schedules: C06)']


def multi_spec(ctx, c, rows_, centers, cl, cr, niter):
    nprof, nb, n, nc = len(rows_), len(rows_[0]), len(c), len(centers)
    act = [[all(cl[k] <= b + centers[k] < cr[k] for b in p) for p in c] for k in range(nc)]
    cnt = [[sum(1 for k in range(nc) for p in c if p[j] + centers[k] == b) for b in range(nb)] for j in range(nprof)]
    mx = max(max(r) for r in cnt)
    W = [[ctx.const(0)] * n for _ in range(nc)]

    def bp(d):
        out = []
        for k in range(nc):
            o = []
            for i, p in enumerate(c):
                w = W[k][i]
                if act[k][i]:
                    for j in range(nprof):
                        w = w + d[j][p[j] + centers[k]]
                    if w < 0:
                        w = ctx.const(0)
                o.append(w)
            out.append(o)
        return out

    def total():
        return sum(x for r in W for x in r)
    W = bp(rows_)
    if total() <= 0:
        return None
    D, DS = [], []
    for it in range(niter + 1):
        rec = [[ctx.const(0)] * nb for _ in range(nprof)]
        for k in range(nc):
            for i, p in enumerate(c):
                if act[k][i]:
                    for j in range(nprof):
                        rec[j][p[j] + centers[k]] = rec[j][p[j] + centers[k]] + W[k][i]
        s = total()
        rec = [[x / s for x in r] for r in rec]
        diff = [[a - b for a, b in zip(u, v)] for u, v in zip(rows_, rec)]
        D.append(sum(x * x for r in diff for x in r) / (nprof * nb))
        DS.append([sum(x * x for r in diff for x in r[cl[k]:cr[k]]) / (nprof * (cr[k] - cl[k])) for k in range(nc)])
        if it == niter:
            return [x for r in W for x in r], D, DS, rec
        W = bp([[d * ctx.const(mx) / max(m, 1) for d, m in zip(u, v)] for u, v in zip(diff, cnt)])
        if total() <= 0:
            return None


def multi(ctx, T, n, nprof, nb, mb, it, centers, cl, cr, via, free=1, pat=None):
    """mb: number of bins a single bunch's coordinates may take"""
    xp, c = sym_xp(ctx, n, nprof, mb, pat=pat)
    w, rows_ = sym_waterfall(ctx, nprof, nb, 1, free=free)
    ce, l, r_ = (np.array(x, dtype=np.int32) for x in (centers, cl, cr))
    nc = len(centers)
    s = multi_spec(ctx, c, rows_, centers, cl, cr, it)
    if s is None and via in ('hybrid', 'one-class'):
        ctx.reach('zero')
        return
    if via == 'lib':
        def f():
            W, d, ds, rec = T.lib.reconstruct_multi(xp, w, l, r_, ce, it, nb, n, nprof, nc, False, None)
            return W, d, ds.reshape((it + 1, nc)).T, rec
    else:
        t = tomo_of(T, w, xp, 'tomography.tomography' if via == 'one-class' else 'tomography.tomography_multibunch')

        def f():
            if via == 'run':
                t.run(ce, l, r_, niter=it)
            elif via == 'one-class':
                with contextlib.redirect_stdout(io.StringIO()):
                    x = t.run_hybrid_multi(ce, list(zip(cl, cr)), niter=it)
                ctx.check(np.shape(x) == (nc, n), 'shape of the weights')
                return np.array(x).reshape(-1), t.diff, None, t.recreated
            else:
                t.run_hybrid(ce, list(zip(cl, cr)), niter=it)
            ctx.check(len(t.weight_split) == nc, 'number of per-bunch weight sets')
            for k in range(nc):
                ctx.check_eq(t.weight_split[k], np.array(t.weight_combined)[k * n:(k + 1) * n], 'weights per bunch')
            return t.weight_combined, t.diff, t.diff_split, t.recreated
    r, e = ctx.raises(f, RuntimeError)
    if s is None:
        ctx.check(e is not None, 'an all-zero phase space was not reported')
        ctx.reach('zero')
        return
    ctx.check(e is None, f'unexpected error {e}')
    W, D, DS, rec = s
    ctx.check(np.shape(r[0]) == (n * nc,) and np.shape(r[1]) == (it + 1,) and (r[2] is None or np.shape(r[2]) == (nc, it + 1))
              and np.shape(r[3]) == (nprof, nb), 'shapes of the results')
    for x in list(r[0]):
        ctx.check_le(0, x, 'negative weight')
    ctx.check_eq(r[0], np.array(W, dtype=object), 'weights')
    ctx.check_eq(r[3], np.array(rec, dtype=object), 'recreated waterfall')
    for a, d2 in zip(list(r[1]), D):
        ctx.check_eq(a * a, d2, 'discrepancy')
    for i in range(it + 1 if r[2] is not None else 0):
        for k in range(nc):
            a = r[2][k, i]
            ctx.check_le(0, a, 'negative discrepancy')
            ctx.check_eq(a * a, DS[i][k], 'discrepancy per bunch')
    ctx.reach('done')


def single(ctx, T, n, nprof, nb, it):
    """one bunch that covers the whole profile is the single-bunch reconstruction"""
    xp, c = sym_xp(ctx, n, nprof, nb)
    w, rows_ = sym_waterfall(ctx, nprof, nb, 1)
    z, l, r_ = (np.array([x], dtype=np.int32) for x in (0, 0, nb))
    a, ea = ctx.raises(lambda: T.lib.reconstruct(xp, w, it, nb, n, nprof, False, None), RuntimeError)
    b, eb = ctx.raises(lambda: T.lib.reconstruct_multi(xp, w, l, r_, z, it, nb, n, nprof, 1, False, None), RuntimeError)
    ctx.check((ea is None) == (eb is None), 'only one of the two reports an empty phase space')
    if ea is not None:
        return
    ctx.check_eq(b[0], np.array(a[0]), 'weights')
    ctx.check_eq(b[3], np.array(a[2]), 'recreated waterfall')
    for x, y, z_ in zip(list(a[1]), list(b[1]), list(b[2])):
        ctx.check_eq(x * x, y * y, 'discrepancy')
        ctx.check_eq(x * x, z_ * z_, 'discrepancy of the bunch')
    ctx.reach('done')


def counts(ctx, T, n, nprof, nb, mb, centers):
    xp, c = sym_xp(ctx, n, nprof, mb)
    cnt = [[sum(1 for k in centers for p in c if p[j] + k == b) for b in range(nb)] for j in range(nprof)]
    r = T.lib.count_particles_in_bins_multi(zeros(ctx, (nprof, nb)), xp, np.array(centers, dtype=np.int32), nprof, n, nb, len(centers))
    ctx.check_eq(r, np.array(cnt, dtype=object), 'particles per bin')
    ctx.reach('done')


def instances(tier):
    b = 60 if tier == 'quick' else 900
    # n, nprof, nb, mb, it, centers, cutleft, cutright
    cfg = [(1, 1, 4, 2, 1, [0, 2], [0, 2], [2, 4]), (2, 1, 4, 2, 1, [0, 2], [0, 2], [2, 4]), (1, 2, 4, 2, 1, [0, 2], [0, 2], [2, 4]),
           (2, 1, 4, 3, 1, [0, 2], [0, 2], [3, 4]), (1, 2, 3, 3, 1, [1, -1], [1, 0], [3, 2]), (2, 2, 4, 2, 0, [0, 2], [0, 2], [2, 4])]
    if tier == 'thorough':
        cfg += [(2, 2, 4, 2, 1, [0, 2], [0, 2], [2, 4]), (1, 2, 4, 2, 2, [0, 2], [0, 2], [2, 4]), (2, 1, 4, 2, 2, [2, 0], [2, 0], [4, 2]),
                (3, 1, 4, 2, 1, [0, 2], [0, 2], [2, 4]), (1, 2, 5, 3, 1, [0, 1, 2], [0, 1, 3], [2, 4, 5])]
    out = []
    for n, p, nb, mb, it, ce, l, r in cfg:
        for via in ('lib', 'run', 'hybrid', 'one-class'):
            out.append(Instance(f'{via}-p{n}-f{p}-b{nb}-m{mb}-i{it}-c{"_".join(map(str, ce))}', multi,
                                dict(n=n, nprof=p, nb=nb, mb=mb, it=it, centers=ce, cl=l, cr=r, via=via), reach=['done'], budget=b,
                                weight=mb ** (n * p) * (it + 1) ** 3, rtol=1e-6, atol=1e-7))
    # one particle free in every frame, the others on fixed trajectories
    mid = [(3, 3, 5, 3, 1, [0, 2], [0, 2], [2, 5], 1), (4, 3, 6, 3, 1, [0, 3], [0, 3], [3, 6], 2), (3, 4, 4, 2, 0, [2, 0], [2, 0], [4, 2], 3),
           (4, 2, 6, 2, 2, [0, 2, 4], [0, 2, 4], [2, 4, 6], 4)]
    if tier == 'thorough':
        mid += [(4, 3, 6, 4, 1, [0, 2], [0, 3], [3, 6], k) for k in range(5, 12)] + [(6, 4, 6, 3, 2, [0, 3], [0, 3], [3, 6], k) for k in range(12, 18)]
    for n, p, nb, mb, it, ce, l, r, k in mid:
        for via in ('lib', 'run', 'hybrid', 'one-class'):
            out.append(Instance(f'{via}-mid{k}-p{n}-f{p}-b{nb}-m{mb}-i{it}-c{"_".join(map(str, ce))}', multi,
                                dict(n=n, nprof=p, nb=nb, mb=mb, it=it, centers=ce, cl=l, cr=r, via=via, free='small', pat=(k, 3)),
                                reach=['done'], budget=b, weight=mb ** 3 * (it + 1) ** 3, rtol=1e-6, atol=1e-7))
    for n, p, nb, it in [(2, 1, 2, 1), (1, 2, 2, 1)] + ([(2, 2, 2, 1), (2, 1, 3, 1)] if tier == 'thorough' else []):
        out.append(Instance(f'single-p{n}-f{p}-b{nb}-i{it}', single, dict(n=n, nprof=p, nb=nb, it=it), reach=['done'], budget=b,
                            weight=nb ** (n * p) * (it + 1) ** 3, rtol=1e-6, atol=1e-7))
    for n, p, nb, mb, ce in [(2, 2, 3, 2, [0, 1]), (1, 2, 4, 3, [-1, 3])]:
        out.append(Instance(f'counts-p{n}-f{p}-b{nb}-c{"_".join(map(str, ce))}', counts, dict(n=n, nprof=p, nb=nb, mb=mb, centers=ce),
                            reach=['done'], budget=b))
    return out
