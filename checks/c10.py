"""C10: projection and back projection are adjoint; particle counting is exact"""
from .common import *

UNITS = ['tomolib_wrappers.project', 'tomolib_wrappers.back_project', 'libtomo.project', 'libtomo.back_project', 'libtomo.count_particles_in_bins', 'Tomography._create_flat_points',
         'Tomography._project', 'TomographyABC._reciprocal_particles', 'python_routines.reconstruct_cupy.(back_)project']
BOUNDS = 'every assignment of 1-3 particles to 2-3 bins in 1-3 profiles; weights and profile values unconstrained reals'
OUTSIDE = 'larger problems, floating-point rounding'
ASSUMPTIONS = ['exact real arithmetic', 'cupy functions behave like numpy functions of the same name']


def adjoint(ctx, T, n, nprof, nb, via='lib'):
    xp, c = sym_xp(ctx, n, nprof, nb)
    w, v = ctx.reals('w', n), ctx.reals('v', (nprof, nb))
    w0, r0 = ctx.reals('w0', n), ctx.reals('r0', (nprof, nb))
    ws, vs, w0s, r0s = list(w), [list(r) for r in v], list(w0), [list(r) for r in r0]
    if via != 'cupy':
        t = tomo_of(T, v, xp)
        fp = t._create_flat_points()
        L = T.lib
        if via == 'wrapper':
            L = T.mod('cpp_routines.tomolib_wrappers')
            L.libtomo = T.lib           # (imported under the former name of the package)
        P = L.project(r0.copy(), fp, w, n, nprof, nb)
        B = L.back_project(w0.copy(), fp, v.flatten(), n, nprof)
    else:
        m = T.mod('python_routines.reconstruct_cupy')
        fp = m.create_flat_points(xp, n, nprof, nb)
        P = m.project(r0.flatten(), fp, w, n, nprof, nb).reshape((nprof, nb))
        B = m.back_project(w0, fp, v.flatten(), n, nprof)
    ctx.check(np.shape(P) == (nprof, nb), 'shape of the projection')
    for i in range(n):
        s = w0s[i]
        for j in range(nprof):
            ctx.check(fp[i, j] == c[i][j] + nb * j, 'flattened coordinate')
            s = s + vs[j][c[i][j]]
        ctx.check_eq(B[i], s, 'back projection')
    ref = recon_project(c, ws, nprof, nb)
    for j in range(nprof):
        for b in range(nb):
            ctx.check_eq(P[j, b], r0s[j][b] + ref[j][b], 'projection')
    lhs = sum((P[j, b] - r0s[j][b]) * vs[j][b] for j in range(nprof) for b in range(nb))
    rhs = sum(ws[i] * (B[i] - w0s[i]) for i in range(n))
    ctx.check_eq(lhs, rhs, 'projection and back projection are not adjoint')
    ctx.check_eq(list(w), ws, 'the weights are modified by projecting')
    ctx.reach('done')


def counts(ctx, T, n, nprof, nb):
    xp, c = sym_xp(ctx, n, nprof, nb)
    cnt, mx = recon_counts(c, nprof, nb)
    z = zeros(ctx, (nprof, nb))
    r = T.lib.count_particles_in_bins(z, xp, nprof, n, nb)
    ctx.check_eq(r, np.array(cnt, dtype=object), 'particles per bin')
    w = ctx.array([[1.0 / nb] * nb] * nprof)
    t = tomo_of(T, w, xp)
    q = t._reciprocal_particles().T
    m = T.mod('python_routines.reconstruct_cupy')
    g = m.reciprocal_particles(xp, nb, nprof, n)
    for j in range(nprof):
        for b in range(nb):
            s = ctx.const(mx) / max(cnt[j][b], 1)
            ctx.check_eq(q[j, b], s, 'compensation factor')
            ctx.check_eq(g[j, b], s, 'compensation factor (cupy)')
    ctx.reach('done')


def instances(tier):
    cfg = [(1, 1, 2), (2, 2, 2), (2, 1, 3), (1, 3, 2), (3, 2, 2)]
    if tier == 'thorough':
        cfg += [(2, 2, 3), (3, 3, 2), (4, 2, 2), (3, 1, 4), (2, 4, 2), (3, 2, 3)]
    out = []
    b = 60 if tier == 'quick' else 900
    for n, p, nb in cfg:
        for via in ('lib', 'cupy') + (('wrapper',) if (n, p) == (2, 2) else ()):
            out.append(Instance(f'adjoint-{via}-p{n}-f{p}-b{nb}', adjoint, dict(n=n, nprof=p, nb=nb, via=via), reach=['done'], budget=b,
                                weight=nb ** (n * p)))
        out.append(Instance(f'counts-p{n}-f{p}-b{nb}', counts, dict(n=n, nprof=p, nb=nb), reach=['done'], budget=b, weight=nb ** (n * p)))
    return out
