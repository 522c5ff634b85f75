"""the constructors run on waterfalls of symbolic reals (all signs); clipping, normalisation and the error are compared with the definition"""
from .common import *

UNITS = ['TomographyABC.__init__', 'TomographyABC._normalize_profiles', 'Profiles.waterfall (setter)', 'Profiles.__init__', 'utils.tomo_config.cast']
BOUNDS = '1-3 profiles of 1-4 bins, all values unconstrained reals'
OUTSIDE = 'larger waterfalls; rounding; not-a-number in the measurement'
ASSUMPTIONS = ['exact real arithmetic']


def norm(ctx, T, cls, nprof, nb):
    ctx.hooks['fork_ite'] = True
    exc = T.mod('exceptions')
    w = ctx.reals('w', (nprof, nb))
    v = rows(w)
    pos = [[a if bool(a > 0) else 0 for a in r] for r in v]
    empty = [not any(bool(a > 0) for a in r) for r in v]
    t, e = ctx.raises(lambda: T.mod(cls).Tomography(w), exc.WaterfallReducedToZero)
    ctx.check_eq(w, np.array(v, dtype=object), 'the array of the caller is modified')
    if any(empty):
        ctx.check(e is not None, 'a profile without any signal is not reported')
        ctx.reach('error')
        return
    ctx.check(e is None, 'a waterfall with signal in every profile is rejected')
    ctx.check(np.shape(t.waterfall) == (nprof, nb), 'shape of the waterfall')
    ctx.check(t.nprofs == nprof and t.nbins == nb, 'number of profiles and bins')
    for i in range(nprof):
        s = sum(pos[i])
        for j in range(nb):
            ctx.check_eq(t.waterfall[i, j], pos[i][j] / s, 'normalised profile')
        ctx.check_eq(sum(t.waterfall[i]), 1, 'profile does not sum to one')
    ctx.reach('done')


def profiles(ctx, T, nprof, nb, nmach):
    """data.profiles.Profiles: clipping, the shape rule, the bin count of the machine"""
    ctx.hooks['fork_ite'] = True
    exc = T.mod('exceptions')
    w = ctx.reals('w', (nprof, nb))
    v = rows(w)

    class M:
        pass
    m = M()
    m.nprofiles, m.nbins = nmach, -1
    p, e = ctx.raises(lambda: T.mod('data.profiles').Profiles(m, 1.0, w), exc.WaterfallError, exc.WaterfallReducedToZero)
    ctx.check_eq(w, np.array(v, dtype=object), 'the array of the caller is modified')
    if nmach != nprof:
        ctx.check(isinstance(e, exc.WaterfallError), 'wrong number of profiles accepted')
        ctx.check(m.nbins == -1, 'a rejected waterfall changes the machine')
        ctx.reach('error')
        return
    if not any(bool(a > 0) for r in v for a in r):
        ctx.check(isinstance(e, exc.WaterfallReducedToZero), 'an empty measurement is not reported')
        ctx.reach('error')
        return
    ctx.check(e is None, 'a valid measurement is rejected')
    ctx.check(np.shape(p.waterfall) == (nprof, nb), 'shape of the waterfall')
    for i in range(nprof):
        for j in range(nb):
            ctx.check_eq(p.waterfall[i, j], v[i][j] if bool(v[i][j] > 0) else 0, 'clipped value')
    ctx.check(m.nbins == nb, 'number of bins of the machine')
    ctx.reach('done')


def instances(tier):
    out = []
    b = 60 if tier == 'quick' else 900
    cfg = [(1, 1), (2, 2), (1, 4), (3, 1), (2, 3)] + ([(3, 3), (2, 5), (1, 9), (4, 2)] if tier == 'thorough' else [])
    for p, nb in cfg:
        for cls in ('tomography.tomography', 'tomography.tomography_multibunch'):
            s = 'multi' if 'multi' in cls else 'single'
            out.append(Instance(f'{s}-f{p}-b{nb}', norm, dict(cls=cls, nprof=p, nb=nb), budget=b, reach=['done', 'error'], weight=2 ** (p * nb)))
        out.append(Instance(f'profiles-f{p}-b{nb}', profiles, dict(nprof=p, nb=nb, nmach=p), budget=b, reach=['done', 'error'], weight=2 ** (p * nb)))
    for k in (1, 3):
        out.append(Instance(f'profiles-count{k}', profiles, dict(nprof=2, nb=2, nmach=k), budget=b, reach=['error']))
    return out
