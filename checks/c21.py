"""baseline, cutting, cut finding, noise-frame removal and the complete treatment of a measurement run on symbolic samples and are compared with their
definitions"""
from .common import *

UNITS = ['compat.fortran.calc_baseline', 'data.data_treatment.calc_baseline_ftn', 'utils.tomo_input.raw_data_to_profiles', 'data.pre_process.cut_waterfall',
         'data.pre_process.get_cuts', 'data.pre_process.filter_profiles', 'data.profiles.Profiles (constructor)', 'data.pre_process.rebin']
BOUNDS = ('baseline: 1-3 profiles of 1-8 (default percentage: 20-41) bins and every percentage; cuts: 1-3 profiles of 2-5 bins, every pair of cuts, '
          'margins 0-3; noise frames: 1-4 profiles; all samples symbolic')
OUTSIDE = 'larger measurements; rounding, e.g. of the percentage times the number of bins'
ASSUMPTIONS = ['exact real arithmetic',
               'a frame counts as noise when its share of the signal does not exceed (largest share - smallest share - mean share), as coded']


def baseline(ctx, T, np_, nb, dflt):
    exc = T.mod('exceptions')
    ref = ctx.concrete(ctx.int('ref', 0, np_ - 1))
    w = ctx.reals('w', (np_, nb)) if not dflt else ctx.array([[ctx.real(f'w{i}_{j}') if j < 3 else ctx.const(j * j + i) for j in range(nb)]
                                                             for i in range(np_)])
    v = rows(w)
    f = T.mod('compat.fortran').calc_baseline
    if dflt:
        k = nb // 20
        b, e = ctx.raises(lambda: f(w, ref), exc.InputError)
        ok = True
    else:
        p = ctx.real('p', lo=-2, hi=3)
        ok = bool(ctx.And(p >= 0, p <= 1))
        k = ctx.concrete(ctx.floor(p * nb)) if ok else 0
        b, e = ctx.raises(lambda: f(w, ref, p), exc.InputError)
    ctx.check_eq(w, np.array(v, dtype=object), 'the array of the caller is modified')
    if not ok or k == 0:
        ctx.check(e is not None, 'impossible percentage accepted' if not ok else 'a baseline without any sample is not reported')
        ctx.reach('rejected')
        return
    ctx.check(e is None, 'valid percentage rejected')
    ctx.check_eq(b, sum(v[ref][:k]) / k, 'baseline')
    ctx.reach('done')


class M:
    pass


def treat(ctx, T, np_, nb, rbn, sx, counts=False):
    """baseline, rebinning, clipping and the update of the machine"""
    ctx.hooks['fork_ite'] = True
    ref = ctx.concrete(ctx.int('ref', 0, np_ - 1))
    some = lambda i, j: (i * 7 + j) % (11 if nb < 30 else 23) == 0
    if counts:
        ctx.hooks['int_cast'] = True
        w = ctx.ints('w', (np_, nb), -100, 1000)
        for i, j in np.ndindex(np_, nb):
            if not some(i, j):
                ctx.assume(w[i, j] == (j * j + 3 * i) % 7 - 1)
    else:
        w = ctx.array([[ctx.real(f'w{i}_{j}') if some(i, j) else ctx.const((j * j + 3 * i) % 7) - 1 for j in range(nb)] for i in range(np_)])
    v = rows(w)
    m = M()
    m.nprofiles, m.nbins, m.beam_ref_frame = np_, nb, ref
    m.dtbin, m.synch_part_x = ctx.real('olddt', positive=True), ctx.real('msx')
    dt = ctx.real('dt', positive=True)
    s = ctx.real('sx')
    msx = m.synch_part_x
    exc = T.mod('exceptions')
    f = T.mod('utils.tomo_input').raw_data_to_profiles
    k = nb // 20
    base = sum(v[ref][:k]) / k
    q, rest = divmod(nb, rbn)
    exp = [[] for _ in range(np_)]
    for i in range(np_):
        for j in range(q):
            exp[i].append(sum(v[i][j * rbn:(j + 1) * rbn]) - rbn * base)
        if rest:
            i0 = (q - 1) * rbn
            exp[i].append((sum(v[i][i0:]) - (nb - i0) * base) * ctx.const(rbn) / (nb - i0))
    pos = [[bool(x > 0) for x in r] for r in exp]
    p, e = ctx.raises(lambda: f(w, m, rbn, dt, s) if sx else f(w, m, rbn, dt), exc.WaterfallReducedToZero)
    ctx.check_eq(w, np.array(v, dtype=object), 'the waterfall of the caller is modified')
    if not any(any(r) for r in pos):
        ctx.check(e is not None, 'a measurement without signal is not reported')
        return
    ctx.check(e is None, 'a measurement with signal is rejected')
    n = q + (1 if rest else 0)
    ctx.check(np.shape(p.waterfall) == (np_, n), 'shape of the waterfall')
    for i in range(np_):
        for j in range(n):
            ctx.check_eq(p.waterfall[i, j], exp[i][j] if pos[i][j] else 0, 'treated sample')
    ctx.check(m.nbins == n, 'number of bins of the machine')
    ctx.check_eq(m.dtbin, dt * rbn, 'bin size of the machine')
    ctx.check_eq(m.synch_part_x, (s if sx else msx) / rbn, 'synchronous point of the machine')
    ctx.check_eq(p.sampling_time, dt, 'original sampling time')
    ctx.check(p.machine is m, 'machine of the profiles')
    ctx.reach('done')


def cut(ctx, T, np_, nb, how):
    w = ctx.reals('w', (np_, nb))
    v = rows(w)
    a = ctx.concrete(ctx.int('left', -2, nb + 1))
    b = ctx.concrete(ctx.int('right', -nb - 2, nb + 2))
    end = b if b >= 0 else nb + b
    ok = 0 <= a < end <= nb and -nb <= b
    r, e = ctx.raises(lambda: T.mod('data.pre_process').cut_waterfall(v if how == 'list' else w, a, b), ValueError)
    ctx.check((e is None) == ok, 'impossible cuts accepted' if e is None else 'valid cuts rejected')
    if e is None:
        ctx.check(np.shape(r) == (np_, end - a), 'shape of the cut waterfall')
        for i in range(np_):
            for j in range(a, end):
                ctx.check_eq(r[i, j - a], v[i][j], 'sample of the cut waterfall')
        ctx.reach('done')
    else:
        ctx.reach('rejected')


def find(ctx, T, np_, nb, margin, thr):
    """the cuts enclose every step above the threshold plus the margin and stay inside the profile"""
    ctx.hooks['fork_ite'] = True
    w = ctx.reals('w', (np_, nb))
    v = rows(w)
    d = [0] * (nb - 1)
    for j in range(nb - 1):
        for i in range(np_):
            x = v[i][j + 1] - v[i][j]
            d[j] = d[j] + (x if bool(x >= 0) else -x)
    lo = hi = d[0]
    for x in d[1:]:
        lo = x if bool(x < lo) else lo
        hi = x if bool(x > hi) else hi
    if thr:
        t = ctx.real('thr', positive=True)
        r = T.mod('data.pre_process').get_cuts(w, threshold=t, margin=margin)
    else:
        t = (hi - lo) * 0.3
        r = T.mod('data.pre_process').get_cuts(w, margin=margin)
    act = [j for j in range(nb - 1) if bool(d[j] - lo > t)]
    ctx.check_eq(w, np.array(v, dtype=object), 'the array of the caller is modified')
    l, u = r
    ctx.check(0 <= l < u <= nb, f'cuts {l}, {u} of a profile of {nb} bins')
    if act:
        ctx.check(l <= max(act[0] - margin, 0), 'the left cut removes signal or margin')
        ctx.check(u >= min(act[-1] + 2 + margin, nb), 'the right cut removes signal or margin')
        ctx.reach('active')
    else:
        ctx.check(l == 0 and u == nb, 'cuts without any signal')


def noise(ctx, T, np_, nb, xp, rec):
    ctx.hooks['fork_ite'] = True
    w = ctx.array([[ctx.real(f'w{i}_{j}', lo=0) if j == i % nb else ctx.const((i + j) % 3) for j in range(nb)] for i in range(np_)])
    v = rows(w)
    tot = sum(sum(r) for r in v)
    ctx.assume(tot > 0)
    s = [sum(r) for r in v]
    mx = mn = s[0]
    for x in s[1:]:
        mx = x if bool(x > mx) else mx
        mn = x if bool(x < mn) else mn
    good = [i for i in range(np_) if bool(s[i] > mx - mn - tot / np_)]
    if not good:
        return
    f = T.mod('data.pre_process').filter_profiles
    a = []
    if xp:
        x, y = ctx.reals('x', (2, np_)), ctx.reals('y', (2, np_))
        a = [x, y]
    k = {}
    if rec:
        k['rec_prof'] = good[ctx.concrete(ctx.int('rec', 0, len(good) - 1))]
    r, e = ctx.raises(lambda: f(w, *a, **k), ValueError)
    ctx.check(e is None, 'a kept profile cannot be the reconstructed one')
    ctx.check(len(r) == 1 + (2 if xp else 0) + (1 if rec else 0), 'number of results')
    ctx.check_eq(w, np.array(v, dtype=object), 'the array of the caller is modified')
    ctx.check(np.shape(r[0]) == (len(good), nb), 'number of profiles kept')
    for i, g in enumerate(good):
        for j in range(nb):
            ctx.check_eq(r[0][i, j] * tot, v[g][j], 'profile kept')
    if xp:
        for o, src in ((r[1], x), (r[2], y)):
            ctx.check(np.shape(o) == (2, len(good)), 'frames of the coordinates kept')
            for i, g in enumerate(good):
                for q in range(2):
                    ctx.check_eq(o[q, i], src[q, g], 'coordinate kept')
    if rec:
        ctx.check(good[r[-1]] == k['rec_prof'], f'the reconstructed profile {k["rec_prof"]} becomes {r[-1]} when {good} are kept')
    for bad in ((w, w, None), (w, None, w)):
        _, e = ctx.raises(lambda: f(*bad), ValueError)
        ctx.check(e is not None, 'one of two coordinates accepted')
    ctx.reach('done')


def instances(tier):
    out = []
    th = tier == 'thorough'
    b = 60 if tier == 'quick' else 900
    for np_, nb in [(1, 1), (2, 4), (3, 8)] + ([(2, 16)] if th else []):
        out.append(Instance(f'baseline-{np_}x{nb}', baseline, dict(np_=np_, nb=nb, dflt=False), budget=b, reach=['done', 'rejected'], weight=nb))
    for np_, nb in [(2, 19), (1, 20), (2, 41)]:
        out.append(Instance(f'baseline-default-{np_}x{nb}', baseline, dict(np_=np_, nb=nb, dflt=True), budget=b, reach=['rejected' if nb < 20 else 'done']))
    for np_, nb, rbn, sx in [(1, 20, 4, True), (2, 21, 4, False), (2, 40, 10, True)] + ([(2, 45, 7, False), (3, 60, 20, True)] if th else []):
        out.append(Instance(f'treat-{np_}x{nb}-r{rbn}-{"sx" if sx else "own"}', treat, dict(np_=np_, nb=nb, rbn=rbn, sx=sx), budget=b, reach=['done'],
                            weight=100))
    out.append(Instance('treat-counts', treat, dict(np_=2, nb=21, rbn=2, sx=False, counts=True), budget=200, reach=['done'], weight=2))
    for np_, nb, how in [(1, 1, 'array'), (2, 3, 'array'), (2, 4, 'list'), (3, 5, 'array')]:
        out.append(Instance(f'cut-{how}-{np_}x{nb}', cut, dict(np_=np_, nb=nb, how=how), budget=b, reach=['done', 'rejected'], weight=nb * nb))
    for np_, nb, margin, thr in ([(1, 2, 0, True), (1, 4, 0, True), (1, 4, 1, True), (1, 5, 2, True), (1, 3, 1, False), (1, 4, 0, False), (2, 3, 0, True)]
                                 + ([(1, 6, 1, False), (2, 4, 1, True)] if th else [])):
        out.append(Instance(f'find-{np_}x{nb}-m{margin}-{"thr" if thr else "auto"}', find, dict(np_=np_, nb=nb, margin=margin, thr=thr), budget=b,
                            reach=['active'] if nb > 2 else [], weight=4 ** (np_ * nb) // 4))
    for np_, nb, xp, rec in [(1, 2, False, True), (2, 2, True, True), (3, 2, True, False), (3, 2, False, True), (4, 2, True, True)]:
        out.append(Instance(f'noise-{np_}x{nb}-{"xy" if xp else ""}{"r" if rec else ""}', noise, dict(np_=np_, nb=nb, xp=xp, rec=rec), budget=b,
                            reach=['done'], weight=3 ** np_))
    return out
