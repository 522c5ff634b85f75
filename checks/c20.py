"""rebinning runs on symbolic profiles; each new bin is compared with the sum of the old bins it stands for"""
from .common import *

UNITS = ['data.pre_process.rebin', 'data.pre_process._rebin_dividable', 'data.pre_process._rebin_individable', 'data.pre_process._rebin_last',
         'data.data_treatment.rebin']
BOUNDS = '1-3 profiles, every number of bins up to 7 (thorough: 13) with every rebinning factor up to the number of bins plus two; samples (real or integer), bin size and synchronous point symbolic'
OUTSIDE = 'longer profiles; rounding'
ASSUMPTIONS = ['exact real arithmetic',
               'the incomplete last bin holds, as in the original program, the average density of the last full bin and the remainder']


def run(ctx, T, np_, nb, rbn, via, opt, counts=False):
    ctx.hooks['int_cast'] = counts
    w = ctx.ints('w', (np_, nb), -100, 1000) if counts else ctx.reals('w', (np_, nb))
    v = rows(w)
    f = T.mod('data.pre_process').rebin if via == 'pre' else T.mod('data.data_treatment').rebin
    dt, sx = ctx.real('dt'), ctx.real('sx')
    arg = v if opt == 'list' else w
    if opt == 'none':
        r = f(arg, rbn)
        ctx.check(len(r) == 2 and r[1] is None, 'number of results')
    elif opt == 'dt':
        r = f(arg, rbn, dt)
        ctx.check(len(r) == 2, 'number of results')
        ctx.check_eq(r[1], dt * rbn, 'new bin size')
    elif opt == 'sx':
        r = f(arg, rbn, synch_part_x=sx)
        ctx.check(len(r) == 3 and r[1] is None, 'number of results')
        ctx.check_eq(r[2], sx / rbn, 'new synchronous point')
    else:
        r = f(arg, rbn, dt, sx)
        ctx.check(len(r) == 3, 'number of results')
        ctx.check_eq(r[1], dt * rbn, 'new bin size')
        ctx.check_eq(r[2], sx / rbn, 'new synchronous point')
        ctx.check_eq(r[1] * r[2], dt * sx, 'the synchronous point moves in time')
    ctx.check_eq(w, np.array(v, dtype=object), 'the array of the caller is modified')
    q, rest = divmod(nb, rbn)
    n = q + (1 if rest else 0)
    if counts and rest:
        # (a path of its own, with a witness for the compiled numpy: the last bin holds no whole number)
        bool(sum(v[0][max(q - 1, 0) * rbn:]) == 1)
    ctx.check(np.shape(r[0]) == (np_, n), f'shape {np.shape(r[0])} instead of {(np_, n)}')
    for i in range(np_):
        for j in range(q):
            ctx.check_eq(r[0][i, j], sum(v[i][j * rbn:(j + 1) * rbn]), 'content of a full bin')
        if rest:
            i0 = max(q - 1, 0) * rbn
            ctx.check_eq(r[0][i, q], sum(v[i][i0:]) * ctx.const(rbn) / (nb - i0), 'content of the incomplete last bin')
        else:
            ctx.check_eq(sum(r[0][i]), sum(v[i]), 'the signal is not conserved')
    ctx.reach('done')


def instances(tier):
    out = []
    top = 7 if tier == 'quick' else 13
    for nb in range(1, top + 1):
        for rbn in range(1, nb + 3):
            for np_, via, opt in [(2, 'pre', 'both'), (1, 'data', 'both')] + ([(3, 'pre', 'list')] if nb == top else []):
                out.append(Instance(f'{via}-{opt}-{np_}x{nb}-r{rbn}', run, dict(np_=np_, nb=nb, rbn=rbn, via=via, opt=opt), budget=60, reach=['done']))
    for nb, rbn in [(4, 2), (5, 2)]:
        for opt in ('none', 'dt', 'sx'):
            out.append(Instance(f'args-{opt}-{nb}-r{rbn}', run, dict(np_=2, nb=nb, rbn=rbn, via='pre', opt=opt), budget=60, reach=['done']))
    # counts of a digitiser
    for nb, rbn in [(4, 1), (4, 2), (5, 2), (7, 3), (2, 3)]:
        for via in ('pre', 'data'):
            out.append(Instance(f'counts-{via}-{nb}-r{rbn}', run, dict(np_=2, nb=nb, rbn=rbn, via=via, opt='both', counts=True), budget=60, reach=['done']))
    return out
