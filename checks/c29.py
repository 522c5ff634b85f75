"""beam quality measures of a symbolic phase space are compared with their definitions and with each other"""
from .common import *

UNITS = ['post_process.post_process', 'post_process.emittance_rms (both signatures)', 'post_process.emittance_90', 'post_process.emittance_fractional',
         'post_process.rms_dpp (both signatures)', 'post_process._std_from_histogram']
BOUNDS = 'phase spaces of up to 2x3 bins (thorough: 3x3 for the standard deviations), all cells, bins and energies symbolic; fraction: any number'
OUTSIDE = 'larger images; rounding (with a fraction of 100 the cumulative sum may miss the total by rounding)'
ASSUMPTIONS = ['exact real arithmetic', 'bins are equidistant']


def bins(ctx, name, n):
    a, d = ctx.real(name + '0', lo=-5, hi=5), ctx.real('d' + name, lo=0.1, hi=3)
    return ctx.array([a + i * d for i in range(n)]), a, d


def cells(ctx, a, b, k=None):
    w = ctx.array([[ctx.real(f'w{i}_{j}', lo=0, hi=9) for j in range(b)] for i in range(a)])
    ctx.assume(sum(sum(r) for r in rows(w)) > 0.5)
    return w


def std2(h, x, d):
    """squared standard deviation of a histogram"""
    s = sum(h)
    c = [v + d / 2 for v in x]
    mu = sum(p * q for p, q in zip(c, h)) / s
    return sum(p * (q - mu) ** 2 for p, q in zip(h, c)) / s


def unsummed2(h, x, d):
    """the recorded defect: the mean is replaced, in each bin, by its contribution to it"""
    s = sum(h)
    c = [v + d / 2 for v in x]
    return sum(p * (q - q * p / s) ** 2 for p, q in zip(h, c)) / s


def summed(ctx, pp):
    s = pp._std_from_histogram(ctx.array([ctx.const(1), ctx.const(1)]), ctx.array([ctx.const(0), ctx.const(2)]))
    return (not is_sym(ctx) or s.const()) and bool(s == 1)


def deviation(ctx, T, n, two):
    """standard deviation, through the RMS emittance of a phase space whose other axis has none of its own"""
    ctx.hooks['lazy'] = True
    pp = T.mod('data.post_process')
    h = ctx.reals('h', n, lo=0, hi=9)
    ctx.assume(sum(h) > 0.5)
    x, _, d = bins(ctx, 'x', n)
    E, m = ctx.real('E', lo=20, hi=30), ctx.real('m', lo=1, hi=5)
    hh, xx = (h.reshape(1, n), x.reshape(1, n)) if two else (h, x)
    r = pp.rms_dpp(hh, xx, E, m)
    p = ctx.rsqrt(E * E - m * m)
    # ((1 + r) p)^2 + m^2 = (E + std)^2
    s2 = std2(list(h), list(x), d)
    k = ((1 + r) * p) ** 2 + m * m
    cases = [(s2, 'standard deviation of a histogram')]
    if not summed(ctx, pp):
        cases = [(unsummed2(list(h), list(x), d), 'standard deviation of a histogram'), (s2, 'the mean of a histogram is not summed up')]
    for v, label in cases:
        if is_sym(ctx):
            ctx.check_eq(k, (E + ctx.rsqrt(v)) ** 2, label)
        else:
            ctx.check(abs(k - (E + v ** 0.5) ** 2) <= 1e-6 * k, label)
    ctx.reach('done')


def dpp(ctx, T):
    ctx.hooks['lazy'] = True
    pp = T.mod('data.post_process')
    s, E, m = ctx.real('s', lo=0, hi=9), ctx.real('E', lo=6, hi=30), ctx.real('m', lo=0.1, hi=5)
    r = pp.rms_dpp(s, E, m)
    ctx.check_eq(((1 + r) ** 2) * (E * E - m * m), (E + s) ** 2 - m * m, 'relative momentum spread')
    ctx.check_eq(pp.emittance_rms(s, E), ctx.const(np.pi) * s * E, 'RMS emittance of two deviations')
    ctx.reach('done')


def scaling(ctx, T, n):
    """the deviation does not depend on the number of charges and has the unit of the bins"""
    ctx.hooks['lazy'] = True
    pp = T.mod('data.post_process')
    h = ctx.reals('h', n, lo=0, hi=9)
    ctx.assume(sum(h) > 0.5)
    x, _, d = bins(ctx, 'x', n)
    k = ctx.real('k', lo=0.5, hi=4)
    a = pp._std_from_histogram(h, x)
    v, u = list(h), list(x)
    b = pp._std_from_histogram(ctx.array([k * t for t in h]), x)
    c = pp._std_from_histogram(h, ctx.array([k * t for t in x]))
    ctx.check_eq(b * b, a * a, 'the deviation depends on the charge')
    ctx.check_eq(c * c, k * k * a * a, 'the deviation does not scale with the bins')
    ctx.check_eq(h, np.array(v, dtype=object if is_sym(ctx) else float), 'the histogram is modified')
    ctx.check_eq(x, np.array(u, dtype=object if is_sym(ctx) else float), 'the bins are modified')
    ctx.reach('done')


def combined(ctx, T, a, b):
    """each value of the summary is that of the single functions, of the right axis"""
    ctx.hooks['lazy'] = True
    pp = T.mod('data.post_process')
    w = cells(ctx, a, b)
    v = rows(w)
    t, t0, dt = bins(ctx, 't', a)
    e, e0, de = bins(ctx, 'e', b)
    E, m = ctx.real('E', lo=20, hi=30), ctx.real('m', lo=1, hi=5)
    tp = ctx.array([sum(r) for r in v])
    ep = ctx.array([sum(r[j] for r in v) for j in range(b)])
    st, se = pp._std_from_histogram(tp, t), pp._std_from_histogram(ep, e)
    em = pp.emittance_rms(w, t, e)
    ctx.check_eq(em, ctx.const(np.pi) * st * se, 'RMS emittance of a phase space')
    r = pp.rms_dpp(ep, e, E, m)
    r2 = pp.rms_dpp(se, E, m)
    ctx.check_eq(r, r2, 'momentum spread of a projection')
    ctx.check_eq(w, np.array(v, dtype=object if is_sym(ctx) else float), 'the phase space is modified')
    ctx.reach('done')


def summary(ctx, T, a, b, mass):
    ctx.hooks['lazy'] = True
    pp = T.mod('data.post_process')
    vals = [[(3 * i + 2 * j * j + 1) % 7 for j in range(b)] for i in range(a)]
    w = ctx.array([[ctx.const(x) for x in r] for r in vals])
    i, j = ctx.concrete(ctx.int('i', 0, a - 1)), ctx.concrete(ctx.int('j', 0, b - 1))
    w[i, j] = ctx.real('w', lo=0, hi=9)
    v = rows(w)
    t, t0, dt = bins(ctx, 't', a)
    e, e0, de = bins(ctx, 'e', b)
    E = ctx.real('E', lo=20, hi=30)
    if mass:
        m = ctx.real('m', lo=1, hi=5)
        o = pp.post_process(w, t, e, E, m)
    else:
        m = pp.m_p
        ctx.check(abs(m - 938272088) < 100, 'default mass')
        E = E * ctx.const(1e9)
        o = pp.post_process(w, t, e, E)
    ctx.check(set(o) == {'emittance_rms', 'emittance_90', 'rms_dp/p'}, 'keys')
    ctx.check_eq(o['emittance_rms'], pp.emittance_rms(w, t, e), 'RMS emittance of the summary')
    ctx.check_eq(o['emittance_90'], pp.emittance_fractional(w, t, e, fraction=90), '90 % emittance of the summary')
    ctx.check_eq(o['rms_dp/p'], pp.rms_dpp(ctx.array([sum(r[k] for r in v) for k in range(b)]), e, E, m), 'momentum spread of the summary')
    ctx.check_eq(w, np.array(v, dtype=object if is_sym(ctx) else float), 'the phase space is modified')
    ctx.reach('done')


def fraction(ctx, T, a, b, default):
    """k cells hold less than the fraction, k + 1 of the densest cells at least that much"""
    ctx.hooks['fork_ite'] = True
    pp = T.mod('data.post_process')
    w = cells(ctx, a, b)
    v = rows(w)
    t, t0, dt = ctx.array([ctx.const(1 + i / 2) for i in range(a)]), 1, 0.5
    e, e0, de = bins(ctx, 'e', b)
    if default == 'given':
        f = ctx.real('f', lo=-50, hi=150)
        r, ex = ctx.raises(lambda: pp.emittance_fractional(w, t, e, fraction=f), ValueError)
        ctx.check(ctx.And(f >= 0, f <= 100) if ex is None else ctx.Or(f < 0, f > 100), 'impossible fraction')
        if ex is not None:
            return ctx.reach('rejected')
        f = f / 100
    else:
        f = ctx.const(0.9)
        r = pp.emittance_90(w, t, e) if default == '90' else pp.emittance_fractional(w, t, e)
    if not is_sym(ctx):
        s = sorted(np.ravel(w) / np.sum(w), reverse=True)
        c = np.cumsum(s)
        ctx.assume(np.all(np.abs(c - f) > 1e-9) and f < 1 - 1e-9)
    tot = sum(sum(x) for x in v)
    flat = sum(v, [])
    k = r / (de * dt)
    n = len(flat)
    # k is a whole number of cells
    kk = None
    for q in range(n + 1):
        if bool(k == q) if is_sym(ctx) else abs(k - q) < 1e-6:
            kk = q
            break
    ctx.check(kk is not None, 'the emittance is not a whole number of cells')
    # the kk densest cells hold less than the fraction (kk = 0: nothing), one more holds at least that
    import itertools
    ctx.check(kk < n, 'more cells than there are')
    if kk:
        ctx.check(ctx.And(*[sum(x) < f * tot for x in itertools.combinations(flat, kk)]), 'fewer cells hold the fraction already')
    ctx.check(ctx.Or(*[sum(x) >= f * tot for x in itertools.combinations(flat, kk + 1)]), 'the cells do not hold the fraction')
    ctx.check_eq(w, np.array(v, dtype=object if is_sym(ctx) else float), 'the phase space is modified')
    ctx.reach('done')


def mismatch(ctx, T):
    pp = T.mod('data.post_process')
    exc = T.mod('exceptions')
    a, b = ctx.concrete(ctx.int('a', 2, 4)), ctx.concrete(ctx.int('b', 2, 4))
    h, x = ctx.reals('h', a, lo=1, hi=2), ctx.reals('x', b, lo=1, hi=2)
    ctx.hooks['lazy'] = True
    _, e = ctx.raises(lambda: pp.rms_dpp(h, x, ctx.const(9), ctx.const(1)), exc.UnequalArrayShapes)
    ctx.check((e is None) == (a == b), 'projection and bins of different length')
    ctx.reach('done')


def instances(tier):
    th = tier == 'thorough'
    bd = 90 if not th else 900
    o = []
    for n, two in [(2, False), (3, False), (3, True)] + ([(5, False)] if th else []):
        o.append(Instance(f'deviation-{n}{"-row" if two else ""}', deviation, dict(n=n, two=two), budget=bd, rtol=1e-6, atol=1e-9))
    o.append(Instance('dpp', dpp, {}, budget=bd, reach=['done'], rtol=1e-6, atol=1e-9))
    for n in [2, 3] + ([4] if th else []):
        o.append(Instance(f'scaling-{n}', scaling, dict(n=n), budget=bd, reach=['done'], rtol=1e-6, atol=1e-9))
    for a, b in [(2, 2), (2, 3)] + ([(3, 3)] if th else []):
        o.append(Instance(f'combined-{a}x{b}', combined, dict(a=a, b=b), budget=bd, reach=['done'], rtol=1e-6, atol=1e-9))
    for a, b, m in [(2, 2, True), (2, 3, False)]:
        o.append(Instance(f'summary-{a}x{b}{"" if m else "-proton"}', summary, dict(a=a, b=b, mass=m), budget=bd, reach=['done'], rtol=1e-6, atol=1e-9))
    for a, b, d in [(2, 2, 'given'), (2, 2, '90'), (2, 2, 'default')] + ([(3, 2, '90')] if th else []):
        o.append(Instance(f'fraction-{a}x{b}-{d}', fraction, dict(a=a, b=b, default=d), budget=bd, reach=['done'] + (['rejected'] if d == 'given' else []), weight=4))
    o.append(Instance('mismatch', mismatch, {}, budget=bd, reach=['done']))
    return o
