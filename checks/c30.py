"""macroparticles are drawn with a symbolic random source (any admissible index, any number in [0, 1)) from a symbolic density"""
from .common import *

UNITS = ['data_treatment.density_to_macro', 'tomo_output.show']
BOUNDS = 'densities of 2x2 and 2x3 cells (thorough: 3x3), 1-2 macroparticles; densities, axes, threshold and the random numbers symbolic'
OUTSIDE = 'the distribution of the random numbers themselves (numpy); larger densities; rounding'
ASSUMPTIONS = ['exact real arithmetic', 'numpy.random.choice returns indices of non-vanishing probability, numpy.random.random numbers in [0, 1)']


class Rnd:
    """the random source: every admissible outcome in symbolic runs, the real one (recorded) in replays"""

    def __init__(self, ctx, real):
        self.ctx, self.real, self.p, self.n = ctx, real, [], 0

    def choice(self, a, size=None, replace=True, p=None, **k):
        ctx = self.ctx
        n = 1 if size is None else int(size)
        pool = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        ctx.check(p is not None and len(p) == len(pool), 'no probabilities given')
        self.p.append(list(p))
        if not is_sym(ctx):
            return self.real.choice(a, size, replace, p)
        out = []
        for i in range(n):
            k = ctx.concrete(ctx.int(f'pick{self.n}_{i}', 0, len(pool) - 1))
            ctx.assume(p[k] > 0)
            out.append(pool[k])
        self.n += 1
        return np.array(out) if size is not None else out[0]

    def random(self, size=None, *a, **k):
        ctx = self.ctx
        if not is_sym(ctx):
            return self.real.random(size)
        r = ctx.reals(f'u{self.n}', 1 if size is None else int(size), lo=0, hi=1)
        ctx.assume(ctx.And(*[x < 1 for x in r]))
        self.n += 1
        return r if size is not None else r[0]

    random_sample = ranf = sample = random

    def rand(self, *s):
        return self.random(*s)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def default_rng(self, *a):
        return self


def macro(ctx, T, a, b, n, thr):
    ctx.hooks['fork_ite'] = ctx.hooks['fork_index'] = True
    dtm = T.mod('data.data_treatment')
    t0, dt = ctx.real('t0', lo=-9, hi=9), ctx.const(0.5)
    e0, de = ctx.const(-3), ctx.real('de', lo=0.1, hi=3)
    t, e = ctx.array([t0 + i * dt for i in range(a)]), ctx.array([e0 + i * de for i in range(b)])
    d = ctx.array([[ctx.real(f'd{i}_{j}', lo=0, hi=9) for j in range(b)] for i in range(a)])
    v = rows(d)
    tot = sum(sum(r) for r in v)
    ctx.assume(tot > 0.5)
    if thr:
        th = ctx.real('thr', lo=0, hi=1 / (a * b))         # (never all of the cells)
    rnd = Rnd(ctx, None if is_sym(ctx) else dtm.np.random)
    cut = th if thr else ctx.const(1e-5)
    live = [[not bool(x < cut * tot) for x in r] for r in v]
    ctx.assume(any(any(r) for r in live))
    if not is_sym(ctx):
        ctx.assume(all(abs(x - cut * tot) > 1e-9 for r in v for x in r))
    old = dtm.np.random
    try:
        if is_sym(ctx):
            dtm.np.__dict__['random'] = rnd
        else:
            dtm.np.random = rnd
            rnd.real = old
        x, y = dtm.density_to_macro(t, e, d, ctx.const(n) if n == 1 else n, **(dict(threshold=th) if thr else {}))
    finally:
        if is_sym(ctx):
            del dtm.np.__dict__['random']
        else:
            dtm.np.random = old
    ctx.check(np.shape(x) == (n,) and np.shape(y) == (n,), 'number of macroparticles')
    left = sum(z for r, l in zip(v, live) for z, q in zip(r, l) if q)
    ctx.check(len(rnd.p) == 1, 'one draw')
    if len(rnd.p[0]) == a * b:
        for z, q, p in zip(sum(v, []), sum(live, []), rnd.p[0]):
            ctx.check_eq(p * left, z if q else 0, 'probability of a cell')
    tol = 0 if is_sym(ctx) else 1e-9
    for i in range(n):
        ok = [ctx.And(x[i] >= t[j] - dt / 2 - tol, x[i] <= t[j] + dt / 2 + tol, y[i] >= e[k] - de / 2 - tol, y[i] <= e[k] + de / 2 + tol)
              for j in range(a) for k in range(b) if live[j][k] and not (is_sym(ctx) and bool(v[j][k] == 0) or not is_sym(ctx) and v[j][k] == 0)]
        ctx.check(ctx.Or(*ok) if ok else False, 'a macroparticle lies in an empty cell')
    ctx.check_eq(d, np.array(v, dtype=object if is_sym(ctx) else float), 'the density is modified')
    ctx.reach('done')


class Ax:
    def __init__(self, log):
        self.log = log

    def plot(self, *a, **k):
        self.log.append((k.get('label'), [list(x) for x in a]))

    def imshow(self, im, **k):
        self.log.append(('image', [list(r) for r in im]))

    def __getattr__(self, n):
        return lambda *a, **k: None


class Fig:
    def __init__(self):
        self.log = []

    def add_subplot(self, *a, **k):
        return Ax(self.log)


def show(ctx, T, n, it):
    """the plot shows projections and profile, normalised, without changing the data"""
    im, d, p = ctx.reals('im', (n, n), lo=0, hi=9), ctx.reals('d', it, lo=0, hi=9), ctx.reals('p', n, lo=0, hi=9)
    ctx.assume(sum(p) > 0.5)
    vi, vd, vp = rows(im), list(d), list(p)
    f = Fig()
    T.mod('utils.tomo_output').show(im, d, p, f)
    o = object if is_sym(ctx) else float
    ctx.check_eq(im, np.array(vi, dtype=o), 'the image is modified')
    ctx.check_eq(d, np.array(vd, dtype=o), 'the discrepancies are modified')
    ctx.check_eq(p, np.array(vp, dtype=o), 'the profile is modified')
    g = {k: v for k, v in f.log if k}
    ctx.check_eq(np.array(g['image'], dtype=o), np.array([[vi[j][i] for j in range(n)] for i in range(n)], dtype=o), 'image')
    ctx.check_eq(np.array(g['reconstructed'][0], dtype=o), np.array([sum(r) for r in vi], dtype=o), 'reconstructed profile')
    ctx.check_eq(np.array(g['measured'][0], dtype=o), np.array([x / sum(vp) for x in vp], dtype=o), 'measured profile')
    ctx.check_eq(np.array(g['discrepancy'][0], dtype=o), np.array(vd, dtype=o), 'discrepancy')
    ctx.reach('done')


def instances(tier):
    th = tier == 'thorough'
    b = 90 if not th else 900
    o = []
    for x, y, n, thr in [(2, 2, 1, False), (2, 2, 1, True), (2, 2, 2, False), (2, 3, 1, True)] + ([(2, 3, 2, True), (3, 3, 1, False)] if th else []):
        o.append(Instance(f'macro-{x}x{y}-n{n}{"-threshold" if thr else ""}', macro, dict(a=x, b=y, n=n, thr=thr), budget=b, reach=['done'], weight=3))
    for n, it in [(2, 2), (3, 1)]:
        o.append(Instance(f'show-{n}-{it}', show, dict(n=n, it=it), budget=b, reach=['done']))
    return o
