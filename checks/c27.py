"""the output files are written from symbolic arrays and read back: every field stands for the value the reader expects at that place, with the precision
of the format"""
import io
import os
import re
import shutil
import tempfile
from contextlib import redirect_stdout
from .common import *

UNITS = ['compat.fortran.save_profile', 'compat.fortran.save_self_volt_profile', 'compat.fortran.save_phase_space', 'compat.fortran.save_difference',
         'compat.fortran.write_plotinfo', 'compat.fortran.print_tracking_status', 'compat.tomoscope.save_profile', 'compat.tomoscope.save_image',
         'compat.tomoscope.save_difference', 'tomo_output.*_ftn', 'tomo_output.create_phase_space_image']
BOUNDS = ('all written values symbolic; images of up to 4x4 bins, profiles of up to 5 bins, up to 12 frames and 13 iterations; frame numbers 0-11, 98-100 and 998-1000; '
          'plot info: every frame of up to 3 and 1-3 turns per frame')
OUTSIDE = 'larger arrays; the decimal conversion itself (decided by its format only); errors of the file system'
ASSUMPTIONS = ['a format keeps the precision it keeps for a set of probes']
FILMS = list(range(12)) + [98, 99, 100, 998, 999, 1000]


class O:
    def __init__(self, **k):
        self.__dict__.update(k)


def near(ctx, s, x, label, rel=1e-6, tol=0.0):
    """the text s stands for the value x"""
    if is_sym(ctx):
        t, tok = ctx.parse(s)
        if t != '{}':
            try:
                v = float(s)
            except ValueError:
                return ctx.check(False, label)
            return ctx.check(ctx.And(v - x <= 2 * tol + 2 * rel * abs(v), x - v <= 2 * tol + 2 * rel * abs(v)), label)
        v, spec = tok[0]
        ctx.check_eq(v, x, label)
        for p in (1.23456789e-3, -987.654321, 0.5) + (() if tol else (4.56789123e-11, -7.65432198e15)):
            ctx.check(abs(float(format(p, spec)) - p) <= rel * abs(p) + tol, 'precision of ' + label)
    else:
        try:
            v = float(s)
        except ValueError:
            v = float('nan')
        ctx.check(abs(v - x) <= rel * abs(x) * 1.01 + tol * 1.01 + 1e-300, label)


def column(ctx, d, name, vals, label, index=False):
    fs = os.listdir(d)
    ctx.check(fs == [name], 'name of the file of ' + label)
    with open(os.path.join(d, name)) as f:
        t = f.read()
    ls = [x.split() for x in t.splitlines()]
    ctx.check(len(ls) == len(vals) and t.endswith('\n'), 'number of lines of ' + label)
    for i, (l, v) in enumerate(zip(ls, vals)):
        ctx.check(len(l) == (2 if index else 1), 'number of columns of ' + label)
        if index:
            ctx.check(l[0] == str(i), 'iteration number')
        near(ctx, l[-1], v, label)


def out(ctx, name, f, vals, label, index=False):
    d = tempfile.mkdtemp(prefix='c27-')
    try:
        old = ctx.concrete(ctx.int('old', 0, 1))
        if old:
            with open(os.path.join(d, name), 'w') as g:          # output of an earlier run
                g.write(' 9.0000000E+00\n' * 40)
        f(d)
        column(ctx, d, name, vals, label, index)
    finally:
        shutil.rmtree(d)


def film(ctx, n=None):
    k = [x for x in FILMS if n is None or x < n]
    return k[ctx.concrete(ctx.int('film', 0, len(k) - 1))]


def profile(ctx, T, how, nprof, nb):
    k = film(ctx, nprof)
    w = ctx.reals('w', (nprof, nb))
    v = rows(w)
    ftn, scope, to = T.mod('compat.fortran'), T.mod('compat.tomoscope'), T.mod('utils.tomo_output')
    f = {'fortran': lambda d: ftn.save_profile(w, k, d), 'wrapper': lambda d: to.save_profile_ftn(w, k, d), 'scope': lambda d: scope.save_profile(w[k], k, d)}[how]
    out(ctx, f'profile{k + 1:03d}.data', f, v[k], 'profile')
    ctx.check_eq(w, np.array(v, dtype=object if is_sym(ctx) else float), 'the profiles are modified')
    ctx.reach('done')


def volts(ctx, T, how, nprof, nb):
    w = ctx.reals('w', (nprof, nb))
    v = rows(w)
    f = {'fortran': lambda d: T.mod('compat.fortran').save_self_volt_profile(w, d), 'wrapper': lambda d: T.mod('utils.tomo_output').save_self_volt_profile_ftn(w, d)}[how]
    out(ctx, 'vself.data', f, sum(v, []), 'self-field voltage')
    ctx.reach('done')


def image(ctx, T, how, nb):
    k = film(ctx)
    w = ctx.reals('w', (nb, nb))
    v = rows(w)
    f = {'fortran': lambda d: T.mod('compat.fortran').save_phase_space(w, k, d), 'wrapper': lambda d: T.mod('utils.tomo_output').save_phase_space_ftn(w, k, d)}[how]
    out(ctx, f'image{k + 1:03d}.data', f, sum(v, []), 'image')
    ctx.reach('done')


def diff(ctx, T, how, n):
    k = film(ctx)
    w = ctx.reals('w', n)
    ftn, scope, to = T.mod('compat.fortran'), T.mod('compat.tomoscope'), T.mod('utils.tomo_output')
    f = {'fortran': lambda d: ftn.save_difference(w, d, k), 'wrapper': lambda d: to.save_difference_ftn(w, d, k), 'scope': lambda d: scope.save_difference(w, d, k)}[how]
    out(ctx, f'd{k + 1:03d}.data', f, list(w), 'discrepancy', True)
    ctx.reach('done')


def particles(ctx, T, npart, nprof, nb):
    """the picture of weighted particles at one frame"""
    ctx.hooks['fork_index'] = ctx.hooks['fork_ite'] = True
    k = ctx.concrete(ctx.int('film', 0, nprof - 1))
    xy = []
    for n in 'xy':
        a = ctx.ints(n, (npart, nprof), 0, nb - 1)
        c = [[ctx.concrete(a[i, j]) if j == k else (3 * i + j) % nb for j in range(nprof)] for i in range(npart)]
        xy.append(c)
    wt = ctx.reals('w', npart, lo=-9, hi=9)
    pic = [[0] * nb for _ in range(nb)]
    for i in range(npart):
        a, b = xy[0][i][k], xy[1][i][k]
        pic[a][b] = pic[a][b] + wt[i]
    pic = [(x if bool(x > 0) else 0) for r in pic for x in r]
    tot = sum(pic)
    ctx.assume(tot > 0.01)
    vals = [x / tot for x in pic]
    arr = [ctx.array(np.array(c, dtype=float).tolist()) if is_sym(ctx) else np.array(c, dtype=float) for c in xy]
    out(ctx, f'image{k + 1:03d}.data', lambda d: T.mod('compat.tomoscope').save_image(arr[0], arr[1], wt, nb, k, d), vals, 'image')
    ctx.reach('done')


def plotinfo(ctx, T, nprof, dt, how):
    k = ctx.concrete(ctx.int('film', 0, nprof - 1))
    fit = ctx.concrete(ctx.int('fit', 0, 4))           # which part of the fit is missing (3: none, 4: no attributes)
    miss = ctx.concrete(ctx.int('miss', 0, 3))
    v = {n: ctx.real(n, lo=-1000, hi=1000) for n in ('dtbin', 'dEbin', 'charge', 'x0', 'y0', 'low', 'up', 'fx')}
    n = {m: ctx.int(m, 0, 5000) for m in ('nprofiles', 'nbins', 'imin', 'imax')}
    m = O(filmstart=k, dturns=dt, nprofiles=n['nprofiles'], nbins=n['nbins'], dtbin=v['dtbin'], synch_part_x=v['x0'], synch_part_y=v['y0'],
          phi0=ctx.reals('phi0', (nprof - 1) * dt + 1, lo=-4, hi=4))
    if fit < 4:
        m.bunchlimit_low, m.bunchlimit_up, m.fitted_synch_part_x = [None if fit == i else v[x] for i, x in enumerate(('low', 'up', 'fx'))]
    p = O(dEbin=None if miss == 1 else v['dEbin'], imin=None if miss == 2 else n['imin'], imax=None if miss == 3 else n['imax'])
    exc = T.mod('exceptions')
    f = T.mod('compat.fortran').write_plotinfo if how == 'fortran' else T.mod('utils.tomo_output').write_plotinfo_ftn
    s, e = ctx.raises(lambda: f(m, p, v['charge']), exc.EnergyBinningError, exc.PhaseLimitsError)
    if miss:
        ctx.check(isinstance(e, exc.EnergyBinningError if miss == 1 else exc.PhaseLimitsError), 'missing values are not reported')
        return ctx.reach('rejected')
    ctx.check(e is None, 'complete values are rejected')

    def get(key):
        g = re.findall(r'(?:^ ?|and )' + re.escape(key) + r' *= *(\S+)', s, re.M)
        ctx.check(len(g) == 1, f'{key} appears once')
        return g[0]
    z = [v[x] if fit == 3 else 0 for x in ('low', 'up', 'fx')]
    for key, x, rel, tol in [('profilecount', n['nprofiles'], 0, 0), ('profilelength', n['nbins'], 0, 0), ('dtbin', v['dtbin'], 1e-4, 0), ('dEbin', v['dEbin'], 1e-4, 0),
                             ('eperimage', v['charge'], 1e-3, 0), ('xat0', v['x0'], 0, 1e-3), ('yat0', v['y0'], 0, 1e-3), ('tangentfootl', z[0], 0, 1e-3),
                             ('tangentfootu', z[1], 0, 1e-3), ('fit xat0', z[2], 0, 1e-3), (f'phi0( {k + 1})', m.phi0[k * dt], 0, 1e-4),
                             (f'imin( {k + 1})', n['imin'], 0, 0), (f'imax( {k + 1})', n['imax'], 0, 0)]:
        if rel or tol:
            near(ctx, get(key), x, key, rel, tol)
        elif is_sym(ctx):
            t, tok = ctx.parse(get(key))
            ctx.check(t == '{}' and tok[0][1] in ('', 'd'), key)
            ctx.check_eq(tok[0][0], x, key)
        else:
            ctx.check(get(key) == str(int(x)), key)
    ctx.reach('done')


def status(ctx, T, how):
    a, b = ctx.int('a', 0, 5000), ctx.int('b', 0, 5000)
    o = io.StringIO()
    with redirect_stdout(o):
        (T.mod('compat.fortran').print_tracking_status if how == 'fortran' else T.mod('utils.tomo_output').print_tracking_status_ftn)(a, b)
    g = re.findall(r'from time slice +(\S+) to +([^\s,]+),', o.getvalue())
    ctx.check(len(g) == 1, 'tracking status')
    for s, x in zip(g[0], (a, b)):
        if is_sym(ctx):
            t, tok = ctx.parse(s)
            ctx.check(t == '{}', 'tracking status')
            ctx.check_eq(tok[0][0], x + 1, 'tracking status')
        else:
            ctx.check(s == str(x + 1), 'tracking status')
    ctx.reach('done')


def instances(tier):
    b = 90 if tier == 'quick' else 600
    o = []
    for how in ('fortran', 'wrapper', 'scope'):
        for nprof, nb in [(1, 2), (3, 5), (12, 2)] + ([(12, 9)] if tier == 'thorough' else []):
            o.append(Instance(f'profile-{how}-{nprof}x{nb}', profile, dict(how=how, nprof=nprof, nb=nb), budget=b, reach=['done']))
        for n in [1, 13] + ([120] if tier == 'thorough' else []):
            o.append(Instance(f'diff-{how}-{n}', diff, dict(how=how, n=n), budget=b, reach=['done'], weight=2))
        if how != 'scope':
            for nb in [1, 3] + ([6] if tier == 'thorough' else []):
                o.append(Instance(f'image-{how}-{nb}', image, dict(how=how, nb=nb), budget=b, reach=['done'], weight=2))
            o.append(Instance(f'vself-{how}', volts, dict(how=how, nprof=3, nb=4), budget=b, reach=['done']))
            o.append(Instance(f'status-{how}', status, dict(how=how), budget=b, reach=['done']))
            for nprof, dt in [(1, 1), (3, 2)] + ([(5, 3)] if tier == 'thorough' else []):
                o.append(Instance(f'plotinfo-{how}-{nprof}x{dt}', plotinfo, dict(how=how, nprof=nprof, dt=dt), budget=b, reach=['done', 'rejected']))
    for npart, nprof, nb in [(2, 2, 2), (1, 1, 4), (2, 1, 3)] + ([(3, 2, 2)] if tier == 'thorough' else []):
        o.append(Instance(f'particles-{npart}x{nprof}x{nb}', particles, dict(npart=npart, nprof=nprof, nb=nb), budget=b, reach=['done'], weight=4))
    return o
