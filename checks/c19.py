"""the shaping of raw data runs on symbolic samples for every combination of frame settings within the bounds; the accept/reject decision on settings
is taken on unbounded symbolic integers and compared with the documented ranges"""
from .common import *

UNITS = ['utils.tomo_input.Frames (constructor, raw_data, nprofs, nbins, to_waterfall)', 'assertions.assert_frame_inputs', 'assertions.assert_greater',
         'assertions.assert_inrange', 'assertions.assert_less', 'assertions.assert_greater_or_equal']
BOUNDS = ('settings: unbounded integers for the validation; shaping for up to 4 frames of up to 4 bins (thorough: 5 x 6) with every number of '
          'skipped frames and bins; all samples symbolic')
OUTSIDE = 'larger recordings; raw data that is not numeric'
ASSUMPTIONS = ['exact real arithmetic']
BIG = 10 ** 6


def valid(ctx, T):
    """accepted exactly when the settings describe a non-empty image"""
    exc = T.mod('exceptions')
    n, s, l, a, b, r = (ctx.int(k, -BIG, BIG) for k in ('frames', 'skip', 'length', 'start', 'end', 'rebin'))
    f = T.mod('utils.tomo_input').Frames(n, l, s, a, b, r, 1.0)
    ok = ctx.And(n > 0, s >= 0, s < n, l > 0, a >= 0, b >= 0, a + b < l, r >= 1)
    _, e = ctx.raises(lambda: T.mod('assertions').assert_frame_inputs(f), exc.InputError)
    ctx.check(ok if e is None else ctx.Not(ok), 'impossible frame settings accepted' if e is None else 'valid frame settings rejected')
    ctx.check(ctx.And(f.nprofs() == n - s, f.nbins() == l - a - b), 'number of profiles and bins')
    ctx.reach('accepted' if e is None else 'rejected')


def shape(ctx, T, nf, nl, how):
    exc = T.mod('exceptions')
    s = ctx.concrete(ctx.int('skip', -1, nf))
    a = ctx.concrete(ctx.int('start', -1, nl))
    b = ctx.concrete(ctx.int('end', -1, nl))
    f = T.mod('utils.tomo_input').Frames(nf, nl, s, a, b, 1, 1.0)
    d = ctx.reals('d', nf * nl)
    v = list(d)
    arg = v if how == 'list' else d
    ok = 0 <= s < nf and a >= 0 and b >= 0 and a + b < nl
    w, e = ctx.raises(lambda: f.to_waterfall(arg), exc.InputError)
    ctx.check((e is None) == ok, 'impossible frame settings accepted' if e is None else 'valid frame settings rejected')
    ctx.check_eq(d, np.array(v, dtype=object), 'the raw data of the caller are modified')
    if e is not None:
        ctx.reach('rejected')
        return
    ctx.check(np.shape(w) == (f.nprofs(), f.nbins()), 'shape of the waterfall')
    for i in range(nf - s):
        for j in range(nl - a - b):
            ctx.check_eq(w[i, j], v[(i + s) * nl + a + j], 'sample of the waterfall')
    # the result is a copy
    if how == 'array':
        w[0, 0] = w[0, 0] + 1
        ctx.check_eq(d, np.array(v, dtype=object), 'the waterfall shares the memory of the raw data')
    ctx.reach('accepted')


def length(ctx, T, nf, nl):
    """recordings of the wrong length are rejected, by the property and by to_waterfall"""
    exc = T.mod('exceptions')
    n = ctx.concrete(ctx.int('n', 0, nf * nl + 2))
    d = ctx.reals('d', n) if n else ctx.array([])
    v = list(d)
    fr = T.mod('utils.tomo_input').Frames
    f = fr(nf, nl, 0, 0, 0, 1, 1.0)
    ctx.check(f.raw_data is None, 'raw data before any were given')
    old = [float(k) for k in range(nf * nl)]
    f.raw_data = old
    _, e = ctx.raises(lambda: setattr(f, 'raw_data', d), exc.RawDataImportError)
    _, e2 = ctx.raises(lambda: f.to_waterfall(d), exc.RawDataImportError)
    ok = n == nf * nl
    ctx.check((e is None) == ok and (e2 is None) == ok, 'recording of the wrong length accepted' if not ok else 'recording of the right length rejected')
    ctx.check_eq(f.raw_data, np.array(v if ok else old, dtype=object), 'stored raw data')
    if ok:
        f.raw_data[0] = 123.0
        ctx.check_eq(f.raw_data, np.array(v, dtype=object), 'the stored raw data change through the returned copy')
        d[0] = d[0] + 1
        ctx.check_eq(f.raw_data, np.array(v, dtype=object), 'the stored raw data change with the array of the caller')
        ctx.reach('accepted')
    for bad in (5, None):
        _, e = ctx.raises(lambda: setattr(f, 'raw_data', bad), exc.RawDataImportError)
        _, e2 = ctx.raises(lambda: f.to_waterfall(bad), exc.RawDataImportError)
        ctx.check(e is not None and e2 is not None, 'raw data that is no sequence accepted')


def instances(tier):
    out = [Instance('settings', valid, {}, budget=120, reach=['accepted', 'rejected'])]
    b = 60 if tier == 'quick' else 600
    for nf, nl in [(1, 1), (2, 3), (3, 2), (4, 4)] + ([(5, 6), (1, 8), (8, 1)] if tier == 'thorough' else []):
        for how in ('array', 'list'):
            out.append(Instance(f'shape-{how}-{nf}x{nl}', shape, dict(nf=nf, nl=nl, how=how), budget=b, reach=['accepted', 'rejected'],
                                weight=nf * nl ** 2))
    for nf, nl in [(1, 1), (2, 2), (1, 3)]:
        out.append(Instance(f'length-{nf}x{nl}', length, dict(nf=nf, nl=nl), budget=b, reach=['accepted']))
    return out
