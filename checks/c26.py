"""every validation function decides about symbolic values; accepting and rejecting are compared with the documented relation, also in the error class
and the reported indices"""
import re
from .common import *

UNITS = ['assertions.assert_greater', 'assertions.assert_less', 'assertions.assert_equal', 'assertions.assert_not_equal', 'assertions.assert_less_or_equal',
         'assertions.assert_greater_or_equal', 'assertions.assert_inrange', 'assertions.assert_array_*', 'assertions._assert_log_arr',
         'assertions.assert_only_valid_particles', 'assertions.assert_fields', 'assertions.assert_var_not_none', 'assertions.assert_index_ok',
         'assertions.assert_machine_input', 'assertions.assert_array_shape_equal', 'assertions.assert_array_numel_equal', 'Machine.__init__']
BOUNDS = 'scalars: unbounded reals and integers; arrays of up to 4 elements (thorough: 6); indices and limits within +-1000; all 20 machine parameters symbolic at once'
OUTSIDE = 'not-a-number values; the wording of messages other than the reported indices'
ASSUMPTIONS = ['exact real arithmetic']


class Err(Exception):
    pass


def scalar(ctx, T, kind):
    a = T.mod('assertions')
    x, y, z = (ctx.real(k) for k in 'xyz') if kind == 'real' else (ctx.int(k, -10 ** 6, 10 ** 6) for k in 'xyz')
    which = ctx.concrete(ctx.int('which', 0, 6))
    f, ok = [(a.assert_greater, x > y), (a.assert_less, x < y), (a.assert_equal, x == y), (a.assert_not_equal, x != y), (a.assert_less_or_equal, x <= y),
             (a.assert_greater_or_equal, x >= y), (None, ctx.And(x >= y, x <= z))][which]
    if f is None:
        _, e = ctx.raises(lambda: a.assert_inrange(x, 'name', y, z, Err, 'more'), Err)
    else:
        _, e = ctx.raises(lambda: f(x, 'name', y, Err, 'more'), Err)
    ctx.check(ok if e is None else ctx.Not(ok), 'a scalar that breaks its limit is accepted' if e is None else 'a valid scalar is rejected')
    if e is not None:
        ctx.check('name' in str(e) and 'more' in str(e), 'the message names the parameter')
    ctx.reach('accepted' if e is None else 'rejected')


def array(ctx, T, n, which):
    a = T.mod('assertions')
    x = ctx.reals('x', n)
    v = list(x)
    lo, hi = ctx.real('lo'), ctx.real('hi')
    off = ctx.concrete(ctx.int('off', 0, 2))
    f, rel = {'in_range': (lambda: a.assert_array_in_range(x, lo, hi, Err, 'more', off), lambda t: ctx.And(t >= lo, t <= hi)),
              'greater': (lambda: a.assert_array_greater(x, lo, Err, 'more', off), lambda t: t > lo),
              'greater_eq': (lambda: a.assert_array_greater_eq(x, lo, Err, 'more', off), lambda t: t >= lo),
              'less': (lambda: a.assert_array_less(x, lo, Err, 'more', off), lambda t: t < lo),
              'less_eq': (lambda: a.assert_array_less_eq(x, lo, Err, 'more', off), lambda t: t <= lo)}[which]
    _, e = ctx.raises(f, Err)
    bad = [i for i in range(n) if not bool(rel(v[i]))]
    ctx.check((e is None) == (not bad), 'an array that breaks its limit is accepted' if e is None else 'a valid array is rejected')
    if e is not None:
        ctx.check('more' in str(e), 'the message of the caller is lost')
        m = re.search(r'\[([0-9\s]*)\]', str(e))
        got = [int(k) for k in m.group(1).split()] if m else None
        ctx.check(got == [i + off for i in bad], 'the error does not name the offending indices')
        ctx.reach('rejected')
    else:
        ctx.reach('accepted')


def neq(ctx, T, n):
    a = T.mod('assertions')
    x = ctx.reals('x', n)
    y = ctx.real('y')
    _, e = ctx.raises(lambda: a.assert_array_not_equal(x, 'name', y, Err, 'more'), Err)
    same = ctx.And(*[t == y for t in x])
    ctx.check(ctx.Not(same) if e is None else same, 'an array of one value' if e is None else 'a valid array is rejected')
    ctx.reach('accepted' if e is None else 'rejected')


def lost(ctx, T, n, m):
    a = T.mod('assertions')
    exc = T.mod('exceptions')
    x = ctx.reals('x', (n, m))
    nb = ctx.int('nb', 0, 1000)
    _, e = ctx.raises(lambda: a.assert_only_valid_particles(x, nb), exc.InvalidParticleError)
    ok = ctx.And(*[ctx.And(t >= 0, t < nb) for r in rows(x) for t in r])
    ctx.check(ok if e is None else ctx.Not(ok), 'particles outside of the image accepted' if e is None else 'valid particles rejected')
    ctx.reach('accepted' if e is None else 'rejected')


def index(ctx, T):
    a = T.mod('assertions')
    exc = T.mod('exceptions')
    i, n = ctx.int('i', -1000, 1000), ctx.int('n', 0, 1000)
    w = bool(ctx.concrete(ctx.int('wrap', 0, 1)))
    r, e = ctx.raises(lambda: a.assert_index_ok(i, n, w), IndexError, exc.NegativeIndexError)
    if e is None:
        ctx.check(ctx.And(r >= 0, r < n), 'index outside of the array returned')
        ctx.check(ctx.Or(r == i, ctx.And(i < 0, r == i + n)), 'another index returned')
        ctx.check(True if w else i >= 0, 'negative index accepted')
        ctx.reach('accepted')
    elif isinstance(e, exc.NegativeIndexError):
        ctx.check(not w, 'negative index rejected although wrapping around is allowed')
        ctx.check(i < 0, 'positive index rejected as negative')
        ctx.reach('negative')
    else:
        ctx.check(ctx.Or(i >= n, i < -n) if w else i >= n, 'valid index rejected')
        ctx.reach('bounds')


PAR = dict(dtbin=('real', 'gt'), dturns=('int', 'gt'), niter=('int', 'gt'), snpt=('int', 'gt'), machine_ref_frame=('int', 'ge'), beam_ref_frame=('int', 'ge'),
           h_num=('int', 'gt'), h_ratio=('real', 'ge'), b0=('real', 'gt'), mean_orbit_rad=('real', 'gt'), bending_rad=('real', 'gt'), e_rest=('real', 'gt'))


def make(ctx, T, mode, none=None):
    M = T.mod('tracking.machine').Machine
    m = M(dturns=1, vrf1=1.0, mean_orbit_rad=1.0, bending_rad=1.0, b0=1.0, trans_gamma=4.0, rest_energy=1.0, nprofiles=4, nbins=4, dtbin=1.0, vat_now=False)
    ok, sc = [], []
    for k, (t, r) in PAR.items():
        x = ctx.real(k) if t == 'real' else ctx.int(k, -10 ** 6, 10 ** 6)
        setattr(m, k, x)
        ok.append(x > 0 if r == 'gt' else x >= 0)
    a, b, s = (ctx.int(k, -10 ** 6, 10 ** 6) for k in ('filmstart', 'filmstop', 'filmstep'))
    m.filmstart, m.filmstop, m.filmstep = a, b, s
    ok.append(ctx.And(a >= 0, b >= a, s != 0, s <= b - a + 1, -s <= b - a + 1))
    for k in ('pickup_sensitivity', 'g_coupling'):
        if ctx.concrete(ctx.int('has_' + k, 0, 1)):
            x = ctx.real(k)
            setattr(m, k, x)
            sc.append(x >= 0)
        else:
            setattr(m, k, None)
    return m, ctx.And(*ok), ctx.And(*sc) if sc else ctx.And(a == a)


def machine(ctx, T):
    exc = T.mod('exceptions')
    m, ok, sc = make(ctx, T, 'all')
    _, e = ctx.raises(lambda: T.mod('assertions').assert_machine_input(m), exc.MachineParameterError, exc.SpaceChargeParameterError)
    if e is None:
        ctx.check(ctx.And(ok, sc), 'impossible machine parameters accepted')
        ctx.reach('accepted')
    elif isinstance(e, exc.SpaceChargeParameterError):
        ctx.check(ctx.Not(sc), 'valid self-field parameters rejected')
        ctx.reach('space charge')
    else:
        ctx.check(ctx.Not(ok), 'valid machine parameters rejected')
        ctx.reach('rejected')


def missing(ctx, T):
    """a parameter that is not given is reported as such"""
    exc = T.mod('exceptions')
    M = T.mod('tracking.machine').Machine
    m = M(dturns=1, vrf1=1.0, mean_orbit_rad=1.0, bending_rad=1.0, b0=1.0, trans_gamma=4.0, rest_energy=1.0, nprofiles=4, nbins=4, dtbin=1.0, vat_now=False)
    names = list(PAR) + ['filmstart', 'filmstop', 'filmstep']
    k = ctx.concrete(ctx.int('k', 0, len(names)))
    if k < len(names):
        setattr(m, names[k], None)
    _, e = ctx.raises(lambda: T.mod('assertions').assert_machine_input(m), exc.MachineParameterError)
    ctx.check((e is None) == (k == len(names)), 'missing parameter')
    ctx.reach('done')


class O:
    pass


def fields(ctx, T):
    a = T.mod('assertions')
    o = O()
    have = [ctx.concrete(ctx.int(f'f{i}', 0, 2)) for i in range(3)]
    for i, h in enumerate(have):
        if h:
            setattr(o, f'f{i}', None if h == 1 else ctx.real(f'v{i}'))
    _, e = ctx.raises(lambda: a.assert_fields(o, 'obj', ['f0', 'f1', 'f2'], Err, 'more'), Err)
    ctx.check((e is None) == all(h == 2 for h in have), 'missing field')
    if e is not None:
        first = next(i for i, h in enumerate(have) if h != 2)
        ctx.check(f'"f{first}"' in str(e) and 'obj' in str(e) and 'more' in str(e), 'the message names the missing field')
    _, e = ctx.raises(lambda: a.assert_var_not_none(None, 'v', Err), Err)
    ctx.check(e is not None, 'missing value')
    _, e = ctx.raises(lambda: a.assert_var_not_none(ctx.real('z'), 'v', Err), Err)
    ctx.check(e is None, 'given value rejected')
    ctx.reach('done')


def shapes(ctx, T):
    a = T.mod('assertions')
    exc = T.mod('exceptions')
    d = [ctx.concrete(ctx.int(f'd{i}', 1, 2)) for i in range(4)]
    x, y = zeros(ctx, (d[0], d[1])), zeros(ctx, (d[2], d[3]))
    _, e = ctx.raises(lambda: a.assert_array_shape_equal((x, y), ('first', 'second'), (2, 1), 'more'), exc.UnequalArrayShapes)
    b1, b2 = (d[0], d[1]) != (2, 1), (d[2], d[3]) != (2, 1)
    ctx.check((e is None) == (not b1 and not b2), 'arrays of another shape')
    if e is not None:
        ctx.check(('first' in str(e)) == b1 and ('second' in str(e)) == b2 and 'more' in str(e), 'the message names the arrays')
    x, y = zeros(ctx, (d[0],)), zeros(ctx, (d[2],))
    for lim in (2, (2,)):
        _, e = ctx.raises(lambda: a.assert_array_numel_equal((x, y), ('first', 'second'), lim), exc.UnequalArrayShapes)
        ctx.check((e is None) == (d[0] == 2 and d[2] == 2), 'arrays of another length')
    _, e = ctx.raises(lambda: a.assert_array_shape_equal((x,), ('first',), (2,)), AssertionError)
    ctx.check(e is not None, 'a single array')
    ctx.reach('done')


def instances(tier):
    out = []
    b = 90 if tier == 'quick' else 600
    ar = ['accepted', 'rejected']
    for k in ('real', 'int'):
        out.append(Instance(f'scalar-{k}', scalar, dict(kind=k), budget=b, reach=ar))
    for w in ('in_range', 'greater', 'greater_eq', 'less', 'less_eq'):
        for n in [1, 3] + ([4, 6] if tier == 'thorough' else []):
            out.append(Instance(f'array-{w}-{n}', array, dict(n=n, which=w), budget=b, reach=ar))
    for n in (1, 3):
        out.append(Instance(f'neq-{n}', neq, dict(n=n), budget=b, reach=ar))
    for n, m in [(1, 1), (2, 2), (4, 1)]:
        out.append(Instance(f'lost-{n}x{m}', lost, dict(n=n, m=m), budget=b, reach=ar))
    out.append(Instance('index', index, {}, budget=b, reach=['accepted', 'negative', 'bounds']))
    out.append(Instance('machine', machine, {}, budget=b, reach=['accepted', 'rejected', 'space charge']))
    out.append(Instance('missing', missing, {}, budget=b, reach=['done']))
    out.append(Instance('fields', fields, {}, budget=b, reach=['done']))
    out.append(Instance('shapes', shapes, {}, budget=b, reach=['done']))
    return out
