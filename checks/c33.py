"""the analysis of profiles and images runs on symbolic samples and is compared with the definitions of its figures"""
from .common import *

UNITS = ['utils.tomographics.foot_tangent_fit_dq', 'utils.tomographics.foot_tangent_fit', 'utils.tomographics.foot_tangent_fit_density', 'utils.tomographics.rms_params',
         'utils.tomographics.emittance_density_calc', 'utils.tomographics.tomo_weight_clipping']
BOUNDS = ('feet: profiles of 8-12 samples whose flanks are symbolic, symbolic bin size, offset and RF period; images of up to 3x3 cells, fully symbolic; clipping: one '
          'machine, 4-6 time bins, 2-3 particles with symbolic coordinates and weights')
OUTSIDE = 'matched_area_calc and density_vs_emittance (a numerical minimisation over a thousand points); larger images; rounding'
ASSUMPTIONS = ['exact real arithmetic', 'np.polyfit of degree one is the least-squares line', 'the image is normalised, as the images of the reconstruction are']


def half(ctx):
    return ctx.const(1) / 2


def line(xs, ys):
    """slope and mean point of the least-squares line"""
    n = len(xs)
    mx, my = sum(xs) / n, sum(ys) / n
    return sum((a - mx) * (b - my) for a, b in zip(xs, ys)) / sum((a - mx) * (a - mx) for a in xs), mx, my


def flank(ctx, name, n, rising):
    """samples below and above the threshold of 15% of a peak of one"""
    low = [ctx.real(f'{name}low{i}', lo=0, hi=0.125) for i in range(n)]
    high = [ctx.real(f'{name}high{i}', lo=0.25, hi=0.875) for i in range(n)]
    return low + high if rising else high + low


def dq(ctx, T, extra, short):
    exc = T.mod('exceptions')
    left, right = flank(ctx, 'l', 3, True), flank(ctx, 'r', 3, False)
    y = left + [ctx.const(1)] + [ctx.const(0.5)] * extra + right
    n = len(y)
    x0, dx, trf = ctx.real('x0'), ctx.real('dx', positive=True), ctx.real('trf', positive=True)
    if short == 'left':
        y = y[1:]
    if short == 'right':
        y = y[:-1]
    n = len(y)
    x = [x0 + dx * i for i in range(n)]
    v = list(y)
    ya = ctx.array(y)
    r, e = ctx.raises(lambda: T.mod('utils.tomographics').foot_tangent_fit_dq(ctx.array(x), ya, trf, False), exc.InvalidProfileError)
    ctx.check_eq(ya, np.array(v, dtype=object), 'the profile is modified')
    if short:
        ctx.check(e is not None, 'a profile too long for a fit is not reported')
        ctx.reach('done')
        return
    f = []
    for a in (0, n - 6):
        s, mx, my = line(x[a:a + 6], y[a:a + 6])
        f.append((s, mx, my))
    (s1, m1, y1), (s2, m2, y2) = f
    w = (m2 - y2 / s2) - (m1 - y1 / s1)
    if not is_sym(ctx):
        ctx.assume(abs(w - trf) > 1e-9 * abs(trf) and abs(w) > 1e-9 * abs(trf))
    ok = bool(ctx.And(0 <= w, w < trf))
    ctx.check((e is None) == ok, 'bunch longer than an RF period' if e is None else 'valid bunch rejected')
    if e is None:
        ctx.check_eq((r[0] - m1) * s1 + y1, 0, 'lower foot')
        ctx.check_eq((r[1] - m2) * s2 + y2, 0, 'upper foot')
    ctx.reach('done')


def feet(ctx, T, extra, which):
    """the zero crossing of the line through the four samples around the threshold, for both flanks alike"""
    left, right = flank(ctx, 'l', 2, True), flank(ctx, 'r', 2, False)
    y = left + [ctx.const(1)] + [ctx.const(0.5)] * extra + right
    n = len(y)
    dx = ctx.real('dx', positive=True)
    m = T.mod('utils.tomographics')
    v = list(y)
    if which == 'density':
        y[extra] = ctx.const(0)                    # the smallest sample
        x0 = ctx.real('x0')
        x = [x0 + dx * i for i in range(n)]
        ya = ctx.array(y)
        v = list(y)
        b = (m.foot_tangent_fit_density(ya, ctx.array(x)) - x0) / dx
        feet_ = [(b, n - 4)]
    else:
        ya = ctx.array(y)
        a, b = m.foot_tangent_fit(ya, dx)
        feet_ = [(a / dx, 0), (b / dx, n - 4)]
    ctx.check_eq(ya, np.array(v, dtype=object), 'the profile is modified')
    for k, (z, i) in enumerate(feet_):
        s, mx, my = line([ctx.const(j) for j in range(i, i + 4)], y[i:i + 4])
        c = mx - my / s
        h = half(ctx)
        if which == 'density':
            # (interpolation on the axis ends with the axis)
            end = ctx.const(n - 1)
            inside = bool(c + h < end)
            ctx.check(ctx.And(c - h <= z, z <= c + h) if inside else z <= end, 'foot of the falling flank')
            if not inside:
                ctx.check_le(end - 1, z, 'foot beyond the axis')
        elif is_sym(ctx):
            ctx.check(ctx.And(c - h <= z, z <= c + h), 'foot of a flank')
        else:
            ctx.check(abs(z - c) <= 0.5 + 1e-9, 'foot of a flank')
    if which != 'density':
        a2, b2 = m.foot_tangent_fit(ctx.array(v[::-1]), dx)
        ctx.check_eq(a2 / dx, n - 1 - feet_[1][0], 'foot of the mirrored profile')
        ctx.check_eq(b2 / dx, n - 1 - feet_[0][0], 'foot of the mirrored profile')
    ctx.reach('done')


def rms(ctx, T, nt, ne):
    n = nt * ne
    im = ctx.array([[ctx.real(f'd{i}_{j}', lo=0, hi=1) if n < 7 or (i * ne + j) % 3 == 0 else ctx.const((i + 2 * j) % 4) / 32 for j in range(ne)] for i in range(nt)])
    v = rows(im)
    if is_sym(ctx):
        ctx.assume(sum(sum(r) for r in v) == 1)
    else:
        im = im / im.sum()
        v = rows(im)
    dt, dE = ctx.real('dt', positive=True), ctx.real('dE', positive=True)
    em, mt, st, me, se = T.mod('utils.tomographics').rms_params(im, dt, dE)
    ctx.check_eq(im, np.array(v, dtype=object), 'the image is modified')
    S = lambda f: sum(v[i][j] * f(i, j) for i in range(nt) for j in range(ne))
    t, e = S(lambda i, j: i), S(lambda i, j: j)
    tt, ee, te = S(lambda i, j: i * i) - t * t, S(lambda i, j: j * j) - e * e, S(lambda i, j: i * j) - t * e
    ctx.check_eq(mt, t * dt, 'mean time')
    ctx.check_eq(me, (e - ctx.const(ne) / 2) * dE, 'mean energy')
    if not is_sym(ctx):
        # (rounding: the spread of a single cell, a correlation of one)
        ctx.assume(tt > 1e-6 and ee > 1e-6 and tt * ee - te * te > 1e-6)
    ctx.check_eq(st * st, tt * dt * dt, 'spread in time')
    ctx.check_eq(se * se, ee * dE * dE, 'spread in energy')
    pi = ctx.const(np.pi)
    ctx.check_eq(em * em, pi * pi * (tt * ee - te * te) * dt * dt * dE * dE, 'emittance')
    for z in (st, se, em):
        ctx.check_le(0, z, 'negative spread')
    ctx.reach('done')


def fraction(ctx, T, nt, ne):
    im = ctx.reals('d', (nt, ne), lo=0, hi=1)
    v = [x for r in rows(im) for x in r]
    if is_sym(ctx):
        ctx.assume(sum(v) == 1)
    else:
        im = im / im.sum()
        v = [x for r in rows(im) for x in r]
    f = ctx.real('f', lo=-1, hi=2)
    dt, dE = ctx.real('dt', positive=True), ctx.real('dE', positive=True)
    arr = rows(im)
    r, e = ctx.raises(lambda: T.mod('utils.tomographics').emittance_density_calc(im, dt, dE, f), ValueError)
    ok = bool(ctx.And(f > 0, f < 1))
    ctx.check((e is None) == ok, 'fraction that is none' if e is None else 'valid fraction rejected')
    ctx.check_eq(im, np.array(arr, dtype=object), 'the image is modified')
    if not ok:
        ctx.reach('rejected')
        return
    # smallest number of cells that holds the fraction (the densest ones first)
    left = list(v)
    got, n = ctx.const(0), 0
    while left:
        k = 0
        for i in range(1, len(left)):
            if bool(left[i] > left[k]):
                k = i
        got = got + left.pop(k)
        n += 1
        if bool(got >= f):
            break
    cell = dt * dE
    tol = 0 if is_sym(ctx) else 1e-9 * cell
    if not is_sym(ctx):
        ctx.assume(abs(got - f) > 1e-9)
    ctx.check_le((n - 2) * cell - tol, r, 'area too small for the fraction')
    ctx.check_le(r, n * cell + tol, 'area larger than the cells that hold the fraction')
    ctx.check_le(0, r, 'negative area')
    ctx.reach('done')


class M:
    pass


def clipping(ctx, T, nt, npart, sl, target, fr=None):
    ctx.hooks['numeric'] = True
    m = M()
    m.machine_ref_frame, m.dturns, m.h_num, m.q = 1, 2, 1, 1
    m.phi0, m.e0, m.eta0, m.omega_rev0 = [np.array([a, a * 1.001, a * 1.002, a * 1.003]) for a in (np.pi - 0.1, 2.0e9, -0.1, 3e6)]      # above transition
    m.e_rest, m.vrf1, m.synch_part_x = 0.938e9, 1e4, (nt - 1) / 2
    ta = np.linspace(0, 2 * np.pi * 0.7 / 3e6, nt)
    ea = np.linspace(-3e6, 3e6, 5)
    k, o = (fr, 1 - fr) if fr is not None else (1, 0)                    # frame, and the other one
    x = [ctx.real(f'x{i}', lo=s + 0.0625, hi=s + 0.9375) for i, s in enumerate(sl)]
    y = ctx.array([ctx.const(2)] + [ctx.real(f'y{i}', lo=-4, hi=8) for i in range(1, npart)])       # the first particle: in the middle of the image
    w = ctx.reals('w', npart, lo=0.125, hi=2)
    mx, my = [ctx.array([[a, z][::o - k] for a in v]) for v, z in ((x, ctx.const(0.5)), (y, ctx.const(2)))]
    vw = list(w)
    nw, h, mm = T.mod('utils.tomographics').tomo_weight_clipping(m, ta, ea, mx, my, w, target, 8, *([] if fr is None else [fr]))
    ctx.check_eq(w, np.array(vw, dtype=object), 'the weights of the caller are modified')
    ctx.check(np.shape(h) == (nt,), 'one height per time bin')
    ctx.check(np.shape(nw) == (npart,), 'one weight per particle')
    dE = float(ea[1] - ea[0])
    ctx.check(all(float(h[i]) > dE / 4 for i in sl), 'the contour reaches the particles')
    # the contour: a line of constant energy of the bucket at the reference frame
    hh = np.array([float(a) for a in h])
    g0 = m.e0[2 * k] / m.e_rest
    ph = (ta - m.synch_part_x * (ta[1] - ta[0])) * m.h_num * m.omega_rev0[2 * k] + m.phi0[2 * k]
    u = hh ** 2 * np.pi * m.h_num * m.eta0[2 * k] / (m.q * (g0 - 1 / g0) * m.e_rest * m.vrf1) - np.cos(ph) - ph * np.sin(m.phi0[2 * k])
    u = u[hh > dE / 1e3]
    ctx.check(u.max() - u.min() < 1e-6, 'the contour is no line of constant energy')
    keep = []
    for i, s in enumerate(sl):
        hh = h[s]
        b = (y[i] * dE + float(ea[0]))
        d = abs(b) - float(hh)                      # (rounding of the border)
        ctx.assume(ctx.Or(d > 1e-6 * dE, d < -1e-6 * dE))
        keep.append(bool(ctx.And(b < hh, b > -hh)))
    ctx.check(keep[0], 'the middle of the image lies inside the contour')
    tot, kept = sum(vw), sum(a for a, k in zip(vw, keep) if k)
    for i in range(npart):
        ctx.check_eq(nw[i] * kept, vw[i] * tot if keep[i] else 0, 'weight of a particle inside the contour' if keep[i] else 'weight of a particle outside the contour')
    # the extreme particles of every time bin
    want = []
    for s in range(nt - 1):
        c = [i for i in range(npart) if sl[i] == s and keep[i]]
        if len(c) == 1:
            want.append(set(c))
        elif c:
            want.append(set(c))
    got = {int(ctx.concrete(i)) if is_sym(ctx) else int(i) for i in mm}
    for c in want:
        g = got & c
        ctx.check(bool(g), 'no extreme particle of a time bin')
        for i in c:
            ctx.check(ctx.Or(*[y[i] <= y[j] for j in g]), 'highest particle of a time bin')
            ctx.check(ctx.Or(*[y[i] >= y[j] for j in g]), 'lowest particle of a time bin')
    ctx.check(got <= {i for i in range(npart) if keep[i]}, 'an extreme particle outside the contour')
    ctx.reach('done')


def instances(tier):
    out = []
    th = tier == 'thorough'
    b = 60 if tier == 'quick' else 900
    for extra in (0, 3) + ((8,) if th else ()):
        out.append(Instance(f'dq-{extra}', dq, dict(extra=extra, short=''), budget=b, reach=['done']))
        out.append(Instance(f'feet-{extra}', feet, dict(extra=extra, which='both'), budget=b, reach=['done']))
    out.append(Instance('feet-density', feet, dict(extra=0, which='density'), budget=b, reach=['done']))
    for s in ('left', 'right'):
        out.append(Instance(f'dq-too-long-{s}', dq, dict(extra=1, short=s), budget=b, reach=['done']))
    for nt, ne in [(2, 2), (3, 3), (2, 3)] + ([(4, 4), (5, 3)] if th else []):
        out.append(Instance(f'rms-{nt}x{ne}', rms, dict(nt=nt, ne=ne), budget=b, reach=['done']))
    for nt, ne in [(1, 2), (2, 2)] + ([(1, 5)] if th else []):
        out.append(Instance(f'fraction-{nt}x{ne}', fraction, dict(nt=nt, ne=ne), budget=b, reach=['done', 'rejected'], weight=10 ** (nt * ne)))
    for nt, sl, target, fr in [(6, (2, 2), 3.0, None), (5, (2, 1), 10.0, 0), (6, (2, 2, 3), 3.0, 1), (6, (3, 3, 3), 3.0, None)]:
        out.append(Instance(f'clip-{nt}-{"".join(map(str, sl))}', clipping, dict(nt=nt, npart=len(sl), sl=sl, target=target, fr=fr), budget=b, reach=['done'], weight=10))
    return out
