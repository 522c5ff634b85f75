"""the native sine runs, unabstracted, on a symbolic phase in every quadrant; its result (a polynomial of the phase on every path) is compared with the
Taylor polynomial of the sine, whose remainder is bounded on that quadrant"""
from fractions import Fraction
import math
from .common import *

UNITS = ['vdt::fast_sin', 'vdt::fast_sinf', 'vdt::fast_sincos', 'vdt::fast_sincosf', 'vdt::details::reduce2quadrant', 'vdt::details::fast_sincos_m45_45',
         'vdt::details::fast_sincosf_m45_45', 'vdt::details::get_sin_px', 'vdt::details::get_cos_px', 'libtomo.kick_up', 'libtomo.kick_down']
BOUNDS = 'every phase up to 24 (thorough: 100) quarter turns, both signs; double and single precision routine'
OUTSIDE = 'larger phases; floating-point rounding inside the routine'
ASSUMPTIONS = ['exact real arithmetic on the constants of the routine', 'the remainder of the Taylor series (Lagrange form)', 'pi to 40 digits']

PI = Fraction(3141592653589793238462643383279502884197, 10 ** 39)
TOL = {'d': Fraction(2, 10 ** 12), 'f': Fraction(3, 10 ** 6)}           # exact arithmetic


def taylor(w, odd):
    """sine (odd) or cosine of w; for |w| < 0.79 the remainder is below 1e-17"""
    out, t, k = 0, w if odd else 1, 1 if odd else 0
    while k <= 17:
        out = out + t / math.factorial(k) if k % 4 < 2 else out - t / math.factorial(k)
        t, k = t * w * w, k + 2
    return out


def sine(ctx, T, k, prec, how, which):
    """the energy gained in a wave of amplitude one is the sine of the phase"""
    ctx.hooks['kernel_sin'] = ctx.hooks['fork_ite'] = True
    ctx.hooks['prec'] = prec
    # (the quadrants overlap)
    lim = ctx.const(PI / 4 + Fraction(1, 10 ** 6))
    w = ctx.real('w', lo=-0.79, hi=0.79)
    ctx.assume(ctx.And(w >= -lim, w <= lim))
    x = w + ctx.const(k * PI / 2)
    if not is_sym(ctx):
        x = float(w + float(k * PI / 2))
        x = float(np.float32(x)) if prec == 'f' else x
    # (single precision: the compiler may merge the constants of the reduction, an error proportional to the phase)
    tol = TOL[prec] * (1 + Fraction(abs(k), 5))
    one, z = ctx.const(1), ctx.const(0)
    v1, v2 = ctx.const(which == 1), ctx.const(which == 2)
    if how in ('kick_up', 'kick_down'):
        p, e = ctx.array([x]), zeros(ctx, (1,))
        getattr(T.lib, how)(p, e, v1, v2, z, z, one, 1, z)
        r = e[0] if how == 'kick_up' else -e[0]
    else:
        # a turn without drift, tracked forward or backward
        rec = int(how == 'backward')
        a = [ctx.array([x]), zeros(ctx, (1,)), zeros(ctx, (2, 1)), zeros(ctx, (2, 1)), ctx.array([v1] * 2), ctx.array([v2] * 2), zeros(ctx, (2,)), zeros(ctx, (2,)),
             zeros(ctx, (2,))]
        if prec == 'f' and not is_sym(ctx):
            a = [np.asarray(y, dtype=np.float32) for y in a]
        p, e, xp, yp, v1, v2, phi0, de, drift = a
        xp, yp = T.lib.kick_and_drift(xp, yp, e, p, v1, v2, phi0, de, drift, z, one, 1, rec, 0, 1, 1, False, None)
        r = -yp[0][0] if rec else yp[1][0]
    if not is_sym(ctx):
        ctx.check(abs(float(r) - math.sin(x)) <= float(tol) / 2, 'sine of a phase')
        ctx.reach('done')
        return
    s = taylor(w, k % 2 == 0)
    if k % 4 >= 2:
        s = -s
    c = PI / 4 - Fraction(1, 10 ** 9)
    if bool(ctx.And(w >= ctx.const(-c), w <= ctx.const(c))):
        lo, hi = -c, c
    elif bool(w > 0):
        lo, hi = c, PI / 4 + Fraction(1, 10 ** 6)
    else:
        lo, hi = -PI / 4 - Fraction(1, 10 ** 6), -c
    bad = apart(ctx, w, r - s, lo, hi, tol)
    if bad is False:
        # not a polynomial: the sine of a library
        ctx.check_eq(r, ctx.sin(x), 'sine of a phase')
    elif bad is not None:
        ctx.assume(w == ctx.const(bad))
        ctx.check(False, 'sine of a phase')
    ctx.reach('done')


def apart(ctx, w, d, lo, hi, tol):
    """a value of w in the interval where the polynomial d exceeds tol, or None (decided by the solver on the polynomial alone: the rest of the
    path only fixed the quadrant)"""
    import time
    import z3
    from symx.core import mkR, zr
    p = ctx.polys.of(zr(mkR(d).v))
    name = next(iter(ctx.polys.of(zr(mkR(w).v))))[0][0]
    if p is None or not all(not m or len(m) == 1 and m[0][0] == name for m in p):
        return False
    x = z3.Real('w')
    q = sum(z3.Q(c.numerator, c.denominator) * x ** (m[0][1] if m else 0) if m else z3.Q(c.numerator, c.denominator) for m, c in p.items())
    Q = lambda f: z3.Q(f.numerator, f.denominator)
    for sign in (1, -1):
        so = z3.Tactic('qfnra-nlsat').solver()
        so.add(x >= Q(lo), x <= Q(hi), sign * q > Q(tol))
        t = time.time()
        a = so.check()
        ctx.stats.queries += 1
        ctx.stats.checks += 1
        ctx.stats.solver_s += time.time() - t
        if a == z3.unsat:
            ctx.stats.unsat += 1
            continue
        ctx.stats.sat += a == z3.sat
        assert a == z3.sat, 'the solver gave no answer'
        v = so.model()[x]
        v = v.approx(30) if z3.is_algebraic_value(v) else v
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return None


def instances(tier):
    out = []
    n = 24 if tier == 'quick' else 100
    for k in range(-n, n + 1):
        for prec in 'df':
            how = ('kick_up', 'kick_down', 'forward', 'backward')[k % 4] if prec == 'd' else ('forward', 'backward')[k % 2]
            out.append(Instance(f'quarter{k}-{"double" if prec == "d" else "single"}', sine, dict(k=k, prec=prec, how=how, which=1 + (k // 4) % 2), budget=60,
                                reach=['done']))
    return out
