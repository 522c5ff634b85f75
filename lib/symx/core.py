"""Symbolic scalars and the path explorer.

R  - an exact real (Fraction or z3 Real term), or NONFINITE (models nan/inf)
I  - an integer (python int or z3 Int term), with an optional interval
B  - a truth value (bool or z3 Bool term)

Every symbolic truth value that the executed code turns into a python bool is
a *branch*: Ctx.branch decides feasibility of both sides with the solver and
the explorer re-executes the scenario once per feasible path.
"""
import re
import math
import numbers
import os
import sys
import time
from fractions import Fraction

VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402

NONFINITE = 'NONFINITE'


class PathAbort(BaseException):
    """This path is infeasible or out of bounds: drop it."""


class Unsupported(BaseException):
    """The executed code left the encodable fragment."""


class ScenarioViolation(BaseException):
    pass


_CTX = [None]


def ctx():
    c = _CTX[0]
    if c is None:
        raise RuntimeError('no active symbolic context')
    return c


def set_ctx(c):
    _CTX[0] = c


# ------------------------------------------------------------------ helpers
def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    f = float(x)
    if math.isnan(f) or math.isinf(f):
        return NONFINITE
    return Fraction(f)


def zr(v):
    """z3 Real term of a Fraction / z3 term"""
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    return v


def zi(v):
    return z3.IntVal(v) if isinstance(v, int) else v


def zb(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def token(x, spec=''):
    """text that stands for a symbolic value (in files, messages and inputs)"""
    c = _CTX[0]
    if c is None:
        return f'<sym:{spec}>'
    t = c.hooks.setdefault('tokens', [])
    t.append((x, spec))
    return f'\u27e6{len(t) - 1}\u27e7'


def fill(s, args):
    """s % args with symbolic values"""
    a = list(args) if isinstance(args, tuple) else None if isinstance(args, dict) else [args]
    if a is None or not any(isinstance(x, (R, I)) for x in a):
        return s % args

    def one(m):
        if m.group(0) == '%%':
            return '%'
        flags, width, prec, conv = m.groups()
        x = a.pop(0)
        if not isinstance(x, (R, I)):
            return m.group(0) % x
        if conv in 'srd' and isinstance(x, R):
            return format(x, '') if conv in 'sr' else format(x.__int__() if x.const() else x, '')
        return format(x, ('+' if '+' in flags else '') + ('0' if '0' in flags else '') + (width or '') + (prec or '') + ('' if conv in 'sr' else 'd' if conv in 'iu' else conv))
    return re.sub(r'%%|%([-+ 0#]*)(\d+)?(\.\d+)?([a-zA-Z])', one, s)


def untoken(s):
    """the symbolic value a text stands for, or None"""
    s = s.strip()
    if len(s) > 2 and s[0] == '\u27e6' and s[-1] == '\u27e7' and s[1:-1].isdigit():
        c = _CTX[0]
        if c is not None:
            return c.hooks['tokens'][int(s[1:-1])][0]
    return None


class Sym:
    __slots__ = ()
    __array_priority__ = 1000


class B(Sym):
    __slots__ = ('v',)

    def __init__(self, v):
        if isinstance(v, B):
            v = v.v
        elif not isinstance(v, (bool, z3.BoolRef)):
            v = bool(v)
        self.v = v

    def const(self):
        return isinstance(self.v, bool)

    def __bool__(self):
        if isinstance(self.v, bool):
            return self.v
        return ctx().branch(self.v)

    def __and__(self, o):
        o = mkB(o)
        if isinstance(self.v, bool):
            return o if self.v else B(False)
        if isinstance(o.v, bool):
            return self if o.v else B(False)
        return B(z3.And(self.v, o.v))
    __rand__ = __and__

    def __or__(self, o):
        o = mkB(o)
        if isinstance(self.v, bool):
            return B(True) if self.v else o
        if isinstance(o.v, bool):
            return B(True) if o.v else self
        return B(z3.Or(self.v, o.v))
    __ror__ = __or__

    def __xor__(self, o):
        o = mkB(o)
        if self.const() and o.const():
            return B(self.v != o.v)
        return B(z3.Xor(zb(self.v), zb(o.v)))
    __rxor__ = __xor__

    def __invert__(self):
        return B(not self.v) if self.const() else B(z3.Not(self.v))

    def __eq__(self, o):
        if isinstance(o, (bool, B)) or hasattr(o, 'dtype'):
            return ~(self ^ o)
        return mkI(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, B) else not r
    __hash__ = None

    # arithmetic on truth values (mask * mask, mask + mask, x * mask)
    def __mul__(self, o):
        if isinstance(o, (B, bool)) or type(o).__name__ == 'bool_':
            return self & o
        return mkI(self) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return mkI(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        return mkI(self) - o

    def __rsub__(self, o):
        return o - mkI(self)

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __repr__(self):
        return f'B({self.v})'


def mkB(x):
    if isinstance(x, B):
        return x
    if isinstance(x, (I, R)):
        return x != 0
    return B(bool(x))


def ite(c, a, b):
    """if-then-else over R / I / B without forking."""
    c = mkB(c)
    if c.const():
        return a if c.v else b
    if isinstance(a, B) or isinstance(b, B) or (isinstance(a, bool) and isinstance(b, bool)):
        if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
            a, b = mkB(a), mkB(b)
            return B(z3.If(c.v, zb(a.v), zb(b.v)))
    if isinstance(a, (I, int)) and isinstance(b, (I, int)) and not isinstance(a, bool) and not isinstance(b, bool):
        a, b = mkI(a), mkI(b)
        if a.v is b.v or (a.const() and b.const() and a.v == b.v):
            return a
        lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
        hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
        return I(z3.If(c.v, zi(a.v), zi(b.v)), lo, hi)
    a, b = mkR(a), mkR(b)
    if a.v is NONFINITE or b.v is NONFINITE:
        if a.v is b.v:
            return a
        return a if ctx().branch(c.v) else b
    if isinstance(a.v, Fraction) and isinstance(b.v, Fraction) and a.v == b.v:
        return a
    if a.v is b.v:
        return a
    return R(z3.If(c.v, zr(a.v), zr(b.v)))


class R(Sym, numbers.Real):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def const(self):
        return isinstance(self.v, Fraction)

    # ---- arithmetic
    def _bin(self, o, op, rev=False):
        o2 = mkR(o)
        if o2 is None:
            return NotImplemented
        a, b = (o2, self) if rev else (self, o2)
        if a.v is NONFINITE or b.v is NONFINITE:
            return R(NONFINITE)
        return op(a, b)

    def __add__(self, o):
        return self._bin(o, _add)

    def __radd__(self, o):
        return self._bin(o, _add, True)

    def __sub__(self, o):
        return self._bin(o, _sub)

    def __rsub__(self, o):
        return self._bin(o, _sub, True)

    def __mul__(self, o):
        return self._bin(o, _mul)

    def __rmul__(self, o):
        return self._bin(o, _mul, True)

    def __truediv__(self, o):
        return self._bin(o, _div)

    def __rtruediv__(self, o):
        return self._bin(o, _div, True)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: rfloor(_div(a, b)))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: rfloor(_div(a, b)), True)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: _sub(a, _mul(b, rfloor(_div(a, b)))))

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: _sub(a, _mul(b, rfloor(_div(a, b)))), True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        if self.v is NONFINITE:
            return self
        return R(-self.v)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.v is NONFINITE:
            return self
        if self.const():
            return R(abs(self.v))
        return R(z3.If(self.v >= 0, self.v, -self.v))

    def __pow__(self, e):
        return rpow(self, e)

    def __rpow__(self, b):
        return rpow(mkR(b), self)

    # ---- comparison
    def _cmp(self, o, f, fz):
        o = mkR(o)
        if o is None:
            return NotImplemented
        if self.v is NONFINITE or o.v is NONFINITE:
            return B(False)
        if self.const() and o.const():
            return B(f(self.v, o.v))
        return B(fz(zr(self.v), zr(o.v)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if self.v is not NONFINITE and isinstance(o, R) and o.v is self.v:
            return B(True)
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        o2 = mkR(o)
        if o2 is None:
            return NotImplemented
        if self.v is NONFINITE or o2.v is NONFINITE:
            return B(True)
        r = self.__eq__(o2)
        return ~r

    def __hash__(self):
        if self.const():
            return hash(self.v)
        return self.v.hash() if self.v is not NONFINITE else 0

    def __bool__(self):
        return bool(self != 0)

    # ---- conversions
    def __float__(self):
        if self.const():
            return float(self.v)
        if self.v is NONFINITE:
            return float('nan')
        raise Unsupported('float() of a symbolic real in native code')

    def __int__(self):
        if self.v is NONFINITE:
            raise ValueError('cannot convert float NaN to integer')
        return int(rtrunc(self).__index__())

    def __trunc__(self):
        return rtrunc(self)

    def __floor__(self):
        return rfloor_i(self)

    def __ceil__(self):
        return -rfloor_i(-self)

    def __round__(self, nd=None):
        if nd is not None:
            raise Unsupported('round(x, n)')
        return rround_i(self)

    def __format__(self, spec):
        if self.const():
            return format(float(self.v), spec)
        return token(self, spec)

    def __str__(self):
        return format(self, '')

    def __repr__(self):
        return f'R({self.v})'

    # numpy-scalar look-alikes
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return R(Fraction(0))

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt):
        return self

    def sin(self):
        return rsin(self)

    def cos(self):
        return rcos(self)

    def sqrt(self):
        return rsqrt(self)

    def floor(self):
        return rfloor(self)

    def ceil(self):
        return -rfloor(-self)

    def is_integer(self):
        return self == rfloor(self)


class I(Sym, numbers.Integral):
    """integer; .v python int or z3 Int term; lo/hi: known interval"""
    __slots__ = ('v', 'lo', 'hi')

    def __init__(self, v, lo=None, hi=None):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            lo = hi = v
        self.v, self.lo, self.hi = v, lo, hi

    def const(self):
        return isinstance(self.v, int)

    def _bin(self, o, f, rev=False):
        if isinstance(o, (R, float, Fraction)) or (hasattr(o, 'dtype') and getattr(o.dtype, 'kind', '') == 'f'):
            return NotImplemented
        o2 = mkI(o)
        if o2 is None:
            return NotImplemented
        return f(o2, self) if rev else f(self, o2)

    def __add__(self, o):
        return _radd(self, o, self._bin(o, iadd), lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return _radd(self, o, self._bin(o, isub), lambda a, b: a - b)

    def __rsub__(self, o):
        return _radd(self, o, self._bin(o, isub, True), lambda a, b: b - a)

    def __mul__(self, o):
        return _radd(self, o, self._bin(o, imul), lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return mkR(self) / o

    def __rtruediv__(self, o):
        return mkR(o) / mkR(self)

    def __floordiv__(self, o):
        return _radd(self, o, self._bin(o, ifloordiv), lambda a, b: a // b)

    def __rfloordiv__(self, o):
        return _radd(self, o, self._bin(o, ifloordiv, True), lambda a, b: b // a)

    def __mod__(self, o):
        return _radd(self, o, self._bin(o, imod), lambda a, b: a % b)

    def __rmod__(self, o):
        return _radd(self, o, self._bin(o, imod, True), lambda a, b: b % a)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, e, m=None):
        if isinstance(e, int) and e >= 0:
            r = I(1)
            for _ in range(e):
                r = r * self
            return r
        return rpow(mkR(self), e)

    def __rpow__(self, b):
        return rpow(mkR(b), self)

    def __neg__(self):
        return isub(I(0), self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.const():
            return I(abs(self.v))
        if self.lo is not None and self.lo >= 0:
            return self
        return ite(B(self.v >= 0), self, -self)

    def __invert__(self):
        return isub(I(-1), self)

    def _nb(self, o):
        o2 = int(o.__index__())
        return I(0), int(self.__index__()), o2

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rlshift__(self, o):
        return I(int(o) << int(self))

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __rrshift__(self, o):
        return I(int(o) >> int(self))

    def __and__(self, o):
        return I(int(self) & int(o))
    __rand__ = __and__

    def __or__(self, o):
        return I(int(self) | int(o))
    __ror__ = __or__

    def __xor__(self, o):
        return I(int(self) ^ int(o))
    __rxor__ = __xor__

    def _cmp(self, o, f):
        if isinstance(o, (R, float, Fraction)) or (hasattr(o, 'dtype') and getattr(o.dtype, 'kind', '') == 'f'):
            a, b = mkR(self), mkR(o)
            if b.v is NONFINITE:
                return B(False)
            if a.const() and b.const():
                return B(f(a.v, b.v))
            return B(f(zr(a.v), zr(b.v)))
        o2 = mkI(o)
        if o2 is None:
            return NotImplemented
        if self.const() and o2.const():
            return B(f(self.v, o2.v))
        return B(f(zi(self.v), zi(o2.v)))

    def __lt__(self, o):
        if isinstance(o, I) and None not in (self.hi, o.lo) and self.hi < o.lo:
            return B(True)
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r

    def __hash__(self):
        return hash(self.v) if self.const() else self.v.hash()

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        if self.const():
            return self.v
        return ctx().concretize(self)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, nd=None):
        return self

    def __format__(self, spec):
        if self.const():
            return format(self.v, spec)
        return token(self, spec)

    def __str__(self):
        return format(self, '')

    def __repr__(self):
        return f'I({self.v})'

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return I(0)

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return I(1)

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt):
        return self

    def sin(self):
        return rsin(mkR(self))

    def cos(self):
        return rcos(mkR(self))

    def sqrt(self):
        return rsqrt(mkR(self))

    def floor(self):
        return mkR(self)


def _radd(a, o, r, f):
    if r is NotImplemented:
        b = mkR(o)
        if b is None:
            return NotImplemented
        return f(mkR(a), b)
    return r


def mkI(x):
    if isinstance(x, I):
        return x
    if isinstance(x, B):
        if x.const():
            return I(int(x.v))
        return I(z3.If(x.v, z3.IntVal(1), z3.IntVal(0)), 0, 1)
    if isinstance(x, bool):
        return I(int(x))
    if isinstance(x, numbers.Integral):
        return I(int(x))
    if hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0:
        if x.dtype.kind in 'iub':
            return I(int(x))
        if x.dtype.kind == 'O':
            return mkI(x.item())
    if type(x).__name__ == 'bool_':
        return I(int(x))
    return None


def mkR(x):
    if isinstance(x, R):
        return x
    if isinstance(x, I):
        if x.const():
            return R(Fraction(x.v))
        return R(z3.ToReal(x.v))
    if isinstance(x, B):
        return mkR(mkI(x))
    if isinstance(x, (int, float, Fraction)):
        f = frac(x)
        return R(f)
    if hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0:
        if x.dtype.kind in 'iubf':
            return R(frac(x.item()))
        if x.dtype.kind == 'O':
            return mkR(x.item())
    return None


def isconst(x):
    return not isinstance(x, Sym) or x.const()


# ------------------------------------------------------------- real kernels
def _add(a, b):
    if isinstance(a.v, Fraction):
        if isinstance(b.v, Fraction):
            return R(a.v + b.v)
        if a.v == 0:
            return b
    elif isinstance(b.v, Fraction) and b.v == 0:
        return a
    return R(zr(a.v) + zr(b.v))


def _sub(a, b):
    if isinstance(b.v, Fraction):
        if isinstance(a.v, Fraction):
            return R(a.v - b.v)
        if b.v == 0:
            return a
    elif isinstance(a.v, Fraction) and a.v == 0:
        return R(-b.v)
    return R(zr(a.v) - zr(b.v))


def _mul(a, b):
    if isinstance(a.v, Fraction):
        if isinstance(b.v, Fraction):
            return R(a.v * b.v)
        if a.v == 0:
            return a
        if a.v == 1:
            return b
    elif isinstance(b.v, Fraction):
        if b.v == 0:
            return b
        if b.v == 1:
            return a
    return R(zr(a.v) * zr(b.v))


def _div(a, b):
    if isinstance(b.v, Fraction):
        if b.v == 0:
            ctx().note_nonfinite()
            return R(NONFINITE)
        if isinstance(a.v, Fraction):
            return R(a.v / b.v)
        if b.v == 1:
            return a
        return R(a.v * zr(1 / b.v))
    c = ctx()
    if c.branch_known_nonzero(b.v):
        return c.quotient(a, b)
    c.note_nonfinite()
    return R(NONFINITE)


def rpow(b, e):
    if isinstance(e, (I, R)) and e.const():
        e = e.v
    elif isinstance(e, Sym):
        raise Unsupported('symbolic exponent')
    if b is None:
        return NotImplemented
    if b.v is NONFINITE:
        return b
    e = frac(e)
    if e.denominator == 1:
        n = abs(int(e))
        if n > 64:
            raise Unsupported('large exponent')
        r = R(Fraction(1))
        for _ in range(n):
            r = _mul(r, b)
        return r if e >= 0 else _div(R(Fraction(1)), r)
    if e.denominator == 2:
        return rpow(rsqrt(b), e * 2)
    raise Unsupported(f'exponent {e}')


def rsqrt(x):
    x = mkR(x)
    if x.v is NONFINITE:
        return x
    return ctx().sqrt(x)


def rfloor_i(x):
    x = mkR(x)
    if x.v is NONFINITE:
        raise Unsupported('floor of a non-finite value')
    if x.const():
        return I(math.floor(x.v))
    return I(z3.ToInt(x.v))


def rfloor(x):
    x = mkR(x)
    if x.v is NONFINITE:
        return x
    return mkR(rfloor_i(x))


def rceil(x):
    return -rfloor(-mkR(x))


def rtrunc(x):
    x = mkR(x)
    if x.v is NONFINITE:
        raise Unsupported('integer cast of a non-finite value')
    if x.const():
        return I(math.trunc(x.v))
    return I(z3.If(x.v >= 0, z3.ToInt(x.v), -z3.ToInt(-x.v)))


def rround_i(x):
    """round half to even"""
    x = mkR(x)
    if x.const():
        return I(round(x.v))
    f = z3.ToInt(x.v + z3.Q(1, 2))
    tie = z3.ToReal(f) == x.v + z3.Q(1, 2)
    return I(z3.If(z3.And(tie, f % 2 == 1), f - 1, f))


def rsin(x):
    return ctx().trig('sin', mkR(x))


def rcos(x):
    return ctx().trig('cos', mkR(x))


# -------------------------------------------------------- integer kernels
def iadd(a, b):
    if a.const() and b.const():
        return I(a.v + b.v)
    if a.const() and a.v == 0:
        return b
    if b.const() and b.v == 0:
        return a
    lo = None if a.lo is None or b.lo is None else a.lo + b.lo
    hi = None if a.hi is None or b.hi is None else a.hi + b.hi
    return I(zi(a.v) + zi(b.v), lo, hi)


def isub(a, b):
    if a.const() and b.const():
        return I(a.v - b.v)
    if b.const() and b.v == 0:
        return a
    lo = None if a.lo is None or b.hi is None else a.lo - b.hi
    hi = None if a.hi is None or b.lo is None else a.hi - b.lo
    return I(zi(a.v) - zi(b.v), lo, hi)


def imul(a, b):
    if a.const() and b.const():
        return I(a.v * b.v)
    for p, q in ((a, b), (b, a)):
        if p.const():
            if p.v == 0:
                return I(0)
            if p.v == 1:
                return q
    lo = hi = None
    if None not in (a.lo, a.hi, b.lo, b.hi):
        c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        lo, hi = min(c), max(c)
    return I(zi(a.v) * zi(b.v), lo, hi)


def ifloordiv(a, b):
    """python floor division"""
    if b.const() and b.v == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if a.const() and b.const():
        return I(a.v // b.v)
    if b.const() and b.v > 0:
        lo = None if a.lo is None else a.lo // b.v
        hi = None if a.hi is None else a.hi // b.v
        return I(zi(a.v) / z3.IntVal(b.v), lo, hi)   # z3 int div, b>0: floor
    if bool(B(zi(b.v) == 0)):
        raise ZeroDivisionError('integer division or modulo by zero')
    if bool(B(zi(b.v) > 0)):
        return I(zi(a.v) / zi(b.v))
    return I((-zi(a.v)) / (-zi(b.v)))


def imod(a, b):
    if b.const() and b.v == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if a.const() and b.const():
        return I(a.v % b.v)
    if b.const() and b.v > 0:
        if a.lo is not None and a.hi is not None and 0 <= a.lo and a.hi < b.v:
            return a
        return I(zi(a.v) % z3.IntVal(b.v), 0, b.v - 1)
    return isub(a, imul(b, ifloordiv(a, b)))
