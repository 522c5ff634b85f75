"""numpy arrays of symbolic scalars: an ndarray subclass with object dtype
plus a stand-in for the `numpy` module whose creation functions return it."""
import math
import operator
import types
from fractions import Fraction

import numpy as np

from .core import (untoken, B, I, R, NONFINITE, Sym, Unsupported, ctx, frac, ite, mkB, mkI, mkR,
                   rceil, rcos, rfloor, rpow, rround_i, rsin, rsqrt, rtrunc)


def norm(x):
    """element normalisation: floats become exact R, ints stay python ints"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return R(frac(float(x)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return norm(x.item())
    return x


class Cx(Sym):
    """a complex number that was made from a real one"""
    __slots__ = ('re', 'half')

    def __init__(self, re, half=False):
        self.re, self.half = re, half       # half: the root of re

    def sqrt(self):
        if self.half:
            raise Unsupported('arithmetic on a complex number')
        return Cx(self.re, True)

    @property
    def real(self):
        return (rsqrt(self.re) if bool(self.re >= 0) else R(frac(0.0))) if self.half else self.re

    @property
    def imag(self):
        return (R(frac(0.0)) if bool(self.re >= 0) else rsqrt(-self.re)) if self.half else R(frac(0.0))

    def __abs__(self):
        return rsqrt(abs(self.re)) if self.half else abs(self.re)

    def item(self):
        return self


class SymComplex(complex):
    """`complex` as seen by the code under test"""
    dtype = np.dtype(complex)

    def __new__(cls, x=0.0, *a):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.item()
        if isinstance(x, Sym) and not a:
            return x if isinstance(x, Cx) else Cx(mkR(x))
        return complex(x, *a)


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(e, Sym) for e in x.ravel().tolist())
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def _o(x):
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray) if x.dtype == object else x.astype(object)
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def EWV(f, *args):
    """element-wise application with numpy broadcasting, without ufuncs"""
    if all(not isinstance(x, np.ndarray) for x in args):
        return f(*[norm(x) for x in args])
    arrs = np.broadcast_arrays(*[_o(x) for x in args])
    out = np.empty(arrs[0].shape, dtype=object)
    its = [a.ravel().tolist() for a in arrs]
    flat = out.reshape(-1) if out.flags['C_CONTIGUOUS'] else None
    for k, es in enumerate(zip(*its)):
        flat[k] = f(*[norm(e) for e in es])
    return out


def _vnorm(a):
    return EWV(norm, a)


def symarr(a, kind=None):
    a = np.asarray(a)
    if a.dtype != object:
        a = a.astype(object)
    if a.size:
        a = np.asarray(_vnorm(a), dtype=object).reshape(a.shape) if a.ndim else a
    return a.view(SymArr)


def to_obj(x):
    """ufunc operand -> plain object ndarray or scalar"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(np.ndarray)
        return np.asarray(symarr(x)).view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return np.asarray(symarr(np.array(x, dtype=object))).view(np.ndarray)
    return norm(x)


def num(x):
    """a Sym number (R or I) from anything numeric"""
    if isinstance(x, (R, I)):
        return x
    if isinstance(x, (B, bool, int)):
        return mkI(x)
    return mkR(x)


def isfin(x):
    return not (isinstance(x, R) and x.v is NONFINITE)


def pick(c, a, b):
    """if-then-else; one path per case when the scenario asks for it"""
    if ctx().hooks.get('fork_ite'):
        return a if bool(c) else b
    return ite(c, a, b)


def _max(a, b):
    a, b = num(a), num(b)
    if not isfin(a):
        return a
    if not isfin(b):
        return b
    return pick(a >= b, a, b)


def _min(a, b):
    a, b = num(a), num(b)
    if not isfin(a):
        return a
    if not isfin(b):
        return b
    return pick(a <= b, a, b)


def _sign(a):
    a = num(a)
    one, z = (R(Fraction(1)), R(Fraction(0))) if isinstance(a, R) else (I(1), I(0))
    return pick(a > 0, one, pick(a < 0, -one, z))


def _bit(fb, fi):
    def f(a, b):
        if isinstance(a, (B, bool)) or isinstance(b, (B, bool)):
            return fb(mkB(a), mkB(b))
        return fi(num(a), num(b))
    return f


def _inv(a):
    if isinstance(a, (B, bool)):
        return ~mkB(a)
    return ~num(a)


def _mul(a, b):
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
        return mkB(a) & mkB(b)
    return num(a) * num(b)


def _addf(a, b):
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
        return mkB(a) | mkB(b)
    return num(a) + num(b)


def _fmod(a, b):
    a, b = mkR(a), mkR(b)
    q = a / b
    return a - b * mkR(rtrunc(q))


def _clip(x, lo, hi):
    r = num(x)
    if lo is not None:
        r = _max(r, lo)
    if hi is not None:
        r = _min(r, hi)
    return r


CMP = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and',
       'logical_or', 'logical_not', 'logical_xor', 'isnan', 'isfinite', 'isinf', 'signbit'}


def _eq(a, b):
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
        return mkB(a) == mkB(b)
    a, b = num(a), num(b)
    if a is None or b is None:
        return False
    return a == b


def _unsup(name):
    def f(*a):
        if all(not isinstance(x, Sym) or x.const() for x in a):
            r = getattr(np, name)(*[float(x.v) if isinstance(x, (R, I)) else x for x in a])
            return R(frac(float(r)))
        h = ctx().hooks.get(name)
        if h is not None:
            return h(*[mkR(x) for x in a])
        raise Unsupported(f'numpy.{name} of a symbolic value')
    return f


EW = {
    'add': _addf,
    'subtract': lambda a, b: num(a) - num(b),
    'multiply': _mul,
    'divide': lambda a, b: mkR(a) / mkR(b),
    'true_divide': lambda a, b: mkR(a) / mkR(b),
    'floor_divide': lambda a, b: num(a) // num(b),
    'remainder': lambda a, b: num(a) % num(b),
    'mod': lambda a, b: num(a) % num(b),
    'fmod': _fmod,
    'power': lambda a, b: num(a) ** (b if not isinstance(b, Sym) else b),
    'float_power': lambda a, b: mkR(a) ** b,
    'negative': lambda a: -num(a),
    'positive': lambda a: num(a),
    'absolute': lambda a: abs(num(a)),
    'fabs': lambda a: abs(mkR(a)),
    'sign': _sign,
    'square': lambda a: num(a) * num(a),
    'reciprocal': lambda a: R(Fraction(1)) / mkR(a),
    'sqrt': lambda a: a.sqrt() if isinstance(a, Cx) else rsqrt(mkR(a)),
    'sin': lambda a: rsin(mkR(a)),
    'cos': lambda a: rcos(mkR(a)),
    'tan': lambda a: rsin(mkR(a)) / rcos(mkR(a)),
    'floor': lambda a: rfloor(mkR(a)),
    'ceil': lambda a: rceil(mkR(a)),
    'trunc': lambda a: mkR(rtrunc(mkR(a))),
    'rint': lambda a: mkR(rround_i(mkR(a))),
    'less': lambda a, b: num(a) < num(b),
    'less_equal': lambda a, b: num(a) <= num(b),
    'greater': lambda a, b: num(a) > num(b),
    'greater_equal': lambda a, b: num(a) >= num(b),
    'equal': _eq,
    'not_equal': lambda a, b: ~mkB(_eq(a, b)),
    'logical_and': lambda a, b: mkB(a) & mkB(b),
    'logical_or': lambda a, b: mkB(a) | mkB(b),
    'logical_not': lambda a: ~mkB(a),
    'logical_xor': lambda a, b: mkB(a) ^ mkB(b),
    'bitwise_and': _bit(operator.and_, operator.and_),
    'bitwise_or': _bit(operator.or_, operator.or_),
    'bitwise_xor': _bit(operator.xor, operator.xor),
    'invert': _inv,
    'bitwise_invert': _inv,
    'maximum': _max,
    'minimum': _min,
    'fmax': _max,
    'fmin': _min,
    'isnan': lambda a: not isfin(num(a)),
    'isinf': lambda a: False,
    'isfinite': lambda a: isfin(num(a)),
    'clip': _clip,
    'conjugate': lambda a: a,
    'left_shift': lambda a, b: num(a) << b,
    'right_shift': lambda a, b: num(a) >> b,
    'deg2rad': lambda a: mkR(a) * frac(math.pi / 180),
    'radians': lambda a: mkR(a) * frac(math.pi / 180),
    'hypot': lambda a, b: rsqrt(mkR(a) * mkR(a) + mkR(b) * mkR(b)),
}


def wrap(res, bools=False):
    if isinstance(res, np.ndarray):
        if res.ndim == 0:
            return wrap(res.item(), bools)
        flat = res.ravel().tolist()
        if bools or (flat and all(isinstance(e, (B, bool)) for e in flat)):
            if all(isinstance(e, (bool, np.bool_)) or isinstance(e, B) and e.const() for e in flat):
                return np.array([bool(e) for e in flat], dtype=bool).reshape(res.shape)
        return res.view(SymArr)
    if isinstance(res, B) and res.const():
        return np.bool_(res.v)
    return res


def do_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    kw.pop('casting', None)
    kw.pop('order', None)
    kw.pop('subok', None)
    dtype = kw.pop('dtype', None)
    where = kw.pop('where', True)
    f = EW.get(name)
    if name == 'matmul':
        a, b = to_obj(inputs[0]), to_obj(inputs[1])
        res = _matmul(a, b)
        return _store(out, wrap(res))
    if f is None:
        f = _unsup(name)
    if method == '__call__':
        args = [to_obj(x) for x in inputs]
        if name == 'clip':
            args = [np.array(None, dtype=object) if x is None else x for x in args]
        res = EWV(f, *args)
        if where is not True:
            w = to_obj(where)
            base = out[0].view(np.ndarray) if out is not None else np.zeros(np.shape(res), dtype=object)
            res = EWV(lambda c, a, b: ite(mkB(c), norm(a), norm(b)), w, res, base)
        res = wrap(res, name in CMP)
        return _store(out, res)
    if method == 'reduce':
        a = to_obj(inputs[0])
        axis = inputs[1] if len(inputs) > 1 else kw.pop('axis', 0)
        keep = kw.pop('keepdims', False)
        initial = kw.pop('initial', np._NoValue)
        if where is not True:
            raise Unsupported('reduce with where')
        res = _reduce(f, name, a, axis, keep, initial)
        return _store(out, wrap(res, name in CMP))
    if method == 'accumulate':
        a = to_obj(inputs[0])
        axis = inputs[1] if len(inputs) > 1 else kw.pop('axis', 0)
        res = np.array(a, dtype=object)
        m = np.moveaxis(res, axis, 0)
        for i in range(1, m.shape[0]):
            m[i] = EWV(f, m[i - 1], m[i])
        return _store(out, wrap(res))
    if method == 'reduceat':
        a = np.asarray(to_obj(inputs[0]), dtype=object)
        ix = [int(i) for i in np.asarray(conc_key(inputs[1])).ravel()]
        axis = inputs[2] if len(inputs) > 2 else kw.pop('axis', 0)
        m = np.moveaxis(a, axis, 0)
        ends = ix[1:] + [m.shape[0]]
        out = np.stack([_reduce(f, name, m[i:max(j, i + 1)], 0, False, None) for i, j in zip(ix, ends)])
        return wrap(np.moveaxis(out, 0, axis), name in CMP)
    if method == 'at':
        a, ix = inputs[0], inputs[1]
        b = inputs[2] if len(inputs) > 2 else None
        ix = conc_key(ix)
        if not isinstance(ix, tuple):
            ix = (ix,)
        ix = np.broadcast_arrays(*[np.asarray(i) for i in ix])
        bb = np.broadcast_to(to_obj(b), ix[0].shape) if b is not None else None
        av = a.view(np.ndarray)
        for p in np.ndindex(*ix[0].shape):
            k = tuple(int(i[p]) for i in ix)
            av[k] = f(norm(av[k]), norm(bb[p])) if b is not None else f(norm(av[k]))
        return None
    if method == 'outer':
        a, b = to_obj(inputs[0]), to_obj(inputs[1])
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        a2 = a.reshape(a.shape + (1,) * b.ndim)
        return wrap(EWV(f, a2, b), name in CMP)
    raise Unsupported(f'ufunc method {name}.{method}')


def _store(out, res):
    if out is None:
        return res
    o = out[0] if isinstance(out, tuple) else out
    if o.dtype != object:
        if has_sym(res):
            raise Unsupported('symbolic result stored in a native array')
        o[...] = res
        return o
    if ctx().hooks.get('int_cast') and o.size and all(isinstance(e, I) for e in o.ravel().tolist()) and any(isinstance(e, R) for e in to_obj(res).ravel().tolist()):
        raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
    o.view(np.ndarray)[...] = res
    return o


def _reduce(f, name, a, axis, keep, initial):
    a = np.asarray(a, dtype=object)
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % a.ndim for x in axis)
    else:
        axes = (axis % a.ndim,) if a.ndim else ()
    rest = [i for i in range(a.ndim) if i not in axes]
    m = np.transpose(a, rest + list(axes))
    shape = m.shape[:len(rest)]
    k = 1
    for i in axes:
        k *= a.shape[i]
    m = m.reshape(shape + (k,))
    res = np.empty(shape, dtype=object)
    ident = {'add': 0, 'multiply': 1, 'logical_or': False, 'logical_and': True,
             'bitwise_or': False, 'bitwise_and': True}
    for ix in np.ndindex(*shape):
        es = [norm(e) for e in m[ix]]
        if name in ('logical_or', 'logical_and'):
            es = [mkB(e) for e in es]
        if initial is not np._NoValue and initial is not None:
            es = [norm(initial)] + es
        if not es:
            if name not in ident:
                raise ValueError(f'zero-size array to reduction operation {name} which has no identity')
            res[ix] = norm(float(ident[name])) if name in ('add', 'multiply') else ident[name]
            continue
        if name == 'add':
            es = [mkI(e) if isinstance(e, (B, bool)) else e for e in es]
        r = es[0]
        for e in es[1:]:
            r = f(r, e)
        res[ix] = r
    if keep:
        res = res.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    return res if res.ndim else res.item()


def _matmul(a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if a.ndim == 1 and b.ndim == 1:
        return _reduce(_addf, 'add', EWV(_mul, a, b), None, False, np._NoValue)
    if a.ndim == 2 and b.ndim == 1:
        return np.array([_matmul(r, b) for r in a], dtype=object)
    if a.ndim == 1 and b.ndim == 2:
        return np.array([_matmul(a, c) for c in b.T], dtype=object)
    if a.ndim == 2 and b.ndim == 2:
        out = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                out[i, j] = _matmul(a[i], b[:, j])
        return out
    raise Unsupported('matmul rank')


def conc_key(key):
    """index expression -> native index expression (forks on symbolic parts)"""
    if isinstance(key, tuple):
        return tuple(conc_key(k) for k in key)
    if isinstance(key, B):
        return bool(key)
    if isinstance(key, I):
        return int(key)
    if isinstance(key, R):
        raise IndexError('only integers, slices, ellipsis, numpy.newaxis and integer or boolean arrays are valid indices')
    if isinstance(key, slice):
        return slice(*[None if p is None else (int(p) if isinstance(p, Sym) else p)
                       for p in (key.start, key.stop, key.step)])
    if isinstance(key, np.ndarray) and key.dtype == object or isinstance(key, list) and has_sym(key):
        a = np.asarray(key, dtype=object)
        fl = a.ravel().tolist()
        if fl and all(isinstance(e, (B, bool, np.bool_)) for e in fl):
            return np.array([bool(e) for e in fl], dtype=bool).reshape(a.shape)
        if any(isinstance(e, R) for e in fl):
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        return np.array([int(e) for e in fl], dtype=np.int64).reshape(a.shape)
    return key


def cast_el(x, dt):
    """element conversion of ndarray.astype"""
    dt = np.dtype(dt) if not isinstance(dt, np.dtype) else dt
    if dt.kind == 'f':
        return mkR(x)
    if dt.kind in 'iu':
        if isinstance(x, (I, int)) and not isinstance(x, bool):
            return x
        if isinstance(x, (B, bool)):
            return mkI(x)
        r = mkR(x)
        if r.v is NONFINITE:
            # numpy: undefined value; keep it visible
            h = ctx().hooks.get('nan_to_int')
            if h:
                return h()
            raise Unsupported('integer cast of a non-finite value')
        return rtrunc(r)
    if dt.kind == 'b':
        return mkB(x)
    if dt.kind == 'O':
        return x
    if dt.kind == 'c':
        return x if isinstance(x, Cx) else Cx(mkR(x))
    raise Unsupported(f'astype {dt}')


class SymArr(np.ndarray):
    __array_priority__ = 2000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, typs, args, kwargs):
        h = AF.get(func.__name__)
        if h is not None:
            return h(*args, **kwargs)
        r = super().__array_function__(func, typs, args, kwargs)
        return rewrap(r)

    @property
    def real(self):
        return EWV(lambda x: x.real, self.view(np.ndarray)).view(SymArr) if self.size else self.copy()

    @property
    def imag(self):
        return EWV(lambda x: x.imag, self.view(np.ndarray)).view(SymArr) if self.size else self.copy()

    def __getitem__(self, key):
        key = conc_key(key)
        r = super().__getitem__(key)
        if not isinstance(r, np.ndarray):
            return norm(r)
        return r

    def __setitem__(self, key, val):
        if isinstance(key, np.ndarray) and key.dtype == object and key.shape == self.shape \
                and key.size and all(isinstance(e, (B, bool)) for e in key.ravel().tolist()) \
                and np.ndim(val) == 0:
            base = self.view(np.ndarray)
            v = norm(val)
            for ix in np.ndindex(*self.shape):
                base[ix] = pick(mkB(key[ix]), v, norm(base[ix]))
            return
        key = conc_key(key)
        if isinstance(val, (np.ndarray, list, tuple)):
            val = to_obj(np.array(val, dtype=object) if not isinstance(val, np.ndarray) else val)
        else:
            val = norm(val)
        super().__setitem__(key, val)

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        dt = np.dtype(dtype)
        if dt.kind == 'O':
            return self.copy()
        return EWV(lambda x: cast_el(x, dt), self.view(np.ndarray)).view(SymArr) if self.size else self.copy()

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return wrap(_reduce(_addf, 'add', self.view(np.ndarray), axis, keepdims, np._NoValue))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis, keepdims=keepdims) / n

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return wrap(_reduce(EW['logical_or'], 'logical_or', self.view(np.ndarray), axis, keepdims, np._NoValue), True)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return wrap(_reduce(EW['logical_and'], 'logical_and', self.view(np.ndarray), axis, keepdims, np._NoValue), True)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return wrap(_reduce(_max, 'maximum', self.view(np.ndarray), axis, keepdims, np._NoValue))

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return wrap(_reduce(_min, 'minimum', self.view(np.ndarray), axis, keepdims, np._NoValue))

    def clip(self, min=None, max=None, out=None, **kw):
        r = EWV(lambda x: _clip(x, None if min is None else norm(min), None if max is None else norm(max)),
                self.view(np.ndarray)) if np.ndim(min if min is not None else 0) == 0 and np.ndim(max if max is not None else 0) == 0 \
            else None
        if r is None:
            raise Unsupported('clip with array bounds')
        return _store(out, wrap(r))

    def argmax(self, axis=None, out=None, **kw):
        return _arg(self, axis, lambda a, b: num(a) > num(b))

    def argmin(self, axis=None, out=None, **kw):
        return _arg(self, axis, lambda a, b: num(a) < num(b))

    def round(self, decimals=0, out=None):
        if decimals:
            raise Unsupported('round(decimals)')
        return EWV(EW['rint'], self.view(np.ndarray)).view(SymArr)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def item(self, *a):
        return norm(super().item(*a))

    def dot(self, b, out=None):
        return wrap(_matmul(to_obj(self), to_obj(b)))

    def sort(self, axis=-1, kind=None, order=None, **kw):
        if self.ndim != 1:
            raise Unsupported('sort of nd array')
        self.view(np.ndarray)[:] = _sorted(self)

    def nonzero(self):
        m = np.array([bool(mkB(e)) for e in self.ravel().tolist()], dtype=bool).reshape(self.shape)
        return intwrap(m.nonzero())

    def std(self, axis=None, ddof=0, **kw):
        return rsqrt(self.var(axis, ddof))

    def var(self, axis=None, ddof=0, **kw):
        m = self.mean(axis)
        d = self - m
        return (d * d).sum(axis) / (self.size - ddof)


def _arg(a, axis, better):
    if axis is not None and a.ndim > 1:
        m = np.moveaxis(a.view(np.ndarray), axis, -1)
        out = np.empty(m.shape[:-1], dtype=np.int64)
        for ix in np.ndindex(*out.shape):
            out[ix] = _arg(m[ix].view(SymArr), None, better)
        return out
    es = [norm(e) for e in a.ravel().tolist()]
    if not es:
        raise ValueError('attempt to get argmax of an empty sequence')
    if es and all(isinstance(e, (B, bool)) for e in es):
        es = [mkI(e) for e in es]
    k = 0
    for i in range(1, len(es)):
        if bool(better(es[i], es[k])):
            k = i
    return k


def _sorted(a):
    es = [norm(e) for e in np.asarray(a, dtype=object).ravel().tolist()]
    out = []
    for e in es:
        i = 0
        while i < len(out) and not bool(num(e) < num(out[i])):
            i += 1
        out.insert(i, e)
    r = np.empty(len(out), dtype=object)
    r[:] = out
    return r


def rewrap(r):
    if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SymArr):
        return r.view(SymArr)
    if isinstance(r, tuple):
        return tuple(rewrap(x) for x in r)
    if isinstance(r, list):
        return [rewrap(x) for x in r]
    return r


class IntArr(np.ndarray):
    """plain integers; whatever would turn them into floats is done exactly instead"""

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if any(isinstance(x, SymArr) for x in inputs) or any(isinstance(x, Sym) for x in inputs):
            return do_ufunc(ufunc, method, tuple(x.view(np.ndarray) if isinstance(x, IntArr) else x for x in inputs), kw)
        out = kw.get('out')
        if out is not None:
            kw['out'] = tuple(x.view(np.ndarray) if isinstance(x, IntArr) else x for x in out)
        plain = [x.view(np.ndarray) if isinstance(x, IntArr) else x for x in inputs]
        isf = any(isinstance(x, (float, np.floating)) or isinstance(x, np.ndarray) and x.dtype.kind == 'f' for x in plain)
        if out is None and method == '__call__' and ufunc.__name__ in EW and (
                isf and ufunc.__name__ not in CMP or ufunc.__name__ in ('divide', 'true_divide', 'sqrt', 'sin', 'cos', 'tan', 'exp', 'log')):
            return do_ufunc(ufunc, method, tuple(symarr(x) if isinstance(x, np.ndarray) else x for x in plain), kw)
        return intwrap(getattr(ufunc, method)(*plain, **kw))

    def __array_function__(self, func, typs, args, kwargs):
        if any(issubclass(t, SymArr) for t in typs) or func.__name__ in ('mean', 'average', 'std', 'var', 'median', 'linspace'):
            h = AF.get(func.__name__)
            if h is not None:
                return h(*[symarr(a.view(np.ndarray)) if isinstance(a, IntArr) else a for a in args], **kwargs)
        return intwrap(super().__array_function__(func, typs, args, kwargs))

    def mean(self, axis=None, **kw):
        return symarr(self.view(np.ndarray)).mean(axis)

    def __getitem__(self, key):
        return super().__getitem__(conc_key(key))

    def __setitem__(self, key, val):
        super().__setitem__(conc_key(key), conc_key(val) if isinstance(val, (I, SymArr)) else val)


def intwrap(r):
    if isinstance(r, np.ndarray):
        return r.view(IntArr) if r.dtype.kind in 'iu' else r.view(np.ndarray) if isinstance(r, IntArr) else r
    if isinstance(r, tuple):
        return tuple(intwrap(x) for x in r)
    return r


# --------------------------------------------------------- array functions
def af_where(c, a=None, b=None):
    if a is None:
        if isinstance(c, np.ndarray):
            return SymArr.nonzero(symarr(c))
    c, a, b = to_obj(c), to_obj(a), to_obj(b)
    return wrap(EWV(lambda x, y, z: pick(mkB(norm(x)), norm(y), norm(z)), c, a, b))


def af_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    return SymArr.clip(symarr(a) if not isinstance(a, SymArr) else a, lo, hi, out)


def af_argwhere(a):
    return np.transpose(SymArr.nonzero(symarr(a)))


def af_like(fill):
    def f(a, dtype=None, *r, **k):
        x = np.empty(np.shape(a), dtype=object)
        kind = np.dtype(dtype).kind if dtype is not None else 'f'
        if kind in 'iu':
            return np.full(np.shape(a), int(fill), dtype=dtype)
        if kind == 'b':
            return np.full(np.shape(a), bool(fill))
        x[...] = norm(float(fill))
        return x.view(SymArr)
    return f


def af_full_like(a, fill_value, dtype=None, **k):
    x = np.empty(np.shape(a), dtype=object)
    x[...] = norm(fill_value)
    return x.view(SymArr)


def af_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return mkB(symarr(to_obj(af_isclose(a, b, rtol, atol))).all())


def af_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = to_obj(a), to_obj(b)
    return wrap(EWV(lambda x, y: abs(num(x) - num(y)) <= mkR(atol) + mkR(rtol) * abs(num(y)), a, b), True)


def af_diff(a, n=1, axis=-1, **k):
    if n != 1:
        raise Unsupported('diff n')
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    r = EWV(lambda x, y: num(x) - num(y), m[..., 1:], m[..., :-1])
    return np.moveaxis(np.asarray(r, dtype=object).reshape(m[..., 1:].shape), -1, axis).view(SymArr)


def af_array_equal(a, b, **k):
    if np.shape(a) != np.shape(b):
        return False
    return mkB(symarr(EWV(_eq, to_obj(a), to_obj(b))).all())


def af_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp period')
    xs = [norm(e) for e in to_obj(xp).tolist()]
    fs = [norm(e) for e in to_obj(fp).tolist()]

    def one(v):
        v = mkR(v)
        if ctx().hooks.get('fork_ite'):
            if v < mkR(xs[0]):
                return mkR(fs[0] if left is None else norm(left))
            for i in range(len(xs) - 1):
                a, b = mkR(xs[i]), mkR(xs[i + 1])
                if v < b:
                    return mkR(fs[i]) + (mkR(fs[i + 1]) - mkR(fs[i])) / (b - a) * (v - a)
            if right is None or v <= mkR(xs[-1]):
                return mkR(fs[-1])
            return mkR(norm(right))
        r = mkR(fs[-1] if right is None else norm(right))
        # build from the right
        r = ite(v <= mkR(xs[-1]), mkR(fs[-1]), r)
        for i in range(len(xs) - 2, -1, -1):
            a, b = mkR(xs[i]), mkR(xs[i + 1])
            sl = (mkR(fs[i + 1]) - mkR(fs[i])) / (b - a)
            r = ite(v < b, mkR(fs[i]) + sl * (v - a), r)
        return ite(v < mkR(xs[0]), mkR(fs[0] if left is None else norm(left)), r)
    return wrap(EWV(one, to_obj(x)))


def af_gradient(f, *x, axis=None, edge_order=1):
    y = [mkR(e) for e in to_obj(f).tolist()]
    if np.ndim(f) != 1 or edge_order != 1 or len(x) > 1:
        raise Unsupported('gradient')
    n = len(y)
    if n < 2:
        raise ValueError('Shape of array too small to calculate a numerical gradient')
    if not x or np.ndim(x[0]) == 0:
        h = [mkR(norm(x[0])) if x else R(Fraction(1))] * (n - 1)
    else:
        t = [mkR(e) for e in to_obj(x[0]).tolist()]
        h = [t[i + 1] - t[i] for i in range(n - 1)]
    out = [(y[1] - y[0]) / h[0]]
    for i in range(1, n - 1):
        a, b = h[i - 1], h[i]
        out.append((a * a * y[i + 1] + (b * b - a * a) * y[i] - b * b * y[i - 1]) / (a * b * (a + b)))
    out.append((y[-1] - y[-2]) / h[-1])
    return symarr(np.array(out, dtype=object))


def af_unique(a, **k):
    if k:
        raise Unsupported('unique with options')
    s = _sorted(a).tolist()
    out = []
    for e in s:
        if not out or bool(num(e) != num(out[-1])):
            out.append(e)
    return symarr(np.array(out, dtype=object))


def af_average(a, axis=None, weights=None, **k):
    if weights is None:
        return symarr(a).mean(axis)
    w = symarr(weights)
    return (symarr(a) * w).sum(axis) / w.sum(axis)


def af_convolve(a, v, mode='full'):
    if mode == 'valid':
        a, v = to_obj(a), to_obj(v)
        if len(v) > len(a):
            a, v = v, a
        n = len(a) - len(v) + 1
        return symarr(np.array([_matmul(a[i:i + len(v)], v[::-1]) for i in range(n)], dtype=object))
    raise Unsupported('convolve mode')


def af_cumsum(a, axis=None, **k):
    a = to_obj(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return do_ufunc(np.add, 'accumulate', (a, axis), {})


def ints_of(a):
    """concrete integer array (symbolic entries fork)"""
    o = to_obj(a)
    out = np.empty(o.shape, dtype=np.int64)
    for ix in np.ndindex(*o.shape):
        e = norm(o[ix])
        out[ix] = e if isinstance(e, int) else ctx().concretize(mkI(e)) if not isinstance(e, R) else int(e)
    return out


def af_take(a, indices, axis=None, out=None, mode='raise'):
    ix = ints_of(indices)
    r = np.take(to_obj(a), ix, axis=axis, mode=mode)
    return wrap(r) if isinstance(r, np.ndarray) else norm(r)


def af_bincount(x, weights=None, minlength=0):
    ix = ints_of(x)
    n = max(int(ix.max()) + 1 if ix.size else 0, int(minlength))
    if weights is None:
        return np.bincount(ix, minlength=int(minlength))
    if ix.size and ix.min() < 0:
        raise ValueError("'list' argument must have no negative elements")
    w = to_obj(weights)
    if w.shape != ix.shape:
        raise ValueError('The weights and list don\'t have the same length.')
    out = np.empty(n, dtype=object)
    out[:] = R(Fraction(0))
    for k, v in zip(ix.tolist(), w.tolist()):
        out[k] = num(out[k]) + num(norm(v))
    return out.view(SymArr)


def af_histogram(a, bins=10, range=None, density=None, weights=None):
    if isinstance(bins, int) or range is not None or density:
        raise Unsupported('histogram with automatic bins')
    e = [norm(v) for v in to_obj(bins).tolist()]
    vals = [norm(v) for v in to_obj(a).ravel().tolist()]
    ws = None if weights is None else [norm(v) for v in to_obj(weights).ravel().tolist()]
    cnt = [0] * (len(e) - 1)
    for k, v in enumerate(vals):
        for j, _ in enumerate(cnt):
            hi = num(v) < num(e[j + 1]) if j < len(cnt) - 1 else num(v) <= num(e[j + 1])
            if bool(num(v) >= num(e[j])) and bool(hi):
                cnt[j] = cnt[j] + (1 if ws is None else ws[k])
                break
    if ws is None:
        return np.array(cnt, dtype=np.int64), bins
    return symarr(np.array(cnt, dtype=object)), bins


def af_searchsorted(a, v, side='left', sorter=None):
    e = [norm(x) for x in to_obj(a).tolist()]

    def one(x):
        k = 0
        for t in e:
            c = num(t) < num(x) if side == 'left' else num(t) <= num(x)
            if not bool(c):
                break
            k += 1
        return k
    o = to_obj(v)
    if o.shape == ():
        return one(norm(o[()]))
    return np.array([one(norm(x)) for x in o.ravel().tolist()]).reshape(o.shape)


def af_digitize(x, bins, right=False):
    return af_searchsorted(bins, x, side='left' if right else 'right')


def af_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported('norm ord')
    x = symarr(x)
    return np.sqrt((x * x).sum(axis))


def af_einsum(*a, **k):
    return rewrap(np.einsum(a[0], *[to_obj(x) for x in a[1:]]))


def af_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    return wrap(EWV(lambda v: norm(v) if isfin(num(norm(v))) else norm(float(nan)), to_obj(x)))


def af_median(a, axis=None, **k):
    if axis is not None:
        raise Unsupported('median axis')
    s = _sorted(symarr(a).ravel())
    n = len(s)
    return num(s[n // 2]) if n % 2 else (num(s[n // 2 - 1]) + num(s[n // 2])) / 2


def af_polyfit(x, y, deg, **kw):
    """least-squares straight line, as numpy computes it (up to rounding)"""
    if deg != 1 or kw:
        raise Unsupported('polyfit of this degree')
    x = [num(e) for e in np.asarray(x, dtype=object).ravel().tolist()]
    y = [mkR(e) for e in np.asarray(y, dtype=object).ravel().tolist()]
    if not x:
        raise TypeError('expected non-empty vector for x')
    if len(x) != len(y):
        raise TypeError('expected x and y to have same length')
    n = len(x)
    mx, my = sum(x) / n, sum(y) / n
    sxx = sum((a - mx) * (a - mx) for a in x)
    b = sum((a - mx) * c for a, c in zip(x, y)) / sxx
    return symarr(np.array([b, my - b * mx], dtype=object))


AF = {
    'polyfit': af_polyfit,
    'take': af_take,
    'bincount': af_bincount,
    'histogram': af_histogram,
    'searchsorted': af_searchsorted,
    'digitize': af_digitize,
    'norm': af_norm,
    'einsum': af_einsum,
    'nan_to_num': af_nan_to_num,
    'median': af_median,
    'prod': lambda a, axis=None, **k: do_ufunc(np.multiply, 'reduce', (symarr(a),), {'axis': axis}),
    'where': af_where,
    'clip': af_clip,
    'argwhere': af_argwhere,
    'zeros_like': af_like(0),
    'ones_like': af_like(1),
    'empty_like': af_like(0),
    'full_like': af_full_like,
    'allclose': af_allclose,
    'isclose': af_isclose,
    'diff': af_diff,
    'array_equal': af_array_equal,
    'interp': af_interp,
    'gradient': af_gradient,
    'unique': af_unique,
    'average': af_average,
    'convolve': af_convolve,
    'cumsum': af_cumsum,
    'sum': lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: SymArr.sum(symarr(a), axis, None, None, keepdims is True),
    'mean': lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: SymArr.mean(symarr(a), axis, None, None, keepdims is True),
    'any': lambda a, axis=None, out=None, keepdims=False, **k: SymArr.any(symarr(a), axis, None, keepdims is True),
    'all': lambda a, axis=None, out=None, keepdims=False, **k: SymArr.all(symarr(a), axis, None, keepdims is True),
    'max': lambda a, axis=None, out=None, keepdims=False, **k: SymArr.max(symarr(a), axis, None, keepdims is True),
    'amax': lambda a, axis=None, out=None, keepdims=False, **k: SymArr.max(symarr(a), axis, None, keepdims is True),
    'min': lambda a, axis=None, out=None, keepdims=False, **k: SymArr.min(symarr(a), axis, None, keepdims is True),
    'amin': lambda a, axis=None, out=None, keepdims=False, **k: SymArr.min(symarr(a), axis, None, keepdims is True),
    'std': lambda a, axis=None, **k: SymArr.std(symarr(a), axis),
    'var': lambda a, axis=None, **k: SymArr.var(symarr(a), axis),
    'argmax': lambda a, axis=None, **k: SymArr.argmax(symarr(a), axis),
    'argmin': lambda a, axis=None, **k: SymArr.argmin(symarr(a), axis),
    'nonzero': lambda a: SymArr.nonzero(symarr(a)),
    'flatnonzero': lambda a: SymArr.nonzero(symarr(a).ravel())[0],
    'count_nonzero': lambda a, axis=None, **k: symarr(EWV(lambda x: mkI(mkB(x)), to_obj(a))).sum(axis),
    'dot': lambda a, b, out=None: wrap(_matmul(to_obj(a), to_obj(b)) if np.ndim(a) and np.ndim(b) else EWV(_mul, to_obj(a), to_obj(b))),
    'sort': lambda a, axis=-1, **k: symarr(_sorted(a)),
    'round': lambda a, decimals=0, out=None: SymArr.round(a, decimals),
    'trapz': lambda y, x=None, dx=1.0, axis=-1: _trapz(y, x, dx, axis),
    'trapezoid': lambda y, x=None, dx=1.0, axis=-1: _trapz(y, x, dx, axis),
    'ptp': lambda a, axis=None, **k: SymArr.max(symarr(a), axis) - SymArr.min(symarr(a), axis),
    'isrealobj': lambda a: True,
    'iscomplexobj': lambda a: False,
}


def _trapz(y, x, dx, axis):
    y = symarr(y)
    if x is not None:
        d = af_diff(symarr(x))
    else:
        d = dx
    m = np.moveaxis(y, axis, -1)
    return (d * (m[..., 1:] + m[..., :-1]) / 2.0).sum(-1)


def _sym_ufunc(self, ufunc, method, *inputs, **kw):
    return do_ufunc(ufunc, method, inputs, kw)


R.__array_ufunc__ = _sym_ufunc
I.__array_ufunc__ = _sym_ufunc
B.__array_ufunc__ = _sym_ufunc


# -------------------------------------------------------- the numpy module
def _kind(dtype):
    if dtype is None:
        return None
    return np.dtype(dtype).kind


class SymNumpy(types.ModuleType):
    """`numpy` as seen by the code under test."""

    def __init__(self):
        super().__init__('numpy')
        self.__dict__['__file__'] = np.__file__
        self.__dict__['__path__'] = np.__path__

    def __getattr__(self, name):
        return getattr(np, name)

    def __dir__(self):
        return dir(np)

    @staticmethod
    def _mk(shape, v, dtype):
        k = _kind(dtype)
        if k in ('i', 'u', 'b'):
            return intwrap(np.full(shape, v, dtype=dtype))
        a = np.empty(shape, dtype=object)
        a[...] = norm(float(v)) if not isinstance(v, Sym) else v
        return a.view(SymArr)

    @staticmethod
    def savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', encoding=None):
        from .core import fill
        a = np.asarray(X, dtype=object)
        a = a.reshape(-1, 1) if a.ndim < 2 else a
        fs = [fmt] * a.shape[1] if isinstance(fmt, str) and fmt.count('%') == 1 else fmt
        one = fs if isinstance(fs, str) else delimiter.join(fs)
        f = fname if hasattr(fname, 'write') else open(fname, 'w')
        try:
            for h in [header]:
                if h:
                    f.write(comments + h.replace('\n', '\n' + comments) + newline)
            for r in a:
                f.write(fill(one, tuple(r)) + newline)
            if footer:
                f.write(comments + footer.replace('\n', '\n' + comments) + newline)
        finally:
            if f is not fname:
                f.close()

    @staticmethod
    def zeros(shape, dtype=None, order='C', **k):
        return SymNumpy._mk(conc_key(shape) if not isinstance(shape, list) else tuple(shape), 0, dtype)

    @staticmethod
    def ones(shape, dtype=None, order='C', **k):
        return SymNumpy._mk(shape, 1, dtype)

    @staticmethod
    def empty(shape, dtype=None, order='C', **k):
        return SymNumpy._mk(shape, 0, dtype)

    @staticmethod
    def full(shape, fill_value, dtype=None, **k):
        if np.ndim(fill_value) == 0 and not isinstance(fill_value, Sym):
            if dtype is None and isinstance(fill_value, (bool, int, np.integer, np.bool_)):
                return intwrap(np.full(shape, fill_value))
            return SymNumpy._mk(shape, fill_value, dtype)
        a = np.empty(shape, dtype=object)
        a[...] = to_obj(fill_value)
        return a.view(SymArr)

    zeros_like = staticmethod(lambda a, dtype=None, **k: AF['zeros_like'](a, dtype) if _likekind(a, dtype) else np.zeros_like(a, dtype))
    ones_like = staticmethod(lambda a, dtype=None, **k: AF['ones_like'](a, dtype) if _likekind(a, dtype) else np.ones_like(a, dtype))
    empty_like = staticmethod(lambda a, dtype=None, **k: AF['empty_like'](a, dtype) if _likekind(a, dtype) else np.zeros_like(a, dtype))

    @staticmethod
    def array(x, dtype=None, copy=True, order='K', ndmin=0, **k):
        if _kind(dtype) in ('f', 'i') and _has_token(x):
            g = SymFloat if _kind(dtype) == 'f' else SymInt
            u = np.asarray(x)
            a = np.empty(u.shape, dtype=object)
            for ix in np.ndindex(*u.shape):
                a[ix] = norm(g(str(u[ix])))
            return symarr(a)
        if _kind(dtype) == 'c':
            return symarr(_arr(x) if not isinstance(x, np.ndarray) else x.copy()).astype(dtype)
        if isinstance(x, np.ndarray) and x.dtype != object:
            kd = _kind(dtype) or x.dtype.kind
            if kd == 'f':
                return symarr(x.copy())
            return intwrap(np.array(x, dtype=dtype, copy=True))
        if isinstance(x, np.ndarray):
            a = symarr(x.copy())
        elif has_sym(x) or _has_arr(x):
            a = symarr(_arr(x))
        else:
            a = np.array(x, dtype=dtype, ndmin=ndmin)
            return symarr(a) if a.dtype.kind == 'f' else intwrap(a)
        if dtype is not None and np.dtype(dtype).kind != 'O':
            a = a.astype(dtype)
        while a.ndim < ndmin:
            a = a[None]
        return a

    @staticmethod
    def genfromtxt(fname, dtype=float, **k):
        with open(fname) as f:
            t = f.read()
        if '\u27e6' not in t:
            return SymNumpy.array(np.genfromtxt(fname, dtype=dtype, **k))
        ls = [[norm(SymFloat(e)) for e in l.split()] for l in t.splitlines() if l.strip()]
        if len(ls) == 1 or max(len(l) for l in ls) == 1:
            a = np.empty(sum(len(l) for l in ls), dtype=object)
            a[:] = [e for l in ls for e in l]
            return symarr(a.reshape(()) if a.size == 1 else a)
        a = np.empty((len(ls), len(ls[0])), dtype=object)
        for i, l in enumerate(ls):
            a[i, :] = l
        return symarr(a)

    loadtxt = genfromtxt

    @staticmethod
    def asarray(x, dtype=None, **k):
        if _kind(dtype) in ('f', 'i') and _has_token(x):
            return SymNumpy.array(x, dtype)
        if isinstance(x, SymArr) and (dtype is None or _kind(dtype) == 'O'):
            return x
        if isinstance(x, SymArr) and _kind(dtype) == 'f' and all(isinstance(e, R) for e in x.ravel().tolist()):
            return x
        if isinstance(x, np.ndarray) and x.dtype != object and x.dtype.kind != 'f' and dtype is None:
            return x
        return SymNumpy.array(x, dtype)

    asanyarray = asarray
    asfarray = staticmethod(lambda x, **k: SymNumpy.array(x, float))

    @staticmethod
    def ascontiguousarray(x, dtype=None, **k):
        a = SymNumpy.asarray(x, dtype)
        if isinstance(a, SymArr) and not a.flags['C_CONTIGUOUS']:
            return np.array(a.view(np.ndarray), order='C', copy=True).view(SymArr)
        return a if isinstance(a, SymArr) else np.ascontiguousarray(a)

    @staticmethod
    def copy(a, **k):
        if isinstance(a, np.ndarray) and a.dtype != object and a.dtype.kind != 'f':
            return a.copy()
        return SymNumpy.array(a)

    @staticmethod
    def arange(*a, dtype=None, **k):
        a = [int(x) if isinstance(x, I) else x for x in a]
        if any(isinstance(x, R) and not x.const() for x in a):
            return _sym_arange(a)
        a = [float(x.v) if isinstance(x, R) else x for x in a]
        r = np.arange(*a, dtype=dtype, **k)
        return symarr(r) if r.dtype.kind == 'f' else intwrap(r)

    @staticmethod
    def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, **k):
        n = int(num)
        d = n - 1 if endpoint else n
        s, e = mkR(start), mkR(stop)
        step = (e - s) / d if d else R(Fraction(0))
        out = symarr(np.array([s + step * i for i in range(n)] or [], dtype=object))
        return (out, step) if retstep else out

    @staticmethod
    def sum(a, axis=None, **k):
        if isinstance(a, (list, tuple)) and has_sym(a):
            return SymArr.sum(symarr(_arr(a)), axis)
        return np.sum(a, axis=axis, **k)

    @staticmethod
    def isscalar(x):
        return isinstance(x, Sym) or np.isscalar(x)

    @staticmethod
    def where(c, *a):
        if has_sym(c) or any(has_sym(x) for x in a):
            return af_where(c, *a)
        return np.where(c, *a)

    @staticmethod
    def isin(a, b, **k):
        if has_sym(a) or has_sym(b):
            bs = [norm(e) for e in np.asarray(b, dtype=object).ravel().tolist()]

            def one(x):
                r = B(False)
                for e in bs:
                    r = r | (num(x) == num(e))
                return r
            return wrap(EWV(one, to_obj(a)), True)
        return np.isin(a, b, **k)

    @staticmethod
    def _wrapl(name):
        f = getattr(np, name)

        def g(*a, **k):
            return rewrap(f(*[symarr(_arr(x)) if isinstance(x, (list, tuple)) and has_sym(x) else x for x in a], **k))
        return staticmethod(g)


def _has_token(x):
    if isinstance(x, np.ndarray):
        return x.dtype.kind == 'U' and any('\u27e6' in e for e in x.ravel().tolist())
    return isinstance(x, (list, tuple)) and any(isinstance(e, str) and '\u27e6' in e for e in x)


def _likekind(a, dtype):
    k = _kind(dtype)
    if k is not None:
        return k in 'fO'
    if isinstance(a, np.ndarray):
        return a.dtype.kind in 'fO'
    return has_sym(a) or np.asarray(a).dtype.kind == 'f'


def _has_arr(x):
    return isinstance(x, (list, tuple)) and any(
        isinstance(e, np.ndarray) and e.dtype == object or _has_arr(e) for e in x)


def _arr(x):
    """nested lists/arrays with symbolic leaves -> object ndarray"""
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype != object else x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        subs = [_arr(e) for e in x]
        shapes = {np.shape(s) for s in subs}
        if len(shapes) > 1:
            raise ValueError('setting an array element with a sequence: inhomogeneous shape')
        out = np.empty((len(subs),) + (shapes.pop() if shapes else ()), dtype=object)
        for i, s in enumerate(subs):
            out[i] = s
        return out
    return norm(x)


def _sym_arange(a):
    if len(a) == 1:
        lo, hi, st = R(Fraction(0)), mkR(a[0]), R(Fraction(1))
    else:
        lo, hi, st = mkR(a[0]), mkR(a[1]), mkR(a[2]) if len(a) > 2 else R(Fraction(1))
    n = int(-(((lo - hi) / st) // 1).__floor__()) if True else 0
    return symarr(np.array([lo + st * i for i in range(max(n, 0))], dtype=object))


for _n in ('any', 'all', 'max', 'min', 'amax', 'amin', 'mean', 'concatenate', 'vstack', 'hstack', 'stack',
           'diff', 'cumsum', 'sort', 'unique', 'argmax', 'argmin', 'repeat', 'tile', 'dot', 'interp', 'polyfit', 'gradient'):
    setattr(SymNumpy, _n, SymNumpy._wrapl(_n))


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, R))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, R))


class SymFloat(float, metaclass=_FloatMeta):
    """`float` as seen by the code under test"""
    dtype = np.dtype(float)

    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return mkR(x)
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return mkR(x.item())
        if isinstance(x, str) and '\u27e6' in x:
            v = untoken(x)
            if v is None:
                raise ValueError(f'could not convert string to float: {x!r}')
            return mkR(v)
        return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, I))

    def __subclasscheck__(cls, c):
        return issubclass(c, (int, I))


class SymInt(int, metaclass=_IntMeta):
    """`int` as seen by the code under test"""
    dtype = np.dtype(int)

    def __new__(cls, x=0, *a):
        if isinstance(x, R):
            if x.v is NONFINITE:
                raise ValueError('cannot convert float NaN to integer')
            return rtrunc(x)
        if isinstance(x, (I, B)):
            return mkI(x)
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.item())
        if isinstance(x, str) and '\u27e6' in x:
            v = untoken(x)
            if not isinstance(v, (I, B)):
                raise ValueError(f'invalid literal for int(): {x!r}')
            return mkI(v)
        return int(x, *a)


class _F64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.float64, R))

    def __subclasscheck__(cls, c):
        return issubclass(c, np.float64)


class SymF64(float, metaclass=_F64Meta):
    dtype = np.dtype(np.float64)
    __name__ = 'float64'

    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return mkR(x)
        if isinstance(x, np.ndarray):
            return SymNumpy.array(x, float)
        return np.float64(x)


class SymF32(float, metaclass=_F64Meta):
    dtype = np.dtype(np.float64)

    def __new__(cls, x=0.0):
        return SymF64(x)


SymNumpy.float64 = SymF64
SymNumpy.float_ = SymF64
SymNumpy.float32 = SymF32
