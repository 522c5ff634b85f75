"""The native extension as a python module whose functions are executed
symbolically from LLVM IR.  The IR is produced from /repo's current C++ sources
(compiled unmodified against stand-in pybind11 / iostream headers)."""
import glob
import hashlib
import os
import subprocess
import types

import numpy as np

from .core import (B, I, R, Sym, Unsupported, ctx, frac, mkB, mkI, mkR, rtrunc)
from .llexec import (BASES, CxxExc, Exec, NULL, PYERR, PYEXC, Ptr, conv, demangle, simp)
from .llparse import INTS, DOUBLE, FLOAT, Module
from .nparr import SymArr, cast_el, norm, symarr

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(os.path.dirname(HERE)), '.build')

F64, F32, I32, I64, BOOL = 1, 2, 3, 4, 5
ITEM = {F64: 8, F32: 4, I32: 4, I64: 8, BOOL: 1}
LTY = {F64: DOUBLE, F32: FLOAT, I32: INTS[32], I64: INTS[64], BOOL: INTS[8]}


class BuildError(Exception):
    pass


def src_hash(files, *extra):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    for e in extra:
        h.update(str(e).encode())
    return h.hexdigest()[:20]


def compile_ir(repo, kind='opt'):
    """kind: 'opt' -O1 | 'race' source-level memory accesses kept"""
    d = os.path.join(repo, 'longitudinal_tomography', 'cpp_routines')
    srcs = sorted(glob.glob(os.path.join(d, '*.cpp')))
    hdrs = glob.glob(os.path.join(d, '*.h')) + glob.glob(os.path.join(HERE, 'stubs', '**', '*.h'), recursive=True) + \
        glob.glob(os.path.join(HERE, 'stubs_io', '*'))
    key = src_hash(srcs + hdrs, kind)
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, f'{kind}-{key}.ll')
    if os.path.exists(out):
        return open(out).read()
    tmp = f'{out}.{os.getpid()}'
    base = ['clang++', '-std=c++17', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off',
            '-fno-inline', '-fopenmp', '-S', '-emit-llvm', '-Wno-everything', '-I', os.path.join(HERE, 'stubs')]
    base += ['-O1'] if kind == 'opt' else ['-O1', '-Xclang', '-disable-llvm-passes']
    procs = []
    for i, s in enumerate(srcs):
        o = f'{tmp}.{i}.ll'
        cmd = base + ['-I', os.path.join(HERE, 'stubs_io'), '-I', d, s, '-o', o]
        procs.append((s, o, subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True)))
    lls = []
    for s, o, p in procs:
        err = p.communicate(timeout=300)[1]
        if p.returncode:
            # retry with the real stream headers
            r = subprocess.run(base + ['-I', d, s, '-o', o], capture_output=True, text=True, timeout=300)
            if r.returncode:
                raise BuildError(f'cannot compile {s}:\n{err[-2000:]}')
        lls.append(o)
    r = subprocess.run(['llvm-link-18', '-S'] + lls + ['-o', tmp], capture_output=True, text=True, timeout=300)
    if r.returncode:
        raise BuildError('llvm-link failed: ' + r.stderr[-2000:])
    if kind == 'race':
        r = subprocess.run(['opt-18', '-S', '-passes=mem2reg', tmp, '-o', tmp + '.o'],
                           capture_output=True, text=True, timeout=300)
        if r.returncode == 0:
            os.replace(tmp + '.o', tmp)
    for o in lls:
        os.unlink(o)
    os.replace(tmp, out)
    return open(out).read()


class ArrH:
    """an array handle: python array (arr) and/or memory"""
    __slots__ = ('arr', 'dt', 'obj', 'shape', 'off', 'base')

    def __init__(self, arr, dt, obj=None, shape=None, off=0):
        self.arr, self.dt, self.obj, self.shape, self.off = arr, dt, obj, shape, off
        self.base = None


class Capsule:
    __slots__ = ('ptr', 'fn')

    def __init__(self, ptr, fn):
        self.ptr, self.fn = ptr, fn


class Session:
    """interpreter state of one path"""

    def __init__(self, lib):
        c = ctx()
        self.lib = lib
        ex = self.ex = Exec(lib.mod)
        ex.sess = self
        ex.threads = c.hooks.get('threads', 1)
        ex.fork_index = c.hooks.get('fork_index', False)
        self.h = {1: None}
        self.n = 1
        self.arrs = {}
        self.caps = []
        ex.ext.update(VP)

    def put(self, x):
        self.n += 1
        self.h[self.n] = x
        return self.n

    def get(self, h):
        return self.h[self.ex.cint(h)]

    def mem(self, a):
        """memory of an array handle"""
        if a.obj is None:
            it = ITEM[a.dt]
            k = (id(a.arr), a.dt)
            if k in self.arrs:
                a.obj = self.arrs[k][0]
            else:
                o = self.ex.new(int(np.prod(a.arr.shape)) * it, 'array', f'array argument of shape {a.arr.shape}')
                a.obj = o
                self.arrs[k] = (o, a)
                self.pull(a)
        return a.obj

    def pull(self, a):
        it = ITEM[a.dt]
        flat = a.arr.ravel().tolist()
        for i, e in enumerate(flat):
            a.obj.cells[i * it] = (it, to_cell(norm(e), a.dt))

    def push(self, a):
        it = ITEM[a.dt]
        arr = a.arr
        flat = arr.reshape(-1) if arr.flags['C_CONTIGUOUS'] else None
        if flat is None:
            return
        native = arr.dtype != object
        base = flat.view(np.ndarray)
        for i in range(base.size):
            v = self.ex._read(a.obj, i * it, it)
            if v is None:
                v = self.ex.garbage(a.obj, i * it, it, LTY[a.dt])
            v = from_cell(v, a.dt)
            if native:
                if isinstance(v, Sym):
                    if not v.const():
                        raise Unsupported('symbolic value written to a native array')
                    v = float(v.v) if isinstance(v, R) else v.v
                base[i] = v
            else:
                base[i] = v

    def sync_out(self):
        for o, a in list(self.arrs.values()):
            self.push(a)

    def sync_in(self):
        for o, a in list(self.arrs.values()):
            self.pull(a)

    def to_py(self, x):
        if isinstance(x, ArrH):
            if x.arr is not None:
                return x.arr
            n = int(np.prod(x.shape)) if x.shape else 1
            it = ITEM[x.dt]
            out = np.empty(n, dtype=object)
            for i in range(n):
                v = self.ex.load(Ptr(x.obj, self.ex.cint(x.off) + i * it), LTY[x.dt])
                out[i] = from_cell(v, x.dt)
            return symarr(out.reshape(x.shape))
        if isinstance(x, tuple):
            return tuple(self.to_py(e) for e in x)
        return x

    def call(self, ov, args):
        ex = self.ex
        mark = set(ex.live_heap)
        self.arrs = {}
        self.caps = []
        argv = ex.new(8 * max(1, len(args)), 'stack', 'argv')
        for i, a in enumerate(args):
            argv.cells[8 * i] = (8, self.put(a))
        ex.callstack = []
        try:
            try:
                r = ex.call(ov.thunk, [ex.global_ptr(ov.fn), Ptr(argv, 0)])
            except CxxExc as e:
                self.sync_out()
                self.finish(mark)
                raise to_pyexc(ex, e)
            res = self.to_py(self.get(r))
            self.sync_out()
            self.finish(mark)
            return res
        finally:
            ctx().stats.functions |= {n for n in ex.executed}
            ctx().stats.instr += ex.steps
            ex.steps = 0

    def finish(self, mark):
        ex = self.ex
        for c in self.caps:
            if isinstance(c.fn.o, type(None)):
                continue
            ex.call(c.fn.o.name, [c.ptr])
        self.caps = []
        left = [o for i, o in ex.live_heap.items() if i not in mark]
        if left and ctx().hooks.get('leaks'):
            ctx().soft_violation('leak', f'memory is never released: {left[0].name}')
        for o in left:
            ex.live_heap.pop(o.id, None)


def to_cell(e, dt):
    if dt in (F64, F32):
        return mkR(e)
    if dt == BOOL:
        return simp(mkI(mkB(e)))
    return simp(cast_el(e, np.dtype(int))) if not isinstance(e, (int, I)) or isinstance(e, bool) else simp(e)


def from_cell(v, dt):
    if dt in (F64, F32):
        return conv(v, DOUBLE)
    if dt == BOOL:
        return mkB(v)
    return v


def to_pyexc(ex, e):
    if e.py is not None:
        return e.py
    t = e.ti
    while t is not None:
        if t in PYEXC:
            return PYEXC[t](e.msg)
        if t in BASES:
            t = BASES[t]
        else:
            t = None
    return RuntimeError(e.msg)


def ldtype(x):
    """logical numpy dtype of an array argument"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            fl = x.ravel().tolist()
            if fl and all(isinstance(e, (B, bool)) for e in fl):
                return BOOL
            if fl and all(isinstance(e, (I, int)) and not isinstance(e, bool) for e in fl):
                return I32 if ctx().hooks.get('int32') else I64
            return F32 if ctx().hooks.get('prec') == 'f' else F64
        return {'float64': F64, 'float32': F32, 'int32': I32, 'int64': I64, 'bool': BOOL}.get(str(x.dtype), 0)
    return 0


def as_arr(x, dt):
    """array_t<T, c_style|forcecast> conversion; the same array when no conversion is needed"""
    if isinstance(x, np.ndarray):
        ld = ldtype(x)
        if x.dtype == object:
            same = ld == dt or dt in (I32, I64) and ld in (I32, I64) or dt in (F64, F32) and ld in (F64, F32)
            if same and x.flags['C_CONTIGUOUS']:
                return ArrH(x, dt)
            a = np.ascontiguousarray(x.view(np.ndarray))
        else:
            if ld == dt and x.flags['C_CONTIGUOUS']:
                return ArrH(x, dt)
            a = np.ascontiguousarray(x).astype(object)
    else:
        a = np.asarray(x, dtype=object) if not isinstance(x, Sym) else None
        if a is None:
            a = np.empty((), dtype=object)
            a[()] = x
    out = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        out[ix] = from_cell(to_cell(norm(a[ix]), dt), dt)
    return ArrH(out.view(SymArr), dt)


# ------------------------------------------------------------- vp_* hooks
def _pyerr(e):
    return CxxExc(PYERR, NULL, py=e, msg=str(e))


def vp(f):
    return lambda ex, n, a: f(ex.sess, *a)


def _arr_of(s, h):
    x = s.get(h)
    if not isinstance(x, ArrH):
        raise Unsupported('array operation on a non-array')
    return x


def v_data(s, h):
    a = _arr_of(s, h)
    return Ptr(s.mem(a), a.off)


def v_ndim(s, h):
    a = _arr_of(s, h)
    return len(a.arr.shape if a.arr is not None else a.shape)


def v_shape(s, h, k):
    a = _arr_of(s, h)
    sh = a.arr.shape if a.arr is not None else a.shape
    k = s.ex.cint(k)
    if not 0 <= k < len(sh):
        ctx().soft_violation('memory', 'shape of a missing array axis is read')
        raise Unsupported('shape index')
    return int(sh[k])


def v_cast(s, h, dt):
    x = s.get(h)
    dt = s.ex.cint(dt)
    if isinstance(x, ArrH):
        if x.dt == dt:
            return h
        x = s.to_py(x)
    if x is None:
        raise _pyerr(TypeError('cannot convert None to an array'))
    return s.put(as_arr(x, dt))


def v_new(s, dt, nd, shp, ptr, owner, has):
    ex = s.ex
    dt, nd = ex.cint(dt), ex.cint(nd)
    shape = tuple(ex.cint(ex.load(ex.padd(shp, 8 * i), INTS[64])) for i in range(nd))
    n = int(np.prod(shape)) if shape else 1
    it = ITEM[dt]
    if not isinstance(ptr, Ptr) or ptr.o is None:
        o = ex.new(n * it, 'array', 'new array')
        return s.put(ArrH(None, dt, o, shape, 0))
    if ex.cint(has):
        return s.put(ArrH(None, dt, ptr.o, shape, ptr.off))
    o = ex.new(n * it, 'array', 'new array')
    ex.memcpy(Ptr(o, 0), ptr, n * it)
    return s.put(ArrH(None, dt, o, shape, 0))


def v_attr(s, h, name):
    try:
        return s.put(getattr(s.get(h), s.ex.cstr(name)))
    except AttributeError as e:
        raise _pyerr(e)


def v_todouble(s, h):
    x = norm(s.get(h))
    if isinstance(x, ArrH):
        x = norm(s.to_py(x))
    r = mkR(x) if not isinstance(x, np.ndarray) else None
    if r is None:
        if isinstance(x, np.ndarray) and x.size == 1:
            return mkR(norm(x.ravel()[0]))
        raise _pyerr(TypeError('must be real number'))
    return r


def v_toint(s, h):
    x = norm(s.get(h))
    if isinstance(x, (B, bool)):
        return simp(mkI(x))
    if isinstance(x, (int, I)):
        return simp(x)
    if isinstance(x, R):
        # py::int_(obj.attr()) converts through int(); an argument caster rejects floats earlier
        return simp(rtrunc(x))
    raise _pyerr(TypeError('an integer is required'))


def v_tobool(s, h):
    return simp(mkI(mkB(norm(s.get(h)))))


def v_call(s, h, n, args):
    ex = s.ex
    n = ex.cint(n)
    f = s.get(h)
    a = [s.to_py(s.get(ex.load(ex.padd(args, 8 * i), INTS[64]))) for i in range(n)]
    if ex.par is not None:
        ctx().soft_violation('race', 'a Python callback is invoked from inside a parallel region')
    s.sync_out()
    try:
        r = f(*a)
    except Exception as e:
        raise _pyerr(e)
    s.sync_in()
    return s.put(r)


def v_tuple(s, n, items):
    ex = s.ex
    return s.put(tuple(s.get(ex.load(ex.padd(items, 8 * i), INTS[64])) for i in range(ex.cint(n))))


def v_capsule(s, p, fn):
    c = Capsule(p, fn)
    s.caps.append(c)
    return s.put(c)


def v_getitem(s, h, k):
    try:
        x = s.get(h)
        if isinstance(x, ArrH):
            x = s.to_py(x)
        return s.put(x[s.ex.cint(k)])
    except (IndexError, KeyError, TypeError) as e:
        raise _pyerr(e)


VP = {
    'vp_array_data': vp(v_data), 'vp_array_ndim': vp(v_ndim), 'vp_array_shape': vp(v_shape),
    'vp_array_cast': vp(v_cast), 'vp_array_new': vp(v_new), 'vp_attr': vp(v_attr),
    'vp_hasattr': vp(lambda s, h, n: int(hasattr(s.get(h), s.ex.cstr(n)))),
    'vp_getitem': vp(v_getitem),
    'vp_to_double': vp(v_todouble), 'vp_to_int': vp(v_toint), 'vp_to_bool': vp(v_tobool),
    'vp_from_double': vp(lambda s, d: s.put(mkR(d))),
    'vp_from_int': vp(lambda s, d: s.put(d)),
    'vp_from_bool': vp(lambda s, d: s.put(bool(s.ex.cint(d)))),
    'vp_from_str': vp(lambda s, d: s.put(s.ex.cstr(d))),
    'vp_none': vp(lambda s: 1), 'vp_is_none': vp(lambda s, h: int(s.get(h) is None)),
    'vp_capsule': vp(v_capsule), 'vp_tuple': vp(v_tuple), 'vp_call': vp(v_call),
    'vp_incref': lambda ex, n, a: None, 'vp_decref': lambda ex, n, a: None,
    'vp_def': lambda ex, n, a: ex.sess.lib.add(ex, *a),
    'vp_defarg': lambda ex, n, a: ex.sess.lib.addarg(ex, *a),
}


class Overload:
    __slots__ = ('name', 'thunk', 'fn', 'sig', 'n', 'args')


class SymLib(types.ModuleType):
    def __init__(self, repo, kind='opt'):
        super().__init__('libtomo')
        d = self.__dict__
        d['mod'] = Module(compile_ir(repo, kind))
        d['ovs'] = {}
        d['last'] = None
        d['registered'] = False
        d['__file__'] = '<libtomo.ir>'

    def register(self):
        """execute the module's own binding table (PYBIND11_MODULE)"""
        if self.registered:
            return
        self.__dict__['registered'] = True
        s = Session(self)
        s.ex.call('@vp_module_init', [])

    def add(self, ex, name, thunk, fn, sig, n):
        o = Overload()
        o.name, o.thunk, o.fn = ex.cstr(name), thunk.o.name, fn.o.name
        o.sig, o.n, o.args = ex.cstr(sig), ex.cint(n), []
        self.ovs.setdefault(o.name, []).append(o)
        self.__dict__['last'] = o

    def addarg(self, ex, name, has, dflt):
        self.last.args.append((ex.cstr(name), ex.cint(has), ex.sess.get(dflt) if ex.cint(has) else None))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if not self.registered:
            self.register_standalone()
        if name not in self.ovs:
            raise AttributeError(f"module 'libtomo' has no attribute '{name}'")
        return lambda *a, **k: self.invoke(name, a, k)

    def register_standalone(self):
        from .core import _CTX, set_ctx
        from .explore import SymCtx, Stats
        import time
        old = _CTX[0]
        if old is None:
            set_ctx(SymCtx(time.time() + 120, Stats()))
        try:
            self.register()
        finally:
            if old is None:
                set_ctx(None)

    def session(self):
        c = ctx()
        s = c.__dict__.get('_sess')
        if s is None or s.lib is not self:
            s = c.__dict__['_sess'] = Session(self)
        s.ex.threads = c.hooks.get('threads', 1)
        s.ex.fork_index = c.hooks.get('fork_index', False)
        return s

    def invoke(self, name, a, k):
        for convert in (False, True):
            for o in self.ovs[name]:
                vals = self.bind(o, a, k)
                if vals is None:
                    continue
                if all(match(ch, v, convert) for ch, v in zip(o.sig, vals)):
                    return self.session().call(o, vals)
        raise TypeError(f'{name}(): incompatible function arguments.')

    def bind(self, o, a, k):
        if len(a) > o.n:
            return None
        if len(o.args) != o.n:
            return list(a) if len(a) == o.n and not k else None
        vals = list(a)
        used = set()
        for nm, has, df in o.args[len(a):]:
            if nm in k:
                vals.append(k[nm])
                used.add(nm)
            elif has:
                vals.append(df)
            else:
                return None
        if set(k) - used:
            return None
        return vals


def match(ch, v, convert):
    v = norm(v)
    if ch in 'DFIL':
        want = {'D': F64, 'F': F32, 'I': I32, 'L': I64}[ch]
        if v is None:
            return False
        if isinstance(v, np.ndarray):
            ld = ldtype(v)
            if ld == want or v.dtype == object and want == I32 and ld == I64:
                return True
            return convert and ld != 0
        if not convert:
            return False
        return isinstance(v, (R, I, B, int, float, bool, list, tuple))
    if ch in 'df':
        if isinstance(v, np.ndarray):
            return convert and v.size == 1 and v.dtype.kind in 'fiub'
        if isinstance(v, (R, float)):
            return True
        return convert and isinstance(v, (I, int, bool))
    if ch == 'i':
        return isinstance(v, (int, I)) or isinstance(v, bool) or isinstance(v, np.ndarray) and v.ndim == 0 and v.dtype.kind in 'iu'
    if ch == 'b':
        return isinstance(v, (bool, B)) or convert and v is None
    return True
