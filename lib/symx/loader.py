"""Load longitudinal_tomography from the repository

 sym mode  - numpy is the symbolic stand-in, libtomo is executed from LLVM IR
 real mode - real numpy and the extension built from the same sources (replay)
"""
import ast
import builtins
import glob
import importlib
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import sysconfig
import types

sys.dont_write_bytecode = True
PKG = 'longitudinal_tomography'
REPO = os.environ.get('VERIF_REPO', '/repo')

MODULES = ['exceptions', 'assertions', 'utils.physics', 'utils.tomo_config', 'tracking.machine_base',
           'tracking.machine', 'tracking.programs_machine', 'tracking.phase_space_info', 'tracking.particles',
           'tracking.tracking', 'tracking', 'data.profiles', 'data.pre_process', 'data.data_treatment',
           'data.post_process', 'compat.fortran', 'compat.tomoscope', 'utils.tomo_output', 'utils.tomo_input',
           'utils.tomo_run', 'tomography.tomography', 'tomography.tomography_multibunch', 'tomography', 'shortcuts']


def _paths():
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or '.') != os.path.realpath(REPO)]
    sys.path.insert(0, REPO)


def _purge():
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + '.')]:
        del sys.modules[k]


def _version_stub():
    # _version.py is generated by the build and not part of the tree
    m = types.ModuleType(PKG + '._version')
    m.version = m.__version__ = '0'
    m.version_tuple = m.__version_tuple__ = (0,)
    sys.modules[PKG + '._version'] = m


class T:
    """what a scenario sees of the code under test"""

    def __init__(self, lib, np, mode):
        self.lib, self.np, self.mode = lib, np, mode
        self.missing = {}

    def mod(self, name):
        k = f'{PKG}.{name}'
        if k not in sys.modules:
            if name in self.missing:
                raise self.missing[name]
            return importlib.import_module(k)
        return sys.modules[k]


class _Opt:
    """scipy.optimize as seen by the code under test"""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, n):
        return getattr(self._real, n)

    def newton(self, func, x0, fprime=None, args=(), tol=1.48e-8, maxiter=50, fprime2=None, **kw):
        """any converged result: a root of func.  (Convergence itself is outside the claim.)"""
        from .core import R, ctx, mkR
        c = ctx()
        if c.hooks.get('newton'):
            return c.hooks['newton'](func, x0, fprime, args)
        v = c.fresh('root')
        r = R(v)
        f = mkR(func(r, *args))
        c.assume(f == 0)
        c.hooks.setdefault('roots', []).append((r, x0))
        return r


class _Sig:
    """scipy.signal as seen by the code under test"""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, n):
        return getattr(self._real, n)

    def savgol_filter(self, x, window_length, polyorder, deriv=0, delta=1.0, axis=-1, mode='interp', cval=0.0):
        """the filter is linear: its matrix is read off the real one"""
        import numpy as np
        from .nparr import symarr, to_obj
        if isinstance(x, np.ndarray) and x.dtype != object:
            return self._real.savgol_filter(x, window_length, polyorder, deriv, delta, axis, mode, cval)
        a = np.moveaxis(np.asarray(to_obj(x), dtype=object), axis, -1)
        n = a.shape[-1]
        m = self._real.savgol_filter(np.eye(n), window_length, polyorder, deriv, delta, 0, mode, cval)
        out = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(*a.shape[:-1]):
            for i in range(n):
                out[ix + (i,)] = sum(float(m[i, j]) * a[ix + (j,)] for j in range(n))
        return symarr(np.moveaxis(out, -1, axis))


class _Scipy:
    def __init__(self, opt, sig, real):
        self.optimize, self.signal, self._real = opt, sig, real

    def __getattr__(self, n):
        return getattr(self._real, n)


def fake_cupy(np):
    m = types.ModuleType('cupy')
    m.__getattr__ = lambda n: getattr(np, n)
    m.asnumpy = lambda x: x

    class ndarray:
        pass
    m.ndarray = np.ndarray
    return m


def _strmod(a, b):
    """a % b, where a text may be filled with symbolic values"""
    from .core import fill
    return fill(a, b) if isinstance(a, str) else a % b


class _Mod(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__symmod__', ast.Load()), [n.left, n.right], []), n)
        return n


def _get_code(self, fullname):
    path = self.get_filename(fullname)
    if fullname.split('.')[0] != PKG:
        return _orig_get_code(self, fullname)
    tree = ast.fix_missing_locations(_Mod().visit(ast.parse(self.get_data(path), path)))
    builtins.__symmod__ = _strmod
    from .nparr import SymComplex, SymFloat, SymInt
    g = sys.modules[fullname].__dict__ if fullname in sys.modules else {}
    g['float'], g['int'], g['complex'] = SymFloat, SymInt, SymComplex
    return compile(tree, path, 'exec', dont_inherit=True)


_orig_get_code = importlib.machinery.SourceFileLoader.get_code


def load_sym(kind='opt', modules=None):
    import numpy as np
    import scipy.constants, scipy.optimize, scipy.signal  # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot, matplotlib.gridspec  # noqa
    import multipledispatch  # noqa
    from .nparr import SymNumpy
    from .symlib import SymLib
    _paths()
    _purge()
    lib = SymLib(REPO, kind)
    lib.register_standalone()
    snp = SymNumpy()
    real = sys.modules['numpy']
    sys.modules['numpy'] = snp
    t = T(lib, snp, 'sym')
    importlib.machinery.SourceFileLoader.get_code = _get_code
    try:
        _version_stub()
        sys.modules[PKG + '.cpp_routines.libtomo'] = lib
        importlib.import_module(PKG)
        importlib.import_module(PKG + '.cpp_routines').libtomo = lib
        for m in modules or MODULES:
            try:
                importlib.import_module(f'{PKG}.{m}')
            except ModuleNotFoundError as e:
                if PKG not in str(e):
                    raise
                t.missing[m] = e
        sys.modules['cupy'] = fake_cupy(snp)
        for m in ('kick_and_drift_cupy', 'reconstruct_cupy'):
            try:
                importlib.import_module(f'{PKG}.python_routines.{m}')
            except ModuleNotFoundError as e:
                t.missing['python_routines.' + m] = e
    finally:
        sys.modules['numpy'] = real
        importlib.machinery.SourceFileLoader.get_code = _orig_get_code
    opt, sig = _Opt(scipy.optimize), _Sig(scipy.signal)
    for k, m in list(sys.modules.items()):
        if m is None or not (k == PKG or k.startswith(PKG + '.')) or m is lib:
            continue
        g = m.__dict__
        for n, v in list(g.items()):
            if v is scipy.optimize:
                g[n] = opt
            elif v is scipy.optimize.newton:
                g[n] = opt.newton
            elif v is scipy.signal:
                g[n] = sig
            elif v is scipy.signal.savgol_filter:
                g[n] = sig.savgol_filter
            elif v is scipy:
                g[n] = _Scipy(opt, sig, scipy)
    return t


# ------------------------------------------------------------------ real
def build_real(san=None):
    """the extension built with the project's flags into /verif/.build"""
    from .symlib import BUILD, BuildError, src_hash
    d = os.path.join(REPO, PKG, 'cpp_routines')
    srcs = sorted(glob.glob(os.path.join(d, '*.cpp')))
    hdrs = glob.glob(os.path.join(d, '*.h'))
    key = src_hash(srcs + hdrs, 'real', san, sys.version)
    out = os.path.join(BUILD, f'libtomo-{san or "plain"}-{key}.so')
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    import pybind11
    inc = ['-I' + pybind11.get_include(), '-I' + sysconfig.get_paths()['include']]
    flags = ['-std=c++17', '-fPIC', '-fvisibility=hidden', '-w', '-fopenmp']
    cc = 'g++'
    if san == 'asan':
        flags += ['-O1', '-g', '-fsanitize=address', '-fsanitize=signed-integer-overflow,integer-divide-by-zero',
                  '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
    else:
        flags += ['-O2', '-ffast-math']
    tmp = f'{out}.{os.getpid()}'
    ps = []
    for i, s in enumerate(srcs):
        o = f'{tmp}.{i}.o'
        ps.append((o, subprocess.Popen([cc] + flags + inc + ['-c', s, '-o', o], stderr=subprocess.PIPE, text=True)))
    objs = []
    for o, p in ps:
        err = p.communicate(timeout=600)[1]
        if p.returncode:
            raise BuildError(err[-2000:])
        objs.append(o)
    r = subprocess.run([cc] + flags + ['-shared'] + objs + ['-o', tmp, '-lgomp'], capture_output=True, text=True)
    for o in objs:
        os.unlink(o)
    if r.returncode:
        raise BuildError(r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def load_real(san=None, so=None):
    import numpy as np
    import matplotlib
    matplotlib.use('Agg')
    _paths()
    _purge()
    so = so or build_real(san)
    _version_stub()
    importlib.import_module(PKG)
    pk = importlib.import_module(PKG + '.cpp_routines')
    name = PKG + '.cpp_routines.libtomo'
    spec = importlib.util.spec_from_file_location(name, so)
    lib = importlib.util.module_from_spec(spec)
    sys.modules[name] = lib
    spec.loader.exec_module(lib)
    pk.libtomo = lib
    t = T(lib, np, 'real')
    for m in MODULES:
        try:
            importlib.import_module(f'{PKG}.{m}')
        except ModuleNotFoundError as e:
            if PKG not in str(e):
                raise
            t.missing[m] = e
    if 'cupy' not in sys.modules:
        sys.modules['cupy'] = fake_cupy(np)
    return t
