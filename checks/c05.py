"""C05: the native code stays inside the arrays it is given and releases what it allocates"""
from .common import *

UNITS = ['every function of the libtomo extension module (bindings and native routines), including its error paths']
BOUNDS = ('0-3 particles, 1-3 frames, 1-3 turns per frame, 1-3 bins, every start frame, every bin assignment; profile values, weights '
          'and coordinates unconstrained reals (so that error paths are taken); the callback fails at any call; '
          'phase space image: any 32-bit particle coordinates')
OUTSIDE = 'array arguments of other shapes or bins than documented (except the phase space image, which must reject them); CPython/pybind11 internals'
ASSUMPTIONS = ['bounds of every load and store are checked on the IR before vectorisation', 'allocation does not fail']


class Stop(Exception):
    pass


def guarded(ctx, f, *exc):
    """run f; on the real build also look for memory that is not given back"""
    if is_sym(ctx):
        try:
            return f()
        except exc:
            return None
    r = None

    def g():
        try:
            return f()
        except exc:
            return None
    r = g()
    if getattr(ctx, 'san', None):
        return r
    import ctypes
    import gc

    class MI(ctypes.Structure):
        _fields_ = [(k, ctypes.c_size_t) for k in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]
    libc = ctypes.CDLL('libc.so.6')
    libc.mallinfo2.restype = MI

    def used():
        gc.collect()
        m = libc.mallinfo2()
        return m.uordblks + m.hblkhd
    for _ in range(20):
        g()
    k = 200
    growth = []
    for _ in range(2):
        a = used()
        for _ in range(k):
            g()
        growth.append(used() - a)
    if min(growth) > 16 * k:
        from symx.explore import ReplayViolation
        raise ReplayViolation('leak', f'{min(growth) / k:.0f} bytes per call are never released')
    return r


def tracking(ctx, T, nprof, dturns, rec, npart, how):
    nturns = dturns * (nprof - 1)
    rf = RF(ctx, nturns, 'scalar')
    m = make_machine(T)
    m.nprofiles, m.dturns, m.q = nprof, dturns, 1
    m.phi0, m.phi12, m.h_ratio, m.deltaE0, m.drift_coef = rf.phi0, rf.phi12, rf.h, rf.dE0, rf.drift
    dphi, dE = ctx.reals('dphi', npart), ctx.reals('dE', npart)
    fail = ctx.concrete(ctx.int('fail', 0, nturns))
    p12 = ctx.array([rf.phi12] * (nturns + 1))
    L = T.lib

    def run():
        n = [0]

        def cb(a, b):
            n[0] += 1
            if n[0] == fail:
                raise Stop()
        xp, yp = zeros(ctx, (nprof, npart)), zeros(ctx, (nprof, npart))
        p, e = dphi.copy(), dE.copy()
        if how == 'machine':
            return L.kick_and_drift(xp, yp, e, p, rf.v1, rf.v2, m, rec, 0, nturns, npart, False, cb)
        if how == 'scalar':
            return L.kick_and_drift(xp, yp, e, p, rf.v1, rf.v2, rf.phi0, rf.dE0, rf.drift, rf.phi12, rf.h, dturns, rec, 0, nturns, npart, False, cb)
        return L.kick_and_drift(xp, yp, e, p, rf.v1, rf.v2, rf.phi0, rf.dE0, rf.drift, p12, rf.h, dturns, rec, 0, nturns, npart, False, cb)
    guarded(ctx, run, Stop)
    ctx.reach('done')


def turn_ops(ctx, T, npart, nturns):
    rf = RF(ctx, nturns, 'scalar')
    m = make_machine(T)
    m.phi0, m.phi12, m.h_ratio, m.deltaE0, m.drift_coef = rf.phi0, rf.phi12, rf.h, rf.dE0, rf.drift
    dphi, dE = ctx.reals('dphi', npart), ctx.reals('dE', npart)
    t = ctx.concrete(ctx.int('turn', 0, nturns))
    up = bool(ctx.bool('up'))
    L = T.lib

    def run():
        L.kick(m, dE.copy(), dphi.copy(), rf.v1, rf.v2, npart, t, up)
        L.drift(dE.copy(), dphi.copy(), rf.drift, npart, t, up)
        (L.kick_up if up else L.kick_down)(dphi.copy(), dE.copy(), rf.v1[0], rf.v2[0], rf.phi0[0], rf.phi12, rf.h, npart, rf.dE0[0])
        (L.drift_up if up else L.drift_down)(dphi.copy(), dE.copy(), rf.drift[0], npart)
    guarded(ctx, run)
    ctx.reach('done')


def recon(ctx, T, n, nprof, nb, it, how, fail=False):
    xp, c = sym_xp(ctx, n, nprof, nb)
    w = ctx.reals('w', (nprof, nb)) if how == 'lib' else ctx.array([[ctx.real('w')] + [0.25] * (nb - 1)] * nprof)
    k = ctx.concrete(ctx.int('fail', 1, it + 1)) if fail else 0
    z, l, r_ = (np.array([x] * 2, dtype=np.int32) for x in (0, 0, nb))
    z[1] = -1

    def run():
        cnt = [0]

        def cb(a, b):
            cnt[0] += 1
            if cnt[0] == k:
                raise Stop()
        if how == 'lib':
            return T.lib.reconstruct(xp, w, it, nb, n, nprof, False, cb if fail else None)
        return T.lib.reconstruct_multi(xp, w, l, r_, z, it, nb, n, nprof, 2, False, cb if fail else None)
    guarded(ctx, run, RuntimeError, Stop)
    ctx.reach('done')


def parts(ctx, T, n, nprof, nb):
    xp, c = sym_xp(ctx, n, nprof, nb)
    fp = xp + T.np.arange(nprof) * nb if is_sym(ctx) else (xp + np.arange(nprof) * nb).astype(np.int32)
    w, v = ctx.reals('w', n), ctx.reals('v', nprof * nb)
    z = np.array([0, 1, -1], dtype=np.int32)

    def run():
        T.lib.project(zeros(ctx, (nprof, nb)), fp, w.copy(), n, nprof, nb)
        T.lib.back_project(w.copy(), fp, v, n, nprof)
        T.lib.count_particles_in_bins(zeros(ctx, (nprof, nb)), xp, nprof, n, nb)
        T.lib.count_particles_in_bins_multi(zeros(ctx, (nprof, nb)), xp, z, nprof, n, nb, 3)
    guarded(ctx, run)
    ctx.reach('done')


def image(ctx, T, n, nb):
    big = 2 ** 31
    xp, yp = ctx.ints('xp', n, -big, big - 1), ctx.ints('yp', n, -big, big - 1)
    w = ctx.reals('w', n)
    inside = ctx.And(*[ctx.And(a >= 0, a < nb) for a in list(xp) + list(yp)])
    ok = bool(inside)
    ctx.hooks['fork_index'] = True
    r = guarded(ctx, lambda: T.lib.make_phase_space(xp, yp, w, nb), IndexError)
    ctx.check((r is not None) == ok, 'a particle outside of the image is accepted' if r is not None else 'a valid image is refused')
    ctx.reach('ok' if ok else 'refused')


def instances(tier):
    b = 60 if tier == 'quick' else 900
    kw = dict(hooks={'leaks': True}, soft=('leak', 'overflow', 'arith'), replay='asan', budget=b)
    out = []
    cfg = [(2, 1, 1), (2, 2, 2), (3, 1, 0), (1, 1, 1)] + ([(3, 2, 2), (4, 1, 1), (2, 4, 3)] if tier == 'thorough' else [])
    for nprof, dt, n in cfg:
        for rec in range(nprof):
            for how in ('machine', 'scalar', 'array'):
                out.append(Instance(f'{how}-{nprof}x{dt}-r{rec}-n{n}', tracking, dict(nprof=nprof, dturns=dt, rec=rec, npart=n, how=how),
                                    reach=['done'], **kw))
    for n in (0, 2):
        out.append(Instance(f'turn-n{n}', turn_ops, dict(npart=n, nturns=2), reach=['done'], **kw))
    rc = [(1, 1, 1, 1), (1, 2, 2, 1), (2, 1, 2, 1), (1, 1, 3, 0), (0, 1, 2, 1)]
    rc += [(2, 2, 2, 1), (1, 2, 3, 1), (3, 1, 2, 1), (1, 1, 2, 3)] if tier == 'thorough' else []
    for n, p, nb, it in rc:
        for how in ('lib', 'multi'):
            for fail in (False, True):
                out.append(Instance(f'{how}-p{n}-f{p}-b{nb}-i{it}{"-cb" if fail else ""}', recon,
                                    dict(n=n, nprof=p, nb=nb, it=it, how=how, fail=fail), reach=['done'], weight=nb ** (n * p) * (it + 1), **kw))
    for n, p, nb in [(2, 2, 2), (1, 3, 3), (0, 1, 1)]:
        out.append(Instance(f'parts-p{n}-f{p}-b{nb}', parts, dict(n=n, nprof=p, nb=nb), reach=['done'], **kw))
    for n, nb in [(1, 1), (1, 2), (2, 2), (1, 3)] + ([(3, 2), (2, 3)] if tier == 'thorough' else []):
        out.append(Instance(f'image-p{n}-b{nb}', image, dict(n=n, nb=nb), reach=['ok', 'refused'], **kw))
    return out
