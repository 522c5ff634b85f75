"""Shared building blocks of the scenarios."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import numpy as np  # noqa: E402
from symx.runner import Instance  # noqa: E402,F401


def rows(a):
    return [list(r) for r in a]


def is_sym(ctx):
    return ctx.mode == 'sym'


# ------------------------------------------------------------------ tracking
class RF:
    """per-turn machine parameters of a tracking run (nturns+1 values each)"""

    def __init__(self, ctx, nturns, phi12='array', zero_acc=False):
        n = nturns + 1
        self.v1 = ctx.reals('v1', n)
        self.v2 = ctx.reals('v2', n)
        self.phi0 = ctx.reals('phi0', n)
        self.dE0 = ctx.reals('dE0', n)
        self.drift = ctx.reals('drift', n)
        self.h = ctx.real('h')
        if phi12 == 'array':
            self.phi12 = ctx.reals('phi12', n)
            self.p12 = lambda k: self.phi12[k]
        else:
            self.phi12 = ctx.real('phi12')
            self.p12 = lambda k: self.phi12


def kick(ctx, rf, k, dphi, dE, sign):
    return [e + sign * (rf.v1[k] * ctx.sin(p + rf.phi0[k])
                        + rf.v2[k] * ctx.sin(rf.h * (p + rf.phi0[k] - rf.p12(k))) - rf.dE0[k])
            for p, e in zip(dphi, dE)]


def track_spec(ctx, rf, dphi, dE, nprof, dturns, rec):
    """the equations of motion: rows of (dphi, dE) at the measured frames"""
    P, E = [None] * nprof, [None] * nprof
    p, e = list(dphi), list(dE)
    P[rec], E[rec] = list(p), list(e)
    for t in range(rec * dturns, (nprof - 1) * dturns):
        p = [a - rf.drift[t] * b for a, b in zip(p, e)]
        e = kick(ctx, rf, t + 1, p, e, 1)
        if (t + 1) % dturns == 0:
            P[(t + 1) // dturns], E[(t + 1) // dturns] = list(p), list(e)
    p, e = list(dphi), list(dE)
    for t in range(rec * dturns, 0, -1):
        e = kick(ctx, rf, t, p, e, -1)
        p = [a + rf.drift[t - 1] * b for a, b in zip(p, e)]
        if (t - 1) % dturns == 0:
            P[(t - 1) // dturns], E[(t - 1) // dturns] = list(p), list(e)
    return P, E


def zeros(ctx, shape):
    if is_sym(ctx):
        from symx.nparr import SymNumpy
        return SymNumpy.zeros(shape)
    return np.zeros(shape)


class MachineStub:
    pass


def make_machine(T, rf_phi12_scalar=True):
    """a MachineABC instance whose per-turn fields are set directly"""
    mb = T.mod('tracking.machine_base')

    class M(mb.MachineABC):
        def __init__(self):
            pass

        def values_at_turns(self):
            pass
    M.__abstractmethods__ = frozenset()
    return M()


# ------------------------------------------------------------ reconstruction
def sym_xp(ctx, npart, nprof, nb, name='xp', pat=None):
    """every assignment of bins (one path each); with pat=(seed, k) the first k coordinates of the last particle are free and all
    others follow a fixed pattern"""
    ctx.hooks['fork_index'] = ctx.hooks['fork_ite'] = True
    if pat is not None:
        import random
        r = random.Random(1000 * pat[0] + npart * 100 + nprof * 10 + nb)
        a = [[r.randrange(nb) for _ in range(nprof)] for _ in range(npart)]
        for j in range(min(pat[1], nprof)):
            a[-1][j] = ctx.concrete(ctx.int(f'{name}f{j}', 0, nb - 1))
        x = np.array(a, dtype=np.int32)
        return (ctx.array(a) if is_sym(ctx) else x), a
    xp = ctx.ints(name, (npart, nprof), 0, nb - 1)
    c = [[ctx.concrete(xp[i, j]) for j in range(nprof)] for i in range(npart)]
    return (xp if is_sym(ctx) else np.array(c, dtype=np.int32)), c


def sym_waterfall(ctx, nprof, nb, nsym, name='w', free=None):
    """non-negative rows that sum to one; the first nsym rows are symbolic (all entries, or `free` of them with the
    remainder split in fixed proportions)"""
    rows_ = []
    for i in range(nprof):
        if i < nsym and free == 'small':
            # a one-parameter family around a fixed row
            t = ctx.real(f'{name}{i}', lo=0, hi=1 / 8)
            r = [2 + (i * 3 + j * j) % 5 for j in range(nb)]
            row = [(1 - t) * ctx.const(x) / sum(r) for x in r]
            row[i % nb] = row[i % nb] + t
            rows_.append(row)
        elif i < nsym:
            k = nb - 1 if free is None else min(free, nb - 1)
            r = [ctx.real(f'{name}{i}_{j}', lo=0) for j in range(k)]
            s = 1 - sum(r)
            ctx.assume(s >= 0)
            f = [1 + (j * 2) % 3 for j in range(nb - k)]
            rest = [s * ctx.const(x) / sum(f) for x in f]
            # free entries at alternating positions
            row, q = [], list(r)
            for j in range(nb):
                row.append(q.pop() if q and (j % 2 == 0 or not rest) else rest.pop() if rest else q.pop())
            rows_.append(row)
        else:
            r = [1 + (i * 3 + j * j) % 5 for j in range(nb)]
            rows_.append([ctx.const(x) / sum(r) for x in r])
    return ctx.array(rows_), rows_


def recon_counts(c, nprof, nb):
    cnt = [[sum(1 for p in c if p[j] == b) for b in range(nb)] for j in range(nprof)]
    mx = max(max(r) for r in cnt)
    return cnt, mx


def recon_project(c, W, nprof, nb):
    rec = [[0] * nb for _ in range(nprof)]
    for p, w in zip(c, W):
        for j in range(nprof):
            rec[j][p[j]] = rec[j][p[j]] + w
    return rec


def recon_spec(ctx, c, rows_, niter):
    """the documented algorithm -> (weights, squared discrepancies, recreated) or None when nothing is left"""
    nprof, nb = len(rows_), len(rows_[0])
    cnt, mx = recon_counts(c, nprof, nb)
    W = [0] * len(c)

    def bp(d):
        out = []
        for p, w in zip(c, W):
            for j in range(nprof):
                w = w + d[j][p[j]]
            out.append(0 if w < 0 else w)
        return out

    def norm(W):
        s = sum(W)
        return [[x / s for x in r] for r in recon_project(c, W, nprof, nb)]

    D = []
    W = bp(rows_)
    if sum(W) <= 0:
        return None
    for k in range(niter + 1):
        rec = norm(W)
        diff = [[a - b for a, b in zip(u, v)] for u, v in zip(rows_, rec)]
        D.append(sum(x * x for r in diff for x in r) / (nprof * nb))
        if k == niter:
            return W, D, rec
        W = bp([[d * ctx.const(mx) / max(n, 1) for d, n in zip(u, v)] for u, v in zip(diff, cnt)])
        if sum(W) <= 0:
            return None


def tomo_of(T, rows_arr, xp, mod='tomography.tomography'):
    """a Tomography object whose stored waterfall/coordinates are given directly"""
    cls = T.mod(mod).Tomography
    t = cls.__new__(cls)
    t._waterfall = rows_arr
    t._nprofs, t._nbins = rows_arr.shape
    t._xp, t._yp, t._nparts = xp, None, xp.shape[0]
    t.recreated = T.np.zeros(rows_arr.shape)
    t.diff = t.diff_split = t.weight = None
    return t
