"""Path exploration (symbolic mode) and concrete replay of the same scenario."""
import math
import re
import time
import traceback
from fractions import Fraction

import numpy as np

from .poly import Polys, padd

from .core import (token, B, I, R, NONFINITE, PathAbort, Unsupported, ScenarioViolation,
                   Sym, frac, ite as _ite, isconst, mkB, mkI, mkR, set_ctx, z3, zb, zi, zr)


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.aborted = 0
        self.checks = 0
        self.reached = {}
        self.functions = set()
        self.instr = 0

    def merge(self, d):
        for k in ('queries', 'unsat', 'sat', 'unknown', 'solver_s', 'paths', 'aborted', 'checks', 'instr'):
            setattr(self, k, getattr(self, k) + d[k])
        for k, v in d['reached'].items():
            self.reached[k] = self.reached.get(k, 0) + v
        self.functions |= set(d['functions'])

    def as_dict(self):
        d = dict(self.__dict__)
        d['functions'] = sorted(self.functions)
        return d


class Timeout(BaseException):
    pass


class Violation:
    def __init__(self, label, inputs, detail, alts=()):
        self.label, self.inputs, self.detail, self.alts = label, inputs, detail, list(alts)


class SymCtx:
    mode = 'sym'
    branch_ms = 700

    def __init__(self, deadline, stats, query_ms=20000, hard_ms=120000):
        self.deadline = deadline
        self.stats = stats
        self.query_ms = query_ms
        self.hard_ms = hard_ms
        self.trail = []           # [kind, payload, choice, has_alternative]
        self.violations = []
        self.soft = []            # violations found by side conditions (memory safety, ...)
        self.inconclusive = []
        self.collect_soft = False
        self.max_violations = 6
        self.complete = False
        self.witnesses = []
        self.max_witnesses = 6
        self.witness_every = 7
        self._model_ok = True
        self.seen_labels = {}
        self._reset()

    # ------------------------------------------------------------ one path
    def _reset(self):
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', self.branch_ms)
        self.path = []
        self.lsolver = z3.Solver()
        self.lsolver.set('timeout', 2000)
        self._mono = {}
        self._ivals, self.aranges = {}, {}
        self.isolver = z3.Solver()
        self.isolver.set('timeout', 4000)
        self.isub = []
        self._pi = {}
        self._conc = {}
        self.inputs = {}
        self.ranges = {}
        self.nonfinite = False
        self.atoms = {}
        self._trigs = []
        self._invs = {}
        self._sqrts = {}
        self._keep = []
        self.polys = Polys()
        self._invdef = {}
        self.fresh_n = 0
        self.logs = []
        self.known = {}
        self.hooks = {}
        self._sess = None
        self.trig_axioms = True

    def explore(self, fn):
        set_ctx(self)
        self.seen_labels = {}
        try:
            while True:
                self._reset()
                self.stats.paths += 1
                try:
                    fn(self)
                    self._witness()
                except PathAbort:
                    self.stats.aborted += 1
                except ScenarioViolation:
                    pass
                except Unsupported as e:
                    self.unsupported = getattr(self, 'unsupported', 0) + 1
                    self.inconclusive.append(f'not encodable: {e}')
                    if self.unsupported > 20:
                        return
                except Exception as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    at = [f'{f.filename.rsplit("/", 1)[-1]}:{f.lineno}' for f in tb[-3:]]
                    self.last_tb = traceback.format_exc()
                    try:
                        self._violated(f'exception {type(e).__name__}: {str(e)[:120]} at {" < ".join(reversed(at))}',
                                       z3.BoolVal(True), None)
                    except (PathAbort, ScenarioViolation):
                        pass
                if len(self.violations) >= self.max_violations:
                    return
                if not self._backtrack():
                    self.complete = True
                    return
        finally:
            set_ctx(None)

    def _witness(self):
        if len(self.witnesses) >= self.max_witnesses or not self.inputs:
            return
        # spread witnesses over the paths
        if self.stats.paths > 4 and self.stats.paths % self.witness_every:
            return
        if not self._model_ok:
            return
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(*self.path)
        for n, (k, v) in self.inputs.items():
            if k == 'real':
                b = max([50] + [2 * abs(x) for x in self.ranges.get(n, ()) if x is not None])
                b = zr(frac(b))
                s.add(v <= b, v >= -b)
        t = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
            try:
                self.witnesses.append(self._values(s.model()))
                if self.hooks.get('lazy'):
                    self.witnesses += self._samples()[:2]
            except z3.Z3Exception:
                pass

    def _backtrack(self):
        while self.trail:
            e = self.trail[-1]
            if e[3]:
                e[2] = not e[2]
                e[3] = False
                return True
            self.trail.pop()
        return False

    def _tick(self):
        if time.time() > self.deadline:
            raise Timeout()

    def _check(self, *extra, timeout=None):
        self._tick()
        t = time.time()
        s = self.solver
        if timeout:
            s.set('timeout', timeout)
        r = s.check(*extra)
        if timeout:
            s.set('timeout', self.branch_ms)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        n = str(r)
        setattr(self.stats, n, getattr(self.stats, n) + 1)
        return r

    def add(self, c):
        c = zb(c.v) if isinstance(c, B) else zb(c)
        lin = self.hooks.get('lazy') == 'lin'
        if lin:
            self.lsolver.add(self._lin(c))
        if not lin or z3.is_eq(c):
            c = self.norm(c)
        if z3.is_true(c):
            return
        self._defs(c)
        self.path.append(c)
        self.solver.add(c)
        if self._pure_int(c):
            self.isolver.add(c)

    def _lin(self, c):
        """c with every nonlinear monomial replaced by a variable of its own"""
        c = z3.simplify(c, som=True, arith_lhs=True)
        sub, todo, seen = [], [c], set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if t.decl().kind() in (z3.Z3_OP_POWER, z3.Z3_OP_DIV) or z3.is_mul(t) and sum(1 for a in t.children() if not z3.is_rational_value(a)) > 1:
                k = [a for a in t.children() if not z3.is_rational_value(a)] if z3.is_mul(t) else [t]
                f = [a for a in t.children() if z3.is_rational_value(a)] if z3.is_mul(t) else []
                key = tuple(sorted(a.get_id() for a in k))
                if key not in self._mono:
                    self._mono[key] = z3.Real(f'mono!{len(self._mono)}')
                    self._keep += k
                v = self._mono[key]
                for a in f:
                    v = a * v
                sub.append((t, v))
                self._keep.append(t)
            else:
                todo += t.children()
        return z3.substitute(c, *sub) if sub else c

    def norm(self, c):
        """comparisons without the reciprocal atoms that can be cleared"""
        if z3.is_true(c) or z3.is_false(c):
            return c
        if self.isub:
            c = z3.substitute(c, *self.isub)
        n = self.polys.norm_cmp(c)
        if n is not c:
            self._keep.append(c)
            n = z3.simplify(n)
        return n

    def _defs(self, c):
        """assert the definition of every reciprocal atom still in c"""
        if not self._invdef or self.hooks.get('lazy'):
            return
        todo, seen = [c], set()
        while todo:
            t = todo.pop()
            k = t.get_id()
            if k in seen:
                continue
            seen.add(k)
            d = self._invdef.pop(k, None)
            if d is not None:
                self.path.append(d)
                self.solver.add(d)
                todo.append(d)
            todo += t.children()

    # ------------------------------------------------------------ branching
    def branch(self, cond):
        c = z3.simplify(cond)
        lin = self.hooks.get('lazy') == 'lin' and not z3.is_eq(c)
        if not (z3.is_true(c) or z3.is_false(c) or lin):
            c = z3.simplify(self.norm(c))
            self._defs(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.known:
            return self.known[k]
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            assert e[0] == 'b', 'non-deterministic re-execution'
            choice = e[2]
            self.pos += 1
            if e[1] == 'forced':
                self._learn(c, choice)
                return choice
        else:
            forced = None
            if lin:
                # (more paths than the code has, never fewer)
                if self.lsolver.check(self._lin(c)) == z3.unsat:
                    forced = False
                elif self.lsolver.check(self._lin(z3.Not(c))) == z3.unsat:
                    forced = True
                self.stats.queries += 2
            elif self._check(c) == z3.unsat:
                forced = False
            elif self._check(z3.Not(c)) == z3.unsat:
                forced = True
            if forced is not None:
                self.trail.append(['b', 'forced', forced, False])
                self.pos += 1
                self._learn(c, forced)
                return forced
            choice = True
            self.trail.append(['b', None, True, True])
            self.pos += 1
        self.add(c if choice else z3.Not(c))
        self._learn(c, choice)
        return choice

    def _learn(self, c, val):
        self._keep.append(c)
        self.known[c.get_id()] = val

    def branch_known_nonzero(self, v):
        """True on the paths where v != 0"""
        if self.hooks.get('lazy'):
            c = z3.simplify(v)
            return not (z3.is_rational_value(c) and c.as_fraction() == 0)
        return not self.branch(v == 0)

    def choose(self, n):
        """nondeterministic choice 0..n-1 (forks)"""
        for k in range(n - 1):
            if self.pos < len(self.trail):
                e = self.trail[self.pos]
                self.pos += 1
                if e[2]:
                    return k
            else:
                self.trail.append(['c', None, True, True])
                self.pos += 1
                return k
        return n - 1

    def _pure_int(self, c):
        """only integer variables, no multiplication of variables"""
        k = c.get_id()
        r = self._pi.get(k)
        if r is None:
            r = self._pi_walk(c)
            self._pi[k] = r
            self._keep.append(c)
        return r

    def _pi_walk(self, c):
        seen, todo = set(), [c]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_real(t):
                return False
            if z3.is_mul(t) and sum(1 for a in t.children() if not z3.is_int_value(a)) > 1:
                return False
            todo += t.children()
        return True

    def concretize(self, x):
        """fork over the feasible values of an integer term"""
        if isinstance(x, int):
            return x
        if isinstance(x.v, int):
            return x.v
        v = z3.simplify(x.v)
        if z3.is_int_value(v):
            return v.as_long()
        if self.isub:
            v = z3.simplify(z3.substitute(v, *self.isub))
            if z3.is_int_value(v):
                return v.as_long()
        kc = v.get_id()
        if kc in self._conc:
            return self._conc[kc]
        pure = self._pure_int(v)
        n = 0
        while True:
            n += 1
            if n > 400:
                raise Unsupported('integer with too many values used as an index')
            if self.pos < len(self.trail):
                e = self.trail[self.pos]
                assert e[0] == 'v', 'non-deterministic re-execution'
                self.pos += 1
                k, choice = e[1], e[2]
                self.add(v == k if choice else v != k)
                if choice:
                    return self._fixed(v, k)
                continue
            self._tick()
            sol = self.isolver if pure else self.solver
            r = sol.check()
            self.stats.queries += 1
            if r != z3.sat:
                if r == z3.unsat:
                    raise PathAbort()
                raise Unsupported('solver gave no value for an index')
            k = sol.model().eval(v, model_completion=True).as_long()
            if pure and self._check(v == k) == z3.unsat:
                self.isolver.add(v != k)
                self.trail.append(['v', k, False, False])
                self.pos += 1
                self.add(v != k)
                continue
            other = sol.check(v != k)
            self.add(v == k)
            self.trail.append(['v', k, True, other != z3.unsat])
            self.pos += 1
            return self._fixed(v, k)

    def _fixed(self, v, k):
        self._conc[v.get_id()] = k
        self._keep.append(v)
        # v == k with one variable: remember its value
        vs = set()
        todo = [v]
        while todo:
            t = todo.pop()
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                vs.add(t)
            todo += t.children()
            if len(vs) > 1:
                return k
        if len(vs) == 1:
            w = vs.pop()
            if z3.is_int(w) and self.isolver.check() == z3.sat:
                val = self.isolver.model().eval(w, model_completion=True)
                if self.isolver.check(w != val) == z3.unsat:
                    self.isub.append((w, val))
        return k

    # --------------------------------------------------------------- inputs
    def fresh(self, base, sort='real'):
        self.fresh_n += 1
        n = f'{base}!{self.fresh_n}'
        return z3.Real(n) if sort == 'real' else (z3.Int(n) if sort == 'int' else z3.Bool(n))

    def real(self, name, lo=None, hi=None, nonzero=False, positive=False):
        assert name not in self.inputs, name
        v = z3.Real(name)
        self.inputs[name] = ('real', v)
        self.ranges[name] = (0 if positive and lo is None else lo, hi)
        if lo is not None:
            self.add(v >= zr(frac(lo)))
        if hi is not None:
            self.add(v <= zr(frac(hi)))
        if positive:
            self.add(v > 0)
        if nonzero:
            self.add(v != 0)
        return R(v)

    def int(self, name, lo, hi):
        assert name not in self.inputs, name
        self.ranges[name] = (lo, hi)
        if lo == hi:
            self.inputs[name] = ('int', z3.IntVal(lo))
            return I(lo)
        v = z3.Int(name)
        self.inputs[name] = ('int', v)
        self.add(z3.And(v >= lo, v <= hi))
        return I(v, lo, hi)

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = ('bool', v)
        return B(v)

    def reals(self, name, shape, **kw):
        from .nparr import symarr
        return symarr(self._fill(name, shape, lambda n: self.real(n, **kw)))

    def ints(self, name, shape, lo, hi):
        from .nparr import symarr
        return symarr(self._fill(name, shape, lambda n: self.int(n, lo, hi)), 'int')

    def _fill(self, name, shape, f):
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            a[ix] = f(name + ''.join(f'_{i}' for i in ix))
        return a

    def array(self, x):
        from .nparr import symarr
        return symarr(np.array(x, dtype=object))

    def assume(self, cond):
        c = mkB(cond)
        if c.const():
            if not c.v:
                raise PathAbort()
            return
        self.add(c.v)
        if self.pos >= len(self.trail) and not (self.hooks.get('lazy') and self.atoms):
            if self._check() == z3.unsat:
                raise PathAbort()

    def concrete(self, x):
        """concrete python int of an integer input (forks)"""
        return int(x)

    def reach(self, label):
        self.stats.reached[label] = self.stats.reached.get(label, 0) + 1

    # ------------------------------------------------------- term services
    def canon(self, t):
        s = z3.simplify(t, som=True, blast_distinct=False)
        return s

    def note_nonfinite(self):
        self.nonfinite = True

    def _sign(self, t):
        """1 / -1 when the path fixes the sign of t, else 0 (no fork)"""
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            assert e[0] == 's', 'non-deterministic re-execution'
            self.pos += 1
            return e[1]
        c = self.norm(t > 0)
        if z3.is_true(c):
            r = 1
        elif z3.is_false(c):
            r = -1
        else:
            self._defs(c)
            r = 0
            if self._check(z3.Not(c)) == z3.unsat:
                r = 1
            elif self._check(c) == z3.unsat:
                r = -1
        self.trail.append(['s', r, r, False])
        self.pos += 1
        return r

    def _range_sign(self, t):
        """sign of an input known from its declared range"""
        if t.num_args() == 0:
            lo, hi = self.ranges.get(t.decl().name(), (None, None))
            return 1 if lo is not None and lo > 0 else -1 if hi is not None and hi < 0 else 0
        return 0

    def _ival(self, t):
        """interval of a term from the ranges of inputs and atoms (outwards rounded floats; None: unknown)"""
        k = t.get_id()
        if k in self._ivals:
            return self._ivals[k]
        r = None
        kind = t.decl().kind()
        if z3.is_rational_value(t):
            v = float(t.as_fraction())
            r = (v - abs(v) * 1e-14, v + abs(v) * 1e-14)
        elif t.num_args() == 0:
            n = t.decl().name()
            r = self.aranges.get(n)
            if r is None:
                lo, hi = self.ranges.get(n, (None, None))
                r = None if lo is None or hi is None else (float(lo), float(hi))
        elif kind in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            xs = [self._ival(a) for a in t.children()]
            if all(x is not None for x in xs):
                r = xs[0]
                for i, x in enumerate(xs[1:], 1):
                    if kind == z3.Z3_OP_MUL:
                        # (a square is not negative)
                        p = [u * v for u in r for v in x]
                        r = (min(p), max(p))
                        if len(xs) == 2 and t.arg(0).eq(t.arg(1)):
                            r = (max(r[0], 0.0), r[1])
                    elif kind == z3.Z3_OP_ADD:
                        r = (r[0] + x[0], r[1] + x[1])
                    else:
                        r = (r[0] - x[1], r[1] - x[0])
                if kind == z3.Z3_OP_UMINUS:
                    r = (-xs[0][1], -xs[0][0])
                w = (abs(r[0]) + abs(r[1])) * 1e-13
                r = (r[0] - w, r[1] + w)
        self._keep.append(t)
        self._ivals[k] = r
        return r

    def _arange(self, atom, arg, f):
        """range of a new atom f(arg)"""
        x = self._ival(arg)
        r = f(x) if x is not None else None
        if r is None:
            return
        w = (abs(r[0]) + abs(r[1])) * 1e-12
        r = (r[0] - w, r[1] + w)
        self.aranges[atom.decl().name()] = r
        self.add(z3.And(atom >= zr(frac(r[0])), atom <= zr(frac(r[1]))))

    def quotient(self, a, b):
        cb = self.canon(b.v)
        k = cb.get_id()
        if k not in self._invs:
            q = self.fresh('inv')
            self._keep.append(cb)
            self._invs[k] = q
            self._invdef[q.get_id()] = q * b.v == 1
            self.atoms[q.decl().name()] = ('inv', b.v)
            if self.hooks.get('lazy') == 'lin':
                self._arange(q, b.v, lambda x: (1 / x[1], 1 / x[0]) if x[0] > 0 or x[1] < 0 else None)
            self.polys.add_inv(q, self.polys.of(b.v), self._range_sign(cb) if self.hooks.get('lazy') else self._sign(b.v))
        q = self._invs[k]
        if isinstance(a.v, Fraction):
            if a.v == 0:
                return R(Fraction(0))
            return R(q * zr(a.v))
        # a == c*b  =>  quotient c
        d = z3.simplify(self.canon(a.v) - cb, som=True)
        if z3.is_rational_value(d) and d.as_fraction() == 0:
            return R(Fraction(1))
        return R(a.v * q)

    def sqrt(self, x):
        if x.const():
            if x.v < 0:
                self.note_nonfinite()
                return R(NONFINITE)
            n, d = x.v.numerator, x.v.denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return R(Fraction(rn, rd))
            if self.hooks.get('numeric'):
                return R(frac(math.sqrt(x.v)))
            xv = zr(x.v)
        else:
            xv = x.v
            if not self.hooks.get('lazy') and self.branch(xv < 0):
                self.note_nonfinite()
                return R(NONFINITE)
        c = self.canon(xv)
        k = c.get_id()
        if k not in self._sqrts:
            s = self.fresh('sqrt')
            self._keep.append(c)
            self._sqrts[k] = s
            self.add(s >= 0 if self.hooks.get('lazy') else z3.And(s >= 0, s * s == xv))
            if self.hooks.get('lazy') == 'lin':
                self._arange(s, xv, lambda x: (math.sqrt(x[0]), math.sqrt(x[1])) if x[0] >= 0 else None)
            self.polys.add_sqrt(s, self.polys.of(xv))      # (after its definition)
            self.atoms[s.decl().name()] = ('sqrt', xv)
        return R(self._sqrts[k])

    def trig(self, fn, x):
        """sin / cos as an uninterpreted function.  The atom is keyed by the
        canonical polynomial form of its argument (up to sign), so two
        arithmetically equal arguments share one atom; congruence for the
        remaining pairs is added to the path as an implication."""
        if x.v is NONFINITE:
            return R(NONFINITE)
        if x.const() and x.v == 0:
            return R(Fraction(0 if fn == 'sin' else 1))
        if x.const() and self.hooks.get('numeric'):
            # (the code under test computes numbers of its own from given settings)
            return R(frac(getattr(math, fn)(x.v)))
        arg = self.canon(zr(x.v))
        neg = self.canon(-arg)
        for a2, atom2, f2 in self._trigs:
            if f2 == fn and a2.eq(arg):
                return R(atom2)
            if f2 == fn and a2.eq(neg):
                return R(-atom2) if fn == 'sin' else R(atom2)
        pa = self.polys.of(arg)
        if pa is not None and any(v in self.polys.inv for m in pa for v, _ in m):
            for a2, atom2, f2 in self._trigs:
                pb = self.polys.of(a2) if f2 == fn else None
                if pb is not None and self.polys.clear_pair(pa, pb) == {}:
                    return R(atom2)
        a = self.fresh(fn)
        self.atoms[a.decl().name()] = (fn, arg)
        if self.trig_axioms:
            self.add(z3.And(a <= 1, a >= -1))
            for a2, atom2, f2 in self._trigs:
                if f2 == fn and not self.hooks.get('lazy'):
                    # congruence
                    self.add(z3.Implies(a2 == arg, atom2 == a))
                elif f2 != fn and a2.eq(arg):
                    self.add(atom2 * atom2 + a * a == 1)
        self._trigs.append((arg, a, fn))
        return R(a)

    # spec-side helpers (identical names exist on ReplayCtx)
    def sin(self, x):
        return self.trig('sin', mkR(x))

    def cos(self, x):
        return self.trig('cos', mkR(x))

    def rsqrt(self, x):
        return self.sqrt(mkR(x))

    def floor(self, x):
        from .core import rfloor_i
        return rfloor_i(x)

    def ite(self, c, a, b):
        return _ite(c, a, b)

    def And(self, *xs):
        r = B(True)
        for x in xs:
            r = r & mkB(x)
        return r

    def Or(self, *xs):
        r = B(False)
        for x in xs:
            r = r | mkB(x)
        return r

    def Not(self, x):
        return ~mkB(x)

    def Implies(self, a, b):
        return ~mkB(a) | mkB(b)

    def isfinite(self, x):
        return not (isinstance(x, R) and x.v is NONFINITE or isinstance(x, float) and not math.isfinite(x))

    def const(self, x):
        """exact rational constant"""
        return R(frac(x))

    def text(self, x):
        """a text from which the code under test reads the value x"""
        return token(x) if isinstance(x, (R, I)) and not x.const() else repr(x.v) if isinstance(x, I) else repr(float(x.v)) if isinstance(x, R) else repr(x)

    def parse(self, s):
        """[(value, format)] of the symbolic values in a text and the text with each of them replaced by {}"""
        out = []

        def one(m):
            out.append(self.hooks['tokens'][int(m.group(1))])
            return '{}'
        return re.sub('\u27e6(\\d+)\u27e7', one, s), out

    # --------------------------------------------------------------- checks
    def check(self, cond, label, margin=None):
        self.stats.checks += 1
        if isinstance(cond, np.ndarray):
            cond = self.And(*cond.ravel().tolist())
        c = mkB(cond)
        if c.const():
            if not c.v:
                self._violated(label, z3.BoolVal(True), margin)
            return
        neg = z3.Not(c.v)
        r = self.decide(neg)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.inconclusive.append(f'{label}: solver returned unknown')
            raise PathAbort()
        self._violated(label, neg, margin)

    def check_eq(self, a, b, label):
        a = np.asarray(a, dtype=object) if isinstance(a, (list, tuple, np.ndarray)) else a
        b = np.asarray(b, dtype=object) if isinstance(b, (list, tuple, np.ndarray)) else b
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if np.shape(a) != np.shape(b):
                self.check(False, f'{label}: shape {np.shape(a)} != {np.shape(b)}')
                return
            for ix in np.ndindex(*np.shape(a)):
                self.check_eq(np.asarray(a, dtype=object)[ix], np.asarray(b, dtype=object)[ix], f'{label}{list(ix)}')
            return
        if isinstance(a, (B, bool, np.bool_)) and isinstance(b, (B, bool, np.bool_)):
            return self.check(mkB(a) == mkB(b), label)
        ia, ib = mkI(a), mkI(b)
        if ia is not None and ib is not None:
            self.check(ia == ib, label)
            return
        ra, rb = mkR(a), mkR(b)
        if ra is None or rb is None:
            raise Unsupported(f'cannot compare {type(a)} and {type(b)}')
        self.stats.checks += 1
        if ra.v is NONFINITE or rb.v is NONFINITE:
            if ra.v is rb.v:
                return
            self._violated(label + ': not finite', z3.BoolVal(True), None)
            return
        if ra.const() and rb.const():
            if ra.v != rb.v:
                # floats that came in through constant folding: tolerance
                d = abs(ra.v - rb.v)
                if d <= Fraction(1, 10**9) * max(abs(ra.v), abs(rb.v), Fraction(1, 10**6)):
                    return
                self._violated(label, z3.BoolVal(True), None)
            return
        d = None
        pa, pb = self.polys.of(zr(ra.v)), self.polys.of(zr(rb.v))
        if pa is not None and pb is not None:
            r = self.polys.clear_pair(pa, pb)
            if r is not None:
                d = self.polys.term(r)
        raw = zr(ra.v) - zr(rb.v)
        if d is None:
            d = z3.simplify(raw, som=True)
        if z3.is_rational_value(d):
            f = d.as_fraction()
            self.stats.queries += 1
            if f == 0:
                self.stats.unsat += 1
                return
            self.stats.sat += 1
            self._violated(label, z3.BoolVal(True), None)
            return
        neg = d != 0
        r = self.decide(neg)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.inconclusive.append(f'{label}: solver returned unknown')
            raise PathAbort()
        self._violated(label, neg, raw)

    def check_le(self, a, b, label):
        a, b = mkR(a), mkR(b)
        self.stats.checks += 1
        if a.v is NONFINITE or b.v is NONFINITE:
            self._violated(label + ': not finite', z3.BoolVal(True), None)
            return
        if a.const() and b.const():
            if a.v > b.v + Fraction(1, 10**9) * max(abs(a.v), abs(b.v)):
                self._violated(label, z3.BoolVal(True), None)
            return
        d = zr(a.v) - zr(b.v)
        r = self.decide(d > 0)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.inconclusive.append(f'{label}: solver returned unknown')
            raise PathAbort()
        self._violated(label, d > 0, d)

    def decide(self, neg, timeout=None):
        """sat / unsat / unknown of path & neg, portfolio of z3 engines"""
        neg = z3.simplify(self.norm(z3.simplify(neg)))
        self._defs(neg)
        if z3.is_false(neg):
            self.stats.queries += 1
            self.stats.unsat += 1
            return z3.unsat
        r = self._check(neg, timeout=3000)
        if r != z3.unknown:
            if r == z3.sat:
                self._last_model = self.solver.model()
            return r
        for mk, ms in ((lambda: z3.Tactic('qfnra-nlsat').solver(), self.query_ms),
                       (lambda: z3.Then('simplify', 'solve-eqs', 'purify-arith', 'smt').solver(), self.query_ms),
                       (lambda: z3.SolverFor('QF_NRA'), self.hard_ms),
                       (lambda: z3.SimpleSolver(), self.query_ms)):
            self._tick()
            try:
                s = mk()
                s.set('timeout', int(min(ms, max(1000, 1000 * (self.deadline - time.time())))))
                s.add(*self.path)
                s.add(neg)
                t = time.time()
                r = s.check()
                self.stats.solver_s += time.time() - t
            except z3.Z3Exception:
                continue
            self.stats.queries += 1
            n = str(r)
            setattr(self.stats, n, getattr(self.stats, n) + 1)
            if r != z3.unknown:
                if r == z3.sat:
                    self._last_model = s.model()
                return r
        return z3.unknown

    def _values(self, m):
        out = {}
        for n, (kind, v) in self.inputs.items():
            e = m.eval(v, model_completion=True)
            if kind == 'int':
                out[n] = e.as_long()
            elif kind == 'bool':
                out[n] = bool(z3.is_true(e))
            else:
                if z3.is_algebraic_value(e):
                    e = e.approx(20)
                out[n] = float(e.as_fraction())
        return out

    def _samples(self, near=None):
        """further candidate inputs for the replay of a violation found in lazy
        mode (roots and quotients free): interior points of the input ranges"""
        import random
        g = random.Random(1)
        out = []
        for k in range(12):
            o = {}
            if near and k % 2:
                out.append({n: v * g.uniform(0.8, 1.2) if isinstance(v, float) else v for n, v in near.items()})
                continue
            for n, (kind, v) in self.inputs.items():
                lo, hi = self.ranges.get(n, (None, None))
                if kind == 'real':
                    a = -3.0 if lo is None else float(lo)
                    b = max(3.0, a + 3) if hi is None else float(hi)
                    o[n] = a + (b - a) * g.uniform(0.05, 0.95)
                elif kind == 'int':
                    o[n] = g.randint(lo, hi)
                else:
                    o[n] = g.random() < 0.5
            out.append(o)
        return out

    def _violated(self, label, neg, d):
        models = []
        k = ''.join(ch for ch in label if not ch.isdigit())
        self.seen_labels[k] = self.seen_labels.get(k, 0) + 1
        if self.seen_labels[k] > 3:
            raise ScenarioViolation()
        self._defs(neg)
        if d is not None and z3.is_expr(d):
            self._defs(d)
        # prefer tame counterexamples (bounded inputs, visible margin)
        reals = [v for k, v in self.inputs.values() if k == 'real']
        tame = []
        for bound in (3, 100):
            tame.append(([z3.And(v <= bound, v >= -bound) for v in reals], bound))
        tries = []
        if d is not None and not isinstance(d, (int, float)):
            for bnd, _ in tame:
                for mg in ('1/10', '1/1000'):
                    q = z3.RealVal(mg)
                    tries.append(bnd + [z3.Or(d > q, d < -q)])
        tries.append(tame[0][0])
        tries.append([])
        for t in tries:
            r = None
            for eng in (0, 1):
                s = z3.Solver() if eng == 0 else z3.Tactic('qfnra-nlsat').solver()
                s.set('timeout', 5000)
                try:
                    s.add(*self.path)
                    s.add(neg, *t)
                    r = s.check()
                    if r == z3.sat:
                        models.append(self._values(s.model()))
                        break
                except z3.Z3Exception:
                    continue
            if len(models) >= 3:
                break
        if self.hooks.get('lazy'):
            models += self._samples(models[0] if models else None)
        if not models:
            m = getattr(self, '_last_model', None)
            if m is not None:
                try:
                    models.append(self._values(m))
                except z3.Z3Exception:
                    pass
        if not models and self.decide(neg) == z3.unsat:
            # the path was only kept because a branch could not be decided in time
            if z3.is_true(z3.simplify(neg)):
                raise PathAbort()
            return
        if not models:
            self.inconclusive.append(f'{label}: violated but no model could be built')
            raise PathAbort()
        self.violations.append(Violation(label, models[0], 'symbolic', models[1:]))
        raise ScenarioViolation()

    def soft_violation(self, kind, label, cond=None):
        """A side condition of the executed code (memory safety, overflow, leak)
        can fail: cond is the z3 condition under which it does."""
        if not self.collect_soft:
            return
        sk = getattr(self, 'soft_kinds', None)
        if sk is not None and kind != 'memory' and kind not in sk:
            return
        self._violated(f'{kind}: {label}', cond if cond is not None else z3.BoolVal(True), None)

    def raises(self, fn, *exc):
        """(result, None) or (None, exception) for the listed exception types"""
        try:
            return fn(), None
        except exc as e:
            return None, e


class ReplayViolation(BaseException):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail


class ReplaySkip(BaseException):
    """The inputs do not satisfy the scenario's assumptions."""


class ReplayCtx:
    """Same interface, concrete numbers, the really built code."""
    mode = 'replay'

    def __init__(self, inputs, rtol=1e-7, atol=1e-10):
        self.vals = inputs
        self.rtol, self.atol = rtol, atol
        self.nonfinite = False
        self.collect_soft = False
        self.hooks = {}
        self.choices = []

    def real(self, name, lo=None, hi=None, nonzero=False, positive=False):
        v = float(self.vals.get(name, 0.0))
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        if positive and v <= 0 or nonzero and v == 0:
            raise ReplaySkip()
        return v

    def int(self, name, lo, hi):
        return int(self.vals.get(name, lo))

    def bool(self, name):
        return bool(self.vals.get(name, False))

    def reals(self, name, shape, **kw):
        return self._fill(name, shape, lambda n: self.real(n, **kw), float)

    def ints(self, name, shape, lo, hi):
        return self._fill(name, shape, lambda n: self.int(n, lo, hi), np.int32)

    def _fill(self, name, shape, f, dt):
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape, dtype=dt)
        for ix in np.ndindex(*shape):
            a[ix] = f(name + ''.join(f'_{i}' for i in ix))
        return a

    def array(self, x):
        return np.array(x, dtype=float)

    def choose(self, n):
        raise Unsupported('choose() in replay')

    def assume(self, cond):
        if not np.all(cond):
            raise ReplaySkip()

    def concrete(self, x):
        return int(x)

    def reach(self, label):
        pass

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def rsqrt(self, x):
        return math.sqrt(x)

    def floor(self, x):
        return math.floor(x)

    def ite(self, c, a, b):
        return a if c else b

    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def isfinite(self, x):
        return bool(np.isfinite(x))

    def text(self, x):
        return repr(x)

    def const(self, x):
        return float(x)

    def check(self, cond, label, margin=None):
        if not np.all(cond):
            raise ReplayViolation(label, 'condition is false')

    def check_eq(self, a, b, label):
        sa, sb = np.shape(a), np.shape(b)
        if sa != sb:
            raise ReplayViolation(label, f'shape {sa} != {sb}')
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        with np.errstate(all='ignore'):
            scale = np.maximum(np.abs(a), np.abs(b))
            ok = np.abs(a - b) <= self.atol + self.rtol * scale
            ok |= ~np.isfinite(a) & ~np.isfinite(b)
        if not np.all(ok):
            raise ReplayViolation(label, f'{a.tolist()} != {b.tolist()}')

    def check_le(self, a, b, label):
        if not np.isfinite(a) or not np.isfinite(b) or a > b + self.atol + self.rtol * max(abs(a), abs(b)):
            raise ReplayViolation(label, f'{a} > {b}')

    def soft_violation(self, *a):
        pass

    def raises(self, fn, *exc):
        try:
            return fn(), None
        except exc as e:
            return None, e
