"""Sparse multivariate polynomials over the rationals, read off z3 terms.

Used to (a) recognise arithmetically equal terms and (b) remove the
reciprocal atoms that division introduces (q*b == 1) from a comparison by
multiplying it with the (sign-known) denominators, so that the solver sees
polynomial conditions over the scenario's own inputs."""
from fractions import Fraction

from .core import z3

LIMIT = 4000
TOL = Fraction(1, 10**11)


class TooBig(Exception):
    pass


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > 40 * LIMIT:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > LIMIT:
        raise TooBig()
    return r


def pconst(c):
    return {(): Fraction(c)} if c else {}


class Polys:
    """conversion context (one per path)"""

    def __init__(self):
        self.cache = {}
        self.keep = []
        self.vars = {}           # var id -> z3 term
        self.root = {}           # var id -> (order, poly of its square)
        self.inv = {}            # var id -> (order, base poly, sign)

    def of(self, t):
        k = t.get_id()
        r = self.cache.get(k)
        if r is not None:
            return r if r is not False else None
        stack = [t]
        while stack:
            x = stack[-1]
            kx = x.get_id()
            if kx in self.cache:
                stack.pop()
                continue
            if z3.is_rational_value(x) or z3.is_int_value(x):
                self._put(x, pconst(x.as_fraction() if z3.is_rational_value(x) else x.as_long()))
                stack.pop()
                continue
            ch = x.children()
            kd = x.decl().kind()
            if not ch:
                self.vars[kx] = x
                self._put(x, {((kx, 1),): Fraction(1)})
                stack.pop()
                continue
            if kd == z3.Z3_OP_TO_REAL:
                c = ch[0]
                if c.num_args() == 0 and not z3.is_int_value(c):
                    self.vars[kx] = x
                    self._put(x, {((kx, 1),): Fraction(1)})
                    stack.pop()
                    continue
                if z3.is_int_value(c):
                    self._put(x, pconst(c.as_long()))
                    stack.pop()
                    continue
                if c.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                    # push the cast to the leaves
                    parts = [z3.ToReal(y) for y in c.children()]
                    kk = c.decl().kind()
                    if kk == z3.Z3_OP_ADD:
                        y = z3.Sum(parts)
                    elif kk == z3.Z3_OP_MUL:
                        y = z3.Product(parts)
                    elif kk == z3.Z3_OP_UMINUS:
                        y = -parts[0]
                    else:
                        y = parts[0]
                        for q in parts[1:]:
                            y = y - q
                    p = self.of(y)
                    self._put(x, p if p is not None else False)
                    stack.pop()
                    continue
                self._put(x, False)
                stack.pop()
                continue
            if kd == z3.Z3_OP_POWER:
                e = ch[1]
                if not (z3.is_int_value(e) or z3.is_rational_value(e)):
                    self._put(x, False)
                    stack.pop()
                    continue
            elif kd not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                self._put(x, False)
                stack.pop()
                continue
            todo = [c for c in ch if c.get_id() not in self.cache]
            if todo:
                stack += todo
                continue
            ps = [self.cache[c.get_id()] for c in ch]
            if any(p is False for p in ps):
                self._put(x, False)
                stack.pop()
                continue
            try:
                if kd == z3.Z3_OP_ADD:
                    r = dict(ps[0])
                    for p in ps[1:]:
                        r = padd(r, p)
                elif kd == z3.Z3_OP_SUB:
                    r = dict(ps[0])
                    for p in ps[1:]:
                        r = padd(r, p, -1)
                elif kd == z3.Z3_OP_UMINUS:
                    r = {m: -c for m, c in ps[0].items()}
                elif kd == z3.Z3_OP_MUL:
                    r = ps[0]
                    for p in ps[1:]:
                        r = pmul(r, p)
                else:
                    e = ch[1].as_fraction() if z3.is_rational_value(ch[1]) else Fraction(ch[1].as_long())
                    if e.denominator != 1 or e < 0 or e > 16:
                        raise TooBig()
                    r = pconst(1)
                    for _ in range(int(e)):
                        r = pmul(r, ps[0])
                self._put(x, r)
            except TooBig:
                self._put(x, False)
            stack.pop()
        r = self.cache[k]
        return r if r is not False else None

    def _put(self, x, r):
        self.keep.append(x)
        self.cache[x.get_id()] = r

    def add_inv(self, q, base_poly, sign):
        k = q.get_id()
        self.keep.append(q)
        self.vars[k] = q
        self.inv[k] = (len(self.inv) + len(self.root), base_poly, sign)

    def add_sqrt(self, s, base_poly):
        k = s.get_id()
        self.keep.append(s)
        self.vars[k] = s
        if base_poly is not None:
            self.root[k] = (len(self.inv) + len(self.root), base_poly)

    def clear(self, p, eq=False):
        """(p', flip): p REL 0  <=>  p' REL 0 (or its mirror when flip).
        None when some denominator is not polynomial / too big."""
        flip = False
        try:
            while True:
                top, best = None, -1
                for m in p:
                    for v, e in m:
                        o = self.inv[v][0] if v in self.inv else self.root[v][0] if e > 1 and v in self.root else -1
                        if o > best:
                            top, best = v, o
                if top is None:
                    return p, flip
                if top in self.root:
                    p = self._square(p, top)
                    continue
                _, base, sign = self.inv[top]
                if base is None:
                    return None
                deg = max(dict(m).get(top, 0) for m in p)
                mult = deg
                if sign == 0 and deg % 2 and not eq:
                    mult = deg + 1
                if sign < 0 and deg % 2:
                    flip = not flip
                pw = [pconst(1)]
                for _ in range(mult):
                    pw.append(pmul(pw[-1], base))
                by = {}
                for m, c in p.items():
                    e = dict(m).get(top, 0)
                    m2 = tuple((v, x) for v, x in m if v != top)
                    by.setdefault(e, {})
                    by[e][m2] = by[e].get(m2, 0) + c
                r = {}
                for e, q in by.items():
                    r = padd(r, pmul(q, pw[mult - e]))
                p = r
                if len(p) > LIMIT:
                    return None
        except TooBig:
            return None

    def _square(self, p, s):
        """s*s replaced by what s is the root of"""
        base = self.root[s][1]
        r, pw = {}, [pconst(1)]
        by = {}
        for m, c in p.items():
            e = dict(m).get(s, 0)
            m2 = tuple((v, x) for v, x in m if v != s)
            if e % 2:
                m2 = mmul(m2, ((s, 1),))
            d = by.setdefault(e // 2, {})
            d[m2] = d.get(m2, 0) + c
        for e, q in by.items():
            while len(pw) <= e:
                pw.append(pmul(pw[-1], base))
            r = padd(r, pmul(q, pw[e]))
        return r

    def clear_pair(self, pa, pb):
        """numerator of a - b; coefficients that agree to 1e-11 (constants the
        code folds in double precision) count as equal"""
        mk = ((-1, 1),)
        m = padd(pa, {mmul(mk, x): c for x, c in pb.items()})
        r = self.clear(m, True)
        if r is None:
            return None
        a, b = {}, {}
        for x, c in r[0].items():
            if x and x[0][0] == -1:
                b[x[1:]] = c
            else:
                a[x] = c
        out = {}
        for x in set(a) | set(b):
            u, v = a.get(x, Fraction(0)), b.get(x, Fraction(0))
            if u != v and abs(u - v) > TOL * max(abs(u), abs(v)):
                out[x] = u - v
        return out

    def term(self, p):
        """z3 term, scaled to be primitive (positive scale only)"""
        if not p:
            return z3.RealVal(0)
        from math import gcd
        den = 1
        for c in p.values():
            den = den * c.denominator // gcd(den, c.denominator)
        g = 0
        for c in p.values():
            g = gcd(g, abs(int(c * den)))
        # a common monomial factor is left alone (sign unknown)
        out = []
        for m in sorted(p):
            c = z3.RealVal(str(p[m] * den / g))
            fs = []
            for v, e in m:
                x = self.vars[v]
                fs += [x] * e
            if not fs:
                out.append(c)
            elif len(fs) == 1:
                out.append(c * fs[0])
            else:
                out.append(c * z3.Product(fs))
        return z3.Sum(out) if len(out) > 1 else out[0]

    def norm_cmp(self, c):
        """Rewrite every real comparison inside a boolean term; returns the
        new term (possibly the same)."""
        kd = c.decl().kind()
        if kd in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
            ch = c.children()
            n = [self.norm_cmp(x) for x in ch]
            if all(a is b for a, b in zip(ch, n)):
                return c
            return {z3.Z3_OP_AND: lambda: z3.And(n), z3.Z3_OP_OR: lambda: z3.Or(n),
                    z3.Z3_OP_NOT: lambda: z3.Not(n[0]), z3.Z3_OP_IMPLIES: lambda: z3.Implies(*n)}[kd]()
        if kd not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            return c
        a, b = c.children()
        if z3.is_bool(a):
            return self.norm_cmp(a) == self.norm_cmp(b)
        if not z3.is_real(a):
            return c
        pa, pb = self.of(a), self.of(b)
        if pa is None or pb is None:
            return c
        r = self.clear(padd(pa, pb, -1), kd == z3.Z3_OP_EQ)
        if r is None:
            return c
        p, flip = r
        if not p or set(p) == {()}:
            v = p.get((), Fraction(0))
            if flip:
                v = -v
            return z3.BoolVal({z3.Z3_OP_LE: v <= 0, z3.Z3_OP_GE: v >= 0, z3.Z3_OP_LT: v < 0,
                               z3.Z3_OP_GT: v > 0, z3.Z3_OP_EQ: v == 0}[kd])
        t = self.term(p)
        if flip:
            kd = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT,
                  z3.Z3_OP_GT: z3.Z3_OP_LT, z3.Z3_OP_EQ: z3.Z3_OP_EQ}[kd]
        z = z3.RealVal(0)
        return {z3.Z3_OP_LE: t <= z, z3.Z3_OP_GE: t >= z, z3.Z3_OP_LT: t < z, z3.Z3_OP_GT: t > z,
                z3.Z3_OP_EQ: t == z}[kd]
