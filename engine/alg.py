"""Rational normal form modulo the algebraic definitions of the auxiliary variables (c^2+s^2=1, r^2=x).

do_close uses it to clear denominators and eliminate squares of auxiliary variables before asking the solver about
the residual; every rewriting step is an equality implied by the axioms, so the residual is equal to the original
difference on every path where the denominators are non-zero (which the path condition states)."""
import z3
from fractions import Fraction
from solver import frac_of


class TooBig(Exception):
    pass


LIMIT = 6000


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + c * k
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = dict(a)
    for v, e in b:
        r[v] = r.get(v, 0) + e
    return tuple(sorted(r.items()))


def pmul(a, b):
    if len(a) * len(b) > 40 * LIMIT:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            x = r.get(k, 0) + c * d
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def pconst(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


ONE = {(): Fraction(1)}


class Rat:
    """num / product of factors"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=None):
        self.num, self.den = num, den or {}


def key(p):
    """canonical form of a factor: (scale, key, poly)"""
    m = min(p)
    s = p[m]
    q = {a: c / s for a, c in p.items()}
    return s, frozenset(q.items()), q


class Alg:
    def __init__(self, rel):
        self.rel = rel        # var id -> callable giving the z3 term that equals v*v, in creation order
        self.order = {}       # var id -> creation index
        self.memo = {}
        self.vars = {}
        self.polys = {}
        self.keep = []

    def rat(self, t):
        r = self.memo.get(t.get_id())
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in self.memo:
                stack.pop()
                continue
            k = x.decl().kind()
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV) or \
                    (k == z3.Z3_OP_POWER and z3.is_rational_value(x.arg(1))):
                todo = [c for c in x.children() if c.get_id() not in self.memo]
                if todo:
                    stack.extend(todo)
                    continue
            stack.pop()
            self.memo[i] = self.step(x, k)
            self.keep.append(x)
        return self.memo[t.get_id()]

    def step(self, x, k):
        f = frac_of(x) if not x.children() else None
        if f is not None:
            return Rat({(): f} if f else {})
        ch = [self.memo[c.get_id()] for c in x.children()] if k in (
            z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV) else None
        if k == z3.Z3_OP_ADD:
            r = ch[0]
            for c in ch[1:]:
                r = self.add(r, c)
            return r
        if k == z3.Z3_OP_SUB:
            r = ch[0]
            for c in ch[1:]:
                r = self.add(r, c, -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return Rat({m: -c for m, c in ch[0].num.items()}, ch[0].den)
        if k == z3.Z3_OP_MUL:
            r = ch[0]
            for c in ch[1:]:
                r = self.mul(r, c)
            return r
        if k == z3.Z3_OP_DIV:
            return self.mul(ch[0], self.inv(ch[1]))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(x.arg(1)):
            e = frac_of(x.arg(1))
            if e.denominator == 1 and 0 < e <= 8:
                b = self.memo[x.arg(0).get_id()]
                r = b
                for _ in range(int(e) - 1):
                    r = self.mul(r, b)
                return r
        self.vars[x.get_id()] = x
        return Rat({((x.get_id(), 1),): Fraction(1)})

    def inv(self, r):
        if not r.num:
            raise TooBig()
        c = pconst(r.num)
        num = ONE
        for kk, e in r.den.items():
            for _ in range(e):
                num = pmul(num, self.polys[kk])
        if c is not None:
            return Rat({m: a / c for m, a in num.items()})
        s, kk, q = key(r.num)
        self.polys[kk] = q
        return Rat({m: a / s for m, a in num.items()}, {kk: 1})

    def mul(self, a, b):
        den = dict(a.den)
        for kk, e in b.den.items():
            den[kk] = den.get(kk, 0) + e
        num = pmul(a.num, b.num)
        if den and len(num) > 0:
            # cancel a factor that is literally the numerator
            s, kk, q = key(num)
            if kk in den:
                den[kk] -= 1
                if not den[kk]:
                    del den[kk]
                num = {(): s}
        return Rat(num, den)

    def add(self, a, b, k=1):
        if a.den == b.den:
            return Rat(padd(a.num, b.num, k), a.den)
        den = dict(a.den)
        for kk, e in b.den.items():
            if den.get(kk, 0) < e:
                den[kk] = e
        return Rat(padd(self.lift(a, den), self.lift(b, den), k), den)

    def lift(self, a, den):
        num = a.num
        for kk, e in den.items():
            for _ in range(e - a.den.get(kk, 0)):
                num = pmul(num, self.polys[kk])
        return num

    def reduce(self, r):
        """eliminate squares of the auxiliary variables, latest first"""
        for _ in range(40):
            vs = set()
            for m in r.num:
                for v, e in m:
                    if e >= 2 and v in self.rel:
                        vs.add(v)
            if not vs:
                return r
            v = max(vs, key=lambda x: self.order[x])
            sq = self.rat(self.rel[v])
            groups = {}
            for m, c in r.num.items():
                e = dict(m).get(v, 0)
                rest = tuple((w, x) for w, x in m if w != v)
                if e & 1:
                    rest = mmul(rest, ((v, 1),))
                g = groups.setdefault(e // 2, {})
                g[rest] = g.get(rest, 0) + c
            out = Rat({}, r.den)
            pw = Rat(ONE)
            n = 0
            for e in sorted(groups):
                while n < e:
                    pw = self.mul(pw, sq)
                    n += 1
                g = {m: c for m, c in groups[e].items() if c}
                out = self.add(out, self.mul(Rat(g, r.den), pw))
            r = out
        raise TooBig()

    def term(self, p):
        """polynomial -> z3 term"""
        ts = []
        for m, c in p.items():
            fs = [z3.RealVal(c)]
            for v, e in m:
                fs += [self.vars[v]] * e
            ts.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
        return z3.Sum(*ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))

    def bound(self, p, bounds):
        """interval bound of |p|, or None"""
        tot = Fraction(0)
        for m, c in p.items():
            b = abs(c)
            for v, e in m:
                iv = bounds.get(v)
                if iv is None:
                    return None
                b *= max(abs(iv[0]), abs(iv[1])) ** e
            tot += b
        return tot

    def psign(self, p, bounds, weak=False):
        """+1/-1 when every monomial has the same sign for all values within the bounds (strictly), else 0"""
        g = strict = 0
        for m, c in p.items():
            x = 1 if c > 0 else -1
            st = True
            for v, e in m:
                iv = bounds.get(v)
                if iv is None or not (iv[0] >= 0 or iv[1] <= 0):
                    if e & 1:
                        return 0
                    st = False
                    continue
                if iv[1] <= 0 and iv[0] < 0 and e & 1:
                    x = -x
                st = st and (iv[0] > 0 or iv[1] < 0)
            if g and x != g:
                return 0
            g = x
            strict = strict or st
        return g if strict or weak else 0

    def sign(self, t, bounds):
        try:
            r = self.rat(t)
        except TooBig:
            return 0
        g = self.psign(r.num, bounds)
        for kk, e in r.den.items():
            if not g:
                return 0
            if e & 1:
                g *= self.psign(self.polys[kk], bounds)
        return g

    def ratio_bound(self, num, den, bounds, d=ONE):
        """bound of |num/den| when the expanded denominator has only terms of one sign, or None:
        |sum p_k m_k| / sum q_k m_k <= max |p_k|/q_k for monomials m_k >= 0; monomials of num missing from den are
        dominated by a product of two of its neighbours when possible"""
        for kk, e in den.items():
            p = self.polys[kk]
            for _ in range(e):
                d = pmul(d, p)
        # (den != 0 is part of the path condition, so weak signs do)
        g = self.psign(d, bounds, True)
        if not g:
            # a few tiny terms of the other sign: |d| >= (1 - eps) |main part|
            main, neg = {}, {}
            big = max(abs(c) for c in d.values())
            g = 1 if sum(d.values()) > 0 else -1
            for m, c in d.items():
                s = self.psign({m: c}, bounds, True)
                if not s:
                    if any(e & 1 and (bounds.get(v) is None or bounds[v][0] < 0 < bounds[v][1]) for v, e in m):
                        return None
                    s = 1 if c > 0 else -1
                (main if s == g else neg)[m] = c
            if not main or not self.psign(main, bounds, True) or sum(abs(c) for c in neg.values()) > big / 1000:
                return None
            eps = self.ratio_bound(neg, {}, bounds, main)
            best = self.ratio_bound(num, {}, bounds, main)
            return None if eps is None or best is None or eps > Fraction(1, 2) else best / (1 - eps)
        best = Fraction(0)
        for m, c in num.items():
            q = d.get(m)
            if q is None:
                # m <= (a + b)/2 for a*b = m*m (arithmetic-geometric mean)
                for a in d:
                    b = dict(m)
                    b = {v: 2 * e for v, e in b.items()}
                    for v, e in a:
                        b[v] = b.get(v, 0) - e
                    if any(e < 0 for e in b.values()):
                        continue
                    b = tuple(sorted((v, e) for v, e in b.items() if e))
                    if b in d:
                        q = 2 * min(abs(d[a]), abs(d[b]))
                        break
                if q is None:
                    return None
                best += abs(c) / abs(q)
                continue
            best += abs(c / q)
        return best
