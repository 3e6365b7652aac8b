"""Float semantics.  Concrete operands: IEEE-754 double/float evaluation, exactly as the compiled code.
Symbolic operands: RealDom = exact real arithmetic (transcendentals as constrained variables),
FPDom = bit-exact z3 floating-point theory."""
import math, struct, z3, alg
from fractions import Fraction
from solver import vars_of, byid


MINIMA = (2.0 ** -1022, 2.0 ** -126)

class Unsupported(Exception):
    pass


def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def rnd(x, w):
    return f32(x) if w == 32 else x


def cdiv(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def cfn(name, a):
    """concrete libm"""
    try:
        if name == 'sqrt':
            return math.sqrt(a[0]) if a[0] >= 0 else (a[0] if a[0] == 0 else math.nan)
        if name in ('sin', 'cos', 'tan', 'exp', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'expm1', 'erf', 'erfc',
                    'lgamma'):
            if name in ('sin', 'cos', 'tan') and math.isinf(a[0]):
                return math.nan
            return getattr(math, name)(a[0])
        if name in ('asin', 'acos'):
            return getattr(math, name)(a[0]) if -1 <= a[0] <= 1 else math.nan
        if name == 'acosh':
            return math.acosh(a[0]) if a[0] >= 1 else math.nan
        if name == 'atanh':
            return math.atanh(a[0]) if -1 < a[0] < 1 else (math.copysign(math.inf, a[0]) if abs(a[0]) == 1 else math.nan)
        if name in ('log', 'log2', 'log10', 'log1p'):
            x = a[0] + (1 if name == 'log1p' else 0)
            if x != x or x < 0:
                return math.nan
            if x == 0:
                return -math.inf
            return getattr(math, name)(a[0])
        if name == 'exp2':
            return math.pow(2.0, a[0])
        if name == 'exp10':
            return math.pow(10.0, a[0])
        if name == 'cbrt':
            return math.copysign(abs(a[0]) ** (1.0 / 3), a[0]) if not hasattr(math, 'cbrt') else math.cbrt(a[0])
        if name == 'pow':
            return math.pow(a[0], a[1])
        if name == 'fmod':
            if math.isinf(a[0]) or a[1] == 0:
                return math.nan
            return math.fmod(a[0], a[1])
        if name == 'remainder':
            if math.isinf(a[0]) or a[1] == 0:
                return math.nan
            return math.remainder(a[0], a[1])
        if name == 'hypot':
            return math.hypot(a[0], a[1])
        if name == 'atan2':
            return math.atan2(a[0], a[1])
        if name in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'roundeven'):
            x = a[0]
            if x != x or math.isinf(x) or abs(x) >= 2.0 ** 52:
                return x
            if name == 'floor':
                r = float(math.floor(x))
            elif name == 'ceil':
                r = float(math.ceil(x))
            elif name == 'trunc':
                r = float(math.trunc(x))
            elif name == 'round':
                f = math.floor(abs(x))
                r = float(f + 1 if abs(x) - f >= 0.5 else f)
                r = math.copysign(r, x)
            else:
                r = float(round(x))
            return math.copysign(r, x) if r == 0 else r
        if name == 'fabs':
            return abs(a[0])
        if name == 'copysign':
            return math.copysign(a[0], a[1])
        if name in ('fmax', 'maxnum'):
            return a[1] if a[0] != a[0] else (a[0] if a[1] != a[1] else max(a[0], a[1]))
        if name in ('fmin', 'minnum'):
            return a[1] if a[0] != a[0] else (a[0] if a[1] != a[1] else min(a[0], a[1]))
        if name == 'fma':
            return float(Fraction(a[0]) * Fraction(a[1]) + Fraction(a[2])) if all(map(math.isfinite, a)) else a[0] * a[1] + a[2]
        if name == 'ldexp':
            return math.ldexp(a[0], a[1])
    except OverflowError:
        if name in ('sinh', 'pow') and a[0] < 0:
            return -math.inf if name == 'sinh' or (len(a) > 1 and a[1] % 2 == 1) else math.inf
        return math.inf
    except ValueError:
        if name == 'pow' and a[0] == 0 and a[1] < 0:
            return math.inf
        return math.nan
    raise Unsupported('libm ' + name)


PI = Fraction('3.141592653589793')
LN = {}


def fr(x):
    return Fraction(repr(x))


def snap(c):
    """real value an abstract double constant stands for: its shortest decimal, or k*PI for a small rational k"""
    if c == 0:
        return Fraction(0)
    k = c / math.pi
    if abs(k) >= 0.02 and abs(k) <= 512:
        for q in (1, 2, 3, 4, 6, 8, 12, 16):
            p = round(k * q)
            if p and abs(k * q - p) <= 4e-16 * abs(k * q):
                return PI * p / q
    return fr(c)


RNE = z3.RNE()


class Dom:
    symbolic_bits = False

    def isc(self, x):
        return isinstance(x, float)


class RealDom(Dom):
    name = 'real'

    def __init__(self, ctx):
        self.ctx = ctx
        self.lifted = {}
        self.n = 0
        self.sq = {}
        self.bases = []      # (t, c, s)
        self.trig = {}
        self.expb = []
        self.exps = []       # (t, e, guard or None)
        self.expc = {}
        self.logc = {}
        self.def_exp = {}    # id of e -> t
        self.def_log = {}    # id of l -> x
        self.misc = {}
        self.keep = []
        self.rel = {}        # auxiliary variable -> term equal to its square
        self.alg = alg.Alg(self.rel)

    def sort(self, w):
        return z3.RealSort()

    def lift(self, c, w=64):
        if not isinstance(c, float):
            return c
        r = self.lifted.get(c)
        if r is None:
            if c != c or math.isinf(c):
                raise Unsupported('nan/inf mixed with a real term')
            r = self.lifted[c] = z3.RealVal(snap(c))
        return r

    def var(self, name, w):
        return z3.Real(name)

    def fresh(self, p):
        self.n += 1
        return z3.Real('%s!%d' % (p, self.n))

    def axiom(self, v, *cs):
        self.ctx.axioms.setdefault(v.get_id(), []).extend(cs)
        self.keep.append(v)
        byid[v.get_id()] = v

    def square(self, v, t):
        self.rel[v.get_id()] = t
        self.alg.order[v.get_id()] = len(self.alg.order)

    # arithmetic; ex = executor for forking
    def bin(self, op, a, b, w, ex):
        ca, cb = isinstance(a, float), isinstance(b, float)
        if ca and cb:
            if op == 'fadd':
                r = a + b
            elif op == 'fsub':
                r = a - b
            elif op == 'fmul':
                r = a * b
            elif op == 'fdiv':
                r = cdiv(a, b)
            else:
                r = cfn('fmod', [a, b])
            return rnd(r, w)
        # exceptional constants
        if ca and not math.isfinite(a) or cb and not math.isfinite(b):
            return self.exc(op, a, b, ex)
        if op == 'fadd':
            if ca and a == 0:
                return b
            if cb and b == 0:
                return a
            return self.lift(a) + self.lift(b)
        if op == 'fsub':
            if cb and b == 0:
                return a
            if not ca and not cb and a.eq(b):
                return 0.0
            if ca and a == 0:
                return -b
            return self.lift(a) - self.lift(b)
        if op == 'fmul':
            if ca and a == 0 or cb and b == 0:
                return 0.0
            if ca and a == 1:
                return b
            if cb and b == 1:
                return a
            return self.lift(a) * self.lift(b)
        if op == 'fdiv':
            if cb:
                if b == 0:
                    return self.div0(a, b, ex)
                if b == 1:
                    return a
                return a * z3.RealVal(1 / snap(b))
            if ca and a == 0:
                if not self.alg.sign(b, self.ctx.bounds) and ex.branch(b == 0):
                    return math.nan
                return 0.0
            if not self.alg.sign(b, self.ctx.bounds) and ex.branch(b == 0):
                return self.div0(a, 0.0, ex)
            if not ca and a.eq(b):
                return 1.0
            if not ca and len(vars_of(b)) == 1 and vars_of(a) == vars_of(b):
                q = self.ratio(a, b)
                if q is not None:
                    return float(q)
                try:
                    q = alg.pconst(self.alg.mul(self.alg.rat(a), self.alg.inv(self.alg.rat(b))).num)
                    if q is not None and self.alg.rat(a).den == {} and self.alg.rat(b).den == {}:
                        p, r = self.alg.rat(a).num, self.alg.rat(b).num
                        if set(p) == set(r) and len({p[m] / r[m] for m in p}) == 1:
                            return float(p[min(p)] / r[min(p)])
                except alg.TooBig:
                    pass
            return self.lift(a) / b
        if op == 'frem':
            return self.fn('fmod', [a, b], w, ex)
        raise Unsupported(op)

    def div0(self, a, z, ex):
        s = math.copysign(1.0, z)
        if isinstance(a, float):
            return cdiv(a, z)
        if ex.branch(a == 0):
            return math.nan
        if ex.branch(a > 0):
            return s * math.inf
        return -s * math.inf

    def exc(self, op, a, b, ex):
        for x in (a, b):
            if isinstance(x, float) and x != x:
                return math.nan
        if op == 'fadd':
            return a if isinstance(a, float) else b
        if op == 'fsub':
            return a if isinstance(a, float) else -b
        if op in ('fmul', 'fdiv'):
            if op == 'fdiv' and isinstance(b, float):
                return 0.0
            s, i = (b, a) if isinstance(a, float) else (a, b)
            if ex.branch(s == 0):
                return math.nan if op == 'fmul' else i
            return i if ex.branch(s > 0) else -i
        raise Unsupported(op + ' with nan/inf')

    def neg(self, a, w):
        return -a

    def cmp(self, cc, a, b, ex):
        if isinstance(a, float) and isinstance(b, float):
            return ccmp(cc, a, b)
        if cc in ('ord', 'uno'):
            nan = any(isinstance(x, float) and x != x for x in (a, b))
            return int(nan == (cc == 'uno'))
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, float) and not math.isfinite(x):
                # finite real vs nan/inf
                return ccmp(cc, x, 0.0) if not sw else ccmp(cc, 0.0, x)
        # exact reals have no subnormal numbers: below the smallest normal number means not above zero
        if isinstance(b, float) and b in MINIMA and cc[1:] in ('lt', 'le', 'gt', 'ge'):
            b, cc = 0.0, 'o' + ('le' if cc[1] == 'l' else 'gt')
        elif isinstance(a, float) and a in MINIMA and cc[1:] in ('lt', 'le', 'gt', 'ge'):
            a, cc = 0.0, 'o' + ('ge' if cc[1] == 'g' else 'lt')
        a, b = self.lift(a), self.lift(b)
        k = cc[1:]
        if a.eq(b):
            return int(k in ('eq', 'le', 'ge'))
        if k in ('lt', 'le', 'gt', 'ge'):
            x, y = self.interval(a), self.interval(b)
            if x and y:
                if k[0] == 'g':
                    x, y = y, x
                if x[1] < y[0]:
                    return 1
                if y[1] < x[0]:
                    return 0
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
                'gt': lambda: a > b, 'ge': lambda: a >= b}[k]()

    def ite(self, c, a, b, w, ex):
        if isinstance(a, float) and isinstance(b, float) and (a == b or a != a and b != b):
            return a
        for x in (a, b):
            if isinstance(x, float) and not math.isfinite(x):
                return a if ex.branch(c) else b
        a, b = self.lift(a), self.lift(b)
        if a.eq(b):
            return a
        return z3.If(c, a, b)

    def from_int(self, v, signed, bits, w, ex):
        v = ex.concretize(v, bits)
        if signed and v >> (bits - 1):
            v -= 1 << bits
        return rnd(float(v), w)

    def to_int(self, v, signed, bits, ex):
        if isinstance(v, float):
            if not math.isfinite(v):
                return (1 << (bits - 1)) & ((1 << bits) - 1)
            return int(v) & ((1 << bits) - 1)
        n = 0
        while True:
            x = ex.model_value(v)
            if x is None:
                raise Unsupported('float to int of an undecided value')
            k = math.trunc(x)
            if k == 0:
                c = z3.And(v > -1, v < 1)
            elif k > 0:
                c = z3.And(v >= k, v < k + 1)
            else:
                c = z3.And(v <= k, v > k - 1)
            if ex.branch(c):
                return k & ((1 << bits) - 1)

    def conv(self, v, w1, w2):
        if isinstance(v, float):
            return rnd(v, w2)
        return v

    def sgn_bit(self, v):
        if isinstance(v, float):
            return int(math.copysign(1, v) < 0)
        return v < 0

    def isclass(self, v, mask, ex):
        if isinstance(v, float):
            return cclass(v, mask)
        # finite real; there are no subnormal numbers among them
        neg = mask & 0x8
        pos = mask & 0x100
        zero = mask & (0x20 | 0x40)
        cs = []
        if neg:
            cs.append(v < 0)
        if pos:
            cs.append(v > 0)
        if zero:
            cs.append(v == 0)
        if neg and pos and zero:
            return 1
        if not cs:
            return 0
        return z3.simplify(z3.Or(*cs))

    # ---- functions
    def simp(self, t):
        return z3.simplify(t, som=True)

    def fn(self, name, a, w, ex):
        if all(isinstance(x, (float, int)) for x in a):
            r = rnd(cfn(name, a), w)
            if name in ('sin', 'cos', 'tan') and abs(r) < 4e-16 * max(1, abs(a[0])) and abs(a[0]) > 1:
                return 0.0      # an exact zero of the function, blurred by the rounding of the argument
            return r
        m = getattr(self, 'f_' + name, None)
        if m is None:
            raise Unsupported('symbolic ' + name)
        for x in a:
            if isinstance(x, float) and x != x:
                return math.nan
        return m(*(list(a) + [ex]))

    def f_fabs(self, x, ex):
        # a fork would be exact as well; an ite keeps the path count down
        g = self.alg.sign(x, self.ctx.bounds)
        if g:
            return x if g > 0 else -x
        return z3.If(x >= 0, x, -x)

    def f_fma(self, a, b, c, ex):
        return self.bin('fadd', self.bin('fmul', a, b, 64, ex), c, 64, ex)

    def f_copysign(self, a, b, ex):
        m = abs(a) if isinstance(a, float) else self.f_fabs(a, ex)
        if isinstance(b, float):
            return m if math.copysign(1, b) > 0 else -m
        return self.ite(b >= 0, m, -m, 64, ex)

    def _mm(self, a, b, ex, gt):
        if isinstance(a, float) and not math.isfinite(a):
            return (b if (a < 0) == gt else a)
        if isinstance(b, float) and not math.isfinite(b):
            return (a if (b < 0) == gt else b)
        a, b = self.lift(a), self.lift(b)
        return z3.If(a > b if gt else a < b, a, b)

    def f_fmax(self, a, b, ex):
        return self._mm(a, b, ex, True)

    f_maxnum = f_fmax

    def f_fmin(self, a, b, ex):
        return self._mm(a, b, ex, False)

    f_minnum = f_fmin

    def floor_const(self, x):
        """the floor of x where its bounds leave one value"""
        x = self.simp(x)
        iv = self.interval(x)
        if iv is not None and math.floor(iv[0]) == math.floor(iv[1]):
            return x, float(math.floor(iv[0]))
        return x, None

    def f_floor(self, x, ex):
        x, k = self.floor_const(x)
        return k if k is not None else z3.ToReal(z3.ToInt(x))

    def f_ceil(self, x, ex):
        x, k = self.floor_const(-x)
        return -k if k is not None else -z3.ToReal(z3.ToInt(x))

    def f_trunc(self, x, ex):
        x, k = self.floor_const(x)
        if k is not None and k >= 0:
            return k
        return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))

    def f_round(self, x, ex):
        h = z3.RealVal('1/2')
        return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + h)), -z3.ToReal(z3.ToInt(h - x)))

    def f_fmod(self, x, y, ex):
        x, y = self.lift(x), self.lift(y)
        if ex.branch(y == 0):
            return math.nan
        if z3.is_rational_value(y):
            q = x / y
            return x - y * self.f_trunc(q, ex)
        # enumerate the truncated quotient (avoids mixed integer/non-linear terms)
        v = ex.model_value(x / y)
        n = 0
        q = x / y
        while True:
            v = ex.model_value(q)
            if v is None:
                raise Unsupported('fmod')
            k = math.trunc(v)
            c = z3.And(q > k - 1 if k <= 0 else q >= k, q < k + 1 if k >= 0 else q <= k)
            if ex.branch(c):
                return self.simp(x - y * k)

    def f_sqrt(self, x, ex):
        x = self.simp(x)
        if z3.is_rational_value(x):
            return rnd(cfn('sqrt', [float(Fraction(x.numerator_as_long(), x.denominator_as_long()))]), 64)
        r = self.sq.get(x.get_id())
        if r is None:
            # perfect square of a variable/term: sqrt(t*t) = |t|
            s = self.fresh('sqrt')
            self.axiom(s, z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
            self.square(s, x)
            self.sq[x.get_id()] = r = s
            self.keep.append(x)
        if ex.branch(x < 0):
            return math.nan
        return r

    def f_cbrt(self, x, ex):
        x = self.simp(x)
        k = ('cbrt', x.get_id())
        r = self.misc.get(k)
        if r is None:
            r = self.fresh('cbrt')
            self.axiom(r, r * r * r == x)
            self.misc[k] = r
            self.keep.append(x)
        return r

    def f_hypot(self, a, b, ex):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, float) and x == 0:
                return abs(y) if isinstance(y, float) else self.f_fabs(y, ex)
        a, b = self.lift(a), self.lift(b)
        return self.f_sqrt(a * a + b * b, ex)

    # trig -----------------------------------------------------------
    def split_const(self, t):
        t = self.simp(t)
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long()), None
        if z3.is_add(t):
            off = Fraction(0)
            rest = []
            for c in t.children():
                if z3.is_rational_value(c):
                    off += Fraction(c.numerator_as_long(), c.denominator_as_long())
                else:
                    rest.append(c)
            if off:
                return off, (rest[0] if len(rest) == 1 else z3.Sum(rest))
        return Fraction(0), t

    def ratio(self, t, u):
        """rational r with t == r*u, or None"""
        d = None
        vs = list(vars_of(t) | vars_of(u))
        sub = [(byid[v], z3.RealVal(Fraction(3 + 7 * i, 5 + 2 * i))) for i, v in enumerate(sorted(vs))]
        a = z3.simplify(z3.substitute(t, *sub))
        b = z3.simplify(z3.substitute(u, *sub))
        if not (z3.is_rational_value(a) and z3.is_rational_value(b)):
            return None
        fa = Fraction(a.numerator_as_long(), a.denominator_as_long())
        fb = Fraction(b.numerator_as_long(), b.denominator_as_long())
        if fb == 0:
            return None
        r = fa / fb
        rr = r.limit_denominator(64)
        if abs(rr - r) > abs(r) * Fraction(1, 10 ** 13):
            return None
        d = self.simp(t - z3.RealVal(rr) * u)
        if z3.is_rational_value(d) and d.numerator_as_long() == 0:
            return rr
        # tolerate rounding of constants: coefficients tiny
        if self.tiny(d, t):
            return rr
        return None

    def tiny(self, d, t):
        """every coefficient of d is < 1e-13 of the magnitude of the coefficients of t (same monomials)"""
        def coefs(x):
            out = {}
            for c in (x.children() if z3.is_add(x) else [x]):
                k = Fraction(1)
                m = c
                if z3.is_mul(c) and z3.is_rational_value(c.arg(0)):
                    k = Fraction(c.arg(0).numerator_as_long(), c.arg(0).denominator_as_long())
                    m = z3.simplify(z3.Product([y for y in c.children()[1:]])) if c.num_args() > 2 else c.arg(1)
                out[m.get_id()] = out.get(m.get_id(), 0) + k
                self.keep.append(m)
            return out
        if vars_of(d) - vars_of(t):
            return False
        cd, ct = coefs(d), coefs(self.simp(t))
        for m, k in cd.items():
            if m not in ct or abs(k) > abs(ct[m]) * Fraction(1, 10 ** 13):
                return False
        return True

    def cs(self, t, ex):
        """(cos t, sin t) for a real term t without constant offset"""
        t = self.simp(t)
        k = self.trig.get(t.get_id())
        if k is not None:
            return k
        self.keep.append(t)
        k = self.atan_cs(t)
        if k is not None:
            self.trig[t.get_id()] = k
            return k
        for (u, c, s) in self.bases:
            r = self.ratio(t, u)
            if r is not None and r.denominator == 1 and abs(r.numerator) <= 32:
                n = abs(r.numerator)
                cc, ss = self.cheb(c, s, n)
                if r < 0:
                    ss = -ss
                self.trig[t.get_id()] = (cc, ss)
                return cc, ss
        c = self.fresh('cos')
        s = self.fresh('sin')
        P = z3.RealVal(PI)
        H = z3.RealVal(PI / 2)
        ax = [c * c + s * s == 1, c <= 1, c >= -1, s <= 1, s >= -1,
              z3.Implies(z3.And(t > 0, t < P), s > 0), z3.Implies(z3.And(t < 0, t > -P), s < 0),
              z3.Implies(z3.And(t > -H, t < H), c > 0), z3.Implies(z3.And(t > H, t < 3 * H), c < 0),
              z3.Implies(t == 0, z3.And(c == 1, s == 0)),
              z3.Implies(z3.And(t > 0, t < 2 * P), c < 1)]
        for (u, cu, su) in self.bases:
            r = self.ratio(u, t)
            if r is not None and r.denominator == 1 and abs(r.numerator) <= 8:
                cc, ss = self.cheb(c, s, abs(r.numerator))
                if r < 0:
                    ss = -ss
                l = [cu == cc, su == ss]
                ax += l
            elif vars_of(u) & vars_of(t):
                ax.append(z3.Implies(u == t, z3.And(cu == c, su == s)))
                ax.append(z3.Implies(u == -t, z3.And(cu == c, su == -s)))
                ax.append(z3.Implies(z3.And(u > 0, u < t, t < P), cu > c))
                ax.append(z3.Implies(z3.And(t > 0, t < u, u < P), cu < c))
        self.axiom(c, *ax)
        self.axiom(s, *ax)
        self.square(s, 1 - c * c)
        ONE = (Fraction(-1), Fraction(1))
        self.ctx.bounds[c.get_id()] = self.ctx.bounds[s.get_id()] = ONE
        iv = self.interval(t)
        if iv is not None:
            for v, f, ext in ((c, math.cos, 0), (s, math.sin, Fraction(1, 2))):
                # extrema of cos at multiples of PI (of sin: shifted by PI/2); monotone in between
                if math.floor(iv[0] / PI - ext) == math.floor(iv[1] / PI - ext):
                    a, b = sorted((Fraction(f(float(iv[0]))), Fraction(f(float(iv[1])))))
                    k = Fraction(1, 10 ** 11)
                    a, b = max(a - k, Fraction(-1)), min(b + k, Fraction(1))
                    self.ctx.bounds[v.get_id()] = (a, b)
                    self.axiom(v, v >= z3.RealVal(a), v <= z3.RealVal(b))
        for (t2, r2) in self.misc.get('tans', []):
            if t2.eq(t):
                self.axiom(c, r2 * c == s)
                self.axiom(s, r2 * c == s)
        self.bases.append((t, c, s))
        self.trig[t.get_id()] = (c, s)
        return c, s

    def atan_cs(self, t):
        """(cos, sin) of an even multiple of an arc tangent"""
        for (x, r) in self.misc.get('atans', []):
            q = self.ratio(t, r) if r.get_id() in vars_of(t) else None
            if q is not None and q.denominator == 1 and q.numerator % 2 == 0 and 0 < abs(q.numerator) <= 8:
                x2 = x * x
                c, s = self.cheb((1 - x2) / (1 + x2), 2 * x / (1 + x2), abs(q.numerator) // 2)
                return c, (s if q > 0 else -s)
        return None

    def cheb(self, c, s, n):
        if n == 0:
            return 1.0, 0.0
        pc, ps = c, s
        for _ in range(n - 1):
            pc, ps = pc * c - ps * s, ps * c + pc * s
        return pc, ps

    def trigcs(self, x, ex):
        off, t = self.split_const(x)
        if t is None:
            return math.cos(float(off)), math.sin(float(off))
        c, s = self.cs(t, ex)
        if off == 0:
            return c, s
        q = off / (PI / 2)
        n = round(q)
        if abs(q - n) < Fraction(1, 10 ** 13):
            n %= 4
            return [(c, s), (-s, c), (-c, -s), (s, -c)][n]
        co, so = math.cos(float(off)), math.sin(float(off))
        co, so = self.lift(co), self.lift(so)
        return c * co - s * so, s * co + c * so

    def f_cos(self, x, ex):
        return self.trigcs(x, ex)[0]

    def f_sin(self, x, ex):
        return self.trigcs(x, ex)[1]

    def f_tan(self, x, ex):
        off, t = self.split_const(x)
        if t is not None and off == 0 and t.get_id() not in self.trig and \
                all(self.ratio(t, u) is None for (u, c, s) in self.bases if vars_of(u) & vars_of(t)):
            # a variable of its own: everything rational in the tangent stays free of cos^2 + sin^2 = 1
            iv = self.interval(t)
            H = PI / 2
            if iv is not None and -H < iv[0] and iv[1] < H:
                r = self.misc.get(('tan', t.get_id()))
                if r is None:
                    r = self.fresh('tan')
                    self.misc[('tan', t.get_id())] = r
                    self.keep.append(t)
                    k = Fraction(1, 10 ** 11)
                    lo, hi = [Fraction(math.tan(float(v))) for v in iv]
                    lo, hi = lo - abs(lo) * k, hi + abs(hi) * k
                    ax = [r >= z3.RealVal(lo), r <= z3.RealVal(hi), z3.Implies(t > 0, r > t), z3.Implies(t < 0, r < t), z3.Implies(t == 0, r == 0)]
                    for (t2, r2) in self.misc.setdefault('tans', []):
                        if vars_of(t2) & vars_of(t):
                            ax += [z3.Implies(t2 == t, r2 == r), z3.Implies(t2 < t, r2 < r), z3.Implies(t2 > t, r2 > r)]
                    self.misc['tans'].append((t, r))
                    self.axiom(r, *ax)
                    self.ctx.bounds[r.get_id()] = (lo, hi)
                return r
        c, s = self.trigcs(x, ex)
        return self.bin('fdiv', s, c, 64, ex)

    def f_atan(self, x, ex):
        x = self.simp(x)
        k = ('atan', x.get_id())
        r = self.misc.get(k)
        if r is None:
            r = self.fresh('atan')
            self.misc[k] = r
            self.keep.append(x)
            H = z3.RealVal(PI / 2)
            ax = [r < H, r > -H, z3.Implies(x > 0, z3.And(r > 0, r < x)), z3.Implies(x < 0, z3.And(r < 0, r > x)), z3.Implies(x == 0, r == 0)]
            for (xx, rr) in self.misc.setdefault('atans', []):
                ax += [z3.Implies(xx == x, rr == r), z3.Implies(xx < x, rr < r), z3.Implies(xx > x, rr > r)]
            self.misc['atans'].append((x, r))
            self.axiom(r, *ax)
        return r

    def f_atan2(self, y, x, ex):
        x, y = self.simp(self.lift(x)), self.simp(self.lift(y))
        k = ('atan2', y.get_id(), x.get_id())
        r = self.misc.get(k)
        if r is None:
            r = self.fresh('atan2')
            self.misc[k] = r
            self.keep += [x, y]
            Z, H = z3.RealVal(PI), z3.RealVal(PI / 2)
            ax = [r <= Z, r >= -Z, z3.Implies(y > 0, z3.And(r > 0, r < Z)), z3.Implies(y < 0, z3.And(r < 0, r > -Z)),
                  z3.Implies(z3.And(y == 0, x >= 0), r == 0), z3.Implies(z3.And(y == 0, x < 0), r == Z),
                  z3.Implies(x > 0, z3.And(r > -H, r < H)), z3.Implies(z3.And(x < 0, y >= 0), r > H),
                  z3.Implies(z3.And(x < 0, y < 0), r < -H), z3.Implies(z3.And(x == 0, y > 0), r == H),
                  z3.Implies(z3.And(x == 0, y < 0), r == -H)]
            self.axiom(r, *ax)
        return r

    # exp / log --------------------------------------------------------
    def noite(self, t, ex):
        """resolve the if-then-else subterms of an argument by forking"""
        for _ in range(8):
            f = None
            seen = set()
            st = [t]
            while st and f is None:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if x.decl().kind() == z3.Z3_OP_ITE:
                    f = x
                st.extend(x.children())
            if f is None:
                return t
            r = f.arg(1) if ex.branch(f.arg(0)) else f.arg(2)
            self.keep.append(f)
            t = z3.simplify(z3.substitute(t, (f, r)))
        return t

    def exp_t(self, t, ex):
        """e^t"""
        if isinstance(t, float):
            return cfn('exp', [t])
        t = self.noite(t, ex)
        off, rest = self.split_const(t)
        if rest is None:
            return cfn('exp', [float(off)])
        if off:
            return self.bin('fmul', cfn('exp', [float(off)]), self.exp_t(rest, ex), 64, ex)
        # c * log-variable
        cf, m = self.coef(rest)
        if m is not None and m.get_id() in self.def_log:
            x = self.def_log[m.get_id()]
            n = round(cf)
            if n and abs(cf - n) < Fraction(1, 10 ** 11) and abs(n) <= 8:
                r = x
                for _ in range(abs(n) - 1):
                    r = r * x
                return r if n > 0 else 1 / r
            if abs(cf - Fraction(1, 2)) < Fraction(1, 10 ** 11):
                return self.f_sqrt(x, ex)
        k = self.expc.get(rest.get_id())
        if k is not None:
            return k
        k = self.explogs(rest)
        if k is not None:
            return k
        for (t2, e2) in self.expb:
            if not (vars_of(t2) & vars_of(rest)):
                continue
            r = self.ratio(rest, t2)
            if r is None:
                continue
            if r.denominator == 1 and 0 < abs(r.numerator) <= 8:
                p = e2
                for _ in range(abs(r.numerator) - 1):
                    p = p * e2
                p = p if r > 0 else 1 / p
                self.expc[rest.get_id()] = p
                self.keep.append(rest)
                return p
            if abs(r.numerator) == 1 and r.denominator <= 4:
                e = self.fresh('exp')
                p = e
                for _ in range(r.denominator - 1):
                    p = p * e
                self.axiom(e, p == e2 if r > 0 else p * e2 == 1)
                if r == Fraction(1, 2):
                    self.square(e, e2)
                self.newexp(rest, e)
                return e
        e = self.fresh('exp')
        self.newexp(rest, e)
        return e

    def explogs(self, rest):
        """e^(sum of c_i ln x_i) with small rational c_i: the root of the product of the powers of the x_i"""
        flat = z3.simplify(rest, som=True)
        ps, q = [], 1
        for c in (flat.children() if z3.is_add(flat) else [flat]):
            cf, m = self.coef(c)
            x = self.def_log.get(m.get_id())
            r = cf.limit_denominator(6)
            if x is None or abs(cf - r) > Fraction(1, 10 ** 11) or not 0 < abs(r) <= 4:
                return None
            ps.append((x, r))
            q = q * r.denominator // math.gcd(q, r.denominator)
        if len(ps) < 2 or q > 6 or sum(abs(r) * q for _, r in ps) > 12:
            return None
        e = self.fresh('exp')
        lhs, rhs = z3.RealVal(1), z3.RealVal(1)
        for _ in range(q):
            lhs = lhs * e
        for x, r in ps:
            for _ in range(int(abs(r) * q)):
                if r > 0:
                    rhs = rhs * x
                else:
                    lhs = lhs * x
        self.axiom(e, z3.simplify(lhs) == z3.simplify(rhs))
        if q == 2 and all(r > 0 for _, r in ps):
            self.square(e, rhs)
        self.newexp(rest, e)
        return e

    def newexp(self, rest, e):
        self.expb.append((rest, e))
        self.add_point(rest, e, None, e)
        iv = self.interval(rest)
        if iv is not None and abs(iv[0]) < 600 and abs(iv[1]) < 600:
            k = Fraction(1, 10 ** 11)
            lo, hi = Fraction(math.exp(float(iv[0]))) * (1 - k), Fraction(math.exp(float(iv[1]))) * (1 + k)
            self.axiom(e, e >= z3.RealVal(lo), e <= z3.RealVal(hi))
            self.ctx.bounds[e.get_id()] = (lo, hi)
        self.expc[rest.get_id()] = e
        self.def_exp[e.get_id()] = rest
        self.keep.append(rest)

    def interval(self, t):
        """interval of a linear term over bounded variables, or None"""
        lo = hi = Fraction(0)
        for c in (t.children() if z3.is_add(t) else [t]):
            if z3.is_rational_value(c):
                v = Fraction(c.numerator_as_long(), c.denominator_as_long())
                lo, hi = lo + v, hi + v
                continue
            k, m = self.coef(c)
            b = self.ctx.bounds.get(m.get_id())
            if b is None:
                return None
            x, y = k * b[0], k * b[1]
            lo, hi = lo + min(x, y), hi + max(x, y)
        return lo, hi

    def coef(self, t):
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            k, m = self.coef(t.arg(0))
            return -k, m
        if z3.is_mul(t) and z3.is_rational_value(t.arg(0)):
            k = Fraction(t.arg(0).numerator_as_long(), t.arg(0).denominator_as_long())
            rest = t.children()[1:]
            return k, (rest[0] if len(rest) == 1 else z3.Product(rest))
        return Fraction(1), t

    def add_point(self, t, e, guard, owner):
        ax = [e > 0, e >= 1 + t, z3.Implies(t > 0, e > 1), z3.Implies(t < 0, e < 1), z3.Implies(t == 0, e == 1)]
        for (t2, e2, g2) in self.exps:
            p = [z3.Implies(t < t2, e < e2), z3.Implies(t > t2, e > e2), z3.Implies(t == t2, e == e2)]
            if g2 is not None:
                p = [z3.Implies(g2, x) for x in p]
            ax += p
        if guard is not None:
            ax = [z3.Implies(guard, x) for x in ax]
        self.axiom(owner, *ax)
        self.exps.append((t, e, guard))

    def ln_t(self, x, ex):
        """ln x for a real term with x > 0 established"""
        x = self.simp(x)
        if z3.is_rational_value(x):
            return cfn('log', [float(Fraction(x.numerator_as_long(), x.denominator_as_long()))])
        cf, m = self.coef(x)
        if m.get_id() in self.def_exp and cf > 0:
            t = self.def_exp[m.get_id()]
            if cf == 1:
                return t
            return t + self.lift(math.log(float(cf)))
        k = self.logc.get(x.get_id())
        if k is not None:
            return k
        if z3.is_mul(m) and cf > 0:
            ts = [self.def_exp.get(c.get_id()) for c in m.children()]
            if all(t is not None for t in ts):
                r = z3.simplify(z3.Sum(ts), som=True) + self.lift(math.log(float(cf)))
                self.logc[x.get_id()] = r
                self.keep += [x, r]
                return r
        if cf > 0 and cf != 1:
            r = self.ln_t(m, ex) + self.lift(math.log(float(cf)))
            self.logc[x.get_id()] = r
            self.keep.append(x)
            return r
        if z3.is_add(x):
            ks = [c for c in x.children() if not z3.is_rational_value(c)]
            cs = [Fraction(c.numerator_as_long(), c.denominator_as_long()) for c in x.children() if z3.is_rational_value(c)]
            c0 = abs(cs[0]) if cs else abs(self.coef(min(ks, key=lambda c: self.coef(c)[1].get_id()))[0])
            if c0 != 1:
                r = self.ln_t(self.simp(x / self.lift(c0)), ex) + self.lift(math.log(float(c0)))
                self.logc[x.get_id()] = r
                self.keep += [x, r]
                return r
        l = self.fresh('log')
        self.add_point(l, x, x > 0, l)
        iv = self.interval(x)
        if iv is not None and iv[0] > 0:
            lo, hi = fr(math.log(float(iv[0])) - 1e-9), fr(math.log(float(iv[1])) + 1e-9)
            self.axiom(l, l >= lo, l <= hi)
            self.ctx.bounds[l.get_id()] = (lo, hi)
        self.logc[x.get_id()] = l
        self.def_log[l.get_id()] = x
        self.keep.append(x)
        return l

    def lnpos(self, x, ex, k=1.0):
        x = self.noite(x, ex)
        if ex.branch(x < 0):
            return math.nan
        if ex.branch(x == 0):
            return -math.inf
        return self.ln_t(x, ex)

    def f_exp(self, x, ex):
        if isinstance(x, float):
            return cfn('exp', [x])
        return self.exp_t(x, ex)

    def lnc(self, b):
        return z3.RealVal(fr(math.log(b)))

    def f_exp2(self, x, ex):
        return self.exp_t(x * self.lnc(2.0), ex)

    def f_exp10(self, x, ex):
        return self.exp_t(x * self.lnc(10.0), ex)

    def f_expm1(self, x, ex):
        return self.bin('fsub', self.exp_t(x, ex), 1.0, 64, ex)

    def f_log(self, x, ex):
        return self.lnpos(x, ex)

    def _logb(self, x, b, ex):
        r = self.lnpos(x, ex)
        if isinstance(r, float):
            return r / math.log(b)
        return r / self.lnc(b)

    def f_log2(self, x, ex):
        return self._logb(x, 2.0, ex)

    def f_log10(self, x, ex):
        return self._logb(x, 10.0, ex)

    def f_log1p(self, x, ex):
        return self.lnpos(x + 1, ex)

    def f_pow(self, x, y, ex):
        if isinstance(y, float):
            if y == int(y) and abs(y) <= 16:
                n = int(abs(y))
                if n == 0:
                    return 1.0
                r = x
                for _ in range(n - 1):
                    r = r * x
                return r if y > 0 else self.bin('fdiv', 1.0, r, 64, ex)
            if y == 0.5:
                return self.f_sqrt(x, ex)
            if ex.branch(x < 0):
                return math.nan
            if ex.branch(x == 0):
                return 0.0 if y > 0 else math.inf
            return self.exp_t(self.lift(y) * self.lift(self.ln_t(x, ex)), ex)
        if isinstance(x, float):
            if x > 0:
                if x == 1:
                    return 1.0
                return self.exp_t(y * self.lnc(x), ex)
            raise Unsupported('pow of a non-positive constant')
        if ex.branch(x > 0):
            return self.exp_t(y * self.lift(self.ln_t(x, ex)), ex)
        if ex.branch(x == 0):
            if ex.branch(y > 0):
                return 0.0
            return 1.0 if ex.branch(y == 0) else math.inf
        # negative base: integer exponents only
        v = self.to_int(y, True, 64, ex)
        if v >> 63:
            v -= 1 << 64
        if ex.branch(y == v):
            return self.f_pow(x, float(v), ex)
        return math.nan

    def f_sinh(self, x, ex):
        e = self.exp_t(x, ex)
        i = self.exp_inv(e)
        return (e - i) / 2

    def f_cosh(self, x, ex):
        e = self.exp_t(x, ex)
        return (e + self.exp_inv(e)) / 2

    def exp_inv(self, e):
        return 1 / self.lift(e)

    def f_tanh(self, x, ex):
        e = self.exp_t(2 * x, ex)
        return (e - 1) / (e + 1)

    def f_asinh(self, x, ex):
        s = self.f_sqrt(x * x + 1, ex)
        k = self.simp(x)
        key = ('asinh', k.get_id())
        r = self.misc.get(key)
        if r is None:
            # x = sinh(t) recognised: x = (e - 1/e)/2 is handled by the caller's algebra; generic: ln(x+sqrt(x^2+1))
            r = self.ln_t(x + s, ex)
            self.misc[key] = r
            self.keep.append(k)
        return r


def ccmp(cc, a, b):
    if cc == 'true':
        return 1
    if cc == 'false':
        return 0
    un = a != a or b != b
    if cc == 'ord':
        return int(not un)
    if cc == 'uno':
        return int(un)
    if un:
        return int(cc[0] == 'u')
    k = cc[1:]
    return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k])


def cclass(v, mask):
    if v != v:
        c = 0x2
    elif math.isinf(v):
        c = 0x200 if v > 0 else 0x4
    elif v == 0:
        c = 0x20 if math.copysign(1, v) < 0 else 0x40
    else:
        sub = abs(v) < 2.2250738585072014e-308
        if v < 0:
            c = 0x10 if sub else 0x8
        else:
            c = 0x80 if sub else 0x100
    return int(bool(mask & (c | (0x1 if v != v else 0))))


class FPDom(Dom):
    name = 'fp'
    symbolic_bits = True
    S = {64: z3.Float64(), 32: z3.Float32()}

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def sort(self, w):
        return self.S[w]

    def lift(self, c, w=64):
        if not isinstance(c, float):
            return c
        return z3.FPVal(c, self.S[w])

    def var(self, name, w):
        return z3.FP(name, self.S[w])

    def wof(self, *xs):
        for x in xs:
            if not isinstance(x, float):
                return 32 if x.sort().sbits() == 24 else 64
        return 64

    def bin(self, op, a, b, w, ex):
        if isinstance(a, float) and isinstance(b, float):
            if op == 'fdiv':
                r = cdiv(a, b)
            elif op == 'frem':
                r = cfn('fmod', [a, b])
            else:
                r = a + b if op == 'fadd' else a - b if op == 'fsub' else a * b
            return rnd(r, w)
        if op == 'fmul' or op == 'fdiv':      # exact; NaN payloads are not distinguished
            for u, v in ((b, a), (a, b)) if op == 'fmul' else ((b, a),):
                if isinstance(u, float) and abs(u) == 1:
                    return v if u == 1 else z3.fpNeg(v)
        a, b = self.lift(a, w), self.lift(b, w)
        if op in ('fadd', 'fmul') and a.get_id() > b.get_id():   # commutative (NaN payloads are not distinguished)
            a, b = b, a
        if op == 'fadd':
            return z3.fpAdd(RNE, a, b)
        if op == 'fsub':
            return z3.fpSub(RNE, a, b)
        if op == 'fmul':
            return z3.fpMul(RNE, a, b)
        if op == 'fdiv':
            return z3.fpDiv(RNE, a, b)
        raise Unsupported('symbolic frem')

    def neg(self, a, w):
        return -a if isinstance(a, float) else z3.fpNeg(a)

    def cmp(self, cc, a, b, ex):
        if isinstance(a, float) and isinstance(b, float):
            return ccmp(cc, a, b)
        w = self.wof(a, b)
        a, b = self.lift(a, w), self.lift(b, w)
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if cc == 'ord':
            return z3.simplify(z3.Not(un))
        if cc == 'uno':
            return z3.simplify(un)
        k = cc[1:]
        c = {'eq': lambda: z3.fpEQ(a, b), 'ne': lambda: z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b))),
             'lt': lambda: z3.fpLT(a, b), 'le': lambda: z3.fpLEQ(a, b), 'gt': lambda: z3.fpGT(a, b),
             'ge': lambda: z3.fpGEQ(a, b)}[k]()
        return c if cc[0] == 'o' else z3.Or(un, c)

    def ite(self, c, a, b, w, ex):
        if isinstance(a, float) and isinstance(b, float) and struct.pack('<d', a) == struct.pack('<d', b):
            return a
        return z3.If(c, self.lift(a, w), self.lift(b, w))

    def from_int(self, v, signed, bits, w, ex):
        if isinstance(v, int):
            if signed and v >> (bits - 1):
                v -= 1 << bits
            return rnd(float(v), w)
        return z3.fpSignedToFP(RNE, v, self.S[w]) if signed else z3.fpUnsignedToFP(RNE, v, self.S[w])

    def to_int(self, v, signed, bits, ex):
        if isinstance(v, float):
            if not math.isfinite(v):
                return 1 << (bits - 1)
            return int(v) & ((1 << bits) - 1)
        return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(bits)) if signed else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(bits))

    def conv(self, v, w1, w2):
        if isinstance(v, float):
            return rnd(v, w2)
        return z3.fpFPToFP(RNE, v, self.S[w2])

    def sgn_bit(self, v):
        if isinstance(v, float):
            return int(math.copysign(1, v) < 0)
        return z3.fpIsNegative(v)

    def isclass(self, v, mask, ex):
        if isinstance(v, float):
            return cclass(v, mask)
        cs = []
        neg, pos = z3.fpIsNegative(v), z3.fpIsPositive(v)
        if mask & 3:
            cs.append(z3.fpIsNaN(v))
        for bit, c in ((0x4, z3.And(neg, z3.fpIsInf(v))), (0x200, z3.And(pos, z3.fpIsInf(v))),
                       (0x8, z3.And(neg, z3.fpIsNormal(v))), (0x100, z3.And(pos, z3.fpIsNormal(v))),
                       (0x10, z3.And(neg, z3.fpIsSubnormal(v))), (0x80, z3.And(pos, z3.fpIsSubnormal(v))),
                       (0x20, z3.And(neg, z3.fpIsZero(v))), (0x40, z3.And(pos, z3.fpIsZero(v)))):
            if mask & bit:
                cs.append(c)
        return z3.Or(*cs)

    def fn(self, name, a, w, ex):
        if all(isinstance(x, (float, int)) for x in a):
            return rnd(cfn(name, a), w)
        a = [self.lift(x, w) for x in a]
        if name == 'fabs':
            return z3.fpAbs(a[0])
        if name == 'sqrt':
            return z3.fpSqrt(RNE, a[0])
        if name in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'roundeven'):
            rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA()}.get(name, RNE)
            return z3.fpRoundToIntegral(rm, a[0])
        if name == 'copysign':
            m = z3.fpAbs(a[0])
            return z3.If(z3.fpIsNegative(a[1]), z3.fpNeg(m), m)
        if name in ('fmax', 'maxnum'):
            return z3.If(z3.fpIsNaN(a[0]), a[1], z3.If(z3.fpIsNaN(a[1]), a[0], z3.If(z3.fpGT(a[0], a[1]), a[0], a[1])))
        if name in ('fmin', 'minnum'):
            return z3.If(z3.fpIsNaN(a[0]), a[1], z3.If(z3.fpIsNaN(a[1]), a[0], z3.If(z3.fpLT(a[0], a[1]), a[0], a[1])))
        if name == 'fma':
            return z3.fpFMA(RNE, a[0], a[1], a[2])
        raise Unsupported('symbolic fp ' + name)
