"""Solver layer: slicing, feature classification, query accounting."""
import time, z3
from fractions import Fraction


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.max_time = 0.0

    def dict(self):
        return {'queries': self.queries, 'unsat': self.unsat, 'sat': self.sat, 'unknown': self.unknown,
                'solver_time_s': round(self.time, 3), 'slowest_query_s': round(self.max_time, 3)}


_keep = []
_vars = {}
_feat = {}

F_NL, F_FP, F_BV, F_INT, F_REAL, F_ARR = 1, 2, 4, 8, 16, 32


def vars_of(t):
    """frozenset of ids of uninterpreted constants in t (memoised; iterative)"""
    r = _vars.get(t.get_id())
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        i = x.get_id()
        if i in _vars:
            stack.pop()
            continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in _vars]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        f = 0
        if not ch:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                v = frozenset((i,))
                byid[i] = x
            else:
                v = frozenset()
        elif len(ch) == 1:
            v = _vars[ch[0].get_id()]
        else:
            v = frozenset().union(*[_vars[c.get_id()] for c in ch])
        for c in ch:
            f |= _feat[c.get_id()]
        k = x.sort_kind()
        if k == z3.Z3_FLOATING_POINT_SORT or k == z3.Z3_ROUNDING_MODE_SORT:
            f |= F_FP
        elif k == z3.Z3_BV_SORT:
            f |= F_BV
        elif k == z3.Z3_INT_SORT:
            f |= F_INT
        elif k == z3.Z3_REAL_SORT:
            f |= F_REAL
            dk = x.decl().kind()
            if dk == z3.Z3_OP_MUL:
                if sum(1 for c in ch if _vars[c.get_id()]) > 1:
                    f |= F_NL
            elif dk == z3.Z3_OP_DIV:
                if _vars[ch[1].get_id()]:
                    f |= F_NL
            elif dk == z3.Z3_OP_POWER:
                f |= F_NL
        _vars[i] = v
        _feat[i] = f
        _keep.append(x)
    return _vars[t.get_id()]


byid = {}


def feat(t):
    vars_of(t)
    return _feat[t.get_id()]


class Ctx:
    def __init__(self, timeout=10.0, deadline=None, seed=1):
        self.stats = Stats()
        self.timeout = timeout
        self.deadline = deadline
        self.axioms = {}  # var id -> list of constraints
        self.seed = seed
        self.bounds = {}   # var id -> (lo,hi) as Fractions

    def closure(self, cons):
        """add the definitional axioms of every auxiliary variable reachable from cons"""
        seen = set()
        out = list(cons)
        have = set(c.get_id() for c in out)
        work = list(cons)
        while work:
            c = work.pop()
            for v in vars_of(c):
                if v not in seen:
                    seen.add(v)
                    for a in self.axioms.get(v, ()):
                        if a.get_id() not in have:
                            have.add(a.get_id())
                            out.append(a)
                            work.append(a)
        return out

    def slice(self, pc, cond):
        """constraints of pc connected with cond (axioms included)"""
        want = set(vars_of(cond))
        pend = []
        for c in pc:
            pend.append((c, vars_of(c)))
        out = []
        # include aux axioms' variables
        changed = True
        done_ax = set()
        axout = []
        haveax = set()
        while changed:
            changed = False
            for v in list(want):
                if v in done_ax:
                    continue
                done_ax.add(v)
                for a in self.axioms.get(v, ()):
                    if a.get_id() in haveax:
                        continue
                    haveax.add(a.get_id())
                    axout.append(a)
                    vs = vars_of(a)
                    if not vs <= want:
                        want |= vs
                        changed = True
            rest = []
            for c, vs in pend:
                if vs & want:
                    out.append(c)
                    if not vs <= want:
                        want |= vs
                        changed = True
                else:
                    rest.append((c, vs))
            pend = rest
        return out + axout

    def mk(self, f, timeout):
        if f & F_FP:
            s = z3.SolverFor('QF_FPBV') if not (f & (F_REAL | F_INT)) else z3.Solver()
        elif f & F_NL and not (f & (F_BV | F_INT)):
            s = z3.SolverFor('QF_NRA')
        elif f & F_REAL and not (f & (F_BV | F_INT)):
            s = z3.SolverFor('QF_LRA')
        elif f & F_BV and not (f & (F_REAL | F_INT)):
            s = z3.SolverFor('QF_BV')
        else:
            s = z3.Solver()
        s.set('timeout', max(1, int(timeout * 1000)))
        return s

    def check(self, cons, timeout=None, want_model=False):
        """-> ('sat',model) | ('unsat',None) | ('unknown',None)"""
        t0 = time.time()
        to = timeout or self.timeout
        if self.deadline is not None:
            to = min(to, max(0.2, self.deadline - t0))
        f = 0
        for c in cons:
            f |= feat(c)
        if f & F_FP and not want_model:
            ab = abstract_fp(cons)
            if ab is not None:
                s = self.mk(f, to / 4)
                s.add(*ab)
                if s.check() == z3.unsat:
                    dt = time.time() - t0
                    st = self.stats
                    st.queries += 1
                    st.unsat += 1
                    st.time += dt
                    st.max_time = max(st.max_time, dt)
                    return 'unsat', None
                to = max(0.2, to - (time.time() - t0))
        if f & F_BV and not f & (F_FP | F_REAL | F_INT | F_ARR) and not want_model and to > 2:
            # bit-blasting first for a moment, then the same constraints over the integers
            s = self.mk(f, 1)
            s.add(*cons)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unknown:
                s = z3.SimpleSolver()
                s.set('timeout', int(min(3, to / 4) * 1000))
                s.add(*cons)
                try:
                    r = s.check()
                except z3.Z3Exception:
                    r = z3.unknown
            if r == z3.unknown:
                ab = abstract_bv(cons)
                s2 = z3.SolverFor('QF_LIA')
                s2.set('timeout', int(to / 3 * 1000))
                s2.add(*ab)
                try:
                    if s2.check() == z3.unsat:
                        r = z3.unsat
                except z3.Z3Exception:
                    pass
            if r != z3.unknown:
                m = None
                if r == z3.sat:
                    m = s.model()
                st = self.stats
                dt = time.time() - t0
                st.queries += 1
                st.time += dt
                st.max_time = max(st.max_time, dt)
                if r == z3.sat:
                    st.sat += 1
                    return 'sat', m
                st.unsat += 1
                return 'unsat', None
            to = max(0.2, to - (time.time() - t0))
        s = self.mk(f, to)
        s.add(*cons)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        m = None
        if r == z3.unknown and (f & F_NL):
            s2 = z3.Solver()
            s2.set('timeout', int(min(to, 5) * 1000))
            s2.add(*cons)
            try:
                r = s2.check()
                s = s2
            except z3.Z3Exception:
                r = z3.unknown
        if r == z3.sat:
            try:
                m = s.model()
            except z3.Z3Exception:
                m = None
        dt = time.time() - t0
        st = self.stats
        st.queries += 1
        st.time += dt
        st.max_time = max(st.max_time, dt)
        if r == z3.sat:
            st.sat += 1
            return 'sat', m
        if r == z3.unsat:
            st.unsat += 1
            return 'unsat', None
        st.unknown += 1
        return 'unknown', None


HEAVY = {z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_SQRT, z3.Z3_OP_FPA_REM, z3.Z3_OP_FPA_FMA, z3.Z3_OP_FPA_ADD,
         z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_ROUND_TO_INTEGRAL}
_abs = {}


def abstract_fp(cons):
    """the constraints with every floating-point computation replaced by an arbitrary value (the same computation by the
    same value); None when there is none.  Unsatisfiable here means unsatisfiable with the computations in place."""
    pairs, seen, stack = [], set(), list(cons)
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x) and x.decl().kind() in HEAVY:
            if i not in _abs:
                _keep.append(x)
                _abs[i] = z3.FreshConst(x.sort(), 'fp!')
            pairs.append((x, _abs[i]))
            continue
        stack.extend(x.children())
    if not pairs:
        return None
    return [z3.substitute(c, *pairs) for c in cons]


_bvint = {}


def abstract_bv(cons):
    """the constraints over signed integers instead of bit vectors: sums, differences, negations, sign extensions, choices
    and signed comparisons exactly, everything else as an arbitrary value of its width.  Unsatisfiable here means
    unsatisfiable over the bit vectors."""
    side, memo = [], {}

    def arb(t):
        i = t.get_id()
        if i not in _bvint:
            _keep.append(t)
            _bvint[i] = z3.FreshInt('bv!')
        w = t.size()
        v = _bvint[i]
        side.append(z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1))))
        return v

    def wrap(e, t):
        """e in [-2^w, 2^w): brought into the signed range of t"""
        m = 1 << t.size()
        h = m >> 1
        return z3.If(e >= h, e - m, z3.If(e < -h, e + m, e))

    def term(t):
        k = t.decl().kind()
        c = [get(x) for x in t.children()]
        if z3.is_bv_value(t):
            return z3.IntVal(t.as_signed_long())
        if k == z3.Z3_OP_ITE:
            return z3.If(c[0], c[1], c[2])
        if k == z3.Z3_OP_BADD and len(c) == 2:
            return wrap(c[0] + c[1], t)
        if k == z3.Z3_OP_BSUB and len(c) == 2:
            return wrap(c[0] - c[1], t)
        if k == z3.Z3_OP_BNEG:
            return wrap(-c[0], t)
        if k == z3.Z3_OP_BMUL and len(c) == 2 and z3.is_bv_value(t.arg(0)):
            f = t.arg(0).as_signed_long()
            if f == -1:
                return wrap(-c[1], t)
            v, q = arb(t), z3.FreshInt('bq!')
            side.append(v == f * c[1] - q * (1 << t.size()))
            return v
        if k == z3.Z3_OP_SIGN_EXT:
            return c[0]
        return arb(t)

    def atom(t):
        k = t.decl().kind()
        ch = t.children()
        if not ch:
            return t
        if z3.is_bv(ch[0]) and len(ch) == 2:
            a, b = get(ch[0]), get(ch[1])
            neg = lambda x: z3.If(x < 0, 1, 0)
            r = {z3.Z3_OP_EQ: lambda: a == b, z3.Z3_OP_DISTINCT: lambda: a != b, z3.Z3_OP_SLEQ: lambda: a <= b,
                 z3.Z3_OP_SLT: lambda: a < b, z3.Z3_OP_SGEQ: lambda: a >= b, z3.Z3_OP_SGT: lambda: a > b,
                 z3.Z3_OP_ULEQ: lambda: z3.If((a < 0) == (b < 0), a <= b, b < 0),
                 z3.Z3_OP_ULT: lambda: z3.If((a < 0) == (b < 0), a < b, b < 0),
                 z3.Z3_OP_UGEQ: lambda: z3.If((a < 0) == (b < 0), a >= b, a < 0),
                 z3.Z3_OP_UGT: lambda: z3.If((a < 0) == (b < 0), a > b, a < 0)}.get(k)
            return r() if r else z3.FreshBool('bv!')
        c = [get(x) for x in ch]
        if all(z3.is_bool(x) for x in ch):
            return t.decl()(*c)
        return z3.FreshBool('bv!')

    def get(t):
        stack = [t]
        while stack:
            x = stack[-1]
            if x.get_id() in memo:
                stack.pop()
                continue
            todo = [y for y in x.children() if y.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            if z3.is_bv(x):
                memo[x.get_id()] = term(x)
            elif z3.is_bool(x):
                memo[x.get_id()] = atom(x)
            else:
                memo[x.get_id()] = x
            _keep.append(x)
        return memo[t.get_id()]

    out = [get(c) for c in cons]
    return out + side


def frac_of(v):
    """z3 numeral -> Fraction (algebraic numbers approximated)"""
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None
