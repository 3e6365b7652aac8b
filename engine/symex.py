"""KLEE-style symbolic executor over LLVM IR.  One instance explores one harness function."""
import alg, bisect, math, os, struct, time, z3, sys
from fractions import Fraction
import ir
sys.set_int_max_str_digits(0)
from dom import RealDom, FPDom, Unsupported, cfn
from solver import Ctx, vars_of, byid, frac_of, feat, F_NL

sys.setrecursionlimit(20000)
M64 = (1 << 64) - 1


class PathEnd(Exception):
    """the current path ends (assumption false, infeasible, normal termination of an error path)"""


class Violation(Exception):
    def __init__(self, key, detail=''):
        self.key, self.detail = key, detail


class FBits:
    """the bit pattern of a symbolic real (opaque integer)"""
    __slots__ = ('v', 'w')

    def __init__(self, v, w):
        self.v, self.w = v, w


class FParts(FBits):
    """several cells of reals moved as one integer: the cells, in the order of their addresses"""
    __slots__ = ('parts',)

    def __init__(self, parts, w):
        FBits.__init__(self, None, w)
        self.parts = parts


class Obj:
    __slots__ = ('base', 'size', 'kind', 'cells', 'owner', 'alive', 'name', 'zero', 'const')

    def __init__(self, base, size, kind, owner, name='', zero=False, const=False):
        self.base, self.size, self.kind, self.owner, self.name = base, size, kind, owner, name
        self.cells = {}
        self.alive = True
        self.zero = zero
        self.const = const

    def copy(self, owner):
        o = Obj(self.base, self.size, self.kind, owner, self.name, self.zero, self.const)
        o.cells = dict(self.cells)
        o.alive = self.alive
        return o


class Frame:
    __slots__ = ('f', 'block', 'ins', 'idx', 'regs', 'allocas', 'dst', 'nrm', 'prev')

    def copy(self):
        n = Frame()
        n.f, n.block, n.ins, n.idx, n.dst, n.nrm, n.prev = self.f, self.block, self.ins, self.idx, self.dst, self.nrm, self.prev
        n.regs = dict(self.regs)
        n.allocas = list(self.allocas)
        return n


class State:
    cnt = 0

    def __init__(self):
        State.cnt += 1
        self.id = State.cnt
        self.frames = []
        self.mem = {}
        self.bases = []
        self.next_addr = 0x7000000000
        self.pc = []
        self.decided = {}
        self.assign = {}
        self.names = {}
        self.inputs = []
        self.steps = 0
        self.observed = []
        self.fresh = 0
        self.trace = []

    def copy(self):
        n = State.__new__(State)
        State.cnt += 1
        n.id = State.cnt
        # both copies must not write to shared objects
        State.cnt += 1
        self.id = State.cnt
        n.frames = [f.copy() for f in self.frames]
        n.mem = dict(self.mem)
        n.bases = list(self.bases)
        n.next_addr = self.next_addr
        n.pc = list(self.pc)
        n.decided = dict(self.decided)
        n.assign = dict(self.assign)
        n.names = dict(self.names)
        n.inputs = list(self.inputs)
        n.steps = self.steps
        n.observed = list(self.observed)
        n.fresh = self.fresh
        n.trace = list(self.trace)
        return n


def sext(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Exec:
    def __init__(self, mod, entry, mode='real', budget=60.0, qtimeout=10.0, max_steps=400000, max_paths=20000,
                 seed=1, concrete=None, max_viol=6):
        self.mod = mod
        self.entry = entry
        self.deadline = time.time() + budget
        self.ctx = Ctx(qtimeout, self.deadline, seed)
        self.dom = RealDom(self.ctx) if mode == 'real' else FPDom(self.ctx)
        self.mode = mode
        self.max_steps, self.max_paths, self.max_viol = max_steps, max_paths, max_viol
        self.concrete = concrete
        self.violations = []       # dict(key, detail, inputs)
        self.vkeys = {}
        self.undecided = []
        self.paths = 0
        self.steps = 0
        self.forks = 0
        self.asserts_trivial = 0
        self.asserts_solved = 0
        self.reached = {}
        self.funcs = set()
        self.samples = []
        self.st = None
        self.work = []
        self.witness = None
        self.assumes = []
        self.bounds = {}
        self.native = {}
        self.pathinputs = []

    # ------------------------------------------------------------ run
    def run(self):
        st = State()
        self.init_globals(st)
        f = self.mod.funcs['@' + self.entry]
        self.push(st, f, [], None, None)
        self.work = [st]
        while self.work:
            if time.time() > self.deadline:
                self.undecided.append('time budget exhausted with %d open paths' % len(self.work))
                break
            if self.paths >= self.max_paths:
                self.undecided.append('path limit reached with %d open paths' % len(self.work))
                break
            if sum(n for k, n in self.vkeys.items() if k.startswith('termination:')) >= 2:
                self.undecided.append('stopped at runs that do not end')
                break
            if len(self.violations) >= self.max_viol:
                self.undecided.append('stopped after %d violations' % len(self.violations))
                break
            st = self.work.pop()
            self.run_path(st)
        return self

    def run_path(self, st):
        self.st = st
        try:
            self.loop(st)
            self.paths += 1
            self.on_complete(st)
        except PathEnd:
            self.paths += 1
        except Violation as v:
            self.paths += 1
            self.report(v.key, v.detail, st, dict(st.assign))
        except Unsupported as u:
            self.paths += 1
            self.undecided.append('unsupported: %s in %s' % (u, st.frames[-1].f.name if st.frames else '?'))
        except z3.Z3Exception as e:
            import traceback
            if os.environ.get('VF_TB'): traceback.print_exc()
            self.paths += 1
            self.undecided.append('z3: %s in %s' % (str(e)[:120], st.frames[-1].f.name if st.frames else '?'))
        except RecursionError:
            if os.environ.get('VF_TB'):
                import traceback; tb = traceback.format_exc().split('\n'); print('\n'.join(tb[:14] + tb[-14:]), file=sys.stderr)
            self.undecided.append('recursion')

    def on_complete(self, st):
        self.reached['<end>'] = self.reached.get('<end>', 0) + 1
        if self.concrete is None:
            if self.witness is None and st.pc:
                # vacuity twin: "assert(false)" at the end of the harness must be violated
                r, m = self.ctx.check(self.ctx.closure(st.pc), timeout=20)
                self.witness = r
                if r == 'unsat':
                    self.undecided.append('vacuous: path condition unsatisfiable')
            elif self.witness is None:
                self.witness = 'sat'
            if len(self.pathinputs) < 200:
                self.pathinputs.append(self.values(st, dict(st.assign)))

    def init_globals(self, st):
        for g in self.mod.globals.values():
            o = Obj(g.addr, g.size, 'global', st.id, g.name, zero=True, const=g.const)
            st.mem[g.addr] = o
            st.bases.append(g.addr)
            if g.init is not None:
                self.store_const(o, 0, g.ty, g.init)
        # type descriptions that live in the run-time library: a table and a name
        a = self.mod.next_addr
        for g in list(self.mod.globals.values()):
            if g.init is None and g.name.lstrip('@').startswith('_ZTI') and g.size == 8:
                text = g.name.lstrip('@')[4:].encode() + b'\0'
                o = Obj(a, len(text), 'global', st.id, g.name + ' name', zero=True, const=True)
                for i, c in enumerate(text):
                    o.cells[i] = (1, c, 'i')
                st.mem[a] = o
                st.bases.append(a)
                t = st.mem[g.addr] = Obj(g.addr, 16, 'global', st.id, g.name, zero=True, const=True)
                t.cells[8] = (8, a, 'i')
                a += 4096
        st.bases.sort()
        st.next_addr = max(0x7000000000, self.mod.next_addr + (1 << 30))

    def store_const(self, o, off, ty, v):
        ty = self.mod.res(ty)
        k = ty[0]
        if k in ('i', 'p'):
            o.cells[off] = (self.mod.size(ty), v, 'i')
        elif k == 'f':
            o.cells[off] = (self.mod.size(ty), v, 'f')
        elif k in ('a', 'v'):
            s = self.mod.size(ty[2])
            if ty[2] == ('i', 8) or self.mod.res(ty[2])[0] in ('i', 'f', 'p'):
                kk = 'f' if self.mod.res(ty[2])[0] == 'f' else 'i'
                if all(x == 0 for x in v) and kk == 'i':
                    return  # zero-filled
                for i, x in enumerate(v):
                    o.cells[off + i * s] = (s, x, kk)
            else:
                for i, x in enumerate(v):
                    self.store_const(o, off + i * s, ty[2], x)
        elif k == 's':
            for i, x in enumerate(v):
                self.store_const(o, off + self.mod.offset(ty, i), ty[1][i], x)

    # ------------------------------------------------------------ solver glue
    def evalc(self, st, cond):
        """truth of cond under the state's assignment: True/False/None"""
        vs = vars_of(cond)
        sub = []
        for v in vs:
            a = st.assign.get(v)
            if a is None:
                return None
            if z3.is_algebraic_value(a) and not z3.is_rational_value(a):
                return None
            sub.append((byid[v], a))
        r = z3.simplify(z3.substitute(cond, *sub)) if sub else z3.simplify(cond)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return None

    def take_model(self, assign, m):
        for d in m.decls():
            if d.arity() == 0:
                c = d()
                vars_of(c)
                byid[c.get_id()] = c
                assign[c.get_id()] = m[d]

    def feasible(self, st, cond):
        """-> (bool, assignment) ; unknown counts as feasible with assignment None"""
        e = self.evalc(st, cond)
        if e is True:
            return True, st.assign
        cons = self.ctx.slice(st.pc, cond) + [cond]
        r, m = self.ctx.check(cons, timeout=min(self.ctx.timeout, 6))
        if r == 'sat':
            a = dict(st.assign)
            if m is not None:
                self.take_model(a, m)
                self.complete(a, cons, m)
            return True, a
        if r == 'unsat':
            return False, None
        return True, None

    def complete(self, a, cons, m):
        for c in cons:
            for v in vars_of(c):
                if v not in a:
                    x = m.eval(byid[v], model_completion=True)
                    a[v] = x

    def branch(self, c):
        st = self.st
        if isinstance(c, (int, bool)):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        d = st.decided.get(k)
        if d is not None:
            return d[0]
        nc = z3.simplify(z3.Not(c))
        t, at = self.feasible(st, c)
        if not t:
            st.decided[k] = (False, c)
            st.decided[nc.get_id()] = (True, nc)
            return False
        f, af = self.feasible(st, nc)
        if not f:
            st.decided[k] = (True, c)
            st.decided[nc.get_id()] = (False, nc)
            return True
        o = st.copy()
        self.forks += 1
        o.pc.append(nc)
        o.decided[k] = (False, c)
        o.decided[nc.get_id()] = (True, nc)
        o.assign = dict(af) if af is not None else o.assign
        self.work.append(o)
        st.pc.append(c)
        st.decided[k] = (True, c)
        st.decided[nc.get_id()] = (False, nc)
        if at is not None:
            st.assign = dict(at)
        return True

    def assume(self, c):
        st = self.st
        if isinstance(c, (int, bool)):
            if not c:
                raise PathEnd()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        t, at = self.feasible(st, c)
        if not t:
            raise PathEnd()
        st.pc.append(c)
        st.decided[c.get_id()] = (True, c)
        if at is not None:
            st.assign = dict(at)

    def model_value(self, t):
        """a rational value t takes under the state's assignment"""
        st = self.st
        for attempt in (0, 1):
            sub = []
            miss = False
            for v in vars_of(t):
                a = st.assign.get(v)
                if a is None:
                    miss = True
                    break
                if z3.is_algebraic_value(a) and not z3.is_rational_value(a):
                    f = frac_of(a)
                    a = z3.RealVal(f)
                sub.append((byid[v], a))
            if not miss:
                r = z3.simplify(z3.substitute(t, *sub)) if sub else z3.simplify(t)
                f = frac_of(r)
                if f is not None:
                    return f
            if attempt == 0:
                aux = z3.Real('mv!q') if z3.is_real(t) else None
                c = (aux == t) if aux is not None else (t == t)
                cons = self.ctx.closure(st.pc + ([c] if aux is not None else []))
                r, m = self.ctx.check(cons)
                if r != 'sat' or m is None:
                    return None
                a = dict(st.assign)
                self.take_model(a, m)
                self.complete(a, cons + [t == t], m)
                for v in vars_of(t):
                    if v not in a:
                        a[v] = m.eval(byid[v], model_completion=True)
                st.assign = a
        return None

    def concretize(self, v, w):
        if isinstance(v, int):
            return v
        if isinstance(v, FBits):
            raise Unsupported('integer view of a symbolic real')
        if z3.is_bool(v):
            return int(self.branch(v))
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        vs = self.valueset(v)
        if vs is not None and len(vs) <= 64:
            for c in sorted(vs):
                if self.branch(v == c):
                    return c
            raise PathEnd()
        n = 0
        while True:
            x = self.model_bv(v)
            if self.branch(v == x):
                return x
            n += 1
            if n > 5000:
                raise Unsupported('concretisation')

    def model_bv(self, v):
        st = self.st
        for attempt in (0, 1):
            sub = []
            ok = True
            for x in vars_of(v):
                a = st.assign.get(x)
                if a is None:
                    ok = False
                    break
                sub.append((byid[x], a))
            if ok:
                r = z3.simplify(z3.substitute(v, *sub))
                if z3.is_bv_value(r):
                    return r.as_long()
            if attempt == 0:
                cons = self.ctx.closure(st.pc)
                q = z3.BitVec('mv!bv', v.size())
                r, m = self.ctx.check(self.ctx.slice(st.pc, v == q) + [v == q])
                if r != 'sat' or m is None:
                    raise Unsupported('no model for concretisation')
                a = dict(st.assign)
                self.take_model(a, m)
                for x in vars_of(v):
                    if x not in a:
                        a[x] = m.eval(byid[x], model_completion=True)
                st.assign = a
        raise Unsupported('model_bv')

    def valueset(self, e, depth=0):
        if isinstance(e, int):
            return {e}
        if z3.is_bv_value(e):
            return {e.as_long()}
        if depth > 40:
            return None
        k = e.decl().kind()
        if k == z3.Z3_OP_ITE:
            a = self.valueset(e.arg(1), depth + 1)
            b = self.valueset(e.arg(2), depth + 1)
            if a is None or b is None:
                return None
            r = a | b
            return r if len(r) <= 64 else None
        m = (1 << e.size()) - 1
        op = {z3.Z3_OP_BADD: lambda x, y: x + y, z3.Z3_OP_BMUL: lambda x, y: x * y,
              z3.Z3_OP_BSHL: lambda x, y: x << min(y, 64), z3.Z3_OP_BSUB: lambda x, y: x - y}.get(k)
        if op:
            r = None
            for c in e.children():
                s = self.valueset(c, depth + 1)
                if s is None:
                    return None
                r = s if r is None else {op(x, y) & m for x in r for y in s}
                if len(r) > 64:
                    return None
            return r
        if k == z3.Z3_OP_CONCAT or k == z3.Z3_OP_ZERO_EXT or k == z3.Z3_OP_SIGN_EXT:
            if k == z3.Z3_OP_ZERO_EXT:
                return self.valueset(e.arg(0), depth + 1)
            if k == z3.Z3_OP_SIGN_EXT:
                s = self.valueset(e.arg(0), depth + 1)
                w = e.arg(0).size()
                return None if s is None else {sext(x, w) & m for x in s}
            r = {0}
            for c in e.children():
                s = self.valueset(c, depth + 1)
                if s is None:
                    return None
                r = {(x << c.size()) | y for x in r for y in s}
                if len(r) > 64:
                    return None
            return r
        return None

    # ------------------------------------------------------------ reporting
    def values(self, st, assign):
        out = {}
        for (key, kind, term, default) in st.inputs:
            if not z3.is_expr(term):
                out[key] = (kind, term)
                continue
            v = assign.get(term.get_id())
            if v is None:
                out[key] = (kind, default)
                continue
            if kind == 'd' or kind == 'f':
                if z3.is_fp(v):
                    out[key] = (kind, self.fpval(v))
                else:
                    f = frac_of(v)
                    out[key] = (kind, float(f) if f is not None else float(default))
            else:
                out[key] = (kind, sext(v.as_long(), v.size()))
        return out

    def fpval(self, v):
        if z3.is_fp(v) and v.isNaN():
            return math.nan
        b = z3.simplify(z3.fpToIEEEBV(v)).as_long()
        if v.sort().sbits() == 24:
            return struct.unpack('<f', struct.pack('<I', b))[0]
        return struct.unpack('<d', struct.pack('<Q', b))[0]

    def report(self, key, detail, st, assign, strong=False):
        n = self.vkeys.get(key, 0)
        self.vkeys[key] = n + 1
        if n >= 4:
            return
        vals = self.values(st, assign)
        for x in self.violations:
            if x['key'] == key:
                x['alts'].append(vals)
                return
        self.violations.append({'key': key, 'detail': detail, 'inputs': vals, 'alts': [],
                                'where': [f.f.name for f in st.frames[-4:]]})

    def do_assert(self, cond, key):
        st = self.st
        if isinstance(cond, (int, bool)):
            if cond:
                self.asserts_trivial += 1
                return
            self.report(key, 'assertion false on every input of this path', st, dict(st.assign))
            raise PathEnd()
        nc = z3.simplify(z3.Not(cond))
        if z3.is_false(nc):
            self.asserts_trivial += 1
            return
        if z3.is_true(nc):
            self.report(key, 'assertion false on every input of this path', st, dict(st.assign))
            raise PathEnd()
        cons = self.ctx.slice(st.pc, nc) + [nc]
        r, m = self.ctx.check(cons)
        self.asserts_solved += 1
        if r == 'unsat':
            st.decided[nc.get_id()] = (False, nc)
            return
        if r == 'unknown':
            self.undecided.append('solver gave no verdict for "%s"' % key)
            st.pc.append(cond)
            return
        a = dict(st.assign)
        self.take_model(a, m)
        self.complete(a, cons, m)
        self.report(key, 'counterexample', st, a)
        self.assume(cond)

    def do_close(self, a, b, tol, key):
        st = self.st
        fa, fb = isinstance(a, float), isinstance(b, float)
        if fa and fb:
            if (a != a and b != b) or a == b:
                ok = 1
            elif not (math.isfinite(a) and math.isfinite(b)):
                ok = 0
            else:
                ok = int(abs(a - b) <= tol * (1 + abs(b)))
            return self.do_assert(ok, key)
        for x in (a, b):
            if isinstance(x, float) and not math.isfinite(x):
                return self.do_assert(0, key)
        d = z3.simplify(self.dom.lift(a) - self.dom.lift(b), som=True)
        T = z3.RealVal(Fraction(repr(tol)))
        if z3.is_rational_value(d):
            if abs(frac_of(d)) <= Fraction(repr(tol)):
                raw = self.dom.lift(a) - self.dom.lift(b)
                r, m = self.ctx.check([z3.Or(raw > T, raw < -T)], timeout=1)
                self.asserts_solved += 1
                return
            return self.do_assert(0, key)
        # 0. rational normal form: clear denominators, eliminate squares of auxiliary variables
        if feat(d) & F_NL and self.residual(a, b, T):
            self.asserts_solved += 1
            return
        # 1. linear relaxation: every non-linear monomial becomes a bounded variable
        if feat(d) & F_NL or True:
            rel = self.relax(d, T)
            if rel is not None:
                r, m = self.ctx.check(rel, timeout=5)
                if r == 'unsat':
                    self.asserts_solved += 1
                    return
        # 2. a counterexample with a margin, 3. the full query
        big = z3.RealVal(max(Fraction(repr(tol)) * 1000, Fraction(1, 1000)))
        nb = z3.Or(d > big, d < -big)
        nc = z3.Or(d > T, d < -T)
        base = self.ctx.slice(st.pc, nc)
        r, m = self.ctx.check(base + [nc])
        self.asserts_solved += 1
        if r == 'unsat':
            return
        cons = base + [nc]
        r2, m2 = self.ctx.check(base + [nb], timeout=min(5, self.ctx.timeout))
        if r2 == 'sat':
            r, m, cons = r2, m2, base + [nb]
        if r == 'unknown':
            r, m, cons = self.assist(base, nb, nc)
        if r == 'unknown':
            self.undecided.append('solver gave no verdict for "%s"' % key)
            return
        asg = dict(st.assign)
        self.take_model(asg, m)
        self.complete(asg, cons, m)
        self.report(key, 'counterexample', st, asg)
        # a second, different model for the replay
        extra = []
        for (k, kind, term, dflt) in st.inputs:
            if z3.is_expr(term) and z3.is_real(term) and term.get_id() in asg:
                extra.append(term != asg[term.get_id()])
        if extra:
            c2 = base + [nb, z3.Or(*extra)]
            r3, m3 = self.ctx.check(c2, timeout=3)
            if r3 == 'sat':
                a3 = dict(st.assign)
                self.take_model(a3, m3)
                self.complete(a3, c2, m3)
                self.report(key, 'counterexample', st, a3)

    def residual(self, a, b, T):
        A = self.dom.alg
        try:
            r = A.reduce(A.rat(self.dom.lift(a) - self.dom.lift(b)))
        except alg.TooBig:
            return False
        if not r.num:
            res, m = self.ctx.check([z3.Or(A.term(r.num) > T, A.term(r.num) < -T)], timeout=2)
            return res == 'unsat'
        if r.den:
            try:
                B = A.ratio_bound(r.num, r.den, self.ctx.bounds)
            except alg.TooBig:
                B = None
            if B is not None:
                B = Fraction(math.nextafter(float(B), math.inf))
            if B is not None and B <= frac_of(T):
                res, m = self.ctx.check([z3.RealVal(B) > T], timeout=2)
                return res == 'unsat'
        B = A.bound(r.num, self.ctx.bounds)
        if B is None:
            return False
        den = 1
        for kk, e in r.den.items():
            t = A.term(A.polys[kk])
            for _ in range(e):
                den = den * t
        lim = z3.RealVal(B) / T
        q = z3.And(den <= lim, den >= -lim) if r.den else z3.BoolVal(B > frac_of(T))
        if B > Fraction(1, 1000):
            return False
        base = self.ctx.slice(self.st.pc, q) if r.den else []
        res, m = self.ctx.check(base + [q], timeout=5)
        return res == 'unsat'

    def assist(self, base, nb, nc):
        """counterexample search with part of the inputs fixed (only ever used to find models)"""
        import random
        rng = random.Random(self.ctx.seed)
        ins = [t for (k, kind, t, d) in self.st.inputs if z3.is_expr(t) and z3.is_real(t)]
        for attempt in range(6):
            if time.time() > self.deadline:
                break
            fix = []
            for t in ins:
                if rng.random() < 0.6:
                    lo, hi = self.ctx.bounds.get(t.get_id(), (Fraction(-4), Fraction(4)))
                    v = lo + (hi - lo) * Fraction(rng.randint(1, 15), 16)
                    fix.append(t == z3.RealVal(v))
            cons = base + [nb] + fix
            r, m = self.ctx.check(cons, timeout=2)
            if r == 'sat':
                return r, m, cons
        return 'unknown', None, None

    def relax(self, d, T):
        """over-approximation of |d| > T: each non-linear monomial replaced by a variable with its interval bound"""
        terms = d.children() if z3.is_add(d) else [d]
        out = []
        cons = []
        n = 0
        cache = {}
        for t in terms:
            if z3.is_rational_value(t):
                out.append(t)
                continue
            k, m = self.dom.coef(t)
            fs = m.children() if z3.is_mul(m) else [m]
            lo, hi = Fraction(1), Fraction(1)
            for f in fs:
                p = 1
                if f.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(f.arg(1)):
                    p = frac_of(f.arg(1))
                    if p.denominator != 1 or p < 1:
                        return None
                    p = int(p)
                    f = f.arg(0)
                b = self.ctx.bounds.get(f.get_id())
                if b is None:
                    return None
                for _ in range(p):
                    c = [lo * b[0], lo * b[1], hi * b[0], hi * b[1]]
                    lo, hi = min(c), max(c)
            key = m.get_id()
            if key not in cache:
                if z3.is_const(m):
                    cache[key] = m
                else:
                    n += 1
                    cache[key] = z3.Real('mono!%d' % n)
                v = cache[key]
                cons += [v >= z3.RealVal(lo), v <= z3.RealVal(hi)]
            out.append(z3.RealVal(k) * cache[key])
        s = z3.Sum(out) if len(out) > 1 else out[0]
        cons.append(z3.Or(s > T, s < -T))
        return cons

    # ------------------------------------------------------------ memory
    def alloc(self, st, size, kind, name='', zero=False):
        a = st.next_addr
        st.next_addr = (a + size + (1 << 20) + 63) // 64 * 64
        o = Obj(a, size, kind, st.id, name, zero)
        st.mem[a] = o
        st.bases.append(a)
        return a

    def find(self, st, addr):
        i = bisect.bisect_right(st.bases, addr) - 1
        if i < 0:
            return None
        b = st.bases[i]
        o = st.mem[b]
        # objects are separated by large gaps: an address in the gap belongs to the object below it (out of bounds)
        return o

    def wobj(self, st, o):
        if o.owner != st.id:
            o = o.copy(st.id)
            st.mem[o.base] = o
        return o

    def check_range(self, o, off, size, what):
        if o is None or off < -(1 << 19) or off > o.size + (1 << 20):
            raise Violation('memory: %s through an invalid pointer' % what, 'wild or null pointer')
        if not o.alive:
            raise Violation('memory: %s after free' % what, o.kind)
        if off < 0 or off + size > o.size:
            raise Violation('memory: %s out of bounds' % what, '%s object %s of %d bytes, offset %d, access %d' % (o.kind, o.name, o.size, off, size))

    def resolve(self, st, addr, size, what):
        """-> list of (cond or None, obj, off)"""
        if isinstance(addr, int):
            o = self.find(st, addr)
            if addr < 4096 or o is None:
                raise Violation('memory: %s through a null pointer' % what)
            self.check_range(o, addr - o.base, size, what)
            return [(None, o, addr - o.base)]
        if isinstance(addr, FBits):
            raise Unsupported('pointer from float bits')
        addr = z3.simplify(addr)
        if z3.is_bv_value(addr):
            return self.resolve(st, addr.as_long(), size, what)
        vs = self.valueset(addr)
        out = []
        if vs is not None:
            for c in sorted(vs):
                o = self.find(st, c)
                bad = c < 4096 or o is None or not o.alive or c - o.base < 0 or c - o.base + size > o.size
                if bad:
                    if self.branch(addr == c):
                        return self.resolve(st, c, size, what)   # raises the violation
                    continue
                out.append((addr == c, o, c - o.base))
            return out
        x = self.model_bv(addr)
        o = self.find(st, x)
        if x < 4096 or o is None:
            raise Violation('memory: %s through an invalid pointer' % what)
        inb = z3.And(z3.UGE(addr, o.base), z3.ULE(addr, o.base + max(o.size - size, 0)))
        if o.size < size or not self.branch(inb):
            y = self.model_bv(addr)
            o2 = self.find(st, y)
            if o2 is None or o2 is o or y < 4096:
                raise Violation('memory: %s out of bounds' % what, 'symbolic index into %s object of %d bytes' % (o.kind, o.size))
            if o2.alive and 0 <= y - o2.base and y - o2.base + size <= o2.size:
                return self.resolve(st, addr, size, what) if o2 is not o else []
            raise Violation('memory: %s out of bounds' % what, 'symbolic index')
        if not o.alive:
            raise Violation('memory: %s after free' % what)
        # candidate offsets: multiples of the access size; anything else is concretised
        cand = list(range(0, o.size - size + 1, size))
        if len(cand) > 256:
            c = self.concretize(addr, 64)
            return self.resolve(st, c, size, what)
        mis = z3.And(*[addr != o.base + c for c in cand])
        if self.branch(mis):
            c = self.concretize(addr, 64)
            return self.resolve(st, c, size, what)
        res = [(addr == o.base + c, o, c) for c in cand]
        if len(cand) > 24:
            res = [r for r in res if self.feasible(st, r[0])[0]]
        return res

    def fbits_concrete(self, v, size):
        return struct.unpack('<I', struct.pack('<f', v))[0] if size == 4 else struct.unpack('<Q', struct.pack('<d', v))[0]

    def byte_at(self, st, o, b):
        for d in range(16):
            c = o.cells.get(b - d)
            if c is not None and c[0] > d:
                v = c[1]
                if c[2] == 'f':
                    if isinstance(v, float):
                        v = self.fbits_concrete(v, c[0])
                    elif self.dom.symbolic_bits:
                        v = z3.fpToIEEEBV(v)
                    else:
                        raise Unsupported('byte view of a symbolic real')
                if isinstance(v, FBits):
                    raise Unsupported('byte view of a symbolic real')
                if isinstance(v, int):
                    return (v >> (8 * d)) & 255
                if z3.is_bool(v):
                    v = z3.If(v, z3.BitVecVal(1, 8 * c[0]), z3.BitVecVal(0, 8 * c[0]))
                if v.size() < 8 * c[0]:
                    v = z3.ZeroExt(8 * c[0] - v.size(), v)
                return z3.Extract(8 * d + 7, 8 * d, v)
        if o.zero:
            return 0
        st.fresh += 1
        x = z3.BitVec('uninit8!%d' % st.fresh, 8)
        o = self.wobj(st, o)
        o.cells[b] = (1, x, 'i')
        return x

    def parts_at(self, o, off, size):
        """the cells of floats that tile [off, off+size), if they do and one is symbolic"""
        parts, b, sym = [], off, False
        while b < off + size:
            c = o.cells.get(b)
            if c is None:
                if not o.zero or any(b - d in o.cells and o.cells[b - d][0] > d for d in range(1, 16)):
                    return None
                c = (4, 0, 'i')
            if c[0] != 4:
                return None
            sym = sym or (c[2] == 'f' and not isinstance(c[1], float)) or isinstance(c[1], FBits)
            parts.append(c)
            b += 4
        return parts if sym and b == off + size and not self.dom.symbolic_bits else None

    def load_cell(self, st, o, off, ty, size):
        k = ty[0]
        if k in ('i', 'f', 'p'):
            c = o.cells.get(off)
            if c is not None and c[0] == size:
                return self.coerce(c, ty, size)
            # nothing there at all -> uninitialised
            any_ = False
            for b in range(off - 15, off + size):
                cc = o.cells.get(b)
                if cc is not None and b + cc[0] > off:
                    any_ = True
                    break
            if not any_:
                if o.zero:
                    return 0.0 if k == 'f' else 0
                st.fresh += 1
                if k == 'f':
                    v = self.dom.var('uninit!%d' % st.fresh, ty[1])
                else:
                    v = z3.BitVec('uninit!%d' % st.fresh, size * 8)
                if self.concrete is not None:
                    v = math.nan if k == 'f' else 0xA5A5A5A5A5A5A5A5 & ((1 << size * 8) - 1)
                o = self.wobj(st, o)
                o.cells[off] = (size, v, 'f' if k == 'f' else 'i')
                return self.coerce(o.cells[off], ty, size)
            if k == 'i' and ty[1] == 8 * size:
                parts = self.parts_at(st.mem[o.base], off, size)
                if parts:
                    return FParts(parts, 8 * size)
            bs = [self.byte_at(st, st.mem[o.base], off + i) for i in range(size)]
            if all(isinstance(b, int) for b in bs):
                v = 0
                for i, b in enumerate(bs):
                    v |= b << (8 * i)
            else:
                v = z3.simplify(z3.Concat(*[b if z3.is_expr(b) else z3.BitVecVal(b, 8) for b in reversed(bs)])) if size > 1 else bs[0]
            return self.coerce((size, v, 'i'), ty, size)
        if k in ('v', 'a'):
            es = self.mod.size(ty[2])
            et = self.mod.res(ty[2])
            return tuple(self.load_cell(st, st.mem[o.base], off + i * es, et, es) for i in range(ty[1]))
        if k == 's':
            return tuple(self.load_cell(st, st.mem[o.base], off + self.mod.offset(ty, i), self.mod.res(t), self.mod.size(t))
                         for i, t in enumerate(ty[1]))
        raise Unsupported('load of %r' % (ty,))

    def coerce(self, c, ty, size):
        v = c[1]
        if isinstance(v, FParts):
            if ty[0] == 'i' and ty[1] == v.w:
                return v
            raise Unsupported('byte view of a symbolic real')
        if ty[0] == 'f':
            if c[2] == 'f':
                return v
            if isinstance(v, FBits):
                return v.v
            if isinstance(v, int):
                return struct.unpack('<f', struct.pack('<I', v))[0] if size == 4 else struct.unpack('<d', struct.pack('<Q', v))[0]
            if self.dom.symbolic_bits:
                return z3.fpBVToFP(v, self.dom.sort(ty[1]))
            v = z3.simplify(v)
            if z3.is_bv_value(v):
                return self.coerce((c[0], v.as_long(), 'i'), ty, size)
            raise Unsupported('real view of a symbolic integer')
        if c[2] == 'f':
            if isinstance(v, float):
                return self.fbits_concrete(v, size)
            if self.dom.symbolic_bits:
                return z3.fpToIEEEBV(v)
            return FBits(v, size * 8)
        if isinstance(v, int):
            w = ty[1] if ty[0] == 'i' else 64
            return v & ((1 << w) - 1)
        if isinstance(v, FBits):
            return v
        if ty[0] == 'i' and ty[1] < size * 8:
            if z3.is_bool(v):
                return v
            v = z3.Extract(ty[1] - 1, 0, v)
            if ty[1] == 1:
                return z3.simplify(v == 1)
        elif z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, size * 8), z3.BitVecVal(0, size * 8))
        return v

    def clear(self, st, o, off, size):
        """make room for [off, off+size): split partially overlapped cells into bytes"""
        cells = o.cells
        if size > 4 * len(cells) + 64:
            rng = [b for b in cells if b < off + size and b + cells[b][0] > off]
        else:
            rng = [b for b in range(off - 15, off + size) if b in cells and b + cells[b][0] > off]
        for b in rng:
            c = cells[b]
            if b >= off and b + c[0] <= off + size:
                del cells[b]
            else:
                keep = [(x, self.byte_at(st, o, x)) for x in range(b, b + c[0]) if x < off or x >= off + size]
                del cells[b]
                for x, v in keep:
                    cells[x] = (1, v, 'i')

    def store_cell(self, st, o, off, ty, size, v):
        k = ty[0]
        if isinstance(v, FParts):
            self.clear(st, o, off, size)
            for i, c in enumerate(v.parts):
                o.cells[off + 4 * i] = c
        elif k in ('i', 'f', 'p'):
            c = o.cells.get(off)
            if c is None or c[0] != size:
                self.clear(st, o, off, size)
            o.cells[off] = (size, v, 'f' if k == 'f' else 'i')
        elif k in ('v', 'a'):
            es = self.mod.size(ty[2])
            et = self.mod.res(ty[2])
            for i in range(ty[1]):
                self.store_cell(st, o, off + i * es, et, es, v[i])
        elif k == 's':
            for i, t in enumerate(ty[1]):
                self.store_cell(st, o, off + self.mod.offset(ty, i), self.mod.res(t), self.mod.size(t), v[i])
        else:
            raise Unsupported('store of %r' % (ty,))

    def load(self, st, addr, ty, size):
        r = self.resolve(st, addr, size, 'read')
        if not r:
            raise PathEnd()
        if r[0][0] is None:
            return self.load_cell(st, r[0][1], r[0][2], ty, size)
        if ty[0] in ('v', 'a', 's'):
            c = self.concretize(addr, 64)
            return self.load(st, c, ty, size)
        vals = [(c, self.load_cell(st, st.mem[o.base], off, ty, size)) for c, o, off in r]
        v = vals[-1][1]
        for c, x in reversed(vals[:-1]):
            v = self.ite(c, x, v, ty)
        return v

    def store(self, st, addr, ty, size, v):
        r = self.resolve(st, addr, size, 'write')
        if not r:
            raise PathEnd()
        if r[0][0] is None:
            o = r[0][1]
            if o.const:
                raise Violation('memory: write to a constant')
            self.store_cell(st, self.wobj(st, o), r[0][2], ty, size, v)
            return
        if ty[0] in ('v', 'a', 's'):
            c = self.concretize(addr, 64)
            return self.store(st, c, ty, size, v)
        olds = [(c, o.base, off, self.load_cell(st, st.mem[o.base], off, ty, size)) for c, o, off in r]
        news = [(b, off, self.ite(c, v, old, ty)) for c, b, off, old in olds]
        for b, off, x in news:
            self.store_cell(st, self.wobj(st, st.mem[b]), off, ty, size, x)

    def memcpy(self, st, d, s, n, what='memcpy'):
        n = self.concretize(n, 64)
        if n == 0:
            return
        d = self.concretize(d, 64)
        s = self.concretize(s, 64)
        (_, do, doff), = self.resolve(st, d, n, 'write')
        (_, so, soff), = self.resolve(st, s, n, 'read')
        if do.const:
            raise Violation('memory: write to a constant')
        cells = so.cells
        moved = []
        if n > 4 * len(cells) + 64:
            keys = sorted(b for b in cells if b < soff + n and b + cells[b][0] > soff)
        else:
            keys = [b for b in range(soff - 15, soff + n) if b in cells and b + cells[b][0] > soff]
        zero = so.zero
        cov = 0
        for b in keys:
            c = cells[b]
            if b >= soff and b + c[0] <= soff + n:
                moved.append((b - soff, c))
                cov += c[0]
            else:
                for x in range(max(b, soff), min(b + c[0], soff + n)):
                    moved.append((x - soff, (1, self.byte_at(st, so, x), 'i')))
                    cov += 1
        do = self.wobj(st, do)
        if zero and cov < n and not do.zero:
            have = set()
            for o, c in moved:
                have.update(range(o, o + c[0]))
            x = 0
            while x < n:
                if x not in have and x % 8 == 0 and x + 8 <= n and not any((x + j) in have for j in range(8)):
                    moved.append((x, (8, 0, 'i')))
                    x += 8
                    continue
                if x not in have:
                    moved.append((x, (1, 0, 'i')))
                x += 1
        elif do.zero and not zero and cov < n:
            raise Unsupported('copy of uninitialised bytes into zero-filled memory')
        self.clear(st, do, doff, n)
        if do.zero:
            pass
        for o, c in moved:
            do.cells[doff + o] = c

    def memset(self, st, d, v, n):
        n = self.concretize(n, 64)
        if n == 0:
            return
        d = self.concretize(d, 64)
        (_, o, off), = self.resolve(st, d, n, 'write')
        o = self.wobj(st, o)
        self.clear(st, o, off, n)
        if isinstance(v, int):
            v &= 255
            w = int.from_bytes(bytes([v]) * 8, 'little')
            x = 0
            while x < n:
                if (off + x) % 8 == 0 and x + 8 <= n:
                    o.cells[off + x] = (8, w, 'i')
                    x += 8
                else:
                    o.cells[off + x] = (1, v, 'i')
                    x += 1
        else:
            for x in range(n):
                o.cells[off + x] = (1, v, 'i')

    def cstr(self, st, a):
        a = self.concretize(a, 64)
        o = self.find(st, a)
        off = a - o.base
        out = []
        while True:
            self.check_range(o, off, 1, 'read')
            b = self.byte_at(st, o, off)
            if not isinstance(b, int):
                raise Unsupported('symbolic string')
            if b == 0:
                return bytes(out).decode('latin1')
            out.append(b)
            off += 1

    # ------------------------------------------------------------ values
    def ite(self, c, a, b, ty):
        if isinstance(c, (int, bool)):
            return a if c else b
        k = ty[0]
        if k == 'f':
            return self.dom.ite(c, a, b, ty[1], self)
        if k in ('v', 'a'):
            return tuple(self.ite(c, x, y, self.mod.res(ty[2])) for x, y in zip(a, b))
        if k == 's':
            return tuple(self.ite(c, x, y, self.mod.res(t)) for x, y, t in zip(a, b, ty[1]))
        if isinstance(a, FParts) or isinstance(b, FParts):
            raise Unsupported('choice between words of symbolic reals')
        if isinstance(a, FBits) or isinstance(b, FBits):
            fa = a.v if isinstance(a, FBits) else struct.unpack('<d', struct.pack('<Q', a))[0] if isinstance(a, int) else None
            fb = b.v if isinstance(b, FBits) else struct.unpack('<d', struct.pack('<Q', b))[0] if isinstance(b, int) else None
            if fa is None or fb is None:
                raise Unsupported('ite of float bits')
            return FBits(self.dom.ite(c, fa, fb, 64, self), 64)
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        w = ty[1] if k == 'i' else 64
        if w == 1:
            return self.simpb(z3.If(c, self.tob(a), self.tob(b)))
        return z3.If(c, self.tobv(a, w), self.tobv(b, w))

    def tob(self, v):
        if isinstance(v, (int, bool)):
            return z3.BoolVal(bool(v))
        if z3.is_bv(v):
            return v == 1
        return v

    def tobv(self, v, w):
        if isinstance(v, (int, bool)):
            return z3.BitVecVal(int(v), w)
        if isinstance(v, FBits):
            raise Unsupported('integer view of a symbolic real')
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return v

    def simpb(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return 1
        if z3.is_false(c):
            return 0
        return c

    def val(self, st, fr, o):
        return fr.regs[o[1]] if o[0] else o[1]

    # ------------------------------------------------------------ frames
    def push(self, st, f, args, dst, nrm):
        self.mod.body(f)
        self.funcs.add(f.name)
        fr = Frame()
        fr.f = f
        fr.block = f.entry
        fr.ins = f.blocks[f.entry]
        fr.idx = 0
        fr.regs = {}
        fr.allocas = []
        fr.dst, fr.nrm, fr.prev = dst, nrm, None
        for i, (t, nm) in enumerate(f.params):
            fr.regs[nm or '%' + str(i)] = args[i]
        st.frames.append(fr)
        if len(st.frames) > 400:
            raise Violation('termination: the calls do not end', 'depth 400')

    def goto(self, st, fr, lbl):
        fr.prev = fr.block
        fr.block = lbl
        ins = fr.ins = fr.f.blocks[lbl]
        i = 0
        upd = []
        while i < len(ins) and ins[i][0] == 'phi':
            o = ins[i][2][fr.prev]
            upd.append((ins[i][1], fr.regs[o[1]] if o[0] else o[1]))
            i += 1
        for d, v in upd:
            fr.regs[d] = v
        fr.idx = i

    def loop(self, st):
        chk = 0
        while st.frames:
            fr = st.frames[-1]
            ins = fr.ins[fr.idx]
            st.steps += 1
            self.steps += 1
            chk += 1
            if chk & 1023 == 0:
                if time.time() > self.deadline:
                    raise Unsupported('time budget exhausted')
                if st.steps > self.max_steps:
                    raise Violation('termination: the run does not end', '%d steps' % st.steps)
            getattr(self, 'i_' + ins[0])(st, fr, ins)

    # each handler either advances fr.idx or transfers control
    def i_alloca(self, st, fr, ins):
        n = self.concretize(self.val(st, fr, ins[3]), 64)
        a = self.alloc(st, ins[2] * n, 'stack', fr.f.name + ins[1])
        fr.allocas.append(a)
        fr.regs[ins[1]] = a
        fr.idx += 1

    def i_load(self, st, fr, ins):
        fr.regs[ins[1]] = self.load(st, self.val(st, fr, ins[3]), ins[2], ins[4])
        fr.idx += 1

    def i_store(self, st, fr, ins):
        self.store(st, self.val(st, fr, ins[4]), ins[2], ins[5], self.val(st, fr, ins[3]))
        fr.idx += 1

    def i_gep(self, st, fr, ins):
        base = self.val(st, fr, ins[2])
        c = ins[3]
        sym = None
        for sc, o, w in ins[4]:
            v = self.val(st, fr, o)
            if isinstance(v, int):
                c += sc * sext(v, w)
            else:
                v = self.tobv(v, w)
                if w < 64:
                    v = z3.SignExt(64 - w, v)
                t = v * sc
                sym = t if sym is None else sym + t
        if sym is None and isinstance(base, int):
            r = (base + c) & M64
        else:
            r = self.tobv(base, 64)
            if sym is not None:
                r = r + sym
            if c:
                r = r + z3.BitVecVal(c & M64, 64)
            r = z3.simplify(r)
            if z3.is_bv_value(r):
                r = r.as_long()
        fr.regs[ins[1]] = r
        fr.idx += 1

    def ibin(self, op, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            m = (1 << w) - 1
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sext(a, w) >> min(b, w - 1)) & m
            if b == 0:
                raise Violation('arithmetic: integer division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sext(a, w), sext(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            if op == 'sdiv':
                return q & m
            return (x - q * y) & m
        if isinstance(a, FBits) or isinstance(b, FBits):
            return self.fbits_op(op, w, a, b)
        if w == 1:
            x, y = self.tob(a), self.tob(b)
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor, 'sub': z3.Xor, 'mul': z3.And}[op](x, y)
            return self.simpb(r)
        a, b = self.tobv(a, w), self.tobv(b, w)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if self.branch(b == 0):
                raise Violation('arithmetic: integer division by zero')
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b,
             'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b),
             'ashr': lambda: a >> b, 'udiv': lambda: z3.UDiv(a, b), 'sdiv': lambda: a / b,
             'urem': lambda: z3.URem(a, b), 'srem': lambda: z3.SRem(a, b)}[op]()
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r

    def fbits_op(self, op, w, a, b):
        if isinstance(a, FParts) and isinstance(b, int):
            if op == 'lshr' and b % 32 == 0 and b < w:
                n = b // 32
                return FParts(a.parts[n:] + [(4, 0, 'i')] * n, w)
            if op == 'shl' and b % 32 == 0 and b < w:
                n = b // 32
                return FParts([(4, 0, 'i')] * n + a.parts[:len(a.parts) - n], w)
            if op == 'and' and b in ((1 << 32) - 1, ((1 << w) - 1) ^ ((1 << 32) - 1)):
                low = b & 1
                return FParts([c if (i == 0) == bool(low) else (4, 0, 'i') for i, c in enumerate(a.parts)], w)
        if isinstance(a, FParts) and isinstance(b, FParts) and op == 'or':
            z = lambda c: c[2] == 'i' and isinstance(c[1], int) and c[1] == 0
            if all(z(x) or z(y) for x, y in zip(a.parts, b.parts)):
                return FParts([y if z(x) else x for x, y in zip(a.parts, b.parts)], w)
        if isinstance(a, FParts) or isinstance(b, FParts):
            raise Unsupported('bit operation %s on symbolic reals' % op)
        f, m = (a, b) if isinstance(a, FBits) else (b, a)
        sb = 1 << (w - 1)
        if isinstance(m, int):
            if op == 'and' and m == sb - 1:
                return FBits(self.dom.fn('fabs', [f.v], w, self), w)
            if op == 'xor' and m == sb:
                return FBits(self.dom.neg(f.v, w), w)
            if op == 'lshr' and m == w - 1 and f is a:
                return z3.If(self.dom.sgn_bit(f.v), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            if op == 'and' and m == sb:
                return z3.If(self.dom.sgn_bit(f.v), z3.BitVecVal(sb, w), z3.BitVecVal(0, w))
        raise Unsupported('bit operation %s on a symbolic real' % op)

    def i_bin(self, st, fr, ins):
        _, dst, op, ty, a, b = ins
        a, b = self.val(st, fr, a), self.val(st, fr, b)
        if ty[0] == 'v':
            w = self.mod.res(ty[2])[1]
            r = tuple(self.ibin(op, w, x, y) for x, y in zip(a, b))
        else:
            r = self.ibin(op, ty[1], a, b)
        fr.regs[dst] = r
        fr.idx += 1

    def i_fbin(self, st, fr, ins):
        _, dst, op, ty, a, b = ins
        a, b = self.val(st, fr, a), self.val(st, fr, b)
        if ty[0] == 'v':
            w = self.mod.res(ty[2])[1]
            r = tuple(self.dom.bin(op, x, y, w, self) for x, y in zip(a, b))
        else:
            r = self.dom.bin(op, a, b, ty[1], self)
        fr.regs[dst] = r
        fr.idx += 1

    def i_fneg(self, st, fr, ins):
        _, dst, ty, a = ins
        a = self.val(st, fr, a)
        if ty[0] == 'v':
            r = tuple(self.dom.neg(x, 64) for x in a)
        else:
            r = self.dom.neg(a, ty[1])
        fr.regs[dst] = r
        fr.idx += 1

    def icmp(self, cc, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if cc == 'eq':
                return int(a == b)
            if cc == 'ne':
                return int(a != b)
            if cc[0] == 's':
                a, b = sext(a, w), sext(b, w)
            k = cc[1:]
            return int(a > b if k == 'gt' else a >= b if k == 'ge' else a < b if k == 'lt' else a <= b)
        if isinstance(a, FBits) or isinstance(b, FBits):
            if isinstance(a, FParts) or isinstance(b, FParts):
                raise Unsupported('comparison of words of symbolic reals')
            if isinstance(a, FBits) and isinstance(b, int):
                if cc == 'slt' and b == 0:
                    return self.dom.sgn_bit(a.v)
                if cc == 'sgt' and b == (1 << w) - 1:
                    return self.simpb(z3.Not(self.tob(self.dom.sgn_bit(a.v))))
            raise Unsupported('icmp on float bits')
        if w == 1:
            a, b = self.tob(a), self.tob(b)
            if cc == 'eq':
                return self.simpb(a == b)
            if cc == 'ne':
                return self.simpb(z3.Xor(a, b))
            raise Unsupported('icmp i1 ' + cc)
        a, b = self.tobv(a, w), self.tobv(b, w)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
             'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'sgt': lambda: a > b, 'sge': lambda: a >= b,
             'slt': lambda: a < b, 'sle': lambda: a <= b}[cc]()
        return self.simpb(r)

    def i_icmp(self, st, fr, ins):
        _, dst, cc, ty, a, b = ins
        a, b = self.val(st, fr, a), self.val(st, fr, b)
        if ty[0] == 'v':
            et = self.mod.res(ty[2])
            w = et[1] if et[0] == 'i' else 64
            r = tuple(self.icmp(cc, w, x, y) for x, y in zip(a, b))
        else:
            r = self.icmp(cc, ty[1] if ty[0] == 'i' else 64, a, b)
        fr.regs[dst] = r
        fr.idx += 1

    def i_fcmp(self, st, fr, ins):
        _, dst, cc, ty, a, b = ins
        a, b = self.val(st, fr, a), self.val(st, fr, b)
        if ty[0] == 'v':
            r = tuple(self.fc(cc, x, y) for x, y in zip(a, b))
        else:
            r = self.fc(cc, a, b)
        fr.regs[dst] = r
        fr.idx += 1

    def fc(self, cc, a, b):
        r = self.dom.cmp(cc, a, b, self)
        return r if isinstance(r, int) else self.simpb(r)

    def i_select(self, st, fr, ins):
        _, dst, ty, c, a, b, ct = ins
        c, a, b = self.val(st, fr, c), self.val(st, fr, a), self.val(st, fr, b)
        if ct[0] == 'v':
            et = self.mod.res(ty[2])
            r = tuple(self.ite(x, y, z, et) for x, y, z in zip(c, a, b))
        else:
            r = self.ite(c, a, b, ty)
        fr.regs[dst] = r
        fr.idx += 1

    def i_jmp(self, st, fr, ins):
        self.goto(st, fr, ins[2])

    def i_br(self, st, fr, ins):
        c = self.val(st, fr, ins[2])
        self.goto(st, fr, ins[3] if self.branch(c) else ins[4])

    def i_switch(self, st, fr, ins):
        _, _, ty, v, d, cases = ins
        v = self.val(st, fr, v)
        if isinstance(v, int):
            for c, l in cases:
                if c == v:
                    return self.goto(st, fr, l)
            return self.goto(st, fr, d)
        v = self.tobv(v, ty[1])
        groups = {}
        for c, l in cases:
            groups.setdefault(l, []).append(v == c)
        for l, cs in groups.items():
            if l != d and self.branch(cs[0] if len(cs) == 1 else z3.Or(*cs)):
                return self.goto(st, fr, l)
        self.goto(st, fr, d)

    def i_ret(self, st, fr, ins):
        v = self.val(st, fr, ins[3]) if ins[3] is not None else None
        for a in fr.allocas:
            o = self.wobj(st, st.mem[a])
            o.alive = False
        st.frames.pop()
        if st.frames:
            c = st.frames[-1]
            if fr.dst is not None:
                c.regs[fr.dst] = v
            if fr.nrm is not None:
                self.goto(st, c, fr.nrm)
            else:
                c.idx += 1

    def i_unreachable(self, st, fr, ins):
        raise Violation('control flow: unreachable code reached', fr.f.name)

    def i_landingpad(self, st, fr, ins):
        raise Unsupported('landingpad')

    def i_resume(self, st, fr, ins):
        raise Unsupported('resume')

    def i_unsupported(self, st, fr, ins):
        raise Unsupported(ins[2])

    def i_freeze(self, st, fr, ins):
        fr.regs[ins[1]] = self.val(st, fr, ins[2])
        fr.idx += 1

    def i_extractvalue(self, st, fr, ins):
        v = self.val(st, fr, ins[2])
        for i in ins[3]:
            v = v[i]
        fr.regs[ins[1]] = v
        fr.idx += 1

    def insv(self, v, e, idx):
        v = list(v)
        v[idx[0]] = e if len(idx) == 1 else self.insv(v[idx[0]], e, idx[1:])
        return tuple(v)

    def i_insertvalue(self, st, fr, ins):
        fr.regs[ins[1]] = self.insv(self.val(st, fr, ins[2]), self.val(st, fr, ins[3]), ins[4])
        fr.idx += 1

    def i_extractelement(self, st, fr, ins):
        i = self.concretize(self.val(st, fr, ins[3]), 64)
        fr.regs[ins[1]] = self.val(st, fr, ins[2])[i]
        fr.idx += 1

    def i_insertelement(self, st, fr, ins):
        i = self.concretize(self.val(st, fr, ins[4]), 64)
        v = list(self.val(st, fr, ins[2]))
        v[i] = self.val(st, fr, ins[3])
        fr.regs[ins[1]] = tuple(v)
        fr.idx += 1

    def i_shufflevector(self, st, fr, ins):
        a, b = self.val(st, fr, ins[2]), self.val(st, fr, ins[3])
        ab = tuple(a) + tuple(b)
        fr.regs[ins[1]] = tuple(ab[i] for i in ins[4])
        fr.idx += 1

    def i_cast(self, st, fr, ins):
        _, dst, op, t1, v, t2 = ins
        v = self.val(st, fr, v)
        if t1[0] == 'v' and t2[0] == 'v':
            e1, e2 = self.mod.res(t1[2]), self.mod.res(t2[2])
            r = tuple(self.cast(op, e1, x, e2) for x in v)
        else:
            r = self.cast(op, t1, v, t2)
        fr.regs[dst] = r
        fr.idx += 1

    def cast(self, op, t1, v, t2):
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            if isinstance(v, int) or (t1[0] == t2[0]):
                return v & ((1 << (t2[1] if t2[0] == 'i' else 64)) - 1) if isinstance(v, int) else v
            w1 = t1[1] if t1[0] == 'i' else 64
            w2 = t2[1] if t2[0] == 'i' else 64
            v = self.tobv(v, w1)
            return v if w1 == w2 else (z3.Extract(w2 - 1, 0, v) if w2 < w1 else z3.ZeroExt(w2 - w1, v))
        if op == 'trunc':
            w = t2[1]
            if isinstance(v, int):
                return v & ((1 << w) - 1)
            if isinstance(v, FParts) and w == 32:
                return self.coerce(v.parts[0], t2, 4)
            if isinstance(v, FBits):
                raise Unsupported('trunc of float bits')
            v = self.tobv(v, t1[1])
            r = z3.simplify(z3.Extract(w - 1, 0, v))
            if w == 1:
                return self.simpb(r == 1)
            return r.as_long() if z3.is_bv_value(r) else r
        if op in ('zext', 'sext'):
            w1, w2 = t1[1], t2[1]
            if isinstance(v, int):
                return v if op == 'zext' else sext(v, w1) & ((1 << w2) - 1)
            if isinstance(v, FBits):
                if op == 'zext' and w1 == 32 and w2 == 64 and not isinstance(v, FParts):
                    return FParts([(4, v, 'i'), (4, 0, 'i')], 64)
                raise Unsupported('extension of float bits')
            if w1 == 1:
                one = 1 if op == 'zext' else (1 << w2) - 1
                return z3.If(self.tob(v), z3.BitVecVal(one, w2), z3.BitVecVal(0, w2))
            v = self.tobv(v, w1)
            return z3.ZeroExt(w2 - w1, v) if op == 'zext' else z3.SignExt(w2 - w1, v)
        if op in ('fptrunc', 'fpext'):
            return self.dom.conv(v, t1[1], t2[1])
        if op in ('sitofp', 'uitofp'):
            w = t1[1]
            if w == 1:
                if isinstance(v, int):
                    return (-float(v) if op[0] == 's' else float(v))
                return self.dom.ite(self.tob(v), -1.0 if op[0] == 's' else 1.0, 0.0, t2[1], self)
            if isinstance(v, FBits):
                raise Unsupported('sitofp of float bits')
            return self.dom.from_int(v, op[0] == 's', w, t2[1], self)
        if op in ('fptosi', 'fptoui'):
            return self.dom.to_int(v, op == 'fptosi', t2[1], self)
        if op == 'bitcast':
            if t1[0] == t2[0]:
                if t1[0] != 'v':
                    return v
            if t1[0] == 'f' and t2[0] == 'i' or t1[0] == 'i' and t2[0] == 'f':
                sz = self.mod.size(t1)
                return self.coerce((sz, v, t1[0]), t2, sz)
            # vectors: through bytes
            sz = self.mod.size(t1)
            o = Obj(0, sz, 'tmp', self.st.id, 'bitcast')
            self.store_cell(self.st, o, 0, t1, sz, v)
            if t2[0] == 'v':
                es = self.mod.size(t2[2])
                et = self.mod.res(t2[2])
                out = []
                for i in range(t2[1]):
                    c = o.cells.get(i * es)
                    if c is not None and c[0] == es:
                        out.append(self.coerce(c, et, es))
                    else:
                        bs = [self.byte_at(self.st, o, i * es + j) for j in range(es)]
                        if not all(isinstance(b, int) for b in bs):
                            raise Unsupported('vector bitcast')
                        out.append(self.coerce((es, int.from_bytes(bytes(bs), 'little'), 'i'), et, es))
                return tuple(out)
            bs = [self.byte_at(self.st, o, j) for j in range(sz)]
            if all(isinstance(b, int) for b in bs):
                return self.coerce((sz, int.from_bytes(bytes(bs), 'little'), 'i'), t2, sz)
            if t2[0] == 'i':
                return z3.simplify(z3.Concat(*[b if z3.is_expr(b) else z3.BitVecVal(b, 8) for b in reversed(bs)]))
            raise Unsupported('bitcast')
        raise Unsupported(op)

    # ------------------------------------------------------------ calls
    def i_call(self, st, fr, ins):
        _, dst, callee, args, rt, nrm = ins
        if callee[0]:
            a = self.concretize(fr.regs[callee[1]], 64)
            f = self.mod.func_at.get(a)
            if f is None:
                raise Violation('control flow: call through an invalid function pointer')
            name = f.name
        else:
            name = callee[1]
            f = self.mod.funcs.get(name)
        av = [fr.regs[o[1]] if o[0] else o[1] for (t, o) in args]
        import externs
        if name in externs.OVERRIDE:
            f = None
        if f is not None and f.blocks is not None:
            self.push(st, f, av, dst, nrm)
            return
        h = externs.lookup(name)
        if h is None:
            raise Unsupported('external function ' + name)
        r = h(self, st, av, [t for t, o in args], rt, name)
        if r is externs.PUSHED:
            return
        if dst is not None:
            fr.regs[dst] = r
        if nrm is not None:
            self.goto(st, fr, nrm)
        else:
            fr.idx += 1
