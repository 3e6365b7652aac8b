"""Models of everything outside the encoded code: the harness API, the allocator, libc/libm, C++ runtime."""
import math, re, struct, z3
from fractions import Fraction
from dom import Unsupported, snap
import symex
from symex import PathEnd, Violation, sext, M64
from solver import byid, vars_of

PUSHED = object()
OVERRIDE = set()
H = {}


def h(*names):
    def d(f):
        for n in names:
            H['@' + n] = f
        return f
    return d


# ---------------------------------------------------------------- harness API
def name_of(ex, st, a):
    n = ex.cstr(st, a)
    k = st.names.get(n, 0)
    st.names[n] = k + 1
    return '%s#%d' % (n, k)


def conc(ex, key, kind, default):
    v = ex.concrete.get(key)
    if v is None:
        return default
    return v[1]


@h('vf_double', 'vf_float')
def vf_double(ex, st, a, t, rt, name):
    w = rt[1]
    key = name_of(ex, st, a[0])
    lo, hi = a[1], a[2]
    kind = 'd' if w == 64 else 'f'
    if ex.concrete is not None:
        return float(conc(ex, key, kind, lo))
    v = ex.dom.var('in!' + key, w)
    vars_of(v)
    st.inputs.append((key, kind, v, lo))
    ex.bounds[key] = '[%g, %g]' % (lo, hi)
    if ex.mode == 'real':
        ex.ctx.bounds[v.get_id()] = (snap(lo), snap(hi))
        l, u = z3.RealVal(snap(lo)), z3.RealVal(snap(hi))
        ex.assume(v >= l)
        ex.assume(v <= u)
    else:
        ex.assume(z3.And(z3.fpGEQ(v, ex.dom.lift(lo, w)), z3.fpLEQ(v, ex.dom.lift(hi, w))))
    return v


@h('vf_anydouble', 'vf_anyfloat')
def vf_anydouble(ex, st, a, t, rt, name):
    w = rt[1]
    key = name_of(ex, st, a[0])
    kind = 'd' if w == 64 else 'f'
    if ex.concrete is not None:
        return float(conc(ex, key, kind, 0.0))
    if ex.mode == 'real':
        raise Unsupported('vf_anydouble in real mode')
    v = ex.dom.var('in!' + key, w)
    vars_of(v)
    st.inputs.append((key, kind, v, 0.0))
    ex.bounds[key] = 'all %d-bit floats (NaN, infinities, signed zeros, subnormals)' % w
    return v


@h('vf_int')
def vf_int(ex, st, a, t, rt, name):
    key = name_of(ex, st, a[0])
    lo, hi = sext(ex.concretize(a[1], 64), 64), sext(ex.concretize(a[2], 64), 64)
    if ex.concrete is not None:
        return int(conc(ex, key, 'i', lo)) & M64
    v = z3.BitVec('in!' + key, 64)
    vars_of(v)
    st.inputs.append((key, 'i', v, lo))
    ex.bounds[key] = '[%d, %d]' % (lo, hi)
    ex.assume(z3.And(v >= z3.BitVecVal(lo, 64), v <= z3.BitVecVal(hi, 64)))
    return v


@h('vf_pick')
def vf_pick(ex, st, a, t, rt, name):
    """an integer, resolved to every value of its range by forking"""
    lo, hi = sext(ex.concretize(a[1], 64), 64), sext(ex.concretize(a[2], 64), 64)
    n = ex.cstr(st, a[0])
    key = '%s#%d' % (n, st.names.get(n, 0))
    if ex.concrete is not None:
        st.names[n] = st.names.get(n, 0) + 1
        return int(conc(ex, key, 'i', lo)) & M64
    ex.bounds[key] = '{%d..%d}' % (lo, hi)
    v = z3.BitVec('in!' + key, 64)
    vars_of(v)
    if v.get_id() not in st.assign:
        st.assign = dict(st.assign)
        st.assign[v.get_id()] = z3.BitVecVal(lo, 64)
        st.pc.append(z3.And(v >= z3.BitVecVal(lo, 64), v <= z3.BitVecVal(hi, 64)))
    for c in range(lo, hi + 1):
        if c == hi or ex.branch(v == z3.BitVecVal(c, 64)):
            st.names[n] = st.names.get(n, 0) + 1
            st.inputs.append((key, 'i', c, lo))
            return c & M64
    raise PathEnd()


@h('vf_assume')
def vf_assume(ex, st, a, t, rt, name):
    ex.assume(a[0])


@h('vf_assert')
def vf_assert(ex, st, a, t, rt, name):
    ex.do_assert(a[0] if isinstance(a[0], int) else ex.tob(a[0]), ex.cstr(st, a[1]))


@h('vf_close')
def vf_close(ex, st, a, t, rt, name):
    key = ex.cstr(st, a[3])
    if ex.mode == 'fp' and ex.concrete is None and not (isinstance(a[0], float) and isinstance(a[1], float)):
        raise Unsupported('vf_close on symbolic fp')
    ex.do_close(a[0], a[1], a[2], key)


@h('vf_same')
def vf_same(ex, st, a, t, rt, name):
    """bit-for-bit the same value (any NaN equals any NaN)"""
    key = ex.cstr(st, a[2])
    x, y = a[0], a[1]
    if isinstance(x, float) and isinstance(y, float):
        return ex.do_assert(int(x != x and y != y or struct.pack('<d', x) == struct.pack('<d', y)), key)
    if ex.mode == 'real':
        return ex.do_close(x, y, 1e-9, key)
    x, y = ex.dom.lift(x, ex.dom.wof(x, y)), ex.dom.lift(y, ex.dom.wof(x, y))
    ex.do_assert(z3.Or(z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y)), x == y), key)


@h('vf_reach')
def vf_reach(ex, st, a, t, rt, name):
    k = ex.cstr(st, a[0])
    ex.reached[k] = ex.reached.get(k, 0) + 1


@h('vf_observe')
def vf_observe(ex, st, a, t, rt, name):
    st.observed.append((ex.cstr(st, a[0]), a[1]))


@h('vf_observe_int')
def vf_observe_int(ex, st, a, t, rt, name):
    st.observed.append((ex.cstr(st, a[0]), a[1]))


@h('vf_symbolic')
def vf_symbolic(ex, st, a, t, rt, name):
    return 1


@h('vf_fail')
def vf_fail(ex, st, a, t, rt, name):
    raise Violation(ex.cstr(st, a[0]))


# ---------------------------------------------------------------- allocator
@h('malloc', '_Znwm', '_Znam', '_ZnwmSt11align_val_t', 'fftw_malloc', 'fftwf_malloc')
def malloc(ex, st, a, t, rt, name):
    n = ex.concretize(a[0], 64)
    if n > 1 << 26:
        raise Violation('memory: allocation of %d bytes' % n)
    return ex.alloc(st, n, 'new' if name.startswith('@_Zn') else 'malloc' if name == '@malloc' else 'fftw')


@h('calloc')
def calloc(ex, st, a, t, rt, name):
    n = ex.concretize(a[0], 64) * ex.concretize(a[1], 64)
    return ex.alloc(st, n, 'malloc', zero=True)


@h('realloc')
def realloc(ex, st, a, t, rt, name):
    n = ex.concretize(a[1], 64)
    p = ex.concretize(a[0], 64)
    q = ex.alloc(st, n, 'malloc')
    if p:
        o = ex.find(st, p)
        ex.memcpy(st, q, p, min(n, o.size))
        ex.wobj(st, o).alive = False
    return q


@h('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', 'fftw_free', 'fftwf_free')
def free(ex, st, a, t, rt, name):
    p = ex.concretize(a[0], 64)
    if p == 0:
        return
    o = ex.find(st, p)
    if o is None or o.base != p or o.kind not in ('new', 'malloc', 'fftw'):
        raise Violation('memory: free of a pointer that was not allocated')
    if not o.alive:
        raise Violation('memory: double free')
    want = {'@free': 'malloc', '@fftw_free': 'fftw', '@fftwf_free': 'fftw'}.get(name, 'new')
    if o.kind != want:
        raise Violation('memory: %s object released with %s' % (o.kind, name[1:]))
    ex.wobj(st, o).alive = False


@h('vf_heap_live')
def heap_live(ex, st, a, t, rt, name):
    return sum(1 for o in st.mem.values() if o.kind in ('new', 'malloc', 'fftw') and o.alive)


# ---------------------------------------------------------------- memory functions
@h('memcpy', 'memmove')
def memcpy(ex, st, a, t, rt, name):
    ex.memcpy(st, a[0], a[1], a[2])
    return a[0]


@h('memset')
def memset(ex, st, a, t, rt, name):
    v = a[1] if isinstance(a[1], int) else z3.Extract(7, 0, a[1])
    ex.memset(st, a[0], v, a[2])
    return a[0]


@h('memcmp', 'bcmp')
def memcmp(ex, st, a, t, rt, name):
    n = ex.concretize(a[2], 64)
    if n == 0:
        return 0
    (_, o1, f1), = ex.resolve(st, ex.concretize(a[0], 64), n, 'read')
    (_, o2, f2), = ex.resolve(st, ex.concretize(a[1], 64), n, 'read')
    for i in range(n):
        x, y = ex.byte_at(st, o1, f1 + i), ex.byte_at(st, o2, f2 + i)
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return (1 if x > y else -1) & 0xffffffff
            continue
        x, y = ex.tobv(x, 8), ex.tobv(y, 8)
        if ex.branch(x != y):
            return 1 if ex.branch(z3.UGT(x, y)) else 0xffffffff
    return 0


@h('strlen')
def strlen(ex, st, a, t, rt, name):
    p = ex.concretize(a[0], 64)
    i = 0
    while True:
        (_, o, f), = ex.resolve(st, p + i, 1, 'read')
        b = ex.byte_at(st, o, f)
        if isinstance(b, int):
            if b == 0:
                return i
        elif ex.branch(b == 0):
            return i
        i += 1


@h('memchr')
def memchr(ex, st, a, t, rt, name):
    n = ex.concretize(a[2], 64)
    p = ex.concretize(a[0], 64)
    c = ex.tobv(a[1], 32)
    for i in range(n):
        (_, o, f), = ex.resolve(st, p + i, 1, 'read')
        b = ex.byte_at(st, o, f)
        if ex.branch(z3.simplify(ex.tobv(b, 8) == z3.Extract(7, 0, c))):
            return p + i
    return 0


@h('strcmp')
def strcmp(ex, st, a, t, rt, name):
    p, q = ex.concretize(a[0], 64), ex.concretize(a[1], 64)
    i = 0
    while True:
        (_, o, f), = ex.resolve(st, p + i, 1, 'read')
        x = ex.tobv(ex.byte_at(st, o, f), 8)
        (_, o, f), = ex.resolve(st, q + i, 1, 'read')
        y = ex.tobv(ex.byte_at(st, o, f), 8)
        if ex.branch(z3.simplify(x != y)):
            return 1 if ex.branch(z3.simplify(z3.UGT(x, y))) else 0xffffffff
        if ex.branch(z3.simplify(x == 0)):
            return 0
        i += 1


# ---------------------------------------------------------------- ctype (C locale; UB outside unsigned char and EOF)
def ctype_arg(ex, c, name):
    c = ex.tobv(c, 32)
    ok = z3.And(c >= -1, c <= 255)
    if not ex.branch(z3.simplify(ok)):
        raise Violation('ctype: %s called outside unsigned char/EOF' % name[1:])
    return c


@h('tolower')
def tolower(ex, st, a, t, rt, name):
    c = ctype_arg(ex, a[0], name)
    return simp(z3.If(z3.And(c >= 65, c <= 90), c + 32, c))


@h('toupper')
def toupper(ex, st, a, t, rt, name):
    c = ctype_arg(ex, a[0], name)
    return simp(z3.If(z3.And(c >= 97, c <= 122), c - 32, c))


def simp(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_bv_value(e) else e


def boolint(c):
    return simp(z3.If(c, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))


@h('isspace')
def isspace(ex, st, a, t, rt, name):
    c = ctype_arg(ex, a[0], name)
    return boolint(z3.Or(c == 32, z3.And(c >= 9, c <= 13)))


@h('isdigit')
def isdigit(ex, st, a, t, rt, name):
    c = ctype_arg(ex, a[0], name)
    return boolint(z3.And(c >= 48, c <= 57))


@h('isalpha')
def isalpha(ex, st, a, t, rt, name):
    c = ctype_arg(ex, a[0], name)
    return boolint(z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122)))


@h('isupper')
def isupper(ex, st, a, t, rt, name):
    c = ctype_arg(ex, a[0], name)
    return boolint(z3.And(c >= 65, c <= 90))


@h('islower')
def islower(ex, st, a, t, rt, name):
    c = ctype_arg(ex, a[0], name)
    return boolint(z3.And(c >= 97, c <= 122))


# ---------------------------------------------------------------- C++ runtime
@h('__cxa_guard_acquire')
def guard_acquire(ex, st, a, t, rt, name):
    p = ex.concretize(a[0], 64)
    v = ex.load(st, p, ('i', 8), 1)
    return int(v == 0)


@h('__cxa_guard_release')
def guard_release(ex, st, a, t, rt, name):
    ex.store(st, ex.concretize(a[0], 64), ('i', 8), 1, 1)


@h('__cxa_atexit', '_ZNSt8ios_base4InitC1Ev')
def zero(ex, st, a, t, rt, name):
    return 0


# ---------------------------------------------------------------- nodes of std::list (next at 0, previous at 8)
def link(ex, st, p, off, v=None):
    if v is None:
        return ex.load(st, p + off, ('p',), 8)
    ex.store(st, p + off, ('p',), 8, v)


@h('_ZNSt8__detail15_List_node_base7_M_hookEPS0_')
def list_hook(ex, st, a, t, rt, name):
    n, pos = ex.concretize(a[0], 64), ex.concretize(a[1], 64)
    before = link(ex, st, pos, 8)
    link(ex, st, n, 0, pos)
    link(ex, st, n, 8, before)
    link(ex, st, before, 0, n)
    link(ex, st, pos, 8, n)


@h('_ZNSt8__detail15_List_node_base9_M_unhookEv')
def list_unhook(ex, st, a, t, rt, name):
    n = ex.concretize(a[0], 64)
    after, before = link(ex, st, n, 0), link(ex, st, n, 8)
    link(ex, st, before, 0, after)
    link(ex, st, after, 8, before)


@h('__cxa_pure_virtual', 'abort', '_ZSt9terminatev', 'exit', '__assert_fail', '__clang_call_terminate')
def die(ex, st, a, t, rt, name):
    raise Violation('control flow: %s called' % name[1:])


@h('vf_expect_throw')
def vf_expect_throw(ex, st, a, t, rt, name):
    st.names['<expect-throw>'] = 1


def expected(ex, st):
    nrm = None
    top = st.frames[-1]
    if top.idx < len(top.ins) and top.ins[top.idx][0] == 'call':
        nrm = top.ins[top.idx][-1]
    for fr in reversed(st.frames):
        if fr.f.nounwind or (nrm is not None and nrm in fr.f.ends):
            raise Violation('control flow: an exception ends the program')
        nrm = fr.nrm
    if st.names.get('<expect-throw>'):
        ex.reached['<end>'] = ex.reached.get('<end>', 0) + 1
        raise PathEnd()


def throws(ex, st, a, t, rt, name):
    expected(ex, st)
    raise Violation('exception: %s' % re.sub(r'^_ZSt\d+__throw_(\w+?)(PKc.*|v|i|m)?$', r'\1', name[1:]))


@h('__cxa_allocate_exception')
def alloc_exc(ex, st, a, t, rt, name):
    expected(ex, st)
    raise Violation('exception: thrown in ' + st.frames[-1].f.name)


@h('__cxa_throw', '__cxa_rethrow')
def cxa_throw(ex, st, a, t, rt, name):
    expected(ex, st)
    raise Violation('exception: thrown in ' + st.frames[-1].f.name)


# ---------------------------------------------------------------- libm
LIBM1 = ['sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'exp2',
         'exp10', 'expm1', 'log', 'log2', 'log10', 'log1p', 'sqrt', 'cbrt', 'floor', 'ceil', 'trunc', 'round', 'rint',
         'nearbyint', 'fabs', 'erf', 'erfc']
LIBM2 = ['pow', 'fmod', 'remainder', 'hypot', 'atan2', 'copysign', 'fmax', 'fmin']


def mk(fn, w):
    def g(ex, st, a, t, rt, name):
        return ex.dom.fn(fn, a, w, ex)
    return g


for _n in LIBM1 + LIBM2 + ['fma']:
    H['@' + _n] = mk(_n, 64)
    H['@' + _n + 'f'] = mk(_n, 32)


@h('lround', 'llround', 'lrint', 'llrint', 'lroundf', 'lrintf')
def lround(ex, st, a, t, rt, name):
    f = 'round' if 'round' in name else 'rint'
    return ex.dom.to_int(ex.dom.fn(f, a, 64, ex), True, 64, ex)


@h('nextafter', 'nextafterf')
def nextafter(ex, st, a, t, rt, name):
    if not all(isinstance(x, (int, float, Fraction)) for x in a):
        raise Unsupported('nextafter of a symbolic number')
    x, y = float(a[0]), float(a[1])
    if name == '@nextafter':
        return math.nextafter(x, y)
    bits = lambda v: struct.unpack('<i', struct.pack('<f', v))[0]
    if x == y or x != x or y != y:
        return y
    if x == 0:
        return math.copysign(2.0 ** -149, y)
    return struct.unpack('<f', struct.pack('<i', bits(x) + (1 if (y > x) == (x > 0) else -1)))[0]


@h('ldexp', 'scalbn')
def ldexp(ex, st, a, t, rt, name):
    k = sext(ex.concretize(a[1], 32), 32)
    return ex.dom.bin('fmul', a[0], 2.0 ** k, 64, ex)


@h('cabs', 'cabsf')
def cabs(ex, st, a, t, rt, name):
    if len(a) == 1:  # <2 x float>
        a = list(a[0])
    return ex.dom.fn('hypot', a, 64 if name == '@cabs' else 32, ex)


@h('carg')
def carg(ex, st, a, t, rt, name):
    return ex.dom.fn('atan2', [a[1], a[0]], 64, ex)


@h('__muldc3', '__mulsc3')
def muldc3(ex, st, x, t, rt, name):
    a, b, c, d = x
    w = 32 if name.endswith('__mulsc3') else 64
    B = lambda o, p, q: ex.dom.bin(o, p, q, w, ex)
    return (B('fsub', B('fmul', a, c), B('fmul', b, d)), B('fadd', B('fmul', a, d), B('fmul', b, c)))


@h('__divdc3', '__divsc3')
def divdc3(ex, st, x, t, rt, name):
    a, b, c, d = x
    w = 32 if name.endswith('__divsc3') else 64
    B = lambda o, p, q: ex.dom.bin(o, p, q, w, ex)
    n = B('fadd', B('fmul', c, c), B('fmul', d, d))
    return (B('fdiv', B('fadd', B('fmul', a, c), B('fmul', b, d)), n),
            B('fdiv', B('fsub', B('fmul', b, c), B('fmul', a, d)), n))


@h('clog')
def clog(ex, st, a, t, rt, name):
    m = ex.dom.fn('hypot', a, 64, ex)
    return (ex.dom.fn('log', [m], 64, ex), ex.dom.fn('atan2', [a[1], a[0]], 64, ex))


@h('cexp')
def cexp(ex, st, a, t, rt, name):
    m = ex.dom.fn('exp', [a[0]], 64, ex)
    B = lambda o, p, q: ex.dom.bin(o, p, q, 64, ex)
    return (B('fmul', m, ex.dom.fn('cos', [a[1]], 64, ex)), B('fmul', m, ex.dom.fn('sin', [a[1]], 64, ex)))


@h('csqrt')
def csqrt(ex, st, a, t, rt, name):
    if isinstance(a[0], float) and isinstance(a[1], float):
        import cmath
        z = cmath.sqrt(complex(a[0], a[1]))
        return (z.real, z.imag)
    d = ex.dom
    B = lambda o, p, q: d.bin(o, p, q, 64, ex)
    # principal square root
    if not isinstance(a[1], float) and ex.branch(a[1] == 0):
        a = (a[0], 0.0)
    if isinstance(a[1], float) and a[1] == 0:
        if ex.branch(d.cmp('olt', a[0], 0.0, ex)):
            return (0.0, math.copysign(1.0, a[1]) * d.fn('sqrt', [d.neg(a[0], 64)], 64, ex))
        return (d.fn('sqrt', [a[0]], 64, ex), 0.0)
    m = d.fn('hypot', a, 64, ex)
    re = d.fn('sqrt', [B('fmul', 0.5, B('fadd', m, a[0]))], 64, ex)
    im = B('fdiv', a[1], B('fmul', 2.0, re))
    return (re, im)


# ---------------------------------------------------------------- intrinsics
LL1 = {'fabs': 'fabs', 'sqrt': 'sqrt', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'round': 'round',
       'rint': 'rint', 'nearbyint': 'nearbyint', 'roundeven': 'roundeven', 'sin': 'sin', 'cos': 'cos', 'exp': 'exp',
       'exp2': 'exp2', 'log': 'log', 'log2': 'log2', 'log10': 'log10', 'pow': 'pow', 'copysign': 'copysign',
       'maxnum': 'maxnum', 'minnum': 'minnum', 'fma': 'fma', 'exp10': 'exp10', 'tan': 'tan'}


def vec(ex, f, a, ty):
    if ty[0] == 'v':
        n = ty[1]
        return tuple(f(*[x[i] for x in a]) for i in range(n))
    return f(*a)


def intr(name):
    p = name[6:].split('.')
    base = p[0]
    if base in LL1:
        fn = LL1[base]
        w = 32 if p[-1].endswith('f32') else 64

        def g(ex, st, a, t, rt, nm):
            return vec(ex, lambda *x: ex.dom.fn(fn, list(x), w, ex), a, rt)
        return g
    if base == 'fmuladd':
        def g(ex, st, a, t, rt, nm):
            w = rt[1] if rt[0] == 'f' else 64
            return vec(ex, lambda x, y, z: ex.dom.bin('fadd', ex.dom.bin('fmul', x, y, w, ex), z, w, ex), a, rt)
        return g
    if base == 'powi':
        def g(ex, st, a, t, rt, nm):
            k = sext(ex.concretize(a[1], 32), 32)
            return ex.dom.fn('pow', [a[0], float(k)], rt[1], ex)
        return g
    if base == 'ldexp':
        return ldexp
    if base in ('memcpy', 'memmove'):
        return memcpy
    if base == 'memset':
        return memset
    if base in ('umax', 'umin', 'smax', 'smin'):
        cc = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[base]

        def g(ex, st, a, t, rt, nm):
            et = ex.mod.res(rt[2]) if rt[0] == 'v' else rt
            return vec(ex, lambda x, y: ex.ite(ex.icmp(cc, et[1], x, y), x, y, et), a[:2], rt)
        return g
    if base == 'abs':
        def g(ex, st, a, t, rt, nm):
            w = rt[1]
            return ex.ite(ex.icmp('slt', w, a[0], 0), ex.ibin('sub', w, 0, a[0]), a[0], rt)
        return g
    if base in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul') and p[1] == 'with':
        def g(ex, st, a, t, rt, nm):
            w = int(p[-1][1:])
            op = base[1:]
            r = ex.ibin(op, w, a[0], a[1])
            W = 2 * w
            c = 'sext' if base[0] == 's' else 'zext'
            x, y = ex.cast(c, ('i', w), a[0], ('i', W)), ex.cast(c, ('i', w), a[1], ('i', W))
            full = ex.ibin(op, W, x, y)
            rr = ex.cast(c, ('i', w), r, ('i', W))
            return (r, ex.icmp('ne', W, full, rr))
        return g
    if base in ('uadd', 'usub', 'sadd', 'ssub') and p[1] == 'sat':
        def g(ex, st, a, t, rt, nm):
            w = rt[1]
            if base == 'usub':
                return ex.ite(ex.icmp('ult', w, a[0], a[1]), 0, ex.ibin('sub', w, a[0], a[1]), rt)
            if base == 'uadd':
                s = ex.ibin('add', w, a[0], a[1])
                return ex.ite(ex.icmp('ult', w, s, a[0]), (1 << w) - 1, s, rt)
            raise Unsupported(nm)
        return g
    if base in ('fshl', 'fshr'):
        def g(ex, st, a, t, rt, nm):
            w = rt[1]
            s = ex.concretize(a[2], w) % w
            if s == 0:
                return a[0] if base == 'fshl' else a[1]
            if base == 'fshr':
                s = w - s
            return ex.ibin('or', w, ex.ibin('shl', w, a[0], s), ex.ibin('lshr', w, a[1], w - s))
        return g
    if base == 'ctpop':
        def g(ex, st, a, t, rt, nm):
            w = rt[1]
            if isinstance(a[0], int):
                return bin(a[0]).count('1')
            x = ex.tobv(a[0], w)
            return z3.simplify(z3.Sum([z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)]))
        return g
    if base in ('ctlz', 'cttz'):
        def g(ex, st, a, t, rt, nm):
            w = rt[1]
            if isinstance(a[0], int):
                if a[0] == 0:
                    return w
                if base == 'ctlz':
                    return w - a[0].bit_length()
                return (a[0] & -a[0]).bit_length() - 1
            x = ex.tobv(a[0], w)
            r = z3.BitVecVal(w, w)
            rng = range(w) if base == 'ctlz' else range(w - 1, -1, -1)
            for i in rng:
                r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i if base == 'ctlz' else i, w), r)
            return z3.simplify(r)
        return g
    if base == 'bswap':
        def g(ex, st, a, t, rt, nm):
            w = rt[1]
            if isinstance(a[0], int):
                return int.from_bytes(a[0].to_bytes(w // 8, 'little'), 'big')
            return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a[0]) for i in range(w // 8)])
        return g
    if base == 'is' and p[1] == 'fpclass':
        def g(ex, st, a, t, rt, nm):
            return ex.dom.isclass(a[0], a[1], ex)
        return g
    if base == 'is' and p[1] == 'constant':
        return lambda ex, st, a, t, rt, nm: 0
    if base == 'expect':
        return lambda ex, st, a, t, rt, nm: a[0]
    if base in ('assume', 'experimental', 'stackrestore', 'donothing', 'prefetch', 'va_start', 'va_end'):
        return lambda ex, st, a, t, rt, nm: None
    if base == 'stacksave':
        return lambda ex, st, a, t, rt, nm: 0
    if base == 'objectsize':
        return lambda ex, st, a, t, rt, nm: M64
    if base == 'trap':
        return die
    if base == 'vector' and p[1] == 'reduce':
        op = p[2]

        def g(ex, st, a, t, rt, nm):
            if op in ('fadd', 'fmul'):
                r = a[0]
                for x in a[1]:
                    r = ex.dom.bin(op, r, x, rt[1], ex)
                return r
            r = a[0][0]
            for x in a[0][1:]:
                r = ex.ibin(op, rt[1], r, x)
            return r
        return g
    return None


def lookup(name):
    f = H.get(name)
    if f is not None:
        return f
    if name.startswith('@llvm.'):
        f = intr(name)
    elif name.startswith('@_ZSt') and '__throw_' in name:
        f = throws
    if f is not None:
        H[name] = f
    return f
