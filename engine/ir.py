"""Parser for the textual LLVM IR (clang 18, opaque pointers) of the harness + the eDSP code it instantiates."""
import re, struct

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<glob>@(?:[\w.$-]+|"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"))
 | (?P<loc>%(?:[\w.$-]+|"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"))
 | (?P<meta>![\w.$-]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+(?![\w.$]))
 | (?P<id>\$?[A-Za-z_\d][\w.$-]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
 | (?P<ws>\s+)
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError('cannot tokenize: %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        out.append((k, m.group()))
    return out


def strip_comment(line):
    if ';' not in line:
        return line
    q = False
    for i, c in enumerate(line):
        if c == '"':
            q = not q
        elif c == ';' and not q:
            return line[:i]
    return line


class P:
    """token cursor"""
    __slots__ = ('t', 'i')

    def __init__(self, t):
        self.t = t
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        g = self.next()
        if g != v:
            raise IRError('expected %r got %r in %s' % (v, g, ' '.join(x[1] for x in self.t)))

    def eof(self):
        return self.i >= len(self.t)


FLOATS = {'float': 32, 'double': 64, 'half': 16, 'x86_fp80': 80, 'fp128': 128}
PARAM_ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'noalias', 'zeroext', 'signext', 'returned',
               'immarg', 'inreg', 'readnone', 'nofree', 'nest', 'swiftself', 'swifterror', 'allocptr', 'allocalign',
               'writable', 'dead_on_unwind', 'inalloca'}
PAREN_ATTRS = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'align',
               'nofpclass', 'memory', 'preallocated', 'captures', 'range', 'initializes'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'reassoc', 'afn'}
LINKAGE = {'private', 'internal', 'linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'external', 'common', 'appending',
           'extern_weak', 'available_externally', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
           'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized', 'ccc', 'fastcc', 'coldcc',
           'tailcc'}

VOID = ('void',)
PTR = ('p',)
I1 = ('i', 1)


class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'entry', 'addr', 'varargs', 'nins', 'nounwind', 'ends')

    def __init__(self, name, ret, params, varargs):
        self.name, self.ret, self.params, self.varargs = name, ret, params, varargs
        self.blocks = None
        self.entry = None
        self.addr = None
        self.nins = 0
        self.nounwind = False   # an exception must not leave it
        self.ends = ()          # normal labels of the invokes whose exceptions end the program


class Global:
    __slots__ = ('name', 'ty', 'init_toks', 'const', 'addr', 'size', 'init', 'align')


class Module:
    GAP = 1 << 20

    def __init__(self, text):
        self.named = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self.szcache = {}
        self.next_addr = 0x100000000
        self.addr_of = {}
        self.func_at = {}
        self.parse(text)

    # ---- types
    def ptype(self, p):
        t = p.next()
        if t == 'void':
            r = VOID
        elif t == 'ptr':
            r = PTR
            if p.peek() == 'addrspace':
                p.i += 4
        elif t in FLOATS:
            r = ('f', FLOATS[t])
        elif t[0] == 'i' and t[1:].isdigit():
            r = ('i', int(t[1:]))
        elif t[0] == '%':
            r = ('n', t)
        elif t == '[':
            n = int(p.next())
            p.expect('x')
            e = self.ptype(p)
            p.expect(']')
            r = ('a', n, e)
        elif t == '{':
            r = ('s', tuple(self._tylist(p, '}')), False)
        elif t == '<':
            if p.peek() == '{':
                p.next()
                l = self._tylist(p, '}')
                p.expect('>')
                r = ('s', tuple(l), True)
            else:
                n = int(p.next())
                p.expect('x')
                e = self.ptype(p)
                p.expect('>')
                r = ('v', n, e)
        elif t in ('label', 'metadata', 'token', 'opaque'):
            r = (t,)
        else:
            raise IRError('type? %r in %s' % (t, ' '.join(x[1] for x in p.t)))
        while p.peek() == '(' or p.peek() == '*':
            if p.peek() == '*':
                p.next()
                r = PTR
                continue
            # function type: skip
            d = 0
            while True:
                x = p.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
            r = ('fn', r)
        return r

    def _tylist(self, p, end):
        l = []
        if p.accept(end):
            return l
        while True:
            l.append(self.ptype(p))
            if p.accept(end):
                return l
            p.expect(',')

    def res(self, t):
        while t[0] == 'n':
            t = self.named[t[1]]
        return t

    def align(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if k == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
        if k == 'p':
            return 8
        if k == 'a':
            return self.align(t[2])
        if k == 's':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] or [1])
        if k == 'v':
            s = self.size(t)
            a = 1
            while a < s:
                a *= 2
            return a
        return 1

    def size(self, t):
        r = self.szcache.get(t)
        if r is None:
            r = self.szcache[t] = self._size(self.res(t))
        return r

    def _size(self, t):
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
        if k == 'p':
            return 8
        if k == 'a':
            return t[1] * self.size(t[2])
        if k == 'v':
            e = self.res(t[2])
            if e == I1:
                return (t[1] + 7) // 8
            return t[1] * self.size(t[2])
        if k == 's':
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    o = (o + a - 1) // a * a
                o += self.size(x)
            a = self.align(t)
            return (o + a - 1) // a * a
        if k in ('opaque', 'fn', 'void'):
            return 1
        raise IRError('size of %r' % (t,))

    def offset(self, t, i):
        t = self.res(t)
        o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x)
                o = (o + a - 1) // a * a
            if j == i:
                return o
            o += self.size(x)
        raise IRError('offset')

    # ---- constants
    def const(self, p, ty):
        """parse a constant of type ty (cursor on it) -> python value"""
        t = p.next()
        rt = self.res(ty)
        if t in ('zeroinitializer', 'undef', 'poison', 'null', 'none'):
            return self.zero(rt)
        if t == 'true':
            return 1
        if t == 'false':
            return 0
        k = rt[0]
        if t[0] == '@':
            return self.gaddr(t)
        if t[0] == 'c' and t[1:2] == '"':
            return tuple(self.unescape(t[2:-1]))
        if t == 'getelementptr':
            p.accept('inbounds')
            p.expect('(')
            ety = self.ptype(p)
            p.expect(',')
            self.ptype(p)
            base = self.const(p, PTR)
            idx = []
            while p.accept(','):
                p.accept('inrange')
                it = self.ptype(p)
                idx.append(self.const(p, it))
            p.expect(')')
            return base + self.gepoff(ety, idx)
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            p.expect('(')
            st = self.ptype(p)
            v = self.const(p, st)
            p.expect('to')
            dt = self.ptype(p)
            p.expect(')')
            if dt[0] == 'i':
                v &= (1 << dt[1]) - 1
            return v
        if t in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'icmp', 'select'):
            while p.peek() in ('nuw', 'nsw', 'exact', 'inbounds', 'eq', 'ne'):
                cc = p.next()
            p.expect('(')
            a_t = self.ptype(p)
            a = self.const(p, a_t)
            p.expect(',')
            b_t = self.ptype(p)
            b = self.const(p, b_t)
            p.expect(')')
            if t == 'icmp':
                return int((a == b) == (cc == 'eq'))
            m = (1 << (a_t[1] if a_t[0] == 'i' else 64)) - 1
            return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b,
                    'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b,
                    'lshr': lambda: a >> b}[t]() & m
        if t == '[':
            return tuple(self._constlist(p, ']'))
        if t == '{':
            return tuple(self._constlist(p, '}'))
        if t == '<':
            if p.accept('{'):
                r = tuple(self._constlist(p, '}'))
                p.expect('>')
                return r
            return tuple(self._constlist(p, '>'))
        if k == 'f':
            if t.startswith('0x'):
                if t[2] in 'KLMHR':
                    return self._x87(t)
                return struct.unpack('<d', struct.pack('<Q', int(t, 16)))[0]
            return float(t)
        if k == 'i':
            return int(t) & ((1 << rt[1]) - 1)
        raise IRError('const %r of %r' % (t, ty))

    def _x87(self, t):
        if t[2] == 'K':
            b = int(t[3:], 16)
            se = b >> 64
            m = b & ((1 << 64) - 1)
            s = -1.0 if se >> 15 else 1.0
            e = se & 0x7fff
            if e == 0x7fff:
                return s * float('inf')
            import math
            try:
                return s * math.ldexp(m, e - 16383 - 63)
            except OverflowError:
                return s * float('inf')
        raise IRError('float const ' + t)

    def _constlist(self, p, end):
        l = []
        if p.accept(end):
            return l
        while True:
            t = self.ptype(p)
            l.append(self.const(p, t))
            if p.accept(end):
                return l
            p.expect(',')

    def unescape(self, s):
        out = []
        i = 0
        while i < len(s):
            if s[i] == '\\':
                if s[i + 1] == '\\':
                    out.append(92)
                    i += 2
                else:
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
            else:
                out.append(ord(s[i]))
                i += 1
        return out

    def zero(self, t):
        t = self.res(t)
        k = t[0]
        if k in ('i', 'p'):
            return 0
        if k == 'f':
            return 0.0
        if k in ('a', 'v'):
            z = self.zero(t[2])
            return (z,) * t[1]
        if k == 's':
            return tuple(self.zero(x) for x in t[1])
        if k in ('token', 'metadata', 'label'):
            return 0
        raise IRError('zero %r' % (t,))

    def gepoff(self, ety, idx):
        off = self.sx(idx[0]) * self.size(ety)
        t = self.res(ety)
        for i in idx[1:]:
            if t[0] == 's':
                off += self.offset(t, i)
                t = self.res(t[1][i])
            else:
                off += self.sx(i) * self.size(t[2])
                t = self.res(t[2])
        return off

    @staticmethod
    def sx(v):
        return v - (1 << 64) if v >> 63 else v

    def gaddr(self, name):
        name = self.aliases.get(name, name)
        a = self.addr_of.get(name)
        if a is None:
            raise IRError('unknown global ' + name)
        return a

    def alloc_addr(self, size):
        a = self.next_addr
        self.next_addr = (a + size + self.GAP + 63) // 64 * 64
        return a

    # ---- module
    def parse(self, text):
        lines = text.split('\n')
        n = len(lines)
        i = 0
        bodies = []
        glines = []
        while i < n:
            ln = lines[i]
            if ln.startswith('%'):
                name, rest = ln.split(' = type ', 1)
                self.named[name] = rest
            elif ln.startswith('@'):
                glines.append(strip_comment(ln))
            elif ln.startswith('define '):
                j = i
                while lines[j] != '}':
                    j += 1
                bodies.append((i, j))
                i = j
            elif ln.startswith('declare '):
                bodies.append((i, None))
            i += 1
        for k, v in list(self.named.items()):
            self.named[k] = ('opaque',) if v.strip() == 'opaque' else self.ptype(P(tokenize(v)))
        pend = []
        aliases = []
        for ln in glines:
            p = P(tokenize(ln))
            name = p.next()
            p.expect('=')
            al = False
            while True:
                t = p.peek()
                if t in LINKAGE:
                    p.next()
                    if p.peek() == '(':
                        while p.next() != ')':
                            pass
                elif t in ('alias', 'ifunc'):
                    al = True
                    p.next()
                    break
                elif t in ('global', 'constant'):
                    isconst = t == 'constant'
                    p.next()
                    break
                else:
                    raise IRError('global: ' + ln)
            if al:
                self.ptype(p)
                p.expect(',')
                self.ptype(p)
                aliases.append((name, p.next()))
                continue
            g = Global()
            g.name = name
            g.ty = self.ptype(p)
            g.const = isconst
            g.size = self.size(g.ty)
            g.init_toks = None
            if not p.eof() and p.peek() != ',':
                g.init_toks = p
            g.addr = self.alloc_addr(g.size)
            self.addr_of[name] = g.addr
            self.globals[name] = g
            pend.append(g)
        for a, b in aliases:
            self.aliases[a] = b
        fdefs = []
        nounwind = {m.group(1) for ln in lines if ln.startswith('attributes ') and ' nounwind ' in ln
                    for m in [re.match(r'attributes (#\d+) =', ln)]}
        for (i, j) in bodies:
            f = self.fheader(strip_comment(lines[i]) if j is None else lines[i])
            if j is not None:
                f.nounwind = any(a in nounwind for a in re.findall(r'#\d+', lines[i].rsplit(')', 1)[-1])) or ' nounwind' in lines[i].rsplit(')', 1)[-1]
            f.addr = self.alloc_addr(1)
            self.addr_of[f.name] = f.addr
            self.func_at[f.addr] = f
            self.funcs[f.name] = f
            if j is not None:
                fdefs.append((f, lines[i + 1:j]))
        for a, b in aliases:
            if b in self.funcs:
                self.funcs[a] = self.funcs[b]
        for g in pend:
            g.init = self.const(g.init_toks, g.ty) if g.init_toks else None
            g.init_toks = None
        self.lazy = {}
        for f, body in fdefs:
            f.blocks = {}
            self.lazy[f.name] = body

    def body(self, f):
        b = self.lazy.pop(f.name, None)
        if b is not None:
            self.fbody(f, b)
        return f

    def skip_attrs(self, p):
        while True:
            t = p.peek()
            if t in PARAM_ATTRS:
                p.next()
            elif t in PAREN_ATTRS:
                p.next()
                if p.peek() == '(':
                    d = 0
                    while True:
                        x = p.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                elif t == 'align':
                    p.next()
            elif t is not None and p.kind() == 'str':
                p.next()
                if p.accept('='):
                    p.next()
            else:
                return

    def fheader(self, ln):
        p = P(tokenize(ln.rstrip('{ ')))
        p.next()
        while p.peek() in LINKAGE:
            p.next()
        self.skip_attrs(p)
        ret = self.ptype_noparen(p)
        name = p.next()
        p.expect('(')
        params = []
        va = False
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    va = True
                else:
                    t = self.ptype(p)
                    self.skip_attrs(p)
                    nm = p.next() if p.kind() == 'loc' else None
                    params.append((t, nm))
                if p.accept(')'):
                    break
                p.expect(',')
        return Func(name, ret, params, va)

    def ptype_noparen(self, p):
        # like ptype but a following '(' is not a function type when it is after the name
        return self.ptype(p)

    LABEL = re.compile(r'^([\w.$-]+|"[^"]*"):')

    def find_ends(self, f, lines):
        pads, cur, null = set(), None, False
        for ln in lines:
            m = self.LABEL.match(ln)
            if m:
                cur, null = '%' + m.group(1), False
            elif re.match(r'\s+catch ptr null', ln):
                null = True
            elif null and '@__clang_call_terminate(' in ln:
                pads.add(cur)
        good, bad = set(), set()
        for ln in lines:
            if ' unwind label ' in ln:
                m = re.search(r'to label (%[\w.$-]+|%"[^"]*") unwind label (%[\w.$-]+|%"[^"]*")', ln)
                if m:
                    (bad if m.group(2) in pads else good).add(m.group(1))
        f.ends = frozenset(bad - good)

    def fbody(self, f, lines):
        cur = None
        if any('__clang_call_terminate' in ln for ln in lines):
            self.find_ends(f, lines)
        i = 0
        n = len(lines)
        blocks = f.blocks
        # implicit entry label: number of unnamed params
        ent = '%' + str(len(f.params))
        while i < n:
            ln = strip_comment(lines[i])
            i += 1
            if not ln.strip():
                continue
            if not ln.startswith(' '):
                m = self.LABEL.match(ln)
                if m:
                    nm = '%' + m.group(1)
                    cur = blocks[nm] = []
                    if f.entry is None:
                        f.entry = nm
                    continue
            if cur is None:
                cur = blocks[ent] = []
                f.entry = ent
            s = ln.strip()
            if s.startswith('switch ') or ' switch ' in s[:0]:
                while ']' not in s:
                    s += ' ' + strip_comment(lines[i]).strip()
                    i += 1
            elif 'invoke ' in s:
                while ' unwind label ' not in s:
                    s += ' ' + strip_comment(lines[i]).strip()
                    i += 1
            elif 'landingpad' in s:
                while i < n and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                    i += 1
                s = s.split('landingpad')[0] + 'landingpad'
            ins = self.inst(s)
            if ins is not None:
                cur.append(ins)
                f.nins += 1

    def operand(self, p, ty):
        if p.kind() == 'loc':
            return (True, p.next())
        if p.kind() == 'meta':
            while not p.eof() and p.peek() not in (',', ')'):
                p.next()
            return (False, 0)
        return (False, self.const(p, ty))

    def tyop(self, p):
        t = self.ptype(p)
        self.skip_attrs(p)
        return t, self.operand(p, t)

    def inst(self, s):
        p = P(tokenize(s))
        dst = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            dst = p.next()
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'alloca':
            p.accept('inalloca')
            t = self.ptype(p)
            cnt = (False, 1)
            while p.accept(','):
                if p.peek() == 'align':
                    p.next(); p.next()
                elif p.peek() == 'addrspace':
                    p.i += 4
                else:
                    ct, cnt = self.tyop(p)
            return ('alloca', dst, self.size(t), cnt)
        if op == 'load':
            while p.peek() in ('atomic', 'volatile'):
                p.next()
            t = self.ptype(p)
            p.expect(',')
            _, a = self.tyop(p)
            return ('load', dst, self.res(t), a, self.size(t))
        if op == 'store':
            while p.peek() in ('atomic', 'volatile'):
                p.next()
            t, v = self.tyop(p)
            p.expect(',')
            _, a = self.tyop(p)
            return ('store', None, self.res(t), v, a, self.size(t))
        if op == 'getelementptr':
            p.accept('inbounds')
            ety = self.ptype(p)
            p.expect(',')
            bt, base = self.tyop(p)
            idx = []
            while p.accept(','):
                if p.kind() == 'meta':
                    break
                it, iv = self.tyop(p)
                idx.append((self.res(it), iv))
            # precompute: list of (scale, operand, width) + const
            c = 0
            var = []
            t = ety
            for k, (it, iv) in enumerate(idx):
                if k == 0:
                    sc = self.size(ety)
                    t = self.res(ety)
                elif t[0] == 's':
                    c += self.offset(t, iv[1])
                    t = self.res(t[1][iv[1]])
                    continue
                else:
                    sc = self.size(t[2])
                    t = self.res(t[2])
                if iv[0]:
                    var.append((sc, iv, it[1] if it[0] == 'i' else 64))
                else:
                    v = iv[1]
                    w = it[1]
                    if v >> (w - 1):
                        v -= 1 << w
                    c += sc * v
            return ('gep', dst, base, c, tuple(var))
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                p.next()
            t, a = self.tyop(p)
            p.expect(',')
            b = self.operand(p, t)
            t = self.res(t)
            return ('bin', dst, op, t, a, b)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in FMF:
                p.next()
            t, a = self.tyop(p)
            p.expect(',')
            b = self.operand(p, t)
            return ('fbin', dst, op, self.res(t), a, b)
        if op == 'fneg':
            while p.peek() in FMF:
                p.next()
            t, a = self.tyop(p)
            return ('fneg', dst, self.res(t), a)
        if op in ('icmp', 'fcmp'):
            while p.peek() in FMF:
                p.next()
            cc = p.next()
            t, a = self.tyop(p)
            p.expect(',')
            b = self.operand(p, t)
            return (op, dst, cc, self.res(t), a, b)
        if op == 'select':
            while p.peek() in FMF:
                p.next()
            ct, c = self.tyop(p)
            p.expect(',')
            t, a = self.tyop(p)
            p.expect(',')
            _, b = self.tyop(p)
            return ('select', dst, self.res(t), c, a, b, self.res(ct))
        if op == 'phi':
            while p.peek() in FMF:
                p.next()
            t = self.ptype(p)
            inc = {}
            while True:
                p.expect('[')
                v = self.operand(p, t)
                p.expect(',')
                inc[p.next()] = v
                p.expect(']')
                if not p.accept(','):
                    break
                if p.kind() == 'meta':
                    break
            return ('phi', dst, inc)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return ('jmp', None, p.next())
            t, c = self.tyop(p)
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            b = p.next()
            return ('br', None, c, a, b)
        if op == 'switch':
            t, v = self.tyop(p)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = self.ptype(p)
                cv = self.const(p, ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv, p.next()))
            return ('switch', None, self.res(t), v, d, cases)
        if op == 'ret':
            if p.peek() == 'void':
                return ('ret', None, None, None)
            t, v = self.tyop(p)
            return ('ret', None, t, v)
        if op in ('call', 'invoke'):
            while p.peek() in FMF or p.peek() in LINKAGE:
                p.next()
            self.skip_attrs(p)
            rt = self.ptype(p)
            if rt[0] == 'fn':
                rt = rt[1]
            if p.kind() == 'glob':
                nm = p.next()
                callee = (False, self.aliases.get(nm, nm))
            elif p.kind() == 'loc':
                callee = (True, p.next())
            elif p.peek() == 'asm':
                return ('unsupported', dst, 'inline asm')
            else:
                v = self.const(p, PTR)
                fn = self.func_at.get(v)
                if fn is None:
                    return ('unsupported', dst, 'call to constant')
                callee = (False, fn.name)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    t = self.ptype(p)
                    self.skip_attrs(p)
                    if t[0] == 'metadata':
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            x = p.next()
                            d += x == '('
                            d -= x == ')'
                        args.append((t, (False, 0)))
                    else:
                        args.append((self.res(t), self.operand(p, t)))
                    if p.accept(')'):
                        break
                    p.expect(',')
            nrm = None
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next()
                p.expect('label')
                nrm = p.next()
            if not callee[0]:
                b = callee[1]
                if b.startswith('@llvm.lifetime') or b.startswith('@llvm.dbg') or b in (
                        '@llvm.assume', '@llvm.experimental.noalias.scope.decl', '@llvm.invariant.start.p0'):
                    return None
            return ('call', dst, callee, args, self.res(rt) if rt != VOID else VOID, nrm)
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'ptrtoint',
                  'inttoptr', 'bitcast', 'addrspacecast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t, v = self.tyop(p)
            p.expect('to')
            d = self.ptype(p)
            return ('cast', dst, op, self.res(t), v, self.res(d))
        if op == 'extractvalue':
            t, v = self.tyop(p)
            idx = []
            while p.accept(','):
                if p.kind() != 'num':
                    break
                idx.append(int(p.next()))
            return ('extractvalue', dst, v, idx)
        if op == 'insertvalue':
            t, v = self.tyop(p)
            p.expect(',')
            et, e = self.tyop(p)
            idx = []
            while p.accept(','):
                if p.kind() != 'num':
                    break
                idx.append(int(p.next()))
            return ('insertvalue', dst, v, e, idx)
        if op == 'extractelement':
            t, v = self.tyop(p)
            p.expect(',')
            _, i = self.tyop(p)
            return ('extractelement', dst, v, i)
        if op == 'insertelement':
            t, v = self.tyop(p)
            p.expect(',')
            _, e = self.tyop(p)
            p.expect(',')
            _, i = self.tyop(p)
            return ('insertelement', dst, v, e, i)
        if op == 'shufflevector':
            t, a = self.tyop(p)
            p.expect(',')
            _, b = self.tyop(p)
            p.expect(',')
            mt, m = self.tyop(p)
            return ('shufflevector', dst, a, b, m[1])
        if op == 'freeze':
            t, v = self.tyop(p)
            return ('freeze', dst, v)
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'landingpad':
            return ('landingpad', dst)
        if op == 'resume':
            return ('resume', None)
        if op == 'fence':
            return None
        if op in ('atomicrmw', 'cmpxchg'):
            return ('unsupported', dst, op)
        raise IRError('instruction: ' + s)
