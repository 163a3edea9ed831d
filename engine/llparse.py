"""Parser for the subset of textual LLVM IR that rustc emits.

Only syntax lives here.  Functions are split out of the module eagerly and
parsed on demand, because a harness reaches a small part of the ~1000
functions (std included) that survive link-time optimisation.
"""
import re

TOK = re.compile(r'''
    (?P<loc>%"[^"]*"|%[\w.$\-]+)
  | (?P<glob>@"[^"]*"|@[\w.$\-]+)
  | (?P<cstr>c"(?:[^"\\]|\\.)*")
  | (?P<str>"[^"]*")
  | (?P<attr>\#\d+)
  | (?P<meta>!"[^"]*"|![\w.]*)
  | (?P<num>[+-](?:inf|qnan|s?nan\(0x[0-9A-Fa-f]+\))|f0x[0-9A-Fa-f]+|0x[KLMHR]?[0-9A-Fa-f]+|[-+]?\d+\.\d+(?:e[+-]?\d+)?|-?\d+(?![\w.]))
  | (?P<word>[A-Za-z_][\w.]*)
  | (?P<dots>\.\.\.)
  | (?P<p>[(){}\[\]<>,=*:|])
  | (?P<ws>\s+)
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise ParseError("cannot tokenize: %r at %r" % (s[:200], s[i:i + 40]))
        i = m.end()
        if m.lastgroup == 'ws':
            continue
        out.append((m.lastgroup, m.group()))
    return out


INT = {}


def ity(n):
    t = INT.get(n)
    if t is None:
        t = INT[n] = ('i', n)
    return t


PTR = ('ptr',)
VOID = ('void',)
F32 = ('f', 32)
F64 = ('f', 64)
LABEL = ('label',)
META = ('metadata',)


def align_of(t):
    k = t[0]
    if k == 'i':
        n = (t[1] + 7) // 8
        a = 1
        while a < n and a < 16:
            a *= 2
        return a
    if k == 'ptr':
        return 8
    if k == 'f':
        return t[1] // 8
    if k == 'arr':
        return align_of(t[2])
    if k == 'vec':
        n = size_of(t)
        a = 1
        while a < n:
            a *= 2
        return a
    if k == 'st':
        if t[2]:
            return 1
        return max([align_of(x) for x in t[1]] or [1])
    raise ParseError("align_of %r" % (t,))


def size_of(t):
    """Allocation size in bytes."""
    k = t[0]
    if k == 'i':
        n = (t[1] + 7) // 8
        a = align_of(t)
        return (n + a - 1) // a * a
    if k == 'ptr':
        return 8
    if k == 'f':
        return t[1] // 8
    if k == 'arr':
        return t[1] * size_of(t[2])
    if k == 'vec':
        et = t[2]
        bits = t[1] * (et[1] if et[0] in 'if' else 64)
        return (bits + 7) // 8
    if k == 'st':
        off = 0
        for x in t[1]:
            if not t[2]:
                a = align_of(x)
                off = (off + a - 1) // a * a
            off += size_of(x)
        if not t[2]:
            a = align_of(t)
            off = (off + a - 1) // a * a
        return off
    raise ParseError("size_of %r" % (t,))


def field_offset(t, i):
    if t[0] == 'arr' or t[0] == 'vec':
        return i * size_of(t[2])
    off = 0
    for j, x in enumerate(t[1]):
        if not t[2]:
            a = align_of(x)
            off = (off + a - 1) // a * a
        if j == i:
            return off
        off += size_of(x)
    raise ParseError("field_offset")


ATTR_WORDS = {
    'noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone',
    'writeonly', 'nofree', 'nest', 'returned', 'inreg', 'immarg', 'allocptr', 'allocalign',
    'swiftself', 'swifterror', 'dead_on_unwind', 'writable', 'noext', 'dead_on_return',
}
ATTR_PAREN = {
    'captures', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'range',
    'initializes', 'memory', 'align', 'alignstack', 'preallocated', 'inalloca', 'elementtype',
    'nofpclass', 'allocsize', 'dead_on_return',
}
CC = {'fastcc', 'coldcc', 'ccc', 'preserve_mostcc', 'preserve_allcc', 'tailcc', 'swiftcc'}
FASTMATH = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}
CEXPR = {'getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'add', 'sub',
         'mul', 'xor', 'and', 'or', 'shl', 'addrspacecast', 'ptrtoaddr'}


class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def pv(self, k=0):
        return self.peek(k)[1]

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def eat(self, v):
        if self.pv() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise ParseError("expected %r got %r in %r" % (v, self.t[self.i:self.i + 5], ' '.join(x[1] for x in self.t)[:300]))

    def done(self):
        return self.i >= len(self.t)

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'attr':
                self.i += 1
            elif k == 'str':
                self.i += 1
                if self.pv() == '=':
                    self.i += 2
            elif v in ATTR_PAREN:
                self.i += 1
                if self.pv() == '(':
                    self.skip_parens()
                elif v in ('align', 'alignstack') and self.peek()[0] == 'num':
                    self.i += 1
            elif v in ATTR_WORDS:
                self.i += 1
            else:
                return

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                t = PTR
                if self.pv() == 'addrspace':
                    self.i += 1
                    self.skip_parens()
            elif v == 'void':
                t = VOID
            elif v == 'float':
                t = F32
            elif v == 'double':
                t = F64
            elif v == 'label':
                t = LABEL
            elif v == 'metadata':
                t = META
            elif v == 'x86_fp80' or v == 'half' or v == 'fp128' or v == 'bfloat':
                t = ('f', {'x86_fp80': 80, 'half': 16, 'bfloat': 16, 'fp128': 128}[v])
            elif v[0] == 'i' and v[1:].isdigit():
                t = ity(int(v[1:]))
            elif v == 'opaque' or v == 'token':
                t = ('opaque',)
            else:
                raise ParseError("type? %r in %r" % (v, ' '.join(x[1] for x in self.t)[:300]))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '<':
            if self.pv() == '{':
                self.i += 1
                fs = self._fields('}')
                self.expect('>')
                t = ('st', tuple(fs), True)
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif v == '{':
            t = ('st', tuple(self._fields('}')), False)
        elif k == 'loc':
            t = self.mod.named_type(v)
        else:
            raise ParseError("type? %r in %r" % (v, ' '.join(x[1] for x in self.t)[:300]))
        # function type: T (args)
        if self.pv() == '(' and self._is_fnty():
            self.skip_parens()
            t = ('fn', t)
        return t

    def _is_fnty(self):
        # only after a type in a call: 'T (' types ')' '@callee'
        j = self.i
        d = 0
        while j < len(self.t):
            v = self.t[j][1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    nxt = self.t[j + 1] if j + 1 < len(self.t) else (None, None)
                    return nxt[0] in ('glob', 'loc')
            j += 1
        return False

    def _fields(self, close):
        fs = []
        if self.eat(close):
            return fs
        while True:
            fs.append(self.type())
            if self.eat(close):
                return fs
            self.expect(',')

    def value(self, t):
        """Operand of type t -> ('reg',name) | ('c', const)"""
        k, v = self.peek()
        if k == 'loc':
            self.i += 1
            return ('reg', v)
        return ('c', self.const(t))

    def const(self, t):
        k, v = self.next()
        if k == 'num':
            if t[0] == 'f':
                return ('float', v)
            if v.startswith('0x'):
                return ('int', int(v, 16))
            return ('int', int(v))
        if k == 'glob':
            return ('glob', v)
        if k == 'cstr':
            return ('bytes', cstr(v))
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v == 'null':
            return ('int', 0)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer' or v == 'none':
            return ('zero',)
        if v == 'splat':
            self.expect('(')
            et = self.type()
            c = self.const(et)
            self.expect(')')
            return ('agg', [(et, c)] * t[1])
        if v == '{' or v == '[' or v == '<':
            close = {'{': '}', '[': ']', '<': '>'}[v]
            packed = False
            if v == '<' and self.pv() == '{':
                self.i += 1
                close = '}'
                packed = True
            els = []
            if not self.eat(close):
                while True:
                    et = self.type()
                    els.append((et, self.const(et)))
                    if self.eat(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', els)
        if v in CEXPR:
            while self.pv() != '(':
                self.i += 1
                if self.pv() == 'inrange' and self.pv(1) == '(':
                    self.i += 1
                    self.skip_parens()
            if v == 'getelementptr':
                self.expect('(')
                bt = self.type()
                self.expect(',')
                ops = []
                while True:
                    ot = self.type()
                    ops.append((ot, self.const(ot)))
                    if self.eat(')'):
                        break
                    self.expect(',')
                return ('gep', bt, ops)
            self.expect('(')
            ot = self.type()
            a = self.const(ot)
            if self.eat('to'):
                tt = self.type()
                self.expect(')')
                return ('cast', v, ot, a, tt)
            self.expect(',')
            bt = self.type()
            b = self.const(bt)
            self.expect(')')
            return ('bin', v, ot, a, b)
        if v == 'blockaddress' or v == 'dso_local_equivalent' or v == 'no_cfi':
            raise ParseError("unsupported constant " + v)
        raise ParseError("const? %r in %r" % (v, ' '.join(x[1] for x in self.t)[:400]))


def cstr(v):
    s = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(c))
            i += 1
    return bytes(out)


class Func:
    __slots__ = ('name', 'ret', 'params', 'body', 'blocks', 'order', 'parsed', 'extra')

    def __init__(self, name, ret, params, body):
        self.name = name
        self.ret = ret
        self.params = params
        self.body = body
        self.blocks = None
        self.parsed = False
        self.extra = None


MD_TAIL = re.compile(r',\s*![\w.]+\s+!\d+|,\s*![\w.]+\s+!\{[^}]*\}')


class Module:
    def __init__(self, path):
        self.funcs = {}
        self.globals_txt = {}
        self.types_txt = {}
        self.types = {}
        self.decls = set()
        self.aliases = {}
        self._load(path)

    def _load(self, path):
        cur = None
        body = None
        with open(path, encoding='utf-8', errors='replace') as f:
            for line in f:
                if body is not None:
                    if line[0] == '}':
                        self.funcs[cur[0]] = Func(cur[0], None, cur[1], body)
                        body = None
                    else:
                        body.append(line.rstrip('\n'))
                    continue
                c = line[0]
                if c == 'd':
                    if line.startswith('define'):
                        name = re.search(r'@("[^"]*"|[\w.$\-]+)\(', line).group(1)
                        cur = ('@' + name, line.rstrip('\n'))
                        body = []
                    elif line.startswith('declare'):
                        name = re.search(r'@("[^"]*"|[\w.$\-]+)\(', line).group(1)
                        self.decls.add('@' + name)
                elif c == '@':
                    name, rest = line.split(' = ', 1)
                    if re.match(r'(?:[\w_]+ )*(alias|ifunc) ', rest):
                        self.aliases[name] = rest.strip()
                    else:
                        self.globals_txt[name] = rest.strip()
                elif c == '%':
                    name, rest = line.split(' = ', 1)
                    self.types_txt[name] = rest.strip()

    def named_type(self, v):
        t = self.types.get(v)
        if t is None:
            txt = self.types_txt[v]
            assert txt.startswith('type ')
            t = self.types[v] = P(tokenize(txt[5:]), self).type()
        return t

    # -- globals
    def parse_global(self, name):
        """-> (type, init const or None, is_const, align)"""
        txt = MD_TAIL.sub('', self.globals_txt[name])
        toks = tokenize(txt)
        p = P(toks, self)
        const = None
        while True:
            k, v = p.next()
            if v == 'thread_local':
                if p.pv() == '(':
                    p.skip_parens()
            elif v == 'addrspace':
                p.skip_parens()
            elif v == 'global':
                const = False
                break
            elif v == 'constant':
                const = True
                break
        t = p.type()
        init = None
        if not p.done() and p.pv() != ',':
            init = p.const(t)
        al = 1
        while not p.done():
            if p.next()[1] == 'align':
                al = int(p.next()[1])
        return t, init, const, al

    # -- functions
    def get(self, name):
        f = self.funcs.get(name)
        if f is not None and not f.parsed:
            self._parse_func(f)
        return f

    def _parse_func(self, f):
        hdr = f.params
        # header: define ... RET @name(PARAMS) ...
        i = hdr.index(f.name + '(')
        pre = tokenize(hdr[:i])
        # find return type: last type in pre; parse by skipping words
        pp = P(pre, self)
        pp.i = 1
        while True:
            k, v = pp.peek()
            if v in ('internal', 'private', 'dso_local', 'hidden', 'protected', 'weak', 'weak_odr', 'linkonce',
                     'linkonce_odr', 'external', 'available_externally', 'unnamed_addr', 'local_unnamed_addr') or v in CC:
                pp.i += 1
            elif v == 'cc':
                pp.i += 2
            else:
                j = pp.i
                pp.skip_attrs()
                if pp.i == j:
                    break
        f.ret = pp.type()
        rest = hdr[i + len(f.name):]
        p = P(tokenize(rest[:_match_paren(rest)]), self)
        p.expect('(')
        params = []
        if not p.eat(')'):
            n = 0
            while True:
                if p.pv() == '...':
                    p.i += 1
                    p.expect(')')
                    break
                t = p.type()
                p.skip_attrs()
                if p.peek()[0] == 'loc':
                    nm = p.next()[1]
                else:
                    nm = '%' + str(n)
                params.append((t, nm))
                n += 1
                if p.eat(')'):
                    break
                p.expect(',')
        f.params = params
        # body -> logical lines
        lines = []
        for ln in f.body:
            if not ln or ln.isspace():
                continue
            s = ln.lstrip()
            if s[0] == ';':
                continue
            if ln[0] not in ' \t':
                lines.append(ln)
                continue
            ind = len(ln) - len(s)
            if ind > 2 or s[0] == ']':
                lines[-1] += ' ' + s
            else:
                lines.append(ln)
        blocks = {}
        order = []
        cur = None
        for ln in lines:
            if ln[0] not in ' \t':
                lab = ln[:ln.index(':')] if ln[0] != '"' else ln[:ln.index('":') + 1]
                cur = '%' + lab
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                # unnamed entry block gets the next number
                cur = '%' + str(len([1 for _, nm in params if nm[1:].isdigit()]))
                blocks[cur] = []
                order.append(cur)
            s = ln.strip()
            if s.startswith('#dbg_'):
                continue
            s = MD_TAIL.sub('', s)
            blocks[cur].append(self._parse_instr(s))
        f.blocks = blocks
        f.order = order
        f.body = None
        f.parsed = True

    def _parse_instr(self, s):
        p = P(tokenize(s), self)
        dest = None
        if p.peek()[0] == 'loc' and p.pv(1) == '=':
            dest = p.next()[1]
            p.i += 1
        k, op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            k, op = p.next()
        f = getattr(self, '_i_' + op, None)
        if f is not None:
            return f(p, dest, op)
        if op in BINOPS:
            return self._bin(p, dest, op)
        if op in CASTS:
            return self._cast(p, dest, op)
        return ('unsupported', dest, s)

    def _flags(self, p):
        fl = []
        while p.pv() in FLAGS:
            fl.append(p.next()[1])
        return fl

    def _bin(self, p, dest, op):
        fl = self._flags(p)
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return ('bin', dest, op, t, a, b, fl)

    def _cast(self, p, dest, op):
        self._flags(p)
        t = p.type()
        a = p.value(t)
        p.expect('to')
        tt = p.type()
        return ('cast', dest, op, t, a, tt)

    def _i_fneg(self, p, dest, op):
        self._flags(p)
        t = p.type()
        return ('fneg', dest, t, p.value(t))

    def _i_freeze(self, p, dest, op):
        t = p.type()
        return ('freeze', dest, t, p.value(t))

    def _i_icmp(self, p, dest, op):
        self._flags(p)
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return ('icmp', dest, pred, t, a, b)

    def _i_fcmp(self, p, dest, op):
        self._flags(p)
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return ('fcmp', dest, pred, t, a, b)

    def _i_select(self, p, dest, op):
        self._flags(p)
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        p.type()
        b = p.value(t)
        return ('select', dest, ct, c, t, a, b)

    def _i_load(self, p, dest, op):
        while p.pv() in ('atomic', 'volatile'):
            p.i += 1
        t = p.type()
        p.expect(',')
        pt = p.type()
        return ('load', dest, t, p.value(pt))

    def _i_store(self, p, dest, op):
        while p.pv() in ('atomic', 'volatile'):
            p.i += 1
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt = p.type()
        return ('store', t, v, p.value(pt))

    def _i_alloca(self, p, dest, op):
        t = p.type()
        n = ('c', ('int', 1))
        al = 1
        while p.eat(','):
            if p.pv() == 'align':
                p.i += 1
                al = int(p.next()[1])
            else:
                nt = p.type()
                n = p.value(nt)
        return ('alloca', dest, t, n, al)

    def _i_getelementptr(self, p, dest, op):
        while p.pv() in FLAGS or p.pv() == 'inrange':
            if p.next()[1] == 'inrange':
                p.skip_parens()
        bt = p.type()
        p.expect(',')
        ops = []
        while True:
            t = p.type()
            ops.append((t, p.value(t)))
            if not p.eat(','):
                break
        return ('gep', dest, bt, ops)

    def _i_extractvalue(self, p, dest, op):
        t = p.type()
        a = p.value(t)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()[1]))
        return ('extractvalue', dest, t, a, idx)

    def _i_insertvalue(self, p, dest, op):
        t = p.type()
        a = p.value(t)
        p.expect(',')
        et = p.type()
        e = p.value(et)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()[1]))
        return ('insertvalue', dest, t, a, et, e, idx)

    def _i_extractelement(self, p, dest, op):
        t = p.type()
        a = p.value(t)
        p.expect(',')
        it = p.type()
        return ('extractelement', dest, t, a, p.value(it))

    def _i_insertelement(self, p, dest, op):
        t = p.type()
        a = p.value(t)
        p.expect(',')
        et = p.type()
        e = p.value(et)
        p.expect(',')
        it = p.type()
        return ('insertelement', dest, t, a, e, p.value(it))

    def _i_shufflevector(self, p, dest, op):
        t = p.type()
        a = p.value(t)
        p.expect(',')
        p.type()
        b = p.value(t)
        p.expect(',')
        mt = p.type()
        m = p.const(mt)
        return ('shufflevector', dest, t, a, b, mt, m)

    def _i_br(self, p, dest, op):
        if p.eat('label'):
            return ('br', p.next()[1])
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = p.next()[1]
        p.expect(',')
        p.expect('label')
        b = p.next()[1]
        return ('condbr', c, a, b)

    def _i_switch(self, p, dest, op):
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1]
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            c = p.const(ct)
            p.expect(',')
            p.expect('label')
            cases.append((c[1], p.next()[1]))
        return ('switch', t, v, d, cases)

    def _i_ret(self, p, dest, op):
        t = p.type()
        if t == VOID:
            return ('ret', t, None)
        return ('ret', t, p.value(t))

    def _i_unreachable(self, p, dest, op):
        return ('unreachable',)

    def _i_resume(self, p, dest, op):
        return ('unreachable_resume',)

    def _i_landingpad(self, p, dest, op):
        return ('landingpad', dest)

    def _i_fence(self, p, dest, op):
        return ('nop',)

    def _i_phi(self, p, dest, op):
        self._flags(p)
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            lab = p.next()[1]
            p.expect(']')
            inc.append((v, lab))
            if not p.eat(','):
                break
        return ('phi', dest, t, inc)

    def _call_common(self, p):
        while p.pv() in FASTMATH:
            p.i += 1
        while p.pv() in CC:
            p.i += 1
        if p.pv() == 'cc':
            p.i += 2
        p.skip_attrs()
        t = p.type()
        if t[0] == 'fn':
            t = t[1]
        if p.pv() == 'asm':
            return ('asm', t, None, [])
        k, v = p.peek()
        if k == 'loc':
            p.i += 1
            callee = ('reg', v)
        else:
            callee = ('c', p.const(PTR))
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                at = p.type()
                if at == META:
                    # metadata operand: skip
                    d = 0
                    while not (d == 0 and p.pv() in (',', ')')):
                        v = p.next()[1]
                        if v in ('(', '{'):
                            d += 1
                        elif v in (')', '}'):
                            d -= 1
                    args.append((at, None))
                else:
                    p.skip_attrs()
                    args.append((at, p.value(at)))
                if p.eat(')'):
                    break
                p.expect(',')
        return ('call', t, callee, args)

    def _i_call(self, p, dest, op):
        k, t, callee, args = self._call_common(p)
        if k == 'asm':
            return ('asm', dest)
        return ('call', dest, t, callee, args)

    def _i_invoke(self, p, dest, op):
        k, t, callee, args = self._call_common(p)
        p.skip_attrs()
        if p.pv() == '[':
            while p.next()[1] != ']':
                pass
        p.expect('to')
        p.expect('label')
        ok = p.next()[1]
        return ('invoke', dest, t, callee, args, ok)

    def _i_atomicrmw(self, p, dest, op):
        if p.pv() == 'volatile':
            p.i += 1
        rop = p.next()[1]
        pt = p.type()
        a = p.value(pt)
        p.expect(',')
        t = p.type()
        v = p.value(t)
        return ('atomicrmw', dest, rop, t, a, v)

    def _i_cmpxchg(self, p, dest, op):
        while p.pv() in ('weak', 'volatile'):
            p.i += 1
        pt = p.type()
        a = p.value(pt)
        p.expect(',')
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.type()
        n = p.value(t)
        return ('cmpxchg', dest, t, a, c, n)


def _match_paren(s):
    d = 0
    inq = False
    for i, c in enumerate(s):
        if c == '"':
            inq = not inq
        if inq:
            continue
        if c == '(':
            d += 1
        elif c == ')':
            d -= 1
            if d == 0:
                return i + 1
    return len(s)


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
         'fpext', 'fptrunc', 'addrspacecast', 'ptrtoaddr'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'samesign', 'inbounds', 'nusw', 'fast'} | FASTMATH
