"""Symbolic executor for the LLVM IR rustc emits for the harness crate and /repo.

Paths fork at symbolic branches and are merged again at the branch's immediate
post-dominator where the two states are compatible.  Every assertion, panic and
`unreachable` becomes a solver query over the whole path condition.
"""
import random
import re
import math
import time

import z3

import llparse as L
from floats import Floats
from solver import PathSolver
from values import *

SHIFT = 24
OFFM = (1 << SHIFT) - 1
STACK0 = 1 << 18           # first object id of the stack
HEAP0 = 1 << 20            # first object id of the heap; address = id << SHIFT
GLOB0 = 1 << 12
FUNC0 = 0x2000000000000000 >> SHIFT
U64 = (1 << 64) - 1

JUMP = 1
CALL = 2
RET = 3
FORK = 4
NICHE = (1 << 63) - 64


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class NeedFork(Exception):
    """Concretise `expr`: re-run the current instruction once per value."""

    def __init__(self, expr, values, merge=True):
        self.expr = expr
        self.values = values
        self.merge = merge


class Violation(Exception):
    pass


class Obj:
    __slots__ = ('size', 'data', 'owner', 'ro', 'kind', 'al')

    def __init__(self, size, data, owner, ro=False, kind='heap'):
        self.size = size
        self.data = data
        self.owner = owner
        self.ro = ro
        self.kind = kind


class Frame:
    __slots__ = ('fn', 'R', 'code', 'i', 'label', 'allocas', 'dest')

    def __init__(self, fn, R, dest):
        self.fn = fn
        self.R = R
        self.code = fn.entry_code
        self.i = 0
        self.label = fn.entry
        self.allocas = []
        self.dest = dest

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.R = dict(self.R)
        f.code = self.code
        f.i = self.i
        f.label = self.label
        f.allocas = list(self.allocas)
        f.dest = self.dest
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'inputs', 'obs', 'next', 'tok', 'conc', 'sp', 'nin', 'reached')

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.inputs = self.inputs
        s.obs = self.obs
        s.next = self.next
        s.conc = dict(self.conc)
        s.sp = self.sp
        s.nin = self.nin
        s.reached = self.reached
        s.tok = object()
        self.tok = object()
        return s


class CFn:
    """Compiled function."""
    __slots__ = ('name', 'fn', 'blocks', 'entry', 'entry_code', 'params', 'consts', 'regtype', 'succ', 'ipdom', 'live',
                 'retty', 'phidefs', 'data')


def demangle(name):
    """Crude v0 demangler: the identifiers of the path, in order."""
    s = name.lstrip('@').strip('"')
    if not s.startswith('_R'):
        return s
    out = []
    i = 2
    n = len(s)
    while i < n:
        if s[i] == 's' and i + 1 < n:
            m = re.match(r's[0-9A-Za-z]*_', s[i:])
            if m and re.match(r'\d', s[i + m.end():i + m.end() + 1] or ''):
                i += m.end()
                continue
        if s[i].isdigit() and s[i] != '0':
            m = re.match(r'(\d+)_?', s[i:])
            k = int(m.group(1))
            j = i + m.end()
            if j + k <= n and k < 80:
                ident = s[j:j + k]
                if re.match(r'[A-Za-z_]\w*$', ident):
                    out.append(ident)
                    i = j + k
                    continue
        i += 1
    return '::'.join(out)


PANIC = re.compile(r'rust_begin_unwind|_4core9panicking(9panic_fmt|18panic_nounwind_fmt|19panic_cannot_unwind|16panic_in_cleanup)'
                   r'|5alloc7raw_vec12handle_error|5alloc5alloc18handle_alloc_error|7process5abort|^@abort$|^@_exit$|^@exit$')


class Engine:
    def __init__(self, mod, mode='fp', opts=None):
        self.mod = mod
        self.opts = opts or {}
        self.sol = PathSolver(log=self.opts.get('log'))
        self.fl = Floats(self, mode)
        self.mode = mode
        self.cfns = {}
        self.gaddr = {}
        self.gname = {}
        self.faddr = {}
        self.fname = {}
        self.gobj = {}
        self.ncounter = 0
        self.invars = {}
        self.instrs = 0
        self.forks = 0
        self.merges = 0
        self.merge_refused = 0
        self.paths_done = 0
        self.paths_infeasible = 0
        self.paths_assumed = 0
        self.executed = set()
        self.violations = []
        self.asserts = {}
        self.reached = {}
        self.witnesses = []
        self.witnessed = set()
        self.witness_skipped = 0
        self.blocks = 0
        self.deadline = None
        self.max_paths = self.opts.get('max_paths', 200000)
        self.want_witness = self.opts.get('witness', 3)
        self.merge_on = self.opts.get('merge', True)
        self.ptr_cache = {}
        self.rng = random.Random(self.opts.get('seed', 1))
        self.on_violation = None
        self.trace = self.opts.get('trace')
        self.refuse_why = {}
        self.models = Models(self)
        self.resolve = self.models.resolve

    # ---------------------------------------------------------------- fresh
    def fresh_bv(self, tag, n):
        self.ncounter += 1
        return z3.BitVec('%s!%d' % (tag, self.ncounter), n)

    def fresh_int(self, tag):
        self.ncounter += 1
        return z3.Int('%s!%d' % (tag, self.ncounter))

    def fresh_real(self, tag):
        self.ncounter += 1
        return z3.Real('%s!%d' % (tag, self.ncounter))

    # ---------------------------------------------------------------- addresses
    def global_addr(self, name):
        a = self.gaddr.get(name)
        if a is None:
            if name in self.mod.aliases:
                m = re.search(r'@("[^"]*"|[\w.$\-]+)', self.mod.aliases[name])
                return self.global_addr(m.group(0))
            if name in self.mod.funcs or name in self.mod.decls:
                a = (FUNC0 << SHIFT) + 16 * (len(self.faddr) + 1)
                self.faddr[name] = a
                self.fname[a] = name
            else:
                gid = GLOB0 + len(self.gname)
                a = gid << SHIFT
                self.gname[gid] = name
            self.gaddr[name] = a
        return a

    def const_val(self, t, c):
        """IR constant -> value."""
        k = c[0]
        if k == 'int':
            n = 64 if t[0] == 'ptr' else t[1]
            return c[1] & ((1 << n) - 1)
        if k == 'glob':
            return self.global_addr(c[1])
        if k == 'float':
            return parse_float_const(c[1], t[1])
        if k == 'undef' or k == 'zero':
            return self.zero_val(t)
        if k == 'agg':
            return tuple(self.const_val(et, x) for et, x in c[1])
        if k == 'bytes':
            return tuple(c[1])
        if k == 'gep':
            base = self.const_val(L.PTR, c[2][0][1])
            return (base + self.gep_const(c[1], [(t2, self.const_val(t2, x)) for t2, x in c[2][1:]])) & U64
        if k == 'cast':
            v = self.const_val(c[2], c[3])
            n = 64 if c[4][0] == 'ptr' else c[4][1]
            return v & ((1 << n) - 1)
        if k == 'bin':
            a = self.const_val(c[2], c[3])
            b = self.const_val(c[2], c[4])
            m = (1 << c[2][1]) - 1
            return {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b}[c[1]] & m
        raise Inconclusive("constant %r" % (c,))

    def zero_val(self, t):
        k = t[0]
        if k == 'st':
            return tuple(self.zero_val(x) for x in t[1])
        if k in ('arr', 'vec'):
            return (self.zero_val(t[2]),) * t[1]
        return 0

    def gep_const(self, bt, idx):
        off = 0
        t = bt
        for n, (it, v) in enumerate(idx):
            v = sgn(v, it[1]) if it[0] == 'i' else v
            if n == 0:
                off += v * L.size_of(t)
            else:
                off += L.field_offset(t, v)
                t = t[2] if t[0] in ('arr', 'vec') else t[1][v]
        return off

    def materialise(self, gid):
        """Object for a global, from its initialiser."""
        name = self.gname[gid]
        if name not in self.mod.globals_txt:
            raise Inconclusive("unknown global " + name)
        t, init, const, al = self.mod.parse_global(name)
        sz = L.size_of(t)
        data = [0] * sz
        if init is None:
            if name.strip('@"').startswith(('environ', '__libc', 'stderr')):
                pass
            else:
                raise Inconclusive("external global " + name)
        else:
            self.flatten(t, init, data, 0)
        return Obj(sz, data, None, const, 'global'), const

    def flatten(self, t, c, data, off):
        k = t[0]
        if c[0] in ('zero', 'undef'):
            return
        if c[0] == 'bytes':
            data[off:off + len(c[1])] = list(c[1])
            return
        if c[0] == 'agg':
            for i, (et, x) in enumerate(c[1]):
                self.flatten(et, x, data, off + L.field_offset(t, i))
            return
        v = self.const_val(t, c)
        n = L.size_of(t)
        data[off:off + n] = list(v.to_bytes(n, 'little'))

    def obj(self, st, oid, write=False):
        o = st.mem.get(oid)
        if o is None:
            if oid < HEAP0 and oid in self.gname:
                g = self.gobj.get(oid)
                if g is None:
                    g = self.gobj[oid] = self.materialise(oid)
                o = g[0]
                if not write:
                    return o
                if g[1]:
                    self.memfault(st, "write to constant global " + self.gname[oid])
                st.mem[oid] = o
            else:
                self.memfault(st, "access to unmapped or freed memory (object %x)" % oid)
        if write and o.owner is not st.tok:
            o2 = Obj(o.size, list(o.data), st.tok, o.ro, o.kind)
            st.mem[oid] = o2
            return o2
        return o

    def memfault(self, st, msg):
        self.violation(st, 'memory', msg, [])
        raise PathEnd('violation')

    def alloc(self, st, size, kind='heap', zero=False):
        if size > OFFM - 4096:
            raise Inconclusive("allocation of %d bytes" % size)
        oid = st.next
        st.next = oid + 1
        st.mem[oid] = Obj(size, [0 if zero else None] * size, st.tok, False, kind)
        return oid << SHIFT

    def stack_alloc(self, st, size):
        """Stack object; its id depends only on the live stack, so that diverging
        paths agree on the addresses of their common frames."""
        oid = STACK0 + st.sp
        st.sp += 1
        st.mem[oid] = Obj(size, [None] * size, st.tok, False, 'stack')
        st.frames[-1].allocas.append(oid)
        return oid << SHIFT

    # ---------------------------------------------------------------- memory access
    def load_bytes(self, st, addr, n):
        o = self.obj(st, addr >> SHIFT)
        off = addr & OFFM
        if off + n > o.size:
            self.memfault(st, "out-of-bounds read of %d bytes at offset %d of %d-byte object" % (n, off, o.size))
        return o.data[off:off + n]

    def load(self, st, t, addr):
        if addr.__class__ is not int:
            return self.load_sym(st, t, addr)
        k = t[0]
        if k == 'i' or k == 'ptr':
            bits = 64 if k == 'ptr' else t[1]
            n = (bits + 7) >> 3
            o = st.mem.get(addr >> SHIFT)
            if o is None:
                o = self.obj(st, addr >> SHIFT)
            off = addr & OFFM
            if off + n > o.size:
                self.memfault(st, "out-of-bounds read of %d bytes at offset %d of %d-byte object" % (n, off, o.size))
            d = o.data[off:off + n]
            try:
                v = int.from_bytes(d, 'little')
                return v & ((1 << bits) - 1) if bits & 7 else v
            except TypeError:
                return self.assemble(d, bits)
        if k == 'f':
            n = t[1] >> 3
            d = self.load_bytes(st, addr, n)
            try:
                return int.from_bytes(d, 'little')
            except TypeError:
                p = d[0]
                if p.__class__ is tuple and p[0].__class__ is SymF and p[1] == 0 and p[2] == n and \
                        all(q.__class__ is tuple and q[0] is p[0] and q[1] == j for j, q in enumerate(d)):
                    return p[0]
                v = self.assemble(d, t[1])
                return v if v.__class__ is int else self.fl.from_bits(v, t[1])
        if k == 'vec':
            et = t[2]
            if et[0] == 'i' and et[1] < 8:
                v = self.load(st, L.ity(t[1] * et[1]), addr)
                return self.bitcast(v, L.ity(t[1] * et[1]), t)
            es = L.size_of(et)
            return tuple(self.load(st, et, addr + i * es) for i in range(t[1]))
        if k == 'st' or k == 'arr':
            cnt = len(t[1]) if k == 'st' else t[1]
            return tuple(self.load(st, t[1][i] if k == 'st' else t[2], addr + L.field_offset(t, i)) for i in range(cnt))
        raise Inconclusive("load of %r" % (t,))

    def assemble(self, d, bits):
        """Byte pieces -> integer value of the given width."""
        parts = []      # low to high
        i = 0
        n = len(d)
        while i < n:
            p = d[i]
            if p.__class__ is tuple:
                v, idx, tot = p
                j = i + 1
                while j < n and d[j].__class__ is tuple and d[j][0] is v and d[j][1] == idx + (j - i):
                    j += 1
                if v.__class__ is SymF:
                    v = self.fl.to_bits(v)
                cnt = j - i
                if idx == 0 and cnt * 8 >= v.size():
                    e = v if cnt * 8 == v.size() else z3.ZeroExt(cnt * 8 - v.size(), v)
                else:
                    hi = min(8 * (idx + cnt), v.size())
                    if hi <= 8 * idx:
                        e = z3.BitVecVal(0, 8 * cnt)
                    else:
                        e = z3.Extract(hi - 1, 8 * idx, v)
                        if hi - 8 * idx < 8 * cnt:
                            e = z3.ZeroExt(8 * cnt - (hi - 8 * idx), e)
                parts.append(e)
                i = j
            else:
                j = i
                acc = 0
                while j < n and d[j].__class__ is not tuple:
                    acc |= (d[j] or 0) << (8 * (j - i))
                    j += 1
                parts.append(z3.BitVecVal(acc, 8 * (j - i)) if True else None)
                i = j
        if len(parts) == 1:
            e = parts[0]
        else:
            e = z3.Concat(*reversed(parts))
        if e.size() > bits:
            e = z3.Extract(bits - 1, 0, e)
        if z3.is_bv_value(e):
            return e.as_long()
        if len(parts) > 1 or bits & 7:
            e = norm(e)
        if bits == 1 and e.__class__ is not int:
            return norm(e == 1)
        return e

    def store(self, st, t, v, addr):
        if addr.__class__ is not int:
            addr = self.concretize(st, addr)
        k = t[0]
        if k == 'i' or k == 'ptr':
            bits = 64 if k == 'ptr' else t[1]
            n = (bits + 7) >> 3
            o = self.obj(st, addr >> SHIFT, True)
            off = addr & OFFM
            if off + n > o.size:
                self.memfault(st, "out-of-bounds write of %d bytes at offset %d of %d-byte object" % (n, off, o.size))
            if v.__class__ is int:
                if n == 1:
                    o.data[off] = v
                else:
                    o.data[off:off + n] = v.to_bytes(n, 'little')
            else:
                if v.__class__ is BOOL:
                    v = to_bv(v, 8)
                if n == 1:
                    o.data[off] = (v if v.size() == 8 else z3.ZeroExt(8 - v.size(), v), 0, 1)
                else:
                    o.data[off:off + n] = [(v, i, n) for i in range(n)]
            return
        if k == 'f':
            n = t[1] >> 3
            o = self.obj(st, addr >> SHIFT, True)
            off = addr & OFFM
            if off + n > o.size:
                self.memfault(st, "out-of-bounds write")
            if v.__class__ is int:
                o.data[off:off + n] = v.to_bytes(n, 'little')
            else:
                o.data[off:off + n] = [(v, i, n) for i in range(n)]
            return
        if k == 'vec':
            et = t[2]
            if et[0] == 'i' and et[1] < 8:
                it = L.ity(t[1] * et[1])
                self.store(st, it, self.bitcast(v, t, it), addr)
                return
            es = L.size_of(et)
            for i in range(t[1]):
                self.store(st, et, v[i], addr + i * es)
            return
        if k == 'st' or k == 'arr':
            cnt = len(t[1]) if k == 'st' else t[1]
            for i in range(cnt):
                self.store(st, t[1][i] if k == 'st' else t[2], v[i], addr + L.field_offset(t, i))
            return
        raise Inconclusive("store of %r" % (t,))

    def load_sym(self, st, t, addr):
        tab = self.load_table(st, t, addr)
        if tab is not None:
            return tab
        vals = self.values(st, addr, 300)
        if len(vals) == 1:
            return self.load(st, t, vals[0])
        # constant tables: one value per distinct address
        res = [self.load(st, t, a) for a in vals]
        if t[0] in ('st', 'arr', 'vec'):
            raise NeedFork(addr, vals)
        out = res[-1]
        for a, v in list(zip(vals, res))[-2::-1]:
            if v is out or (v.__class__ is int and out.__class__ is int and v == out):
                continue
            if (t[0] == 'ptr' or t == L.ity(64)) and (self.is_ptr(v) or self.is_ptr(out)):
                raise NeedFork(addr, vals)
            out = self.ite(addr == z3.BitVecVal(a, 64), v, out, t)
        return out

    def load_table(self, st, t, addr):
        """Read of a constant global at a symbolic in-bounds offset: an ite over
        ranges of offsets with equal contents."""
        if t[0] != 'i' or t[1] > 64 or t[1] % 8:
            return None
        key = ('tab', addr.get_id(), t[1], tuple(p.get_id() for p in st.pc))
        hit = self.ptr_cache.get(key)
        if hit is not None:
            return hit[0]
        if addr.get_id() in st.conc:
            return None
        r, m = self.sol.check(st.pc, [z3.BitVec('probe!', 64) == addr], important=True, want_model=True)
        if r != 'sat':
            return None
        a0 = m.eval(z3.BitVec('probe!', 64), model_completion=True).as_long()
        oid = a0 >> SHIFT
        if oid >= STACK0 or oid not in self.gname:
            return None
        o = self.obj(st, oid)
        if not o.ro or o.size > 4096:
            return None
        n = t[1] // 8
        base = oid << SHIFT
        if o.size < n:
            return None
        inb = z3.And(z3.UGE(addr, base), z3.ULE(addr, base + o.size - n))
        if self.sol.check(st.pc, [z3.Not(inb)], important=True)[0] != 'unsat':
            return None
        stride = 1
        low = z3.simplify(z3.Extract(2, 0, addr - base))
        if z3.is_bv_value(low) and low.as_long() == 0 and n in (1, 2, 4, 8):
            stride = 8
        elif n > 1:
            for k, sname in ((4, 2), (2, 1)):
                low = z3.simplify(z3.Extract(sname - 1, 0, addr - base))
                if z3.is_bv_value(low) and low.as_long() == 0:
                    stride = k
                    break
        vals = []
        for off in range(0, o.size - n + 1, stride):
            vals.append((base + off, int.from_bytes(o.data[off:off + n], 'little')))
        runs = []
        for a, v in vals:
            if runs and runs[-1][2] == v:
                runs[-1][1] = a
            else:
                runs.append([a, a, v])
        if len(runs) > 400:
            return None
        if (t[1] == 64) and any(v >= (GLOB0 << SHIFT) for _, _, v in runs):
            return None
        out = z3.BitVecVal(runs[-1][2], t[1])
        for lo, hi, v in runs[-2::-1]:
            out = z3.If(z3.ULE(addr, hi), z3.BitVecVal(v, t[1]), out)
        out = norm(out)
        self.ptr_cache[key] = (out, addr, st.pc)
        return out

    def is_ptr(self, v):
        return v.__class__ is int and v >= (GLOB0 << SHIFT)

    # ---------------------------------------------------------------- solver glue
    def feasible(self, st, cond):
        r, m = self.sol.check(st.pc, [cond])
        return r != 'unsat'

    def values(self, st, e, limit):
        """All feasible values of e on this path."""
        c = st.conc.get(e.get_id())
        if c is not None:
            return [c[1]]
        v = norm(e)
        if v.__class__ is int:
            return [v]
        sl, kind = self.sol.slice(st.pc, [e == e]) if False else (None, 0)
        key = (e.get_id(), tuple(p.get_id() for p in st.pc))
        r = self.ptr_cache.get(key)
        if r is not None:
            return r[0]
        n = e.size() if e.__class__ is BV else 1
        out = []
        conds = []
        probe = z3.BitVec('probe!', n)
        while True:
            q = [probe == e] + conds
            r, m = self.sol.check(st.pc, q, important=True, want_model=True)
            if r == 'unknown':
                raise Inconclusive("cannot enumerate values")
            if r == 'unsat':
                break
            val = m.eval(probe, model_completion=True).as_long()
            out.append(val)
            if len(out) > limit:
                raise Inconclusive("more than %d values for %s" % (limit, str(e)[:200]))
            conds.append(probe != val)
        out.sort()
        self.ptr_cache[key] = (out, e, st.pc)
        return out

    def concretize(self, st, e, limit=300, merge=True):
        """Concrete value of e on this path, forking if there are several."""
        if e.__class__ is int:
            return e
        if e.__class__ is BOOL:
            e = to_bv(e, 1)
        c = st.conc.get(e.get_id())
        if c is not None:
            return c[1]
        vals = self.values(st, e, limit)
        if not vals:
            raise PathEnd('infeasible')
        if len(vals) == 1:
            st.conc[e.get_id()] = (e, vals[0])
            return vals[0]
        raise NeedFork(e, vals, merge)

    # ---------------------------------------------------------------- violations
    def violation(self, st, kind, msg, extra, ident=None):
        """Query the path (plus extra conditions); record a candidate if satisfiable."""
        r, m = self.sol.check(st.pc, list(extra), important=True, want_model=True)
        if r == 'unsat':
            return False
        if r == 'unknown':
            raise Inconclusive("solver gave up on %s %s" % (kind, msg))
        try:
            inp = self.model_inputs(st, extra)
        except PathEnd:
            # the path itself is infeasible in a part the condition does not touch
            self.model_inputs(st)
            raise Inconclusive("inconsistent answers on %s %s" % (kind, msg))
        v = {'kind': kind, 'msg': msg, 'id': ident, 'inputs': inp,
             'stack': [demangle(f.fn.name) for f in st.frames][-12:]}
        self.violations.append(v)
        if self.opts.get('stop_on_violation', True):
            raise Violation()
        return True

    def model_inputs(self, st, extra=()):
        """Concrete inputs satisfying the whole path condition."""
        need = list(st.pc) + list(extra)
        asg = {}
        # solve slice by slice to reuse cached models
        todo = list(need)
        done = set()
        for c in todo:
            if c.get_id() in done:
                continue
            sl, _ = self.sol.slice(need, [c])
            for x in sl:
                done.add(x.get_id())
            r, m = self.sol.check(need, [c], important=True, want_model=True)
            if r == 'unsat':
                raise PathEnd('infeasible')
            if r != 'sat' or m is None:
                raise Inconclusive("no model for the path")
            vs = set()
            for x in sl:
                vs |= self.sol.closure(self.sol.vars.of(x)[0])
            for kind, var in st.inputs:
                if var.__class__ is not int and var.decl().name() in vs:
                    asg[var.decl().name()] = m.eval(var, model_completion=True)
        out = []
        for kind, var in st.inputs:
            if var.__class__ is int:
                out.append((kind, var))
                continue
            a = asg.get(var.decl().name())
            if a is None:
                if z3.is_real(var):
                    lo = self.invars.get(var.decl().name())
                    out.append((kind, np_to_bits(float(lo[0]) if lo else 0.0, 32)))
                else:
                    out.append((kind, 0))
            elif z3.is_bv_value(a):
                out.append((kind, a.as_long()))
            elif z3.is_algebraic_value(a) or z3.is_rational_value(a):
                fr = a.as_fraction() if z3.is_rational_value(a) else a.approx(20).as_fraction()
                out.append((kind, np_to_bits(float(fr), 32)))
            else:
                raise Inconclusive("model value %s" % a)
        self.last_asg = asg
        return out

    # ---------------------------------------------------------------- integer ops
    def ite(self, c, a, b, t):
        """c: BoolRef"""
        if a is b:
            return a
        k = t[0]
        if k in ('st', 'arr', 'vec'):
            ts = t[1] if k == 'st' else (t[2],) * t[1]
            return tuple(self.ite(c, x, y, tt) for x, y, tt in zip(a, b, ts))
        if a.__class__ is int and b.__class__ is int and a == b:
            return a
        if k == 'f':
            return self.fl.ite(c, a, b, t[1])
        n = 64 if k == 'ptr' else t[1]
        if n == 1:
            if a.__class__ is int and b.__class__ is int:
                return c if a else z3.Not(c)
            return norm(z3.If(c, to_bool(a), to_bool(b)))
        a = to_bv(a, n)
        b = to_bv(b, n)
        if a.eq(b):
            return a
        return z3.If(c, a, b)

    def binop(self, op, n, a, b):
        """At least one operand symbolic (or a rare concrete op)."""
        ca = a.__class__ is int
        cb = b.__class__ is int
        if ca and cb:
            return self.cbin(op, n, a, b)
        if n == 1:
            x, y = to_bool(a), to_bool(b)
            if op == 'and':
                return norm(z3.And(x, y))
            if op == 'or':
                return norm(z3.Or(x, y))
            if op in ('xor', 'add', 'sub'):
                return norm(z3.Xor(x, y))
            if op == 'mul':
                return norm(z3.And(x, y))
            raise Inconclusive("i1 " + op)
        m = (1 << n) - 1
        if op == 'and':
            if cb:
                a, b, ca, cb = b, a, cb, ca
            if ca:
                if a == 0:
                    return 0
                if a == m:
                    return b
        elif op in ('add', 'or', 'xor'):
            if ca and a == 0:
                return b
            if cb and b == 0:
                return a
        elif op in ('sub', 'shl', 'lshr', 'ashr'):
            if cb and b == 0:
                return a
        elif op == 'mul':
            if cb:
                a, b, ca, cb = b, a, cb, ca
            if ca:
                if a == 0:
                    return 0
                if a == 1:
                    return b
        x = to_bv(a, n)
        y = to_bv(b, n)
        if op == 'add':
            return norm(x + y)
        if op == 'sub':
            return norm(x - y)
        if op == 'mul':
            return norm(x * y)
        if op == 'and':
            return norm(x & y)
        if op == 'or':
            return norm(x | y)
        if op == 'xor':
            return norm(x ^ y)
        if op == 'shl':
            return norm(x << y)
        if op == 'lshr':
            return norm(z3.LShR(x, y))
        if op == 'ashr':
            return norm(x >> y)
        if op in ('udiv', 'urem'):
            return self.udivrem(op, n, x, y, b)
        if op == 'sdiv':
            return norm(x / y)
        if op == 'srem':
            return norm(z3.SRem(x, y))
        raise Inconclusive(op)

    def udivrem(self, op, n, x, y, b):
        if b.__class__ is int and b and b & (b - 1) == 0:
            sh = b.bit_length() - 1
            return norm(z3.LShR(x, sh)) if op == 'udiv' else norm(x & (b - 1))
        if b.__class__ is int and b:
            # x == q*b + r, r < b, without overflow: a definition of q and r
            key = ('div', x.get_id(), b)
            qr = self.ptr_cache.get(key)
            if qr is None:
                # narrow x by its known-zero top bits
                xs = z3.simplify(x)
                eff = n
                # c*y with a common factor: (c*y)/b and (c*y)%b are those of smaller numbers
                if z3.is_app_of(xs, z3.Z3_OP_BMUL) and xs.num_args() == 2 and z3.is_bv_value(xs.arg(0)):
                    c = xs.arg(0).as_long()
                    g = math.gcd(c, b)
                    y2 = xs.arg(1)
                    if g > 1 and c << (n - self.zero_top(y2)) <= 1 << n:
                        x2 = z3.simplify(y2 * (c // g))
                        if b // g == 1:
                            qr = (x2, z3.BitVecVal(0, n), x)
                        else:
                            q = self.udivrem('udiv', n, x2, z3.BitVecVal(b // g, n), b // g)
                            r = self.udivrem('urem', n, x2, z3.BitVecVal(b // g, n), b // g)
                            qr = (to_bv(q, n), norm(to_bv(r, n) * g), x)
                        self.ptr_cache[key] = qr
                        return qr[0] if op == 'udiv' else qr[1]
                # one definition for all widths of the same number
                eff = max(n - self.zero_top(xs), b.bit_length())
                nar = z3.simplify(z3.Extract(eff - 1, 0, xs)) if eff < n else xs
                nkey = ('ndiv', nar.get_id(), b)
                nqr = self.ptr_cache.get(nkey)
                if nqr is None:
                    q = self.fresh_bv('q', eff)
                    r = self.fresh_bv('r', eff)
                    z = b.bit_length()
                    d = z3.And(z3.ZeroExt(z, q) * b + z3.ZeroExt(z, r) == z3.ZeroExt(z, nar), z3.ULT(r, b))
                    self.sol.add_def(q, d)
                    self.sol.add_def(r, d)
                    nqr = self.ptr_cache[nkey] = (q, r, nar)
                q, r = nqr[0], nqr[1]
                if eff < n:
                    q = z3.ZeroExt(n - eff, q)
                    r = z3.ZeroExt(n - eff, r)
                qr = self.ptr_cache[key] = (q, r, x)
            return qr[0] if op == 'udiv' else qr[1]
        return norm(z3.UDiv(x, y) if op == 'udiv' else z3.URem(x, y))

    def zero_top(self, x):
        """Number of leading bits of x that are syntactically zero."""
        if z3.is_app_of(x, z3.Z3_OP_CONCAT) and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0:
            return x.arg(0).size()
        return 0

    def cbin(self, op, n, a, b):
        m = (1 << n) - 1
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & m if b < n else 0
        if op == 'lshr':
            return a >> b if b < n else 0
        if op == 'ashr':
            return (sgn(a, n) >> min(b, n - 1)) & m
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        x, y = sgn(a, n), sgn(b, n)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == 'sdiv':
            return q & m
        if op == 'srem':
            return (x - q * y) & m
        raise Inconclusive(op)

    def icmp(self, pred, n, a, b):
        if a.__class__ is int and b.__class__ is int:
            if pred[0] == 's':
                a = sgn(a, n)
                b = sgn(b, n)
            p = pred[1:] if pred not in ('eq', 'ne') else pred
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p])
        if n == 1:
            x, y = to_bool(a), to_bool(b)
            if pred == 'eq':
                return norm(x == y)
            if pred == 'ne':
                return norm(x != y)
            x = to_bv(x, 1)
            y = to_bv(y, 1)
        else:
            x = to_bv(a, n)
            y = to_bv(b, n)
        if pred == 'eq':
            return norm(x == y)
        if pred == 'ne':
            return norm(x != y)
        f = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE}.get(pred)
        if f:
            return norm(f(x, y))
        return norm({'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred])

    def cast(self, op, ft, tt, v):
        if ft[0] == 'vec' and op not in ('bitcast',):
            return tuple(self.cast(op, ft[2], tt[2], x) for x in v)
        if op == 'bitcast':
            return self.bitcast(v, ft, tt)
        if op in ('ptrtoint', 'inttoptr', 'ptrtoaddr', 'addrspacecast'):
            fn = 64 if ft[0] == 'ptr' else ft[1]
            tn = 64 if tt[0] == 'ptr' else tt[1]
            if fn == tn:
                return v
            return self.cast('trunc' if tn < fn else 'zext', L.ity(fn), L.ity(tn), v)
        if op == 'trunc':
            if v.__class__ is int:
                return v & ((1 << tt[1]) - 1)
            e = norm(z3.Extract(tt[1] - 1, 0, v))
            if tt[1] == 1 and e.__class__ is not int:
                return norm(e == 1)
            return e
        if op == 'zext':
            if v.__class__ is int:
                return v
            if v.__class__ is BOOL:
                return to_bv(v, tt[1])
            return z3.ZeroExt(tt[1] - ft[1], v)
        if op == 'sext':
            if v.__class__ is int:
                return sgn(v, ft[1]) & ((1 << tt[1]) - 1)
            if v.__class__ is BOOL:
                return z3.If(v, z3.BitVecVal(-1, tt[1]), z3.BitVecVal(0, tt[1]))
            return z3.SignExt(tt[1] - ft[1], v)
        if op in ('sitofp', 'uitofp'):
            return self.fl.from_int(v, ft[1], op == 'sitofp', tt[1])
        if op in ('fptosi', 'fptoui'):
            return self.fl.to_int(v, ft[1], tt[1], op == 'fptosi', False)
        if op in ('fpext', 'fptrunc'):
            return self.fl.resize(v, ft[1], tt[1])
        raise Inconclusive(op)

    def bitcast(self, v, ft, tt):
        if ft == tt or (ft[0] == 'ptr' and tt[0] == 'ptr'):
            return v
        if ft[0] == 'f' and tt[0] == 'i':
            return v if v.__class__ is int else self.fl.to_bits(v)
        if ft[0] == 'i' and tt[0] == 'f':
            return v if v.__class__ is int else self.fl.from_bits(v, tt[1])
        # through bits
        if ft[0] == 'vec':
            w = ft[2][1] if ft[2][0] != 'ptr' else 64
            xs = [self.bitcast(x, ft[2], L.ity(w)) if ft[2][0] == 'f' else x for x in v]
            if all(x.__class__ is int for x in xs):
                bits = 0
                for i, x in enumerate(xs):
                    bits |= x << (i * w)
            else:
                bits = norm(z3.Concat(*[to_bv(x, w) for x in reversed(xs)]))
        else:
            bits = v
        if tt[0] == 'vec':
            w = tt[2][1] if tt[2][0] != 'ptr' else 64
            n = tt[1]
            if bits.__class__ is int:
                xs = [(bits >> (i * w)) & ((1 << w) - 1) for i in range(n)]
            else:
                xs = [norm(z3.Extract(i * w + w - 1, i * w, bits)) for i in range(n)]
                if w == 1:
                    xs = [x if x.__class__ is int else norm(x == 1) for x in xs]
            if tt[2][0] == 'f':
                xs = [self.bitcast(x, L.ity(w), tt[2]) for x in xs]
            return tuple(xs)
        if tt[0] == 'f':
            return self.bitcast(bits, L.ity(tt[1]), tt)
        return bits

    # ---------------------------------------------------------------- compile
    def compile(self, name):
        c = self.cfns.get(name)
        if c is not None:
            return c
        f = self.mod.get(name)
        if f is None:
            return None
        c = CFn()
        c.name = name
        c.fn = f
        c.params = [n for _, n in f.params]
        c.retty = f.ret
        c.consts = {}
        c.regtype = dict((n, t) for t, n in f.params)
        c.blocks = {}
        c.succ = {}
        c.phidefs = {}
        c.ipdom = None
        c.live = None
        c.entry = f.order[0]
        phis = {}
        for lab in f.order:
            ph = []
            for ins in f.blocks[lab]:
                if ins[0] == 'phi':
                    ph.append(ins)
            phis[lab] = ph
            c.phidefs[lab] = [p[1] for p in ph]
        comp = Compiler(self, c, phis)
        for lab in f.order:
            c.blocks[lab] = []
        for lab in f.order:
            comp.block(lab, f.blocks[lab], c.blocks[lab])
        c.entry_code = c.blocks[c.entry]
        self.cfns[name] = c
        return c

    # ---------------------------------------------------------------- CFG analyses
    def analyse(self, c):
        """Immediate post-dominators (ignoring paths that only abort) and liveness."""
        labs = c.fn.order
        rets = [l for l in labs if c.fn.blocks[l] and c.fn.blocks[l][-1][0] == 'ret']
        pred = {l: [] for l in labs}
        for l in labs:
            for s in c.succ[l]:
                pred[s].append(l)
        good = set(rets)
        work = list(rets)
        while work:
            x = work.pop()
            for p in pred[x]:
                if p not in good:
                    good.add(p)
                    work.append(p)
        EXIT = '$exit'
        # reverse graph order from EXIT
        rsucc = {l: [s for s in c.succ[l] if s in good] for l in good}
        for r in rets:
            rsucc[r] = [EXIT]
        rpred = {l: [] for l in good}
        rpred[EXIT] = list(rets)
        for l in good:
            for s in rsucc[l]:
                if s != EXIT:
                    rpred[s].append(l)
        order = []
        seen = {EXIT}
        stack = [(EXIT, iter(rpred[EXIT]))]
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(rpred[m])))
                    break
            else:
                order.append(n)
                stack.pop()
        num = {n: i for i, n in enumerate(order)}
        idom = {EXIT: EXIT}
        changed = True
        while changed:
            changed = False
            for n in reversed(order):
                if n == EXIT:
                    continue
                new = None
                for s in rsucc[n]:
                    if s in idom:
                        if new is None:
                            new = s
                        else:
                            a, b = s, new
                            while a != b:
                                while num[a] < num[b]:
                                    a = idom[a]
                                while num[b] < num[a]:
                                    b = idom[b]
                            new = a
                if new is not None and idom.get(n) != new:
                    idom[n] = new
                    changed = True
        c.ipdom = {l: (idom[l] if l in idom else None) for l in labs}
        # liveness (live-in after phis)
        use = {}
        dfn = {}
        for l in labs:
            u = set()
            d = set()
            for ins in c.fn.blocks[l]:
                if ins[0] == 'phi':
                    continue        # the set describes the point after the phis
                for r in uses_of(ins):
                    if r not in d:
                        u.add(r)
                if len(ins) > 1 and ins[0] not in ('store', 'br', 'condbr', 'switch', 'ret', 'nop', 'unreachable') and ins[1]:
                    if isinstance(ins[1], str):
                        d.add(ins[1])
            use[l] = u
            dfn[l] = d
        edge = {}
        for l in labs:
            for ins in c.fn.blocks[l]:
                if ins[0] != 'phi':
                    break
                for v, p in ins[3]:
                    if v[0] == 'reg':
                        edge.setdefault((p, l), set()).add(v[1])
        live = {l: set(use[l]) for l in labs}
        changed = True
        while changed:
            changed = False
            for l in reversed(labs):
                out = set()
                for s in c.succ[l]:
                    out |= live[s] - set(c.phidefs[s])
                    out |= edge.get((l, s), set())
                # live here includes this block's phi defs when used later
                new = use[l] | (out - dfn[l])
                if new != live[l]:
                    live[l] = new
                    changed = True
        c.live = live
        c.data = self.data_regs(c)

    @staticmethod
    def data_regs(c):
        """64-bit registers that are only ever packed into larger words: never a
        length, an index, a pointer or a discriminant."""
        bad = set()
        flow = {}       # operand -> results it flows into
        defop = {}
        stored = []
        for l in c.fn.order:
            for ins in c.fn.blocks[l]:
                o = ins[0]
                if o == 'phi':
                    defop[ins[1]] = 'phi'
                    for v, _ in ins[3]:
                        if v[0] == 'reg':
                            flow.setdefault(v[1], []).append(ins[1])
                elif o == 'bin' and ins[2] in ('or', 'and', 'xor', 'shl', 'lshr'):
                    defop[ins[1]] = ins[2]
                    for v in (ins[4], ins[5]):
                        if v[0] == 'reg':
                            flow.setdefault(v[1], []).append(ins[1])
                elif o == 'select':
                    defop[ins[1]] = 'select'
                    for v in (ins[5], ins[6]):
                        if v[0] == 'reg':
                            flow.setdefault(v[1], []).append(ins[1])
                elif o == 'cast' and ins[2] == 'trunc' and ins[5][0] == 'i' and ins[5][1] < 64:
                    pass
                elif o == 'store' and ins[2][0] == 'reg' and ins[1] == ('i', 64):
                    stored.append(ins[2][1])
                    bad.update(r for r in uses_of(('x', ins[3])))
                else:
                    bad.update(uses_of(ins))
        # a stored word is packed if it comes from an `or`, maybe through phis
        packed = {r for r, o in defop.items() if o == 'or'}
        work = list(packed)
        while work:
            for b in flow.get(work.pop(), ()):
                if b not in packed and defop[b] in ('phi', 'select'):
                    packed.add(b)
                    work.append(b)
        bad.update(r for r in stored if r not in packed)
        rev = {}
        for a, bs in flow.items():
            for b in bs:
                rev.setdefault(b, []).append(a)
        work = list(bad)
        while work:
            for a in rev.get(work.pop(), ()):
                if a not in bad:
                    bad.add(a)
                    work.append(a)
        return frozenset(r for r in defop if r not in bad)

    # ---------------------------------------------------------------- running
    def start(self, fname, args):
        st = State()
        st.frames = []
        st.mem = {}
        st.pc = ()
        st.inputs = ()
        st.obs = ()
        st.next = HEAP0
        st.tok = object()
        st.conc = {}
        st.sp = 0
        st.nin = 0
        st.reached = frozenset()
        c = self.compile(fname)
        if c is None:
            raise Inconclusive("no function " + fname)
        R = dict(c.consts)
        for (n, a) in zip(c.params, args):
            R[n] = a
        self.executed.add(c.name)
        st.frames.append(Frame(c, R, None))
        return st

    def explore_all(self, fname, args):
        st = self.start(fname, args)
        try:
            self.explore(st, 0, None)
        except Violation:
            pass

    def explore(self, st, depth, stop):
        work = [st]
        out = []
        while work:
            s = work.pop()
            if self.at_stop(s, depth, stop):
                out.append(s)
                continue
            r = self.run(s, depth, stop)
            if r is None:
                continue
            if r[0] == 'stop':
                out.append(s)
                continue
            _, succs, merge = r
            self.forks += 1
            if len(succs) > 1 and merge and self.merge_on:
                d = len(s.frames)
                fr = s.frames[-1]
                if fr.fn.ipdom is None:
                    self.analyse(fr.fn)
                J = fr.fn.ipdom.get(fr.label)
                if J is None:
                    work.extend(succs)
                    continue
                base = len(s.pc)
                res = []
                whole = True    # every alternative came back as one unconstrained state
                for c in succs:
                    pc0 = c.pc
                    got = self.explore(c, d, J)
                    if len(got) != 1 or got[0].pc is not pc0:
                        whole = False
                    res.extend(got)
                if len(res) > 1:
                    pcb = s.pc
                    res = self.merge_all(res, base, d, J)
                    if whole and len(res) == 1:
                        res[0].pc = pcb
                for m in res:
                    if self.at_stop(m, depth, stop):
                        out.append(m)
                    else:
                        work.append(m)
            else:
                work.extend(succs)
        return out

    def at_stop(self, s, depth, stop):
        if stop is None:
            return False
        n = len(s.frames)
        if stop == '$exit':
            return n == depth - 1
        return n == depth and s.frames[-1].label == stop and s.frames[-1].i == 0

    def run(self, st, depth, stop):
        """Run st until the stop point, a fork, or the end of the path.
        -> None (path over) | ('stop',) | ('fork', [states], merge)"""
        frames = st.frames
        blocks = 0
        try:
            while True:
                fr = frames[-1]
                code = fr.code
                i = i0 = fr.i
                R = fr.R
                try:
                    while True:
                        r = code[i](st, R)
                        i += 1
                        if r is not None:
                            break
                except NeedFork as nf:
                    self.instrs += i - i0
                    fr.i = i
                    del frames[frames.index(fr) + 1:]
                    succs = []
                    for v in nf.values:
                        c = st.clone()
                        e = nf.expr
                        c.pc = c.pc + (e == z3.BitVecVal(v, e.size()),)
                        c.conc[e.get_id()] = (e, v)
                        succs.append(c)
                    return ('fork', succs, nf.merge)
                self.instrs += i - i0
                if r is JUMP:
                    blocks += 1
                    if len(frames) == depth and frames[-1].label == stop:
                        return ('stop',)
                    if not (blocks & 1023):
                        self.tick()
                elif r is CALL:
                    fr.i = i
                elif r is RET:
                    if not frames:
                        self.complete(st)
                        return None
                    if stop is not None and (len(frames) < depth or (
                            len(frames) == depth and frames[-1].label == stop and frames[-1].i == 0)):
                        return ('stop',)
                else:
                    # condition fork: list of (cond, label)
                    succs = self.branch(st, fr, r)
                    if len(succs) == 1:
                        # single feasible successor: st itself was advanced
                        if len(frames) == depth and frames[-1].label == stop:
                            return ('stop',)
                        continue
                    return ('fork', succs, True)
        except PathEnd as p:
            if p.why == 'assume':
                self.paths_assumed += 1
            elif p.why == 'infeasible':
                self.paths_infeasible += 1
            return None
        finally:
            self.blocks += blocks

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive("time limit")

    def branch(self, st, fr, alts):
        self.tick()
        ok = []
        n = len(alts)
        for k, (cond, lab) in enumerate(alts):
            if k == n - 1 and not ok:
                ok.append((cond, lab))      # the path itself is feasible
            elif self.feasible(st, cond):
                ok.append((cond, lab))
        if len(ok) == 1:
            self.jump(st, st.frames[-1], ok[0][1])
            return [st]
        out = []
        for cond, lab in ok:
            c = st.clone()
            c.pc = c.pc + (cond,)
            self.jump(c, c.frames[-1], lab)
            out.append(c)
        # The successors are already past the branch; a successor that sits at the
        # merge block itself is detected by at_stop in explore via run's first check.
        return out

    def jump(self, st, fr, lab):
        c = fr.fn
        ph = c.blocks[lab]
        edges = c.phidefs.get(('edge', fr.label, lab))
        if edges:
            R = fr.R
            vals = [R[k] for _, k in edges]
            for (d, _), v in zip(edges, vals):
                R[d] = v
        fr.label = lab
        fr.code = ph
        fr.i = 0

    def complete(self, st):
        self.paths_done += 1
        if self.paths_done > self.max_paths:
            raise Inconclusive("path limit")
        for r in st.reached:
            self.reached[r] = self.reached.get(r, 0) + 1
        fresh = st.reached - self.witnessed
        if (fresh or len(self.witnesses) < self.want_witness) and self.opts.get('make_witness', True):
            self.witnessed |= st.reached
            try:
                self.witness(st)
            except PathEnd:
                self.paths_infeasible += 1
                for r in st.reached:
                    self.reached[r] -= 1
                self.witnessed -= fresh
            except Inconclusive:
                self.witnessed -= fresh
                self.witness_skipped += 1

    def random_inputs(self, st):
        """Inputs of this path, as random as its constraints allow."""
        base = self.model_inputs(st)
        rng = self.rng
        val = {}
        fixed = []
        for (kind, var), (_, v0) in zip(st.inputs, base):
            if var.__class__ is int or not z3.is_bv(var) or kind in ('choose', 'f32'):
                continue
            n = var.size()
            v = rng.choice((rng.getrandbits(n), rng.getrandbits(n), rng.getrandbits(n) & 7, (1 << n) - 1 - rng.getrandbits(min(n, 3))))
            sl, kind2 = self.sol.slice(st.pc, [var == v])
            if len(sl) > 1 or fixed:
                if kind2:
                    continue
                r, _ = self.sol.check(list(st.pc) + fixed, [var == v])
                if r != 'sat':
                    continue
            fixed.append(var == v)
        if fixed:
            keep = st.pc
            st.pc = st.pc + tuple(fixed)
            try:
                return self.model_inputs(st)
            except (PathEnd, Inconclusive):
                return base
            finally:
                st.pc = keep
        return base

    def witness(self, st):
        inp = self.random_inputs(st)
        sub = []
        for (kind, var), (k2, val) in zip(st.inputs, inp):
            if var.__class__ is int:
                continue
            if z3.is_bv(var):
                sub.append((var, z3.BitVecVal(val, var.size())))
        obs = []
        for o in st.obs:
            if o is None or o.__class__ is int:
                obs.append(o)
            else:
                e = z3.simplify(z3.substitute(o, *sub)) if sub else z3.simplify(o)
                if z3.is_bv_value(e):
                    obs.append(e.as_long())
                else:
                    obs.append(self._obs_solve(e))
        self.witnesses.append({'inputs': inp, 'obs': obs})

    def _obs_solve(self, e):
        # value depends on defined variables (q/r of divisions): solve for it
        p = z3.BitVec('probe!', e.size())
        r, m = self.sol.check((), [p == e], important=True, want_model=True)
        if r != 'sat' or self.mode == 'real':
            return None
        v = m.eval(p, model_completion=True).as_long()
        r, _ = self.sol.check((), [p == e, p != v], important=True)
        return v if r == 'unsat' else None

    # ---------------------------------------------------------------- merging
    def merge_all(self, res, base, d, J):
        """Merge the states of res that are compatible (path conditions become the
        disjunction of the members' suffixes)."""
        groups = []
        for s in res:
            suf = s.pc[base:]
            g = z3.And(*suf) if len(suf) != 1 else suf[0]
            for grp in groups:
                if self.try_merge(grp[0], s, grp[1], (g, len(suf)), d, J):
                    grp[1].append((g, len(suf)))
                    self.merges += 1
                    break
            else:
                groups.append((s, [(g, len(suf))]))
        for s, gs in groups:
            if len(gs) > 1:
                pc = s.pc[:base]
                if any(n == 0 for _, n in gs):
                    s.pc = pc
                    continue
                ids = {g.get_id() for g, _ in gs}
                if any(z3.is_not(g) and g.arg(0).get_id() in ids for g, _ in gs):
                    s.pc = pc
                    continue
                if len(gs) == 2 and gs[0][1] + gs[1][1] <= 3:
                    o = z3.simplify(z3.Or(gs[0][0], gs[1][0]))
                    s.pc = pc if z3.is_true(o) else pc + (o,)
                    continue
                s.pc = pc + (z3.Or(*[g for g, _ in gs]),)
        return [s for s, _ in groups]

    def refuse(self, why):
        self.merge_refused += 1
        self.refuse_why[why] = self.refuse_why.get(why, 0) + 1
        return None

    def try_merge(self, a, b, gas, gbn, d, J):
        """Merge b into a; gas: guards of a's members, gbn: guard of b."""
        if len(a.frames) != len(b.frames):
            return self.refuse('frames')
        if a.nin != b.nin or len(a.obs) != len(b.obs):
            return self.refuse('inputs')
        for x, y in zip(a.inputs, b.inputs):
            if x is not y and not (x[0] == y[0] and x[1] is y[1]):
                return self.refuse('inputs')
        if a.reached != b.reached:
            return self.refuse('reached')
        if not a.frames:
            return self.refuse('end')
        fa, fb = a.frames[-1], b.frames[-1]
        if fa.label != fb.label or fa.i != fb.i or fa.fn is not fb.fn:
            return self.refuse('position')
        gb, nb = gbn
        self.merging = a.mem
        if len(gas) > 1 or nb < gas[0][1]:
            g, flip = gb, True
        else:
            g, flip = gas[0][0], False

        def ite(x, y, t):
            return self.ite(g, y, x, t) if flip else self.ite(g, x, y, t)

        # registers
        newR = {}
        if fa.fn.live is None:
            self.analyse(fa.fn)
        if J == '$exit':
            names = list(fa.R)
        else:
            if fa.fn.live is None:
                self.analyse(fa.fn)
            names = fa.fn.live[J]
        for r in names:
            if r is None:
                continue
            x = fa.R.get(r)
            y = fb.R.get(r)
            if x is y:
                continue
            if x is None or y is None:
                if x is None:
                    newR[r] = y
                continue
            t = fa.fn.regtype[r]
            if r in fa.fn.data and t == ('i', 64):
                v = ite(x, y, t)
            else:
                v = self.merge_val(t, x, y, ite)
            if v is None:
                return self.refuse('reg')
            newR[r] = v
        # memory
        ka, kb = a.mem, b.mem
        extra = {}
        if ka.keys() != kb.keys():
            for k in ka.keys() ^ kb.keys():
                if k < HEAP0:
                    extra[k] = True     # global materialised on one side only
                else:
                    return self.refuse('objects')
        newO = {}
        for k, oa in ka.items():
            ob = kb.get(k)
            if ob is None:
                ob = self.gobj[k][0]
            if oa is ob or oa.data is ob.data:
                continue
            m = self.merge_obj(oa, ob, ite)
            if m is None:
                return None
            if m is not oa:
                newO[k] = m
        for k in extra:
            if k not in ka:
                oa = self.gobj[k][0]
                m = self.merge_obj(oa, kb[k], ite)
                if m is None:
                    return None
                newO[k] = m
        obs = []
        for x, y in zip(a.obs, b.obs):
            if x is y:
                obs.append(x)
            elif x is None or y is None:
                obs.append(None)
            else:
                obs.append(ite(x, y, L.ity(64)))
        a.obs = tuple(obs)
        fa.R.update(newR)
        a.next = max(a.next, b.next)
        a.tok = object()
        for k, o in newO.items():
            o.owner = a.tok
            a.mem[k] = o
        conc = {}
        for k, v in a.conc.items():
            w = b.conc.get(k)
            if w is not None and w[1] == v[1]:
                conc[k] = v
        a.conc = conc
        return a

    def live_ptr(self, v):
        if v.__class__ is not int or v < (GLOB0 << SHIFT):
            return False
        return (v >> SHIFT) in self.merging or (v >> SHIFT) in self.gname or (v >> SHIFT) >= FUNC0

    def control(self, x, y):
        """Do two differing 64-bit constants look like lengths, indices, discriminants
        or pointers?  Those stay concrete (the states are kept apart); packed
        structs of small fields are merged.  Either choice is sound."""
        if self.live_ptr(x) or self.live_ptr(y):
            return True
        return (x < 65536 or x >= NICHE) and (y < 65536 or y >= NICHE)

    def merge_val(self, t, x, y, ite):
        k = t[0]
        if k in ('st', 'arr', 'vec'):
            ts = t[1] if k == 'st' else (t[2],) * t[1]
            out = []
            for p, q, tt in zip(x, y, ts):
                if p is q:
                    out.append(p)
                    continue
                v = self.merge_val(tt, p, q, ite)
                if v is None:
                    return None
                out.append(v)
            return tuple(out)
        if x.__class__ is int and y.__class__ is int:
            if x == y:
                return x
            if k == 'ptr' or (k == 'i' and t[1] >= 64 and self.control(x, y)):
                return None
        elif k == 'ptr' or self.live_ptr(x) or self.live_ptr(y):
            if k == 'ptr' or (k == 'i' and t[1] == 64):
                if x.__class__ is not int and y.__class__ is not int and x.eq(y):
                    return x
                return None
        elif x.__class__ is not int and y.__class__ is not int and x.__class__ is not SymF and y.__class__ is not SymF and x.eq(y):
            return x
        return ite(x, y, t)

    def merge_obj(self, oa, ob, ite):
        if oa.size != ob.size:
            return self.refuse('size')
        da, db = oa.data, ob.data
        if da == db if False else self.same_data(da, db):
            return oa
        n = oa.size
        new = list(da)
        i = 0
        while i < n:
            p, q = da[i], db[i]
            if p is q or (p.__class__ is int and q.__class__ is int and p == q) or \
                    (p.__class__ is tuple and q.__class__ is tuple and p[1] == q[1] and (p[0] is q[0])):
                i += 1
                continue
            # aligned 8-byte word: pointers, lengths and discriminants stay concrete
            w = i & ~7
            if w + 8 <= n:
                wa, wb = da[w:w + 8], db[w:w + 8]
                ia = self.word(wa)
                ib = self.word(wb)
                if ia is not None and ib is not None and ia != ib and self.control(ia, ib):
                    return self.refuse('word')
                if (ia is not None and self.live_ptr(ia) and None not in wa) or \
                        (ib is not None and self.live_ptr(ib) and None not in wb):
                    if None in wa or None in wb:
                        pass
                    else:
                        return self.refuse('ptrword')
            if p is None or q is None:
                new[i] = q if p is None else p
                i += 1
                continue
            # a run of bytes that belong to one stored value
            ln = 1
            if p.__class__ is tuple and p[1] == 0:
                ln = p[2]
            if q.__class__ is tuple and q[1] == 0:
                ln = max(ln, q[2])
            if ln > 1 and i + ln <= n:
                va = self.whole(da[i:i + ln])
                vb = self.whole(db[i:i + ln])
                if va is not None and vb is not None:
                    if va.__class__ is SymF or vb.__class__ is SymF:
                        t = ('f', ln * 8)
                    else:
                        t = L.ity(ln * 8)
                    v = ite(va, vb, t)
                    if v.__class__ is int:
                        new[i:i + ln] = list(v.to_bytes(ln, 'little'))
                    else:
                        new[i:i + ln] = [(v, j, ln) for j in range(ln)]
                    i += ln
                    continue
            try:
                va = p if p.__class__ is int else self.assemble([p], 8)
                vb = q if q.__class__ is int else self.assemble([q], 8)
            except Escalate:
                return self.refuse('float byte')
            v = ite(va, vb, L.ity(8))
            new[i] = v if v.__class__ is int else (v, 0, 1)
            i += 1
        return Obj(n, new, None, oa.ro, oa.kind)

    @staticmethod
    def word(d):
        try:
            return int.from_bytes(bytes(d), 'little')
        except (TypeError, ValueError):
            return None

    def whole(self, d):
        """Bytes -> one value (int, BV or SymF) or None."""
        try:
            return int.from_bytes(bytes(d), 'little')
        except (TypeError, ValueError):
            pass
        p = d[0]
        if p.__class__ is tuple and p[1] == 0 and p[2] == len(d) and \
                all(q.__class__ is tuple and q[0] is p[0] and q[1] == j for j, q in enumerate(d)):
            return p[0]
        if any(q is None for q in d):
            return None
        if any(q.__class__ is tuple and q[0].__class__ is SymF for q in d):
            return None
        return self.assemble(d, 8 * len(d))

    @staticmethod
    def same_data(da, db):
        for p, q in zip(da, db):
            if p is q:
                continue
            if p.__class__ is int:
                if q.__class__ is not int or p != q:
                    return False
            elif p.__class__ is tuple and q.__class__ is tuple:
                if p[0] is not q[0] or p[1] != q[1]:
                    return False
            else:
                return False
        return True


from compile import Compiler, Models, uses_of  # noqa: E402  (mutual import)
