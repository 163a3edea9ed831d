"""Instruction -> closure compiler for the symbolic executor, with the models of
LLVM intrinsics, libc allocation/string functions and harness primitives."""
import re

import z3

import llparse as L
import symex as S
from values import *

OFFM = S.OFFM
SHIFT = S.SHIFT
U64 = S.U64
JUMP, CALL, RET = S.JUMP, S.CALL, S.RET


def uses_of(ins):
    """Registers read by an instruction."""
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'reg' and isinstance(x[1], str):
                out.append(x[1])
                return
            for y in x:
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    for x in ins[1:]:
        walk(x)
    return out


class Compiler:
    def __init__(self, eng, c, phis):
        self.e = eng
        self.c = c
        self.phis = phis
        self.ck = {}

    def key(self, t, v):
        """R key for an operand."""
        if v[0] == 'reg':
            return v[1]
        val = self.e.const_val(t, v[1])
        k = '#%d' % len(self.c.consts)
        try:
            kk = (t, val)
            o = self.ck.get(kk)
            if o is not None:
                return o
            self.ck[kk] = k
        except TypeError:
            pass
        self.c.consts[k] = val
        return k

    def block(self, lab, instrs, out):
        self.lab = lab
        succ = []
        for ins in instrs:
            if ins[0] == 'phi':
                self.c.regtype[ins[1]] = ins[2]
                continue
            out.append(getattr(self, 'c_' + ins[0])(*ins[1:]))
            if ins[0] == 'br':
                succ.append(ins[1])
            elif ins[0] == 'condbr':
                succ += [ins[2], ins[3]]
            elif ins[0] == 'switch':
                succ.append(ins[3])
                succ += [l for _, l in ins[4]]
            elif ins[0] == 'invoke':
                succ.append(ins[5])
        su = []
        for s in succ:
            if s not in su:
                su.append(s)
        self.c.succ[lab] = su
        for s in su:
            edges = []
            for ph in self.phis[s]:
                for v, p in ph[3]:
                    if p == lab:
                        edges.append((ph[1], self.key(ph[2], v)))
                        break
            if edges:
                self.c.phidefs[('edge', lab, s)] = edges

    # ------------------------------------------------------------ arithmetic
    def c_bin(self, d, op, t, a, b, flags):
        e = self.e
        A, B = self.key(t, a), self.key(t, b)
        self.c.regtype[d] = t
        if t[0] == 'f':
            bits = t[1]

            def f(st, R):
                R[d] = e.fl.bin(op, R[A], R[B], bits)
            return f
        if t[0] == 'vec':
            et = t[2]
            if et[0] == 'f':
                def f(st, R):
                    R[d] = tuple(e.fl.bin(op, x, y, et[1]) for x, y in zip(R[A], R[B]))
                return f
            n = et[1]

            def f(st, R):
                R[d] = tuple(e.binop(op, n, x, y) for x, y in zip(R[A], R[B]))
            return f
        n = t[1]
        m = (1 << n) - 1
        if op == 'add':
            def f(st, R):
                x = R[A]
                y = R[B]
                R[d] = (x + y) & m if x.__class__ is int and y.__class__ is int else e.binop('add', n, x, y)
        elif op == 'sub':
            def f(st, R):
                x = R[A]
                y = R[B]
                R[d] = (x - y) & m if x.__class__ is int and y.__class__ is int else e.binop('sub', n, x, y)
        elif op == 'and':
            def f(st, R):
                x = R[A]
                y = R[B]
                R[d] = x & y if x.__class__ is int and y.__class__ is int else e.binop('and', n, x, y)
        elif op == 'or':
            def f(st, R):
                x = R[A]
                y = R[B]
                R[d] = x | y if x.__class__ is int and y.__class__ is int else e.binop('or', n, x, y)
        elif op == 'xor':
            def f(st, R):
                x = R[A]
                y = R[B]
                R[d] = x ^ y if x.__class__ is int and y.__class__ is int else e.binop('xor', n, x, y)
        else:
            def f(st, R):
                R[d] = e.binop(op, n, R[A], R[B])
        return f

    def c_cast(self, d, op, t, a, tt):
        e = self.e
        A = self.key(t, a)
        self.c.regtype[d] = tt
        if op == 'trunc' and tt[0] == 'i':
            m = (1 << tt[1]) - 1

            def f(st, R):
                x = R[A]
                R[d] = x & m if x.__class__ is int else e.cast(op, t, tt, x)
            return f
        if op == 'zext' and tt[0] == 'i':
            def f(st, R):
                x = R[A]
                R[d] = x if x.__class__ is int else e.cast(op, t, tt, x)
            return f

        def f(st, R):
            R[d] = e.cast(op, t, tt, R[A])
        return f

    def c_fneg(self, d, t, v):
        e = self.e
        A = self.key(t, v)
        self.c.regtype[d] = t

        def f(st, R):
            R[d] = e.fl.neg(R[A], t[1])
        return f

    def c_freeze(self, d, t, v):
        A = self.key(t, v)
        self.c.regtype[d] = t

        def f(st, R):
            R[d] = R[A]
        return f

    def c_icmp(self, d, pred, t, a, b):
        e = self.e
        A, B = self.key(t, a), self.key(t, b)
        if t[0] == 'vec':
            self.c.regtype[d] = ('vec', t[1], L.ity(1))
            n = 64 if t[2][0] == 'ptr' else t[2][1]

            def f(st, R):
                R[d] = tuple(e.icmp(pred, n, x, y) for x, y in zip(R[A], R[B]))
            return f
        self.c.regtype[d] = L.ity(1)
        n = 64 if t[0] == 'ptr' else t[1]
        if pred == 'eq':
            def f(st, R):
                x = R[A]
                y = R[B]
                R[d] = (1 if x == y else 0) if x.__class__ is int and y.__class__ is int else e.icmp(pred, n, x, y)
        elif pred == 'ult':
            def f(st, R):
                x = R[A]
                y = R[B]
                R[d] = (1 if x < y else 0) if x.__class__ is int and y.__class__ is int else e.icmp(pred, n, x, y)
        else:
            def f(st, R):
                R[d] = e.icmp(pred, n, R[A], R[B])
        return f

    def c_fcmp(self, d, pred, t, a, b):
        e = self.e
        A, B = self.key(t, a), self.key(t, b)
        if t[0] == 'vec':
            self.c.regtype[d] = ('vec', t[1], L.ity(1))

            def f(st, R):
                R[d] = tuple(e.fl.cmp(pred, x, y, t[2][1]) for x, y in zip(R[A], R[B]))
            return f
        self.c.regtype[d] = L.ity(1)

        def f(st, R):
            R[d] = e.fl.cmp(pred, R[A], R[B], t[1])
        return f

    def c_select(self, d, ct, c, t, a, b):
        e = self.e
        C = self.key(ct, c)
        A, B = self.key(t, a), self.key(t, b)
        self.c.regtype[d] = t
        if ct[0] == 'vec':
            def f(st, R):
                R[d] = tuple((x if cc else y) if cc.__class__ is int else e.ite(cc, x, y, t[2])
                             for cc, x, y in zip(R[C], R[A], R[B]))
            return f

        def f(st, R):
            cc = R[C]
            if cc.__class__ is int:
                R[d] = R[A] if cc else R[B]
            else:
                R[d] = e.ite(cc, R[A], R[B], t)
        return f

    # ------------------------------------------------------------ memory
    def c_load(self, d, t, p):
        e = self.e
        P = self.key(L.PTR, p)
        self.c.regtype[d] = t
        if (t[0] == 'i' and t[1] % 8 == 0) or t[0] == 'ptr':
            n = L.size_of(t) if t[0] == 'ptr' else t[1] // 8

            def f(st, R):
                a = R[P]
                if a.__class__ is int:
                    o = st.mem.get(a >> SHIFT)
                    if o is not None:
                        off = a & OFFM
                        if off + n <= o.size:
                            try:
                                R[d] = int.from_bytes(o.data[off:off + n], 'little')
                                return
                            except TypeError:
                                pass
                R[d] = e.load(st, t, a)
            return f

        def f(st, R):
            R[d] = e.load(st, t, R[P])
        return f

    def c_store(self, t, v, p):
        e = self.e
        V = self.key(t, v)
        P = self.key(L.PTR, p)

        def f(st, R):
            e.store(st, t, R[V], R[P])
        return f

    def c_alloca(self, d, t, n, al):
        e = self.e
        N = self.key(L.ity(64), n) if n[0] == 'reg' else None
        k = 1 if N else n[1][1]
        sz = L.size_of(t)
        self.c.regtype[d] = L.PTR

        def f(st, R):
            cnt = e.concretize(st, R[N]) if N else k
            R[d] = e.stack_alloc(st, sz * cnt)
        return f

    def c_gep(self, d, bt, ops):
        e = self.e
        self.c.regtype[d] = L.PTR
        base = self.key(L.PTR, ops[0][1])
        if ops[0][0][0] == 'vec':
            raise Inconclusive("vector gep")
        const = 0
        dyn = []
        t = bt
        for n, (it, v) in enumerate(ops[1:]):
            if n == 0:
                stride = L.size_of(t)
                if v[0] == 'c':
                    const += sgn(e.const_val(it, v[1]), it[1]) * stride
                else:
                    dyn.append((v[1], stride, it[1]))
                continue
            if t[0] == 'st':
                i = e.const_val(it, v[1])
                const += L.field_offset(t, i)
                t = t[1][i]
            else:
                stride = L.size_of(t[2])
                if v[0] == 'c':
                    const += sgn(e.const_val(it, v[1]), it[1]) * stride
                else:
                    dyn.append((v[1], stride, it[1]))
                t = t[2]
        if not dyn:
            def f(st, R):
                b = R[base]
                R[d] = (b + const) & U64 if b.__class__ is int else e.binop('add', 64, b, const & U64)
            return f
        if len(dyn) == 1 and dyn[0][2] == 64:
            k, stride, _ = dyn[0]

            def f(st, R):
                b = R[base]
                i = R[k]
                if b.__class__ is int and i.__class__ is int:
                    R[d] = (b + const + i * stride) & U64
                else:
                    off = e.binop('mul', 64, i, stride)
                    R[d] = e.binop('add', 64, e.binop('add', 64, b, const & U64), off)
            return f

        def f(st, R):
            a = e.binop('add', 64, R[base], const & U64)
            for k, stride, bits in dyn:
                i = R[k]
                if bits < 64:
                    i = e.cast('sext', L.ity(bits), L.ity(64), i)
                a = e.binop('add', 64, a, e.binop('mul', 64, i, stride))
            R[d] = a
        return f

    # ------------------------------------------------------------ aggregates
    def c_extractvalue(self, d, t, a, idx):
        A = self.key(t, a)
        tt = t
        for i in idx:
            tt = tt[1][i] if tt[0] == 'st' else tt[2]
        self.c.regtype[d] = tt

        def f(st, R):
            v = R[A]
            for i in idx:
                v = v[i]
            R[d] = v
        return f

    def c_insertvalue(self, d, t, a, et, ev, idx):
        A = self.key(t, a)
        E = self.key(et, ev)
        self.c.regtype[d] = t

        def ins(v, ix, x):
            if not ix:
                return x
            return v[:ix[0]] + (ins(v[ix[0]], ix[1:], x),) + v[ix[0] + 1:]

        def f(st, R):
            R[d] = ins(R[A], idx, R[E])
        return f

    def c_extractelement(self, d, t, a, i):
        e = self.e
        A = self.key(t, a)
        I = self.key(L.ity(64), i)
        self.c.regtype[d] = t[2]

        def f(st, R):
            R[d] = R[A][e.concretize(st, R[I])]
        return f

    def c_insertelement(self, d, t, a, ev, i):
        e = self.e
        A = self.key(t, a)
        E = self.key(t[2], ev)
        I = self.key(L.ity(64), i)
        self.c.regtype[d] = t

        def f(st, R):
            k = e.concretize(st, R[I])
            v = R[A]
            R[d] = v[:k] + (R[E],) + v[k + 1:]
        return f

    def c_shufflevector(self, d, t, a, b, mt, m):
        A = self.key(t, a)
        B = self.key(t, b)
        mask = self.e.const_val(mt, m)
        self.c.regtype[d] = ('vec', mt[1], t[2])

        def f(st, R):
            v = R[A] + R[B]
            R[d] = tuple(v[k] for k in mask)
        return f

    # ------------------------------------------------------------ control
    def c_br(self, lab):
        e = self.e

        def f(st, R):
            e.jump(st, st.frames[-1], lab)
            return JUMP
        return f

    def c_condbr(self, c, a, b):
        e = self.e
        C = self.key(L.ity(1), c)

        def f(st, R):
            v = R[C]
            if v.__class__ is int:
                e.jump(st, st.frames[-1], a if v else b)
                return JUMP
            if a == b:
                e.jump(st, st.frames[-1], a)
                return JUMP
            return [(v, a), (norm_not(v), b)]
        return f

    def c_switch(self, t, v, default, cases):
        e = self.e
        V = self.key(t, v)
        n = t[1]
        m = (1 << n) - 1
        table = {}
        for c, l in cases:
            table[c & m] = l

        def f(st, R):
            x = R[V]
            if x.__class__ is int:
                e.jump(st, st.frames[-1], table.get(x, default))
                return JUMP
            x = to_bv(x, n)
            groups = {}
            for c, l in table.items():
                groups.setdefault(l, []).append(c)
            alts = []
            neg = []
            for l, cs in groups.items():
                conds = [x == z3.BitVecVal(c, n) for c in cs]
                cond = conds[0] if len(conds) == 1 else z3.Or(*conds)
                neg.append(z3.Not(cond))
                if l == default:
                    continue
                alts.append((cond, l))
            dn = [z3.Not(c) for c, _ in alts]
            alts.append((z3.And(*dn) if len(dn) != 1 else dn[0], default))
            return alts
        return f

    def c_ret(self, t, v):
        e = self.e
        V = self.key(t, v) if v is not None else None

        def f(st, R):
            frames = st.frames
            fr = frames.pop()
            if fr.allocas:
                for o in fr.allocas:
                    st.mem.pop(o, None)
                st.sp -= len(fr.allocas)
            if frames:
                dst = fr.dest
                if dst is not None:
                    reg, ok = dst
                    caller = frames[-1]
                    if reg is not None and V is not None:
                        caller.R[reg] = R[V]
                    if ok is not None:
                        e.jump(st, caller, ok)
            return RET
        return f

    def c_unreachable(self):
        e = self.e

        def f(st, R):
            e.violation(st, 'unreachable', 'reached an unreachable instruction in ' + S.demangle(st.frames[-1].fn.name), [])
            raise S.PathEnd('infeasible')
        return f

    c_unreachable_resume = c_unreachable

    def c_landingpad(self, d):
        self.c.regtype[d] = L.ity(64)
        return lambda st, R: None

    def c_nop(self):
        return lambda st, R: None

    def c_asm(self, d):
        def f(st, R):
            raise Inconclusive("inline assembly")
        return f

    def c_unsupported(self, d, text):
        def f(st, R):
            raise Inconclusive("unsupported instruction " + text)
        return f

    def c_atomicrmw(self, d, op, t, p, v):
        e = self.e
        P = self.key(L.PTR, p)
        V = self.key(t, v)
        self.c.regtype[d] = t

        def f(st, R):
            a = e.concretize(st, R[P])
            old = e.load(st, t, a)
            x = R[V]
            n = 64 if t[0] == 'ptr' else t[1]
            if op == 'xchg':
                new = x
            elif op in ('add', 'sub', 'and', 'or', 'xor'):
                new = e.binop(op, n, old, x)
            else:
                raise Inconclusive("atomicrmw " + op)
            e.store(st, t, new, a)
            R[d] = old
        return f

    def c_cmpxchg(self, d, t, p, c, nv):
        e = self.e
        P = self.key(L.PTR, p)
        C = self.key(t, c)
        N = self.key(t, nv)
        self.c.regtype[d] = ('st', (t, L.ity(1)), False)
        n = 64 if t[0] == 'ptr' else t[1]

        def f(st, R):
            a = e.concretize(st, R[P])
            old = e.load(st, t, a)
            eq = e.icmp('eq', n, old, R[C])
            eq = e.concretize(st, eq) if eq.__class__ is not int else eq
            if eq:
                e.store(st, t, R[N], a)
            R[d] = (old, eq)
        return f

    # ------------------------------------------------------------ calls
    def c_call(self, d, t, callee, args, ok=None):
        e = self.e
        if d is not None:
            self.c.regtype[d] = t
        aks = [self.key(at, av) if av is not None else None for at, av in args]
        atys = [at for at, av in args]
        lab = self.lab
        if callee[0] == 'c':
            addr = e.const_val(L.PTR, callee[1])
            fixed = e.fname.get(addr)
            CK = None
            if fixed is not None and ok is None and fixed.startswith('@llvm.') and \
                    re.match(r'@llvm\.(lifetime|assume|experimental\.noalias|dbg|donothing|prefetch|invariant)', fixed):
                return lambda st, R: None
        else:
            fixed = None
            CK = callee[1]
        cell = [None, None]      # resolved name -> (kind, target)
        dest = (d, ok) if (d is not None or ok is not None) else None

        def f(st, R):
            if CK is not None:
                a = R[CK]
                if a.__class__ is not int:
                    a = e.concretize(st, a)
                name = e.fname.get(a)
                if name is None:
                    e.memfault(st, "call through a bad function pointer")
            else:
                name = fixed
                if name is None:
                    raise Inconclusive("call of a constant address")
            if cell[0] == name:
                target = cell[1]
            else:
                target = e.resolve(name, t, atys)
                cell[0] = name
                cell[1] = target
            vals = [R[k] if k is not None else None for k in aks]
            if target.__class__ is S.CFn:
                RR = dict(target.consts)
                for n, v in zip(target.params, vals):
                    RR[n] = v
                if len(st.frames) > 400:
                    raise Inconclusive("call depth")
                st.frames.append(S.Frame(target, RR, dest))
                return CALL
            v = target(st, vals)
            if d is not None:
                R[d] = v
            if ok is not None:
                e.jump(st, st.frames[-1], ok)
                return JUMP
        return f

    def c_invoke(self, d, t, callee, args, ok):
        return self.c_call(d, t, callee, args, ok)


def norm_not(v):
    if z3.is_not(v):
        return v.arg(0)
    return z3.Not(v)


# ---------------------------------------------------------------- models
class Models:
    """Calls that are not executed as IR."""

    def __init__(self, e):
        self.e = e

    def resolve(self, name, t, atys):
        e = self.e
        n = name[1:].strip('"')
        if S.PANIC.search(name):
            return lambda st, a: self.panic(st, name, a)
        if n.startswith('llvm.'):
            return self.intrinsic(n, t, atys)
        m = getattr(self, 'x_' + n.replace('.', '_').replace('$', '_'), None)
        if m is not None and (n not in e.mod.funcs):
            return m
        if name in e.mod.aliases:
            g = re.search(r'@("[^"]*"|[\w.$\-]+)', e.mod.aliases[name]).group(0)
            return self.resolve(g, t, atys)
        c = e.compile(name)
        if c is not None:
            e.executed.add(name)
            return c
        if m is not None:
            return m

        def bad(st, a):
            raise Inconclusive("call of external function " + n)
        return bad

    # -- panics
    def panic(self, st, name, args):
        e = self.e
        msg = S.demangle(name)
        loc = None
        cand = list(args)
        for fr in st.frames[-3:]:
            cand += [v for v in fr.R.values() if v.__class__ is int and v >= (S.GLOB0 << SHIFT)]
        for a in cand:
            l = self.location(st, a)
            if l:
                loc = l
                break
        e.violation(st, 'panic', msg + (' at ' + loc if loc else ''), [])
        raise S.PathEnd('infeasible')

    def location(self, st, a):
        e = self.e
        if a.__class__ is not int or (a >> SHIFT) not in e.gname:
            return None
        try:
            d = e.load_bytes(st, a, 24)
            p = int.from_bytes(d[0:8], 'little')
            n = int.from_bytes(d[8:16], 'little')
            line = int.from_bytes(d[16:20], 'little')
            if not (0 < n < 300) or (p >> SHIFT) not in e.gname:
                return None
            s = bytes(e.load_bytes(st, p, n)).rstrip(b'\0').decode()
            if '.rs' not in s:
                return None
            return '%s:%d' % (s, line)
        except (S.Violation, S.PathEnd, TypeError, UnicodeDecodeError, Inconclusive):
            return None

    # -- harness primitives
    def inp(self, st, kind, n):
        e = self.e
        nm = 'in%d_%s' % (st.nin, kind)
        v = e.invars.get(nm)
        if v is None:
            v = e.invars[nm] = z3.BitVec(nm, n)
        st.nin += 1
        st.inputs = st.inputs + ((kind, v),)
        return v

    def x_sym_u8(self, st, a):
        return self.inp(st, 'u8', 8)

    def x_sym_u16(self, st, a):
        return self.inp(st, 'u16', 16)

    def x_sym_u32(self, st, a):
        return self.inp(st, 'u32', 32)

    def x_sym_u64(self, st, a):
        return self.inp(st, 'u64', 64)

    def x_sym_bool(self, st, a):
        v = self.inp(st, 'bool', 1)
        return v == 1

    def x_sym_choose(self, st, a):
        e = self.e
        n = e.concretize(st, a[0])
        nm = 'in%d_choose' % st.nin
        v = e.invars.get(nm)
        if v is None:
            v = e.invars[nm] = z3.BitVec(nm, 32)
        c = st.conc.get(v.get_id())
        if c is None:
            if n == 0:
                raise Inconclusive("choose(0)")
            raise S.NeedFork(v, list(range(n - 1, -1, -1)), merge=False)
        st.nin += 1
        st.inputs = st.inputs + (('choose', v),)
        return c[1]

    def x_sym_f32(self, st, a):
        e = self.e
        if e.mode == 'real':
            raise Escalate("unconstrained float input")
        v = self.inp(st, 'f32', 32)
        return e.fl.from_bits(v, 32)

    def x_sym_f32_range(self, st, a):
        e = self.e
        lo, hi = a
        if e.mode == 'fp':
            v = self.inp(st, 'f32', 32)
            f = e.fl.from_bits(v, 32)
            k = ('rng', v.get_id(), lo, hi)
            c = z3.And(z3.fpLEQ(e.fl.lift(lo, 32).e, f.e), z3.fpLEQ(f.e, e.fl.lift(hi, 32).e))
            st.pc = st.pc + (c,)
            return f
        fl, fh = f_to_fraction(lo, 32), f_to_fraction(hi, 32)
        nm = 'in%d_f32r_%x_%x' % (st.nin, lo, hi)
        v = e.invars.get(('var', nm))
        if v is None:
            v = e.invars[('var', nm)] = z3.Real(nm)
            e.invars[nm] = (fl, fh)
            e.sol.add_def(v, z3.And(v >= rconst(fl), v <= rconst(fh)))
        st.nin += 1
        st.inputs = st.inputs + (('f32', v),)
        return SymF(32, v, fl, fh)

    def x_sym_assume(self, st, a):
        e = self.e
        c = a[0]
        if c.__class__ is int:
            if not c:
                raise S.PathEnd('assume')
            return 0
        if not e.feasible(st, c):
            raise S.PathEnd('assume')
        st.pc = st.pc + (c,)
        return 0

    def x_sym_assert(self, st, a):
        e = self.e
        c = a[0]
        i = a[1]
        r = e.asserts.setdefault(i, [0, 0])
        r[0] += 1
        e.sol.stats.asserts += 1
        if c.__class__ is int:
            if not c:
                e.violation(st, 'assert', 'assertion %d' % i, [], i)
                raise S.PathEnd('infeasible')
            return 0
        r[1] += 1
        if e.violation(st, 'assert', 'assertion %d' % i, [z3.Not(c)], i):
            st.pc = st.pc + (c,)
        return 0

    def x_sym_reach(self, st, a):
        i = a[0]
        st.reached = st.reached | {i}
        return 0

    def x_sym_observe(self, st, a):
        st.obs = st.obs + (a[0],)
        return 0

    def x_sym_observe_f32(self, st, a):
        e = self.e
        v = a[0]
        if v.__class__ is not int:
            if e.mode == 'real':
                v = None
            else:
                v = e.fl.to_bits(v)
        if v.__class__ is not int and v is not None:
            v = z3.ZeroExt(32, v)
        st.obs = st.obs + (v,)
        return 0

    def x_sym_concrete(self, st, a):
        """Fork over every feasible value of the argument."""
        return self.e.concretize(st, a[0], limit=5000, merge=False)

    # -- libc
    def x_malloc(self, st, a):
        return self.e.alloc(st, self.e.concretize(st, a[0]))

    def x_calloc(self, st, a):
        e = self.e
        return e.alloc(st, e.concretize(st, a[0]) * e.concretize(st, a[1]), zero=True)

    def x_realloc(self, st, a):
        e = self.e
        p = e.concretize(st, a[0])
        n = e.concretize(st, a[1])
        q = e.alloc(st, n)
        if p:
            o = e.obj(st, p >> SHIFT)
            k = min(n, o.size)
            e.obj(st, q >> SHIFT, True).data[:k] = o.data[:k]
            st.mem.pop(p >> SHIFT)
        return q

    def x_posix_memalign(self, st, a):
        e = self.e
        p = e.alloc(st, e.concretize(st, a[2]))
        e.store(st, L.PTR, p, a[0])
        return 0

    def x_free(self, st, a):
        p = self.e.concretize(st, a[0])
        if p:
            if (p >> SHIFT) not in st.mem or p & OFFM:
                self.e.memfault(st, "bad free")
            st.mem.pop(p >> SHIFT)
        return 0

    def copy(self, st, d, s, n):
        e = self.e
        n = e.concretize(st, n)
        if n == 0:
            return d
        s = e.concretize(st, s)
        d2 = e.concretize(st, d)
        data = e.load_bytes(st, s, n)
        o = e.obj(st, d2 >> SHIFT, True)
        off = d2 & OFFM
        if off + n > o.size:
            e.memfault(st, "out-of-bounds copy of %d bytes at offset %d of %d-byte object" % (n, off, o.size))
        o.data[off:off + n] = data
        return d

    def x_memcpy(self, st, a):
        return self.copy(st, a[0], a[1], a[2])

    x_memmove = x_memcpy

    def x_memset(self, st, a):
        e = self.e
        n = e.concretize(st, a[2])
        if n == 0:
            return a[0]
        d = e.concretize(st, a[0])
        v = a[1]
        if v.__class__ is int:
            v &= 0xff
        else:
            v = norm(z3.Extract(7, 0, v)) if v.size() > 8 else v
            if v.__class__ is not int:
                v = (v, 0, 1)
        o = e.obj(st, d >> SHIFT, True)
        off = d & OFFM
        if off + n > o.size:
            e.memfault(st, "out-of-bounds memset")
        o.data[off:off + n] = [v] * n
        return a[0]

    def x_bcmp(self, st, a):
        e = self.e
        n = e.concretize(st, a[2])
        if n == 0:
            return 0
        x = e.load_bytes(st, e.concretize(st, a[0]), n)
        y = e.load_bytes(st, e.concretize(st, a[1]), n)
        conds = []
        for p, q in zip(x, y):
            if p.__class__ is tuple or q.__class__ is tuple:
                p = e.assemble([p], 8)
                q = e.assemble([q], 8)
                c = e.icmp('eq', 8, p, q)
                if c.__class__ is int:
                    if not c:
                        return 1
                else:
                    conds.append(c)
            elif (p or 0) != (q or 0):
                return 1
        if not conds:
            return 0
        return norm(z3.If(z3.And(*conds), z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))

    def x_memcmp(self, st, a):
        e = self.e
        n = e.concretize(st, a[2])
        if n == 0:
            return 0
        x = e.load_bytes(st, e.concretize(st, a[0]), n)
        y = e.load_bytes(st, e.concretize(st, a[1]), n)
        r = z3.BitVecVal(0, 32)
        for p, q in list(zip(x, y))[::-1]:
            p = to_bv(e.assemble([p], 8), 8)
            q = to_bv(e.assemble([q], 8), 8)
            r = z3.If(p == q, r, z3.If(z3.ULT(p, q), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
        return norm(r)

    def x_strlen(self, st, a):
        e = self.e
        p = e.concretize(st, a[0])
        n = 0
        while True:
            b = e.load_bytes(st, p + n, 1)[0]
            if b.__class__ is not int:
                raise Inconclusive("strlen of symbolic data")
            if b == 0:
                return n
            n += 1

    def x_getrandom(self, st, a):
        e = self.e
        n = e.concretize(st, a[1])
        p = e.concretize(st, a[0])
        for i in range(n):
            e.store(st, L.ity(8), (0x5a + 37 * i) & 0xff, p + i)
        return n

    def x_getenv(self, st, a):
        return 0

    def x_pthread_key_create(self, st, a):
        self.e.store(st, L.ity(32), 1, a[0])
        return 0

    def x_pthread_setspecific(self, st, a):
        return 0

    def x___cxa_thread_atexit_impl(self, st, a):
        return 0

    # -- LLVM intrinsics
    def intrinsic(self, n, t, atys):
        e = self.e
        p = n.split('.')
        op = p[1]
        full = '.'.join(p[1:])
        if full.startswith(('memcpy', 'memmove')):
            return lambda st, a: self.copy(st, a[0], a[1], a[2])
        if full.startswith('memset'):
            return lambda st, a: self.x_memset(st, a)
        if full.startswith(('lifetime', 'assume', 'experimental.noalias', 'donothing', 'x86.sse2.pause', 'prefetch', 'va_')):
            return lambda st, a: 0
        if full.startswith('trap'):
            return lambda st, a: self.panic(st, '@llvm.trap', a)
        if full.startswith(('threadlocal.address', 'expect', 'launder', 'strip.invariant', 'ssa.copy')):
            return lambda st, a: a[0]
        if full.startswith('is.constant'):
            return lambda st, a: 0
        if full.startswith('objectsize'):
            return lambda st, a: U64
        if t[0] == 'vec':
            et = t[2]
            inner = self.intrinsic_scalar(full, p, et)

            def f(st, a):
                out = []
                for i in range(t[1]):
                    out.append(inner([x[i] if x.__class__ is tuple else x for x in a]))
                return tuple(out)
            return f
        if full.startswith('vector.reduce'):
            vt = atys[-1]
            w = vt[2][1]
            rop = p[3]

            def red(st, a):
                acc = None
                for x in a[-1]:
                    acc = x if acc is None else e.binop(rop, w, acc, x)
                return acc
            if rop in ('add', 'and', 'or', 'xor', 'mul'):
                return red
        g = self.intrinsic_scalar(full, p, t, atys)
        return lambda st, a: g(a)

    def intrinsic_scalar(self, full, p, t, atys=None):
        e = self.e
        n = t[1] if t[0] in ('i', 'f') else 64

        def allint(a):
            return all(x.__class__ is int for x in a)
        if full.startswith(('fptosi.sat', 'fptoui.sat')):
            sg = full.startswith('fptosi')
            fb = 32 if p[-1] == 'f32' else 64
            return lambda a: e.fl.to_int(a[0], fb, n, sg, True)
        if full.startswith('fabs'):
            return lambda a: e.fl.abs(a[0], n)
        if full.startswith(('minnum', 'minimumnum')):
            return lambda a: e.fl.minmax('min', a[0], a[1], n)
        if full.startswith(('maxnum', 'maximumnum')):
            return lambda a: e.fl.minmax('max', a[0], a[1], n)
        if p[1] in ('floor', 'ceil', 'trunc', 'rint', 'round', 'nearbyint', 'roundeven'):
            how = {'nearbyint': 'rint', 'roundeven': 'rint'}.get(p[1], p[1])
            return lambda a: e.fl.round(how, a[0], n)
        if full.startswith(('fmuladd', 'fma.')):
            raise Inconclusive("fma")
        mm = re.match(r'(u|s)(add|sub|mul)\.with\.overflow', full)
        if mm:
            w = t[1][0][1]
            sg = mm.group(1) == 's'
            o = mm.group(2)

            def f(a):
                x, y = a
                if x.__class__ is int and y.__class__ is int:
                    if sg:
                        x, y = sgn(x, w), sgn(y, w)
                    r = {'add': x + y, 'sub': x - y, 'mul': x * y}[o]
                    ov = not (-(1 << (w - 1)) <= r < (1 << (w - 1))) if sg else not (0 <= r < (1 << w))
                    return (r & ((1 << w) - 1), int(ov))
                r = e.binop(o, w, x, y)
                ext = w if o == 'mul' else 1
                X = to_bv(x, w)
                Y = to_bv(y, w)
                E = z3.SignExt if sg else z3.ZeroExt
                if o == 'mul' and not sg and (x.__class__ is int or y.__class__ is int):
                    k, v = (x, Y) if x.__class__ is int else (y, X)
                    ov = 0 if k == 0 else norm(z3.UGT(v, z3.BitVecVal(((1 << w) - 1) // k, w)))
                    return (r, ov)
                X, Y = E(ext, X), E(ext, Y)
                big = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[o]
                R = to_bv(r, w)
                return (r, norm(big != E(ext, R)))
            return f
        mm = re.match(r'(u|s)(add|sub)\.sat', full)
        if mm:
            sg = mm.group(1) == 's'
            o = mm.group(2)
            m = (1 << n) - 1

            def f(a):
                x, y = a
                if allint(a):
                    if sg:
                        x, y = sgn(x, n), sgn(y, n)
                        r = x + y if o == 'add' else x - y
                        return max(-(1 << (n - 1)), min((1 << (n - 1)) - 1, r)) & m
                    r = x + y if o == 'add' else x - y
                    return max(0, min(m, r))
                if sg:
                    raise Inconclusive("signed saturation")
                X, Y = to_bv(x, n), to_bv(y, n)
                if o == 'add':
                    return norm(z3.If(z3.ULT(X + Y, X), z3.BitVecVal(m, n), X + Y))
                return norm(z3.If(z3.ULT(X, Y), z3.BitVecVal(0, n), X - Y))
            return f
        if p[1] in ('umin', 'umax', 'smin', 'smax'):
            pred = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[p[1]]

            def f(a):
                c = e.icmp(pred, n, a[0], a[1])
                if c.__class__ is int:
                    return a[0] if c else a[1]
                return norm(z3.If(c, to_bv(a[0], n), to_bv(a[1], n)))
            return f
        if p[1] == 'abs':
            def f(a):
                x = a[0]
                if x.__class__ is int:
                    return abs(sgn(x, n)) & ((1 << n) - 1)
                return norm(z3.If(x < 0, -x, x))
            return f
        if p[1] in ('ucmp', 'scmp'):
            w = n
            sg = p[1] == 'scmp'
            sw = 64 if p[-1].startswith('p') else int(p[-1][1:])

            def f(a):
                lt = e.icmp('slt' if sg else 'ult', sw, a[0], a[1])
                gt = e.icmp('sgt' if sg else 'ugt', sw, a[0], a[1])
                if lt.__class__ is int and gt.__class__ is int:
                    return (-1 if lt else (1 if gt else 0)) & ((1 << w) - 1)
                return norm(z3.If(to_bool(lt), z3.BitVecVal(-1, w), z3.If(to_bool(gt), z3.BitVecVal(1, w), z3.BitVecVal(0, w))))
            return f
        if p[1] == 'ctpop':
            def f(a):
                x = a[0]
                if x.__class__ is int:
                    return bin(x).count('1')
                return norm(z3.Sum([z3.ZeroExt(n - 1, z3.Extract(i, i, x)) for i in range(n)]))
            return f
        if p[1] in ('cttz', 'ctlz'):
            tz = p[1] == 'cttz'

            def f(a):
                x = a[0]
                if x.__class__ is int:
                    if x == 0:
                        return n
                    return (x & -x).bit_length() - 1 if tz else n - x.bit_length()
                r = z3.BitVecVal(n, n)
                for i in (range(n - 1, -1, -1) if tz else range(n)):
                    r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i if tz else n - 1 - i, n), r)
                return norm(r)
            return f
        if p[1] == 'bswap':
            def f(a):
                x = a[0]
                if x.__class__ is int:
                    return int.from_bytes(x.to_bytes(n // 8, 'little'), 'big')
                return norm(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(n // 8)]))
            return f
        if p[1] == 'bitreverse':
            def f(a):
                x = a[0]
                if x.__class__ is int:
                    return int(bin(x)[2:].zfill(n)[::-1], 2)
                return norm(z3.Concat(*[z3.Extract(i, i, x) for i in range(n)]))
            return f
        if p[1] in ('fshl', 'fshr'):
            left = p[1] == 'fshl'

            def f(a):
                x, y, s = a
                if s.__class__ is not int:
                    raise Inconclusive("funnel shift by symbolic amount")
                s %= n
                if allint(a):
                    v = (x << n) | y
                    return (v >> (n - s) if left else v >> s) & ((1 << n) - 1)
                v = z3.Concat(to_bv(x, n), to_bv(y, n))
                sh = n - s if left else s
                return norm(z3.Extract(sh + n - 1, sh, v))
            return f

        def bad(a):
            raise Inconclusive("intrinsic llvm." + full)
        return bad
