"""Path-condition solver: independence slicing, query caching, and an external
portfolio (cvc5, kissat via z3's bit-blaster) for floating-point queries.

Every answer is 'sat' (with a model), 'unsat' or 'unknown'.  'unknown' is never
treated as success by callers.
"""
import functools
import os
import subprocess
import tempfile
import time

import z3


class Stats:
    def __init__(self):
        self.queries = 0
        self.cached = 0
        self.solver_s = 0.0
        self.asserts = 0
        self.external = 0
        self.max_query_s = 0.0
        self.by_solver = {}

    def note(self, who, dt):
        self.solver_s += dt
        if dt > self.max_query_s:
            self.max_query_s = dt
        e = self.by_solver.setdefault(who, [0, 0.0])
        e[0] += 1
        e[1] += dt


class Vars:
    """Free variables and theory class of a term, memoised per AST node."""

    def __init__(self):
        self.memo = {}
        self.keep = []

    def of(self, e):
        """-> (frozenset of variable names, bits: 1=FP 2=arith)"""
        r = self.memo.get(e.get_id())
        if r is not None:
            return r
        stack = [(e, False)]
        memo = self.memo
        while stack:
            x, done = stack.pop()
            i = x.get_id()
            if i in memo:
                continue
            ch = x.children()
            if not done and ch:
                stack.append((x, True))
                for c in ch:
                    if c.get_id() not in memo:
                        stack.append((c, False))
                continue
            kind = 0
            sk = x.sort().kind()
            if sk == z3.Z3_FLOATING_POINT_SORT:
                kind = 1
            elif sk == z3.Z3_REAL_SORT or sk == z3.Z3_INT_SORT:
                kind = 2
            if not ch:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    vs = frozenset((x.decl().name(),))
                else:
                    vs = frozenset()
            else:
                vs = frozenset()
                for c in ch:
                    cv, ck = memo[c.get_id()]
                    kind |= ck
                    if cv and not (cv <= vs):
                        vs = vs | cv
            memo[i] = (vs, kind)
            self.keep.append(x)
        return self.memo[e.get_id()]


class PathSolver:
    def __init__(self, log=None):
        self.vars = Vars()
        self.cache = {}
        self.keep = []
        self.defs = {}          # var name -> list of constraint exprs (always true)
        self.links = {}         # integer view of a bit vector: var name -> (var, exact def, bv, n, signed)
        self.stats = Stats()
        self.bv = z3.SolverFor('QF_BV')
        self.log = log
        self.fp_timeout = 240
        self.z3_timeout_ms = 20000
        self.hard_timeout = 240
        self.deadline = None
        self.relaxed = {}
        self.closed = {}        # variable set -> the set closed under definitions

    def add_def(self, var, expr):
        """A constraint that is satisfiable for every value of the other variables."""
        self.defs.setdefault(var.decl().name(), []).append(expr)
        self.closed.clear()

    def closure(self, vs):
        """Variables the given ones depend on through definitions."""
        r = self.closed.get(vs)
        if r is None:
            got = set(vs)
            todo = list(vs)
            while todo:
                v = todo.pop()
                more = set()
                lk = self.links.get(v)
                if lk is not None:
                    more |= self.vars.of(lk[2])[0]
                for d in self.defs.get(v, ()):
                    more |= self.vars.of(d)[0]
                more -= got
                got |= more
                todo.extend(more)
            r = self.closed[vs] = frozenset(got)
        return r

    def add_link(self, ki, exact, bv, n, signed):
        """ki is the integer value of bv; `exact` defines it bit by bit."""
        self.links[ki.decl().name()] = (ki, exact, bv, n, signed)
        self.closed.clear()

    def const_lemmas(self, links, sl):
        """Comparisons of a linked bit vector with constants, in terms of its integer view."""
        by = {}
        for l in links:
            by.setdefault(l[2].get_id(), []).append(l)
        out = []
        seen = set()
        stack = list(sl)
        sgnd = {z3.Z3_OP_SLEQ: 'le', z3.Z3_OP_SLT: 'lt', z3.Z3_OP_SGEQ: 'ge', z3.Z3_OP_SGT: 'gt'}
        uns = {z3.Z3_OP_ULEQ: 'le', z3.Z3_OP_ULT: 'lt', z3.Z3_OP_UGEQ: 'ge', z3.Z3_OP_UGT: 'gt'}
        rel = {'le': lambda a, b: a <= b, 'lt': lambda a, b: a < b, 'ge': lambda a, b: a >= b, 'gt': lambda a, b: a > b}
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            ch = x.children()
            stack.extend(ch)
            if len(ch) != 2 or ch[0].sort().kind() != z3.Z3_BV_SORT:
                continue
            k = x.decl().kind()
            for a, b, flip in ((ch[0], ch[1], False), (ch[1], ch[0], True)):
                if not z3.is_bv_value(b):
                    continue
                for ki, _, bv, n, signed in by.get(a.get_id(), ()):
                    c = b.as_signed_long() if signed else b.as_long()
                    if k == z3.Z3_OP_EQ:
                        out.append((ki == c) == x)
                    else:
                        r = (sgnd if signed else uns).get(k)
                        if r is not None:
                            out.append((rel[r](c, ki) if flip else rel[r](ki, c)) == x)
        return out

    def lemmas(self, links):
        """Order and equality of integer views agree with those of the bit vectors."""
        out = []
        for i in range(len(links)):
            ki, _, bi, ni, si = links[i]
            for j in range(i):
                kj, _, bj, nj, sj = links[j]
                w = max(ni + (not si), nj + (not sj))
                x = z3.SignExt(w - ni, bi) if si else z3.ZeroExt(w - ni, bi)
                y = z3.SignExt(w - nj, bj) if sj else z3.ZeroExt(w - nj, bj)
                out.append((ki == kj) == (x == y))
                if len(links) <= 4:
                    out.append((ki < kj) == (x < y))
        return out

    def slice(self, pc, conds):
        """Constraints of pc (and definitions) connected to conds through variables."""
        need = set()
        kind = 0
        out = []
        for c in conds:
            vs, k = self.vars.of(c)
            kind |= k
            need |= vs
            out.append(c)
        rest = []
        for p in pc:
            vs, k = self.vars.of(p)
            rest.append((p, (self.closure(vs), k)))
        seen_defs = set()
        self.cur_links = []
        changed = True
        while changed:
            changed = False
            for v in list(need):
                if v in seen_defs:
                    continue
                seen_defs.add(v)
                lk = self.links.get(v)
                if lk is not None:
                    self.cur_links.append(lk)
                    vs, k = self.vars.of(lk[2])
                    if not vs <= need:
                        need |= vs
                        changed = True
                for d in self.defs.get(v, ()):
                    vs, k = self.vars.of(d)
                    kind |= k
                    out.append(d)
                    if not vs <= need:
                        need |= vs
                        changed = True
            nr = []
            for p, (vs, k) in rest:
                if not vs or vs & need:
                    out.append(p)
                    kind |= k
                    if not vs <= need:
                        need |= vs
                        changed = True
                else:
                    nr.append((p, (vs, k)))
            rest = nr
        return out, kind

    def check(self, pc, conds, important=False, want_model=False):
        """Satisfiability of pc and conds.  -> ('sat', model|None) / ('unsat',None) / ('unknown',None)

        Unimportant (feasibility) queries that involve floating point answer
        'sat' without solving: exploring an infeasible path is sound because
        the final assertion query carries the whole path condition."""
        conds = [c for c in conds]
        sl, kind = self.slice(pc, conds)
        if (kind & 1) and not important:
            return 'sat', None
        key = frozenset(x.get_id() for x in sl)
        r = self.cache.get(key)
        if r is not None and (not want_model or r[0] != 'sat' or r[1] is not None):
            self.stats.cached += 1
            return r
        self.keep.extend(sl)
        self.stats.queries += 1
        t0 = time.time()
        if kind == 0:
            s = self.bv
            s.push()
            s.set('timeout', self.z3_timeout_ms)
            s.add(sl)
            a = str(s.check())
            m = s.model() if a == 'sat' else None
            s.pop()
            dt = time.time() - t0
            self.stats.note('z3-bv', dt)
            if a == 'unknown':
                a, m = self.external(sl, kind)
        elif kind & 1:
            a, m = self.external(sl, kind)
        else:
            a, m = self.arith(sl, self.cur_links, important)
        if self.log:
            dt = time.time() - t0
            if dt > 1.0:
                self.log("query %s kind=%d n=%d %.2fs" % (a, kind, len(sl), dt))
        r = (a, m)
        self.cache[key] = r
        return r

    def solve(self, who, cs, tmo):
        t0 = time.time()
        s = z3.Solver()
        if self.deadline:
            tmo = max(1, min(tmo, self.deadline - t0))
        s.set('timeout', int(tmo * 1000))
        s.add(cs)
        a = str(s.check())
        m = s.model() if a == 'sat' else None
        self.stats.note(who, time.time() - t0)
        return a, m

    def relax(self, e):
        """The same constraint over reals (every integer constant becomes real): weaker."""
        memo = self.relaxed
        stack = [e]
        while stack:
            x = stack[-1]
            if x.get_id() in memo:
                stack.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            nc = [memo[c.get_id()][1] for c in ch]
            if x.sort().kind() == z3.Z3_INT_SORT and not ch:
                r = z3.RealVal(x.as_long()) if z3.is_int_value(x) else z3.Real('r!' + x.decl().name())
            elif z3.is_app_of(x, z3.Z3_OP_TO_REAL):
                r = nc[0]
            elif all(a is b or a.eq(b) for a, b in zip(ch, nc)):
                r = x
            else:
                k = x.decl().kind()
                f = {z3.Z3_OP_LE: lambda a, b: a <= b, z3.Z3_OP_GE: lambda a, b: a >= b, z3.Z3_OP_LT: lambda a, b: a < b,
                     z3.Z3_OP_GT: lambda a, b: a > b, z3.Z3_OP_EQ: lambda a, b: a == b, z3.Z3_OP_ADD: lambda *a: z3.Sum(list(a)),
                     z3.Z3_OP_SUB: lambda a, *b: functools.reduce(lambda x, y: x - y, b, a), z3.Z3_OP_MUL: lambda a, b: a * b, z3.Z3_OP_UMINUS: lambda a: -a,
                     z3.Z3_OP_ITE: z3.If, z3.Z3_OP_DISTINCT: lambda a, b: a != b}.get(k)
                r = f(*nc) if f is not None else x.decl()(*nc)
            memo[x.get_id()] = (x, r)
        return memo[e.get_id()][1]

    def arith(self, sl, links, important):
        """Linear arithmetic over integer views of bit vectors.  First without the
        bitwise definitions (unsat is final), then with the bit vectors pinned to
        that model (sat is final), then exactly."""
        tmo = self.hard_timeout if important else self.z3_timeout_ms / 1000
        if links:
            lem = self.lemmas(links) + self.const_lemmas(links, sl)
            # stage 0: integers relaxed to reals
            a, m = self.solve('z3-lra', [self.relax(x) for x in sl + lem], min(tmo / 4, 10))
            if a == 'unsat':
                return a, None
            if not important and a == 'sat':
                return a, None
            a, m = self.solve('z3-lira', sl + lem, tmo / 4)
            if a == 'unsat':
                return a, None
            if not important and a == 'sat':
                return a, None
            if a == 'sat':
                pins = []
                for ki, _, bv, n, signed in links:
                    v = m.eval(ki, model_completion=True).as_long() % (1 << n)
                    pins.append(bv == z3.BitVecVal(v, n))
                exact = [l[1] for l in links]
                a, m = self.solve('z3-pinned', sl + exact + pins, tmo / 4)
                if a == 'sat':
                    return a, m
        a, m = self.solve('z3-exact', sl + [l[1] for l in links], tmo)
        return a, m

    # -- external portfolio
    def external(self, sl, kind):
        self.stats.external += 1
        t0 = time.time()
        g = z3.Goal()
        g.add(sl)
        tmp = tempfile.mkdtemp(prefix='symex')
        try:
            tac = z3.Then('simplify', 'fpa2bv', 'simplify', 'propagate-values', 'solve-eqs', 'simplify', 'bit-blast', 'simplify',
                          'propagate-values', 'tseitin-cnf') if kind & 1 else \
                z3.Then('simplify', 'propagate-values', 'solve-eqs', 'bit-blast', 'simplify', 'tseitin-cnf')
            res = tac(g)
            assert len(res) == 1
            sub = res[0]
            if sub.inconsistent():
                self.stats.note('z3-preprocess', time.time() - t0)
                return 'unsat', None
            if sub.size() == 0:
                s = z3.Solver()
                s.add(sl)
                a = str(s.check())
                self.stats.note('z3-preprocess', time.time() - t0)
                return a, (s.model() if a == 'sat' else None)
            cnf = os.path.join(tmp, 'q.cnf')
            txt = sub.dimacs(True)
            names = {}
            lines = []
            for ln in txt.split('\n'):
                if ln.startswith('c '):
                    p = ln.split()
                    if len(p) == 3 and p[1].isdigit():
                        names[p[2]] = int(p[1])
                    continue
                lines.append(ln)
            with open(cnf, 'w') as f:
                f.write('\n'.join(lines) + '\n')
            tmo = self.fp_timeout
            if self.deadline:
                tmo = max(1, min(tmo, int(self.deadline - time.time())))
            p = subprocess.run(['kissat', '-q', '--relaxed', '--time=%d' % tmo, cnf], stdout=subprocess.PIPE, text=True)
            dt = time.time() - t0
            self.stats.note('kissat', dt)
            if p.returncode == 20:
                return 'unsat', None
            if p.returncode != 10:
                return 'unknown', None
            asg = {}
            for ln in p.stdout.split('\n'):
                if ln.startswith('v '):
                    for t in ln[2:].split():
                        k = int(t)
                        asg[abs(k)] = k > 0
            # Rebuild a z3 model: pin the CNF atoms, ask the goal's model converter.
            s = z3.Solver()
            s.add(sl)
            m = self._model_from_bits(sub, names, asg, sl)
            if m is not None:
                return 'sat', m
            # fall back: let z3 find the model itself
            s.set('timeout', int(tmo * 1000))
            a = str(s.check())
            return a, (s.model() if a == 'sat' else None)
        finally:
            for fn in os.listdir(tmp):
                os.unlink(os.path.join(tmp, fn))
            os.rmdir(tmp)

    def _model_from_bits(self, sub, names, asg, sl):
        """The model of the original constraints behind a satisfying assignment of the clauses."""
        m = z3.Model()
        stack = [sub.as_expr()]
        seen = set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                k = names.get(x.decl().name())
                if k is not None and k in asg:
                    m.update_value(x.decl(), z3.BoolVal(asg[k]))
            stack.extend(x.children())
        try:
            m = sub.convert_model(m)
        except z3.Z3Exception:
            return None
        for x in sl:
            if not z3.is_true(m.eval(x, model_completion=True)):
                return None
        return m
