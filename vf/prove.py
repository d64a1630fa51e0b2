"""Discharging obligations: linear arithmetic over expanded polynomials, z3, sympy for rational identities."""
import itertools
import os
import time
import shutil
import subprocess
import z3
from fractions import Fraction
from .core import *

TRACE = os.environ.get('VF_TRACE')


def padd(r, p, k):
    for m, v in p.items():
        x = r.get(m, 0) + k * v
        if x:
            r[m] = x
        else:
            r.pop(m, None)


def pmul(a, b):
    if len(a) * len(b) > 20000:
        raise TooBig('polynomial too large')
    r = {}
    for m, v in a.items():
        for n, w in b.items():
            k = tuple(sorted(m + n))
            x = r.get(k, 0) + v * w
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    return r


class Prover:
    def __init__(self, E, scale=1):
        self.E = E
        self.scale = scale
        self.stats = {}
        self.order = list(self.TRIES)

    cmemo = {}

    def note(self, how, t):
        n, s = self.stats.get(how, (0, 0.0))
        self.stats[how] = (n + 1, s + t)

    def axioms(self):
        return [a for _, a in self.E.W.axioms]

    def quick(self, hyps, goal, rlimit):
        """for invariants and branch pruning"""
        if z3.is_true(goal):
            return 'unsat'
        hyps, g = self.skolem(hyps, goal)
        if g is not goal or self.E.mode == 'eps':
            if self.linear(hyps, g) == 'proved':
                return 'unsat'
        if g is not goal and self.E.mode == 'eps':
            parts = self.endsplit(hyps, g)
            if parts and all(self.linear(h, x) == 'proved' or self.cases(h, x) == 'proved' for h, x in parts):
                return 'unsat'
        goal = g
        if last_path(hyps) is None:
            return 'unsat' if self.plain(hyps, goal, rlimit * self.effort()) else 'unknown'
        if self.try_(hyps, goal, rlimit // 8) or self.paths(hyps, goal, lambda h, x, k=1: self.plain(h, x, rlimit // k if k > 1 else rlimit * self.effort())):
            return 'unsat'
        return 'unknown'

    def effort(self):
        return getattr(self.E.cur_contract, 'effort', 1) or 1

    def plain(self, hyps, goal, rlimit):
        cone = self.cone(hyps, goal)
        return self.try_(hyps, goal, rlimit, cone if len(cone) < len(hyps) * 0.8 else None)

    def consts(self, e):
        """the constants of a fact"""
        k = e.get_id()
        if k not in self.cmemo:
            out, seen, todo = set(), set(), [e]
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    todo.append(x.body())
                elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(str(x))
                else:
                    todo += x.children()
            self.cmemo[k] = (e, out)
        return self.cmemo[k][1]

    def cone(self, hyps, goal):
        """the facts that say what the newest of their constants is, from the goal backwards"""
        hs = []
        for h in flat_and(hyps):
            cs = {x for x in self.consts(h) if '!sk' not in x}
            hs.append((h, cs, max(cs, key=age) if cs else None))
        rel = set(self.consts(goal))
        for h in hyps[-12:]:
            if any('!sk' in x for x in self.consts(h)):
                rel |= self.consts(h)
        keep = [False] * len(hs)
        while True:
            ch = False
            for i, (h, cs, new) in enumerate(hs):
                if not keep[i] and (new is None or new in rel):
                    keep[i] = ch = True
                    rel |= cs
            if not ch:
                return [h for (h, _, _), k in zip(hs, keep) if k]

    TRIES = ((60, {}, 0), (60, {}, 1), (30, '3', 1), (15, '0', 0), (15, '0', 1), (30, '13', 1), (10, '3', 0), (10, '3', 1), (10, {'random_seed': 3}, 0), (10, {'random_seed': 3}, 1),
             (5, {'random_seed': 11}, 1), (3, '12', 1), (1.5, {}, 1))

    def try_(self, hyps, goal, rlimit, cone=None):
        """short attempts under several configurations, from few or all facts, before a long one: the run time of a query is heavy-tailed"""
        text = {}
        long = rlimit >= self.LONG
        for w in list(self.order) if long else ((1, {}, 0), (1, {}, 1)):
            part, opts, i = w
            if i == 0 and cone is None:
                continue
            t0 = time.time()
            ok = self.attempt(hyps if i else cone, goal, int(rlimit / part / (1 if i else 2)), opts, text, i)
            if TRACE:
                print('try', rlimit, str(w).replace(' ', ''), i, ok, round(time.time() - t0, 2), flush=True)
            if ok:
                if long and part > 2:
                    self.order.remove(w)
                    self.order.insert(0, w)
                return True
        return False

    def attempt(self, hyps, goal, rlimit, opts, text, i):
        if isinstance(opts, str) and i in text:
            return self.other(text[i], rlimit, opts)
        s = z3.Solver()
        s.add(*hyps)
        s.add(*self.axioms())
        s.add(z3.Not(goal))
        if isinstance(opts, str):
            text[i] = s.to_smt2()
            return self.other(text[i], rlimit, opts)
        s.set('rlimit', rlimit)
        s.set('timeout', 60000)
        for k, v in opts.items():
            s.set(k, v)
        return s.check() == z3.unsat

    def other(self, text, rlimit, seed):
        """the z3 program (another release than the library)"""
        exe = shutil.which('z3')
        if not exe:
            return False
        try:
            r = subprocess.run([exe, '-in', '-T:60', 'rlimit=%d' % rlimit, 'smt.random_seed=' + seed], input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=90)
        except (OSError, subprocess.TimeoutExpired):
            return False
        return r.stdout.strip() == 'unsat'

    LONG = 4000000

    def prove(self, hyps, goal):
        """-> (result, backend); result in proved / refuted / unknown"""
        if z3.is_true(goal):
            return 'proved', 'syntactic'
        r = 'unknown'
        if z3.is_implies(goal):
            return self.prove(list(hyps) + self.opened([goal.arg(0)], hyps), goal.arg(1))
        if z3.is_not(goal) and has_quant(goal):
            return self.prove(list(hyps) + self.opened([goal.arg(0)], hyps), FALSE)
        if z3.is_quantifier(goal) and goal.is_exists() and goal.num_vars() == 1 and not getattr(self, 'wit', False):
            # the index terms at hand as witnesses
            ws = self.index_terms(hyps, goal.var_sort(0))
            if ws and len(ws) <= 24:
                self.wit = True
                try:
                    hy = list(hyps) + [z3.Not(z3.substitute_vars(goal.body(), w)) for w in ws]
                    for f, nm in ((self.linear, 'linear'), (self.fast, 'z3-fast')):
                        if f(hy, FALSE) == 'proved':
                            return 'proved', nm
                finally:
                    self.wit = False
        if z3.is_quantifier(goal) and goal.is_forall():
            # an arbitrary instance of the goal; universal hypotheses are instantiated at its constants
            return self.prove(*self.skolem(hyps, goal))
        if z3.is_and(goal) and len(goal.children()) <= 12:
            bk = []
            for g in goal.children():
                r, b = self.prove(hyps, g)
                if r != 'proved':
                    return r, b
                bk.append(b)
            return 'proved', bk[-1]
        steps = [('linear', self.linear), ('z3-fast', self.fast)]
        if self.E.mode == 'eps':
            steps = [('linear', self.linear), ('cases', self.cases), ('sympy', self.sympy), ('z3-fast', self.fast)]
        if self.E.mode == 'exact':
            steps.append(('portfolio', lambda h, x: 'proved' if self.plain(h, x, 10000000) else 'unknown'))
        steps += [('ground', self.ground), ('paths', lambda h, x: 'proved' if self.paths(h, x, lambda a, b, k=1: self.plain(a, b, int(2000000 * self.scale) // k if k > 1 else int(2000000 * self.scale) * self.effort())) else 'unknown'),
                  ('z3', self.full)]
        res = 'unknown'
        for name, f in steps:
            t = time.time()
            r = f(hyps, goal)
            self.note(name, time.time() - t)
            if r == 'proved':
                return r, name
            if r == 'refuted':
                return r, name
            if name == 'cases' and find_ite(goal) is not None:
                break
        return res, 'all'

    def paths(self, hyps, goal, check):
        """split on the paths that joined states came along, latest first; check decides each one"""
        sel = last_path(hyps)
        if sel is None:
            return False
        todo, n = [(hyps, goal)], 0
        while todo:
            hy, g = todo.pop()
            sel = last_path(hy)
            if sel is None:
                n += 1
                if n > 160 or not check(hy, g):
                    return False
                continue
            if n and check(hy, g, 8):
                continue
            n += n == 0
            for v in (z3.BoolVal(True), z3.BoolVal(False)):
                r = on_path(hy, g, sel, v)
                if r is not None:
                    todo.append(r)
        return True

    def endsplit(self, hyps, goal):
        """a constant sk < t + 1: the cases sk = t and sk < t"""
        for h in flat_and(hyps):
            if z3.is_app(h) and h.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_GT):
                a, b = h.children() if h.decl().kind() == z3.Z3_OP_LT else h.children()[::-1]
                if z3.is_const(a) and z3.is_int(a) and '!sk' in str(a) and z3.is_add(b) and any(z3.is_int_value(x) and x.as_long() == 1 for x in b.children()):
                    t = z3.simplify(b - 1)
                    return [([z3.substitute(x, (a, t)) for x in hyps], z3.substitute(goal, (a, t))), (list(hyps) + [a < t], goal)]
        return None

    def ground(self, hyps, goal):
        """universal facts over one index, at the index terms at hand, then ground reasoning"""
        if getattr(self, 'grounding', False):
            return 'unknown'
        new = []
        for h in flat_and(hyps):
            if z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1:
                ws = self.index_terms(list(hyps) + [goal], h.var_sort(0))
                if 0 < len(ws) <= 16:
                    new += [z3.simplify(z3.substitute_vars(h.body(), w)) for w in ws]
        if not new or len(new) > 100:
            return 'unknown'
        hy = [h for h in hyps if not has_quant(h)] + [h for h in new if not has_quant(h)]
        self.grounding = True
        try:
            r = self.linear(hy, goal)
            if r != 'proved' and self.E.mode == 'eps':
                r = self.cases(hy, goal)
            return r if r == 'proved' else 'unknown'
        finally:
            self.grounding = False

    def opened(self, new, hyps):
        """facts with their existentials replaced by constants, and the universal facts at these"""
        out = []
        for h in flat_and(new):
            if z3.is_not(h) and z3.is_quantifier(h.arg(0)) and h.arg(0).is_exists():
                q = h.arg(0)
                vs = [z3.Const('%s!un' % q.var_name(i), q.var_sort(i)) for i in range(q.num_vars())]
                h = z3.ForAll(vs, z3.Not(z3.substitute_vars(q.body(), *reversed(vs))))
            while z3.is_quantifier(h) and h.is_exists():
                self.nsk = getattr(self, 'nsk', 0) + 1
                sk = [z3.Const('%s!ex%d' % (h.var_name(i), self.nsk), h.var_sort(i)) for i in range(h.num_vars())]
                out += self.instances(hyps, sk)
                h = z3.substitute_vars(h.body(), *reversed(sk))
            out.append(h)
        return out

    def index_terms(self, hyps, sort):
        out, seen, todo = {}, set(), list(hyps)
        while todo:
            x = todo.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_select(x) and x.arg(1).sort() == sort:
                w = x.arg(1)
                if not z3.is_app_of(w, z3.Z3_OP_ITE):
                    out[w.get_id()] = w
            todo += x.children()
        return list(out.values())

    def skolem(self, hyps, goal):
        while z3.is_quantifier(goal) and goal.is_forall():
            self.nsk = getattr(self, 'nsk', 0) + 1
            sk = [z3.Const('%s!sk%d' % (goal.var_name(i), self.nsk), goal.var_sort(i)) for i in range(goal.num_vars())]
            goal = z3.substitute_vars(goal.body(), *reversed(sk))
            while z3.is_implies(goal):
                hyps = list(hyps) + [goal.arg(0)]
                goal = goal.arg(1)
            hyps = list(hyps) + self.instances(hyps, sk)
        return hyps, goal

    def instances(self, hyps, consts):
        out = []
        for h in flat_and(hyps):
            if z3.is_quantifier(h) and h.is_forall() and h.num_vars() <= 2:
                cs = [[k for k in consts if k.sort() == h.var_sort(i)] for i in range(h.num_vars())]
                if all(cs):
                    for t in itertools.product(*cs):
                        out.append(z3.substitute_vars(h.body(), *reversed(t)))
        return out

    def cases(self, hyps, goal, depth=0):
        """split on the condition of a conditional term in the goal"""
        c = find_ite(goal)
        if c is None or getattr(self, 'casing', 0) > 6:
            return 'unknown'
        self.casing = getattr(self, 'casing', 0) + 1
        try:
            for v in (True, False):
                hs = [subst_ite(h, c, v) for h in hyps] + [c if v else z3.Not(c)]
                if self.linear(hs, FALSE) == 'proved':
                    continue
                r, _ = self.prove(hs, subst_ite(goal, c, v))
                if r != 'proved':
                    return 'unknown' if r != 'refuted' else r
            return 'proved'
        finally:
            self.casing -= 1

    # ---- A: polynomials expanded, non-linear monomials as constants, linear arithmetic
    def poly(self, e):
        """arithmetic term -> {monomial: coefficient}; a monomial is a sorted tuple of atom ids"""
        c = self.__dict__.setdefault('_po', {})
        k = e.get_id()
        if k in c:
            return c[k][0]
        r = self._poly(e)
        c[k] = (r, e)
        return r

    def _poly(self, e):
        if z3.is_rational_value(e):
            f = e.as_fraction()
            return {(): f} if f else {}
        if z3.is_int_value(e):
            return {(): Fraction(e.as_long())} if e.as_long() else {}
        k = e.decl().kind() if z3.is_app(e) else None
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for x in ch:
                padd(r, self.poly(x), 1)
            return r
        if k == z3.Z3_OP_SUB:
            r = dict(self.poly(ch[0]))
            for x in ch[1:]:
                padd(r, self.poly(x), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in self.poly(ch[0]).items()}
        if k == z3.Z3_OP_MUL:
            r = self.poly(ch[0])
            for x in ch[1:]:
                r = pmul(r, self.poly(x))
            return r
        if k == z3.Z3_OP_DIV and z3.is_real(e):
            d = self.poly(ch[1])
            n = self.poly(ch[0])
            if not d:
                return {(self.atom(e),): Fraction(1)}
            if set(d) == {()}:
                return {m: v / d[()] for m, v in n.items()}
            lead = d[min(d)]
            key = tuple(sorted((m, v / lead) for m, v in d.items()))
            inv = self.named(('inv', key), e.sort())
            return pmul(n, {(inv,): 1 / lead})
        if k == z3.Z3_OP_TO_REAL:
            return self.poly(ch[0]) if self.lin_int(ch[0]) else {(self.atom(e),): Fraction(1)}
        return {(self.atom(e),): Fraction(1)}

    def lin_int(self, e):
        return z3.is_int_value(e)

    def atom(self, e):
        x = self.rebuild(e)
        self.__dict__.setdefault('_an', {})[x.get_id()] = x
        self.__dict__.setdefault('_orig', {}).setdefault(x.get_id(), e)
        return x.get_id()

    def canon(self, e):
        """the same polynomial for all ways of writing it"""
        p = self.poly(e)
        o = self.__dict__.setdefault('_orig', {})
        if any(a not in o for m in p for a in m):
            return e
        ts = []
        for m in sorted(p, key=lambda m: [o[a].sexpr() for a in m]):
            v = p[m]
            t = z3.RealVal('%d/%d' % (v.numerator, v.denominator))
            fs = [o[a] for a in m]
            if v != 1 or not fs:
                fs = [t] + fs
            ts.append(fs[0] if len(fs) == 1 else z3.Product(fs))
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def named(self, key, sort):
        c = self.__dict__.setdefault('_at', {})
        key = (key, str(sort))
        if key not in c:
            c[key] = z3.Const('mono!%d' % len(c), sort)
        x = c[key]
        self.__dict__.setdefault('_an', {})[x.get_id()] = x
        return x.get_id()

    def lin(self, p, sort):
        """polynomial -> linear term over monomial constants"""
        real = sort == z3.RealSort()
        ts = []
        for m in sorted(p):
            v = p[m]
            if not real and v.denominator != 1:
                return None
            co = z3.RealVal('%d/%d' % (v.numerator, v.denominator)) if real else z3.IntVal(v.numerator)
            if m == ():
                ts.append(co)
                continue
            x = self._an[m[0]] if len(m) == 1 else self._an[self.named(('mul', m), sort)]
            if x.sort() != sort:
                return None
            ts.append(x if v == 1 else co * x)
        if not ts:
            return z3.RealVal(0) if real else z3.IntVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def mono(self, e):
        c = self.__dict__.setdefault('_mo', {})
        k = e.get_id()
        if k in c:
            return c[k][0]
        r = None
        if z3.is_app(e):
            kk = e.decl().kind()
            if kk in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or kk == z3.Z3_OP_EQ and z3.is_arith(e.arg(0)):
                a, b = e.children()
                d = dict(self.poly(a))
                padd(d, self.poly(b), -1)
                l = self.lin(d, a.sort())
                if l is not None:
                    z = z3.RealVal(0) if z3.is_real(a) else z3.IntVal(0)
                    r = {z3.Z3_OP_LE: l <= z, z3.Z3_OP_GE: l >= z, z3.Z3_OP_LT: l < z, z3.Z3_OP_GT: l > z, z3.Z3_OP_EQ: l == z}[kk]
            elif z3.is_arith(e) and kk not in (z3.Z3_OP_ITE, z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_SELECT):
                r = self.lin(self.poly(e), e.sort())
        if r is None:
            r = self.rebuild(e)
        c[k] = (r, e)
        return r

    def rebuild(self, e):
        if not (z3.is_app(e) and e.num_args()):
            return e
        ch = [self.mono(x) for x in e.children()]
        if all(a.eq(b) for a, b in zip(ch, e.children())):
            return e
        k = e.decl().kind()
        if k == z3.Z3_OP_AND:
            return z3.And(*ch)
        if k == z3.Z3_OP_OR:
            return z3.Or(*ch)
        if k == z3.Z3_OP_NOT:
            return z3.Not(ch[0])
        if k == z3.Z3_OP_ITE:
            return z3.If(*ch)
        if k == z3.Z3_OP_EQ:
            return ch[0] == ch[1]
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*ch)
        try:
            return e.decl()(*ch)
        except z3.Z3Exception:
            return e

    def linear(self, hyps, goal):
        s = z3.Solver()
        s.set('rlimit', int(3000000 * self.scale))
        s.set('timeout', int(10000 * self.scale))
        for h in list(hyps) + self.axioms() + [z3.Not(goal)]:
            if has_quant(h):
                continue
            s.add(self.mono(h))
        return 'proved' if s.check() == z3.unsat else 'unknown'

    def fast(self, hyps, goal):
        s = z3.Solver()
        s.set('rlimit', int(2000000 * self.scale))
        s.set('timeout', int(10000 * self.scale))
        s.add(*hyps)
        s.add(*self.axioms())
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return 'proved'
        if r == z3.sat:
            self.model = s.model()
            return 'refuted'
        return 'unknown'

    def full(self, hyps, goal):
        for seed in (0, 7):
            s = z3.Solver()
            s.set('rlimit', int(30000000 * self.scale))
            s.set('timeout', int(30000 * self.scale))
            s.set('random_seed', seed)
            if seed:
                s.set('mbqi', False)
            s.add(*hyps)
            s.add(*self.axioms())
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                return 'proved'
            if r == z3.sat:
                self.model = s.model()
                return 'refuted'
        return 'unknown'

    def atoms_of(self, e):
        out, seen, todo = [], set(), [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_arith(x) and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV) or z3.is_eq(x):
                todo += x.children()
            elif z3.is_arith(x) and not z3.is_rational_value(x):
                out.append(x)
        return out

    def detach(self, hyps):
        """conjuncts of the hypotheses, with implications whose antecedent holds replaced by their conclusion"""
        todo = list(hyps)
        while todo:
            h = todo.pop()
            if z3.is_and(h):
                todo += h.children()
            elif z3.is_implies(h) and not has_quant(h):
                if self.linear(hyps, h.arg(0)) == 'proved':
                    todo.append(h.arg(1))
            else:
                yield h

    # ---- C: equality of rational functions
    def sympy(self, hyps, goal):
        g = goal
        if not (z3.is_eq(g) and z3.is_real(g.arg(0))):
            return 'unknown'
        try:
            import sympy as sp
            env = {}
            dens = []

            def conv(e):
                if z3.is_rational_value(e):
                    f = e.as_fraction()
                    return sp.Rational(f.numerator, f.denominator)
                if z3.is_int_value(e):
                    return sp.Integer(e.as_long())
                k = e.decl().kind()
                ch = e.children()
                if k == z3.Z3_OP_ADD:
                    return sp.Add(*[conv(c) for c in ch])
                if k == z3.Z3_OP_SUB:
                    r = conv(ch[0])
                    for c in ch[1:]:
                        r = r - conv(c)
                    return r
                if k == z3.Z3_OP_MUL:
                    return sp.Mul(*[conv(c) for c in ch])
                if k == z3.Z3_OP_UMINUS:
                    return -conv(ch[0])
                if k == z3.Z3_OP_DIV:
                    if not z3.is_rational_value(ch[1]):
                        dens.append(ch[1])
                    return conv(ch[0]) / conv(ch[1])
                if k == z3.Z3_OP_ITE:
                    raise ValueError
                return env.setdefault(e.sexpr(), sp.Symbol('v%d' % len(env)))
            # branch on conditionals first
            ites = find_ite(g)
            if ites is not None:
                c = ites
                a = subst_ite(g, c, True)
                b = subst_ite(g, c, False)
                r1, _ = self.prove(list(hyps) + [c], a)
                if r1 != 'proved':
                    return 'unknown'
                r2, _ = self.prove(list(hyps) + [z3.Not(c)], b)
                return r2 if r2 == 'proved' else 'unknown'
            l, r = conv(g.arg(0)), conv(g.arg(1))
            dd = list(dens)
            terms = {}
            num, den = sp.fraction(sp.together(l - r))
            num = sp.expand(num)
            if num != 0:
                # constants the hypotheses define
                subs = []
                for h in self.detach(hyps):
                    if z3.is_eq(h) and z3.is_real(h.arg(0)) and not has_quant(h):
                        try:
                            e = sp.together(conv(h.arg(0)) - conv(h.arg(1)))
                        except ValueError:
                            continue
                        e = sp.expand(sp.fraction(e)[0])
                        for a, b in subs:
                            e = sp.expand(e.subs(a, b))
                        for y in sorted(e.free_symbols, key=str, reverse=True):
                            co = e.coeff(y, 1)
                            if co.is_number and co != 0 and not e.coeff(y, 0).has(y) and sp.degree(e, y) == 1:
                                v = -e.coeff(y, 0) / co
                                subs = [(a, b.subs(y, v)) for a, b in subs] + [(y, v)]
                                break
                for y, v in subs:
                    num = sp.expand(num.subs(y, v))
            if num != 0:
                # atoms the hypotheses force to be equal
                atoms = self.atoms_of(g)
                names = {env[x.sexpr()]: x for x in atoms if x.sexpr() in env}
                ks = sorted([k for k in num.free_symbols if k in names], key=str)
                if len(ks) <= 9:
                    for i in range(len(ks)):
                        for j in range(i):
                            if num != 0 and self.linear(hyps, names[ks[i]] == names[ks[j]]) == 'proved':
                                num = sp.expand(num.subs(ks[i], ks[j]))
            if num != 0:
                return 'unknown'
            for d in dd:
                rr = self.linear(hyps, d != 0)
                if rr != 'proved':
                    rr = self.fast(hyps, d != 0)
                if rr != 'proved':
                    return 'unknown'
            return 'proved'
        except ValueError:
            return 'unknown'


def find_ite(e):
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            y = find_ite(x.arg(0))
            return y if y is not None else x.arg(0)
        for c in x.children():
            if c.get_id() not in seen:
                seen.add(c.get_id())
                todo.append(c)
    return None


def subst_ite(e, cond, val):
    pairs = []
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and x.arg(0).eq(cond):
            pairs.append((x, x.arg(1 if val else 2)))
        for c in x.children():
            if c.get_id() not in seen:
                seen.add(c.get_id())
                todo.append(c)
    for _ in range(3):
        e = z3.substitute(e, *pairs)
    return e


def age(n):
    t = n.rsplit('!', 1)[-1]
    d = ''.join(ch for ch in t if ch.isdigit())
    return (int(d) if d and '!' in n else -1, n)


def bool_consts(e, out, seen):
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_const(x) and z3.is_bool(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x)
        else:
            todo += x.children()


def last_path(hyps):
    out, seen = set(), set()
    for h in hyps:
        bool_consts(h, out, seen)
    best = None
    for x in out:
        n = str(x)
        if n.startswith('path!'):
            k = int(n.split('!')[1])
            if best is None or k > best[0]:
                best = (k, x)
    return best[1] if best else None


def assume_bool(h, sel, v):
    """h under sel = v (None: nothing left)"""
    if z3.is_quantifier(h) and h.is_forall():
        b = h.body()
        if not z3.is_implies(b) or not (b.arg(0).eq(sel) or (z3.is_not(b.arg(0)) and b.arg(0).arg(0).eq(sel))):
            return z3.substitute(h, (sel, v))
        if z3.is_true(v) != b.arg(0).eq(sel):
            return None
        vs = [z3.Const(h.var_name(i), h.var_sort(i)) for i in range(h.num_vars())]
        return z3.ForAll(vs, z3.substitute(z3.substitute_vars(b.arg(1), *reversed(vs)), (sel, v)))
    if z3.is_implies(h):
        a = h.arg(0)
        if a.eq(sel) or (z3.is_not(a) and a.arg(0).eq(sel)):
            return assume_bool(h.arg(1), sel, v) if z3.is_true(v) == a.eq(sel) else None
    if z3.is_and(h):
        cs = [assume_bool(x, sel, v) for x in h.children()]
        cs = [x for x in cs if x is not None]
        return And(*cs) if cs else None
    return z3.substitute(h, (sel, v))


def on_path(hyps, goal, sel, v):
    """the hypotheses and the goal when sel has the value v; None if that is impossible"""
    out = []
    for h in hyps:
        x = assume_bool(h, sel, v)
        if x is None:
            continue
        for y in flat_and([x]):
            if z3.is_false(y):
                return None
            if not z3.is_true(y):
                out.append(y)
    goal = z3.substitute(goal, (sel, v))
    while True:
        for i, h in enumerate(out):
            if z3.is_eq(h) and z3.is_const(h.arg(0)) and str(h.arg(0)).startswith('join!') and h.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
                a, b = h.arg(0), h.arg(1)
                out = [z3.substitute(x, (a, b)) for j, x in enumerate(out) if j != i]
                goal = z3.substitute(goal, (a, b))
                break
        else:
            return out, goal


def flat_and(hs):
    todo = list(hs)
    while todo:
        h = todo.pop()
        if z3.is_and(h):
            todo += h.children()
        else:
            yield h
