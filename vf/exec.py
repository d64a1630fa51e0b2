"""Path-wise symbolic execution of MIR against contracts; generates obligations."""
import itertools
from .core import *

DEBUG = False


class Undef(Unsupported):
    pass


class Panic(Exception):
    def __init__(self, why):
        self.why = why


class Pt:
    """program outcome"""
    __slots__ = ('kind', 'st', 'bb', 'val', 'line')

    def __init__(self, kind, st, bb=None, val=None, line=0):
        self.kind, self.st, self.bb, self.val, self.line = kind, st, bb, val, line


def norm_name(n):
    return n


def under(p, e):
    """p implies e, with conjunctions and universal quantifiers outside"""
    if z3.is_and(e):
        return And(*[under(p, x) for x in e.children()])
    if z3.is_quantifier(e) and e.is_forall():
        vs = [z3.Const('%s!j' % e.var_name(i), e.var_sort(i)) for i in range(e.num_vars())]
        return ForAll(vs, Implies(p, z3.substitute_vars(e.body(), *reversed(vs))))
    return Implies(p, e)


def same_iter(x, y):
    if x.kind != y.kind or x.ordered != y.ordered:
        return False

    def same(a, b):
        if a is b:
            return True
        if isz(a) and isz(b):
            return a.eq(b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
        if isinstance(a, RefV) and isinstance(b, RefV):
            return a.root == b.root and a.proj == b.proj
        if isinstance(a, St) and isinstance(b, St):
            return a.variant == b.variant and same(a.fields, b.fields)
        if isinstance(a, (int, str, bool)):
            return a == b
        return False
    return all(same(getattr(x, k), getattr(y, k)) for k in ('items', 'n', 'ivar', 'elem', 'k', 'comps'))


class Prog:
    """all functions and types of the two dumped crates"""

    def __init__(self, dumps):
        self.fns = {}       # normalized name -> fn
        self.found = {}
        self.adts = {}
        self.loops = {}
        for d in dumps:
            for k, a in d['adts'].items():
                self.adts.setdefault(self._key(d['crate'], k), a)
            for f in d['fns']:
                f['crate_kind'] = d['crate']
                self.fns.setdefault(f['name'], f)
        # lookup by trailing segments, for calls from the binary into the library through re-exports
        self.tail2 = {}
        for n in self.fns:
            if '{closure' in n or n.startswith('<'):
                continue
            p = strip_generics(n).split('::')
            self.tail2.setdefault('::'.join(p[-2:]), []).append(n)

    def _key(self, crate, k):
        return k

    def adt(self, t):
        k = t.get('key')
        a = self.adts.get(k)
        if a and a.get('variants'):
            return a
        # re-exported library types in the binary: match by short name and args
        n = last(t['name'])
        for k2, b in self.adts.items():
            if last(b['name']) == n and b.get('variants') and short_adt(b['name']) == short_adt(t['name']) and not b['args'] and not t['args']:
                return b
        return a

    def find(self, name):
        """a function by a (suffix of its) path, e.g. Edge::opposite or vertices::include"""
        if name not in self.found:
            self.found[name] = self.find_(name)
        return self.found[name]

    def find_(self, name):
        if name in self.fns:
            return self.fns[name]
        hits = [n for n in self.fns if strip_generics(n).endswith('::' + name) and '{closure' not in n and not n.startswith('<')]
        if len(hits) == 1:
            return self.fns[hits[0]]
        if name.startswith('<'):
            m = re.match(r'<(\w+) as ([\w:]+)>::(\w+)$', name)
            if m:
                hits = [n for n in self.fns if re.match(r'<(?:[\w:]*::)?%s as (?:[\w:]*::)?%s(?:<.*>)?>::%s$' % m.groups(), n)]
                if len(hits) == 1:
                    return self.fns[hits[0]]
        return None

    def fn_of_call(self, g):
        """local function called, or None"""
        n = g['inst'] or g['def']
        if n in self.fns:
            return self.fns[n]
        if g['def'] in self.fns:
            return self.fns[g['def']]
        if not g['local'] and (n.startswith('nlsn_delaunay::') or n.startswith('<nlsn_delaunay::')):
            if '::glium' in n.split('<')[0] and 'nalgebra' in n:
                return None
            p = strip_generics(n).split('::')
            h = self.tail2.get('::'.join(p[-2:]))
            if h and len(h) == 1:
                return self.fns[h[0]]
        return None

    def impl_of(self, t, trait, meth):
        """local trait impl method for type t"""
        if t['k'] != 'adt':
            return None
        nm = t['name']
        for cand in ('<%s as %s>::%s' % (nm, trait, meth),):
            if cand in self.fns:
                return self.fns[cand]
        short = last(nm)
        for n, f in self.fns.items():
            if n.startswith('<') and n.endswith('>::' + meth) and trait.split('::')[-1] in n:
                m = re.match(r'<([\w:]+) as ([\w:]+)(<.*>)?>::', n)
                if m and last(m.group(1)) == short and short_adt(m.group(1)) == short_adt(nm) and m.group(2).split('::')[-1] == trait.split('::')[-1]:
                    return f
        return None

    NONDET = re.compile(r'hash_set|hash_map|hash::set|hash::map|HashSet|HashMap|RandomState|Uuid|chrono|std::time|std::env|std::fs|std::io|thread|Cell')
    DETOK = re.compile(r'::(contains|contains_key|get|get_mut|insert|remove|is_empty|len|new|clone|eq|ne)$')

    def nondet(self, fn):
        """what in the call tree of fn could make its result depend on anything but its arguments"""
        seen, todo, out = set(), [fn['name']], []
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            f = self.fns[n]
            todo += [m for m in self.fns if m.startswith(n + '::{closure')]
            for b in f['blocks']:
                t = b['t']
                if t[0] != 'call':
                    continue
                if t[1][0] != 'const' or 'f' not in t[1][1]:
                    out.append('indirect call in ' + n)
                    continue
                g = t[1][1]['f']
                h = self.fn_of_call(g)
                if h is not None:
                    todo.append(h['name'])
                    continue
                d = strip_generics(g['def'])
                if self.NONDET.search(' '.join([g['def'], g['inst'] or ''])) and not self.DETOK.search(d):
                    out.append('%s calls %s' % (n, g['inst'] or g['def']))
        return out

    # ---- loops
    def loop_info(self, fn):
        n = fn['name']
        if n in self.loops:
            return self.loops[n]
        B = fn['blocks']
        succ = [self.succs(b['t']) for b in B]
        # DFS from 0, iterative; back edges by dominators
        order = []
        seen = set([0])
        stack = [(0, iter(succ[0]))]
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                preds[s].append(b)
        dom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in dom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    a = x
                    c = p
                    while a != c:
                        while idx[a] > idx[c]:
                            a = dom[a]
                        while idx[c] > idx[a]:
                            c = dom[c]
                    x = a
                if dom.get(b) != x:
                    dom[b] = x
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = dom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dominates(s, b):
                    r = loops.setdefault(s, set([s]))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in r:
                            r.add(x)
                            st.extend(preds[x])
        # liveness
        use, dfn = [], []
        for b in B:
            u, d = set(), set()

            def rd(l):
                if l not in d:
                    u.add(l)

            def place_r(p):
                rd(p[0])
                for e in p[1]:
                    if e[0] == 'index':
                        rd(e[1])

            def opnd(o):
                if o[0] in ('copy', 'move'):
                    place_r(o[1])

            def rval(r):
                k = r[0]
                if k == 'use':
                    opnd(r[1])
                elif k == 'ref':
                    place_r(r[2])
                elif k in ('addr', 'discr', 'len'):
                    place_r(r[1])
                elif k in ('bin', 'cbin'):
                    opnd(r[2]); opnd(r[3])
                elif k == 'un':
                    opnd(r[2])
                elif k == 'cast':
                    opnd(r[2])
                elif k == 'agg':
                    for o in r[2]:
                        opnd(o)
                elif k == 'repeat':
                    opnd(r[1])
            for s in b['s']:
                if s[0] == 'assign':
                    rval(s[2])
                    if s[1][1]:
                        place_r(s[1])
                    else:
                        d.add(s[1][0])
            t = b['t']
            if t[0] == 'switch':
                opnd(t[1])
            elif t[0] == 'assert':
                opnd(t[1])
            elif t[0] == 'call':
                opnd(t[1])
                for o in t[2]:
                    opnd(o)
                if t[3][1]:
                    place_r(t[3])
                else:
                    d.add(t[3][0])
            elif t[0] == 'return':
                rd(0)
            use.append(u)
            dfn.append(d)
        live = [set() for _ in B]
        ch = True
        while ch:
            ch = False
            for b in order:
                o = set()
                for s in succ[b]:
                    o |= live[s]
                n2 = use[b] | (o - dfn[b])
                if n2 != live[b]:
                    live[b] = n2
                    ch = True
        r = (loops, live)
        self.loops[n] = r
        return r

    def postdom(self, fn):
        """immediate postdominators (of the paths that return)"""
        key = ('pd', fn['name'])
        if key in self.loops:
            return self.loops[key]
        B = fn['blocks']
        succ = {b: [x for x in self.succs(B[b]['t'])] for b in range(len(B))}
        rets = [b for b in succ if B[b]['t'][0] == 'return']
        good = set(rets)
        pred = {}
        for b, xs in succ.items():
            for x in xs:
                pred.setdefault(x, []).append(b)
        todo = list(rets)
        while todo:
            x = todo.pop()
            for p in pred.get(x, ()):
                if p not in good:
                    good.add(p)
                    todo.append(p)
        pd = {b: {b} if b in rets else set(good) for b in good}
        ch = True
        while ch:
            ch = False
            for b in good:
                if b in rets:
                    continue
                n = set.intersection(*[pd[x] for x in succ[b] if x in good]) | {b}
                if n != pd[b]:
                    pd[b] = n
                    ch = True
        res = {}
        for b in good:
            c = pd[b] - {b}
            for x in c:
                if all(y in pd[x] for y in c):
                    res[b] = x
        self.loops[key] = res
        return res

    def succs(self, t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        return []


class Solver:
    def __init__(self, E):
        self.E = E
        self.time = 0.0
        self.queries = 0
        self.cache = {}

    def ground_feasible(self, st):
        """can the ground branch conditions hold? (over-approximation)"""
        cs = [c for _, c in st.pc if not has_quant(c)]
        for c in cs:
            if z3.is_false(c):
                return False
        key = tuple(sorted(set(c.get_id() for c in cs)))
        if key in self.cache:
            return self.cache[key][0]
        t = time.time()
        s = z3.Solver()
        s.set('rlimit', 400000)
        s.add(*[self.linear(c) for c in cs])
        r = s.check() != z3.unsat
        self.time += time.time() - t
        self.queries += 1
        self.cache[key] = (r, cs)
        return r

    def linear(self, e):
        """over-approximation: non-linear monomials become constants (same monomial, same constant)"""
        return self.E.prover.mono(e)

    def valid(self, hyps, goal, rlimit=None):
        """'unsat' proved, 'sat', 'unknown' """
        if z3.is_true(goal):
            return 'unsat'
        t = time.time()
        r = self._valid(hyps, goal, rlimit or self.E.rlimit)
        self.time += time.time() - t
        self.queries += 1
        return r

    def _valid(self, hyps, goal, rlimit):
        return self.E.prover.quick(hyps, goal, rlimit)


class LoopCtx:
    """what an invariant generator sees"""

    def __init__(self, E, fr, st, mod, cands):
        self.E, self.fr, self.st, self.mod = E, fr, st, mod
        self.W = E.W
        self.cands = cands
        self.lemmas = []
        self.params = E.cur_params
        self.fnctx = E.cur_ctx

    def cand(self, name, f):
        self.cands.append((name, f))

    def lemma(self, f):
        """instances of the definitions (of ghost functions) to use at a state; f(view) -> facts"""
        self.lemmas.append(f)

    def locs(self, *tys):
        """memory locations whose value has one of the given types (value types, by name)"""
        out = []
        for root, path, v in self.E.leaves(self.st, self.fr_roots()):
            if isz(v):
                t = tstr(self.W.type_of(v))
            elif isinstance(v, CVec):
                t = 'Vec<' + tstr(v.ty) + '>'
            elif isinstance(v, It):
                t = 'It'
            else:
                continue
            if t in tys:
                out.append(Loc(root, path))
        return out

    def fr_roots(self):
        return [r for r in self.st.mem if r[0] == self.fr.id or r[0] == 'h' or r in self.mod]

    def modified(self, loc):
        return loc.root in self.mod

    def iters(self):
        """locations of live iterators"""
        out = []
        for root, path, v in self.E.leaves(self.st, self.fr_roots()):
            if isinstance(v, It) and v.kind in ('seq', 'comp'):
                out.append(Loc(root, path))
        return out


class Loc:
    __slots__ = ('root', 'path')

    def __init__(self, root, path):
        self.root, self.path = root, tuple(path)

    def __eq__(self, o):
        return self.root == o.root and self.path == o.path

    def __hash__(self):
        return hash((self.root, self.path))


class View:
    """a state, as invariants read it"""

    def __init__(self, E, st):
        self.E, self.st = E, st
        self.W = E.W

    def __getitem__(self, loc):
        v = self.st.mem[loc.root]
        for i in loc.path:
            v = v.fields[i]
        if isinstance(v, CVec):
            v = self.E.to_z3(self.st, v)
        return v


class Ctx:
    """what a contract sees"""

    def __init__(self, E, fn, args, post=None, ret=None):
        self.E, self.W, self.fn = E, E.W, fn
        self._args = args
        self._post = post
        self.ret = ret

    def arg(self, i):
        return self._args[i]

    def post(self, i):
        return self._post[i]

    def nargs(self):
        return len(self._args)

    # variant helpers working for python-level and solver-level values
    def is_variant(self, v, k):
        if isinstance(v, St):
            return z3.BoolVal(v.variant == k)
        return self.W._rec(v.sort(), k, v)

    def payload(self, v, k, i=0):
        if isinstance(v, St):
            return v.fields[i] if v.variant == k else None
        return self.W._acc(v.sort(), k, i, v)

    def f(self, v, name):
        return self.E.fieldn(v, name)


class Contract:
    name = None
    mode = 'exact'
    fun = False             # result is a function of the arguments
    det = False             # only that the result is a function of the arguments
    may_panic = False       # panics are allowed (the property is about normal returns)
    trusted = False         # assumed, not proved
    opaque = False
    props = ()

    def requires(self, c):
        return []

    def ensures(self, c):
        return []

    def safe(self, c):
        """condition under which the call must not panic"""
        return TRUE if not self.may_panic else FALSE

    def inv(self, L):
        pass

    def returns(self, c):
        """closed form of the result, or None"""
        return None


class Engine:
    def __init__(self, prog, mode, contracts, rlimit=6000000):
        self.P = prog
        self.mode = mode
        self.W = World(self, mode)
        self.contracts = {}     # fn name -> Contract
        for c in contracts:
            f = prog.find(c.name)
            if f is not None and c.mode in (mode, 'both'):
                self.contracts[f['name']] = c
        self.S = Solver(self)
        from .prove import Prover
        self.prover = Prover(self)
        self.rlimit = rlimit
        self.nfresh = 0
        self.merge = False
        self.nomerge = 0
        self.binders = []       # binder stack for pure evaluation
        self.obls = []
        self.collect = True
        self.cur_params = None
        self.cur_ctx = None
        self.cur = None
        self.depth = 0
        self.steps = 0
        self.max_steps = 200000
        self.used = set()       # contracts relied on
        self.inlined = set()
        self.models = set()     # std models relied on
        self.reals = set()
        self.inv_dropped = []
        self.inv_kept = []
        from . import std
        self.std = std
        self.deadline = None
        self.panics_ok = False
        self.safe_cond = None

    def adt(self, t):
        return self.P.adt(t)

    # ---------------------------------------------------------------- fresh values
    def fresh(self, name, sort):
        self.nfresh += 1
        nm = '%s!%d' % (name, self.nfresh)
        bs = [b for g in self.binders for b in g]
        if bs:
            f = z3.Function(nm, *([b.sort() for b in bs] + [sort]))
            return f(*bs)
        return z3.Const(nm, sort)

    def fresh_fn(self, name, *sorts):
        """fresh function symbol, closed over the current binders"""
        self.nfresh += 1
        nm = '%s!%d' % (name, self.nfresh)
        bs = [b for g in self.binders for b in g]
        f = z3.Function(nm, *([b.sort() for b in bs] + list(sorts)))
        return lambda *a: f(*(bs + list(a)))

    def bvar(self, name, sort):
        self.nfresh += 1
        return z3.Const('%s?%d' % (name, self.nfresh), sort)

    def root(self):
        self.nfresh += 1
        return ('h', self.nfresh)

    def fresh_of(self, st, ty, name, invs=True):
        """fresh symbolic value of a type; list of (state, value) alternatives"""
        t = vt(ty)
        if self.W.is_data(ty):
            e = self.fresh(name, self.W.sort(t))
            if z3.is_app(e) and not self.binders and t['k'] == 'adt' and short_adt(t['name']) not in ('Vec', 'HashSet', 'HashMap', 'String') \
                    and e.sort().kind() == z3.Z3_DATATYPE_SORT and e.sort().num_constructors() == 1:
                pass
            self.wf(st, t, e)
            return [(st, e)]
        if t['k'] == 'ref' and t['m']:
            r = self.root()
            out = []
            for s2, v in self.fresh_of(st, t['t'], name):
                s2.mem[r] = v
                out.append((s2, RefV(r)))
            return out
        if t['k'] == 'adt':
            n = short_adt(t['name'])
            a = self.adt(t)
            if a and a.get('variants'):
                out = []
                for vi, v in enumerate(a['variants']):
                    states = [(st.fork() if len(a['variants']) > 1 else st, [])]
                    for fn, ft in v['fields']:
                        nxt = []
                        for s2, fs in states:
                            for s3, fv in self.fresh_field(s2, ft, name + '.' + fn):
                                nxt.append((s3, fs + [fv]))
                        states = nxt
                    out += [(s2, St(t, fs, vi)) for s2, fs in states]
                return out
        if t['k'] == 'tuple':
            states = [(st, [])]
            for i, ft in enumerate(t['ts']):
                nxt = []
                for s2, fs in states:
                    for s3, fv in self.fresh_field(s2, ft, name + '.%d' % i):
                        nxt.append((s3, fs + [fv]))
                states = nxt
            return [(s2, St(t, fs)) for s2, fs in states]
        return [(st, Opaque(tstr(ty)))]

    def fresh_field(self, st, ft, name):
        if ft['k'] == 'ref' and not ft['m'] and has_cell(self, ft['t']):
            r = self.root()
            out = []
            for s2, v in self.fresh_of(st, ft['t'], name):
                s2.mem[r] = v
                out.append((s2, RefV(r)))
            return out
        return self.fresh_of(st, ft, name)

    def wf(self, st, t, e):
        """facts every value of the type satisfies (lengths and machine integers are not negative)"""
        for f in self.wf_facts(t, e):
            st.fact(f)

    def wf_facts(self, t, e, depth=0):
        out = []
        t = vt(t)
        if depth > 3:
            return out
        if t['k'] == 'int' and not t['s']:
            out.append(e >= 0)
        elif t['k'] in ('slice', 'array') or is_adt(t, 'Vec'):
            out.append(self.W.vlen(e) >= 0)
        elif is_adt(t, 'HashSet'):
            out += self.std.set_wf_facts(self, e)
        elif is_adt(t, 'HashMap'):
            out += self.std.set_wf_facts(self, self.W.mdom(e))
        elif t['k'] == 'tuple' or (t['k'] == 'adt' and tstr(t) in self.W.dts and len(self.W.dts[tstr(t)].variants) == 1):
            if self.mode == 'exact' and is_adt(t, 'Vertex', 'Edge', 'Triangle'):
                return out
            for i, (fn, ft) in enumerate(self.W.dts[tstr(t)].variants[0][1]):
                out += self.wf_facts(ft, self.W.get(t, 0, i, e), depth + 1)
        return out

    # ---------------------------------------------------------------- values
    def to_z3(self, st, v, ty=None):
        if isz(v):
            return v
        if isinstance(v, CVec):
            W = self.W
            es = W.sort(v.ty)
            items = [self.to_z3(st, x) for x in v.items]
            key = ('cvec', tuple(x.get_id() for x in items), es.name())
            cache = self.__dict__.setdefault('_cv', {})
            if key in cache:
                r, fact, keep = cache[key]
                if not any(f is fact for _, f in st.pc):
                    st.fact(fact)
                return r
            arr = z3.K(z3.IntSort(), self.default(es))
            bag = z3.K(es, z3.IntVal(0))
            for i, x in enumerate(items):
                arr = z3.Store(arr, z3.IntVal(i), x)
                bag = z3.Store(bag, x, Select(bag, x) + 1)
            r = W.mkvec(v.ty, arr, z3.IntVal(len(items)))
            fact = self.bag(r) == bag
            cache[key] = (r, fact, items)
            st.fact(fact)
            return r
        if isinstance(v, St):
            t = v.ty
            if self.W.is_data(t):
                fs = [self.to_z3(st, x) for x in v.fields]
                return self.W.mk(t, v.variant, fs)
        raise Unsupported('not a data value: %r' % (v,))

    def default(self, s):
        k = 'dflt_' + str(s)
        c = z3.Const(k, s)
        return c

    def bag(self, v):
        s = v.sort()
        es = s.accessor(0, 0).range().range()
        f = self.W.fn('bag_' + s.name(), s, z3.ArraySort(es, z3.IntSort()))
        if 'bagax_' + s.name() not in self.W.fns:
            self.W.fns['bagax_' + s.name()] = 1
            x = z3.Const('bx', es)
            w = z3.Const('bv', s)
            i = z3.Const('bi', z3.IntSort())
            at = z3.Select(s.accessor(0, 0)(w), i)
            ln = s.accessor(0, 1)(w)
            a = z3.Const('ba', z3.ArraySort(z3.IntSort(), es))
            l = z3.Const('bl', z3.IntSort())
            mk = s.constructor(0)
            self.W.axioms.append(('bag-at-ctor', z3.ForAll([a, l, i], z3.Implies(z3.And(0 <= i, i < l), z3.Select(f(mk(a, l)), z3.Select(a, i)) >= 1),
                                                           patterns=[z3.MultiPattern(f(mk(a, l)), z3.Select(a, i))])))
            self.W.axioms.append(('bag-at', z3.ForAll([w, i], z3.Implies(z3.And(0 <= i, i < ln), z3.Select(f(w), at) >= 1),
                                                      patterns=[z3.MultiPattern(f(w), at)])))
            ix = self.W.fn('bagidx_' + s.name(), s, es, z3.IntSort())
            self.W.axioms.append(('bag-mem', z3.ForAll([w, x], z3.And(z3.Select(f(w), x) >= 0, z3.Implies(z3.Select(f(w), x) > 0, z3.And(
                0 <= ix(w, x), ix(w, x) < ln, z3.Select(s.accessor(0, 0)(w), ix(w, x)) == x))), patterns=[z3.Select(f(w), x)])))
        return f(v)

    def mem(self, v, x):
        """x occurs in the vector v"""
        return Select(self.bag(v), x) > 0

    def fieldn(self, v, name):
        """struct field by name"""
        if isinstance(v, St):
            a = self.adt(v.ty)
            for i, (fn, ft) in enumerate(a['variants'][v.variant]['fields']):
                if fn == name:
                    return v.fields[i]
            raise Unsupported('field ' + name)
        return self.W.field(v, name)

    def leaves(self, st, roots):
        for r in roots:
            if r in st.mem:
                yield from self._leaves(r, (), st.mem[r])

    def _leaves(self, r, path, v):
        if isinstance(v, St):
            for i, x in enumerate(v.fields):
                yield from self._leaves(r, path + (i,), x)
        else:
            yield r, path, v

    # ---------------------------------------------------------------- places
    def loc_of(self, st, fr, place):
        """(root, proj, type) of a place after following references; or ('val', v, ty)"""
        l, proj = place
        root = (fr.id, l)
        ty = fr.fn['locals'][l]
        cur = []
        val = None          # when we left addressable memory
        var = 0
        for el in proj:
            k = el[0]
            if k == 'deref':
                v = val if val is not None else self.rd(st, root, cur)
                nt = ty['t'] if ty['k'] in ('ref', 'ptr') else ty['args'][0]
                if isinstance(v, RefV):
                    root, cur, val = v.root, list(v.proj), None
                elif isinstance(v, BoxU):
                    root, cur, val = v.root, [], None
                ty = nt
            elif k == 'field':
                if ty['k'] == 'adt' and short_adt(ty['name']) in TRANSPARENT | {'Unique', 'NonNull'}:
                    ty = el[2]
                    continue
                p = ('f', el[1], var)
                var = 0
                if val is not None:
                    val = self.nav(st, val, p)
                else:
                    cur.append(p)
                ty = el[2]
            elif k == 'downcast':
                var = el[1]
            elif k == 'index':
                i = self.rd(st, (fr.id, el[1]), [])
                p = ('i', i)
                if val is not None:
                    val = self.nav(st, val, p)
                else:
                    cur.append(p)
                ty = ty['t']
            elif k == 'cindex':
                if el[3]:
                    raise Unsupported('index from end')
                p = ('i', z3.IntVal(el[1]))
                if val is not None:
                    val = self.nav(st, val, p)
                else:
                    cur.append(p)
                ty = ty['t']
            else:
                raise Unsupported('projection ' + k)
        if val is not None:
            return ('val', val, ty)
        return (root, tuple(cur), ty)

    def rd(self, st, root, proj):
        if root not in st.mem:
            raise Undef('read of undefined %r in %s' % (root, self.cur))
        v = st.mem[root]
        for p in proj:
            v = self.nav(st, v, p)
        return v

    def nav(self, st, v, p):
        k = p[0]
        if isinstance(v, RefV):
            v = self.rd(st, v.root, v.proj)
        if k == 'f':
            if isinstance(v, St):
                return v.fields[p[1]]
            if isz(v):
                return self.W.get(self.W.type_of(v), p[2], p[1], v)
        elif k == 'i':
            if isinstance(v, CVec):
                if z3.is_int_value(p[1]):
                    i = p[1].as_long()
                    if i < len(v.items):
                        return v.items[i]
                v = self.to_z3(st, v)
            if isz(v):
                return self.W.vat(v, p[1])
        elif k == 'm':
            if isz(v):
                return Select(self.W.mval(v), p[1])
        raise Unsupported('navigate %s of %r' % (k, v))

    def read_place(self, st, fr, place):
        r = self.loc_of(st, fr, place)
        if r[0] == 'val':
            return r[1]
        return self.rd(st, r[0], r[1])

    def upd(self, st, v, proj, new):
        if not proj:
            return new
        p = proj[0]
        k = p[0]
        if k == 'f':
            if isinstance(v, St):
                fs = list(v.fields)
                fs[p[1]] = self.upd(st, fs[p[1]], proj[1:], new)
                return St(v.ty, fs, v.variant)
            if isz(v):
                t = self.W.type_of(v)
                cur = self.W.get(t, p[2], p[1], v)
                n = self.upd(st, cur, proj[1:], new)
                return self.W.put(t, p[2], p[1], v, self.to_z3(st, n))
        elif k == 'i':
            if isinstance(v, CVec) and z3.is_int_value(p[1]):
                it = list(v.items)
                i = p[1].as_long()
                it[i] = self.upd(st, it[i], proj[1:], new)
                return CVec(v.ty, it)
            v = self.to_z3(st, v)
            old = self.W.vat(v, p[1])
            n = self.to_z3(st, self.upd(st, old, proj[1:], new))
            r = self.W.mkvec(self.W.type_of(v)['args'][0] if is_adt(self.W.type_of(v), 'Vec') else self.W.type_of(v)['t'],
                             z3.Store(self.W.varr(v), p[1], n), self.W.vlen(v))
            b = self.bag(v)
            b1 = z3.Store(b, old, Select(b, old) - 1)
            st.fact(self.bag(r) == z3.Store(b1, n, Select(b1, n) + 1))
            return r
        elif k == 'm':
            if isz(v):
                old = Select(self.W.mval(v), p[1])
                n = self.to_z3(st, self.upd(st, old, proj[1:], new))
                return self.W.mkmap(v.sort(), self.W.mdom(v), z3.Store(self.W.mval(v), p[1], n))
        raise Unsupported('update %s of %r' % (k, v))

    def wr(self, st, root, proj, v):
        if st.writes is not None:
            st.writes.add(root)
        if not proj:
            st.mem[root] = v
        else:
            if root not in st.mem:
                raise Undef('partial write to undefined %r' % (root,))
            st.mem[root] = self.upd(st, st.mem[root], list(proj), v)

    def write_place(self, st, fr, place, v):
        r = self.loc_of(st, fr, place)
        if r[0] == 'val':
            raise Unsupported('write through value')
        self.wr(st, r[0], r[1], v)

    # what a reference denotes
    def deref(self, st, v):
        while isinstance(v, RefV):
            v = self.rd(st, v.root, v.proj)
        return v

    # ---------------------------------------------------------------- operands
    def const(self, st, ty, val):
        t = vt(ty)
        if 'bits' in val:
            b = int(val['bits'])
            k = t['k']
            if k == 'bool':
                return z3.BoolVal(bool(b))
            if k == 'int':
                if t['s'] and b >= 1 << (8 * val['size'] - 1):
                    b -= 1 << (8 * val['size'])
                return z3.IntVal(b)
            if k == 'char':
                return z3.IntVal(b)
            if k == 'float':
                f = struct.unpack('<d' if val['size'] == 8 else '<f', b.to_bytes(val['size'], 'little'))[0]
                if f != f or f in (float('inf'), float('-inf')):
                    return self.fresh('inf', z3.RealSort())
                fr = Fraction(f)
                return self.realconst(f, fr)
        if 'v' in val:
            a = self.adt(t) if t['k'] == 'adt' else None
            fs = []
            if t['k'] == 'adt':
                if a is None:
                    return Opaque('const')
                fts = a['variants'][val['v']]['fields']
                fs = [self.const(st, ft, fv) for (fn, ft), fv in zip(fts, val['fs'])]
            elif t['k'] == 'tuple':
                fs = [self.const(st, ft, fv) for ft, fv in zip(t['ts'], val['fs'])]
            return self.mkadt(st, t, val['v'], fs)
        if 'list' in val:
            return CVec(t['t'], [self.const(st, t['t'], x) for x in val['list']])
        if 'str' in val:
            return z3.StringVal(val['str'])
        if 'zst' in val:
            if t['k'] == 'fndef':
                return FnV(t['f'])
            if t['k'] == 'closure':
                return St(t, [])
            if t['k'] == 'tuple':
                return self.mkadt(st, t, 0, [])
            if t['k'] == 'adt':
                a = self.adt(t)
                if a and a.get('variants'):
                    return self.mkadt(st, t, 0, [])
                return Opaque('zst')
        return Opaque('const ' + repr(val)[:40])

    def realconst(self, f, fr):
        # decimal reading of literals such as 1.0E-14: within one rounding of the exact bits
        d = Fraction(repr(f))
        if f == 3.141592653589793:
            return self.W_pi()
        return z3.RealVal(str(d.numerator) + '/' + str(d.denominator)) if d.denominator != 1 else z3.RealVal(d.numerator)

    def W_pi(self):
        p = z3.Const('pi', z3.RealSort())
        if 'pi' not in self.W.fns:
            self.W.fns['pi'] = p
            self.W.axioms.append(('pi', z3.And(p > z3.RealVal('3.1415926535'), p < z3.RealVal('3.1415926536'))))
        return p

    def mkadt(self, st, t, variant, fs):
        t = vt(t)
        if t['k'] == 'adt' and short_adt(t['name']) in TRANSPARENT:
            return fs[0]
        if self.W.is_data(t) and all(isz(x) or isinstance(x, CVec) or (isinstance(x, St) and self.W.is_data(x.ty)) for x in fs):
            return self.W.mk(t, variant, [self.to_z3(st, x) for x in fs])
        return St(t, fs, variant)

    def operand(self, st, fr, o):
        if o[0] in ('copy', 'move'):
            return self.read_place(st, fr, o[1])
        if o[0] == 'const':
            return self.const(st, o[1], o[2])
        raise Unsupported('operand ' + o[0])

    def optype(self, fr, o):
        if o[0] == 'const':
            return o[1]
        return self.placetype(fr, o[1])

    def placetype(self, fr, place):
        ty = fr.fn['locals'][place[0]]
        for el in place[1]:
            if el[0] == 'deref':
                ty = ty['t'] if ty['k'] in ('ref', 'ptr') else ty['args'][0]
            elif el[0] == 'field':
                ty = el[2]
            elif el[0] in ('index', 'cindex'):
                ty = ty['t']
        return ty

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            mut, place = r[1], r[2]
            loc = self.loc_of(st, fr, place)
            if loc[0] == 'val':
                return loc[1]
            root, proj, ty = loc
            if mut or has_cell(self, ty):
                return RefV(root, proj)
            v = self.rd(st, root, proj)
            return v
        if k == 'addr':
            loc = self.loc_of(st, fr, r[1])
            if loc[0] == 'val':
                return loc[1]
            return RefV(loc[0], loc[1])
        if k in ('bin', 'cbin'):
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            v = self.binop(st, r[1], a, b, self.optype(fr, r[2]))
            if k == 'cbin':
                t = vt(self.optype(fr, r[2]))
                if t['s'] or z3.is_bool(v):
                    of = FALSE
                else:
                    of = z3.simplify(v < 0)
                return St(dty, [v, of])
            return v
        if k == 'un':
            a = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                return Not(a)
            if r[1] == 'Neg':
                return -a
            raise Unsupported('unary ' + r[1])
        if k == 'discr':
            v = self.read_place(st, fr, r[1])
            v = self.deref(st, v)
            if isinstance(v, Opaque):
                return v
            return Discr(vt(self.placetype(fr, r[1])), v)
        if k == 'len':
            v = self.deref(st, self.read_place(st, fr, r[1]))
            return self.W.vlen(v)
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            src = vt(self.optype(fr, r[2]))
            dst = vt(r[3])
            if r[1].startswith('BoxDeref') or r[1].startswith('Ptr') or 'Pointer' in r[1] or r[1].startswith('Transmute'):
                return v
            if isinstance(v, Discr):
                return v
            if src['k'] == 'int' and dst['k'] == 'int':
                return v
            if src['k'] == 'int' and dst['k'] == 'float':
                return z3.ToReal(v)
            if src['k'] == 'float' and dst['k'] == 'int':
                # truncation, saturating at zero for unsigned
                tr = If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                return If(v >= 0, z3.ToInt(v), z3.IntVal(0)) if not dst['s'] else tr
            if src['k'] == 'float' and dst['k'] == 'float':
                if src['n'] == dst['n']:
                    return v
                return self.W.fn('as_' + dst['n'], z3.RealSort(), z3.RealSort())(v)
            if src['k'] == 'bool' and dst['k'] == 'int':
                return If(v, z3.IntVal(1), z3.IntVal(0))
            raise Unsupported('cast ' + r[1])
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r[2]]
            kk = r[1]['k']
            if kk == 'tuple':
                t = dty
                return self.mkadt(st, t, 0, ops)
            if kk == 'adt':
                return self.mkadt(st, r[1]['ty'], r[1]['v'], ops)
            if kk == 'array':
                return CVec(vt(dty)['t'], ops)
            if kk == 'closure':
                return St(r[1]['ty'], ops)
            raise Unsupported('aggregate ' + kk)
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            t = vt(dty)
            n = int(t['n'])
            return CVec(t['t'], [v] * n)
        raise Unsupported('rvalue ' + k)

    def binop(self, st, op, a, b, ty):
        a = self.deref(st, a)
        b = self.deref(st, b)
        if isinstance(a, Discr) or isinstance(b, Discr):
            if isinstance(a, Discr) and isinstance(b, Discr):
                if op in ('Eq', 'Ne'):
                    e = self.same_variant(a, b)
                    return e if op == 'Eq' else Not(e)
                ia, ib = self.discr_int(a), self.discr_int(b)
                return self.binop(st, op, ia, ib, ty)
            if isinstance(a, Discr):
                return self.binop(st, op, self.discr_int(a), b, ty)
            return self.binop(st, op, a, self.discr_int(b), ty)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('operation on opaque value')
        op = op.replace('Unchecked', '').replace('WithOverflow', '')
        if op in ('Offset', 'Cmp'):
            raise Unsupported(op)
        if op == 'Eq':
            return Eq(a, b)
        if op == 'Ne':
            return Not(Eq(a, b))
        if op in ('Lt', 'Le', 'Gt', 'Ge') and z3.is_bool(a):
            raise Unsupported('bool compare')
        if op == 'Lt':
            return self.sm(a < b)
        if op == 'Le':
            return self.sm(a <= b)
        if op == 'Gt':
            return self.sm(a > b)
        if op == 'Ge':
            return self.sm(a >= b)
        if op == 'Add':
            return self.sm(a + b)
        if op == 'Sub':
            return self.sm(a - b)
        if op == 'Mul':
            return self.sm(a * b)
        if op == 'Div':
            t = vt(ty)
            return self.sm(a / b)
        if op == 'Rem':
            if t_is_int(ty):
                return self.sm(a % b)
            raise Unsupported('float remainder')
        if op == 'BitAnd':
            if z3.is_bool(a):
                return And(a, b)
            if z3.is_int_value(b) and b.as_long() == 1:
                return self.sm(a % 2)
        if op == 'BitOr' and z3.is_bool(a):
            return Or(a, b)
        if op == 'BitXor' and z3.is_bool(a):
            return Not(Eq(a, b))
        raise Unsupported('binop ' + op)

    def sm(self, e):
        """constant folding on small terms"""
        if all(z3.is_int_value(c) or z3.is_rational_value(c) for c in e.children()):
            return z3.simplify(e)
        if z3.is_int(e) if z3.is_expr(e) and not z3.is_bool(e) else False:
            return z3.simplify(e)
        return e

    def variants(self, ty):
        return self.adt(ty)['variants']

    def rec_variant(self, v, k):
        if isinstance(v, St):
            return z3.BoolVal(v.variant == k)
        return self.W._rec(v.sort(), k, v)

    def same_variant(self, a, b):
        n = len(self.variants(a.ty))
        if isz(a.val) and isz(b.val) and all(not v['fields'] for v in self.variants(a.ty)):
            return Eq(a.val, b.val)
        return Or(*[And(self.rec_variant(a.val, k), self.rec_variant(b.val, k)) for k in range(n)])

    def discr_int(self, d):
        vs = self.variants(d.ty)
        e = None
        for i, v in reversed(list(enumerate(vs))):
            x = int(v['discr'])
            if x >= 1 << 7 and x < 1 << 8:
                x -= 256
            c = z3.IntVal(x)
            e = c if e is None else If(self.rec_variant(d.val, i), c, e)
        return e

    # ---------------------------------------------------------------- equality of rust values
    def eq_values(self, st, ty, a, b):
        """Rust's == for two values of a type: list of (state, z3 bool)"""
        a, b = self.deref(st, a), self.deref(st, b)
        t = vt_any(ty)
        k = t['k']
        if k in ('bool', 'int', 'float', 'char', 'str'):
            if isinstance(a, Discr):
                return [(st, self.same_variant(a, b))]
            return [(st, Eq(a, b))]
        if k == 'tuple':
            return self.eq_list(st, t['ts'], [self.nav(st, a, ('f', i, 0)) for i in range(len(t['ts']))],
                                [self.nav(st, b, ('f', i, 0)) for i in range(len(t['ts']))])
        if k in ('slice', 'array') or (k == 'adt' and short_adt(t['name']) == 'Vec'):
            return [(st, self.vec_eq(st, t, a, b))]
        if k == 'adt':
            n = short_adt(t['name'])
            if n in ('String',):
                return [(st, Eq(a, b))]
            if n in ('HashSet', 'HashMap'):
                return [(st, Eq(a, b))]
            f = self.P.impl_of(t, 'std::cmp::PartialEq', 'eq')
            if f is not None:
                if self.mode == 'exact' and n == 'Vertex':
                    self.used.add(f['name'])
                    return [(st, Eq(a, b))]
                return [(o.st, o.val) for o in self.call_local(st, f, [a, b]) if o.kind == 'ret']
            if n in ('Option', 'Result') or True:
                ad = self.adt(t)
                if not ad or not ad.get('variants'):
                    raise Unsupported('== on ' + tstr(t))
                out = []
                conds = []
                sts = st
                for vi, v in enumerate(ad['variants']):
                    ra, rb = self.rec_variant(a, vi), self.rec_variant(b, vi)
                    if z3.is_false(ra) or z3.is_false(rb):
                        continue
                    fa = [self.nav(st, a, ('f', i, vi)) for i in range(len(v['fields']))]
                    fb = [self.nav(st, b, ('f', i, vi)) for i in range(len(v['fields']))]
                    sub = self.eq_list(sts, [f[1] for f in v['fields']], fa, fb)
                    if len(sub) != 1:
                        raise Unsupported('branching ==')
                    sts, e = sub[0]
                    conds.append(And(ra, rb, e))
                return [(sts, Or(*conds))]
        raise Unsupported('== on ' + tstr(t))

    def eq_list(self, st, tys, xs, ys):
        states = [(st, TRUE)]
        for t, x, y in zip(tys, xs, ys):
            nxt = []
            for s, e in states:
                rs = self.eq_values(s, t, x, y)
                if len(rs) > 1:
                    rs = [self.merge_bool(s, rs)]
                for s2, e2 in rs:
                    nxt.append((s2, And(e, e2)))
            states = nxt
        return states

    def merge_bool(self, base, rs):
        n = len(base.pc)
        ds = []
        for s, e in rs:
            ds.append(And(*[c for k, c in s.pc[n:]], e))
        return (base, Or(*ds))

    def vec_eq(self, st, t, a, b):
        if isinstance(a, CVec) and isinstance(b, CVec):
            if len(a.items) != len(b.items):
                return FALSE
            r = self.eq_list(st, [a.ty] * len(a.items), a.items, b.items)
            return r[0][1]
        a, b = self.to_z3(st, a), self.to_z3(st, b)
        if self.mode == 'exact':
            return Eq(a, b)
        raise Unsupported('vector == in tolerance mode')

    # ---------------------------------------------------------------- execution
    def check_time(self):
        self.steps += 1
        if self.steps > self.max_steps or (self.deadline and time.time() > self.deadline):
            raise TooBig('too many steps in %s' % self.cur)

    def run(self, fr, bb, st, stop=None, region=None, joins=frozenset()):
        """execute from block bb; outcomes: ret, panic, back (to stop), exit (left region, or reached a block of joins)"""
        loops, live = self.P.loop_info(fr.fn)
        out = []
        work = [(bb, st, True)]
        merge = self.merge and not self.nomerge
        if merge:
            pdom = self.P.postdom(fr.fn)
        while work:
            bb, st, first = work.pop()
            self.check_time()
            if not first or stop is None:
                pass
            if bb == stop and not first:
                out.append(Pt('back', st))
                continue
            if region is not None and bb not in region or bb in joins and not first:
                out.append(Pt('exit', st, bb=bb))
                continue
            if bb in loops and bb != stop:
                if merge and not first and self.unrollable(fr, bb, st, loops[bb]):
                    # one round of the loop at a time
                    at = {}
                    inner = joins | {bb} | ({stop} if stop is not None else set())
                    for o in self.run(fr, bb, st, None, loops[bb], inner):
                        if o.kind == 'exit':
                            at.setdefault(o.bb, []).append(o.st)
                        else:
                            out.append(o)
                    for nb, ss in at.items():
                        for s2 in self.join(fr, nb, ss, live):
                            work.append((nb, s2, False))
                    continue
                if not self.unrollable(fr, bb, st, loops[bb]):
                    for o in self.loop(fr, bb, st, loops[bb]):
                        if o.kind == 'exit':
                            work.append((o.bb, o.st, False))
                        else:
                            out.append(o)
                    continue
                n = st.unroll.get((fr.id, bb), 0)
                if n > 40:
                    raise TooBig('unrolled too often')
                st.unroll[(fr.id, bb)] = n + 1
            b = fr.fn['blocks'][bb]
            self.line = b['line']
            for s in b['s']:
                if s[0] == 'assign':
                    place = s[1]
                    v = self.rvalue(st, fr, s[2], self.placetype(fr, place))
                    self.write_place(st, fr, place, v)
                elif s[0] in ('setdiscr',):
                    raise Unsupported('set discriminant')
            t = b['t']
            k = t[0]
            if k == 'goto':
                work.append((t[1], st, False))
            elif k == 'drop':
                work.append((t[2], st, False))
            elif k == 'return':
                out.append(Pt('ret', st, val=st.mem.get((fr.id, 0)), line=b['line']))
            elif k == 'switch':
                brs = self.switch(st, fr, t)
                pd = pdom.get(bb) if merge and len(brs) > 1 else None
                if pd is not None and pd != stop and pd not in joins and (region is None or pd in region) and fr.fn['blocks'][pd]['t'][0] != 'return':
                    here = []
                    inner = joins | {pd} | ({stop} if stop is not None else set())
                    for nb, s2 in brs:
                        if nb == pd:
                            here.append(s2)
                        elif nb in inner or region is not None and nb not in region:
                            work.append((nb, s2, False))
                        else:
                            for o in self.run(fr, nb, s2, None, region, inner):
                                if o.kind == 'exit' and o.bb == pd:
                                    here.append(o.st)
                                elif o.kind == 'exit':
                                    work.append((o.bb, o.st, False))
                                else:
                                    out.append(o)
                    for s2 in self.join(fr, pd, here, live):
                        work.append((pd, s2, False))
                else:
                    for nb, s2 in brs:
                        work.append((nb, s2, False))
            elif k == 'assert':
                c = self.operand(st, fr, t[1])
                ok = c if t[2] else Not(c)
                ok = z3.simplify(ok)
                if not z3.is_true(ok):
                    bad = st.fork()
                    bad.branch(Not(ok))
                    if self.S.ground_feasible(bad):
                        out.append(Pt('panic', bad, val=t[3][:80], line=b['line']))
                    st.branch(ok)
                work.append((t[4], st, False))
            elif k == 'call':
                for s2, v in self.call(st, fr, t, b, out):
                    if t[4] is None:
                        continue
                    self.write_place(s2, fr, t[3], v)
                    work.append((t[4], s2, False))
            elif k == 'unreachable':
                pass
            elif k == 'resume':
                pass
            else:
                raise Unsupported('terminator ' + k)
        return out

    def join(self, fr, bb, states, live):
        """states that meet at block bb, merged where their memory has the same shape"""
        if len(states) < 2:
            return states
        lv = set((fr.id, l) for l in live[bb])
        for st in states:
            keep = self.reach_roots(st, [r for r in st.mem if r[0] != fr.id] + list(lv))
            for r in list(st.mem):
                if r[0] == fr.id and r not in keep:
                    del st.mem[r]
        res = []
        for st in states:
            for i, a in enumerate(res):
                try:
                    j = self.join2(a, st)
                except (Unsupported, KeyError, z3.Z3Exception):
                    j = None
                if j is not None:
                    res[i] = j
                    break
            else:
                res.append(st)
        return res

    def join2(self, a, b):
        if set(a.mem) != set(b.mem) or (a.writes is None) != (b.writes is None):
            return None
        na = 0
        while na < min(len(a.pc), len(b.pc)) and a.pc[na][1].get_id() == b.pc[na][1].get_id():
            na += 1
        sel = self.fresh('path', z3.BoolSort())
        a2, b2 = a.fork(), b.fork()
        eqs = []
        mem = {}
        for r in a.mem:
            v = self.join_val(a2, b2, a.mem[r], b.mem[r], eqs)
            if v is None:
                return None
            mem[r] = v
        st = a.fork()
        st.mem = mem
        st.pc = a.pc[:na]
        ida = {c.get_id() for _, c in a2.pc[na:]}
        idb = {c.get_id() for _, c in b2.pc[na:]}
        for k, c in a2.pc[na:]:
            st.pc.append((k, c) if c.get_id() in idb else (k, under(sel, c)))
        for k, c in b2.pc[na:]:
            if c.get_id() not in ida:
                st.pc.append((k, under(Not(sel), c)))
        for v, x, y in eqs:
            st.fact(Implies(sel, Eq(v, x)))
            st.fact(Implies(Not(sel), Eq(v, y)))
        for k, n in b.unroll.items():
            st.unroll[k] = max(n, st.unroll.get(k, 0))
        if st.writes is not None:
            st.writes |= b.writes
        return st

    def join_val(self, sa, sb, x, y, eqs):
        """one value for both states (None: there is none)"""
        if x is y:
            return x
        if isz(x) and isz(y):
            if x.eq(y):
                return x
            if x.sort() != y.sort():
                return None
            for v, p, q in eqs:
                if p.eq(x) and q.eq(y):
                    return v
            v = self.fresh('join', x.sort())
            eqs.append((v, x, y))
            return v
        if isinstance(x, St) and isinstance(y, St) and x.variant == y.variant and len(x.fields) == len(y.fields) and tstr(x.ty) == tstr(y.ty):
            fs = [self.join_val(sa, sb, p, q, eqs) for p, q in zip(x.fields, y.fields)]
            return None if any(f is None for f in fs) else St(x.ty, fs, x.variant)
        if isinstance(x, RefV) and isinstance(y, RefV):
            return x if x.root == y.root and x.proj == y.proj else None
        if isinstance(x, It) and isinstance(y, It):
            return x if same_iter(x, y) else None
        if isinstance(x, (FnV, Opaque)) and type(x) is type(y):
            return x if repr(x) == repr(y) else None
        if isinstance(x, (CVec, St)) or isinstance(y, (CVec, St)):
            if isinstance(x, CVec) and isinstance(y, CVec) and len(x.items) == len(y.items):
                its = [self.join_val(sa, sb, p, q, eqs) for p, q in zip(x.items, y.items)]
                if all(i is not None for i in its):
                    return CVec(x.ty, its)
            return self.join_val(sa, sb, self.to_z3(sa, x), self.to_z3(sb, y), eqs)
        return None

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        res = []
        if isinstance(v, Opaque):
            raise Unsupported('switch on opaque value')
        if isinstance(v, Discr):
            vs = self.variants(v.ty)
            used = []
            for val, bb in t[2]:
                idx = [i for i, x in enumerate(vs) if int(x['discr']) == int(val) or int(x['discr']) % 256 == int(val) % 256]
                if not idx:
                    continue
                used.append(idx[0])
                res.append((self.rec_variant(v.val, idx[0]), bb))
            if t[3] is not None:
                rest = [i for i in range(len(vs)) if i not in used]
                if rest:
                    res.append((Or(*[self.rec_variant(v.val, i) for i in rest]), t[3]))
        elif z3.is_bool(v):
            conds = []
            for val, bb in t[2]:
                c = v if int(val) else Not(v)
                conds.append(c)
                res.append((c, bb))
            if t[3] is not None:
                res.append((And(*[Not(c) for c in conds]), t[3]))
        else:
            conds = []
            for val, bb in t[2]:
                c = Eq(v, z3.IntVal(int(val)))
                conds.append(c)
                res.append((c, bb))
            if t[3] is not None:
                res.append((And(*[Not(c) for c in conds]), t[3]))
        return self.fork_on(st, res)

    def fork_on(self, st, res):
        """res: [(cond, x)] exhaustive -> feasible [(x, state)]"""
        live = [(c, x) for c, x in res if not z3.is_false(c)]
        if len(live) == 1:
            st.branch(live[0][0])
            return [(live[0][1], st)]
        out = []
        for c, x in live:
            if z3.is_true(c):
                return [(x, st)]
        known = set(p.get_id() for _, p in st.pc)
        for c, x in live:
            if c.get_id() in known:
                return [(x, st)]
        for c, x in live:
            s2 = st.fork()
            s2.branch(c)
            if self.S.ground_feasible(s2):
                out.append((x, s2))
        if len(out) == 1:
            pass
        return out

    # ---------------------------------------------------------------- calls
    def call(self, st, fr, t, b, out):
        """list of (state, value) for normal returns; panic outcomes are appended to out"""
        fo = t[1]
        if fo[0] != 'const':
            fv = self.operand(st, fr, fo)
            raise Unsupported('indirect call')
        g = fo[1]['f']
        args = [self.operand(st, fr, o) for o in t[2]]
        atys = [self.optype(fr, o) for o in t[2]]
        dty = self.placetype(fr, t[3])
        line = b['line']
        return self.call_fn(st, g, args, atys, dty, out, line)

    def call_fn(self, st, g, args, atys, dty, out, line):
        f = self.P.fn_of_call(g)
        if f is not None and not (f['name'].endswith('::fmt')):
            outs = self.call_local(st, f, args)
        else:
            self.models.add(g['def'])
            outs = self.std.call(self, st, g, args, atys, dty, line)
        res = []
        for o in outs:
            if isinstance(o, Pt):
                if o.kind == 'ret':
                    res.append((o.st, o.val))
                elif o.kind == 'panic':
                    if not o.line:
                        o.line = line
                    out.append(o)
            else:
                res.append(o)
        return res

    def call_local(self, st, f, args):
        """list of Pt"""
        c = self.contracts.get(f['name'])
        if c is not None and self.cur_top is not None and (f['name'] != self.cur_top or self.depth > 0):
            return self.apply_contract(st, f, c, args)
        if any(x.fn['name'] == f['name'] for x in self.stack):
            raise Unsupported('recursion')
        if self.depth > 14:
            raise Unsupported('call depth')
        self.inlined.add(f['name'])
        if f['locals'][0]['k'] == 'ref' or not self.W.is_data(f['locals'][0]) or self.mut_params(f):
            return self.exec_fn(st, f, args)
        base = st.fork()
        n = len(st.pc)
        outs = self.exec_fn(st, f, args)
        return self.merge_rets(base, n, outs)

    def merge_rets(self, base, n, outs):
        """join the paths of a side-effect-free callee into one value"""
        rets = [o for o in outs if o.kind == 'ret']
        if len(rets) < 2:
            return outs
        if any(not isz(o.val) for o in rets):
            return outs
        for o in rets:
            if len(o.st.mem) != len(base.mem) or any(o.st.mem.get(k) is not v for k, v in base.mem.items()):
                return outs
            if any(has_quant(e) for k, e in o.st.pc[n:] if k == 'b'):
                return outs
        facts = []
        vals = []
        for o in rets:
            pre = []
            for k, e in o.st.pc[n:]:
                if k == 'b':
                    pre.append(e)
                else:
                    facts.append(Implies(And(*pre), e))
            vals.append((And(*pre), o.val))
        for e in facts:
            base.fact(e)
        if len(rets) < len(outs):
            base.branch(Or(*[c for c, v in vals]))
        base.writes = rets[0].st.writes
        if z3.is_bool(vals[0][1]):
            v = self.bool_merge(vals)
        else:
            v = vals[-1][1]
            for c, x in reversed(vals[:-1]):
                v = If(c, x, v)
        return [o for o in outs if o.kind != 'ret'] + [Pt('ret', base, val=v, line=rets[0].line)]

    def bool_merge(self, vals):
        """disjunction of the cases that yield true, with conditions shared by all cases factored"""
        return Or(*[And(c, v) for c, v in vals])

    def exec_fn(self, st, f, args):
        if f['kind'] == 'generic':
            pass
        fr = Frame(f)
        for i, a in enumerate(args):
            st.mem[(fr.id, i + 1)] = a
        self.depth += 1
        self.stack.append(fr)
        line = self.line
        try:
            outs = self.run(fr, 0, st)
        finally:
            self.depth -= 1
            self.stack.pop()
            self.line = line
        for o in outs:
            if o.kind == 'ret':
                if o.val is None:
                    o.val = self.mkadt(o.st, UNIT, 0, [])
                for k in [k for k in o.st.mem if k[0] == fr.id]:
                    if not self.escapes(o, k):
                        del o.st.mem[k]
        return outs

    def escapes(self, o, k):
        return self._refs(o.val, k)

    def _refs(self, v, k):
        if isinstance(v, RefV):
            return v.root == k
        if isinstance(v, St):
            return any(self._refs(x, k) for x in v.fields)
        return False

    def pre_args(self, st, f, args):
        r = []
        for i, a in enumerate(args):
            r.append(self.snapshot(st, self.deref(st, a)))
        return r

    def snapshot(self, st, v):
        """value with references inside replaced by what they denote"""
        if isinstance(v, RefV):
            return self.snapshot(st, self.deref(st, v))
        if isinstance(v, St):
            return St(v.ty, [self.snapshot(st, x) for x in v.fields], v.variant)
        if isinstance(v, CVec):
            try:
                return self.to_z3(st, v)
            except Unsupported:
                return v
        return v

    def mut_params(self, f):
        """indices of parameters through which the caller's data may change"""
        r = []
        for i in range(f['argc']):
            t = f['locals'][i + 1]
            if t['k'] == 'ref' and (t['m'] or has_cell(self, t['t'])):
                r.append(i)
        return r

    def apply_contract(self, st, f, c, args):
        self.used.add(f['name'])
        pre = self.pre_args(st, f, args)
        ctx = Ctx(self, f, pre)
        for label, e in c.requires(ctx):
            self.oblige(st, 'pre:%s:%s' % (last(f['name']), label), e)
            st.fact(e)
        if not self.panics_allowed():
            sc = c.safe(ctx)
            if not z3.is_true(sc):
                self.oblige(st, 'nopanic:%s' % last(f['name']), Implies(self.safe_cond, sc))
        states = [(st, [])]
        rety = f['locals'][0]
        post = list(pre)
        for i in self.mut_params(f):
            if i in c.frame(ctx) if hasattr(c, 'frame') else False:
                continue
            t = f['locals'][i + 1]['t']
            a = args[i]
            if not isinstance(a, RefV):
                raise Unsupported('mutable argument is not a reference')
            new = self.havoc_like(st, self.rd(st, a.root, a.proj), 'm%d' % i)
            self.wr(st, a.root, a.proj, new)
            post[i] = self.snapshot(st, new)
        outs = []
        rv = c.returns(ctx)
        if rv is not None:
            alts = [(st, rv)]
        elif c.fun and self.W.is_data(rety):
            zs = [self.to_z3(st, a) for a in pre]
            F = self.W.fn('F_' + c.name, *([z.sort() for z in zs] + [self.W.sort(rety)]))
            r = F(*zs) if zs else F()
            self.wf(st, rety, r)
            alts = [(st, r)]
        else:
            alts = self.fresh_of(st, rety, 'r_' + last(f['name']))
        for s2, r in alts:
            cx = Ctx(self, f, pre, post, r)
            for label, e in [] if c.opaque else c.ensures(cx):
                s2.fact(e)
            if len(alts) > 1 and not self.S.ground_feasible(s2):
                continue
            outs.append(Pt('ret', s2, val=r))
        return outs

    def havoc_like(self, st, v, name):
        if isz(v):
            e = self.fresh(name, v.sort())
            try:
                t = self.W.type_of(v)
                self.wf(st, t, e)
            except KeyError:
                pass
            return e
        if isinstance(v, St):
            if v.ty['k'] == 'adt' and len(self.variants(v.ty)) > 1:
                raise Unsupported('havoc of enum holding references')
            return St(v.ty, [self.havoc_like(st, x, name) for x in v.fields], v.variant)
        if isinstance(v, CVec):
            e = self.fresh(name, self.W.sort({'k': 'slice', 't': v.ty}))
            st.fact(self.W.vlen(e) >= 0)
            return e
        if isinstance(v, It):
            return self.std.havoc_iter(self, st, v, name)
        if isinstance(v, (RefV, FnV, Opaque)):
            return v
        raise Unsupported('havoc of %r' % (v,))

    def panics_allowed(self):
        return self.panics_ok

    def oblige(self, st, name, goal, kind='call'):
        if z3.is_true(goal):
            return
        if self.collect:
            bs = [b for g in self.binders for b in g]
            self.obls.append(Obl(self.cur, name, st.conj(), goal, self.line, kind))

    # ---------------------------------------------------------------- closures
    def call_closure(self, st, clo, args):
        """list of Pt; clo is a closure value, a reference to one, or a function item"""
        c = clo
        if isinstance(c, RefV):
            c = self.deref(st, c)
        if isinstance(c, FnV):
            f = self.P.fn_of_call(c.f)
            if f is not None:
                return self.call_local(st, f, args)
            outs = self.std.call(self, st, c.f, args, c.f.get('atys') or [None] * len(args), None, self.line)
            return [o if isinstance(o, Pt) else Pt('ret', o[0], val=o[1]) for o in outs]
        if not isinstance(c, St) or c.ty['k'] != 'closure':
            raise Unsupported('call of %r' % (c,))
        f = self.P.fns.get(c.ty['name'])
        if f is None:
            raise Unsupported('closure body ' + c.ty['name'])
        t1 = f['locals'][1]
        if t1['k'] == 'ref' and t1['m']:
            if isinstance(clo, RefV):
                a0 = clo
            else:
                r = self.root()
                st.mem[r] = c
                a0 = RefV(r)
        else:
            a0 = c
        if f['spread'] is not None:
            raise Unsupported('spread closure')
        return self.exec_fn(st, f, [a0] + list(args))

    def pure(self, st, clo, args, binders=(), guard=TRUE):
        """evaluate a closure that writes nothing the caller sees; returns its value.
        Facts found on the way are exported to st, closed over the binders."""
        base = st.fork()
        n = len(base.pc)
        base.branch(guard)
        w0 = st.writes
        base.writes = set()
        if binders:
            self.binders.append(list(binders))
        self.nomerge += 1
        try:
            outs = self.call_closure(base, clo, args)
        finally:
            self.nomerge -= 1
            if binders:
                self.binders.pop()
        vals = []
        facts = []
        for o in outs:
            ext = o.st.pc[n:]
            bc = And(*[e for k, e in ext if k == 'b'])
            if o.kind == 'panic':
                if not self.panics_ok:
                    s2 = st.fork()
                    s2.pc += [('b', e) for k, e in ext]
                    self.panic_obl(s2, o)
                continue
            if o.kind != 'ret':
                raise Unsupported('closure outcome')
            for w in o.st.writes or ():
                if w in st.mem and not (isinstance(st.mem[w], St) and st.mem[w].ty['k'] == 'closure'):
                    raise Unsupported('closure writes captured state')
            pre = []
            for k, e in ext:
                if k == 'b':
                    pre.append(e)
                else:
                    facts.append(Implies(And(*pre), e))
            vals.append((bc, o.val, o.st))
        for e in facts:
            self.export(st, binders, e)
        if not vals:
            raise Unsupported('closure never returns')
        # drop the guard from branch conditions of merged values
        res = vals[-1][1]
        if len(vals) == 1:
            v = self.flat(vals[0][2], res)
            return v
        out = None
        zs = [(c, self.to_z3(s, self.flat(s, v))) for c, v, s in vals]
        # boolean results: a disjunction keeps them readable
        if z3.is_bool(zs[0][1]):
            gi = guard
            return Or(*[And(self.strip(c, guard), v) for c, v in zs])
        out = zs[-1][1]
        for c, v in reversed(zs[:-1]):
            out = If(self.strip(c, guard), v, out)
        return out

    def strip(self, c, guard):
        if z3.is_and(c):
            return And(*[x for x in c.children() if not x.eq(guard)])
        return TRUE if c.eq(guard) else c

    def flat(self, st, v):
        if isinstance(v, RefV):
            return self.snapshot(st, v)
        if isinstance(v, CVec):
            return CVec(v.ty, [self.flat(st, x) for x in v.items])
        if isinstance(v, St) and v.ty['k'] != 'closure':
            return St(v.ty, [self.flat(st, x) for x in v.fields], v.variant)
        return v

    def export(self, st, binders, e):
        """add a fact, universally closed over the given binders (and only those it mentions)"""
        if z3.is_true(e):
            return
        if not binders:
            st.fact(e)
            return
        if self.binders:
            # nested pure evaluation: the outer one will close over its own binders
            st.fact(ForAll(binders, e))
            return
        st.fact(ForAll(binders, e))

    def panic_obl(self, st, o):
        if not self.collect:
            return
        self.obls.append(Obl(self.cur, 'nopanic', st.conj(), Not(self.safe_cond), o.line or self.line, 'panic'))

    # ---------------------------------------------------------------- loops
    def unrollable(self, fr, header, st, region):
        its = self.loop_iters(fr, region, header)
        if not its:
            return False
        if all((fr.id, l) not in st.mem for l in its):
            return False
        for l in its:
            v = st.mem.get((fr.id, l))
            if v is None:
                # defined inside the loop: belongs to an inner loop
                continue
            if isinstance(v, RefV):
                v = self.deref(st, v)
            if isinstance(v, It) and v.kind == 'list':
                continue
            if isinstance(v, St) and is_adt(v.ty, 'Range'):
                v = None
            if isz(v) and is_adt(self.W.type_of(v), 'Range<Usize>', 'Range'):
                t = self.W.type_of(v)
                a, b = self.W.get(t, 0, 0, v), self.W.get(t, 0, 1, v)
                a, b = z3.simplify(a), z3.simplify(b)
                if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() - a.as_long() <= 12:
                    continue
            return False
        return True

    def loop_iters(self, fr, region, header):
        """locals that the header's own next() call advances"""
        key = ('li', fr.fn['name'], header)
        c = self.__dict__.setdefault('_li', {})
        if key in c:
            return c[key]
        B = fr.fn['blocks']
        loops, _ = self.P.loop_info(fr.fn)
        inner = set()
        for h, r in loops.items():
            if h != header and h in region:
                inner |= r
        res = set()
        refs = {}
        for bi in range(len(B)):
            for s in B[bi]['s']:
                if s[0] == 'assign' and not s[1][1] and s[2][0] == 'ref' and s[2][1]:
                    refs.setdefault(s[1][0], []).append(s[2][2])
        for bi in region:
            if bi in inner:
                continue
            t = B[bi]['t']
            if t[0] == 'call' and t[1][0] == 'const' and t[1][1]['f']['def'].endswith('Iterator::next'):
                p = t[2][0][1]
                for _ in range(6):
                    rs = refs.get(p[0])
                    if rs and len(rs) == 1 and not p[1]:
                        p = rs[0]
                        if p[1] and p[1][0][0] == 'deref':
                            p = [p[0], p[1][1:]]
                    else:
                        break
                res.add(p[0])
        c[key] = res
        return res

    def reach_roots(self, st, roots):
        seen = set()
        todo = list(roots)
        while todo:
            r = todo.pop()
            if r in seen or r not in st.mem:
                continue
            seen.add(r)
            for x in self._allrefs(st.mem[r]):
                todo.append(x)
        return seen

    def _allrefs(self, v):
        if isinstance(v, RefV):
            yield v.root
        elif isinstance(v, St):
            for x in v.fields:
                yield from self._allrefs(x)
        elif isinstance(v, BoxU):
            yield v.root

    def loop(self, fr, header, st, region):
        loops, live = self.P.loop_info(fr.fn)
        if self.binders:
            raise Unsupported('loop inside a pure context')
        self.line = fr.fn['blocks'][header]['line']
        hline = self.line
        # forget what is dead here
        lv = set((fr.id, l) for l in live[header])
        keep = self.reach_roots(st, [r for r in st.mem if r[0] != fr.id] + list(lv))
        for r in list(st.mem):
            if r[0] == fr.id and r not in keep:
                del st.mem[r]
        entry = st
        collect, self.collect = self.collect, False
        nobl = len(self.obls)
        mod = set(x for x in self.static_writes(fr, region) if x in st.mem)
        # discovery of the modified set
        disc = getattr(self, 'discovering', False)
        try:
            self.discovering = True
            while True:
                s1, outs = self.loop_body(fr, header, entry, region, mod, [])
                W = set()
                for o in outs:
                    if o.kind == 'back':
                        W |= set(w for w in o.st.writes if w in entry.mem)
                if W <= mod:
                    break
                mod |= W
        finally:
            self.collect = collect
            self.discovering = disc
        if disc:
            return self.loop_outs(entry, outs, mod)
        # candidates
        cands = []
        v0 = {}
        for root, path, v in self.leaves(entry, mod):
            if isz(v):
                def unch(view, root=root, path=path, v=v):
                    try:
                        return Eq(view[Loc(root, path)], v)
                    except (AttributeError, KeyError, IndexError):
                        return FALSE
                cands.append(('unchanged %r%r' % (root, path), unch))
            if isz(v) and is_adt(self.safe_type(v), 'Range'):
                t = self.W.type_of(v)
                a0 = self.W.get(t, 0, 0, v)
                b0 = self.W.get(t, 0, 1, v)

                def rng(view, root=root, path=path, a0=a0, b0=b0, t=t):
                    x = view[Loc(root, path)]
                    s, e = self.W.get(t, 0, 0, x), self.W.get(t, 0, 1, x)
                    return And(s >= a0, e == b0, Or(s <= b0, s == a0))
                cands.append(('range', rng))
            if isz(v) and self.safe_type(v)['k'] == 'int':
                for k in (0, 1, 2):
                    def lb(view, root=root, path=path, k=k):
                        return view[Loc(root, path)] >= k
                    cands.append(('int>=%d' % k, lb))
            if (isz(v) and self.is_vec(v)) or isinstance(v, CVec):
                def nonempty(view, root=root, path=path):
                    return self.W.vlen(view[Loc(root, path)]) >= 1
                cands.append(('nonempty', nonempty))
        L = LoopCtx(self, fr, s1, mod, cands)
        L.entry = entry
        L.header_line = hline
        if self.cur_contract is not None:
            try:
                self.cur_contract.inv(L)
            except Unsupported:
                raise
        # Houdini
        ev = View(self, entry)
        good = []
        def lem(view):
            r = []
            for f in L.lemmas:
                try:
                    r += f(view)
                except (KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception):
                    pass
            return r
        hy = entry.conj() + lem(ev)
        # rounds of an enclosing loop know ever less: what failed in one fails in the next
        cache = getattr(self, 'hcache', None)
        own = cache is None
        auto = ('unch', 'int>', 'nonempty')
        for ci, (name, f) in enumerate(cands):
            if not own and (fr.fn['name'], header, ci, name) in cache:
                continue
            try:
                g = f(ev)
            except (KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception) as ex:
                if DEBUG:
                    print('   inv', name, 'not evaluable', repr(ex))
                continue
            r = self.S.valid(hy, g, self.rlimit // (64 if name.startswith(auto) else 4))
            if r == 'unsat':
                good.append((name, f, ci))
            else:
                if not own:
                    cache.add((fr.fn['name'], header, ci, name))
                if DEBUG and not name.startswith(('unch', 'int>', 'nonempty')):
                    print('   inv dropped at entry', self.cur, hline, name, r)
                if not name.startswith(('unch', 'int>', 'nonempty')):
                    self.inv_dropped.append((self.cur, hline, name, 'entry'))
        while True:
            self.collect = False
            del self.obls[nobl:]
            if own:
                self.hcache = set() if not hasattr(self, 'hcache') or self.hcache is None else self.hcache
            s1, outs = self.loop_body(fr, header, entry, region, mod, [x[:2] for x in good])
            self.collect = collect
            bad = set()
            backs = [o for o in outs if o.kind == 'back']
            for o in backs:
                bv = View(self, o.st)
                hy = o.st.conj() + lem(bv)
                for i, (name, f, ci) in enumerate(good):
                    if i in bad:
                        continue
                    try:
                        g = f(bv)
                        r = self.S.valid(hy, g, self.rlimit // (64 if name.startswith(auto) else 2))
                    except (KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception) as ex:
                        r = repr(ex)
                    if r != 'unsat':
                        bad.add(i)
                        if not own:
                            cache.add((fr.fn['name'], header, ci, name))
                        if not name.startswith(('unch', 'int>', 'nonempty')):
                            if DEBUG:
                                print('   inv not preserved', self.cur, hline, name, r)
                            self.inv_dropped.append((self.cur, hline, name, 'preserve'))
            if not bad:
                break
            good = [x for i, x in enumerate(good) if i not in bad]
        self.inv_kept.append((self.cur, hline, len(good)))
        self.inv_obls = getattr(self, 'inv_obls', 0) + len(good) * (1 + len(backs))
        if collect:
            # once more, with the surviving invariants, to record the obligations inside the body
            del self.obls[nobl:]
            s1, outs = self.loop_body(fr, header, entry, region, mod, [x[:2] for x in good])
        if own:
            self.hcache = None
        return self.loop_outs(entry, outs, mod)

    def loop_outs(self, entry, outs, mod):
        res = []
        for o in outs:
            if o.kind in ('exit', 'ret', 'panic'):
                o.st.writes = self.merge_writes(entry.writes, o.st.writes, mod)
                res.append(o)
        return res

    def merge_writes(self, a, b, mod):
        if a is None:
            return None
        return set(a) | set(b or ()) | set(mod)

    def is_vec(self, v):
        return is_adt(self.safe_type(v), 'Vec') or self.safe_type(v)['k'] in ('slice', 'array')

    def safe_type(self, v):
        try:
            return self.W.type_of(v)
        except KeyError:
            return {'k': '?'}

    def static_writes(self, fr, region):
        w = set()
        B = fr.fn['blocks']
        for b in region:
            for s in B[b]['s']:
                if s[0] == 'assign' and not any(e[0] == 'deref' for e in s[1][1]):
                    w.add((fr.id, s[1][0]))
            t = B[b]['t']
            if t[0] == 'call' and not any(e[0] == 'deref' for e in t[3][1]):
                w.add((fr.id, t[3][0]))
        return w

    def loop_body(self, fr, header, entry, region, mod, invs):
        st = entry.fork()
        st.writes = set()
        for r in sorted(mod, key=repr):
            st.mem[r] = self.havoc_like(st, st.mem[r], 'l%s' % (r[1],))
        st.writes = set()
        view = View(self, st)
        for name, f in invs:
            st.fact(f(view))
        snap = st.fork()
        outs = self.run(fr, header, st, stop=header, region=region)
        return snap, outs

    # ---------------------------------------------------------------- verification of one function
    def verify(self, f, c):
        """generate the obligations of contract c on function f; returns list of Obl"""
        self.cur = f['name']
        self.cur_top = f['name']
        self.cur_contract = c
        self.merge = getattr(c, 'merge', False)
        self.stack = []
        self.depth = -1
        self.line = f['line']
        self.obls = []
        st = State()
        args = []
        states = [(st, [])]
        for i in range(f['argc']):
            t = f['locals'][i + 1]
            nxt = []
            for s, a in states:
                if t['k'] == 'ref' and (t['m'] or has_cell(self, t['t'])):
                    r = self.root()
                    for s2, v in self.fresh_of(s, t['t'], 'a%d' % i):
                        s2.mem[r] = v
                        nxt.append((s2, a + [RefV(r)]))
                else:
                    for s2, v in self.fresh_of(s, t, 'a%d' % i):
                        if isinstance(v, RefV) and t['k'] != 'ref':
                            pass
                        nxt.append((s2, a + [v]))
            states = nxt
        npaths = 0
        self.vac = []
        for s, args in states:
            pre = self.pre_args(s, f, args)
            ctx = Ctx(self, f, pre)
            self.cur_ctx = ctx
            self.cur_params = args
            for label, e in c.requires(ctx):
                s.fact(e)
            self.vac.append(s.conj())
            self.safe_cond = c.safe(ctx)
            self.panics_ok = z3.is_false(self.safe_cond)
            if hasattr(c, 'setup'):
                c.setup(ctx, s)
            outs = self.exec_fn(s, f, args)
            for o in outs:
                npaths += 1
                self.line = o.line
                if o.kind == 'panic':
                    if not self.panics_ok:
                        self.panic_obl(o.st, o)
                    continue
                post = [self.snapshot(o.st, self.deref(o.st, a)) if isinstance(a, RefV) else p for a, p in zip(args, pre)]
                ret = self.snapshot(o.st, o.val)
                if isinstance(ret, CVec):
                    ret = self.to_z3(o.st, ret)
                cx = Ctx(self, f, pre, post, ret)
                rv = c.returns(ctx)
                if rv is not None:
                    self.oblige(o.st, 'result', Eq(self.to_z3(o.st, ret), rv), 'post')
                for label, e in c.ensures(cx):
                    if isinstance(e, (list, tuple)):
                        raise TypeError(label)
                    self.obls.append(Obl(self.cur, 'post:' + label, o.st.conj(), e, o.line, 'post'))
        self.npaths = npaths
        return self.obls


def t_is_int(t):
    return vt(t)['k'] == 'int'
