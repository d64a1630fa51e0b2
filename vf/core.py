"""Deductive verifier core: values, types, path-wise symbolic execution of MIR.

The input is the MIR the compiler built from /repo's current sources (dumped by
/verif/mirdump); this module generates, function by function, the proof
obligations of the contracts in contracts.py and hands them to the solvers.
"""
import functools
import re, struct, time
from fractions import Fraction
import z3

# ---------------------------------------------------------------- exceptions


class Unsupported(Exception):
    pass


class TooBig(Exception):
    pass


# ---------------------------------------------------------------- types

UNIT = {'k': 'tuple', 'ts': []}
BOOL = {'k': 'bool'}
USIZE = {'k': 'int', 's': False, 'n': 'Usize'}
F64 = {'k': 'float', 'n': 'F64'}


def last(name):
    """last path segment of a rust path, generics stripped"""
    return strip_generics(name).split('::')[-1]


@functools.lru_cache(None)
def strip_generics(n):
    n = re.sub(r"<impl \[T\]>", 'slice', n)
    out = []
    d = 0
    i = 0
    while i < len(n):
        c = n[i]
        if c == '<':
            d += 1
        elif c == '>' and n[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return re.sub('(::)+', '::', ''.join(out)).strip(':')


def short_adt(name):
    s = last(name)
    if 'glium_interface' in name:
        return 'Gl' + s
    if 'json_serializar' in name:
        return 'Js' + s
    if s == 'RefineParams' and 'models' in name:
        return 'Js' + s
    return s


TRANSPARENT = {'Rc', 'RefCell', 'Box', 'Cow', 'ManuallyDrop', 'MaybeUninit', 'Arc'}


def is_adt(t, *names):
    return t['k'] == 'adt' and short_adt(t['name']) in names


_vt_cache = {}


def vt(t):
    """value type: shared references, Rc, RefCell and Box are transparent"""
    while True:
        k = t['k']
        if k == 'ref' and not t['m']:
            t = t['t']
        elif k == 'adt' and short_adt(t['name']) in TRANSPARENT:
            t = t['args'][0]
        else:
            return t


def vt_any(t):
    while True:
        k = t['k']
        if k == 'ref':
            t = t['t']
        elif k == 'adt' and short_adt(t['name']) in TRANSPARENT:
            t = t['args'][0]
        else:
            return t


def targs(t):
    return [a for a in t['args'] if a.get('k') != 'adt' or short_adt(a['name']) not in ('Global', 'RandomState')]


_ts_cache = {}


def tstr(t):
    key = id(t)
    if key in _ts_cache and _ts_cache[key][0] is t:
        return _ts_cache[key][1]
    r = _tstr(t)
    _ts_cache[key] = (t, r)
    return r


def _tstr(t):
    t = vt(t)
    k = t['k']
    if k == 'adt':
        a = targs(t)
        n = short_adt(t['name'])
        if a and n not in ('Iter', 'IntoIter', 'Matrix'):
            n += '<' + ','.join(tstr(x) for x in a) + '>'
        return n
    if k in ('int', 'float'):
        return t['n']
    if k == 'tuple':
        return '(' + ','.join(tstr(x) for x in t['ts']) + ')'
    if k in ('slice', 'array'):
        return 'Vec<' + tstr(t['t']) + '>'
    if k == 'ref':
        return '&mut ' + tstr(t['t'])
    if k == 'closure':
        return 'closure'
    return k


_cell_cache = {}


def has_cell(E, t, depth=0):
    s = repr(t)
    if s in _cell_cache:
        return _cell_cache[s]
    r = _has_cell(E, t, depth)
    _cell_cache[s] = r
    return r


def _has_cell(E, t, depth):
    if depth > 6:
        return False
    k = t['k']
    if k == 'adt':
        if short_adt(t['name']) == 'RefCell':
            return True
        if any(has_cell(E, a, depth + 1) for a in t['args'] if 'k' in a and a['k'] != 'const'):
            return True
        a = E.adt(t)
        if a and a.get('variants'):
            for v in a['variants']:
                for f in v['fields']:
                    if has_cell(E, f[1], depth + 1):
                        return True
        return False
    if k == 'ref':
        return has_cell(E, t['t'], depth + 1)
    if k == 'tuple':
        return any(has_cell(E, x, depth + 1) for x in t['ts'])
    if k in ('slice', 'array'):
        return has_cell(E, t['t'], depth + 1)
    return False


# ---------------------------------------------------------------- python-level values


class St:
    """python-level struct/tuple/closure (contains a mutable reference, a closure or an iterator)"""
    __slots__ = ('ty', 'fields', 'variant')

    def __init__(self, ty, fields, variant=0):
        self.ty = ty
        self.fields = list(fields)
        self.variant = variant

    def __repr__(self):
        return 'St(%s#%d %r)' % (tstr(self.ty), self.variant, self.fields)


class RefV:
    __slots__ = ('root', 'proj')

    def __init__(self, root, proj=()):
        self.root = root
        self.proj = tuple(proj)

    def __repr__(self):
        return 'RefV(%r,%d)' % (self.root, len(self.proj))


class CVec:
    """vector/array with a known python list of elements"""
    __slots__ = ('ty', 'items')

    def __init__(self, ty, items):
        self.ty = ty        # element type
        self.items = list(items)


class BoxU:
    __slots__ = ('root',)

    def __init__(self, root):
        self.root = root


class Mat:
    __slots__ = ('r', 'c', 'm')

    def __init__(self, r, c, m):
        self.r, self.c, self.m = r, c, m


class Discr:
    __slots__ = ('ty', 'val')

    def __init__(self, ty, val):
        self.ty, self.val = ty, val


class Opaque:
    __slots__ = ('what',)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Opaque(%s)' % self.what


class FnV:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class Comp:
    """one comprehension { elem | guard } over binders"""
    __slots__ = ('binders', 'guard', 'elem', 'keys', 'vis', 'src')

    def __init__(self, binders, guard, elem, keys, vis=None, src=None):
        self.binders = tuple(binders)
        self.guard = guard
        self.elem = elem
        self.keys = tuple(keys)     # how each binder is identified in the visited set
        self.vis = vis              # z3 array over keys, or None when nothing was visited
        self.src = src              # the container term iterated, for invariants


class It:
    """iterator value.  kind:
       list: items [(guard, value)], pos
       seq : n, ivar, elem(term in ivar), k   (ordered, symbolic length)
       comp: comps                            (any order)
    """
    __slots__ = ('kind', 'ety', 'items', 'n', 'ivar', 'elem', 'k', 'comps', 'ordered', 'src')

    def __init__(self, kind, ety, **kw):
        self.kind = kind
        self.ety = ety
        self.items = kw.get('items')
        self.n = kw.get('n')
        self.ivar = kw.get('ivar')
        self.elem = kw.get('elem')
        self.k = kw.get('k')
        self.comps = kw.get('comps')
        self.ordered = kw.get('ordered', False)
        self.src = kw.get('src')

    def copy(self, **kw):
        d = dict(items=self.items, n=self.n, ivar=self.ivar, elem=self.elem, k=self.k, comps=self.comps,
                 ordered=self.ordered, src=self.src)
        ety = kw.pop('ety', self.ety)
        kind = kw.pop('kind', self.kind)
        d.update(kw)
        return It(kind, ety, **d)


PY = (St, RefV, CVec, BoxU, Mat, Discr, Opaque, FnV, It)


def isz(v):
    return isinstance(v, z3.ExprRef)


# ---------------------------------------------------------------- z3 helpers

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return FALSE
        ys.append(x)
    if not ys:
        return TRUE
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return TRUE
        ys.append(x)
    if not ys:
        return FALSE
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def Not(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    if z3.is_false(b):
        return Not(a)
    return z3.Implies(a, b)


def If(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return Not(c)
        if z3.is_true(a):
            return Or(c, b)
        if z3.is_false(b):
            return And(c, a)
        if z3.is_false(a):
            return And(Not(c), b)
        if z3.is_true(b):
            return Or(Not(c), a)
    return z3.If(c, a, b)


def Eq(a, b):
    if a.eq(b):
        return TRUE
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.BoolVal(a.as_long() == b.as_long())
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        return z3.BoolVal(a.as_fraction() == b.as_fraction())
    if z3.is_bool(a):
        if z3.is_true(a):
            return b
        if z3.is_true(b):
            return a
        if z3.is_false(a):
            return Not(b)
        if z3.is_false(b):
            return Not(a)
    return a == b


def has_quant(e, cache={}):
    k = e.get_id()
    if k in cache and cache[k][0].eq(e):
        return cache[k][1]
    seen = set()
    todo = [e]
    r = False
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            r = True
            break
        for c in x.children():
            if c.get_id() not in seen:
                seen.add(c.get_id())
                todo.append(c)
    if len(cache) > 50000:
        cache.clear()
    cache[k] = (e, r)
    return r


def ForAll(bs, body, pats=None):
    bs = list(bs)
    if not bs or z3.is_true(body):
        return body
    if pats:
        return z3.ForAll(bs, body, patterns=pats)
    return z3.ForAll(bs, body)


def Exists(bs, body):
    bs = list(bs)
    if not bs:
        return body
    if z3.is_false(body):
        return FALSE
    return z3.Exists(bs, body)


def subst(e, pairs):
    if not pairs:
        return e
    return z3.substitute(e, *pairs)


def Select(a, *i):
    """select, looking through stores with syntactically decided indices"""
    if len(i) == 1:
        idx = i[0]
        while True:
            if z3.is_store(a):
                j = a.arg(1)
                if j.eq(idx):
                    return a.arg(2)
                if z3.is_int_value(j) and z3.is_int_value(idx):
                    a = a.arg(0)
                    continue
            elif z3.is_K(a):
                return a.arg(0)
            elif z3.is_quantifier(a) and a.is_lambda():
                b = a.body()
                return z3.substitute_vars(b, idx)
            break
        return z3.Select(a, idx)
    return z3.Select(a, *i)


# ---------------------------------------------------------------- sorts and datatypes


class DTI:
    """datatype info for a value type"""

    def __init__(self, ty, variants):
        self.ty = ty
        self.variants = variants        # [(name, [(fname, fty)])]
        self.sort = None


class World:
    """sorts, ghost functions; mode is 'eps' (tolerance, real coordinates) or 'exact'"""

    def __init__(self, E, mode):
        self.E = E
        self.mode = mode
        self.dts = {}
        self.sorts = {}
        self.bysort = {}
        self.fns = {}
        self.axioms = []        # (name, expr) background axioms (definitions of ghost functions)

    def sort(self, t):
        t = vt(t)
        s = tstr(t)
        if s in self.sorts:
            return self.sorts[s]
        r = self._sort(t, s)
        self.sorts[s] = r
        self.bysort.setdefault(r, t)
        return r

    def type_of(self, e):
        s = e.sort()
        if s == z3.BoolSort():
            return BOOL
        if s == z3.RealSort():
            return F64
        if s == z3.IntSort():
            return USIZE
        if s not in self.bysort and s.kind() == z3.Z3_ARRAY_SORT and s.range() == z3.BoolSort():
            return {'k': 'adt', 'name': 'std::collections::HashSet', 'args': [self.type_of(z3.Const('x', s.domain()))], 'key': 'set'}
        return self.bysort[s]

    def is_data(self, t):
        k = t['k']
        if k in ('bool', 'int', 'float', 'str', 'char'):
            return True
        if k == 'ref':
            if t['m']:
                return False
            return not has_cell(self.E, t['t']) and self.is_data(t['t'])
        if k == 'tuple':
            return all(self.is_data(x) for x in t['ts'])
        if k in ('slice', 'array'):
            return self.is_data(t['t'])
        if k == 'adt':
            n = short_adt(t['name'])
            if n in TRANSPARENT:
                return self.is_data(t['args'][0])
            if n in ('Vec', 'HashSet', 'HashMap'):
                return all(self.is_data(a) for a in targs(t))
            if n == 'String':
                return True
            a = self.E.adt(t)
            if a and a.get('variants') and 'Enum' in a['kind'] or a and a.get('variants'):
                return all(self.is_data(f[1]) for v in a['variants'] for f in v['fields'])
            return False
        return False

    def _sort(self, t, s):
        k = t['k']
        if k == 'bool':
            return z3.BoolSort()
        if k in ('int', 'char'):
            return z3.IntSort()
        if k == 'float':
            return z3.RealSort()
        if k == 'str' or is_adt(t, 'String'):
            return z3.StringSort()
        if k == 'tuple':
            if not self.is_data(t):
                raise Unsupported('sort of ' + s)
            return self._dt(t, s, [('t', [(str(i), x) for i, x in enumerate(t['ts'])])])
        if k in ('slice', 'array'):
            return self._vec(t['t'], s)
        if k == 'adt':
            n = short_adt(t['name'])
            a = targs(t)
            if n == 'Vec':
                return self._vec(a[0], s)
            if n == 'HashSet':
                return z3.ArraySort(self.sort(a[0]), z3.BoolSort())
            if n == 'HashMap':
                D = z3.Datatype(self._nm(s))
                ks = self.sort(a[0])
                vs = self.sort(a[1])
                D.declare('map', ('dom', z3.ArraySort(ks, z3.BoolSort())), ('val', z3.ArraySort(ks, vs)))
                return D.create()
            if n == 'Vertex' and self.mode == 'exact':
                D = z3.Datatype('VertexX')
                D.declare('Ghost')
                D.declare('Pt', ('px', z3.RealSort()), ('py', z3.RealSort()))
                return D.create()
            ad = self.E.adt(t)
            if ad and ad.get('variants'):
                vs = [(v['name'], [(f[0], f[1]) for f in v['fields']]) for v in ad['variants']]
                return self._dt(t, s, vs)
        raise Unsupported('sort of ' + s)

    def _nm(self, s):
        return self.mode[0] + '_' + s

    def _vec(self, et, s):
        D = z3.Datatype(self._nm(s))
        D.declare('vec', ('arr', z3.ArraySort(z3.IntSort(), self.sort(et))), ('len', z3.IntSort()))
        return D.create()

    def _dt(self, t, s, variants):
        D = z3.Datatype(self._nm(s))
        for vi, (vn, fs) in enumerate(variants):
            D.declare('%s_%s' % (s.split('<')[0], vn), *[('%s_%d_%s' % (s, vi, fn), self.sort(ft)) for fn, ft in fs])
        r = D.create()
        self.dts[s] = DTI(t, variants)
        self.dts[s].sort = r
        return r

    # ---- datatype access with construction-aware simplification
    def mk(self, t, variant, fields):
        t = vt(t)
        s = self.sort(t)
        if self.mode == 'exact' and is_adt(t, 'Vertex'):
            x, y, g = fields
            return If(g, s.Ghost, s.Pt(x, y))
        return s.constructor(variant)(*fields)

    def recog(self, t, variant, e):
        t = vt(t)
        s = self.sort(t)
        if s.num_constructors() == 1:
            return TRUE
        return self._rec(s, variant, e)

    def _rec(self, s, variant, e):
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_DT_CONSTRUCTOR:
                return z3.BoolVal(e.decl().eq(s.constructor(variant)))
            if k == z3.Z3_OP_ITE:
                a = self._rec(s, variant, e.arg(1))
                b = self._rec(s, variant, e.arg(2))
                if z3.is_true(a) or z3.is_false(a) or z3.is_true(b) or z3.is_false(b):
                    return If(e.arg(0), a, b)
        return s.recognizer(variant)(e)

    def get(self, t, variant, i, e):
        t = vt(t)
        s = self.sort(t)
        if self.mode == 'exact' and is_adt(t, 'Vertex'):
            g = self._rec(s, 0, e)
            if i == 2:
                return g
            return If(g, z3.RealVal(0), self._acc(s, 1, i, e))
        return self._acc(s, variant, i, e)

    def _acc(self, s, variant, i, e):
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_DT_CONSTRUCTOR and e.decl().eq(s.constructor(variant)):
                return e.arg(i)
            if k == z3.Z3_OP_ITE:
                a, b = e.arg(1), e.arg(2)

                def ctor(x):
                    return z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR
                if ctor(a) and not a.decl().eq(s.constructor(variant)):
                    return self._acc(s, variant, i, b)
                if ctor(b) and not b.decl().eq(s.constructor(variant)):
                    return self._acc(s, variant, i, a)
                if ctor(a) or ctor(b) or s.num_constructors() == 1:
                    return If(e.arg(0), self._acc(s, variant, i, a), self._acc(s, variant, i, b))
        return s.accessor(variant, i)(e)

    def put(self, t, variant, i, e, v):
        t = vt(t)
        s = self.sort(t)
        if self.mode == 'exact' and is_adt(t, 'Vertex'):
            fs = [self.get(t, 0, j, e) for j in range(3)]
            fs[i] = v
            return self.mk(t, 0, fs)
        n = s.constructor(variant).arity()
        fs = [self._acc(s, variant, j, e) for j in range(n)]
        fs[i] = v
        return s.constructor(variant)(*fs)

    def field(self, e, name):
        """struct field by name"""
        t = self.type_of(e)
        if self.mode == 'exact' and is_adt(t, 'Vertex'):
            return self.get(t, 0, {'x': 0, 'y': 1, 'is_ghost': 2}[name], e)
        d = self.dts[tstr(t)]
        for i, (fn, ft) in enumerate(d.variants[0][1]):
            if fn == name:
                return self.get(t, 0, i, e)
        raise Unsupported('field %s of %s' % (name, tstr(t)))

    # vec
    def vlen(self, v):
        if isinstance(v, CVec):
            return z3.IntVal(len(v.items))
        s = v.sort()
        return self._acc(s, 0, 1, v)

    def varr(self, v):
        return self._acc(v.sort(), 0, 0, v)

    def vat(self, v, i):
        return Select(self.varr(v), i)

    def mkvec(self, et, arr, ln):
        s = self.sort({'k': 'slice', 't': et})
        return s.constructor(0)(arr, ln)

    def mdom(self, m):
        return self._acc(m.sort(), 0, 0, m)

    def mval(self, m):
        return self._acc(m.sort(), 0, 1, m)

    def mkmap(self, like_sort, dom, val):
        return like_sort.constructor(0)(dom, val)

    # option
    def none(self, t):
        return self.sort(t).constructor(0)()

    def some(self, t, v):
        return self.sort(t).constructor(1)(v)

    def is_some(self, e):
        return self._rec(e.sort(), 1, e)

    def is_none(self, e):
        return Not(self.is_some(e))

    def unsome(self, e):
        return self._acc(e.sort(), 1, 0, e)

    # ghost functions
    def fn(self, name, *sorts):
        key = name
        if key not in self.fns:
            self.fns[key] = z3.Function(self.mode[0] + '.' + name, *sorts)
        return self.fns[key]

    def canon(self, tri):
        """representative of a triangle up to rotation of its vertices"""
        ts = tri.sort()
        f = self.fn('canon', ts, ts)
        if 'canon_ax' not in self.fns:
            self.fns['canon_ax'] = True
            VS = ts.accessor(0, 0).range()
            a, b, c = z3.Consts('cx cy cz', VS)
            T = ts.constructor(0)
            x = z3.Const('ct', ts)
            self.axioms.append(('canon-rot', z3.ForAll([a, b, c], f(T(a, b, c)) == f(T(b, c, a)),
                                                       patterns=[f(T(a, b, c))])))
            v1, v2, v3 = [ts.accessor(0, i) for i in range(3)]
            # every t is the constructor applied to its fields, so that the rule above fires for variables
            self.axioms.append(('canon-eta', z3.ForAll([x], f(x) == f(T(v2(x), v3(x), v1(x))),
                                                       patterns=[f(x)])))
            self.axioms.append(('canon-rep', z3.ForAll([x], z3.And(
                f(f(x)) == f(x),
                z3.Or(f(x) == x, f(x) == T(v2(x), v3(x), v1(x)), f(x) == T(v3(x), v1(x), v2(x)))),
                patterns=[f(x)])))
        return f(tri)

    def key(self, e):
        t = self.type_of(e)
        if self.mode == 'exact' and is_adt(t, 'Triangle'):
            return self.canon(e)
        return e


# ---------------------------------------------------------------- state


class State:
    __slots__ = ('mem', 'pc', 'unroll', 'writes')

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.unroll = {}
        self.writes = None

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.unroll = dict(self.unroll)
        s.writes = None if self.writes is None else set(self.writes)
        return s

    def branch(self, c):
        if not z3.is_true(c):
            self.pc.append(('b', c))

    def fact(self, c):
        if not z3.is_true(c):
            self.pc.append(('f', c))

    def conj(self):
        return [c for _, c in self.pc]


class Obl:
    __slots__ = ('fn', 'name', 'pc', 'goal', 'line', 'kind')

    def __init__(self, fn, name, pc, goal, line, kind):
        self.fn, self.name, self.pc, self.goal, self.line, self.kind = fn, name, pc, goal, line, kind


class Frame:
    _n = 0

    def __init__(self, fn):
        Frame._n += 1
        self.id = Frame._n
        self.fn = fn
