"""Contract builder and the vocabulary the contracts share."""
import copy
import z3
from ..core import *
from ..exec import Contract, Loc, View, Ctx

REG = []        # every contract
LEMMAS = []     # (property, name, mode, goal builder)

TOL = z3.RealVal('1/100000000000000')


class KC(Contract):
    parts = ()      # (postconditions, invariants) proved one by one; callers get all of them

    def tasks(self):
        return ['%s#%d' % (self.name, i) for i in range(len(self.parts))] or [self.name]

    def part(self, i):
        c = copy.copy(self)
        c.ensures, c.inv = self.parts[i]
        return c


def K(name, mode, props, fun=False, requires=None, ensures=None, returns=None, safe=None, inv=None, may_panic=False, frame=None, setup=None,
      budget=None, note='', fold=None, merge=False, opaque=False, effort=1, parts=()):
    # fun='post': the postcondition determines the result, which callers may name; opaque: callers know no more than that
    c = KC()
    c.name, c.mode, c.props, c.fun, c.may_panic, c.note = name, mode, tuple(props.split()), fun, may_panic, note
    c.budget = budget
    c.merge, c.opaque, c.effort, c.parts = merge, opaque, effort, parts
    if requires:
        c.requires = requires
    if parts:
        ensures = lambda x: [e for f, _ in parts for e in f(x)]
    if ensures:
        c.ensures = ensures
    if returns:
        c.returns = returns
    if safe:
        c.safe = safe
    if inv:
        c.inv = inv
    if frame:
        c.frame = frame
    if setup:
        c.setup = setup
    if fold:
        c.fold = fold
    REG.append(c)
    return c


def D(name, mode):
    """the layer only needs that the result is determined by the arguments"""
    c = K(name, mode, '', fun=True)
    c.det = True
    return c


def L(prop, name, mode, f):
    LEMMAS.append((prop, name, mode, f))


def R(x):
    return z3.RealVal(x)


# ---- values by field name, for both representations
def X(c, v):
    return c.E.fieldn(v, 'x')


def Y(c, v):
    return c.E.fieldn(v, 'y')


def G(c, v):
    return c.E.fieldn(v, 'is_ghost')


def xy(c, v):
    return X(c, v), Y(c, v)


def fld(c, v, *names):
    for n in names:
        v = c.E.fieldn(v, n)
    return v


def is_var(c, v, name):
    """v is the enum variant called name"""
    t = v.ty if isinstance(v, St) else c.W.type_of(v)
    for i, x in enumerate(c.E.adt(t)['variants']):
        if x['name'] == name:
            return c.E.rec_variant(v, i)
    raise Unsupported('no variant ' + name)


def variant(c, ty_name, name):
    """value of a field-less enum"""
    for k, a in c.E.P.adts.items():
        if short_adt(a['name']) == ty_name and a.get('variants'):
            for i, x in enumerate(a['variants']):
                if x['name'] == name:
                    return c.W.mk({'k': 'adt', 'name': a['name'], 'args': [], 'key': k}, i, [])
    raise Unsupported('no enum ' + ty_name)


def some(c, v):
    return v.variant == 1 and TRUE or FALSE if isinstance(v, St) else c.W.is_some(v)


def unsome(c, v):
    return v.fields[0] if isinstance(v, St) else c.W.unsome(v)


def is_some(c, v):
    if isinstance(v, St):
        return z3.BoolVal(v.variant == 1)
    return c.W.is_some(v)


# ---- geometry
def sq(a):
    return a * a


def orient2(a, b, p):
    """twice the signed area of a b p"""
    (ax, ay), (bx, by), (px, py) = a, b, p
    return (bx - ax) * (py - ay) - (by - ay) * (px - ax)


def incircle(a, b, c, d):
    rows = []
    for p in (a, b, c):
        x, y = p[0] - d[0], p[1] - d[1]
        rows.append((x, y, x * x + y * y))
    (a1, a2, a3), (b1, b2, b3), (c1, c2, c3) = rows
    return a1 * (b2 * c3 - b3 * c2) - a2 * (b1 * c3 - b3 * c1) + a3 * (b1 * c2 - b2 * c1)


def near0(d):
    return And(d <= TOL, d >= -TOL)


def near(a, b):
    return near0(a - b)


def dot2(a, b, c_, d):
    return (b[0] - a[0]) * (d[0] - c_[0]) + (b[1] - a[1]) * (d[1] - c_[1])


def dist2(a, b):
    return sq(a[0] - b[0]) + sq(a[1] - b[1])


def sqrt(c, x):
    return c.W.fn('sqrt', z3.RealSort(), z3.RealSort())(c.E.prover.canon(x))


# ---- relational lemmas: the real body of a function run on related arguments
def runs(E, st, fname, args):
    """all normal outcomes (state, value) of the function's body on args, from a copy of st"""
    f = E.P.find(fname)
    if f is None:
        raise Unsupported('no function ' + fname)
    E.cur = E.cur_top = f['name']
    E.cur_contract = None
    E.stack, E.depth, E.line, E.obls = [], -1, f['line'], []
    E.panics_ok, E.safe_cond = True, FALSE
    c = E.contracts.pop(f['name'], None)
    try:
        outs = E.exec_fn(st.fork(), f, args)
    finally:
        if c is not None:
            E.contracts[f['name']] = c
    return [(o.st, o.val) for o in outs if o.kind == 'ret']


def const_of(E, st, fname, i, name):
    """a symbolic value of the type of argument i"""
    t = E.P.find(fname)['locals'][i + 1]
    return E.fresh_of(st, t, name)[0][1]


def lctx(E):
    return Ctx(E, None, [])


def hash_lemma(fname, related, nv):
    """values with related(a, b) leave equal hash states behind"""
    def f(E):
        from ..exec import State, RefV
        st = State()
        c = lctx(E)
        a, b = const_of(E, st, fname, 0, 'a'), const_of(E, st, fname, 0, 'b')
        h = z3.Int('hasher')
        out = []
        ends = []
        for v in (a, b):
            s = st.fork()
            r = E.root()
            s.mem[r] = h
            ends.append([(s2.conj(), s2.mem[r]) for s2, _ in runs(E, s, fname, [v, RefV(r)])])
        for p1, h1 in ends[0]:
            for p2, h2 in ends[1]:
                out.append((p1 + p2 + [related(c, a, b)], h1 == h2))
        return out
    return f
