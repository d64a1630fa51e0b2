"""C05 equality, order, hash and sorting."""
from .common import *


def ident(c, a, b):
    """the same vertex, without tolerance; all ghosts are the same"""
    return Or(And(G(c, a), G(c, b)), And(Not(G(c, a)), Not(G(c, b)), X(c, a) == X(c, b), Y(c, a) == Y(c, b)))


def veq(c, a, b):
    """equal vertices: coordinates agree within the tolerance"""
    return Or(And(G(c, a), G(c, b)), And(Not(G(c, a)), Not(G(c, b)), near(X(c, a), X(c, b)), near(Y(c, a), Y(c, b))))


def corners(c, t):
    return [fld(c, t, n) for n in ('v1', 'v2', 'v3')]


def rot(eq, c, a, b):
    p, q = corners(c, a), corners(c, b)
    return Or(*[And(*[eq(c, p[i], q[(i + k) % 3]) for i in range(3)]) for k in range(3)])


def both(eq, c, a, b):
    return And(eq(c, fld(c, a, 'v1'), fld(c, b, 'v1')), eq(c, fld(c, a, 'v2'), fld(c, b, 'v2')))


K('<Vertex as PartialEq>::eq', 'eps', 'C05', ensures=lambda c: [('iff both ghosts or coordinates agree', c.ret == veq(c, c.arg(0), c.arg(1)))])
K('<Edge as PartialEq>::eq', 'eps', 'C05', ensures=lambda c: [('iff begin and end agree', c.ret == both(veq, c, c.arg(0), c.arg(1)))])
K('<Triangle as PartialEq>::eq', 'eps', 'C05', ensures=lambda c: [('iff corners agree up to rotation', c.ret == rot(veq, c, c.arg(0), c.arg(1)))])


def rank(c, v):
    return If(G(c, v), z3.RealVal(1), z3.RealVal(0))


def less(c, a, b):
    return Or(And(Not(G(c, a)), G(c, b)),
              And(Not(G(c, a)), Not(G(c, b)), Or(X(c, a) < X(c, b), And(X(c, a) == X(c, b), Y(c, a) < Y(c, b)))))


def cmp_is(c, r):
    a, b = c.arg(0), c.arg(1)
    # ghosts may come first or last, but not both: the order among solid vertices is lexicographic
    solid = And(Not(G(c, a)), Not(G(c, b)))
    lex = Or(X(c, a) < X(c, b), And(X(c, a) == X(c, b), Y(c, a) < Y(c, b)))
    xel = Or(X(c, a) > X(c, b), And(X(c, a) == X(c, b), Y(c, a) > Y(c, b)))
    return [('equal iff the same vertex', is_var(c, r, 'Equal') == ident(c, a, b)),
            ('solid less iff lexicographically less', Implies(solid, is_var(c, r, 'Less') == lex)),
            ('solid greater iff lexicographically greater', Implies(solid, is_var(c, r, 'Greater') == xel))]


K('<Vertex as Ord>::cmp', 'eps', 'C05', ensures=lambda c: cmp_is(c, c.ret))
K('<Vertex as PartialOrd>::partial_cmp', 'eps', 'C05',
  ensures=lambda c: [('always comparable', is_some(c, c.ret))] + cmp_is(c, unsome(c, c.ret)))


def order_laws(E):
    from ..exec import State
    c = lctx(E)
    st = State()
    fn = '<Vertex as Ord>::cmp'
    v = [const_of(E, st, fn, 0, n) for n in 'abc']
    rs = {}
    hy = []
    for i in range(3):
        for j in range(3):
            if i != j:
                outs = runs(E, st, fn, [v[i], v[j]])
                vs = [(s.conj(), r) for s, r in outs]
                r = z3.Const('o%d%d' % (i, j), vs[0][1].sort())
                hy += [Implies(And(*p), r == x) for p, x in vs]
                hy.append(Or(*[And(*p) for p, x in vs]))
                rs[i, j] = r
    le = lambda i, j: Not(is_var(c, rs[i, j], 'Greater'))
    return [(hy, is_var(c, rs[0, 1], 'Less') == is_var(c, rs[1, 0], 'Greater')),
            (hy, is_var(c, rs[0, 1], 'Equal') == is_var(c, rs[1, 0], 'Equal')),
            (hy, Implies(And(le(0, 1), le(1, 2)), le(0, 2)))]


L('C05', 'the order of vertices is antisymmetric and transitive, ghosts included', 'eps', order_laws)
L('C05', 'the same vertex hashes alike', 'eps', hash_lemma('<Vertex as Hash>::hash', ident, 1))
L('C05', 'the same edge hashes alike', 'eps', hash_lemma('<Edge as Hash>::hash', lambda c, a, b: both(ident, c, a, b), 2))
L('C05', 'triangles equal up to rotation hash alike', 'eps', hash_lemma('<Triangle as Hash>::hash', lambda c, a, b: rot(ident, c, a, b), 3))


def eq_laws(fn, eq):
    def f(E):
        from ..exec import State
        c = lctx(E)
        st = State()
        a, b = const_of(E, st, fn, 0, 'a'), const_of(E, st, fn, 0, 'b')
        return [([], eq(c, a, a)), ([], eq(c, a, b) == eq(c, b, a))]
    return f


L('C05', 'equality of vertices is reflexive and symmetric', 'eps', eq_laws('<Vertex as PartialEq>::eq', veq))
L('C05', 'equality of edges is reflexive and symmetric', 'eps', eq_laws('<Edge as PartialEq>::eq', lambda c, a, b: both(veq, c, a, b)))
L('C05', 'equality of triangles is reflexive and symmetric', 'eps', eq_laws('<Triangle as PartialEq>::eq', lambda c, a, b: rot(veq, c, a, b)))


def sort_post(c):
    a, b = c.arg(0), c.post(0)
    W, E = c.W, c.E
    n = W.vlen(a)
    i, j = z3.Ints('qi qj')
    p, q = W.vat(b, i), W.vat(b, j)
    x = z3.Const('qv', W.varr(a).sort().range())
    le = Or(X(c, p) < X(c, q), And(X(c, p) == X(c, q), Y(c, p) <= Y(c, q)))
    return [('same length', W.vlen(b) == n),
            ('the same elements, each as often', E.bag(b) == E.bag(a)),
            ('lexicographic', ForAll([i, j], Implies(And(0 <= i, i < j, j < n), le)))]


K('Vertex::sort', 'eps', 'C05', ensures=sort_post)
