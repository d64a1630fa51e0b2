"""C10 the triangulation store: triangle set and side index."""
from .common import *
from .edges import *
from .polyline import side_of
from ..exec import State


def TS(c, v):
    return fld(c, v, 'triangles')


def AD(c, v):
    return fld(c, v, 'adjacency')


def edge_sort(c):
    return c.W.sort(c.E.P.find('Edge::opposite')['locals'][0])


def stored(c, v, t):
    """triangle t (up to rotation) is in the set"""
    return Select(TS(c, v), c.W.key(t))


def same(c, a, b):
    return c.W.key(a) == c.W.key(b)


def frame_of(c, T, inc):
    """the set and the index after, as functions of those before"""
    W = c.W
    a, b = c.arg(0), c.post(0)
    e = z3.Const('te', edge_sort(c))
    t = z3.Const('tt', TS(c, a).sort().domain())
    had = stored(c, a, T)
    d0, v0, d1, v1 = W.mdom(AD(c, a)), W.mval(AD(c, a)), W.mdom(AD(c, b)), W.mval(AD(c, b))
    s = side_of(c, T, e)
    if inc:
        S1 = Or(Select(TS(c, a), t), t == W.key(T))
        dom = Or(Select(d0, e), And(Not(had), s))
        val = [('index: new sides lead to it', ForAll([e], Implies(And(Not(had), s), same(c, Select(v1, e), T)))),
               ('index: other sides unchanged', ForAll([e], Implies(And(Select(d0, e), Or(had, Not(s))), same(c, Select(v1, e), Select(v0, e)))))]
    else:
        S1 = And(Select(TS(c, a), t), t != W.key(T))
        dom = And(Select(d0, e), Not(And(had, s)))
        val = [('index: other sides unchanged', ForAll([e], Implies(Select(d1, e), same(c, Select(v1, e), Select(v0, e)))))]
    return [('set', ForAll([t], Select(TS(c, b), t) == S1)), ('index: sides listed', ForAll([e], Select(d1, e) == dom))] + val


def consistent(c, v):
    """every side of a stored triangle leads to it and every listed side to a stored triangle having it"""
    W = c.W
    e = z3.Const('ke', edge_sort(c))
    t = z3.Const('kt', TS(c, v).sort().domain())
    d, val = W.mdom(AD(c, v)), W.mval(AD(c, v))
    return [('every side of a triangle leads to it', ForAll([t, e], Implies(And(stored(c, v, t), side_of(c, t, e)), And(Select(d, e), same(c, Select(val, e), t))))),
            ('every listed side has its triangle', ForAll([e], Implies(Select(d, e), And(stored(c, v, Select(val, e)), side_of(c, Select(val, e), e)))))]


def inc_post(c):
    T = c.arg(1)
    return [('new iff not there', c.ret == Not(stored(c, c.arg(0), T)))] + frame_of(c, T, True)


def rem_post(c):
    T = c.arg(1)
    return [('removed iff there', c.ret == stored(c, c.arg(0), T))] + frame_of(c, T, False)


K('Triangulation::include_triangle', 'exact', 'C10', ensures=inc_post)
K('Triangulation::remove_triangle', 'exact', 'C10', ensures=rem_post)


def corners_post(c):
    W = c.W
    S = TS(c, c.arg(0))
    t = z3.Const('ct', S.sort().domain())
    v = z3.Const('cv', c.ret.sort().domain())
    cor = lambda t, v: Or(*[k(c, t) == v for k in (V1, V2, V3)])
    return [('every solid corner', ForAll([t, v], Implies(And(Select(S, W.key(t)), cor(t, v), Not(ghost(c, v))), Select(c.ret, v)))),
            ('only solid corners', ForAll([v], Implies(Select(c.ret, v), And(Not(ghost(c, v)), Exists([t], And(Select(S, W.key(t)), cor(t, v)))))))]


def ghost(c, v):
    return c.E.W.field(v, 'is_ghost')


def sides_post(c):
    W = c.W
    S = TS(c, c.arg(0))
    t = z3.Const('st', S.sort().domain())
    e = z3.Const('se', c.ret.sort().domain())
    return [('every side', ForAll([t, e], Implies(And(Select(S, W.key(t)), side_of(c, t, e)), Select(c.ret, e)))),
            ('only sides', ForAll([e], Implies(Select(c.ret, e), Exists([t], And(Select(S, W.key(t)), side_of(c, t, e))))))]


K('Triangulation::vertices', 'exact', 'C10', ensures=corners_post)
K('Triangulation::edges', 'exact', 'C10', ensures=sides_post)


def empty(c, v):
    t = z3.Const('nt', TS(c, v).sort().domain())
    e = z3.Const('ne', edge_sort(c))
    return [('no triangle', ForAll([t], Not(Select(TS(c, v), t)))), ('no side', ForAll([e], Not(Select(c.W.mdom(AD(c, v)), e))))]


def init_post(c):
    W = c.W
    a, b = tup(c, c.arg(0), 0), tup(c, c.arg(0), 1)
    S = TS(c, c.ret)
    t = z3.Const('it', S.sort().domain())
    gh = lambda t: ghost(c, V3(c, t))
    one = lambda p, q: Exists([t], And(Select(S, t), ghost_on(c, t, p, q)))
    return [('a ghost triangle on each side', And(one(a, b), one(b, a))),
            ('no other triangle', ForAll([t], Implies(Select(S, t), Or(ghost_on(c, t, a, b), ghost_on(c, t, b, a)))))] + consistent(c, c.ret)


def ghost_on(c, t, p, q):
    """t is, up to rotation, p q ghost"""
    vs = [V1(c, t), V2(c, t), V3(c, t)]
    return Or(*[And(vs[i] == p, vs[(i + 1) % 3] == q, ghost(c, vs[(i + 2) % 3])) for i in range(3)])


K('Triangulation::from_initial_segment', 'exact', 'C10', requires=lambda c: [
    ('two solid vertices', And(Not(ghost(c, tup(c, c.arg(0), 0))), Not(ghost(c, tup(c, c.arg(0), 1))), tup(c, c.arg(0), 0) != tup(c, c.arg(0), 1)))], ensures=init_post)
K('Triangulation::new', 'exact', 'C10', ensures=lambda c: empty(c, c.ret) + consistent(c, c.ret))


def preserved(inc):
    def f(E):
        st = State()
        c0 = lctx(E)
        fn = 'Triangulation::include_triangle'
        a = E.W.sort(E.P.find('Triangulation::new')['locals'][0])
        a, b = z3.Const('store', a), z3.Const('store1', a)
        T = const_of(E, st, fn, 1, 'T')
        c = Ctx(E, None, [a, T], post=[b, T])
        e = z3.Const('fe', edge_sort(c))
        hy = [x for _, x in consistent(c, a) + frame_of(c, T, inc)] + st.conj()
        if inc:
            hy.append(Or(stored(c, a, T), ForAll([e], Implies(side_of(c, T, e), Not(Select(E.W.mdom(AD(c, a)), e))))))
        return [(hy, g) for _, g in consistent(c, b)]
    return f


L('C10', 'adding a triangle whose sides are free keeps the index consistent', 'exact', preserved(True))
L('C10', 'removing a triangle keeps the index consistent', 'exact', preserved(False))
