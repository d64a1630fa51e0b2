"""C01 geometric predicates, C02 measures, C04 segment intersection."""
from .common import *


def P(c, i):
    return xy(c, c.arg(i))


def three(c, r, d, pos, neg, zero):
    """r is `zero` within the tolerance, else decided by the sign of d"""
    return [(zero, is_var(c, r, zero) == near0(d)),
            (pos, is_var(c, r, pos) == (d > TOL)),
            (neg, is_var(c, r, neg) == (d < -TOL))]


K('orientation::orientation', 'eps', 'C01',
  ensures=lambda c: three(c, c.ret, orient2(P(c, 0), P(c, 1), P(c, 2)), 'Counterclockwise', 'Clockwise', 'Colinear'))

K('continence::continence', 'eps', 'C01',
  ensures=lambda c: three(c, c.ret, incircle(P(c, 0), P(c, 1), P(c, 2), P(c, 3)), 'Inside', 'Outside', 'Boundary'))


def enc(c, r, a, b, v):
    # scalar product of the directions from v to both ends: negative inside the diametral circle
    d = (v[0] - a[0]) * (v[0] - b[0]) + (v[1] - a[1]) * (v[1] - b[1])
    return three(c, r, d, 'Outside', 'Inside', 'Boundary')


K('encroachment::encroach', 'eps', 'C01', ensures=lambda c: enc(c, c.ret, P(c, 0), P(c, 1), P(c, 2)))
K('Edge::encroach', 'eps', 'C01',
  ensures=lambda c: enc(c, c.ret, xy(c, fld(c, c.arg(0), 'v1')), xy(c, fld(c, c.arg(0), 'v2')), P(c, 1)))

K('parallel::parallel', 'eps', fun=True, props='C01',
  ensures=lambda c: [('iff zero cross product', c.ret == ((P(c, 1)[0] - P(c, 0)[0]) * (P(c, 3)[1] - P(c, 2)[1])
                                                          - (P(c, 1)[1] - P(c, 0)[1]) * (P(c, 3)[0] - P(c, 2)[0]) == 0))])

K('dot::dot', 'eps', 'C01', ensures=lambda c: [('scalar product', c.ret == dot2(P(c, 0), P(c, 1), P(c, 2), P(c, 3)))])


def tri(c, t):
    return [fld(c, t, n) for n in ('v1', 'v2', 'v3')]


def tri_ghost(c, t):
    return Or(*[G(c, v) for v in tri(c, t)])


def encircles_post(c):
    a, b, d = [xy(c, v) for v in tri(c, c.arg(0))]
    g = tri_ghost(c, c.arg(0))
    p = P(c, 1)
    return ([('solid ' + n, Implies(Not(g), e)) for n, e in three(c, c.ret, incircle(a, b, d, p), 'Inside', 'Outside', 'Boundary')]
            + [('ghost ' + n, Implies(g, e)) for n, e in three(c, c.ret, orient2(a, b, p), 'Inside', 'Outside', 'Boundary')])


K('Triangle::encircles', 'eps', 'C01', ensures=encircles_post)


def circ(a, b, c):
    """circumcentre, as a rational function of the corners"""
    d = 2 * orient2(a, b, c)
    a2, b2, c2 = [sq(p[0]) + sq(p[1]) for p in (a, b, c)]
    return ((a2 * (b[1] - c[1]) + b2 * (c[1] - a[1]) + c2 * (a[1] - b[1])) / d,
            (a2 * (c[0] - b[0]) + b2 * (a[0] - c[0]) + c2 * (b[0] - a[0])) / d)


def consts(*ns):
    return [(z3.Real('l_%sx' % n), z3.Real('l_%sy' % n)) for n in ns]


def incircle_lemma(E):
    a, b, c, d = consts('a', 'b', 'c', 'd')
    o = circ(a, b, c)
    O = orient2(a, b, c)
    return [O != 0], incircle(a, b, c, d) == O * (dist2(a, o) - dist2(d, o))


L('C01', 'the in-circle determinant is the signed area times the power of the point', 'eps', incircle_lemma)


def encroach_lemma(E):
    a, b, v = consts('a', 'b', 'v')
    m = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
    return [], (v[0] - a[0]) * (v[0] - b[0]) + (v[1] - a[1]) * (v[1] - b[1]) == dist2(v, m) - dist2(a, b) / 4


L('C01', 'the encroachment measure is the power of the point with respect to the diametral circle', 'eps', encroach_lemma)
for _n, _f in [('cyclic', lambda a, b, c: orient2(a, b, c) == orient2(b, c, a)), ('antisymmetric', lambda a, b, c: orient2(a, b, c) == -orient2(b, a, c))]:
    L('C01', 'orientation is ' + _n, 'eps', lambda E, _f=_f: ([], _f(*consts('a', 'b', 'c'))))
L('C01', 'in-circle is invariant under rotation of the corners', 'eps',
  lambda E: ([], (lambda a, b, c, d: incircle(a, b, c, d) == incircle(b, c, a, d))(*consts('a', 'b', 'c', 'd'))))


# ---------------------------------------------------------------- C02 measures

def dist_post(c, r, a, b):
    return [('not negative', r >= 0), ('its square is the squared distance', r * r == dist2(a, b))]


K('distance::distance', 'eps', 'C02', ensures=lambda c: dist_post(c, c.ret, P(c, 0), P(c, 1)) + [('the square root', c.ret == sqrt(c, dist2(P(c, 0), P(c, 1))))])
K('Edge::length', 'eps', 'C02', ensures=lambda c: dist_post(c, c.ret, xy(c, fld(c, c.arg(0), 'v1')), xy(c, fld(c, c.arg(0), 'v2'))))

K('area::area_triangle', 'eps', 'C02', ensures=lambda c: [('signed area', 2 * c.ret == orient2(P(c, 0), P(c, 1), P(c, 2)))])


def tri_area_post(c):
    a, b, d = [xy(c, v) for v in tri(c, c.arg(0))]
    g = tri_ghost(c, c.arg(0))
    return [('none iff ghost', is_some(c, c.ret) == Not(g)),
            ('signed area', Implies(Not(g), 2 * unsome(c, c.ret) == orient2(a, b, d)))]


K('Triangle::area', 'eps', 'C02', ensures=tri_area_post)


def mid_post(c, r, a, b):
    return [('halfway x', 2 * X(c, r) == a[0] + b[0]), ('halfway y', 2 * Y(c, r) == a[1] + b[1]), ('solid', Not(G(c, r)))]


def midpoint_post(c):
    g = Or(G(c, c.arg(0)), G(c, c.arg(1)))
    return [(n, Implies(Not(g), e)) for n, e in mid_post(c, c.ret, P(c, 0), P(c, 1))] + [('ghost', Implies(g, G(c, c.ret)))]


K('midpoint::midpoint', 'eps', 'C02', ensures=midpoint_post)
K('Edge::midpoint', 'eps', fun=True, props='C02', ensures=lambda c: mid_post(c, c.ret, xy(c, fld(c, c.arg(0), 'v1')), xy(c, fld(c, c.arg(0), 'v2'))))


def circ_post(c, r, a, b, d, g=None):
    o = unsome(c, r)
    O = orient2(a, b, d)
    z = circ(a, b, d)
    some = is_some(c, r)
    has = O != 0 if g is None else And(Not(g), O != 0)
    return [('none iff there is no circumcircle', some == has),
            ('solid', Implies(some, Not(G(c, o)))),
            ('centre x', Implies(some, X(c, o) == z[0])),
            ('centre y', Implies(some, Y(c, o) == z[1]))]


K('circumcenter::circumcenter', 'eps', 'C02', ensures=lambda c: circ_post(c, c.ret, P(c, 0), P(c, 1), P(c, 2)))
K('Triangle::circumcenter', 'eps', 'C02',
  ensures=lambda c: circ_post(c, c.ret, *[xy(c, v) for v in tri(c, c.arg(0))], g=tri_ghost(c, c.arg(0))))
L('C02', 'the circumcentre is equally far from the first two corners', 'eps',
  lambda E: (lambda a, b, c: ([orient2(a, b, c) != 0], dist2(a, circ(a, b, c)) == dist2(b, circ(a, b, c))))(*consts('a', 'b', 'c')))
L('C02', 'the circumcentre is equally far from the last two corners', 'eps',
  lambda E: (lambda a, b, c: ([orient2(a, b, c) != 0], dist2(c, circ(a, b, c)) == dist2(b, circ(a, b, c))))(*consts('a', 'b', 'c')))


def quality_post(c):
    vs = tri(c, c.arg(0))
    g = tri_ghost(c, c.arg(0))
    a, b, d = [xy(c, v) for v in vs]
    k, l, m = [sqrt(c, dist2(*p)) for p in ((a, b), (b, d), (d, a))]
    q = unsome(c, c.ret)
    O = orient2(a, b, d)
    short = If(And(k <= l, k <= m), k, If(l <= m, l, m))
    # circumradius k l m / (2 O), over the shortest edge
    return [('none iff ghost', is_some(c, c.ret) == Not(g)),
            ('circumradius over shortest edge', Implies(And(Not(g), O != 0), q * (2 * O) * short == k * l * m))]


K('Triangle::quality', 'eps', 'C02', ensures=quality_post)


def center_post(c):
    vs = tri(c, c.arg(0))
    g = tri_ghost(c, c.arg(0))
    a, b, d = [xy(c, v) for v in vs]
    r = c.ret
    return [('solid', Not(G(c, r))),
            ('mean of the corners', Implies(Not(g), And(3 * X(c, r) == a[0] + b[0] + d[0], 3 * Y(c, r) == a[1] + b[1] + d[1]))),
            ('midpoint of the solid edge', Implies(g, And(2 * X(c, r) == a[0] + b[0], 2 * Y(c, r) == a[1] + b[1])))]


K('Triangle::center', 'eps', 'C02', ensures=center_post)


def angle_post(c):
    a, b, d = P(c, 0), P(c, 1), P(c, 2)
    u = (a[0] - b[0], a[1] - b[1])
    v = (d[0] - b[0], d[1] - b[1])
    ac = c.W.fn('acos', z3.RealSort(), z3.RealSort())
    den = sqrt(c, sq(u[0]) + sq(u[1])) * sqrt(c, sq(v[0]) + sq(v[1]))
    cosine = (u[0] * v[0] + u[1] * v[1]) / den
    O = orient2(a, b, d)
    t = ac(cosine)
    r = unsome(c, c.ret)
    return [('always known', is_some(c, c.ret)),
            ('interior angle when not clockwise', Implies(Not(O < -TOL), r == t)),
            ('reflex when clockwise', Implies(O < -TOL, r == 2 * c.E.W_pi() - t))]


K('angle::angle', 'eps', 'C02', ensures=angle_post)


def shoelace(c):
    v = c.arg(0)
    n = c.W.vlen(v)
    S = c.W.fn('shoelace', v.sort(), z3.IntSort(), z3.RealSort())
    return v, n, S


def shoelace_def(c, i):
    """the defining equation of the sum at i, and its start"""
    v, n, S = shoelace(c)
    p = c.W.vat(v, i)
    t = c.W.type_of(p)
    a, b = c.W.get(t, 0, 0, p), c.W.get(t, 0, 1, p)
    return [S(v, 0) == 0, Implies(And(0 <= i, i < n), S(v, i + 1) == S(v, i) + (X(c, b) - X(c, a)) * (Y(c, b) + Y(c, a)) / 2)]


def shoelace_inv(L):
    c = L.fnctx
    v, n, S = shoelace(c)
    for it in L.iters():
        L.lemma(lambda V, it=it: shoelace_def(c, V[it].k - 1) + shoelace_def(c, V[it].k))
        for acc in L.locs('F64'):
            L.cand('area so far', lambda V, it=it, acc=acc: V[acc] == S(v, V[it].k))


def shoelace_fold(c, it, sort):
    v, n, S = shoelace(c)
    if sort != z3.RealSort():
        return []
    return [('area so far', lambda i, acc: acc == S(v, i), lambda i: shoelace_def(c, i))]


K('area::area_segments', 'eps', 'C02', inv=shoelace_inv, fold=shoelace_fold,
  setup=lambda c, st: st.fact(And(*shoelace_def(c, z3.IntVal(0)))),
  ensures=lambda c: [('sum of the signed trapezoids', (lambda v, n, S: c.ret == S(v, n))(*shoelace(c)))])


# ---------------------------------------------------------------- C04 intersection

def between(p, q, r):
    return Or(And(p <= r, r <= q), And(q <= r, r <= p))


def on_segment(r, p, q):
    return And(orient2(p, q, r) == 0, between(p[0], q[0], r[0]), between(p[1], q[1], r[1]))


def lo(a, b):
    return If(a < b, a, b)


def hi(a, b):
    return If(a > b, a, b)


def inter_post(c):
    a, b, d, e = [P(c, i) for i in range(4)]
    r = c.ret
    v = unsome(c, r)
    q = xy(c, v)
    some = is_some(c, r)
    cross = (b[0] - a[0]) * (e[1] - d[1]) - (b[1] - a[1]) * (e[0] - d[0])
    lx, hx = hi(lo(a[0], b[0]), lo(d[0], e[0])), lo(hi(a[0], b[0]), hi(d[0], e[0]))
    ly, hy = hi(lo(a[1], b[1]), lo(d[1], e[1])), lo(hi(a[1], b[1]), hi(d[1], e[1]))
    out = [('solid', Implies(some, Not(G(c, v)))),
           ('x within both segments', Implies(some, And(q[0] >= lx - TOL, q[0] <= hx + TOL))),
           ('y within both segments', Implies(some, And(q[1] >= ly - TOL, q[1] <= hy + TOL))),
           ('on the first line', Implies(And(some, cross != 0), orient2(a, b, q) == 0)),
           ('on the second line', Implies(And(some, cross != 0), orient2(d, e, q) == 0)),
           ('near the first line', Implies(And(some, cross == 0), near0(orient2(a, b, q)))),
           ('near the second line', Implies(And(some, cross == 0), near0(orient2(d, e, q)))),
           ]
    # any common point of two crossing segments forces a result: w stands for that point
    w = (z3.Real('common_x'), z3.Real('common_y'))
    e1, e2 = orient2(a, b, w), orient2(d, e, w)
    z = 1 / cross
    # consequences of e1 = e2 = 0 and cross != 0, spelled out for the linear prover
    redundant = [k * m * n == 0 for m in (e1, e2) for k in (b[0] - a[0], b[1] - a[1], e[0] - d[0], e[1] - d[1]) for n in (R(1), z)] + \
                [w[0] * (cross * z - 1) == 0, w[1] * (cross * z - 1) == 0]
    out.append(('a common point of crossing segments is found', Implies(And(cross != 0, on_segment(w, a, b), on_segment(w, d, e), *redundant), some)))
    return out


K('intersection::intersection', 'eps', fun=True, props='C04', ensures=inter_post)
