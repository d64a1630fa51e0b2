"""C11 insertion of vertices, C12 distribution of pending vertices over triangles."""
from .common import *
from .edges import *
from .regions import FN
from .store import *
from ..core import CVec
from ..exec import State

for n_ in ('Polyline::continence', 'Polyline::contains', 'Triangle::encircles', 'Edge::encroach', 'Triangle::center', 'Triangle::circumcenter', 'Triangle::quality',
           'Triangle::area', 'Edge::midpoint', 'Edge::contains'):
    D(n_, 'exact')


def vec_of(c, like, items):
    """the vector with these items (like: a vector sort or value)"""
    t = c.W.type_of(like)
    return c.E.to_z3(State(), CVec(t['args'][0], items))


def line_of(c, P, items, opened):
    """the polyline with these vertices"""
    from .polyline import verts
    s = P.sort()
    v = vec_of(c, verts(c, P), items)
    t = c.W.type_of(P)
    names = [f[0] for f in c.E.adt(t)['variants'][0]['fields']]
    return c.W.mk(t, 0, [v if n == 'vertices' else z3.BoolVal(opened) for n in names])


def side(c, p, q):
    """position of line q with respect to polygon p: (known, position)"""
    r = FN(c, 'Polyline::continence', p, q)
    return c.W.is_some(r), tup(c, c.W.unsome(r), 0)


def may(c, T, v, bd, holes):
    """v may be joined to T, as may_insert_triangle computes it"""
    return FN(c, 'vertices::may_insert_triangle', T, v, bd, holes)


def may_def(c, T, v, bd, holes):
    """v may be joined to T: inside the boundary and outside every hole"""
    W = c.W
    h = z3.Const('mh', holes.sort().domain())
    P = W.unsome(bd)
    g = is_ghost_t(c, T)
    out = []
    for cond, p2 in ((g, line_of(c, P, [V1(c, T), V2(c, T), v], False)), (Not(g), line_of(c, P, [FN(c, 'Triangle::center', T), v], True))):
        k, s = side(c, P, p2)
        kh, sh = side(c, h, p2)
        out.append(Implies(cond, And(Implies(W.is_some(bd), And(k, Not(is_var(c, s, 'Outside')))),
                                     ForAll([h], Implies(Select(holes, h), And(kh, Not(is_var(c, sh, 'Inside'))))))))
    return And(*out)


def is_ghost_t(c, T):
    return Or(*[ghost(c, k(c, T)) for k in (V1, V2, V3)])


def may_inv(L):
    c, W = L.fnctx, L.W
    T, v, bd, holes = [c.arg(i) for i in range(4)]
    for it in L.iters():
        for b in L.locs('bool'):
            if not L.modified(b):
                continue

            def f(V, it=it, b=b):
                k = V[it].comps[0]
                vis = k.vis if k.vis is not None else z3.K(holes.sort().domain(), FALSE)
                return V[b] == may_def(c, T, v, W.none(W.type_of(bd)), vis)
            L.cand('outside all holes seen', f)


K('vertices::may_insert_triangle', 'exact', 'C12', may_panic=False, ensures=lambda c: [
    ('inside the boundary and outside every hole', c.ret == may_def(c, *[c.arg(i) for i in range(4)]))], inv=may_inv, fun='post', opaque=True)


# ---- distribution of pending vertices
def confl(c, T, v, bd, holes):
    """v lies in the circle of T and may be joined to it"""
    return And(is_var(c, FN(c, 'Triangle::encircles', T, v), 'Inside'), may(c, T, v, bd, holes))


def bags(c, *vs):
    return [c.E.bag(v) for v in vs]


def listed(c, m, T):
    """vertices filed under T (none if T has no entry)"""
    W = c.W
    k = W.key(T)
    return Select(W.mdom(m), k), Select(W.mval(m), k)


def dist_post(c):
    W = c.W
    T, bd, holes = c.arg(0), c.arg(3), c.arg(4)
    m0, m1, v0, v1 = c.arg(1), c.post(1), c.arg(2), c.post(2)
    i = idx()
    d0, l0 = listed(c, m0, T)
    d1, l1 = listed(c, m1, T)
    x = z3.Const('dx', W.varr(v0).sort().range())
    k = z3.Const('dk', T.sort())
    b0, b1, c0, c1 = bags(c, v0, v1, l0, l1)
    old = If(d0, W.vlen(l0), z3.IntVal(0))
    n0 = lambda y: If(d0, Select(c0, y), z3.IntVal(0))
    n1 = lambda y: If(d1, Select(c1, y), z3.IntVal(0))
    return [('kept vertices do not conflict', ForAll([x], Implies(Select(b1, x) >= 1, Not(confl(c, T, x, bd, holes))))),
            ('filed vertices conflict', ForAll([x], Implies(n1(x) > n0(x), confl(c, T, x, bd, holes)))),
            ('none lost, none duplicated', ForAll([x], Select(b1, x) + n1(x) == Select(b0, x) + n0(x))),
            ('nothing is taken off the list of the triangle', ForAll([x], n1(x) >= n0(x))),
            ('count', W.vlen(v1) + If(d1, W.vlen(l1), z3.IntVal(0)) == W.vlen(v0) + old),
            ('an entry stays', Implies(d0, And(d1, W.vlen(l1) >= W.vlen(l0)))),
            ('no empty entry', Implies(And(d1, Not(d0)), W.vlen(l1) >= 1)),
            ('other entries', ForAll([k], Implies(k != W.key(T), And(Select(W.mdom(m1), k) == Select(W.mdom(m0), k),
                                                                    Implies(Select(W.mdom(m0), k), Select(W.mval(m1), k) == Select(W.mval(m0), k))))))]


def dist_inv(L):
    c, W = L.fnctx, L.W
    T, bd, holes, v0 = c.arg(0), c.arg(3), c.arg(4), c.arg(2)
    i = idx('di')
    n = W.vlen(v0)
    x = z3.Const('ix', W.varr(v0).sort().range())
    vecs = [l for l in L.locs('Vec<Vertex>') if L.modified(l)]
    for r in L.locs('Range<Usize>'):
        def at(V, r=r):
            return n - (W.get(W.type_of(V[r]), 0, 1, V[r]) - W.get(W.type_of(V[r]), 0, 0, V[r]))
        for a in vecs:
            L.cand('later ones do not conflict', lambda V, a=a, at=at: ForAll([i], Implies(And(n - at(V) <= i, i < W.vlen(V[a])), Not(confl(c, T, W.vat(V[a], i), bd, holes)))))
            L.cand('the rest is waiting', lambda V, a=a, at=at: W.vlen(V[a]) >= n - at(V))
    for b in vecs:
        L.cand('taken ones conflict', lambda V, b=b: ForAll([i], Implies(rng(i, W.vlen(V[b])), confl(c, T, W.vat(V[b], i), bd, holes))))
        for a in vecs:
            if a is not b:
                L.cand('none lost', lambda V, a=a, b=b: ForAll([x], Select(c.E.bag(V[a]), x) + Select(c.E.bag(V[b]), x) == Select(c.E.bag(v0), x)))
                L.cand('count', lambda V, a=a, b=b: W.vlen(V[a]) + W.vlen(V[b]) == n)


K('vertices::distribute_conflicts', 'exact', 'C12', ensures=dist_post, inv=dist_inv)


def inbag(c, v, x):
    return Select(c.E.bag(v), x) >= 1


def filed(c, m, k, x):
    """x is filed under k"""
    return And(Select(c.W.mdom(m), k), inbag(c, Select(c.W.mval(m), k), x))


def elem(c, v):
    return c.W.varr(v).sort().range()


def spread(c, m0, v0, m1, v1, bd, holes):
    """(m1, v1) came from (m0, v0) by filing vertices where they conflict"""
    W = c.W
    x = z3.Const('sx', elem(c, v0))
    k, t = [z3.Const(n, W.mdom(m0).sort().domain()) for n in ('sk', 'st')]
    return [('kept ones were waiting', ForAll([x], Implies(inbag(c, v1, x), inbag(c, v0, x)))),
            ('none lost', ForAll([x], Implies(inbag(c, v0, x), Or(inbag(c, v1, x), Exists([k], filed(c, m1, k, x)))))),
            ('filed ones were waiting', ForAll([k, x], Implies(filed(c, m1, k, x), Or(filed(c, m0, k, x), inbag(c, v0, x))))),
            ('filed ones stay filed', ForAll([k, x], Implies(filed(c, m0, k, x), filed(c, m1, k, x)))),
            ('filed where they conflict', ForAll([k, x], Implies(And(filed(c, m1, k, x), Not(filed(c, m0, k, x))),
                                                               Exists([t], And(W.key(t) == k, confl(c, t, x, bd, holes)))))),
            ('no empty entry', ForAll([k], Implies(And(Select(W.mdom(m1), k), Not(Select(W.mdom(m0), k))), W.vlen(Select(W.mval(m1), k)) >= 1))),
            ('entries stay', ForAll([k], Implies(Select(W.mdom(m0), k), And(Select(W.mdom(m1), k), W.vlen(Select(W.mval(m1), k)) >= W.vlen(Select(W.mval(m0), k))))))]


def over_post(c):
    t0, m0, v0 = c.arg(1), c.arg(2), c.arg(3)
    bd, holes = c.arg(4), c.arg(5)
    return [('the triangulation is left alone', c.post(0) == c.arg(0))] + spread(c, m0, v0, c.post(2), c.post(3), bd, holes)


def over_inv(L):
    c, W = L.fnctx, L.W
    v0, m0, bd, holes = c.arg(3), c.arg(2), c.arg(4), c.arg(5)
    for v in L.locs('Vec<Vertex>'):
        for m in L.locs('HashMap<Triangle,Vec<Vertex>>'):
            if L.modified(m) and L.modified(v):
                for k in range(7):
                    L.cand('spread %d' % k, lambda V, v=v, m=m, k=k: spread(c, m0, v0, V[m], V[v], bd, holes)[k][1])


K('vertices::distribute_conflicts_over_triangulation', 'exact', 'C12', may_panic=True, ensures=over_post, inv=over_inv, merge=True,
  note='without an initial triangle an empty triangulation is refused by a panic')
