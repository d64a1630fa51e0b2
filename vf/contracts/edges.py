"""C06 edges and triangle sides; edge lists and the head-tail index."""
from .common import *
from .order import veq


def V1(c, e):
    return fld(c, e, 'v1')


def V2(c, e):
    return fld(c, e, 'v2')


def V3(c, e):
    return fld(c, e, 'v3')


def is_edge(c, e, a, b):
    return And(V1(c, e) == a, V2(c, e) == b)


def idx(n='q'):
    return z3.Int(n)


def rng(i, n):
    return And(0 <= i, i < n)


K('Edge::new', 'both', 'C06', ensures=lambda c: [('begin and end', is_edge(c, c.ret, c.arg(0), c.arg(1)))])
K('Edge::opposite', 'both', 'C06', ensures=lambda c: [('reversed', is_edge(c, c.ret, V2(c, c.arg(0)), V1(c, c.arg(0))))])
K('elements::triangle::Triangle::new', 'both', 'C06',
  ensures=lambda c: [('corners in order', And(V1(c, c.ret) == c.arg(0), V2(c, c.ret) == c.arg(1), V3(c, c.ret) == c.arg(2)))])
K('Triangle::is_ghost', 'both', 'C06', ensures=lambda c: [('iff a corner is a ghost', c.ret == Or(*[G(c, f(c, c.arg(0))) for f in (V1, V2, V3)]))])


def tup(c, v, i):
    return c.E.nav(None, v, ('f', i, 0)) if not isinstance(v, St) else v.fields[i]


def sides(rev):
    def f(c):
        t = c.arg(0)
        vs = [V1(c, t), V2(c, t), V3(c, t)]
        out = []
        for i in range(3):
            a, b = vs[i], vs[(i + 1) % 3]
            if rev:
                a, b = b, a
            out.append(('side %d' % (i + 1), is_edge(c, tup(c, c.ret, i), a, b)))
        return out
    return f


K('Triangle::inner_edges', 'both', 'C06', ensures=sides(False))
K('Triangle::outer_edges', 'both', 'C06', ensures=sides(True))


def opp_vertex(c):
    t, e = c.arg(0), c.arg(1)
    vs = [V1(c, t), V2(c, t), V3(c, t)]
    side = [is_edge(c, e, vs[i], vs[(i + 1) % 3]) for i in range(3)]
    out = [('some iff the edge is a side', is_some(c, c.ret) == Or(*side))]
    r = unsome(c, c.ret)
    out.append(('the corner off that side', Implies(Or(*side), Or(*[And(side[i], r == vs[(i + 2) % 3]) for i in range(3)]))))
    return out


K('Triangle::opposite_vertex', 'exact', 'C06', ensures=opp_vertex)


def opp_edge(c):
    t, v = c.arg(0), c.arg(1)
    vs = [V1(c, t), V2(c, t), V3(c, t)]
    at = [v == x for x in vs]
    r = unsome(c, c.ret)
    return [('some iff the vertex is a corner', is_some(c, c.ret) == Or(*at)),
            ('the side off that corner', Implies(Or(*at), Or(*[And(at[i], is_edge(c, r, vs[(i + 1) % 3], vs[(i + 2) % 3])) for i in range(3)])))]


K('Triangle::opposite_edge', 'exact', 'C06', ensures=opp_edge)


# ---- lists
def from_coords(c):
    W = c.W
    a, r = c.arg(0), c.ret
    n = W.vlen(a)
    i = idx()
    v = W.vat(r, i)
    return [('half as many', 2 * W.vlen(r) == n),
            ('pairs in order', ForAll([i], Implies(rng(i, W.vlen(r)), And(Not(G(c, v)), X(c, v) == W.vat(a, 2 * i), Y(c, v) == W.vat(a, 2 * i + 1)))))]


def even(c):
    return c.W.vlen(c.arg(0)) % 2 == 0


def coords_inv(L):
    W, c = L.W, L.fnctx
    a = c.arg(0)
    i = idx('ci')
    vt_ = 'Vec<Vertex>'
    for loc in L.locs('Vec<Vertex>'):
        for rl in L.locs('Range<Usize>'):
            L.cand('one per step', lambda V, loc=loc, rl=rl: W.vlen(V[loc]) == W.field(V[rl], 'start'))
        L.cand('pairs so far', lambda V, loc=loc: ForAll([i], Implies(rng(i, W.vlen(V[loc])), And(
            Not(G(c, W.vat(V[loc], i))), X(c, W.vat(V[loc], i)) == W.vat(a, 2 * i), Y(c, W.vat(V[loc], i)) == W.vat(a, 2 * i + 1)))))


K('elements::vertex::Vertex::from_coordinates', 'both', 'C06', safe=even, ensures=from_coords, inv=coords_inv)


def ring_post(c, r, n, at):
    """r links at(0..n) in a closed ring"""
    W = c.W
    i = idx()
    e = W.vat(r, i)
    nxt = If(i + 1 == n, z3.IntVal(0), i + 1)
    return [('as many edges as points', W.vlen(r) == n), ('linked in order and closed', ForAll([i], Implies(rng(i, n), is_edge(c, e, at(i), at(nxt)))))]


def ring_inv(L):
    W, c = L.W, L.fnctx
    i = idx('ri')
    vecs = L.locs('Vec<Vertex>')
    args = [c.arg(0)]
    for loc in L.locs('Vec<Edge>'):
        for rl in L.locs('Range<Usize>'):
            L.cand('one per step', lambda V, loc=loc, rl=rl: W.vlen(V[loc]) == W.field(V[rl], 'start'))
        for src in vecs + [None]:
            def lk(V, loc=loc, src=src):
                v = V[src] if src is not None else c.arg(0)
                n = W.vlen(v)
                return ForAll([i], Implies(rng(i, W.vlen(V[loc])), And(i < n, is_edge(c, W.vat(V[loc], i), W.vat(v, i), W.vat(v, If(i + 1 == n, z3.IntVal(0), i + 1))))))
            L.cand('linked so far', lk)


def edge_coords(c):
    W = c.W
    a, r = c.arg(0), c.ret
    n = W.vlen(r)
    i = idx()
    e = W.vat(r, i)
    nxt = If(i + 1 == n, z3.IntVal(0), i + 1)

    def pt(v, k):
        return And(Not(G(c, v)), X(c, v) == W.vat(a, 2 * k), Y(c, v) == W.vat(a, 2 * k + 1))
    return [('half as many', 2 * n == W.vlen(a)),
            ('linked in order and closed', ForAll([i], Implies(rng(i, n), And(pt(V1(c, e), i), pt(V2(c, e), nxt)))))]


K('Edge::from_coordinates', 'both', 'C06', safe=even, ensures=edge_coords, inv=ring_inv)
K('Edge::from_vertices', 'both', 'C06', ensures=lambda c: ring_post(c, c.ret, c.W.vlen(c.arg(0)), lambda i: c.W.vat(c.arg(0), i)), inv=ring_inv)


def pairs(c, edges, prs):
    W = c.W
    i = idx()
    e, p = W.vat(edges, i), W.vat(prs, i)
    return [('as many', W.vlen(edges) == W.vlen(prs)),
            ('in order', ForAll([i], Implies(rng(i, W.vlen(edges)), And(V1(c, e) == tup(c, p, 0), V2(c, e) == tup(c, p, 1)))))]


K('Edge::into_vertex_pairs', 'both', 'C06', ensures=lambda c: pairs(c, c.arg(0), c.ret))
K('Edge::from_vertex_pairs', 'both', 'C06', ensures=lambda c: pairs(c, c.ret, c.arg(0)))


# ---- on the segment
def contains_post(c):
    e, p = c.arg(0), xy(c, c.arg(1))
    a, b = xy(c, V1(c, e)), xy(c, V2(c, e))
    btw = lambda k: Or(And(a[k] <= p[k], p[k] <= b[k]), And(b[k] <= p[k], p[k] <= a[k]))
    return [('on the line and between the ends', c.ret == And(btw(0), btw(1), near0(orient2(a, b, p))))]


K('Edge::contains', 'eps', 'C06', ensures=contains_post)


# ---- head-tail index
def edge_of(c, ES, a, b):
    return ES.constructor(0)(a, b)


def index_is(c, S, m, head):
    """m maps every begin (end) of the edges selected by S to exactly the other ends"""
    W = c.W
    ES = S.sort().domain()
    VS = ES.accessor(0, 0).range()
    a, b = z3.Consts('ha hb', VS)
    e = ES.constructor(0)(a, b) if head else ES.constructor(0)(b, a)
    dom, val = W.mdom(m), W.mval(m)
    inn = Select(Select(val, a), b)
    return [('every edge is listed', ForAll([a, b], Implies(Select(S, e), And(Select(dom, a), inn)))),
            ('only edges are listed', ForAll([a, b], Implies(And(Select(dom, a), inn), Select(S, e)))),
            ('no empty entry', ForAll([a], Implies(Select(dom, a), Select(val, a) != z3.K(VS, FALSE))))]


def hash_post(c):
    out = []
    for k, head in ((0, True), (1, False)):
        out += [(('head-tail ' if head else 'tail-head ') + n, e) for n, e in index_is(c, c.arg(0), tup(c, c.ret, k), head)]
    return out


def hash_inv(L):
    c = L.fnctx
    maps = L.locs('HashMap<Vertex,HashSet<Vertex>>')
    for it in L.iters():
        for m in maps:
            for head in (True, False):
                for k in range(3):
                    def f(V, it=it, m=m, head=head, k=k):
                        cs = V[it].comps
                        vis = cs[0].vis
                        if vis is None:
                            vis = z3.K(cs[0].keys[0].sort(), FALSE)
                        return index_is(c, vis, V[m], head)[k][1]
                    L.cand('%s %d' % ('heads' if head else 'tails', k), f)


K('Edge::into_hashmap', 'exact', 'C06', ensures=hash_post, inv=hash_inv)
