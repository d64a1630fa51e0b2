"""C07 polylines: construction, edge enumeration, clean-up, closed line from edges, hull of triangles."""
from .common import *
from .edges import *

for n_ in ('orientation::orientation', 'intersection::intersection', 'parallel::parallel', 'dot::dot'):
    D(n_, 'exact')


def orient_f(c, a, b, d):
    """orientation, as the code computes it"""
    W = c.W
    f = c.E.P.find('orientation::orientation')
    F = W.fn('F_orientation::orientation', a.sort(), a.sort(), a.sort(), W.sort(f['locals'][0]))
    return F(a, b, d)


def verts(c, p):
    return fld(c, p, 'vertices')


def opened(c, p):
    return fld(c, p, 'opened')


def new_poly(n, op):
    def f(c):
        l = c.arg(0)
        r = unsome(c, c.ret)
        return [('some iff enough points', is_some(c, c.ret) == (c.W.vlen(l) >= n)),
                ('the points as given', Implies(is_some(c, c.ret), And(verts(c, r) == l, opened(c, r) == z3.BoolVal(op))))]
    return f


K('Polyline::new_closed', 'both', 'C07', ensures=new_poly(3, False))
K('Polyline::new_opened', 'both', 'C07', ensures=new_poly(2, True))


def end_post(last_):
    def f(c):
        p = c.arg(0)
        v = verts(c, p)
        i = c.W.vlen(v) - 1 if last_ else z3.IntVal(0)
        return [('none iff closed', is_some(c, c.ret) == opened(c, p)), ('that end', Implies(opened(c, p), unsome(c, c.ret) == c.W.vat(v, i)))]
    return f


def some_points(c):
    return c.W.vlen(verts(c, c.arg(0))) >= 1


K('Polyline::head', 'both', 'C07', requires=lambda c: [('not empty', some_points(c))], ensures=end_post(False))
K('Polyline::tail', 'both', 'C07', requires=lambda c: [('not empty', some_points(c))], ensures=end_post(True))


def npairs(c, v, op):
    return c.W.vlen(v) - If(op, z3.IntVal(1), z3.IntVal(0))


def chain_of(c, v, op, n, at0, at1):
    """at0/at1(i) are the ends of the i-th piece of the line through v"""
    W = c.W
    i = idx()
    m = W.vlen(v)
    nxt = If(i + 1 == m, z3.IntVal(0), i + 1)
    return [('number of pieces', n == npairs(c, v, op)),
            ('consecutive points', ForAll([i], Implies(And(0 <= i, i + 1 < m), And(at0(i) == W.vat(v, i), at1(i) == W.vat(v, i + 1))))),
            ('closing piece', Implies(Not(op), And(at0(m - 1) == W.vat(v, m - 1), at1(m - 1) == W.vat(v, z3.IntVal(0))))) ]


def vp_post(c):
    r = c.ret
    return chain_of(c, c.arg(0), c.arg(1), c.W.vlen(r), lambda i: tup(c, c.W.vat(r, i), 0), lambda i: tup(c, c.W.vat(r, i), 1))


def vp_inv(L):
    W, c = L.W, L.fnctx
    v = c.arg(0)
    i = idx('ci')
    for loc in L.locs('Vec<(Vertex,Vertex)>'):
        for rl in L.locs('Range<Usize>'):
            L.cand('one per step', lambda V, loc=loc, rl=rl: W.vlen(V[loc]) == W.field(V[rl], 'start'))
        L.cand('pieces so far', lambda V, loc=loc: ForAll([i], Implies(rng(i, W.vlen(V[loc])), And(
            i + 1 < W.vlen(v), tup(c, W.vat(V[loc], i), 0) == W.vat(v, i), tup(c, W.vat(V[loc], i), 1) == W.vat(v, i + 1)))))


K('polyline::vertex_pairs', 'both', 'C07', fun=True, requires=lambda c: [('not empty', c.W.vlen(c.arg(0)) >= 1)], ensures=vp_post, inv=vp_inv)


def ie_post(c):
    p, r = c.arg(0), c.ret
    return chain_of(c, verts(c, p), opened(c, p), c.W.vlen(r), lambda i: V1(c, c.W.vat(r, i)), lambda i: V2(c, c.W.vat(r, i)))


K('Polyline::into_edges', 'both', 'C07', fun=True, requires=lambda c: [('not empty', some_points(c))], ensures=ie_post)


def as_poly(n, op):
    def f(c):
        t = c.arg(0)
        vs = [V1(c, t), V2(c, t), V3(c, t)][:n] if n == 3 else [V1(c, t), V2(c, t)]
        g = Or(*[G(c, v) for v in vs])
        r = unsome(c, c.ret)
        w = verts(c, r)
        return [('none iff ghost', is_some(c, c.ret) == Not(g)),
                ('its corners in order', Implies(Not(g), And(opened(c, r) == z3.BoolVal(op), c.W.vlen(w) == n, *[c.W.vat(w, z3.IntVal(i)) == vs[i] for i in range(n)])))]
    return f


K('Triangle::as_polyline', 'both', 'C07', ensures=as_poly(3, False))
K('Edge::as_polyline', 'both', 'C07', ensures=as_poly(2, True))
K('<Polyline as PartialEq>::eq', 'exact', 'C07',
  ensures=lambda c: [('same kind and same points', c.ret == And(opened(c, c.arg(0)) == opened(c, c.arg(1)), verts(c, c.arg(0)) == verts(c, c.arg(1))))])


# ---- clean-up: drops the points in line with their neighbours, keeps the order
def clean(c):
    """padded sequence P, first and last index inspected, kept(k), CNT(k) = points kept before k"""
    W = c.W
    p = c.arg(0)
    v, op = verts(c, p), opened(c, p)
    n = W.vlen(v)

    def P(i):
        return If(op, W.vat(v, i), If(i == 0, W.vat(v, n - 1), If(i == n + 1, W.vat(v, z3.IntVal(0)), W.vat(v, i - 1))))
    m = If(op, n - 1, n + 1)      # one past the last index inspected
    kept = lambda k: Not(is_var(c, orient_f(c, P(k - 1), P(k), P(k + 1)), 'Colinear'))
    CNT = W.fn('kept_before', z3.IntSort(), z3.IntSort())
    return v, op, n, P, m, kept, CNT


def min_inv(L):
    c, W = L.fnctx, L.W
    v, op, n, P, m, kept, CNT = clean(c)
    k = idx('mk')
    for rl in L.locs('Range<Usize>'):
        def defs(V, rl=rl):
            s = W.field(V[rl], 'start')
            return [CNT(z3.IntVal(1)) == 0, Implies(s >= 2, CNT(s) == CNT(s - 1) + If(kept(s - 1), z3.IntVal(1), z3.IntVal(0)))]
        L.lemma(defs)
        for loc in L.locs('Vec<Vertex>'):
            s = lambda V, rl=rl: W.field(V[rl], 'start')
            L.cand('kept so far', lambda V, loc=loc, s=s: W.vlen(V[loc]) == CNT(s(V)))
            L.cand('kept in order', lambda V, loc=loc, s=s: ForAll([k], Implies(And(1 <= k, k < s(V), kept(k)), And(
                0 <= CNT(k), CNT(k) < W.vlen(V[loc]), W.vat(V[loc], CNT(k)) == P(k)))))


def min_post(c):
    W = c.W
    v, op, n, P, m, kept, CNT = clean(c)
    r = verts(c, c.ret)
    k = idx('k')
    last_ = W.vlen(r) - 1
    return [('same kind', opened(c, c.ret) == op),
            ('as many as are not in line', W.vlen(r) == If(op, CNT(m) + 2, CNT(m))),
            ('every point not in line, in order', ForAll([k], Implies(And(1 <= k, k < m, kept(k)), W.vat(r, If(op, CNT(k) + 1, CNT(k))) == P(k)))),
            ('ends of an opened line stay', Implies(op, And(W.vat(r, z3.IntVal(0)) == W.vat(v, z3.IntVal(0)), W.vat(r, last_) == W.vat(v, n - 1))))]


K('Polyline::minified_noncolinear', 'exact', 'C07', may_panic=True,
  requires=lambda c: [('a polyline', c.W.vlen(verts(c, c.arg(0))) >= If(opened(c, c.arg(0)), z3.IntVal(2), z3.IntVal(3)))],
  ensures=min_post, inv=min_inv, note='a polygon with fewer than three points not in line is refused by a panic')


# ---- one closed line out of a set of edges
def arr_inv(L):
    c, W = L.fnctx, L.W
    S = c.arg(0)
    ES = S.sort().domain()
    VS = ES.accessor(0, 0).range()
    a = z3.Const('aa', VS)
    i = idx('ai')
    mk = ES.constructor(0)
    for m in L.locs('HashMap<Vertex,Vertex>'):
        L.cand('successors are edges', lambda V, m=m: ForAll([a], Implies(Select(W.mdom(V[m]), a), Select(S, mk(a, Select(W.mval(V[m]), a))))))
    for l in L.locs('Vec<Vertex>'):
        L.cand('linked by edges', lambda V, l=l: ForAll([i], Implies(And(0 <= i, i + 1 < W.vlen(V[l])), Select(S, mk(W.vat(V[l], i), W.vat(V[l], i + 1))))))
        for t in L.locs('Vertex'):
            L.cand('tail is the last', lambda V, l=l, t=t: V[t] == W.vat(V[l], W.vlen(V[l]) - 1))
            L.cand('head is the first', lambda V, l=l, t=t: V[t] == W.vat(V[l], z3.IntVal(0)))


def closed_line(c, p, inn):
    W = c.W
    v = verts(c, p)
    n = W.vlen(v)
    i = idx()
    return [('closed', Not(opened(c, p))), ('at least three points', n >= 3),
            ('consecutive points are linked', ForAll([i], Implies(And(0 <= i, i + 1 < n), inn(W.vat(v, i), W.vat(v, i + 1))))),
            ('the end is linked to the begin', inn(W.vat(v, n - 1), W.vat(v, z3.IntVal(0))))]


def card(c, S):
    return c.W.fn('card_' + str(S.sort()), S.sort(), z3.IntSort())(S)


def arr_post(c):
    S = c.arg(0)
    mk = S.sort().domain().constructor(0)
    r = unsome(c, c.ret)
    some_ = is_some(c, c.ret)
    out = [(n, Implies(some_, e)) for n, e in closed_line(c, r, lambda a, b: Select(S, mk(a, b)))]
    return out + [('as many points as edges', Implies(some_, c.W.vlen(verts(c, r)) == card(c, S)))]


K('Polyline::arrange', 'exact', 'C07', ensures=arr_post, inv=arr_inv)


# ---- hull of a set of triangles
def inner(c, T, e):
    """e is a side of a triangle in T"""
    W = c.W
    t = z3.Const('ht', T.sort().domain())
    return Exists([t], And(Select(T, t), side_of(c, t, e)))


def side_of(c, t, e):
    vs = [V1(c, t), V2(c, t), V3(c, t)]
    return Or(*[And(V1(c, e) == vs[i], V2(c, e) == vs[(i + 1) % 3]) for i in range(3)])


def hull_inv(L):
    c, W = L.fnctx, L.W
    sets = L.locs('HashSet<Edge>')
    for m in L.locs('HashMap<Edge,Edge>'):
        for s in sets:
            if not L.modified(s):
                continue
            S = View(L.E, L.entry)[s]
            ES = S.sort().domain()
            mk = ES.constructor(0)
            k = z3.Const('hk', ES)
            opp = lambda x: mk(ES.accessor(0, 1)(x), ES.accessor(0, 0)(x))
            T = c.arg(0)
            L.cand('sides of the triangles', lambda V, S=S, T=T: ForAll([k], Implies(Select(S, k), inner(c, T, k))))
            L.cand('all sides', lambda V, S=S, T=T: ForAll([k], Implies(inner(c, T, k), Select(S, k))))
            L.cand('the rest was there', lambda V, s=s, S=S: ForAll([k], Implies(Select(V[s], k), Select(S, k))))
            L.cand('unpaired so far', lambda V, s=s, S=S, m=m: ForAll([k], Select(W.mdom(V[m]), k) == And(
                Select(S, opp(k)), Not(Select(V[s], opp(k))), Or(k == opp(k), Not(And(Select(S, k), Not(Select(V[s], k))))))))
            L.cand('filed under the opposite', lambda V, m=m: ForAll([k], Implies(Select(W.mdom(V[m]), k), Select(W.mval(V[m]), k) == opp(k))))


def hull_post(c):
    T = c.arg(0)
    r = unsome(c, c.ret)
    some_ = is_some(c, c.ret)
    ES = c.W.sort(c.E.P.find('Edge::opposite')['locals'][0])
    mk = ES.constructor(0)

    def inn(a, b):
        return inner(c, T, mk(a, b))

    def solo(a, b):
        return Or(a == b, Not(inner(c, T, mk(b, a))))
    W = c.W
    v = verts(c, r)
    n = W.vlen(v)
    i = idx()
    return [(nm, Implies(some_, e)) for nm, e in closed_line(c, r, inn)] + [
        ('no side of the hull is shared', Implies(some_, And(ForAll([i], Implies(And(0 <= i, i + 1 < n), solo(W.vat(v, i), W.vat(v, i + 1)))), solo(W.vat(v, n - 1), W.vat(v, z3.IntVal(0))))))]


K('Polyline::triangles_hull', 'exact', 'C07', ensures=hull_post, inv=hull_inv)
