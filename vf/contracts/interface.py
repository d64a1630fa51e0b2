"""C19 output, C20 reading of the input (binary crate)."""
from .common import *
from .edges import *
from .insertion import FN
from .polyline import verts, opened
from .triangulator import res
from .store import *
from ..exec import View


def at_point(c, p, v):
    """the vertex v stands at point p"""
    return And(X(c, v) == fld(c, p, 'x'), Y(c, v) == fld(c, p, 'y'), Not(ghost(c, v)))


def mk_point_fields(c, p):
    return fld(c, p, 'x'), fld(c, p, 'y')


def corner_sort(c):
    return c.W.sort(c.E.P.find('Edge::opposite')['locals'][0])


def lists(c, o, t, T):
    """output triangle t gives the corners of T"""
    W = c.W
    co = fld(c, o, 'coordinates')
    out = []
    for n, k in (('v1', V1), ('v2', V2), ('v3', V3)):
        i = fld(c, t, n)
        p = W.vat(co, i)
        out += [0 <= i, i < W.vlen(co), fld(c, p, 'x') == X(c, k(c, T)), fld(c, p, 'y') == Y(c, k(c, T))]
    return And(*out)


def tri_is_ghost(c, T):
    return Or(*[ghost(c, k(c, T)) for k in (V1, V2, V3)])


def out_post(c):
    W = c.W
    o = c.ret
    S = TS(c, fld(c, c.arg(1), 'triangulation'))
    T, k = z3.Const('oT', S.sort().domain()), z3.Const('ok', S.sort().domain())
    i, j = idx('oi'), idx('oj')
    tr, co = fld(c, o, 'triangles'), fld(c, o, 'coordinates')
    return [('every listed triangle is a stored one with its corners', ForAll([i], Implies(rng(i, W.vlen(tr)), Exists([T], And(Select(S, W.key(T)), Not(tri_is_ghost(c, T)), lists(c, o, W.vat(tr, i), T)))))),
            ('every stored solid triangle is listed', ForAll([k], Implies(Select(S, k), Exists([T], And(W.key(T) == k, Or(tri_is_ghost(c, T), Exists([i], And(rng(i, W.vlen(tr)), lists(c, o, W.vat(tr, i), T))))))))),
            ('every coordinate is a corner', ForAll([i], Implies(rng(i, W.vlen(co)), Exists([T], And(Select(S, W.key(T)), Or(*[And(Not(ghost(c, kk(c, T))), X(c, kk(c, T)) == fld(c, W.vat(co, i), 'x'), Y(c, kk(c, T)) == fld(c, W.vat(co, i), 'y')) for kk in (V1, V2, V3)])))))),
            ('no tetrahedra', W.vlen(fld(c, o, 'tetrahedrons')) == 0),
            ('the name is kept', fld(c, o, 'name') == fld(c, c.arg(0), 'name'))]


def out_inv(L):
    c, W = L.fnctx, L.W
    i = idx('oi')
    for m in [l for l in L.locs('HashMap<Vertex,Usize>') if L.modified(l)]:
        for v in L.locs('Vec<Vertex>'):
            x = z3.Const('ox', W.varr(View(L.E, L.entry)[v]).sort().range())
            L.cand('the map gives positions', lambda V, m=m, v=v: ForAll([x], Implies(Select(W.mdom(V[m]), x), And(rng(Select(W.mval(V[m]), x), W.vlen(V[v])), W.vat(V[v], Select(W.mval(V[m]), x)) == x))))
            for r in L.locs('Range<Usize>'):
                L.cand('the map has those seen', lambda V, m=m, v=v, r=r: ForAll([i], Implies(And(0 <= i, i < W.get(W.type_of(V[r]), 0, 0, V[r])), Select(W.mdom(V[m]), W.vat(V[v], i)))))


K('TriangulationOutput::from_triangulator', 'exact', 'C19', ensures=out_post, inv=out_inv, merge=True)


# ---- reading
def vp_post(c):
    W = c.W
    ok, _ = res(c)
    pts = fld(c, c.arg(0), 'points')
    s = W.get(W.type_of(c.ret), 0, 0, c.ret)
    v = z3.Const('pv', s.sort().domain())
    i = idx('pi')
    return [('always read', ok),
            ('every point is a vertex', ForAll([i], Implies(rng(i, W.vlen(pts)), Exists([v], And(Select(s, v), at_point(c, W.vat(pts, i), v)))))),
            ('every vertex is a point', ForAll([v], Implies(Select(s, v), Exists([i], And(rng(i, W.vlen(pts)), at_point(c, W.vat(pts, i), v))))))]


K('vertices_parser::parse', 'exact', 'C20', ensures=vp_post)


def joins(c, e, p, q):
    return And(at_point(c, p, V1(c, e)), at_point(c, q, V2(c, e)))


def sp_post(c):
    W = c.W
    ok, _ = res(c)
    pts, asm = fld(c, c.arg(0), 'points'), fld(c, c.arg(0), 'assemble')
    n, m = W.vlen(pts), W.vlen(asm)
    s = W.get(W.type_of(c.ret), 0, 0, c.ret)
    e = z3.Const('pe', s.sort().domain())
    i = idx('pi')
    row = lambda i: W.vat(asm, i)
    a, b = lambda i: W.vat(row(i), 0), lambda i: W.vat(row(i), 1)
    good = lambda i: And(W.vlen(row(i)) >= 2, a(i) < n, b(i) < n)
    by_rows = lambda i, e: joins(c, e, W.vat(pts, a(i)), W.vat(pts, b(i)))
    by_two = lambda i, e: joins(c, e, W.vat(pts, 2 * i), W.vat(pts, 2 * i + 1))
    return [('assembled: refused iff a row is too short or out of range', Implies(m > 0, ok == ForAll([i], Implies(rng(i, m), good(i))))),
            ('assembled: every row is a segment', Implies(And(ok, m > 0), ForAll([i], Implies(rng(i, m), Exists([e], And(Select(s, e), by_rows(i, e))))))),
            ('assembled: every segment is a row', Implies(And(ok, m > 0), ForAll([e], Implies(Select(s, e), Exists([i], And(rng(i, m), by_rows(i, e))))))),
            ('pairs: refused iff the number of points is odd', Implies(m == 0, ok == (n % 2 == 0))),
            ('pairs: every pair is a segment', Implies(And(ok, m == 0), ForAll([i], Implies(And(0 <= i, 2 * i < n), Exists([e], And(Select(s, e), by_two(i, e))))))),
            ('pairs: every segment is a pair', Implies(And(ok, m == 0), ForAll([e], Implies(Select(s, e), Exists([i], And(0 <= i, 2 * i < n, by_two(i, e)))))))]


def sp_inv(L):
    c, W = L.fnctx, L.W
    pts, asm = fld(c, c.arg(0), 'points'), fld(c, c.arg(0), 'assemble')
    n, m = W.vlen(pts), W.vlen(asm)
    i = idx('pi')
    for s in [l for l in L.locs('HashSet<Edge>') if L.modified(l)]:
        e = z3.Const('pe', View(L.E, L.entry)[s].sort().domain())
        row = lambda i: W.vat(asm, i)
        a, b = lambda i: W.vat(row(i), 0), lambda i: W.vat(row(i), 1)
        by_rows = lambda i, e: joins(c, e, W.vat(pts, a(i)), W.vat(pts, b(i)))
        by_two = lambda i, e: joins(c, e, W.vat(pts, 2 * i), W.vat(pts, 2 * i + 1))
        for it in L.iters():
            def at(V, it=it):
                return V[it].k
            if True:
                L.cand('rows are good', lambda V, at=at: ForAll([i], Implies(And(0 <= i, i < at(V)), And(W.vlen(row(i)) >= 2, a(i) < n, b(i) < n))))
                L.cand('rows seen', lambda V, at=at, s=s: ForAll([i], Implies(And(0 <= i, i < at(V)), Exists([e], And(Select(V[s], e), by_rows(i, e))))))
                L.cand('only rows seen', lambda V, at=at, s=s: ForAll([e], Implies(Select(V[s], e), Exists([i], And(0 <= i, i < at(V), i < m, by_rows(i, e))))))
                L.cand('pairs seen', lambda V, at=at, s=s: ForAll([i], Implies(And(0 <= i, i < at(V)), Exists([e], And(Select(V[s], e), by_two(i, e))))))
                L.cand('only pairs seen', lambda V, at=at, s=s: ForAll([e], Implies(Select(V[s], e), Exists([i], And(0 <= i, i < at(V), 2 * i < n, by_two(i, e))))))


K('segments_parser::parse', 'exact', 'C20', ensures=sp_post, inv=sp_inv)


def pp_post(c):
    W = c.W
    ok, _ = res(c)
    pts = fld(c, c.arg(0), 'points')
    p = W.get(W.type_of(c.ret), 0, 0, c.ret)
    i = idx('pi')
    return [('fewer than three points are refused', Implies(W.vlen(pts) < 3, Not(ok))),
            ('a closed line', Implies(ok, Not(opened(c, p)))),
            ('one vertex per point', Implies(ok, W.vlen(verts(c, p)) == W.vlen(pts))),
            ('in order', Implies(ok, ForAll([i], Implies(rng(i, W.vlen(pts)), at_point(c, W.vat(pts, i), W.vat(verts(c, p), i))))))]


K('polyline_parser::parse', 'exact', 'C20', ensures=pp_post)
D('polyline::split_intersections', 'exact')


def rp_post(c):
    W = c.W
    ok, _ = res(c)
    r = W.get(W.type_of(c.ret), 0, 0, c.ret)
    return [('always read', ok), ('area', fld(c, r, 'max_area') == fld(c, c.arg(0), 'max_area')), ('quality', fld(c, r, 'quality_ratio') == fld(c, c.arg(0), 'quality'))]


K('refine_params_parser::parse', 'exact', 'C20', ensures=rp_post)
