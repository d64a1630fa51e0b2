"""C16 vertices, C18 holes handed to the triangulator."""
from .common import *
from .edges import *
from .polyline import verts
from .insertion import FN, line_of
from .store import *
from ..exec import View


def rest(c, *names):
    """fields of the triangulator that stay as they were"""
    return [(n + ' left alone', fld(c, c.post(0), n) == fld(c, c.arg(0), n)) for n in names]


def position(c, r, name, incl=None):
    """r is Some(name) or Some((name, incl))"""
    W = c.W
    if incl is None:
        return And(W.is_some(r), is_var(c, W.unsome(r), name))
    return And(W.is_some(r), is_var(c, tup(c, W.unsome(r), 0), name), is_var(c, tup(c, W.unsome(r), 1), incl))


def res(c):
    """(is Ok, error value)"""
    W = c.W
    if isinstance(c.ret, St):
        # Ok carries the reference self
        names = [v['name'] for v in c.E.adt(c.ret.ty)['variants']]
        if names[c.ret.variant] == 'Err':
            return FALSE, c.ret.fields[0]
        return TRUE, z3.Const('no_err', fld(c, c.arg(0), 'vertices').sort())
    t = W.type_of(c.ret)
    vs = c.E.adt(t)['variants']
    err = [i for i, v in enumerate(vs) if v['name'] == 'Err'][0]
    return Not(c.E.rec_variant(c.ret, err)), W.get(t, err, 0, c.ret)


def outside_hole(c, h, v):
    return position(c, FN(c, 'Polyline::contains', h, v), 'Outside')


def misplaced(c, b, holes, v, seen=None):
    h = z3.Const('th', holes.sort().domain())
    return Or(Not(position(c, FN(c, 'Polyline::contains', b, v), 'Inside')), Exists([h], And(Select(holes if seen is None else seen, h), Not(outside_hole(c, h, v)))))


def parts_of(c, s):
    return [fld(c, s, n) for n in ('boundary', 'holes', 'vertices', 'segments')]


def splits(c, s, v):
    """v lies on segment s, not at its ends"""
    return And(FN(c, 'Edge::contains', s, v), V1(c, s) != v, V2(c, s) != v)


def endof(c, s, v):
    return Or(V1(c, s) == v, V2(c, s) == v)


def taken(c, segs0, segs1, v0, v1, given):
    """after the vertices in given were taken"""
    every = c.arg(1)
    s = z3.Const('ts', segs0.sort().domain())
    v = z3.Const('tv', v0.sort().domain())
    return [('vertices stay', ForAll([v], Implies(Select(v0, v), Select(v1, v)))),
            ('only given vertices are added', ForAll([v], Implies(Select(v1, v), Or(Select(v0, v), Select(given, v))))),
            ('every given vertex is there or ends a segment', ForAll([v], Implies(Select(given, v), Or(Select(v1, v), Exists([s], And(Select(segs1, s), endof(c, s, v))))))),
            ('a segment goes only when a given vertex splits it', ForAll([s], Implies(And(Select(segs0, s), Not(Select(segs1, s))), Exists([v], And(Select(given, v), splits(c, s, v)))))),
            ('new segments end in a given vertex', ForAll([s], Implies(And(Select(segs1, s), Not(Select(segs0, s))), Exists([v], And(Select(given, v), endof(c, s, v)))))),
            ('added vertices lie on no segment that stayed', ForAll([v, s], Implies(And(Select(v1, v), Not(Select(v0, v)), Select(segs0, s), Select(segs1, s), Not(Select(every, V1(c, s))), Not(Select(every, V2(c, s)))),
                                                                                 Not(Or(FN(c, 'Edge::contains', s, v), endof(c, s, v))))))]


def ivert_post(c):
    b, holes, vs, segs = parts_of(c, c.arg(0))
    given = c.arg(1)
    ok, err = res(c)
    v = z3.Const('tv', given.sort().domain())
    s1 = c.post(0)
    return rest(c, 'boundary', 'holes', 'triangulation') + [
        ('refused iff a vertex is not inside or not outside every hole', ok == Not(Exists([v], And(Select(given, v), misplaced(c, b, holes, v))))),
        ('refused with exactly the misplaced ones', Implies(Not(ok), ForAll([v], Select(err, v) == And(Select(given, v), misplaced(c, b, holes, v))))),
        ('nothing is taken when refused', Implies(Not(ok), And(fld(c, s1, 'vertices') == vs, fld(c, s1, 'segments') == segs)))] + \
        [(n, Implies(ok, g)) for n, g in taken(c, segs, fld(c, s1, 'segments'), vs, fld(c, s1, 'vertices'), given)]


def vis_of(V, it, like):
    x = V[it].comps[0]
    if len(x.keys) != 1 or x.keys[0].sort() != like.sort().domain():
        raise KeyError('another set')
    k = x.vis
    if k is None:
        return z3.K(like.sort().domain(), FALSE)
    return k


def ivert_inv(L):
    c, W = L.fnctx, L.W
    b, holes, vs, segs = parts_of(c, c.arg(0))
    given = c.arg(1)
    v = z3.Const('tv', given.sort().domain())
    s = z3.Const('ts', segs.sort().domain())
    mod = lambda ty: [l for l in L.locs(ty) if L.modified(l)]
    its = L.iters()
    dom = lambda V, it: vis_of(V, it, given).sort().domain()
    for p in mod('HashSet<Vertex>'):
        for o in its:
            def exact(V, p=p, o=o):
                return ForAll([v], Select(V[p], v) == And(Select(vis_of(V, o, given), v), misplaced(c, b, holes, v)))
            L.cand('exactly the misplaced ones seen', exact)
            for i in its:
                if i is not o:
                    for cur in L.locs('Vertex'):
                        def inner(V, p=p, o=o, i=i, cur=cur):
                            return ForAll([v], Select(V[p], v) == And(Select(vis_of(V, o, given), v), If(v == V[cur], misplaced(c, b, holes, v, vis_of(V, i, holes)), misplaced(c, b, holes, v))))
                        L.cand('misplaced so far', inner)
    tr = [l for l in L.locs('Triangulator')]
    for t in tr:
        for n in ('boundary', 'holes', 'triangulation'):
            L.cand(n + ' left alone', lambda V, t=t, n=n: fld(c, V[t], n) == fld(c, c.arg(0), n))
        for o in its:
            for j in range(6):
                L.cand('taken %d' % j, lambda V, t=t, o=o, j=j: taken(c, segs, fld(c, V[t], 'segments'), vs, fld(c, V[t], 'vertices'), vis_of(V, o, given))[j][1])
        for i in its:
            for cur in L.locs('Vertex'):
                L.cand('not on the segments seen', lambda V, i=i, cur=cur: ForAll([s], Implies(Select(vis_of(V, i, segs), s), Not(Or(FN(c, 'Edge::contains', s, V[cur]), endof(c, s, V[cur]))))))
    for bl in mod('bool'):
        L.cand('wanted', lambda V, bl=bl: V[bl])


K('Triangulator::insert_vertices', 'exact', 'C16', ensures=ivert_post, inv=ivert_inv, merge=True)


# ---- holes
def misheld(c, h, s):
    """segment s is not strictly outside h"""
    return Not(position(c, FN(c, 'Polyline::continence', h, line_of(c, h, [V1(c, s), V2(c, s)], True)), 'Outside', 'Open'))


def has_vertex(c, p, v):
    return inbag_(c, verts(c, p), v)


def inbag_(c, vec, x):
    return Select(c.E.bag(vec), x) >= 1


def region_conflict(c, b, holes, hole, v, seen=None):
    h = z3.Const('th', holes.sort().domain())
    return Or(And(Not(position(c, FN(c, 'Polyline::continence', b, hole), 'Inside', 'Open')), has_vertex(c, b, v)),
              Exists([h], And(Select(holes if seen is None else seen, h), Not(position(c, FN(c, 'Polyline::continence', h, hole), 'Outside', 'Open')), has_vertex(c, h, v))))


def segment_conflict(c, segs, hole, v, seen=None):
    s = z3.Const('ts', segs.sort().domain())
    return Exists([s], And(Select(segs if seen is None else seen, s), misheld(c, hole, s), endof(c, s, v)))


def hole_post(c):
    b, holes, vs, segs = parts_of(c, c.arg(0))
    hole = c.arg(1)
    ok, err = res(c)
    v = z3.Const('tv', vs.sort().domain())
    h = z3.Const('th', holes.sort().domain())
    s1 = c.post(0)
    reg = lambda v: region_conflict(c, b, holes, hole, v)
    seg = lambda v: segment_conflict(c, segs, hole, v)
    return rest(c, 'boundary', 'segments', 'triangulation') + [
        ('accepted only if it touches neither the boundary nor a hole', Implies(ok, Not(Exists([v], reg(v))))),
        ('accepted only if it touches no segment', Implies(ok, Not(Exists([v], seg(v))))),
        ('refused only with some vertex', Implies(Not(ok), Exists([v], Select(err, v)))),
        ('refused with the vertices of what it touches', Implies(Not(ok), ForAll([v], Select(err, v) == If(Exists([v], reg(v)), reg(v), seg(v))))),
        ('nothing is taken when refused', Implies(Not(ok), And(fld(c, s1, 'vertices') == vs, fld(c, s1, 'holes') == holes))),
        ('the hole is added', Implies(ok, ForAll([h], Select(fld(c, s1, 'holes'), h) == Or(Select(holes, h), h == hole)))),
        ('vertices not outside the hole are taken away, the others stay', Implies(ok, ForAll([v], Select(fld(c, s1, 'vertices'), v) == And(Select(vs, v), outside_hole(c, hole, v)))))]


def hole_inv(L):
    c, W = L.fnctx, L.W
    b, holes, vs, segs = parts_of(c, c.arg(0))
    hole = c.arg(1)
    v = z3.Const('tv', vs.sort().domain())
    for p in [l for l in L.locs('HashSet<Vertex>') if L.modified(l)]:
        for i in L.iters():
            L.cand('regions seen', lambda V, p=p, i=i: ForAll([v], Select(V[p], v) == region_conflict(c, b, holes, hole, v, vis_of(V, i, holes))))
            L.cand('segments seen', lambda V, p=p, i=i: ForAll([v], Select(V[p], v) == segment_conflict(c, segs, hole, v, vis_of(V, i, segs))))


K('Triangulator::insert_hole', 'exact', 'C18', ensures=hole_post, inv=hole_inv, merge=True)
