"""C11 insertion of pending vertices: cavities, accounting of triangles and vertices, constrained sides."""
from .common import *
from .edges import *
from .polyline import side_of
from .store import *
from .insertion import *
from ..exec import View


def edge_var(c, n='e'):
    return z3.Const('cv' + n, edge_sort(c))


def mk_edge(c, a, b):
    return c.W.mk(c.W.type_of(edge_var(c)), 0, [a, b])


def tri_var(c, m, n='t'):
    return z3.Const('cv' + n, c.W.mdom(m).sort().domain())


def led(c, A, S):
    """every listed side leads to a stored triangle having it"""
    W = c.W
    e = edge_var(c)
    return ForAll([e], Implies(Select(W.mdom(A), e), And(Select(S, W.key(Select(W.mval(A), e))), side_of(c, Select(W.mval(A), e), e))))


def known_keys(c, m, S):
    k = tri_var(c, m, 'k')
    return ForAll([k], Implies(Select(c.W.mdom(m), k), Select(S, k)))


def clash(c, T, x, bd, holes):
    """x takes T away: it lies in its circle or on the solid side of a ghost triangle, and may be joined to it"""
    on = And(is_ghost_t(c, T), FN(c, 'Edge::contains', mk_edge(c, V1(c, T), V2(c, T)), x))
    return And(Or(is_var(c, FN(c, 'Triangle::encircles', T, x), 'Inside'), on), may(c, T, x, bd, holes))


def corner(c, t, x):
    return Or(*[k(c, t) == x for k in (V1, V2, V3)])


class Sc:
    """the pieces of a call of solve_conflicts / include"""

    def __init__(s, c, tr, m, v, cons, bd, holes):
        s.c, s.tr, s.m, s.v, s.cons, s.bd, s.holes = c, tr, m, v, cons, bd, holes
        s.S, s.A = TS(c, tr), AD(c, tr)

    def pend(s, x):
        k = tri_var(s.c, s.m, 'pk')
        return Or(inbag(s.c, s.v, x), Exists([k], filed(s.c, s.m, k, x)))

    def free(s, e):
        c = s.c
        return And(Not(Select(s.cons, e)), Not(Select(s.cons, mk_edge(c, V2(c, e), V1(c, e)))))

    def has_side(s, S, e):
        t = tri_var(s.c, s.m, 'hs')
        return Exists([t], And(Select(S, s.c.W.key(t)), side_of(s.c, t, e)))

    def acct(s, tr1, inc, rem):
        """the triangle sets and the result agree"""
        c = s.c
        S1 = TS(c, tr1)
        t = tri_var(c, s.m)
        return [('what is stored was stored or included', ForAll([t], Implies(Select(S1, t), Or(Select(s.S, t), Select(inc, t))))),
                ('what is gone is removed', ForAll([t], Implies(And(Select(s.S, t), Not(Select(S1, t))), Select(rem, t)))),
                ('what is included and not removed is stored', ForAll([t], Implies(And(Select(inc, t), Not(Select(rem, t))), Select(S1, t)))),
                ('what is removed was stored or included', ForAll([t], Implies(Select(rem, t), Or(Select(s.S, t), Select(inc, t))))),
                ('every listed side has its triangle', led(c, AD(c, tr1), S1))]


def sc_of(c):
    return Sc(c, *[c.arg(i) for i in range(6)])


def sc_pre(c):
    s = sc_of(c)
    x = z3.Const('px', elem(c, s.v))
    k, t = tri_var(c, s.m, 'k'), tri_var(c, s.m)
    return [('every listed side has its triangle', led(c, s.A, s.S)),
            ('conflicts are filed under stored triangles', known_keys(c, s.m, s.S)),
            ('filed where they conflict', ForAll([k, x], Implies(filed(c, s.m, k, x), Exists([t], And(c.W.key(t) == k, confl(c, t, x, s.bd, s.holes))))))]


def new_corner(c, s, inc):
    t = tri_var(c, s.m)
    x = z3.Const('px', elem(c, s.v))
    return ForAll([t], Implies(Select(inc, t), Exists([x], And(s.pend(x), corner(c, t, x)))))


def taken_for(c, s, rem):
    t, k = tri_var(c, s.m), tri_var(c, s.m, 'k')
    x = z3.Const('px', elem(c, s.v))
    return ForAll([k], Implies(Select(rem, k), Exists([t, x], And(c.W.key(t) == k, s.pend(x), clash(c, t, x, s.bd, s.holes)))))


def not_lost(c, s, v1, m1, inc):
    t, k = tri_var(c, s.m), tri_var(c, s.m, 'k')
    x = z3.Const('px', elem(c, s.v))
    left = inbag(c, v1, x)
    if m1 is not None:
        left = Or(left, Exists([k], filed(c, m1, k, x)))
    return ForAll([x], Implies(s.pend(x), Or(left, Exists([t], And(Select(inc, t), corner(c, t, x))))))


def kept_sides(c, s, S1):
    e = edge_var(c)
    return ForAll([e], Implies(And(Not(s.free(e)), s.has_side(s.S, e)), s.has_side(S1, e)))


def returned(L, i):
    """the local variables whose value is moved into component i of the result"""
    fn = L.fr.fn
    out = set()
    for b in fn['blocks']:
        for st in b['s']:
            if st[0] == 'assign' and st[1] == [0, []] and st[2][0] == 'agg' and len(st[2][2]) > i:
                out.add(st[2][2][i][1][0])
    while True:
        n = len(out)
        for b in fn['blocks']:
            for st in b['s']:
                if st[0] == 'assign' and st[1][0] in out and not st[1][1] and st[2][0] == 'use' and st[2][1][0] in ('move', 'copy') and not st[2][1][1][1]:
                    out.add(st[2][1][1][0])
        if len(out) == n:
            return out


def role(L, locs, i):
    r = returned(L, i)
    return [l for l in locs if isinstance(l.root[1], int) and l.root[1] in r and not l.path] or locs


def triangles_post(c):
    s = sc_of(c)
    tr1 = c.post(0)
    inc, rem = tup(c, c.ret, 0), tup(c, c.ret, 1)
    return s.acct(tr1, inc, rem) + [('constrained sides stay', kept_sides(c, s, TS(c, tr1)))]


def vertices_post(c):
    s = sc_of(c)
    m1, v1 = c.post(1), c.post(2)
    inc, rem = tup(c, c.ret, 0), tup(c, c.ret, 1)
    k = tri_var(c, s.m, 'k')
    x = z3.Const('px', elem(c, s.v))
    return [('no conflict is left', ForAll([k], Not(Select(c.W.mdom(m1), k)))),
            ('included triangles have a pending corner', new_corner(c, s, inc)),
            ('triangles are removed for a pending vertex that conflicts', taken_for(c, s, rem)),
            ('left vertices were pending', ForAll([x], Implies(inbag(c, v1, x), s.pend(x)))),
            ('no vertex is lost', not_lost(c, s, v1, None, inc))]


class Parts:
    """what the invariants of both parts speak about"""

    def __init__(s, L):
        s.L, s.c, s.W = L, L.fnctx, L.W
        s.s = sc_of(s.c)
        s.t, s.k, s.e = tri_var(s.c, s.s.m), tri_var(s.c, s.s.m, 'k'), edge_var(s.c)
        s.x = z3.Const('px', elem(s.c, s.s.v))
        mod = lambda ty: [l for l in L.locs(ty) if L.modified(l)]
        s.trs, s.ms, s.vs, sets, s.edges = [mod(t) for t in ('Triangulation', 'HashMap<Triangle,Vec<Vertex>>', 'Vec<Vertex>', 'HashSet<Triangle>', 'Vec<Edge>')]
        s.incs, s.rems = role(L, sets, 0), role(L, sets, 1)


def triangles_inv(L):
    p = Parts(L)
    c, s, e = p.c, p.s, p.e
    for tr in p.trs:
        for inc in p.incs:
            for rem in p.rems:
                if inc is not rem:
                    for j in range(4):
                        L.cand('account %d' % j, lambda V, j=j, tr=tr, inc=inc, rem=rem: s.acct(V[tr], V[inc], V[rem])[j][1])
        L.cand('sides lead', lambda V, tr=tr: led(c, AD(c, V[tr]), TS(c, V[tr])))
        for m in p.ms:
            L.cand('keys stored', lambda V, tr=tr, m=m: known_keys(c, V[m], TS(c, V[tr])))
        for ed in p.edges:
            L.cand('constrained sides stay or wait', lambda V, tr=tr, ed=ed: ForAll([e], Implies(And(Not(s.free(e)), s.has_side(s.S, e)),
                                                                                   Or(s.has_side(TS(c, V[tr]), e), And(p.W.vlen(V[ed]) >= 1, inbag(c, V[ed], e))))))
        if not p.edges:
            L.cand('constrained sides stay', lambda V, tr=tr: kept_sides(c, s, TS(c, V[tr])))


def vertices_inv(L):
    p = Parts(L)
    c, s, W, t, k, x = p.c, p.s, p.W, p.t, p.k, p.x
    for m in p.ms:
        L.cand('filed where they conflict', lambda V, m=m: ForAll([k, x], Implies(filed(c, V[m], k, x), And(s.pend(x), Exists([t], And(W.key(t) == k, confl(c, t, x, s.bd, s.holes)))))))
        for v in p.vs:
            for inc in p.incs:
                if not p.edges:
                    L.cand('not lost', lambda V, m=m, v=v, inc=inc: not_lost(c, s, V[v], V[m], V[inc]))
                for y in L.locs('Vertex') if p.edges else ():
                    L.cand('not lost but one', lambda V, m=m, v=v, inc=inc, y=y: ForAll([x], Implies(And(s.pend(x), x != V[y]), Or(
                        inbag(c, V[v], x), Exists([k], filed(c, V[m], k, x)), Exists([t], And(Select(V[inc], t), corner(c, t, x)))))))
    for v in p.vs:
        L.cand('left were pending', lambda V, v=v: ForAll([x], Implies(inbag(c, V[v], x), s.pend(x))))
    for rem in p.rems:
        L.cand('taken for a conflict', lambda V, rem=rem: taken_for(c, s, V[rem]))
    for inc in p.incs:
        L.cand('pending corner', lambda V, inc=inc: new_corner(c, s, V[inc]))
        for ed in p.edges:
            for y in L.locs('Vertex'):
                L.cand('one is made', lambda V, inc=inc, ed=ed, y=y: Or(W.vlen(V[ed]) >= 1, Exists([t], And(Select(V[inc], t), corner(c, t, V[y])))))


K('vertices::solve_conflicts', 'exact', 'C11', may_panic=True, requires=sc_pre, parts=[(triangles_post, triangles_inv), (vertices_post, vertices_inv)], merge=True, effort=8,
  note='a vertex list without entry and an outer side without triangle are refused by panics')


# ---- insertion of a list of vertices
class Inc(Sc):
    """a call of include: the given vertices that are not yet corners are pending"""

    def __init__(s, c):
        s.c, s.tr, s.v, s.cons, s.bd, s.holes = [c] + [c.arg(i) for i in range(5)]
        s.S, s.A = TS(c, s.tr), AD(c, s.tr)
        s.m = None

    def pend(s, x):
        t = tvar(s.c, s.S, 'had')
        return And(inbag(s.c, s.v, x), Not(And(Not(ghost(s.c, x)), Exists([t], And(Select(s.S, s.c.W.key(t)), corner(s.c, t, x))))))


def tvar(c, S, n='t'):
    return z3.Const('cv' + n, S.sort().domain())


def account(c, s, tr1, inc, rem):
    S1, t = TS(c, tr1), tvar(c, s.S)
    return [('what is stored was stored or included', ForAll([t], Implies(Select(S1, t), Or(Select(s.S, t), Select(inc, t))))),
            ('what is gone is removed', ForAll([t], Implies(And(Select(s.S, t), Not(Select(S1, t))), Select(rem, t)))),
            ('what is included and not removed is stored', ForAll([t], Implies(And(Select(inc, t), Not(Select(rem, t))), Select(S1, t)))),
            ('what is removed was stored or included', ForAll([t], Implies(Select(rem, t), Or(Select(s.S, t), Select(inc, t)))))]


def new_corner2(c, s, inc):
    t = tvar(c, s.S)
    x = z3.Const('px', elem(c, s.v))
    return ForAll([t], Implies(Select(inc, t), Exists([x], And(s.pend(x), corner(c, t, x)))))


def taken_for2(c, s, rem):
    k, t = tvar(c, s.S, 'k'), tvar(c, s.S)
    x = z3.Const('px', elem(c, s.v))
    return ForAll([k], Implies(Select(rem, k), Exists([t, x], And(c.W.key(t) == k, s.pend(x), clash(c, t, x, s.bd, s.holes)))))


def inc_parts(c):
    s = Inc(c)
    tr1 = c.post(0)
    inc, rem = tup(c, c.ret, 0), tup(c, c.ret, 1)
    return account(c, s, tr1, inc, rem) + [
            ('every listed side has its triangle', led(c, AD(c, tr1), TS(c, tr1))),
            ('included triangles have a given corner that was none', new_corner2(c, s, inc)),
            ('triangles are removed for a given vertex, no corner yet, that conflicts', taken_for2(c, s, rem)),
            ('constrained sides stay', kept_sides2(c, s, TS(c, tr1)))]


def kept_sides2(c, s, S1):
    e = edge_var(c)
    t = tvar(c, S1, 'hs')
    has = lambda S: Exists([t], And(Select(S, c.W.key(t)), side_of(c, t, e)))
    return ForAll([e], Implies(And(Not(s.free(e)), has(s.S)), has(S1)))


def left_out(c, s, v1, m1, inc):
    """pending vertices that are corners of no included triangle wait (or are filed)"""
    t, k = tvar(c, s.S), tvar(c, s.S, 'k')
    x = z3.Const('px', elem(c, s.v))
    left = inbag(c, v1, x)
    if m1 is not None:
        left = Or(left, Exists([k], filed(c, m1, k, x)))
    return ForAll([x], Implies(s.pend(x), Or(left, Exists([t], And(Select(inc, t), corner(c, t, x))))))


def idle(c, s, v1, seen):
    """no waiting vertex conflicts with a triangle seen"""
    t, k = tvar(c, s.S), tvar(c, s.S, 'k')
    x = z3.Const('px', elem(c, s.v))
    return ForAll([x, k], Implies(And(inbag(c, v1, x), Select(seen, k)), Exists([t], And(c.W.key(t) == k, Not(confl(c, t, x, s.bd, s.holes))))))


def inc_more(c):
    s = Inc(c)
    inc = tup(c, c.ret, 0)
    t, t2, k = tvar(c, s.S), tvar(c, s.S, 't2'), tvar(c, s.S, 'k')
    x = z3.Const('px', elem(c, s.v))
    return [('a given vertex left out conflicts with no stored triangle', ForAll([x], Implies(And(s.pend(x), Not(Exists([t2], And(Select(inc, t2), corner(c, t2, x))))),
        ForAll([k], Implies(Select(TS(c, c.post(0)), k), Exists([t], And(c.W.key(t) == k, Not(confl(c, t, x, s.bd, s.holes)))))))))]


def include_inv(L):
    c, W = L.fnctx, L.W
    s = Inc(c)
    x = z3.Const('px', elem(c, s.v))
    k, t = tvar(c, s.S, 'k'), tvar(c, s.S)
    mod = lambda ty: [l for l in L.locs(ty) if L.modified(l)]
    trs, ms, vs = mod('Triangulation'), mod('HashMap<Triangle,Vec<Vertex>>'), mod('Vec<Vertex>')
    cur = L.locs('Triangulation')
    sets = L.locs('HashSet<Triangle>')
    incs, rems = role(L, sets, 0), role(L, sets, 1)
    for tr in trs:
        for inc in incs:
            for rem in rems:
                if inc is not rem:
                    for j in range(4):
                        L.cand('account %d' % j, lambda V, j=j, tr=tr, inc=inc, rem=rem: account(c, s, V[tr], V[inc], V[rem])[j][1])
        L.cand('sides lead', lambda V, tr=tr: led(c, AD(c, V[tr]), TS(c, V[tr])))
        L.cand('constrained sides stay', lambda V, tr=tr: kept_sides2(c, s, TS(c, V[tr])))
        for inc in incs:
            L.cand('pending corner', lambda V, inc=inc: new_corner2(c, s, V[inc]))
            for v in vs:
                L.cand('not lost', lambda V, v=v, inc=inc: left_out(c, s, V[v], None, V[inc]))
        for rem in rems:
            L.cand('taken for a conflict', lambda V, rem=rem: taken_for2(c, s, V[rem]))
    if not trs:
        for m in ms:
            for tr in cur:
                L.cand('keys stored', lambda V, m=m, tr=tr: known_keys(c, V[m], TS(c, V[tr])))
            L.cand('filed where they conflict', lambda V, m=m: ForAll([k, x], Implies(filed(c, V[m], k, x), And(s.pend(x), Exists([t], And(W.key(t) == k, confl(c, t, x, s.bd, s.holes)))))))
            for v in vs:
                for inc in incs:
                    L.cand('not lost', lambda V, v=v, m=m, inc=inc: left_out(c, s, V[v], V[m], V[inc]))
        for it in L.iters():
            for v in vs:
                def seen(V, it=it, v=v):
                    vis = V[it].comps[0].vis
                    return idle(c, s, V[v], vis if vis is not None else z3.K(s.S.sort().domain(), FALSE))
                L.cand('waiting ones do not conflict', seen)
    for v in vs:
        L.cand('left were given', lambda V, v=v: ForAll([x], Implies(inbag(c, V[v], x), s.pend(x))))


K('vertices::include', 'exact', 'C11', may_panic=True, requires=lambda c: [('every listed side has its triangle', led(c, AD(c, c.arg(0)), TS(c, c.arg(0))))],
  ensures=lambda c: inc_parts(c) + inc_more(c), inv=include_inv, merge=True, effort=4, note='an outer side without triangle is refused by a panic')
