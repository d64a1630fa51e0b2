"""C03 bounding boxes."""
from .common import *


def corners(c, b):
    o, d = fld(c, b, 'origin'), fld(c, b, 'destin')
    return X(c, o), Y(c, o), X(c, d), Y(c, d)


def is_solid_box(c, b):
    return And(Not(G(c, fld(c, b, 'origin'))), Not(G(c, fld(c, b, 'destin'))))


def mn(a, b):
    return If(a < b, a, b)


def mx(a, b):
    return If(a > b, a, b)


def tight(c, n, vals, got, lower):
    """got is the least (greatest) of vals(0..n)"""
    i = z3.Int('qi')
    j = z3.Int('qj')
    cmp = (lambda a, b: a <= b) if lower else (lambda a, b: a >= b)
    out = [('bound', ForAll([i], Implies(And(0 <= i, i < n), cmp(got, vals(i))))),
           ('attained', Exists([j], And(0 <= j, j < n, got == vals(j))))]
    for m in (1, 2):
        e = vals(z3.IntVal(0))
        for k in range(1, m):
            e = (mn if lower else mx)(e, vals(z3.IntVal(k)))
        out.append(('%d' % m, Implies(n == m, got == e)))
    return out


def box_of(c, n, lows, highs):
    r = c.ret
    b = unsome(c, r)
    g = corners(c, b)
    out = [('none iff empty', is_some(c, r) == (n > 0)), ('solid', Implies(is_some(c, r), is_solid_box(c, b)))]
    for name, got, f, lo in (('least x', g[0], lows[0], 1), ('least y', g[1], lows[1], 1), ('greatest x', g[2], highs[0], 0), ('greatest y', g[3], highs[1], 0)):
        out += [(name + ' ' + l, Implies(n > 0, e)) for l, e in tight(c, n, f, got, lo)]
    return out


def coords(c, v, bx):
    W = c.W
    if bx:
        g = lambda i, k: corners(c, W.vat(v, i))[k]
        return (lambda i: g(i, 0), lambda i: g(i, 1)), (lambda i: g(i, 2), lambda i: g(i, 3))
    p = (lambda i: X(c, W.vat(v, i)), lambda i: Y(c, W.vat(v, i)))
    return p, p


def from_list(bx):
    def ens(c):
        v = c.arg(0)
        return box_of(c, c.W.vlen(v), *coords(c, v, bx))

    def inv(L):
        c = L.fnctx
        v = c.arg(0)
        n = c.W.vlen(v)
        lows, highs = coords(c, v, bx)
        j, q = z3.Int('ij'), z3.Int('iq')
        fs = set(lows) | set(highs)
        for it in L.iters():
            for loc in L.locs('F64'):
                for f in fs:
                    L.cand('from the list', lambda V, f=f, loc=loc: Exists([q], And(0 <= q, q < n, V[loc] == f(q))))
                    for lower in (1, 0):
                        cmp = (lambda a, b: a <= b) if lower else (lambda a, b: a >= b)
                        L.cand('bound so far', lambda V, f=f, loc=loc, it=it, cmp=cmp: ForAll([j], Implies(And(0 <= j, j < V[it].k), cmp(V[loc], f(j)))))
                        for m in (0, 1, 2):
                            def small(V, f=f, loc=loc, it=it, m=m, lower=lower):
                                e = f(z3.IntVal(0))
                                for k in range(1, m):
                                    e = (mn if lower else mx)(e, f(z3.IntVal(k)))
                                return Implies(V[it].k == m, V[loc] == e)
                            L.cand('first %d' % m, small)
    return dict(ensures=ens, inv=inv)


K('BoundingBox::from_vertices', 'eps', 'C03', **from_list(False))
K('BoundingBox::union_list', 'eps', 'C03', **from_list(True))


def contains_post(c):
    x0, y0, x1, y1 = corners(c, c.arg(0))
    x, y = xy(c, c.arg(1))
    return [('closed box', c.ret == And(x0 <= x, x <= x1, y0 <= y, y <= y1))]


K('BoundingBox::contains', 'eps', 'C03', ensures=contains_post)


def inter_post(c):
    a, b = corners(c, c.arg(0)), corners(c, c.arg(1))
    lx, ly, ux, uy = mx(a[0], b[0]), mx(a[1], b[1]), mn(a[2], b[2]), mn(a[3], b[3])
    r = unsome(c, c.ret)
    g = corners(c, r)
    some = is_some(c, c.ret)
    return [('none iff disjoint', some == And(lx <= ux, ly <= uy)),
            ('solid', Implies(some, is_solid_box(c, r))),
            ('common region', Implies(some, And(g[0] == lx, g[1] == ly, g[2] == ux, g[3] == uy)))]


K('BoundingBox::intersection', 'eps', 'C03', ensures=inter_post)


def union_post(c):
    a, b = corners(c, c.arg(0)), corners(c, c.arg(1))
    g = corners(c, c.ret)
    return [('solid', is_solid_box(c, c.ret)),
            ('hull', And(g[0] == mn(a[0], b[0]), g[1] == mn(a[1], b[1]), g[2] == mx(a[2], b[2]), g[3] == mx(a[3], b[3])))]


K('BoundingBox::union', 'eps', 'C03', ensures=union_post)


def common(E):
    """a point lies in the common region exactly if it lies in both boxes"""
    r = [z3.Real('l_%d' % i) for i in range(10)]
    a, b, p = r[0:4], r[4:8], r[8:10]
    inn = lambda k: And(k[0] <= p[0], p[0] <= k[2], k[1] <= p[1], p[1] <= k[3])
    m = (mx(a[0], b[0]), mx(a[1], b[1]), mn(a[2], b[2]), mn(a[3], b[3]))
    return [], inn(m) == And(inn(a), inn(b))


L('C03', 'the common region holds exactly the points of both boxes', 'eps', common)
