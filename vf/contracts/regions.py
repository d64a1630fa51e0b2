"""C08 point in polygon, C09 polygon against polygon."""
from .common import *
from .edges import *
from .polyline import verts, opened, npairs


def pairs_of(c, v, op):
    """the sides, as vertex_pairs lists them (its contract says which they are)"""
    W = c.W
    f = c.E.P.find('polyline::vertex_pairs')
    return W.fn('F_polyline::vertex_pairs', v.sort(), z3.BoolSort(), W.sort(f['locals'][0]))(v, op)


def sides_of(c):
    p = c.arg(0)
    return pairs_of(c, verts(c, p), opened(c, p))


def seg(c, ps, i):
    e = c.W.vat(ps, i)
    return xy(c, tup(c, e, 0)), xy(c, tup(c, e, 1))


def on_side(c, a, b, p):
    """p lies on the segment a b (within the tolerance of the orientation test)"""
    btw = lambda k: Or(And(a[k] <= p[k], p[k] <= b[k]), And(b[k] <= p[k], p[k] <= a[k]))
    return If(a[0] == b[0], And(p[0] == a[0], btw(1)), And(btw(0), near0(orient2(a, b, p))))      # in line and above or below the side


def crossing(c, a, b, p):
    """signed crossing of the vertical line through p: 2, 1 at an end, 0 if the segment keeps aside"""
    o = orient2(a, b, p)
    s = If(o > 0, z3.IntVal(1), z3.IntVal(-1))
    aside = Or(a[0] == b[0], And(a[0] < p[0], b[0] < p[0]), And(a[0] > p[0], b[0] > p[0]))
    return If(aside, z3.IntVal(0), If(Or(a[0] == p[0], b[0] == p[0]), s, 2 * s))


def SUM(c):
    p = c.arg(0)
    pt = xy(c, c.arg(1))
    F = c.W.fn('crossing_sum', sides_of(c).sort(), z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.IntSort())
    v = sides_of(c)
    return lambda i: F(v, pt[0], pt[1], i)


def sum_def(c, i):
    """definition of the sum at i"""
    S = SUM(c)
    a, b = seg(c, sides_of(c), i - 1)
    return [S(z3.IntVal(0)) == 0, Implies(And(i >= 1, i <= c.W.vlen(sides_of(c))), S(i) == S(i - 1) + crossing(c, a, b, xy(c, c.arg(1))))]


def contains_post(c):
    W = c.W
    p = c.arg(0)
    v, op = sides_of(c), opened(c, p)
    n = W.vlen(v)
    i = idx()
    pt = xy(c, c.arg(1))
    a, b = seg(c, v, i)
    touch = Exists([i], And(rng(i, n), on_side(c, a, b, pt)))
    r = unsome(c, c.ret)
    s = is_some(c, c.ret)
    S = SUM(c)
    return [('no answer iff opened', s == Not(op)),
            ('boundary only on a side', Implies(And(s, is_var(c, r, 'Boundary')), touch)),
            ('boundary if on a side', Implies(And(s, touch), is_var(c, r, 'Boundary'))),
            ('inside iff the crossings do not cancel', Implies(And(s, Not(touch)), is_var(c, r, 'Inside') == (S(n) != 0))),
            ('outside iff the crossings cancel', Implies(And(s, Not(touch)), is_var(c, r, 'Outside') == (S(n) == 0)))]


def contains_inv(L):
    c, W = L.fnctx, L.W
    v = sides_of(c)
    pt = xy(c, c.arg(1))
    i = idx('si')
    for it in L.iters():
        L.lemma(lambda V, it=it: sum_def(c, V[it].k) + sum_def(c, V[it].k - 1))
        a, b = seg(c, v, i)
        L.cand('no side so far', lambda V, it=it: ForAll([i], Implies(And(0 <= i, i < V[it].k), Not(on_side(c, a, b, pt)))))
        for loc in L.locs('Usize', 'Isize'):
            if L.modified(loc):
                L.cand('crossings so far', lambda V, it=it, loc=loc: V[loc] == SUM(c)(V[it].k))


K('Polyline::contains', 'eps', 'C08', fun=True, requires=lambda c: [('not empty', c.W.vlen(verts(c, c.arg(0))) >= 1)], ensures=contains_post, inv=contains_inv)


def orient_seg(c):
    from .predicates import shoelace
    v, n, S = shoelace(c)
    a = S(v, n)
    return [('counterclockwise iff positive area', is_var(c, c.ret, 'Counterclockwise') == (a < 0)),
            ('clockwise iff negative area', is_var(c, c.ret, 'Clockwise') == (a > 0)), ('some area', a != 0)]


K('polyline::segments_orientation', 'eps', 'C08', may_panic=True, ensures=orient_seg, note='a ring without area is refused by a panic')


def pts3(E):
    p = (z3.RealVal(0), z3.RealVal(0))
    return p, [(z3.Real('l_x%d' % i), z3.Real('l_y%d' % i)) for i in range(3)]


def sign_cases(v, goal_hyps, goal):
    """one obligation per sign pattern of the given numbers"""
    import itertools
    out = []
    for sg in itertools.product((-1, 0, 1), repeat=len(v)):
        out.append((goal_hyps + [x < 0 if s < 0 else x == 0 if s == 0 else x > 0 for x, s in zip(v, sg)], goal))
    return out


def off(c, a, b, p):
    return Not(And(orient2(a, b, p) == 0, a[0] * b[0] <= 0, a[1] * b[1] <= 0))


def triangle_lemma(E):
    c = lctx(E)
    p, (a, b, d) = pts3(E)
    s = crossing(c, a, b, p) + crossing(c, b, d, p) + crossing(c, d, a, p)
    o = [orient2(a, b, p), orient2(b, d, p), orient2(d, a, p)]
    g = s == If(And(*[x > 0 for x in o]), z3.IntVal(4), If(And(*[x < 0 for x in o]), z3.IntVal(-4), z3.IntVal(0)))
    return sign_cases([a[0], b[0], d[0]], [off(c, a, b, p), off(c, b, d, p), off(c, d, a, p)], g)


def diagonal_lemma(E):
    c = lctx(E)
    p, (a, b, _) = pts3(E)
    return [([orient2(a, b, p) != 0], crossing(c, a, b, p) == -crossing(c, b, a, p))]


def split_lemma(E):
    c = lctx(E)
    p, (a, b, m) = pts3(E)
    t = z3.Real('l_t')
    hy = [t > 0, t < 1, m[0] == a[0] + t * (b[0] - a[0]), m[1] == a[1] + t * (b[1] - a[1]), orient2(a, b, p) != 0]
    return sign_cases([a[0], b[0], m[0]], hy, crossing(c, a, m, p) + crossing(c, m, b, p) == crossing(c, a, b, p))


L('C08', 'the crossings of a triangle add up to 4 (-4 clockwise) strictly inside and cancel outside', 'eps', triangle_lemma)
L('C08', 'crossings of a side and its reverse cancel, so those of a polygon are the sum over its triangles', 'eps', diagonal_lemma)
L('C08', 'a further corner on a side does not change the crossings', 'eps', split_lemma)


# ---------------------------------------------------------------- C09 polygon against line
def FN(c, name, *args):
    """the function called name, as the code computes it (its contract says what that is)"""
    W = c.W
    f = c.E.P.find(name)
    r = W.sort(f['locals'][0])
    return W.fn('F_' + name, *([a.sort() for a in args] + [r]))(*args)


def cont_side(c, p, v):
    """Some(position of v) with respect to polygon p"""
    return c.W.unsome(FN(c, 'Polyline::contains', p, v))


def critical(c, p2):
    """begin points and midpoints of the sides of p2, by index"""
    es = FN(c, 'Polyline::into_edges', p2)
    return c.W.vlen(es), [lambda i: FN(c, 'Edge::midpoint', c.W.vat(es, i)), lambda i: V1(c, c.W.vat(es, i))]


def agrees(c, v, want):
    return Or(is_var(c, v, 'Boundary'), v == want)


def cont_inv(L):
    c, W = L.fnctx, L.W
    p1 = c.arg(0)
    for it in L.iters():
        for pc in L.locs('Option<Continence>'):
            if not L.modified(pc):
                continue
            L.cand('strict so far', lambda V, pc=pc: Implies(W.is_some(V[pc]), Not(is_var(c, W.unsome(V[pc]), 'Boundary'))))
            for j in range(3):
                def seen(V, it=it, pc=pc, j=j):
                    k = V[it].comps[j]
                    v = cont_side(c, p1, k.elem)
                    vis = FALSE if k.vis is None else Select(k.vis, *k.keys)
                    return ForAll(k.binders, Implies(vis, Or(is_var(c, v, 'Boundary'), And(W.is_some(V[pc]), v == W.unsome(V[pc])))))
                L.cand('all seen agree %d' % j, seen)
            for pb in L.locs('BoundaryInclusion'):
                if not L.modified(pb):
                    continue

                def touch(V, it=it, pb=pb):
                    out = []
                    for k in V[it].comps:
                        vis = FALSE if k.vis is None else Select(k.vis, *k.keys)
                        out.append(Exists(k.binders, And(vis, is_var(c, cont_side(c, p1, k.elem), 'Boundary'))))
                    return Or(*out)
                L.cand('closed only if touched', lambda V, pb=pb, touch=touch: Implies(is_var(c, V[pb], 'Closed'), touch(V)))
                for j in range(3):
                    def clo(V, it=it, pb=pb, j=j):
                        k = V[it].comps[j]
                        vis = FALSE if k.vis is None else Select(k.vis, *k.keys)
                        return ForAll(k.binders, Implies(And(vis, is_var(c, cont_side(c, p1, k.elem), 'Boundary')), is_var(c, V[pb], 'Closed')))
                    L.cand('closed if touched %d' % j, clo)


def cont_post(c):
    p1, p2 = c.arg(0), c.arg(1)
    n, pts = critical(c, p2)
    i = idx()
    s = is_some(c, c.ret)
    t = unsome(c, c.ret)
    side, bd = tup(c, t, 0), tup(c, t, 1)
    out = [('no answer if opened', Implies(opened(c, p1), Not(s)))]
    for nm, f in zip(('midpoint', 'corner'), pts):
        out.append(('every %s is there or on the boundary' % nm, Implies(s, ForAll([i], Implies(rng(i, n), agrees(c, cont_side(c, p1, f(i)), side))))))
        out.append(('closed if a %s is on the boundary' % nm, Implies(s, ForAll([i], Implies(And(rng(i, n), is_var(c, cont_side(c, p1, f(i)), 'Boundary')), is_var(c, bd, 'Closed'))))))
    vs = verts(c, p2)
    end = cont_side(c, p1, c.W.vat(vs, c.W.vlen(vs) - 1))
    op = opened(c, p2)
    out.append(('the end of an opened line is there or on the boundary', Implies(And(s, op), Or(is_var(c, end, 'Boundary'), end == side))))
    out.append(('closed if the end of an opened line is on the boundary', Implies(And(s, op, is_var(c, end, 'Boundary')), is_var(c, bd, 'Closed'))))
    touch = Or(And(op, is_var(c, end, 'Boundary')),
               Exists([i], And(rng(i, n), Or(*[is_var(c, cont_side(c, p1, f(i)), 'Boundary') for f in pts]))))
    out.append(('closed only if one is on the boundary', Implies(And(s, is_var(c, bd, 'Closed')), touch)))
    return out


K('Polyline::continence', 'eps', 'C09', requires=lambda c: [('not empty', c.W.vlen(verts(c, c.arg(0))) >= 1), ('a line', c.W.vlen(verts(c, c.arg(1))) >= 2)],
  ensures=cont_post, inv=cont_inv)
