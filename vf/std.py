"""Models of the std / float_cmp / nalgebra functions the repository calls (trusted)."""
import itertools
import re
from .core import *
from .exec import Pt, Undef

USZ = USIZE


def shortname(d):
    p = strip_generics(re.sub(r'<impl (\w+)>', r'\1', d)).split('::')
    return '::'.join(p[-2:])


# ---------------------------------------------------------------- helpers

def sub(v, pairs):
    if not pairs or v is None:
        return v
    if isz(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, CVec):
        return CVec(v.ty, [sub(x, pairs) for x in v.items])
    if isinstance(v, St):
        return St(v.ty, [sub(x, pairs) for x in v.fields], v.variant)
    if isinstance(v, (FnV, Opaque, RefV)):
        return v
    raise Unsupported('substitution in %r' % (v,))


def mentions(e, xs):
    ids = set(x.get_id() for x in xs)
    todo = [e]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in ids:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo.extend(x.children())
    return False


def place_of(E, st, a):
    """the RefV of the innermost place a reference chain denotes"""
    while isinstance(a, RefV):
        try:
            v = E.rd(st, a.root, a.proj)
        except Unsupported:
            return a
        if isinstance(v, RefV):
            a = v
        else:
            return a
    return a


def conds_of(E, v, n):
    return [E.rec_variant(v, k) for k in range(n)]


def split(E, st, v):
    """[(state, variant, payload or None)] for an Option/Result/enum value"""
    v = E.deref(st, v)
    if isinstance(v, St):
        return [(st, v.variant, v.fields[0] if v.fields else None)]
    if not isz(v):
        raise Unsupported('match on %r' % (v,))
    n = v.sort().num_constructors()
    res = E.fork_on(st, [(E.rec_variant(v, k), k) for k in range(n)])
    out = []
    for k, s in res:
        out.append((s, k, E.W._acc(v.sort(), k, 0, v) if v.sort().constructor(k).arity() else None))
    return out


def opt(E, st, ty, v=None):
    """an Option value of type ty"""
    return E.mkadt(st, ty, 0 if v is None else 1, [] if v is None else [v])


def unit(E, st):
    return E.mkadt(st, UNIT, 0, [])


def argt(ty, i=0):
    t = vt_any(ty)
    return targs(t)[i]


def elem_ty(t):
    t = vt_any(t)
    if t['k'] in ('slice', 'array'):
        return t['t']
    return targs(t)[0]


def is_vecty(t):
    t = vt_any(t)
    return t['k'] in ('slice', 'array') or is_adt(t, 'Vec', 'VecDeque')


def zint(E, v):
    return v


def empty_set(s):
    return z3.K(s.domain(), FALSE)


def key_of(E, st, a):
    return E.W.key(E.to_z3(st, E.snapshot(st, E.deref(st, a))))


def bag_fact(E, st, v, b):
    st.fact(E.bag(v) == b)


def empty_vec(E, st, et):
    return CVec(et, [])


def zero_bag(E, st, v):
    es = E.W.varr(v).range()
    return z3.K(es, z3.IntVal(0))


# ---------------------------------------------------------------- iterators

def mk_iter(E, st, v, ty):
    """iterator over a container value"""
    W = E.W
    t = vt_any(ty) if ty is not None else None
    if isinstance(v, RefV):
        p = place_of(E, st, v)
        v = E.deref(st, v)
    if isinstance(v, It):
        return v
    if isinstance(v, CVec):
        return It('list', v.ty, items=[(TRUE, x) for x in v.items], k=0)
    if isinstance(v, St) and t is not None and is_adt(t, 'Range'):
        v = E.to_z3(st, v)
    if isinstance(v, St) and is_adt(v.ty, 'Option'):
        return It('list', targs(v.ty)[0], items=[(TRUE, v.fields[0])] if v.variant == 1 else [], k=0)
    if not isz(v):
        raise Unsupported('iteration over %r' % (v,))
    t = W.type_of(v)
    if is_vecty(t):
        et = elem_ty(t)
        i = E.bvar('i', z3.IntSort())
        return It('seq', et, n=W.vlen(v), ivar=i, elem=W.vat(v, i), k=z3.IntVal(0), src=v)
    if v.sort().kind() == z3.Z3_ARRAY_SORT:
        return set_iter(E, st, v)
    if is_adt(t, 'HashSet'):
        return set_iter(E, st, v)
    if is_adt(t, 'HashMap'):
        return map_iter(E, st, v, 'pairs')
    if is_adt(t, 'Option'):
        return It('list', targs(t)[0], items=[(W.is_some(v), W.unsome(v))], k=0)
    if is_adt(t, 'Range'):
        lo, hi = W.get(t, 0, 0, v), W.get(t, 0, 1, v)
        i = E.bvar('i', z3.IntSort())
        n = E.sm(hi - lo)
        n = z3.simplify(If(n >= 0, n, z3.IntVal(0)))
        if z3.is_int_value(n) and n.as_long() <= 12:
            return It('list', targs(t)[0], items=[(TRUE, E.sm(lo + j)) for j in range(n.as_long())], k=0)
        return It('seq', targs(t)[0], n=n, ivar=i, elem=z3.simplify(lo + i), k=z3.IntVal(0))
    raise Unsupported('iteration over ' + tstr(t))


def rep_fn(E, st, ks, guardf):
    """stored representative of a key (a triangle may be stored rotated)"""
    W = E.W
    t = W.bysort.get(ks)
    if W.mode == 'exact' and t is not None and is_adt(t, 'Triangle'):
        f = E.fresh_fn('rep', ks, ks)
        k = E.bvar('k', ks)
        E.export(st, [b for g in E.binders for b in g], z3.ForAll([k], W.canon(f(k)) == W.canon(k), patterns=[f(k)]))
        return f
    return lambda k: k


def set_elem_ty(E, v):
    ks = v.sort().domain()
    return E.W.type_of(z3.Const('x', ks))


def set_iter(E, st, v):
    ks = v.sort().domain()
    k = E.bvar('k', ks)
    f = rep_fn(E, st, ks, None)
    c = Comp([k], Select(v, k), f(k), [k], src=v)
    return It('comp', set_elem_ty(E, v), comps=[c], src=v)


def map_iter(E, st, m, what):
    W = E.W
    dom = W.mdom(m)
    ks = dom.sort().domain()
    k = E.bvar('k', ks)
    f = rep_fn(E, st, ks, None)
    kt = W.type_of(k)
    val = Select(W.mval(m), k)
    vty = W.type_of(val)
    if what == 'keys':
        el, et = f(k), kt
    elif what == 'values':
        el, et = val, vty
    else:
        et = {'k': 'tuple', 'ts': [kt, vty]}
        el = W.mk(et, 0, [f(k), val])
    return It('comp', et, comps=[Comp([k], Select(dom, k), el, [k], src=m)], src=m)


def vsel(c):
    """has this element been visited?"""
    if c.vis is None:
        return FALSE
    return Select(c.vis, *c.keys)


def vis_sort(c):
    return z3.ArraySort(*([b.sort() for b in c.keys] + [z3.BoolSort()]))


def vis_add(E, st, c, keys):
    v = c.vis
    if v is None:
        if len(c.keys) == 1:
            v = z3.K(c.keys[0].sort(), FALSE)
        else:
            v = E.fresh('vis', vis_sort(c))
            xs = [E.bvar('v', b.sort()) for b in c.keys]
            st.fact(ForAll(xs, z3.Not(z3.Select(v, *xs)), pats=[z3.Select(v, *xs)]))
    return z3.Store(v, *keys, TRUE)


def with_vis(c, vis):
    return Comp(c.binders, c.guard, c.elem, c.keys, vis, c.src)


def havoc_iter(E, st, it, name):
    if it.kind == 'list':
        return it
    if it.kind == 'seq':
        k = E.fresh('pos', z3.IntSort())
        st.fact(And(k >= it.k, k <= If(it.n >= it.k, it.n, it.k)))
        return it.copy(k=k)
    cs = []
    for c in it.comps:
        v = E.fresh('vis', vis_sort(c))
        st.fact(ForAll(c.binders, Implies(z3.Select(v, *c.keys), c.guard), pats=[z3.Select(v, *c.keys)]))
        if c.vis is not None:
            st.fact(ForAll(c.binders, Implies(vsel(c), z3.Select(v, *c.keys))))
        cs.append(with_vis(c, v))
    return it.copy(comps=cs)


def as_comps(E, it):
    """comprehensions for what the iterator still yields"""
    if it.kind == 'comp':
        return list(it.comps)
    if it.kind == 'seq':
        return [Comp([it.ivar], And(it.k <= it.ivar, it.ivar < it.n), it.elem, [it.ivar], src=it.src)]
    out = []
    for g, x in it.items[it.k:]:
        if isinstance(x, (RefV,)):
            raise Unsupported('references in a comprehension')
        out.append(Comp([], g, x, [z3.IntVal(0)], src=None))
    return out


def remaining(E, it):
    """comps with the visited ones excluded from the guard"""
    cs = []
    for c in as_comps(E, it):
        if c.vis is not None:
            cs.append(Comp(c.binders, And(c.guard, Not(vsel(c))), c.elem, c.keys, None, c.src))
        else:
            cs.append(c)
    return cs


def it_next(E, st, ref, dty):
    """Iterator::next on the iterator stored at ref"""
    p = place_of(E, st, ref)
    it = E.deref(st, ref)
    if isz(it) and is_adt(E.W.type_of(it), 'Range'):
        t = E.W.type_of(it)
        lo, hi = E.W.get(t, 0, 0, it), E.W.get(t, 0, 1, it)
        out = []
        for some, s in E.fork_on(st, [(z3.simplify(lo < hi), True), (z3.simplify(lo >= hi), False)]):
            if some:
                E.wr(s, p.root, p.proj, E.W.mk(t, 0, [z3.simplify(lo + 1), hi]))
                out.append((s, opt(E, s, dty, lo)))
            else:
                out.append((s, opt(E, s, dty)))
        return out
    if not isinstance(it, It):
        raise Unsupported('next on %r' % (it,))
    out = []
    if it.kind == 'list':
        k = it.k
        while True:
            if k >= len(it.items):
                E.wr(st, p.root, p.proj, it.copy(k=k))
                out.append((st, opt(E, st, dty)))
                return out
            g, x = it.items[k]
            k += 1
            if z3.is_true(g):
                E.wr(st, p.root, p.proj, it.copy(k=k))
                out.append((st, opt(E, st, dty, x)))
                return out
            nst = None
            for yes, s in E.fork_on(st, [(g, True), (Not(g), False)]):
                if yes:
                    E.wr(s, p.root, p.proj, it.copy(k=k))
                    out.append((s, opt(E, s, dty, x)))
                else:
                    nst = s
            if nst is None:
                return out
            st = nst
    if it.kind == 'seq':
        more = E.sm(it.k < it.n)
        for some, s in E.fork_on(st, [(more, True), (Not(more), False)]):
            if some:
                E.wr(s, p.root, p.proj, it.copy(k=z3.simplify(it.k + 1)))
                x = sub(it.elem, [(it.ivar, it.k)])
                elem_wf(E, s, it, x)
                out.append((s, opt(E, s, dty, x)))
            else:
                out.append((s, opt(E, s, dty)))
        return out
    # comp
    for j, c in enumerate(it.comps):
        s = st.fork()
        bs = [E.fresh('x', b.sort()) for b in c.binders]
        pr = list(zip(c.binders, bs))
        s.branch(sub(c.guard, pr))
        if c.vis is not None:
            s.branch(Not(Select(c.vis, *[sub(k, pr) for k in c.keys])))
        if not E.S.ground_feasible(s):
            continue
        nc = with_vis(c, vis_add(E, s, c, [sub(k, pr) for k in c.keys]))
        cs = list(it.comps)
        cs[j] = nc
        E.wr(s, p.root, p.proj, it.copy(comps=cs))
        x = sub(c.elem, pr)
        out.append((s, opt(E, s, dty, x)))
    s = st
    for c in it.comps:
        s.branch(ForAll(c.binders, Implies(c.guard, vsel(c))))
        if c.src is not None and isz(c.src) and c.vis is None and c.src.sort().kind() == z3.Z3_ARRAY_SORT and c.guard.eq(Select(c.src, c.binders[0])):
            s.branch(Eq(c.src, empty_set(c.src)))
    if E.S.ground_feasible(s):
        out.append((s, opt(E, s, dty)))
    return out


def elem_wf(E, st, it, x):
    if isz(x):
        try:
            for f in E.wf_facts(E.W.type_of(x), x):
                st.fact(f)
        except KeyError:
            pass


def closure_ret(E, clo):
    return None


def it_map(E, st, it, clo, ety):
    if it.kind == 'list':
        items = []
        for g, x in it.items[it.k:]:
            items.append((g, E.pure(st, clo, [x], guard=g)))
        return It('list', ety, items=items, k=0)
    if it.kind == 'seq':
        v = E.pure(st, clo, [it.elem], [it.ivar], And(it.k <= it.ivar, it.ivar < it.n))
        return it.copy(elem=v, ety=ety, src=None)
    cs = [Comp(c.binders, c.guard, E.pure(st, clo, [c.elem], c.binders, c.guard), c.keys, c.vis, None) for c in it.comps]
    return it.copy(comps=cs, ety=ety)


def it_filter(E, st, it, clo):
    if it.kind == 'list':
        return It('list', it.ety, items=[(And(g, E.pure(st, clo, [x], guard=g)), x) for g, x in it.items[it.k:]], k=0)
    cs = []
    for c in as_comps(E, it):
        p = E.pure(st, clo, [c.elem], c.binders, c.guard)
        cs.append(Comp(c.binders, And(c.guard, p), c.elem, c.keys, c.vis, c.src))
    return It('comp', it.ety, comps=cs, ordered=it.kind == 'seq' or it.ordered, src=it.src if it.kind == 'seq' else None)


def it_filter_map(E, st, it, clo, ety):
    m = it_map(E, st, it, clo, None)
    W = E.W

    def parts(v):
        if isinstance(v, St):
            return z3.BoolVal(v.variant == 1), (v.fields[0] if v.fields else None)
        return W.is_some(v), W.unsome(v)
    if m.kind == 'list':
        items = []
        for g, v in m.items:
            c, x = parts(v)
            if not z3.is_false(c):
                items.append((And(g, c), x))
        return It('list', ety, items=items, k=0)
    cs = []
    for c in as_comps(E, m):
        g, x = parts(c.elem)
        if x is not None:
            cs.append(Comp(c.binders, And(c.guard, g), x, c.keys, c.vis, None))
    return It('comp', ety, comps=cs, ordered=m.kind == 'seq' or m.ordered)


def it_flatten(E, st, it, ety):
    W = E.W
    cs = []
    alllist = it.kind == 'list'
    items = []
    for c in as_comps(E, it):
        x = c.elem
        if isinstance(x, St) and is_adt(x.ty, 'Option'):
            x = CVec(None, x.fields if x.variant == 1 else [])
        if isinstance(x, It) and x.kind == 'list':
            for g, y in x.items[x.k:]:
                items.append((And(c.guard, g), y))
                cs.append(Comp(c.binders, And(c.guard, g), y, c.keys, c.vis, None))
            continue
        if isinstance(x, CVec):
            for y in x.items:
                items.append((c.guard, y))
                cs.append(Comp(c.binders, c.guard, y, c.keys, c.vis, None))
            continue
        if isz(x):
            sub_it = mk_iter(E, st, x, None)
            if sub_it.kind == 'list':
                for g, y in sub_it.items:
                    items.append((And(c.guard, g), y))
                    cs.append(Comp(c.binders, And(c.guard, g), y, c.keys, c.vis, None))
                continue
            x = sub_it
        if isinstance(x, It):
            alllist = False
            if c.vis is not None:
                raise Unsupported('flatten of a partly consumed iterator')
            for d in as_comps(E, x):
                cs.append(Comp(tuple(c.binders) + tuple(d.binders), And(c.guard, d.guard), d.elem,
                               tuple(c.keys) + tuple(d.keys), None, None))
            continue
        raise Unsupported('flatten of %r' % (x,))
    if alllist:
        return It('list', ety, items=items, k=0)
    return It('comp', ety, comps=cs)


def it_chain(E, st, a, b):
    if a.kind == 'list' and b.kind == 'list':
        return It('list', a.ety, items=a.items[a.k:] + b.items[b.k:], k=0)
    cs = []
    for it in (a, b):
        for c in as_comps(E, it):
            if not c.binders and isinstance(c.elem, RefV):
                raise Unsupported('chain of references')
            cs.append(c)
    return It('comp', a.ety, comps=cs)


def list_of(it):
    return it.kind == 'list' and all(z3.is_true(g) for g, x in it.items[it.k:])


def it_select(E, st, it, clo, position=False, mode='find'):
    """find / position: [(state, index or None, elem or None)]"""
    if it.kind == 'list':
        out = []
        i = 0
        cur = [st]
        for n, (g, x) in enumerate(it.items[it.k:]):
            nxt = []
            for s in cur:
                p = And(g, E.pure(s, clo, [x], guard=g)) if clo is not None else g
                for yes, s2 in E.fork_on(s, [(p, True), (Not(p), False)]):
                    if yes:
                        if position and not list_of(it):
                            raise Unsupported('position on a filtered list')
                        out.append((s2, z3.IntVal(n), x))
                    else:
                        nxt.append(s2)
            cur = nxt
        out += [(s, None, None) for s in cur]
        return out
    out = []
    if it.kind == 'seq':
        g0 = And(it.k <= it.ivar, it.ivar < it.n)
        p = E.pure(st, clo, [it.elem], [it.ivar], g0) if clo is not None else TRUE
        s = st.fork()
        x = E.fresh('at', z3.IntSort())
        pr = [(it.ivar, x)]
        s.branch(sub(g0, pr))
        s.branch(sub(p, pr))
        j = it.ivar
        s.fact(ForAll([j], Implies(And(it.k <= j, j < x), Not(p))))
        if E.S.ground_feasible(s):
            out.append((s, z3.simplify(x - it.k), sub(it.elem, pr)))
        st.branch(ForAll([j], Implies(g0, Not(p))))
        if E.S.ground_feasible(st):
            out.append((st, None, None))
        return out
    if position:
        raise Unsupported('position on an unordered iterator')
    cs = remaining(E, it)
    ps = [E.pure(st, clo, [c.elem], c.binders, c.guard) if clo is not None else TRUE for c in cs]
    for c, p in zip(cs, ps):
        s = st.fork()
        bs = [E.fresh('x', b.sort()) for b in c.binders]
        pr = list(zip(c.binders, bs))
        s.branch(sub(c.guard, pr))
        s.branch(sub(p, pr))
        if it.ordered and len(c.binders) == 1 and len(cs) == 1:
            j = E.bvar('j', z3.IntSort())
            s.fact(ForAll([j], Implies(And(j < bs[0], sub(c.guard, [(c.binders[0], j)])), Not(sub(p, [(c.binders[0], j)])))))
        if E.S.ground_feasible(s):
            out.append((s, None, sub(c.elem, pr)))
    for c, p in zip(cs, ps):
        st.branch(ForAll(c.binders, Implies(c.guard, Not(p))))
    if E.S.ground_feasible(st):
        out.append((st, None, None))
    return out


def collect(E, st, it, dty):
    W = E.W
    t = vt_any(dty)
    n = short_adt(t['name']) if t['k'] == 'adt' else None
    if n in ('Vec', 'VecDeque') or t['k'] == 'slice':
        return collect_vec(E, st, it, elem_ty(t))
    if n == 'HashSet':
        return collect_set(E, st, it, W.sort(targs(t)[0]))
    if n == 'HashMap':
        return collect_map(E, st, it, t)
    raise Unsupported('collect into ' + tstr(t))


def collect_vec(E, st, it, et):
    W = E.W
    if list_of(it):
        return CVec(et, [x for g, x in it.items[it.k:]])
    if it.kind == 'seq':
        if it.src is not None and z3.is_int_value(it.k) and it.k.as_long() == 0 and isz(it.elem) and it.elem.eq(W.vat(it.src, it.ivar)) \
                and is_vecty(W.type_of(it.src)):
            if tstr(W.type_of(it.src)) == 'Vec<%s>' % tstr(et):
                return it.src
        el = E.to_z3(st, it.elem)
        v = E.fresh('cv', W.sort({'k': 'slice', 't': et}))
        ln = z3.simplify(it.n - it.k)
        st.fact(W.vlen(v) == If(ln >= 0, ln, z3.IntVal(0)))
        i = it.ivar
        at = W.vat(v, i)
        e1 = subst(el, [(i, i + it.k)]) if not (z3.is_int_value(it.k) and it.k.as_long() == 0) else el
        st.fact(ForAll([i], Implies(And(0 <= i, i < W.vlen(v)), at == e1), pats=[at]))
        # the k-th source element shows up too
        if it.src is not None and is_vecty(W.type_of(it.src)):
            sat = W.vat(it.src, i)
            if mentions(el, [i]) and z3.is_int_value(it.k) and it.k.as_long() == 0:
                st.fact(ForAll([i], Implies(And(0 <= i, i < it.n), at == el), pats=[sat]))
        return v
    cs = remaining(E, it)
    v = E.fresh('cv', W.sort({'k': 'slice', 't': et}))
    es = W.sort(et)
    st.fact(W.vlen(v) >= 0)
    bag = E.bag(v)
    x = E.bvar('x', es)
    exact_counts = None
    if len(cs) == 1 and len(cs[0].binders) == 1 and isz(cs[0].elem):
        c = cs[0]
        b = c.binders[0]
        if c.src is not None and isz(c.src) and it.ordered and is_vecty(W.type_of(c.src)):
            # filtered sequence: how often an element survives, when the filter only looks at the element
            g = c.guard
            rng = And(0 <= b, b < W.vlen(c.src))
            parts = [y for y in (g.children() if z3.is_and(g) else [g])]
            rest = [y for y in parts if not (z3.is_app(y) and not mentions(y, [c.elem]) and mentions(y, [b]))]
            p = subst(And(*rest), [(c.elem, x)]) if rest else TRUE
            if not mentions(p, [b]):
                st.fact(ForAll([x], Select(bag, x) == If(p, Select(E.bag(c.src), x), z3.IntVal(0)), pats=[z3.Select(bag, x)]))
                st.fact(ForAll([x], Select(bag, x) == If(p, Select(E.bag(c.src), x), z3.IntVal(0)), pats=[z3.Select(E.bag(c.src), x)]))
                exact_counts = True
        elif c.elem.eq(b):
            g = subst(c.guard, [(b, x)])
            st.fact(ForAll([x], Select(bag, x) == If(g, z3.IntVal(1), z3.IntVal(0)), pats=[z3.Select(bag, x)]))
            exact_counts = True
    for c in cs:
        e = E.to_z3(st, c.elem)
        st.fact(ForAll(c.binders, Implies(c.guard, Select(bag, e) > 0)))
    if not exact_counts:
        member_back(E, st, cs, x, Select(bag, x) > 0, lambda e: e, [z3.Select(bag, x)])
    return v


def member_back(E, st, cs, x, inn, keyf, pats):
    """x in the result  =>  x comes from one of the comprehensions"""
    alts = []
    for c in cs:
        ws = []
        for b in c.binders:
            f = E.fresh_fn('w', x.sort(), b.sort())
            ws.append(f(x))
        pr = list(zip(c.binders, ws))
        alts.append(And(sub(c.guard, pr), keyf(sub(E.to_z3(st, c.elem), pr)) == x))
    E.export(st, [b for g in E.binders for b in g], ForAll([x], Implies(inn, Or(*alts)), pats=pats))


def collect_set(E, st, it, ks):
    W = E.W
    if it.kind == 'list':
        s = z3.K(ks, FALSE)
        for g, x in it.items[it.k:]:
            k = key_of(E, st, x)
            s = z3.Store(s, k, TRUE if z3.is_true(g) else Or(g, Select(s, k)))
        return s
    cs = remaining(E, it)
    if len(cs) == 1 and cs[0].src is not None and isz(cs[0].src) and cs[0].src.sort().kind() == z3.Z3_ARRAY_SORT and len(cs[0].binders) == 1 \
            and cs[0].guard.eq(Select(cs[0].src, cs[0].binders[0])) and cs[0].src.sort().domain() == ks and elem_is_key(E, cs[0]):
        return cs[0].src
    S = E.fresh('cs', z3.ArraySort(ks, z3.BoolSort()))
    x = E.bvar('x', ks)
    ob = [b for g in E.binders for b in g]
    if all(len(c.binders) == 1 and elem_is_key(E, c) and c.binders[0].sort() == ks for c in cs):
        g = Or(*[sub(c.guard, [(c.binders[0], x)]) for c in cs])
        fact = ForAll([x], Select(S, x) == g, pats=[z3.Select(S, x)])
        E.export(st, ob, fact)
        # source membership triggers too
        for c in cs:
            if c.src is not None and isz(c.src) and c.src.sort().kind() == z3.Z3_ARRAY_SORT and z3.is_const(c.src) and c.src.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                E.export(st, ob, ForAll([x], Implies(sub(c.guard, [(c.binders[0], x)]), Select(S, x)), pats=[z3.Select(c.src, x)]))
        set_wf(E, st, S)
        return S
    for c in cs:
        k = W.key(E.to_z3(st, c.elem))
        E.export(st, ob, ForAll(c.binders, Implies(c.guard, Select(S, k))))
    member_back(E, st, cs, x, Select(S, x), W.key, [z3.Select(S, x)])
    set_wf(E, st, S)
    return S


def elem_is_key(E, c):
    """is the element, as a key, the binder itself?"""
    if not isz(c.elem) or len(c.binders) != 1:
        return False
    b = c.binders[0]
    if c.elem.eq(b):
        return True
    # stored representative of a triangle
    if z3.is_app(c.elem) and c.elem.num_args() >= 1 and c.elem.decl().name().startswith('rep!') and c.elem.arg(c.elem.num_args() - 1).eq(b):
        return True
    return False


def set_wf(E, st, S):
    for f in set_wf_facts(E, S):
        E.export(st, [b for g in E.binders for b in g], f)


def set_wf_facts(E, S):
    W = E.W
    ks = S.sort().domain()
    t = W.bysort.get(ks)
    if W.mode == 'exact' and t is not None and is_adt(t, 'Triangle'):
        k = E.bvar('k', ks)
        return [z3.ForAll([k], z3.Implies(z3.Select(S, k), W.canon(k) == k), patterns=[z3.Select(S, k)])]
    return []


def collect_map(E, st, it, t):
    W = E.W
    ms = W.sort(t)
    if list_of(it):
        m = new_map(E, t)
        for g, x in it.items[it.k:]:
            k = key_of(E, st, E.nav(st, x, ('f', 0, 0)))
            v = E.to_z3(st, E.nav(st, x, ('f', 1, 0)))
            m = W.mkmap(ms, z3.Store(W.mdom(m), k, TRUE), z3.Store(W.mval(m), k, v))
        return m
    m = E.fresh('cm', ms)
    dom, val = W.mdom(m), W.mval(m)
    cs = remaining(E, it)
    x = E.bvar('x', dom.sort().domain())
    alts = []
    for c in cs:
        e = E.to_z3(st, c.elem)
        tt = W.type_of(e)
        k = W.key(W.get(tt, 0, 0, e))
        st.fact(ForAll(c.binders, Implies(c.guard, Select(dom, k))))
        ws = [E.fresh_fn('w', x.sort(), b.sort())(x) for b in c.binders]
        pr = list(zip(c.binders, ws))
        e2 = sub(e, pr)
        alts.append(And(sub(c.guard, pr), W.key(W.get(tt, 0, 0, e2)) == x, W.get(tt, 0, 1, e2) == Select(val, x)))
    st.fact(ForAll([x], Implies(Select(dom, x), Or(*alts)), pats=[z3.Select(dom, x)]))
    return m


def new_map(E, t):
    W = E.W
    ms = W.sort(t)
    ks = ms.accessor(0, 0).range().domain()
    vs = ms.accessor(0, 1).range()
    # values outside the domain are never read: any array will do
    dflt = z3.Const('mdflt_' + ms.name(), ms.accessor(0, 1).range())
    return W.mkmap(ms, z3.K(ks, FALSE), dflt)


# ---------------------------------------------------------------- vectors

def vec_parts(E, st, a):
    """(place or None, value) of a vector argument"""
    p = place_of(E, st, a) if isinstance(a, RefV) else None
    return p, E.deref(st, a)


def vec_push(E, st, v, x):
    if isinstance(v, CVec):
        return CVec(v.ty, v.items + [x])
    W = E.W
    x = E.to_z3(st, E.snapshot(st, x))
    n = W.vlen(v)
    r = v.sort().constructor(0)(z3.Store(W.varr(v), n, x), E.sm(n + 1))
    b = E.bag(v)
    bag_fact(E, st, r, z3.Store(b, x, Select(b, x) + 1))
    return r


def vec_del(E, st, v, i):
    """value without element i (0 <= i < len)"""
    W = E.W
    if isinstance(v, CVec):
        if z3.is_int_value(i):
            return CVec(v.ty, [x for j, x in enumerate(v.items) if j != i.as_long()])
        v = E.to_z3(st, v)
    n = W.vlen(v)
    x = W.vat(v, i)
    if z3.simplify(i == n - 1).eq(TRUE):
        arr = W.varr(v)
    else:
        arr = E.fresh('del', W.varr(v).sort())
        j = E.bvar('j', z3.IntSort())
        st.fact(ForAll([j], z3.Select(arr, j) == If(j < i, z3.Select(W.varr(v), j), z3.Select(W.varr(v), j + 1)), pats=[z3.Select(arr, j)]))
    r = v.sort().constructor(0)(arr, E.sm(n - 1))
    b = E.bag(v)
    bag_fact(E, st, r, z3.Store(b, x, Select(b, x) - 1))
    st.fact(Select(b, x) > 0)
    return r


def vec_ins(E, st, v, i, x):
    W = E.W
    if isinstance(v, CVec) and z3.is_int_value(i):
        k = i.as_long()
        return CVec(v.ty, v.items[:k] + [x] + v.items[k:])
    v = E.to_z3(st, v)
    x = E.to_z3(st, x)
    arr = E.fresh('ins', W.varr(v).sort())
    j = E.bvar('j', z3.IntSort())
    st.fact(ForAll([j], z3.Select(arr, j) == If(j < i, z3.Select(W.varr(v), j), If(j == i, x, z3.Select(W.varr(v), j - 1))),
                   pats=[z3.Select(arr, j)]))
    st.fact(ForAll([j], z3.Select(arr, If(j < i, j, j + 1)) == z3.Select(W.varr(v), j), pats=[z3.Select(W.varr(v), j)]))
    r = v.sort().constructor(0)(arr, E.sm(W.vlen(v) + 1))
    b = E.bag(v)
    bag_fact(E, st, r, z3.Store(b, x, Select(b, x) + 1))
    return r


def vec_append(E, st, a, b):
    W = E.W
    if isinstance(b, CVec):
        for x in b.items:
            a = vec_push(E, st, a, x)
        return a
    if isinstance(a, CVec) and not a.items:
        return b
    a, b = E.to_z3(st, a), E.to_z3(st, b)
    r = E.fresh('app', a.sort())
    n, m = W.vlen(a), W.vlen(b)
    st.fact(W.vlen(r) == n + m)
    j = E.bvar('j', z3.IntSort())
    at = W.vat(r, j)
    st.fact(ForAll([j], at == If(j < n, W.vat(a, j), W.vat(b, j - n)), pats=[at]))
    x = E.bvar('x', W.varr(a).range())
    ba, bb, br = E.bag(a), E.bag(b), E.bag(r)
    body = Select(br, x) == Select(ba, x) + Select(bb, x)
    st.fact(ForAll([x], body, pats=[z3.Select(br, x)]))
    st.fact(ForAll([x], body, pats=[z3.Select(ba, x)]))
    st.fact(ForAll([x], body, pats=[z3.Select(bb, x)]))
    return r


def vec_get(E, st, v, i, dty):
    """Option of the element at i"""
    if isinstance(v, CVec):
        if z3.is_int_value(i):
            k = i.as_long()
            return [(st, opt(E, st, dty, v.items[k] if k < len(v.items) else None))]
        out = []
        conds = [(Eq(i, z3.IntVal(k)), k) for k in range(len(v.items))]
        conds.append((z3.simplify(i >= len(v.items)), None))
        for k, s in E.fork_on(st, conds):
            out.append((s, opt(E, s, dty, v.items[k] if k is not None else None)))
        return out
    W = E.W
    ok = E.sm(i < W.vlen(v))
    if not E.W.is_data(dty):
        raise Unsupported('get on vector of references')
    t = vt(dty)
    return [(st, If(ok, W.some(t, W.vat(v, i)), W.none(t)))]


def vec_mem(E, st, v, x):
    return E.mem(v, x)


# ---------------------------------------------------------------- floats and matrices

def f_sqrt(E, st, x):
    f = E.W.fn('sqrt', z3.RealSort(), z3.RealSort())
    x = E.prover.canon(x)
    r = f(x)
    E.export(st, [], And(r >= 0, Implies(x >= 0, r * r == x)))
    return r


def powi(E, x, n):
    if not z3.is_int_value(n):
        raise Unsupported('powi exponent')
    k = n.as_long()
    if k < 0 or k > 6:
        raise Unsupported('powi exponent')
    r = None
    for _ in range(k):
        r = x if r is None else r * x
    return r if r is not None else z3.RealVal(1)


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    r = None
    for j in range(n):
        a = m[0][j]
        if z3.is_rational_value(a) and a.as_fraction() == 0:
            continue
        t = a * det([row[:j] + row[j + 1:] for row in m[1:]])
        if j % 2:
            t = -t
        r = t if r is None else r + t
    return r if r is not None else z3.RealVal(0)


def dims(t):
    t = vt_any(t)
    out = []
    for a in t['args']:
        n = a.get('name', '') if a.get('k') == 'adt' else ''
        m = re.match(r'^U(\d+)$', last(n)) if n else None
        if m:
            out.append(int(m.group(1)))
    if len(out) < 2:
        raise Unsupported('matrix dimensions')
    return out[0], out[1]


# ---------------------------------------------------------------- the dispatch table

M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


class C:
    """one call"""
    __slots__ = ('E', 'st', 'g', 'a', 'at', 'dty', 'line', 'name')

    def __init__(self, E, st, g, args, atys, dty, line, name):
        self.E, self.st, self.g, self.a, self.at, self.dty, self.line, self.name = E, st, g, args, atys, dty, line, name

    def v(self, i):
        return self.E.deref(self.st, self.a[i])

    def z(self, i):
        return self.E.to_z3(self.st, self.E.snapshot(self.st, self.v(i)))

    def place(self, i):
        p = place_of(self.E, self.st, self.a[i])
        if not isinstance(p, RefV):
            raise Unsupported('%s needs a place' % self.name)
        return p

    def set(self, i, v, st=None):
        p = self.place(i)
        self.E.wr(st or self.st, p.root, p.proj, v)

    def ret(self, v, st=None):
        return [(st or self.st, v)]

    def unit(self):
        return [(self.st, unit(self.E, self.st))]

    def panic(self, st, why):
        return Pt('panic', st, val=why, line=self.line)


def call(E, st, g, args, atys, dty, line):
    n = shortname(g['def'])
    f = M.get(n)
    if f is None:
        if n.split('::')[0] in ('panicking', 'rt') or 'panic' in n:
            return [Pt('panic', st, val=n, line=line)]
        if 'fmt::' in g['def'] or n in ('io::_print', 'io::_eprint', 'fmt::format'):
            return [(st, Opaque('fmt'))]
        raise Unsupported('no model of ' + g['def'])
    E.models.add(n)
    return f(C(E, st, g, args, atys, dty, line, n))


# ---- transparent wrappers

@model('Rc::new', 'RefCell::new', 'Box::new', 'Arc::new', 'Cell::new')
def _(c):
    return c.ret(c.a[0])


@model('Clone::clone', 'ToOwned::to_owned', 'Option::cloned', 'Option::copied', 'Option::as_ref', 'Option::as_deref', 'slice::to_vec', 'From::from',
       'Into::into', 'String::as_str', 'Vec::as_slice', 'slice::into_vec', 'Rc::as_ref', 'AsRef::as_ref', 'Borrow::borrow', 'RefCell::into_inner',
       'convert::identity', 'Vec::into_boxed_slice', 'String::from')
def _(c):
    v = c.a[0]
    if isinstance(v, RefV) and c.name in ('Option::as_ref', 'AsRef::as_ref', 'Borrow::borrow', 'Rc::as_ref'):
        w = c.E.deref(c.st, v)
        if c.E.W.is_data(c.dty):
            return c.ret(w)
        return c.ret(w if isinstance(w, St) else v)
    if c.name in ('From::from', 'Into::into') and c.dty is not None and tstr(vt_any(c.dty)) != tstr(vt_any(c.at[0])):
        raise Unsupported('conversion')
    return c.ret(c.E.snapshot(c.st, c.v(0)))


@model('Deref::deref', 'DerefMut::deref_mut', 'RefCell::borrow', 'RefCell::borrow_mut', 'RefCell::get_mut', 'Vec::as_mut_slice', 'Rc::get_mut',
       'BorrowMut::borrow_mut', 'AsMut::as_mut')
def _(c):
    a = c.a[0]
    if isinstance(a, RefV):
        p = place_of(c.E, c.st, a)
        if c.name == 'Deref::deref' and c.dty is not None and not has_cell(c.E, c.dty):
            v = c.E.rd(c.st, p.root, p.proj)
            if not isinstance(v, It):
                return c.ret(v)
        return c.ret(p)
    return c.ret(a)


@model('Option::as_mut', 'Option::as_deref_mut')
def _(c):
    p = c.place(0)
    out = []
    for s, k, x in split(c.E, c.st, c.a[0]):
        if k == 0:
            out.append((s, opt(c.E, s, c.dty)))
        else:
            out.append((s, St(vt(c.dty), [RefV(p.root, p.proj + (('f', 0, 1),))], 1)))
    return out


@model('Box::new_uninit')
def _(c):
    r = c.E.root()
    return c.ret(BoxU(r))


@model('boxed::box_assume_init_into_vec_unsafe')
def _(c):
    b = c.a[0]
    if isinstance(b, BoxU):
        v = c.st.mem[b.root]
        while isinstance(v, St):
            v = v.fields[-1]
        return c.ret(v)
    return c.ret(c.E.deref(c.st, b))


# ---- comparison

@model('PartialEq::eq', 'PartialEq::ne')
def _(c):
    rs = c.E.eq_values(c.st, vt_any(c.at[0]) if c.at[0] is not None else None, c.a[0], c.a[1])
    if c.name.endswith('ne'):
        return [(s, Not(e)) for s, e in rs]
    return rs


def ordering_ty(E):
    for k, a in E.P.adts.items():
        if short_adt(a['name']) == 'Ordering' and a.get('variants') and a['variants'][0]['name'] == 'Less':
            return {'k': 'adt', 'name': a['name'], 'args': [], 'key': k}
    raise Unsupported('Ordering type')


def float_cmp3(E, st, a, b):
    t = ordering_ty(E)
    W = E.W
    L, Q, G = [W.mk(t, i, []) for i in range(3)]
    return If(E.sm(a < b), L, If(E.sm(a > b), G, Q))


@model('PartialOrd::partial_cmp', 'Ord::cmp', 'f64::total_cmp')
def _(c):
    t = vt_any(c.at[0])
    if t['k'] == 'bool':
        W = c.E.W
        ot = ordering_ty(c.E)
        L, Q, G = [W.mk(ot, i, []) for i in range(3)]
        a, b = c.v(0), c.v(1)
        o = If(And(Not(a), b), L, If(And(a, Not(b)), G, Q))
        return c.ret(opt(c.E, c.st, c.dty, o) if c.name == 'PartialOrd::partial_cmp' else o)
    if t['k'] not in ('float', 'int', 'char'):
        if t['k'] == 'adt' and is_adt(t, 'Option') and c.name == 'PartialOrd::partial_cmp':
            # None < Some(x)
            a, b = c.z(0), c.z(1)
            W = c.E.W
            ot = ordering_ty(c.E)
            L, Q, G = [W.mk(ot, i, []) for i in range(3)]
            sa, sb = W.is_some(a), W.is_some(b)
            o = If(And(sa, sb), float_cmp3(c.E, c.st, W.unsome(a), W.unsome(b)), If(sb, L, If(sa, G, Q)))
            return c.ret(opt(c.E, c.st, c.dty, o))
        raise Unsupported('comparison of ' + tstr(t))
    o = float_cmp3(c.E, c.st, c.v(0), c.v(1))
    if c.name == 'PartialOrd::partial_cmp':
        return c.ret(opt(c.E, c.st, c.dty, o))
    return c.ret(o)


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def _(c):
    a, b = c.v(0), c.v(1)
    if not (isz(a) and z3.is_arith(a)):
        raise Unsupported('comparison')
    op = c.name[-2:]
    return c.ret(c.E.sm({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]))


@model('Ord::max', 'Ord::min', 'f64::max', 'f64::min', 'cmp::max', 'cmp::min')
def _(c):
    a, b = c.v(0), c.v(1)
    if not (isz(a) and z3.is_arith(a)):
        raise Unsupported('max')
    return c.ret(If(a >= b, a, b) if c.name.endswith('max') else If(a <= b, a, b))


@model('Ordering::reverse', 'Ordering::then', 'Ordering::then_with', 'Ordering::is_lt', 'Ordering::is_gt', 'Ordering::is_eq', 'Ordering::is_ne',
       'Ordering::is_le', 'Ordering::is_ge')
def _(c):
    t = ordering_ty(c.E)
    W = c.E.W
    L, Q, G = [W.mk(t, i, []) for i in range(3)]
    v = c.z(0)
    n = c.name.split('::')[1]
    if n == 'reverse':
        return c.ret(If(Eq(v, L), G, If(Eq(v, G), L, Q)))
    if n == 'then':
        return c.ret(If(Eq(v, Q), c.z(1), v))
    if n == 'then_with':
        return c.ret(If(Eq(v, Q), c.E.pure(c.st, c.a[1], [], guard=Eq(v, Q)), v))
    return c.ret({'is_lt': Eq(v, L), 'is_gt': Eq(v, G), 'is_eq': Eq(v, Q), 'is_ne': Not(Eq(v, Q)), 'is_le': Not(Eq(v, G)),
                  'is_ge': Not(Eq(v, L))}[n])


# ---- floats

@model('F64Margin::zero', 'F64Margin::default', 'FloatMargin::zero')
def _(c):
    return c.ret(z3.RealVal(0))


@model('F64Margin::epsilon', 'FloatMargin::epsilon')
def _(c):
    return c.ret(c.v(1))


@model('F64Margin::ulps')
def _(c):
    return c.ret(c.v(0))


@model('ApproxEq::approx_eq', 'ApproxEq::approx_ne')
def _(c):
    a, b, e = c.v(0), c.v(1), c.v(2)
    if not isz(e) or not z3.is_real(e):
        raise Unsupported('margin')
    if c.E.mode == 'exact':
        r = Eq(a, b)
    else:
        d = a - b
        if z3.is_rational_value(b) and b.as_fraction() == 0:
            d = a
        r = And(d <= e, d >= -e)
    return c.ret(r if c.name.endswith('eq') else Not(r))


@model('f64::powi')
def _(c):
    return c.ret(powi(c.E, c.v(0), c.v(1)))


@model('f64::abs')
def _(c):
    a = c.v(0)
    return c.ret(If(a >= 0, a, -a))


@model('f64::sqrt')
def _(c):
    return c.ret(f_sqrt(c.E, c.st, c.v(0)))


@model('f64::hypot')
def _(c):
    a, b = c.v(0), c.v(1)
    return c.ret(f_sqrt(c.E, c.st, a * a + b * b))


@model('f64::mul_add')
def _(c):
    return c.ret(c.v(0) * c.v(1) + c.v(2))


@model('f64::acos', 'f64::cos', 'f64::sin', 'f64::tan', 'f64::atan2', 'f64::to_radians', 'f64::asin', 'f64::atan')
def _(c):
    n = c.name.split('::')[1]
    xs = [c.v(i) for i in range(len(c.a))]
    f = c.E.W.fn(n, *([z3.RealSort()] * (len(xs) + 1)))
    r = f(*xs)
    if n == 'acos':
        pi = c.E.W_pi()
        c.st.fact(Implies(And(xs[0] >= -1, xs[0] <= 1), And(r >= 0, r <= pi)))
    return c.ret(r)


@model('f64::round', 'f64::floor', 'f64::ceil', 'f64::trunc')
def _(c):
    a = c.v(0)
    n = c.name.split('::')[1]
    if n == 'floor':
        return c.ret(z3.ToReal(z3.ToInt(a)))
    if n == 'ceil':
        return c.ret(-z3.ToReal(z3.ToInt(-a)))
    h = z3.RealVal('1/2')
    if n == 'round':
        return c.ret(If(a >= 0, z3.ToReal(z3.ToInt(a + h)), -z3.ToReal(z3.ToInt(-a + h))))
    return c.ret(If(a >= 0, z3.ToReal(z3.ToInt(a)), -z3.ToReal(z3.ToInt(-a))))


@model('f64::is_nan', 'f64::is_infinite')
def _(c):
    return c.ret(FALSE)


@model('f64::is_finite')
def _(c):
    return c.ret(TRUE)


@model('f64::signum')
def _(c):
    a = c.v(0)
    return c.ret(If(a >= 0, z3.RealVal(1), z3.RealVal(-1)))


# ---- nalgebra

@model('construction::new')
def _(c):
    r, k = dims(c.dty)
    xs = [c.v(i) for i in range(len(c.a))]
    if len(xs) != r * k:
        raise Unsupported('matrix constructor')
    return c.ret(Mat(r, k, [xs[i * k:(i + 1) * k] for i in range(r)]))


@model('determinant::determinant')
def _(c):
    return c.ret(det(c.v(0).m))


@model('blas::dot')
def _(c):
    a, b = c.v(0), c.v(1)
    xs = [x for row in a.m for x in row]
    ys = [x for row in b.m for x in row]
    return c.ret(sum([x * y for x, y in list(zip(xs, ys))[1:]], xs[0] * ys[0]))


@model('norm::norm', 'norm::magnitude')
def _(c):
    xs = [x for row in c.v(0).m for x in row]
    return c.ret(f_sqrt(c.E, c.st, sum([x * x for x in xs[1:]], xs[0] * xs[0])))


@model('norm::norm_squared', 'norm::magnitude_squared')
def _(c):
    xs = [x for row in c.v(0).m for x in row]
    return c.ret(sum([x * x for x in xs[1:]], xs[0] * xs[0]))


@model('properties::is_invertible')
def _(c):
    return c.ret(Not(Eq(det(c.v(0).m), z3.RealVal(0))))


@model('inverse::try_inverse')
def _(c):
    m = c.v(0)
    if m.r != 2:
        raise Unsupported('inverse of %dx%d' % (m.r, m.c))
    d = det(m.m)
    z = d == 0
    out = []
    for zero, s in c.E.fork_on(c.st, [(z, True), (Not(z), False)]):
        if zero:
            out.append((s, St(vt(c.dty), [], 0)))
        else:
            (p, q), (r, t) = m.m
            out.append((s, St(vt(c.dty), [Mat(2, 2, [[t / d, -q / d], [-r / d, p / d]])], 1)))
    return out


def matmul(a, b):
    return Mat(a.r, b.c, [[sum([a.m[i][k] * b.m[k][j] for k in range(1, a.c)], a.m[i][0] * b.m[0][j]) for j in range(b.c)] for i in range(a.r)])


@model('Mul::mul')
def _(c):
    a, b = c.v(0), c.v(1)
    if isinstance(a, Mat) and isinstance(b, Mat):
        return c.ret(matmul(a, b))
    if isinstance(b, Mat):
        return c.ret(Mat(b.r, b.c, [[a * x for x in row] for row in b.m]))
    if isinstance(a, Mat):
        return c.ret(Mat(a.r, a.c, [[x * b for x in row] for row in a.m]))
    return c.ret(c.E.sm(a * b))


@model('Sub::sub', 'Add::add')
def _(c):
    a, b = c.v(0), c.v(1)
    op = (lambda x, y: x - y) if c.name.startswith('Sub') else (lambda x, y: x + y)
    if isinstance(a, Mat):
        return c.ret(Mat(a.r, a.c, [[op(x, y) for x, y in zip(r1, r2)] for r1, r2 in zip(a.m, b.m)]))
    if isz(a) and z3.is_arith(a):
        return c.ret(c.E.sm(op(a, b)))
    raise Unsupported('arithmetic on %r' % (a,))


@model('Index::index', 'IndexMut::index_mut')
def _(c):
    a = c.v(0)
    i = c.v(1)
    if isinstance(a, Mat):
        if not z3.is_int_value(i):
            raise Unsupported('matrix index')
        k = i.as_long()
        return c.ret(a.m[k % a.r][k // a.r])
    t = vt_any(c.at[0])
    if is_adt(t, 'HashMap'):
        k = key_of(c.E, c.st, c.a[1])
        ok = Select(c.E.W.mdom(a), k)
        out = []
        for y, s in c.E.fork_on(c.st, [(ok, True), (Not(ok), False)]):
            out.append((s, Select(c.E.W.mval(a), k)) if y else c.panic(s, 'key not found'))
        return out
    if not (isz(i) and z3.is_int(i)):
        raise Unsupported('index by range')
    n = c.E.W.vlen(a)
    ok = z3.simplify(i < n)
    out = []
    for y, s in c.E.fork_on(c.st, [(ok, True), (z3.simplify(Not(ok)), False)]):
        if not y:
            out.append(c.panic(s, 'index out of bounds'))
        elif c.name == 'IndexMut::index_mut' or has_cell(c.E, c.dty):
            p = place_of(c.E, s, c.a[0])
            out.append((s, RefV(p.root, p.proj + (('i', i),))))
        else:
            out.append((s, c.E.nav(s, a, ('i', i))))
    return out


# ---- vectors

@model('Vec::new', 'Vec::with_capacity', 'Default::default')
def _(c):
    t = vt_any(c.dty)
    if is_vecty(t):
        return c.ret(CVec(elem_ty(t), []))
    if is_adt(t, 'HashSet'):
        return c.ret(z3.K(c.E.W.sort(targs(t)[0]), FALSE))
    if is_adt(t, 'HashMap'):
        return c.ret(new_map(c.E, t))
    if t['k'] == 'bool':
        return c.ret(FALSE)
    if t['k'] == 'int':
        return c.ret(z3.IntVal(0))
    if t['k'] == 'float':
        return c.ret(z3.RealVal(0))
    if is_adt(t, 'Option'):
        return c.ret(opt(c.E, c.st, c.dty))
    raise Unsupported('default of ' + tstr(t))


@model('Vec::len', 'slice::len', 'HashSet::len', 'HashMap::len')
def _(c):
    v = c.v(0)
    if isinstance(v, It):
        raise Unsupported('len of iterator')
    if isinstance(v, CVec) or (isz(v) and c.E.is_vec(v)):
        return c.ret(c.E.W.vlen(v))
    d = v if v.sort().kind() == z3.Z3_ARRAY_SORT else c.E.W.mdom(v)
    return c.ret(card(c.E, c.st, d))


def card(E, st, d):
    f = E.W.fn('card_' + str(d.sort()), d.sort(), z3.IntSort())
    n = f(d)
    E.export(st, [], And(n >= 0, (n == 0) == Eq(d, empty_set(d))))
    if z3.is_store(d):
        base, k, v = d.arg(0), d.arg(1), d.arg(2)
        m = f(base)
        b = Select(base, k)
        E.export(st, [], And(m >= 0, (m == 0) == Eq(base, empty_set(base)),
                         n == m + If(v, If(b, z3.IntVal(0), z3.IntVal(1)), If(b, z3.IntVal(-1), z3.IntVal(0)))))
    return n


@model('Vec::is_empty', 'slice::is_empty', 'HashSet::is_empty', 'HashMap::is_empty')
def _(c):
    v = c.v(0)
    if isinstance(v, CVec) or (isz(v) and c.E.is_vec(v)):
        n = c.E.W.vlen(v)
        r = c.E.sm(n == 0)
        if z3.is_int_value(n):
            r = z3.BoolVal(n.as_long() == 0)
        return c.ret(r)
    d = v if v.sort().kind() == z3.Z3_ARRAY_SORT else c.E.W.mdom(v)
    return c.ret(Eq(d, empty_set(d)))


@model('Vec::push', 'VecDeque::push_back')
def _(c):
    v = c.v(0)
    c.set(0, vec_push(c.E, c.st, v, c.a[1]))
    return c.unit()


@model('Vec::pop', 'VecDeque::pop_back')
def _(c):
    v = c.v(0)
    if isinstance(v, CVec):
        if not v.items:
            return c.ret(opt(c.E, c.st, c.dty))
        c.set(0, CVec(v.ty, v.items[:-1]))
        return c.ret(opt(c.E, c.st, c.dty, v.items[-1]))
    n = c.E.W.vlen(v)
    e = c.E.sm(n == 0)
    out = []
    for empty, s in c.E.fork_on(c.st, [(e, True), (Not(e), False)]):
        if empty:
            out.append((s, opt(c.E, s, c.dty)))
        else:
            s.fact(n > 0)
            x = c.E.W.vat(v, c.E.sm(n - 1))
            c.set(0, vec_del(c.E, s, v, c.E.sm(n - 1)), s)
            out.append((s, opt(c.E, s, c.dty, x)))
    return out


@model('Vec::remove', 'Vec::swap_remove')
def _(c):
    v = c.v(0)
    i = c.v(1)
    n = c.E.W.vlen(v)
    ok = z3.simplify(i < n)
    out = []
    for y, s in c.E.fork_on(c.st, [(ok, True), (z3.simplify(Not(ok)), False)]):
        if not y:
            out.append(c.panic(s, 'removal index out of bounds'))
            continue
        x = c.E.nav(s, v, ('i', i))
        if c.name == 'Vec::remove':
            c.set(0, vec_del(c.E, s, v, i), s)
        else:
            raise Unsupported('swap_remove')
        out.append((s, x))
    return out


@model('VecDeque::pop_front')
def _(c):
    raise Unsupported('deque')


@model('Vec::insert')
def _(c):
    v = c.v(0)
    i = c.v(1)
    n = c.E.W.vlen(v)
    ok = z3.simplify(i <= n)
    out = []
    for y, s in c.E.fork_on(c.st, [(ok, True), (z3.simplify(Not(ok)), False)]):
        if not y:
            out.append(c.panic(s, 'insertion index out of bounds'))
            continue
        c.set(0, vec_ins(c.E, s, v, i, c.a[2]), s)
        out.append((s, unit(c.E, s)))
    return out


@model('Vec::append')
def _(c):
    a, b = c.v(0), c.v(1)
    r = vec_append(c.E, c.st, a, b)
    et = b.ty if isinstance(b, CVec) else elem_ty(c.E.W.type_of(b))
    c.set(0, r)
    c.set(1, CVec(et, []))
    return c.unit()


@model('Vec::extend_from_slice')
def _(c):
    c.set(0, vec_append(c.E, c.st, c.v(0), c.v(1)))
    return c.unit()


@model('Vec::clear', 'HashSet::clear', 'HashMap::clear')
def _(c):
    v = c.v(0)
    t = vt_any(c.at[0])
    if is_vecty(t):
        c.set(0, CVec(elem_ty(t), []))
    elif is_adt(t, 'HashSet'):
        c.set(0, empty_set(v))
    else:
        c.set(0, new_map(c.E, t))
    return c.unit()


@model('slice::get')
def _(c):
    i = c.v(1)
    if not (isz(i) and z3.is_int(i)):
        raise Unsupported('get by range')
    return vec_get(c.E, c.st, c.v(0), i, c.dty)


@model('slice::first')
def _(c):
    return vec_get(c.E, c.st, c.v(0), z3.IntVal(0), c.dty)


@model('slice::last')
def _(c):
    v = c.v(0)
    n = c.E.W.vlen(v)
    if isinstance(v, CVec):
        return vec_get(c.E, c.st, v, z3.IntVal(len(v.items) - 1) if v.items else z3.IntVal(0), c.dty)
    t = vt(c.dty)
    W = c.E.W
    return c.ret(If(c.E.sm(n > 0), W.some(t, W.vat(v, c.E.sm(n - 1))), W.none(t)))


@model('slice::contains', 'Vec::contains')
def _(c):
    v = c.v(0)
    t = vt_any(c.at[0])
    et = elem_ty(t)
    if c.E.mode == 'exact' and c.E.W.is_data(et) and not is_adt(vt(et), 'Triangle'):
        vv = c.E.to_z3(c.st, v)
        return c.ret(c.E.mem(vv, c.z(1)))
    it = mk_iter(c.E, c.st, v, t)
    if it.kind != 'list':
        raise Unsupported('contains')
    r = []
    for g, x in it.items:
        rs = c.E.eq_values(c.st, et, x, c.a[1])
        if len(rs) != 1:
            raise Unsupported('branching contains')
        r.append(rs[0][1])
    return c.ret(Or(*r))


@model('slice::sort_by', 'slice::sort_unstable_by')
def _(c):
    E, st, W = c.E, c.st, c.E.W
    v = c.v(0)
    et = elem_ty(vt_any(c.at[0]))
    v = E.to_z3(st, v)
    r = E.fresh('sorted', v.sort())
    st.fact(W.vlen(r) == W.vlen(v))
    bag_fact(E, st, r, E.bag(v))
    # the comparator on arbitrary elements of the slice
    es = W.sort(et)
    x, y = E.bvar('sx', es), E.bvar('sy', es)
    mem = And(E.mem(v, x), E.mem(v, y))
    o = E.pure(st, c.a[1], [x, y], [x, y], mem)
    t = W.type_of(o)
    L, Q, G = [W.mk(t, i, []) for i in range(3)]
    z = E.bvar('sz', es)

    def cmp(a, b):
        return subst(o, [(x, E_(a)), (y, E_(b))])

    def E_(a):
        return a
    le = lambda a, b: Not(Eq(cmp(a, b), G))
    memz = And(E.mem(v, x), E.mem(v, y), E.mem(v, z))
    if E.collect:
        xs = [E.fresh('s' + n, es) for n in 'abc']
        s2 = st.fork()
        s2.fact(And(*[E.mem(v, q) for q in xs]))
        a, b, d = xs
        E.oblige(s2, 'sort: comparator antisymmetric', And(Eq(cmp(a, b), L) == Eq(cmp(b, a), G)))
        E.oblige(s2, 'sort: comparator transitive', Implies(And(le(a, b), le(b, d)), le(a, d)))
    i, j = E.bvar('i', z3.IntSort()), E.bvar('j', z3.IntSort())
    st.fact(ForAll([i, j], Implies(And(0 <= i, i < j, j < W.vlen(r)), le(W.vat(r, i), W.vat(r, j))),
                   pats=[z3.MultiPattern(W.vat(r, i), W.vat(r, j))]))
    c.set(0, r)
    return c.unit()


@model('slice::reverse')
def _(c):
    E, W = c.E, c.E.W
    v = c.v(0)
    if isinstance(v, CVec):
        c.set(0, CVec(v.ty, v.items[::-1]))
        return c.unit()
    r = E.fresh('rev', v.sort())
    n = W.vlen(v)
    j = E.bvar('j', z3.IntSort())
    c.st.fact(W.vlen(r) == n)
    c.st.fact(ForAll([j], W.vat(r, j) == W.vat(v, n - 1 - j), pats=[W.vat(r, j)]))
    bag_fact(E, c.st, r, E.bag(v))
    c.set(0, r)
    return c.unit()


# ---- sets and maps

@model('HashSet::new', 'HashSet::with_capacity')
def _(c):
    return c.ret(z3.K(c.E.W.sort(targs(vt_any(c.dty))[0]), FALSE))


@model('HashMap::new', 'HashMap::with_capacity')
def _(c):
    return c.ret(new_map(c.E, vt_any(c.dty)))


@model('HashSet::contains')
def _(c):
    return c.ret(Select(c.v(0), key_of(c.E, c.st, c.a[1])))


@model('HashSet::insert')
def _(c):
    S = c.v(0)
    k = key_of(c.E, c.st, c.a[1])
    c.set(0, z3.Store(S, k, TRUE))
    return c.ret(Not(Select(S, k)))


@model('HashSet::remove')
def _(c):
    S = c.v(0)
    k = key_of(c.E, c.st, c.a[1])
    c.set(0, z3.Store(S, k, FALSE))
    return c.ret(Select(S, k))


@model('HashSet::take', 'HashSet::get')
def _(c):
    E = c.E
    S = c.v(0)
    k = key_of(E, c.st, c.a[1])
    if c.name == 'HashSet::take':
        c.set(0, z3.Store(S, k, FALSE))
    rep = k
    t = E.W.type_of(k)
    if E.mode == 'exact' and is_adt(t, 'Triangle'):
        rep = E.fresh('rep', k.sort())
        c.st.fact(E.W.canon(rep) == E.W.canon(k))
    ot = vt(c.dty)
    return c.ret(If(Select(S, k), E.W.some(ot, rep), E.W.none(ot)))


@model('HashMap::contains_key')
def _(c):
    return c.ret(Select(c.E.W.mdom(c.v(0)), key_of(c.E, c.st, c.a[1])))


@model('HashMap::get')
def _(c):
    E, W = c.E, c.E.W
    m = c.v(0)
    k = key_of(E, c.st, c.a[1])
    ok = Select(W.mdom(m), k)
    if W.is_data(c.dty):
        t = vt(c.dty)
        x = Select(W.mval(m), k)
        for f in E.wf_facts(W.type_of(x), x):
            E.export(c.st, [], f)
        return c.ret(If(ok, W.some(t, x), W.none(t)))
    p = c.place(0)
    out = []
    for y, s in E.fork_on(c.st, [(ok, True), (Not(ok), False)]):
        out.append((s, St(vt(c.dty), [RefV(p.root, p.proj + (('m', k),))], 1) if y else St(vt(c.dty), [], 0)))
    return out


@model('HashMap::get_mut')
def _(c):
    E, W = c.E, c.E.W
    m = c.v(0)
    k = key_of(E, c.st, c.a[1])
    ok = Select(W.mdom(m), k)
    p = c.place(0)
    out = []
    for y, s in E.fork_on(c.st, [(ok, True), (Not(ok), False)]):
        out.append((s, St(vt(c.dty), [RefV(p.root, p.proj + (('m', k),))], 1) if y else St(vt(c.dty), [], 0)))
    return out


def map_put(E, st, m, k, v):
    W = E.W
    return W.mkmap(m.sort(), z3.Store(W.mdom(m), k, TRUE), z3.Store(W.mval(m), k, E.to_z3(st, E.snapshot(st, v))))


@model('HashMap::insert')
def _(c):
    E, W = c.E, c.E.W
    m = c.v(0)
    k = key_of(E, c.st, c.a[1])
    old = None
    if W.is_data(c.dty):
        t = vt(c.dty)
        old = If(Select(W.mdom(m), k), W.some(t, Select(W.mval(m), k)), W.none(t))
    else:
        old = Opaque('old value')
    c.set(0, map_put(E, c.st, m, k, c.a[2]))
    return c.ret(old)


@model('HashMap::remove')
def _(c):
    E, W = c.E, c.E.W
    m = c.v(0)
    k = key_of(E, c.st, c.a[1])
    ok = Select(W.mdom(m), k)
    x = Select(W.mval(m), k)
    if W.is_data(c.dty):
        t = vt(c.dty)
        old = If(ok, W.some(t, x), W.none(t))
        for f in E.wf_facts(W.type_of(x), x):
            E.export(c.st, [], f)
    else:
        old = Opaque('old value')
    c.set(0, W.mkmap(m.sort(), z3.Store(W.mdom(m), k, FALSE), W.mval(m)))
    return c.ret(old)


@model('HashMap::entry')
def _(c):
    return c.ret(St({'k': 'tuple', 'ts': [c.at[0], c.at[1]]}, [c.place(0), c.E.snapshot(c.st, c.a[1])]))


@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default')
def _(c):
    E, W = c.E, c.E.W
    e = c.v(0)
    p, key = e.fields
    m = E.rd(c.st, p.root, p.proj)
    k = W.key(E.to_z3(c.st, key))
    ok = Select(W.mdom(m), k)
    out = []
    for y, s in E.fork_on(c.st, [(ok, True), (Not(ok), False)]):
        if not y:
            if c.name == 'Entry::or_insert':
                d = c.a[1]
            elif c.name == 'Entry::or_insert_with':
                d = E.pure(s, c.a[1], [])
            else:
                vty = vt_any(c.dty)
                d = M['Default::default'](C(E, s, c.g, [], [], vty, c.line, 'Default::default'))[0][1]
            E.wr(s, p.root, p.proj, map_put(E, s, E.rd(s, p.root, p.proj), k, d))
        out.append((s, RefV(p.root, p.proj + (('m', k),))))
    return out


@model('slice::iter', 'HashSet::iter', 'HashMap::iter', 'IntoIterator::into_iter', 'Vec::drain_all')
def _(c):
    v = c.a[0]
    w = c.E.deref(c.st, v)
    if c.name == 'IntoIterator::into_iter':
        if isinstance(w, It):
            # by value, or `for x in &mut it`
            if isinstance(v, RefV):
                return c.ret(v)
            return c.ret(w)
        if isz(w) and is_adt(c.E.W.type_of(w), 'Range'):
            return c.ret(w)
    t = vt_any(c.at[0]) if c.at[0] is not None else None
    if t is not None and is_adt(t, 'HashMap') and not c.E.W.is_data(t):
        raise Unsupported('iteration over cells')
    return c.ret(mk_iter(c.E, c.st, v, t))


@model('HashMap::keys', 'HashMap::into_keys')
def _(c):
    return c.ret(map_iter(c.E, c.st, c.v(0), 'keys'))


@model('HashMap::values', 'HashMap::into_values')
def _(c):
    return c.ret(map_iter(c.E, c.st, c.v(0), 'values'))


@model('HashSet::union', 'HashSet::difference', 'HashSet::intersection')
def _(c):
    a, b = c.v(0), c.v(1)
    k = c.E.bvar('k', a.sort().domain())
    f = rep_fn(c.E, c.st, a.sort().domain(), None)
    x, y = Select(a, k), Select(b, k)
    g = {'union': Or(x, y), 'difference': And(x, Not(y)), 'intersection': And(x, y)}[c.name.split('::')[1]]
    return c.ret(It('comp', set_elem_ty(c.E, a), comps=[Comp([k], g, f(k), [k])]))


@model('HashSet::is_subset', 'HashSet::is_disjoint', 'HashSet::is_superset')
def _(c):
    a, b = c.v(0), c.v(1)
    k = c.E.bvar('k', a.sort().domain())
    x, y = Select(a, k), Select(b, k)
    p = {'is_subset': Implies(x, y), 'is_superset': Implies(y, x), 'is_disjoint': Not(And(x, y))}[c.name.split('::')[1]]
    return forked_forall(c, [k], p)


def forked_forall(c, bs, p):
    s = c.st.fork()
    ws = [c.E.fresh('w', b.sort()) for b in bs]
    s.branch(Not(sub(p, list(zip(bs, ws)))))
    out = []
    if c.E.S.ground_feasible(s):
        out.append((s, FALSE))
    c.st.branch(ForAll(bs, p))
    if c.E.S.ground_feasible(c.st):
        out.append((c.st, TRUE))
    return out


@model('HashSet::retain')
def _(c):
    E = c.E
    it = mk_iter(E, c.st, c.v(0), None)
    r = it_filter(E, c.st, it, c.a[1])
    c.set(0, collect_set(E, c.st, r, c.v(0).sort().domain()))
    return c.unit()


@model('Vec::retain')
def _(c):
    E = c.E
    v = c.v(0)
    t = vt_any(c.at[0])
    it = mk_iter(E, c.st, v, None)
    r = it_filter(E, c.st, it, c.a[1])
    c.set(0, collect_vec(E, c.st, r, elem_ty(t)))
    return c.unit()


@model('Extend::extend')
def _(c):
    E, W = c.E, c.E.W
    v = c.v(0)
    t = vt_any(c.at[0])
    it = mk_iter(E, c.st, c.a[1], c.at[1])
    if is_vecty(t):
        r = collect_vec(E, c.st, it, elem_ty(t))
        c.set(0, vec_append(E, c.st, v, r))
        return c.unit()
    if is_adt(t, 'HashSet'):
        base = mk_iter(E, c.st, v, None)
        if list_of(it):
            s = v
            for g, x in it.items[it.k:]:
                s = z3.Store(s, key_of(E, c.st, x), TRUE)
            c.set(0, s)
        else:
            c.set(0, collect_set(E, c.st, it_chain(E, c.st, base, it), v.sort().domain()))
        return c.unit()
    raise Unsupported('extend')


@model('RangeInclusive::new')
def _(c):
    lo, hi = c.v(0), c.v(1)
    i = c.E.bvar('i', z3.IntSort())
    n = z3.simplify(If(hi >= lo, hi - lo + 1, z3.IntVal(0)))
    if z3.is_int_value(n) and n.as_long() <= 12:
        return c.ret(It('list', USZ, items=[(TRUE, c.E.sm(lo + j)) for j in range(n.as_long())], k=0))
    return c.ret(It('seq', USZ, n=n, ivar=i, elem=z3.simplify(lo + i), k=z3.IntVal(0)))


# ---- iterators

def iter_arg(c, i):
    return mk_iter(c.E, c.st, c.a[i], c.at[i])


@model('Iterator::next', 'DoubleEndedIterator::next')
def _(c):
    return it_next(c.E, c.st, c.a[0], c.dty)


@model('Iterator::cloned', 'Iterator::copied', 'Iterator::by_ref', 'Iterator::fuse', 'Iterator::into_iter')
def _(c):
    return c.ret(iter_arg(c, 0))


@model('Iterator::map')
def _(c):
    return c.ret(it_map(c.E, c.st, iter_arg(c, 0), c.a[1], None))


@model('Iterator::filter')
def _(c):
    return c.ret(it_filter(c.E, c.st, iter_arg(c, 0), c.a[1]))


@model('Iterator::filter_map')
def _(c):
    return c.ret(it_filter_map(c.E, c.st, iter_arg(c, 0), c.a[1], None))


@model('Iterator::flatten')
def _(c):
    return c.ret(it_flatten(c.E, c.st, iter_arg(c, 0), None))


@model('Iterator::flat_map')
def _(c):
    m = it_map(c.E, c.st, iter_arg(c, 0), c.a[1], None)
    return c.ret(it_flatten(c.E, c.st, m, None))


@model('Iterator::chain')
def _(c):
    return c.ret(it_chain(c.E, c.st, iter_arg(c, 0), mk_iter(c.E, c.st, c.a[1], c.at[1])))


@model('Iterator::rev')
def _(c):
    it = iter_arg(c, 0)
    if it.kind == 'list':
        return c.ret(It('list', it.ety, items=it.items[it.k:][::-1], k=0))
    if it.kind == 'seq':
        if not (z3.is_int_value(it.k) and it.k.as_long() == 0):
            raise Unsupported('rev of a partly consumed iterator')
        return c.ret(it.copy(elem=sub(it.elem, [(it.ivar, it.n - 1 - it.ivar)]), src=None))
    return c.ret(it)


@model('Iterator::enumerate')
def _(c):
    it = iter_arg(c, 0)
    W = c.E.W

    def tup(i, x):
        if isz(x):
            ty = {'k': 'tuple', 'ts': [USZ, W.type_of(x)]}
            return W.mk(ty, 0, [i, x])
        return St({'k': 'tuple', 'ts': [USZ, it.ety]}, [i, x])
    if list_of(it):
        return c.ret(It('list', None, items=[(TRUE, tup(z3.IntVal(n), x)) for n, (g, x) in enumerate(it.items[it.k:])], k=0))
    if it.kind == 'seq':
        return c.ret(it.copy(elem=tup(it.ivar - it.k if not (z3.is_int_value(it.k) and it.k.as_long() == 0) else it.ivar, it.elem), src=None))
    raise Unsupported('enumerate')


@model('Iterator::zip')
def _(c):
    a = iter_arg(c, 0)
    b = mk_iter(c.E, c.st, c.a[1], c.at[1])
    W = c.E.W

    def tup(x, y):
        if isz(x) and isz(y):
            return W.mk({'k': 'tuple', 'ts': [W.type_of(x), W.type_of(y)]}, 0, [x, y])
        return St({'k': 'tuple', 'ts': [a.ety, b.ety]}, [x, y])
    if list_of(a) and list_of(b):
        return c.ret(It('list', None, items=[(TRUE, tup(x[1], y[1])) for x, y in zip(a.items[a.k:], b.items[b.k:])], k=0))
    if a.kind == 'seq' and b.kind == 'seq':
        na, nb = z3.simplify(a.n - a.k), z3.simplify(b.n - b.k)
        i = c.E.bvar('i', z3.IntSort())
        return c.ret(It('seq', None, n=If(na <= nb, na, nb), ivar=i, k=z3.IntVal(0),
                        elem=tup(sub(a.elem, [(a.ivar, z3.simplify(i + a.k))]), sub(b.elem, [(b.ivar, z3.simplify(i + b.k))]))))
    raise Unsupported('zip')


@model('Iterator::skip', 'Iterator::take')
def _(c):
    it = iter_arg(c, 0)
    n = c.v(1)
    if list_of(it) and z3.is_int_value(n):
        xs = it.items[it.k:]
        return c.ret(It('list', it.ety, items=xs[n.as_long():] if c.name.endswith('skip') else xs[:n.as_long()], k=0))
    if it.kind == 'seq':
        if c.name.endswith('skip'):
            return c.ret(it.copy(k=z3.simplify(If(it.k + n <= it.n, it.k + n, it.n))))
        return c.ret(it.copy(n=If(it.k + n <= it.n, it.k + n, it.n), src=None))
    raise Unsupported(c.name)


@model('Iterator::step_by')
def _(c):
    it = iter_arg(c, 0)
    n = c.v(1)
    if not z3.is_int_value(n):
        raise Unsupported('step_by')
    q = n.as_long()
    if list_of(it):
        return c.ret(It('list', it.ety, items=it.items[it.k:][::q], k=0))
    if it.kind == 'seq':
        m = (it.n - it.k + (q - 1)) / z3.IntVal(q)
        return c.ret(it.copy(n=z3.simplify(If(it.n >= it.k, m, z3.IntVal(0))), k=z3.IntVal(0), elem=sub(it.elem, [(it.ivar, z3.simplify(it.k + q * it.ivar))]), src=None))
    raise Unsupported('step_by')


@model('Iterator::collect', 'FromIterator::from_iter')
def _(c):
    return c.ret(collect(c.E, c.st, iter_arg(c, 0), c.dty))


@model('Iterator::find')
def _(c):
    p = place_of(c.E, c.st, c.a[0])
    it = iter_arg(c, 0)
    return [(s, opt(c.E, s, c.dty, x)) for s, i, x in it_select(c.E, c.st, it, c.a[1])]


@model('Iterator::find_map')
def _(c):
    it = it_filter_map(c.E, c.st, iter_arg(c, 0), c.a[1], None)
    return [(s, opt(c.E, s, c.dty, x)) for s, i, x in it_select(c.E, c.st, it, None)]


@model('Iterator::position')
def _(c):
    it = iter_arg(c, 0)
    return [(s, opt(c.E, s, c.dty, i)) for s, i, x in it_select(c.E, c.st, it, c.a[1], position=True)]


@model('Iterator::any', 'Iterator::all')
def _(c):
    it = iter_arg(c, 0)
    E = c.E
    if it.kind == 'list':
        ps = [And(g, E.pure(c.st, c.a[1], [x], guard=g)) if c.name.endswith('any') else Implies(g, E.pure(c.st, c.a[1], [x], guard=g))
              for g, x in it.items[it.k:]]
        return c.ret(Or(*ps) if c.name.endswith('any') else And(*ps))
    cs = remaining(E, it)
    st = c.st
    ps = [E.pure(st, c.a[1], [d.elem], d.binders, d.guard) for d in cs]
    hit = c.name.endswith('any')
    out = []
    for d, p in zip(cs, ps):
        s = st.fork()
        bs = [E.fresh('x', b.sort()) for b in d.binders]
        pr = list(zip(d.binders, bs))
        s.branch(sub(d.guard, pr))
        s.branch(sub(p, pr) if hit else Not(sub(p, pr)))
        if E.S.ground_feasible(s):
            out.append((s, z3.BoolVal(hit)))
    for d, p in zip(cs, ps):
        st.branch(ForAll(d.binders, Implies(d.guard, Not(p) if hit else p)))
    if E.S.ground_feasible(st):
        out.append((st, z3.BoolVal(not hit)))
    return out


@model('Iterator::count')
def _(c):
    it = iter_arg(c, 0)
    if it.kind == 'list':
        r = z3.IntVal(0)
        for g, x in it.items[it.k:]:
            r = r + If(g, z3.IntVal(1), z3.IntVal(0))
        return c.ret(z3.simplify(r))
    if it.kind == 'seq':
        return c.ret(z3.simplify(it.n - it.k))
    n = c.E.fresh('count', z3.IntSort())
    c.st.fact(n >= 0)
    for d in remaining(c.E, it):
        c.st.fact(Implies(n == 0, ForAll(d.binders, Not(d.guard))))
    return c.ret(n)


@model('Iterator::last')
def _(c):
    it = iter_arg(c, 0)
    if list_of(it):
        xs = it.items[it.k:]
        return c.ret(opt(c.E, c.st, c.dty, xs[-1][1] if xs else None))
    if it.kind == 'seq':
        ok = z3.simplify(it.k < it.n)
        return [(s, opt(c.E, s, c.dty, sub(it.elem, [(it.ivar, z3.simplify(it.n - 1))]) if y else None))
                for y, s in c.E.fork_on(c.st, [(ok, True), (Not(ok), False)])]
    raise Unsupported('last')


@model('Iterator::nth')
def _(c):
    p = c.place(0)
    it = c.v(0)
    n = c.v(1)
    if isinstance(it, It) and list_of(it) and z3.is_int_value(n):
        xs = it.items[it.k:]
        k = n.as_long()
        c.E.wr(c.st, p.root, p.proj, it.copy(k=min(len(it.items), it.k + k + 1)))
        return c.ret(opt(c.E, c.st, c.dty, xs[k][1] if k < len(xs) else None))
    raise Unsupported('nth')


@model('Iterator::fold')
def _(c):
    E = c.E
    it = iter_arg(c, 0)
    acc = c.a[1]
    if it.kind == 'list':
        for g, x in it.items[it.k:]:
            v = E.pure(c.st, c.a[2], [acc, x], guard=g)
            acc = v if z3.is_true(g) else If(g, E.to_z3(c.st, v), E.to_z3(c.st, acc))
        return c.ret(acc)
    if it.kind != 'seq':
        raise Unsupported('fold over an unordered collection')
    acc = E.to_z3(c.st, acc)
    F = E.fresh_fn('fold', z3.IntSort(), acc.sort())
    i = it.ivar
    g = And(it.k <= i, i < it.n)
    v = E.to_z3(c.st, E.pure(c.st, c.a[2], [F(i), it.elem], [i], g))
    c.st.fact(F(it.k) == acc)
    c.st.fact(ForAll([i], Implies(g, F(i + 1) == v), pats=[F(i + 1)]))
    if E.cur_contract is not None and hasattr(E.cur_contract, 'fold') and not E.binders:
        # induction over the fold
        for name, P, defs in E.cur_contract.fold(E.cur_ctx, it, acc.sort()):
            try:
                j = E.fresh('j', z3.IntSort())
                hy = c.st.conj()
                ok = E.S.valid(hy + defs(it.k), P(it.k, acc)) == 'unsat'
                w = sub(v, [(i, j)])
                ok = ok and E.S.valid(hy + defs(j) + [it.k <= j, j < it.n, P(j, F(j))], P(j + 1, w)) == 'unsat'
            except (z3.Z3Exception, TypeError, AttributeError) as ex:
                ok = False
            if ok:
                E.inv_obls = getattr(E, 'inv_obls', 0) + 2
                m = If(it.n >= it.k, it.n, it.k)
                c.st.fact(P(m, F(m)))
            else:
                E.inv_dropped.append((E.cur, c.line, name, 'fold'))
    E.folds = getattr(E, 'folds', [])
    E.folds.append((F, it, acc, v))
    return c.ret(F(If(it.n >= it.k, it.n, it.k)))


@model('Iterator::sum')
def _(c):
    it = iter_arg(c, 0)
    if list_of(it):
        xs = [x for g, x in it.items[it.k:]]
        z = z3.RealVal(0) if vt(c.dty)['k'] == 'float' else z3.IntVal(0)
        return c.ret(sum(xs[1:], xs[0]) if xs else z)
    E = c.E
    if it.kind != 'seq':
        raise Unsupported('sum over an unordered collection')
    z = z3.RealVal(0) if vt(c.dty)['k'] == 'float' else z3.IntVal(0)
    F = E.fresh_fn('fold', z3.IntSort(), z.sort())
    i = it.ivar
    c.st.fact(F(it.k) == z)
    c.st.fact(ForAll([i], Implies(And(it.k <= i, i < it.n), F(i + 1) == F(i) + it.elem), pats=[F(i + 1)]))
    return c.ret(F(If(it.n >= it.k, it.n, it.k)))


@model('Iterator::peekable')
def _(c):
    raise Unsupported('peekable')


# ---- Option and Result

def bools(c, want):
    v = c.v(0)
    if isinstance(v, St):
        return c.ret(z3.BoolVal(v.variant == want))
    return c.ret(c.E.rec_variant(v, want))


@model('Option::is_some', 'Result::is_err')
def _(c):
    return bools(c, 1)


@model('Option::is_none', 'Result::is_ok')
def _(c):
    return bools(c, 0)


@model('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Option::unwrap_unchecked')
def _(c):
    good = 1 if c.name.startswith('Option') else 0
    out = []
    for s, k, x in split(c.E, c.st, c.a[0]):
        out.append((s, x) if k == good else c.panic(s, c.name))
    return out


@model('Result::unwrap_err', 'Result::expect_err')
def _(c):
    return [(s, x) if k == 1 else c.panic(s, c.name) for s, k, x in split(c.E, c.st, c.a[0])]


def clo_call(c, s, clo, args):
    outs = c.E.call_closure(s, clo, args)
    return outs


@model('Option::map', 'Option::and_then', 'Result::map', 'Result::map_err', 'Result::and_then', 'Option::map_or', 'Option::map_or_else',
       'Option::unwrap_or_else', 'Option::or_else', 'Option::ok_or_else', 'Option::filter', 'Option::is_some_and', 'Result::unwrap_or_else',
       'Option::is_none_or', 'Result::is_ok_and', 'Result::or_else')
def _(c):
    E = c.E
    n = c.name
    out = []
    isopt = n.startswith('Option')
    good = 1 if isopt else 0
    m = n.split('::')[1]
    v = c.a[0]
    if isinstance(v, RefV):
        v = E.deref(c.st, v)

    def run(s, clo, args, wrap):
        for o in clo_call(c, s, clo, args):
            if o.kind == 'ret':
                out.append((o.st, wrap(o.st, o.val)))
            else:
                out.append(o)
    ident = lambda s, x: x
    for s, k, x in split(E, c.st, v):
        ok = k == good
        if m == 'map':
            if ok:
                run(s, c.a[1], [x], lambda s, y: E.mkadt(s, c.dty, good, [y]))
            else:
                out.append((s, E.mkadt(s, c.dty, k, [x] if x is not None else [])))
        elif m == 'map_err':
            if ok:
                out.append((s, E.mkadt(s, c.dty, 0, [x])))
            else:
                run(s, c.a[1], [x], lambda s, y: E.mkadt(s, c.dty, 1, [y]))
        elif m == 'and_then':
            if ok:
                run(s, c.a[1], [x], ident)
            else:
                out.append((s, E.mkadt(s, c.dty, k, [x] if x is not None else [])))
        elif m == 'map_or':
            if ok:
                run(s, c.a[2], [x], ident)
            else:
                out.append((s, c.a[1]))
        elif m == 'map_or_else':
            if ok:
                run(s, c.a[2], [x], ident)
            else:
                run(s, c.a[1], [], ident)
        elif m == 'unwrap_or_else':
            if ok:
                out.append((s, x))
            else:
                run(s, c.a[1], [] if isopt else [x], ident)
        elif m == 'or_else':
            if ok:
                out.append((s, E.mkadt(s, c.dty, k, [x])))
            else:
                run(s, c.a[1], [] if isopt else [x], ident)
        elif m == 'ok_or_else':
            if ok:
                out.append((s, E.mkadt(s, c.dty, 0, [x])))
            else:
                run(s, c.a[1], [], lambda s, y: E.mkadt(s, c.dty, 1, [y]))
        elif m == 'filter':
            if ok:
                for o in clo_call(c, s, c.a[1], [x]):
                    if o.kind != 'ret':
                        out.append(o)
                        continue
                    for y, s2 in E.fork_on(o.st, [(o.val, True), (Not(o.val), False)]):
                        out.append((s2, opt(E, s2, c.dty, x if y else None)))
            else:
                out.append((s, opt(E, s, c.dty)))
        elif m in ('is_some_and', 'is_ok_and'):
            if ok:
                run(s, c.a[1], [x], ident)
            else:
                out.append((s, FALSE))
        elif m == 'is_none_or':
            if ok:
                run(s, c.a[1], [x], ident)
            else:
                out.append((s, TRUE))
    return out


@model('Option::unwrap_or', 'Result::unwrap_or')
def _(c):
    good = 1 if c.name.startswith('Option') else 0
    return [(s, x if k == good else c.a[1]) for s, k, x in split(c.E, c.st, c.a[0])]


@model('Option::unwrap_or_default')
def _(c):
    out = []
    for s, k, x in split(c.E, c.st, c.a[0]):
        if k == 1:
            out.append((s, x))
        else:
            out += M['Default::default'](C(c.E, s, c.g, [], [], c.dty, c.line, 'Default::default'))
    return out


@model('Option::or')
def _(c):
    return [(s, opt(c.E, s, c.dty, x) if k == 1 else c.a[1]) for s, k, x in split(c.E, c.st, c.a[0])]


@model('Option::ok_or')
def _(c):
    return [(s, c.E.mkadt(s, c.dty, 0, [x]) if k == 1 else c.E.mkadt(s, c.dty, 1, [c.a[1]])) for s, k, x in split(c.E, c.st, c.a[0])]


@model('Result::ok')
def _(c):
    return [(s, opt(c.E, s, c.dty, x if k == 0 else None)) for s, k, x in split(c.E, c.st, c.a[0])]


@model('Result::err')
def _(c):
    return [(s, opt(c.E, s, c.dty, x if k == 1 else None)) for s, k, x in split(c.E, c.st, c.a[0])]


@model('Option::take', 'mem::take')
def _(c):
    v = c.v(0)
    t = vt_any(c.at[0])
    d = M['Default::default'](C(c.E, c.st, c.g, [], [], t, c.line, 'Default::default'))[0][1]
    c.set(0, d)
    return c.ret(v)


@model('mem::replace')
def _(c):
    v = c.v(0)
    c.set(0, c.a[1])
    return c.ret(v)


@model('mem::swap')
def _(c):
    a, b = c.v(0), c.v(1)
    c.set(0, b)
    c.set(1, a)
    return c.unit()


@model('mem::drop')
def _(c):
    return c.unit()


@model('Try::branch')
def _(c):
    # ControlFlow::Continue(x) = 0, Break(residual) = 1
    t = vt_any(c.at[0])
    good = 1 if is_adt(t, 'Option') else 0
    out = []
    for s, k, x in split(c.E, c.st, c.a[0]):
        if k == good:
            out.append((s, c.E.mkadt(s, c.dty, 0, [x])))
        else:
            rt = targs(vt_any(c.dty))[0]
            r = St(rt, [x] if x is not None else [], k)
            out.append((s, St(vt_any(c.dty), [r], 1)))
    return out


@model('FromResidual::from_residual')
def _(c):
    v = c.v(0)
    if isinstance(v, St):
        return c.ret(c.E.mkadt(c.st, c.dty, v.variant, v.fields))
    raise Unsupported('residual')


# ---- strings, hashing, misc

@model('ToString::to_string', 'str::to_string', 'str::to_owned')
def _(c):
    v = c.v(0)
    if isz(v) and v.sort() == z3.StringSort():
        return c.ret(v)
    return c.ret(c.E.fresh('string', z3.StringSort()))


@model('Float::integer_decode')
def _(c):
    # an injective encoding of the bits, up to the sign of zero
    x = c.v(0)
    W = c.E.W
    m = W.fn('mantissa', z3.RealSort(), z3.IntSort())(x)
    e = W.fn('exponent', z3.RealSort(), z3.IntSort())(x)
    sg = W.fn('signbit', z3.RealSort(), z3.IntSort())(x)
    return c.ret(c.E.mkadt(c.st, c.dty, 0, [m, e, sg]))


def hash_into(E, st, p, v):
    h = E.rd(st, p.root, p.proj)
    if not isz(h):
        h = E.fresh('hasher', z3.IntSort())
    f = E.W.fn('mix_' + str(v.sort()), z3.IntSort(), v.sort(), z3.IntSort())
    E.wr(st, p.root, p.proj, f(h, v))


@model('Hash::hash', 'Hasher::write_u64', 'Hasher::write_u8', 'Hasher::write_usize')
def _(c):
    if c.name == 'Hash::hash':
        v, p = c.a[0], c.place(1)
    else:
        v, p = c.a[1], c.place(0)
    t = vt_any(c.at[0 if c.name == 'Hash::hash' else 1])
    E = c.E
    f = E.P.impl_of(t, 'std::hash::Hash', 'hash') if t['k'] == 'adt' else None
    if f is not None:
        return [(o.st, o.val) if o.kind == 'ret' else o for o in E.call_local(c.st, f, [v, p])]
    x = E.to_z3(c.st, E.snapshot(c.st, E.deref(c.st, v)))
    hash_into(E, c.st, p, x)
    return c.unit()


@model('Formatter::write_fmt', 'Formatter::write_str', 'Arguments::new', 'Arguments::from_str', 'Argument::new_display', 'Argument::new_debug',
       'io::_print', 'io::_eprint', 'fmt::format', 'Arguments::new_v1', 'Arguments::new_const')
def _(c):
    if c.name.startswith('io::'):
        return c.unit()
    return c.ret(Opaque('fmt'))


@model('usize::wrapping_add', 'u64::wrapping_add', 'u64::wrapping_mul', 'usize::saturating_sub', 'usize::checked_sub', 'usize::pow', 'usize::min')
def _(c):
    a, b = c.v(0), c.v(1)
    if c.name == 'usize::saturating_sub':
        return c.ret(z3.simplify(If(a >= b, a - b, z3.IntVal(0))))
    if c.name == 'usize::checked_sub':
        t = vt(c.dty)
        return c.ret(If(a >= b, c.E.W.some(t, a - b), c.E.W.none(t)))
    if c.name.endswith('wrapping_add'):
        return c.ret((a + b) % z3.IntVal(2 ** 64))
    raise Unsupported(c.name)


@model('rt::begin_panic', 'panicking::panic', 'panicking::panic_fmt', 'rt::begin_panic_fmt', 'panicking::panic_display', 'option::expect_failed',
       'panicking::unreachable_display', 'panicking::assert_failed')
def _(c):
    return [c.panic(c.st, 'panic')]


@model('DefaultHasher::new')
def _(c):
    return c.ret(z3.IntVal(0))


@model('Hasher::finish')
def _(c):
    return c.ret(c.v(0))
