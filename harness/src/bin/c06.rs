//! Edges and triangles over few vertices (ghosts included): sides, opposite corners, rings, pairs, the head-tail index; points on and near segments.
use nlsn_delaunay::elements::{edge::Edge, vertex::Vertex};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;
use vh::*;

fn main() {
    let mut r = Run::start();
    while r.more() {
        let pool: Vec<Rc<Vertex>> = (0..5).map(|i| if i == 4 { ghost() } else { vx((r.rng.int(-2, 2), r.rng.int(-2, 2))) }).collect();
        let n = 1 + r.rng.below(8);
        let es: Vec<(usize, usize)> = (0..n).map(|_| (r.rng.below(5), r.rng.below(5))).collect();
        let names: Vec<Id> = pool.iter().map(|v| id(v)).collect();
        let txt = format!("{:?} {:?}", pool.iter().map(|v| pt(v)).collect::<Vec<_>>(), es);
        r.case("head-tail index", txt.clone(), || {
            let set: HashSet<Rc<Edge>> = es.iter().map(|&(a, b)| edge(&pool[a], &pool[b])).collect();
            let (ht, th) = Edge::into_hashmap(&set);
            let mut h: BTreeMap<Id, BTreeSet<Id>> = BTreeMap::new();
            let mut t: BTreeMap<Id, BTreeSet<Id>> = BTreeMap::new();
            for &(a, b) in &es {
                h.entry(names[a]).or_default().insert(names[b]);
                t.entry(names[b]).or_default().insert(names[a]);
            }
            let f = |m: &std::collections::HashMap<Rc<Vertex>, std::cell::RefCell<HashSet<Rc<Vertex>>>>| -> BTreeMap<Id, BTreeSet<Id>> {
                m.iter().map(|(k, v)| (id(k), v.borrow().iter().map(|x| id(x)).collect())).collect()
            };
            if f(&ht) != h { return fail("head-tail", "heads to tails differ".into()); }
            if f(&th) != t { return fail("tail-head", "tails to heads differ".into()); }
            Ok(())
        });
        r.case("rings and pairs", txt.clone(), || {
            let vs: Vec<Rc<Vertex>> = es.iter().map(|&(a, _)| pool[a].clone()).collect();
            let e: Vec<_> = Edge::from_vertices(&vs).iter().map(|e| eid(e)).collect();
            let want: Vec<_> = (0..n).map(|i| (id(&vs[i]), id(&vs[(i + 1) % n]))).collect();
            if e != want { return fail("from_vertices", format!("{:?}", e)); }
            let list: Vec<Rc<Edge>> = es.iter().map(|&(a, b)| edge(&pool[a], &pool[b])).collect();
            let pairs = Edge::into_vertex_pairs(list.clone());
            let w: Vec<_> = es.iter().map(|&(a, b)| (names[a], names[b])).collect();
            if pairs.iter().map(|(a, b)| (id(a), id(b))).collect::<Vec<_>>() != w { return fail("into_vertex_pairs", "differs".into()); }
            if Edge::from_vertex_pairs(pairs).iter().map(|e| eid(e)).collect::<Vec<_>>() != w { return fail("from_vertex_pairs", "differs".into()); }
            for e in &list {
                let o = e.opposite();
                if (id(&o.v1), id(&o.v2)) != (id(&e.v2), id(&e.v1)) { return fail("opposite", "not reversed".into()); }
            }
            Ok(())
        });
        let k = r.rng.below(9);
        let cs: Vec<f64> = (0..k).map(|_| r.rng.int(-5, 5) as f64).collect();
        r.case("coordinates", format!("{:?}", cs), || {
            if k % 2 == 1 { return Ok(()); }
            let v: Vec<_> = Vertex::from_coordinates(&cs).iter().map(|v| (v.x, v.y, v.is_ghost)).collect();
            let w: Vec<_> = (0..k / 2).map(|i| (cs[2 * i], cs[2 * i + 1], false)).collect();
            if v != w { return fail("vertices from coordinates", format!("{:?}", v)); }
            let e: Vec<_> = Edge::from_coordinates(&cs).iter().map(|e| ((e.v1.x, e.v1.y), (e.v2.x, e.v2.y))).collect();
            let w: Vec<_> = (0..k / 2).map(|i| { let j = (i + 1) % (k / 2); ((cs[2 * i], cs[2 * i + 1]), (cs[2 * j], cs[2 * j + 1])) }).collect();
            if e != w { return fail("edges from coordinates", format!("{:?}", e)); }
            Ok(())
        });
        r.case("sides", txt, || {
            let c = [0, 1, 2].map(|i| es[i % n].0);
            let c = if n >= 3 { c } else { [0, 1, 4] };
            let v = c.map(|i| pool[i].clone());
            let t = tri(&v[0], &v[1], &v[2]);
            let q = c.map(|i| names[i]);
            let (a, b, d) = t.inner_edges();
            if [eid(&a), eid(&b), eid(&d)] != [(q[0], q[1]), (q[1], q[2]), (q[2], q[0])] { return fail("inner edges", "wrong".into()); }
            let o = t.outer_edges();
            let mut got = vec![eid(&o.0), eid(&o.1), eid(&o.2)];
            got.sort();
            let mut want = vec![(q[1], q[0]), (q[2], q[1]), (q[0], q[2])];
            want.sort();
            if got != want { return fail("outer edges", "wrong".into()); }
            if t.is_ghost() != c.contains(&4) { return fail("ghost", "is_ghost".into()); }
            if q[0] != q[1] && q[1] != q[2] && q[0] != q[2] {
                for i in 0..3 {
                    let e = edge(&v[i], &v[(i + 1) % 3]);
                    match t.opposite_vertex(&e) {
                        Some(x) if id(&x) == q[(i + 2) % 3] => {}
                        _ => return fail("opposite vertex", format!("of side {}", i)),
                    }
                    if t.opposite_vertex(&Rc::new(e.opposite())).is_some() { return fail("opposite vertex", "of a reversed side".into()); }
                    match t.opposite_edge(&v[i]) {
                        Some(x) if eid(&x) == (q[(i + 1) % 3], q[(i + 2) % 3]) => {}
                        _ => return fail("opposite edge", format!("of corner {}", i)),
                    }
                }
                let far = vx((99, 99));
                if t.opposite_edge(&far).is_some() { return fail("opposite edge", "of a foreign vertex".into()); }
            }
            Ok(())
        });
        let g: Vec<P> = (0..3).map(|_| (r.rng.int(-4, 4), r.rng.int(-4, 4))).collect();
        let p = if r.rng.chance(2) { let (a, b) = (g[0], g[1]); let k = r.rng.int(-1, 3); (a.0 + (b.0 - a.0) * k / 2, a.1 + (b.1 - a.1) * k / 2) } else { g[2] };
        r.case("point on segment", format!("{:?} {:?}", g, p), || {
            let e = Edge::new(&vx(g[0]), &vx(g[1]));
            let w = on_segment(p, g[0], g[1]);
            if e.contains(&vx(p)) != w { return fail("contains", format!("expected {}", w)); }
            Ok(())
        });
    }
    r.done();
}
