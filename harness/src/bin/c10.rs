//! Random histories of adding and removing triangles (rotations, mirrored ones and ghosts included) over few vertices, and histories that build and
//! take apart proper triangulations; after every step the triangle set, the side index, the vertex and the edge list are compared with a model.
use nlsn_delaunay::elements::{triangle::Triangle, vertex::Vertex};
use nlsn_delaunay::planar::triangulation::Triangulation;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use vh::*;

type T3 = (Id, Id, Id);

fn sides(t: &T3) -> [(Id, Id); 3] {
    [(t.0, t.1), (t.1, t.2), (t.2, t.0)]
}

fn look(t: &Triangulation) -> (Vec<T3>, BTreeMap<(Id, Id), T3>, Vec<Id>, Vec<(Id, Id)>) {
    let mut a: Vec<T3> = t.triangles.iter().map(|x| tid(x)).collect();
    a.sort();
    let mut v: Vec<Id> = t.vertices().iter().map(|v| id(v)).collect();
    v.sort();
    let mut e: Vec<(Id, Id)> = t.edges().iter().map(|e| eid(e)).collect();
    e.sort();
    (a, t.adjacency.iter().map(|(k, x)| (eid(k), tid(x))).collect(), v, e)
}

fn check(t: &Triangulation, s: &BTreeSet<T3>, adj: &BTreeMap<(Id, Id), T3>) -> Result<(), Fail> {
    let (a, b, v, e) = look(t);
    if a != s.iter().cloned().collect::<Vec<_>>() { return fail("set", format!("{} triangles stored, {} expected", a.len(), s.len())); }
    if &b != adj || b.len() != t.adjacency.len() { return fail("index", "the side index is wrong".into()); }
    let mut wv = BTreeSet::new();
    let mut we = BTreeSet::new();
    for x in s {
        for p in [x.0, x.1, x.2].iter() { if !p.0 { wv.insert(*p); } }
        for q in sides(x).iter() { we.insert(*q); }
    }
    if v != wv.into_iter().collect::<Vec<_>>() { return fail("vertices", "vertex list is wrong".into()); }
    if e != we.into_iter().collect::<Vec<_>>() { return fail("edges", "edge list is wrong".into()); }
    Ok(())
}

/// every side of a stored triangle leads to it, every listed side to a stored triangle with it
fn consistent(t: &Triangulation) -> Result<(), Fail> {
    let (a, b, _, _) = look(t);
    for x in &a {
        for q in sides(x).iter() {
            if b.get(q) != Some(x) { return fail("consistent", "a side of a stored triangle does not lead to it".into()); }
        }
    }
    for (q, x) in &b {
        if !a.contains(x) || !sides(x).contains(q) { return fail("consistent", "a listed side leads to no stored triangle".into()); }
    }
    Ok(())
}

fn main() {
    let mut r = Run::start();
    while r.more() {
        let n = 2 + r.rng.below(4);
        let mut vs: Vec<Rc<Vertex>> = (0..n).map(|i| Rc::new(Vertex::new(i as f64, (i * i) as f64))).collect();
        vs.push(ghost());
        let m = 1 + r.rng.below(14);
        let ops: Vec<(bool, Rc<Triangle>)> = (0..m).map(|_| {
            let t = (0..3).map(|_| Rc::clone(r.rng.pick(&vs))).collect::<Vec<_>>();
            (!r.rng.chance(3), tri(&t[0], &t[1], &t[2]))
        }).collect();
        r.case("history", ops.iter().map(|(a, t)| format!("{}{}", if *a { "+" } else { "-" }, t)).collect::<Vec<_>>().join(" "), || {
            let mut t = Triangulation::new();
            let (mut s, mut adj) = (BTreeSet::new(), BTreeMap::new());
            check(&t, &s, &adj)?;
            for (add, x) in &ops {
                let k = tid(x);
                if *add {
                    let new = s.insert(k);
                    if new { for q in sides(&k).iter() { adj.insert(*q, k); } }
                    if t.include_triangle(x) != new { return fail("include answer", format!("including {} answered {}", x, !new)); }
                } else {
                    let was = s.remove(&k);
                    if was { for q in sides(&k).iter() { adj.remove(q); } }
                    if t.remove_triangle(x) != was { return fail("remove answer", format!("removing {} answered {}", x, !was)); }
                }
                check(&t, &s, &adj)?;
            }
            Ok(())
        });
        // a proper triangulation, built and taken apart in any order, keeping the index consistent
        let poly = simple_polygon(&mut r.rng, 8, 6);
        let tr = ears(&poly);
        let g = ghost();
        let mut ts: Vec<Rc<Triangle>> = tr.iter().map(|t| tri(&vx(t[0]), &vx(t[1]), &vx(t[2]))).collect();
        for i in 0..poly.len() { ts.push(tri(&vx(poly[(i + 1) % poly.len()]), &vx(poly[i]), &g)); }
        let order: Vec<(bool, usize)> = (0..ts.len() * 2).map(|_| (!r.rng.chance(3), r.rng.below(ts.len()))).collect();
        r.case("proper", format!("{:?} {:?}", poly, order), || {
            let mut t = Triangulation::new();
            for (add, i) in &order {
                if *add { t.include_triangle(&ts[*i]); } else { t.remove_triangle(&ts[*i]); }
                consistent(&t)?;
            }
            Ok(())
        });
        let (a, b) = ((r.rng.int(-3, 3), r.rng.int(-3, 3)), (r.rng.int(-3, 3), r.rng.int(4, 6)));
        r.case("initial segment", format!("{:?} {:?}", a, b), || {
            let (a, b) = (vx(a), vx(b));
            let t = Triangulation::from_initial_segment((&a, &b));
            consistent(&t)?;
            let mut want = vec![tid(&tri(&a, &b, &g)), tid(&tri(&b, &a, &g))];
            want.sort();
            if look(&t).0 != want { return fail("initial", "not the two ghost triangles of the segment".into()); }
            Ok(())
        });
    }
    r.done();
}
