//! Random lines and polygons on small grids with runs of points in line; edge sets made of one ring, several rings, stars and trees; sets of triangles
//! from triangulated polygons and arbitrary ones.
use nlsn_delaunay::elements::{edge::Edge, polyline::{vertex_pairs, Polyline}, triangle::Triangle, vertex::Vertex};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;
use vh::*;

fn rot_eq(a: &[Id], b: &[Id]) -> bool {
    a.len() == b.len() && (0..a.len().max(1)).any(|k| (0..a.len()).all(|i| a[i] == b[(i + k) % a.len()]))
}

/// the one ring the pairs form, if they form one (every end used once)
fn ring(es: &BTreeSet<(Id, Id)>) -> Option<Vec<Id>> {
    let mut nx: BTreeMap<Id, Id> = BTreeMap::new();
    for (a, b) in es {
        if nx.insert(*a, *b).is_some() { return None; }
    }
    let h = *nx.keys().next()?;
    let mut out = vec![h];
    let mut x = nx[&h];
    while x != h {
        if out.len() > es.len() { return None; }
        out.push(x);
        x = *nx.get(&x)?;
    }
    if out.len() == es.len() && out.len() >= 3 { Some(out) } else { None }
}

fn check_line(p: &Polyline, es: &BTreeSet<(Id, Id)>) -> Result<(), Fail> {
    let v: Vec<Id> = p.vertices.iter().map(|v| id(v)).collect();
    if p.opened || v.len() < 3 { return fail("closed line", "not a closed line".into()); }
    let got: BTreeSet<(Id, Id)> = (0..v.len()).map(|i| (v[i], v[(i + 1) % v.len()])).collect();
    if &got != es || v.len() != es.len() { return fail("closed line", "its edges are not the given ones".into()); }
    Ok(())
}

fn main() {
    let mut r = Run::start();
    while r.more() {
        let n = r.rng.below(7);
        let w = r.rng.int(1, 4);
        let ps: Vec<P> = (0..n).map(|_| (r.rng.int(0, w), r.rng.int(0, w))).collect();
        let op = r.rng.chance(2);
        let vs: Vec<Rc<Vertex>> = ps.iter().map(|&p| vx(p)).collect();
        r.case("construction", format!("{:?} opened {}", ps, op), || {
            let p = if op { Polyline::new_opened(vs.clone()) } else { Polyline::new_closed(vs.clone()) };
            if p.is_some() != (n >= if op { 2 } else { 3 }) { return fail("construction", format!("{} points", n)); }
            let p = match p { Some(p) => p, None => return Ok(()) };
            let ids: Vec<Id> = p.vertices.iter().map(|v| id(v)).collect();
            if p.opened != op || ids != vs.iter().map(|v| id(v)).collect::<Vec<_>>() { return fail("construction", "points or kind changed".into()); }
            let (h, t) = (p.head().map(|v| id(&v)), p.tail().map(|v| id(&v)));
            if op && (h != Some(ids[0]) || t != Some(ids[n - 1])) || !op && (h.is_some() || t.is_some()) { return fail("ends", "head or tail wrong".into()); }
            let k = if op { n - 1 } else { n };
            let want: Vec<(Id, Id)> = (0..k).map(|i| (ids[i], ids[(i + 1) % n])).collect();
            if p.into_edges().iter().map(|e| eid(e)).collect::<Vec<_>>() != want { return fail("edges", "wrong edges".into()); }
            if vertex_pairs(&vs, op).iter().map(|(a, b)| (id(a), id(b))).collect::<Vec<_>>() != want { return fail("pairs", "wrong pairs".into()); }
            let b = p.bounding_box().unwrap();
            let bb = (b.origin.x, b.origin.y, b.destin.x, b.destin.y);
            let wb = (ps.iter().map(|p| p.0).min().unwrap() as f64, ps.iter().map(|p| p.1).min().unwrap() as f64, ps.iter().map(|p| p.0).max().unwrap() as f64, ps.iter().map(|p| p.1).max().unwrap() as f64);
            if bb != wb { return fail("box", "bounding box".into()); }
            // points in line with both neighbours are dropped
            let at = |i: i64| ps[((i + n as i64) % n as i64) as usize];
            let keep: Vec<P> = (0..n as i64).filter(|&i| op && (i == 0 || i == n as i64 - 1) || orient(at(i - 1), at(i), at(i + 1)) != 0).map(at).collect();
            if !op && keep.len() < 3 { return Ok(()); }
            let m = p.minified_noncolinear();
            if m.opened != op { return fail("clean-up", "kind changed".into()); }
            if m.vertices.iter().map(|v| id(v)).collect::<Vec<_>>() != keep.iter().map(|&p| id(&vx(p))).collect::<Vec<_>>() { return fail("clean-up", format!("expected {:?}", keep)); }
            Ok(())
        });
        // edge sets
        let kind = r.rng.below(4);
        let mut pairs: Vec<(P, P)> = vec![];
        let rings = if kind == 0 { 1 } else { 1 + r.rng.below(3) };
        for k in 0..rings {
            let m = if kind == 0 { 3 + r.rng.below(6) } else { 1 + r.rng.below(5) };
            for i in 0..m {
                let f = |i: usize| ((k * 10) as i64, (i % m) as i64);
                pairs.push((f(i), f(i + 1)));
            }
        }
        if kind == 2 { for _ in 0..3 { let i = r.rng.below(pairs.len()); let j = r.rng.below(pairs.len()); let (a, b) = (pairs[i].0, pairs[j].1); pairs.push((a, b)); } }
        if kind == 3 && pairs.len() > 1 { let i = r.rng.below(pairs.len()); pairs.remove(i); }
        r.rng.shuffle(&mut pairs);
        r.case("closed line from edges", format!("{:?}", pairs), || {
            let set: HashSet<Rc<Edge>> = pairs.iter().map(|(a, b)| edge(&vx(*a), &vx(*b))).collect();
            let ids: BTreeSet<(Id, Id)> = set.iter().map(|e| eid(e)).collect();
            let want = ring(&ids);
            match (Polyline::arrange(&set), want) {
                (Some(p), Some(w)) => { check_line(&p, &ids)?; if !rot_eq(&p.vertices.iter().map(|v| id(v)).collect::<Vec<_>>(), &w) { return fail("closed line", "another order".into()); } Ok(()) }
                (None, None) => Ok(()),
                (Some(_), None) => fail("closed line", "a line out of edges that form none".into()),
                (None, Some(_)) => fail("closed line", "no line although the edges form one".into()),
            }
        });
        // hull of triangles: a fan-triangulated convex or star polygon with some triangles left out
        let poly = simple_polygon(&mut r.rng, 7, 6);
        let mut ts: Vec<[P; 3]> = ears(&poly);
        let drop = r.rng.below(ts.len());
        for _ in 0..drop { let i = r.rng.below(ts.len()); ts.remove(i); }
        if r.rng.chance(6) { ts.push([(50, 0), (51, 0), (50, 1)]); }
        let turn = r.rng.below(3);
        r.case("hull of triangles", format!("{:?}", ts), || {
            let set: HashSet<Rc<Triangle>> = ts.iter().map(|t| tri(&vx(t[turn]), &vx(t[(turn + 1) % 3]), &vx(t[(turn + 2) % 3]))).collect();
            let all: BTreeSet<(Id, Id)> = ts.iter().flat_map(|t| (0..3).map(move |i| (id(&vx(t[i])), id(&vx(t[(i + 1) % 3]))))).collect();
            let rim: BTreeSet<(Id, Id)> = all.iter().filter(|(a, b)| !all.contains(&(*b, *a))).cloned().collect();
            match (Polyline::triangles_hull(&set), ring(&rim)) {
                (Some(p), Some(_)) => check_line(&p, &rim),
                (None, None) => Ok(()),
                (Some(_), None) => fail("hull", "a hull although the rim is no single closed line".into()),
                (None, Some(_)) => fail("hull", "no hull although the rim is a closed line".into()),
            }
        });
        let (a, b, c) = (vx((0, 0)), vx((3, 1)), if r.rng.chance(3) { ghost() } else { vx((1, 4)) });
        r.case("outlines", format!("{:?}", pt(&c)), || {
            let g = c.is_ghost;
            let t = tri(&a, &b, &c).as_polyline();
            if t.is_some() == g { return fail("outline", "of a ghost triangle".into()); }
            if let Some(t) = t { if t.opened || t.vertices.iter().map(|v| id(v)).collect::<Vec<_>>() != vec![id(&a), id(&b), id(&c)] { return fail("outline", "corners".into()); } }
            let e = edge(&b, &c).as_polyline();
            if e.is_some() == g { return fail("outline", "of a ghost edge".into()); }
            if let Some(e) = e { if !e.opened || e.vertices.iter().map(|v| id(v)).collect::<Vec<_>>() != vec![id(&b), id(&c)] { return fail("outline", "ends".into()); } }
            Ok(())
        });
    }
    r.done();
}
