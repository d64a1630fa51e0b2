//! Random triangulated polygons with holes and random waiting vertices: what is filed under a triangle, what stays waiting, and what insertion
//! lets into the triangulation, against the definition (circle, boundary and every hole).
use nlsn_delaunay::elements::{polyline::Polyline, triangle::Triangle, vertex::Vertex};
use nlsn_delaunay::planar::triangulation::Triangulation;
use nlsn_delaunay::planar::triangulation_procedures::vertices;
use nlsn_delaunay::properties::continence::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use vh::*;

fn may(t: &Rc<Triangle>, v: &Rc<Vertex>, b: &Option<Rc<Polyline>>, holes: &HashSet<Rc<Polyline>>) -> bool {
    let line = if t.v1.is_ghost || t.v2.is_ghost || t.v3.is_ghost {
        Polyline::new_closed(vec![Rc::clone(&t.v1), Rc::clone(&t.v2), Rc::clone(v)]).unwrap()
    } else {
        Polyline::new_opened(vec![Rc::new(t.center()), Rc::clone(v)]).unwrap()
    };
    let ok_b = match b { None => true, Some(b) => match Polyline::continence(b, &line) { Some((c, _)) => c != Continence::Outside, None => false } };
    ok_b && holes.iter().all(|h| match Polyline::continence(h, &line) { Some((c, _)) => c != Continence::Inside, None => false })
}

fn conflict(t: &Rc<Triangle>, v: &Rc<Vertex>, b: &Option<Rc<Polyline>>, holes: &HashSet<Rc<Polyline>>) -> bool {
    t.encircles(v) == Continence::Inside && may(t, v, b, holes)
}

fn square(p: P, s: i64) -> Vec<P> {
    vec![p, (p.0 + s, p.1), (p.0 + s, p.1 + s), (p.0, p.1 + s)]
}

fn ids(vs: &[Rc<Vertex>]) -> Vec<Id> {
    let mut r: Vec<Id> = vs.iter().map(|v| id(v)).collect();
    r.sort();
    r
}

fn main() {
    let mut r = Run::start();
    while r.more() {
        let w = 3 * r.rng.int(2, 5);
        let poly: Vec<P> = if r.rng.chance(2) { square((0, 0), w) } else { simple_polygon(&mut r.rng, 8, w) };
        let nh = r.rng.below(4);
        let hs: Vec<Vec<P>> = (0..nh).map(|_| { let s = r.rng.int(1, 3); square((r.rng.int(0, w - 1), r.rng.int(0, w - 1)), s) }).collect();
        let bounded = !r.rng.chance(4);
        let nv = 1 + r.rng.below(6);
        let vs: Vec<P> = (0..nv).map(|_| (r.rng.int(-1, w + 1), r.rng.int(-1, w + 1))).collect();
        let seed: Vec<usize> = vec![r.rng.below(1000), r.rng.below(1000)];
        let some = !r.rng.chance(4);
        r.case("distribute", format!("boundary {:?} given {} holes {:?} waiting {:?} start {:?} {}", poly, bounded, hs, vs, seed, some), || {
            let tr = ears(&poly);
            let g = ghost();
            let mut t = Triangulation::new();
            let mut all: Vec<Rc<Triangle>> = tr.iter().map(|t| tri(&vx(t[0]), &vx(t[1]), &vx(t[2]))).collect();
            let solid = all.clone();
            for i in 0..poly.len() { all.push(tri(&vx(poly[(i + 1) % poly.len()]), &vx(poly[i]), &g)); }
            for x in &all { t.include_triangle(x); }
            let b = if bounded { Some(polygon(&poly)) } else { None };
            let holes: HashSet<Rc<Polyline>> = hs.iter().map(|h| polygon(h)).collect();
            let start = Rc::clone(&all[seed[0] % all.len()]);
            let mut map: HashMap<Rc<Triangle>, Vec<Rc<Vertex>>> = HashMap::new();
            let old = Rc::clone(&all[seed[1] % all.len()]);
            let mark = vx((1000, 1000));
            map.insert(Rc::clone(&old), vec![Rc::clone(&mark)]);
            let mut waiting: Vec<Rc<Vertex>> = vs.iter().map(|&p| vx(p)).collect();
            let before = waiting.clone();
            let first = if some { Some(Rc::clone(&start)) } else { None };
            vertices::distribute_conflicts_over_triangulation(&mut t, first, &mut map, &mut waiting, &b, &holes);
            let mut now = waiting.clone();
            let mut marks = 0;
            for (k, l) in map.iter() {
                if l.is_empty() { return fail("empty entry", format!("{} has an empty list", k)); }
                if !all.iter().any(|x| tid(x) == tid(k)) { return fail("unknown triangle", format!("{} is not in the triangulation", k)); }
                for v in l {
                    if id(v) == id(&mark) { marks += 1; if tid(k) != tid(&old) { return fail("moved", "an entry of before moved".into()); } continue; }
                    now.push(Rc::clone(v));
                    if !conflict(k, v, &b, &holes) { return fail("filed", format!("{} is filed under {} and does not conflict with it", v, k)); }
                }
            }
            if marks != 1 { return fail("moved", "an entry of before was lost".into()); }
            if ids(&now) != ids(&before) { return fail("lost", "vertices were lost or duplicated".into()); }
            for v in &waiting {
                for x in &solid {
                    if tr.len() == poly.len() - 2 && conflict(x, v, &b, &holes) { return fail("kept", format!("{} was left waiting and conflicts with {}", v, x)); }
                }
            }
            if t.triangles.len() != all.len() { return fail("triangulation", "the triangulation changed".into()); }
            Ok(())
        });
        // insertion into a triangulated square with holes: nothing outside the boundary or inside a hole gets in
        let sq = square((0, 0), w);
        let diag = r.rng.chance(2);
        let pts: Vec<P> = (0..nv).map(|_| (r.rng.int(-2, w + 2), r.rng.int(-2, w + 2))).filter(|p| !on_segment(*p, sq[0], sq[2]) && !on_segment(*p, sq[1], sq[3])).collect();
        r.case("include", format!("square {} holes {:?} points {:?} diagonal {}", w, hs, pts, diag), || {
            let g = ghost();
            let mut t = Triangulation::new();
            let q: Vec<Rc<Vertex>> = sq.iter().map(|&p| vx(p)).collect();
            let o = if diag { 0 } else { 1 };
            t.include_triangle(&tri(&q[o], &q[o + 1], &q[o + 2]));
            t.include_triangle(&tri(&q[o + 2], &q[(o + 3) % 4], &q[o]));
            for i in 0..4 { t.include_triangle(&tri(&q[(i + 1) % 4], &q[i], &g)); }
            let b = polygon(&sq);
            let holes: HashSet<Rc<Polyline>> = hs.iter().map(|h| polygon(h)).collect();
            let cons = b.into_edges().into_iter().collect();
            vertices::include(&mut t, pts.iter().map(|&p| vx(p)).collect(), &cons, &Some(Rc::clone(&b)), &holes);
            for v in t.vertices().iter() {
                let p = (v.x as i64, v.y as i64);
                if !sq.contains(&p) && in_polygon(p, &sq) < 0 { return fail("outside", format!("{} outside the boundary was inserted", v)); }
                for h in &hs {
                    if !sq.contains(&p) && in_polygon(p, h) > 0 { return fail("in hole", format!("{} inside a hole was inserted", v)); }
                }
            }
            Ok(())
        });
    }
    r.done();
}
