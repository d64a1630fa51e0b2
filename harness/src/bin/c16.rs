//! Random vertices handed to a triangulator with a grid polygon, square holes and disjoint or touching segments: who is refused, what is taken, where segments are split.
use nlsn_delaunay::elements::vertex::Vertex;
use nlsn_delaunay::planar::triangulator::Triangulator;
use std::collections::HashSet;
use std::rc::Rc;
use vh::*;

fn square(p: P, s: i64) -> Vec<P> {
    vec![p, (p.0 + s, p.1), (p.0 + s, p.1 + s), (p.0, p.1 + s)]
}

fn gp(v: &Vertex) -> P {
    (v.x.round() as i64, v.y.round() as i64)
}

fn edges(t: &Triangulator) -> HashSet<(P, P)> {
    t.segments.iter().map(|e| (gp(&e.v1), gp(&e.v2))).collect()
}

fn inner(p: P, s: (P, P)) -> bool {
    p != s.0 && p != s.1 && on_segment(p, s.0, s.1)
}

fn main() {
    let mut r = Run::start();
    while r.more() {
        let w = 2 * if r.rng.chance(5) { r.rng.int(7, 20) } else { r.rng.int(3, 6) };
        let poly: Vec<P> = if r.rng.chance(2) { square((0, 0), w) } else { simple_polygon(&mut r.rng, 7, w) };
        let many = r.rng.chance(4);
        let nh = if many { r.rng.below(9) } else { r.rng.below(3) };
        let holes: Vec<Vec<P>> = (0..nh).map(|_| { let s = r.rng.int(1, 2); square((r.rng.int(0, w - 1), r.rng.int(0, w - 1)), s) }).collect();
        let mut segs: Vec<(P, P)> = Vec::new();
        for _ in 0..if many { r.rng.below(25) } else { r.rng.below(4) } {
            let s = ((r.rng.int(0, w), r.rng.int(0, w)), (r.rng.int(0, w), r.rng.int(0, w)));
            // segments as insert_segments leaves them: they meet in common ends only
            if s.0 == s.1 { continue; }
            if segs.iter().all(|&q| { let common = s.0 == q.0 || s.0 == q.1 || s.1 == q.0 || s.1 == q.1;
                if common { !inner(s.0, q) && !inner(s.1, q) && !inner(q.0, s) && !inner(q.1, s) && !((s.0, s.1) == q || (s.1, s.0) == q) } else { !segments_meet(s.0, s.1, q.0, q.1) } }) { segs.push(s); }
        }
        let mut given: Vec<P> = Vec::new();
        for _ in 0..if many { r.rng.below(40) } else { r.rng.below(7) } {
            let p = if !segs.is_empty() && r.rng.chance(2) {
                let s = segs[r.rng.below(segs.len())];
                let k = r.rng.below(5) as i64;
                // on the segment, or at least near
                (s.0 .0 + (s.1 .0 - s.0 .0) * k / 4, s.0 .1 + (s.1 .1 - s.0 .1) * k / 4)
            } else { (r.rng.int(-1, w + 1), r.rng.int(-1, w + 1)) };
            if !given.contains(&p) && (r.rng.chance(6) || (in_polygon(p, &poly) > 0 && holes.iter().all(|h| in_polygon(p, h) < 0))) { given.push(p); }
        }
        let old: Vec<P> = (0..r.rng.below(3)).map(|_| (r.rng.int(1, w - 1), r.rng.int(1, w - 1))).filter(|&p| segs.iter().all(|&s| !on_segment(p, s.0, s.1))).collect();
        r.case("vertices", format!("boundary {:?} holes {:?} segments {:?} had {:?} given {:?}", poly, holes, segs, old, given), || {
            let mut t = Triangulator::new(&polygon(&poly));
            t.holes = holes.iter().map(|h| polygon(h)).collect();
            t.segments = segs.iter().map(|s| edge(&vx(s.0), &vx(s.1))).collect();
            t.vertices = old.iter().map(|&p| vx(p)).collect();
            let nholes = t.holes.len();
            let set: HashSet<Rc<Vertex>> = given.iter().map(|&p| vx(p)).collect();
            let bad: HashSet<P> = given.iter().cloned().filter(|&p| in_polygon(p, &poly) <= 0 || holes.iter().any(|h| in_polygon(p, h) >= 0)).collect();
            let answer: Result<(), HashSet<P>> = match t.insert_vertices(&set) { Ok(_) => Ok(()), Err(e) => Err(e.iter().map(|v| gp(v)).collect()) };
            let (now, before): (HashSet<P>, HashSet<P>) = (t.vertices.iter().map(|v| gp(v)).collect(), old.iter().cloned().collect());
            let after = edges(&t);
            let segset: HashSet<(P, P)> = segs.iter().cloned().collect();
            if t.holes.len() != nholes { return fail("holes", "the holes changed".into()); }
            match answer {
                Err(e) => {
                    if e != bad { return fail("refused ones", format!("refused {:?} instead of {:?}", e, bad)); }
                    if bad.is_empty() { return fail("refused", "refused although all are in the domain".into()); }
                    if now != before || after != segset { return fail("changed though refused", "something was taken although the vertices were refused".into()); }
                }
                Ok(()) => {
                    if !bad.is_empty() { return fail("accepted", format!("{:?} are not in the domain", bad)); }
                    for p in &before { if !now.contains(p) { return fail("lost", format!("vertex {:?} is gone", p)); } }
                    for p in &now { if !before.contains(p) && !given.contains(p) { return fail("invented", format!("vertex {:?} was never given", p)); } }
                    for &p in &given {
                        let ends = after.iter().any(|s| s.0 == p || s.1 == p);
                        if !now.contains(&p) && !ends { return fail("not taken", format!("{:?} is neither a vertex nor the end of a segment", p)); }
                        if let Some(s) = after.iter().find(|&&s| inner(p, s)) { return fail("not split", format!("{:?} lies on segment {:?}", p, s)); }
                        if now.contains(&p) && !before.contains(&p) && ends { return fail("kept twice", format!("{:?} is a lone vertex and the end of a segment", p)); }
                    }
                    for &s in &after {
                        let n = segs.iter().filter(|q| on_segment(s.0, q.0, q.1) && on_segment(s.1, q.0, q.1)).count();
                        if n == 0 || s.0 == s.1 { return fail("segment invented", format!("{:?} is no part of a segment", s)); }
                        if !segset.contains(&s) && !(given.contains(&s.0) || given.contains(&s.1)) { return fail("segment invented", format!("{:?} does not end in a given vertex", s)); }
                    }
                    for &q in &segs {
                        let len = |s: (P, P)| ((s.1 .0 - s.0 .0).abs() + (s.1 .1 - s.0 .1).abs()) as i64;
                        let sum: i64 = after.iter().filter(|s| on_segment(s.0, q.0, q.1) && on_segment(s.1, q.0, q.1)).map(|&s| len(s)).sum();
                        if sum != len(q) { return fail("segment not covered", format!("the parts of {:?} do not cover it", q)); }
                    }
                }
            }
            Ok(())
        });
    }
    r.done();
}
