//! Random square and polygonal holes handed to a triangulator with a grid polygon, holes, segments and vertices: who is refused and which vertices are taken away.
use nlsn_delaunay::elements::vertex::Vertex;
use nlsn_delaunay::planar::triangulator::Triangulator;
use std::collections::HashSet;
use vh::*;

fn square(p: P, s: i64) -> Vec<P> {
    vec![p, (p.0 + s, p.1), (p.0 + s, p.1 + s), (p.0, p.1 + s)]
}

fn gp(v: &Vertex) -> P {
    (v.x.round() as i64, v.y.round() as i64)
}

fn sides(p: &[P]) -> Vec<(P, P)> {
    (0..p.len()).map(|i| (p[i], p[(i + 1) % p.len()])).collect()
}

fn apart(a: &[(P, P)], b: &[(P, P)]) -> bool {
    a.iter().all(|s| b.iter().all(|t| !segments_meet(s.0, s.1, t.0, t.1)))
}

fn main() {
    let mut r = Run::start();
    while r.more() {
        let w = 2 * if r.rng.chance(5) { r.rng.int(8, 20) } else { r.rng.int(3, 7) };
        let poly: Vec<P> = if r.rng.chance(2) { square((0, 0), w) } else { simple_polygon(&mut r.rng, 7, w) };
        let mut holes: Vec<Vec<P>> = Vec::new();
        let many = r.rng.chance(4);
        for _ in 0..if many { 4 + r.rng.below(8) } else { r.rng.below(3) } { let s = r.rng.int(1, 2); holes.push(square((r.rng.int(1, w - 2), r.rng.int(1, w - 2)), s)); }
        let segs: Vec<(P, P)> = (0..if many { r.rng.below(8) } else { r.rng.below(3) }).map(|_| ((r.rng.int(1, w - 1), r.rng.int(1, w - 1)), (r.rng.int(1, w - 1), r.rng.int(1, w - 1)))).filter(|s| s.0 != s.1).collect();
        let vs: Vec<P> = (0..if many { r.rng.below(40) } else { r.rng.below(6) }).map(|_| (r.rng.int(1, w - 1), r.rng.int(1, w - 1))).collect();
        let hole: Vec<P> = if r.rng.chance(3) {
            let o = (r.rng.int(0, w / 2), r.rng.int(0, w / 2));
            simple_polygon(&mut r.rng, 6, w / 2).iter().map(|p| (p.0 + o.0, p.1 + o.1)).collect()
        } else { let s = r.rng.int(1, 3); square((r.rng.int(0, w - 1), r.rng.int(0, w - 1)), s) };
        r.case("hole", format!("boundary {:?} holes {:?} segments {:?} vertices {:?} hole {:?}", poly, holes, segs, vs, hole), || {
            let mut t = Triangulator::new(&polygon(&poly));
            t.holes = holes.iter().map(|h| polygon(h)).collect();
            t.segments = segs.iter().map(|s| edge(&vx(s.0), &vx(s.1))).collect();
            t.vertices = vs.iter().map(|&p| vx(p)).collect();
            let nh = t.holes.len();
            let had: HashSet<P> = vs.iter().cloned().collect();
            let h = polygon(&hole);
            let answer: Result<(), HashSet<P>> = match t.insert_hole(&h) { Ok(_) => Ok(()), Err(e) => Err(e.iter().map(|v| gp(v)).collect()) };
            let now: HashSet<P> = t.vertices.iter().map(|v| gp(v)).collect();
            if t.segments.len() != segs.iter().collect::<HashSet<_>>().len() { return fail("segments", "the segments changed".into()); }
            let corner_in = hole.iter().all(|&p| in_polygon(p, &poly) > 0) && holes.iter().all(|q| hole.iter().all(|&p| in_polygon(p, q) < 0)) && segs.iter().all(|s| in_polygon(s.0, &hole) < 0 && in_polygon(s.1, &hole) < 0);
            let hs = sides(&hole);
            let clear = corner_in && apart(&hs, &sides(&poly)) && holes.iter().all(|q| apart(&hs, &sides(q))) && segs.iter().all(|&s| apart(&hs, &[s]));
            match answer {
                Err(e) => {
                    if clear { return fail("refused", "the hole touches nothing but was refused".into()); }
                    if e.is_empty() { return fail("refused without reason", "no vertex was named".into()); }
                    for p in &e {
                        if !poly.contains(p) && !holes.iter().any(|q| q.contains(p)) && !segs.iter().any(|s| s.0 == *p || s.1 == *p) { return fail("refused for a stranger", format!("{:?} is no vertex of boundary, holes or segments", p)); }
                    }
                    if now != had || t.holes.len() != nh { return fail("changed though refused", "something changed although the hole was refused".into()); }
                }
                Ok(()) => {
                    if !corner_in { return fail("accepted", "a corner of the hole is not inside the boundary, in another hole, or a segment ends in the hole".into()); }
                    if !t.holes.contains(&h) || t.holes.len() > nh + 1 || t.holes.len() < nh { return fail("hole not added", format!("{} holes before, {} after", nh, t.holes.len())); }
                    for p in &had {
                        let out = in_polygon(*p, &hole) < 0;
                        if out != now.contains(p) { return fail("vertices of the hole", format!("{:?} lies {} the hole and was {}", p, if out { "outside" } else { "in" }, if out { "dropped" } else { "kept" })); }
                    }
                    if now.iter().any(|p| !had.contains(p)) { return fail("vertices of the hole", "a vertex appeared".into()); }
                }
            }
            Ok(())
        });
    }
    r.done();
}
