//! Random polygons (simple and self-crossing, with corners in line, in both directions) on small grids against points on the half grid, compared with
//! the exact winding number; many points level with corners or on sides. Opened lines, clean-up and direction of rings.
use nlsn_delaunay::elements::polyline::{segments_orientation, vertex_pairs, Polyline};
use nlsn_delaunay::elements::vertex::Vertex;
use nlsn_delaunay::properties::continence::Continence;
use nlsn_delaunay::properties::orientation::Orientation;
use std::rc::Rc;
use vh::*;

/// None on the boundary
fn winding(p: P, poly: &[P]) -> Option<i32> {
    let n = poly.len();
    let mut w = 0;
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        if on_segment(p, a, b) { return None; }
        if a.1 <= p.1 && b.1 > p.1 && orient(a, b, p) > 0 { w += 1; }
        if a.1 > p.1 && b.1 <= p.1 && orient(a, b, p) < 0 { w -= 1; }
    }
    Some(w)
}

fn main() {
    let mut r = Run::start();
    while r.more() {
        let w = r.rng.int(2, 6);
        let n = 3 + r.rng.below(6);
        let simple = r.rng.chance(2);
        let mut ps: Vec<P> = if simple { simple_polygon(&mut r.rng, n.max(4), w) } else { (0..n).map(|_| (r.rng.int(0, w), r.rng.int(0, w))).collect() };
        if r.rng.chance(2) { ps.reverse(); }
        let n = ps.len();
        // doubled coordinates for the oracle
        let two: Vec<P> = ps.iter().map(|p| (p.0 * 2, p.1 * 2)).collect();
        let k = r.rng.below(n);
        let scale = *r.rng.pick(&[1.0, 0.5, 3.0, 1024.0]);
        let vs: Vec<Rc<Vertex>> = (0..n).map(|i| { let p = ps[(i + k) % n]; Rc::new(Vertex::new(p.0 as f64 * scale, p.1 as f64 * scale)) }).collect();
        let poly = Polyline::new_closed(vs.clone()).unwrap();
        let kind = if simple { "simple" } else { "any" };
        for _ in 0..6 {
            let q = (r.rng.int(-1, 2 * w + 1), r.rng.int(-1, 2 * w + 1));
            r.case(kind, format!("{:?} start {} scale {} point {:?}/2", ps, k, scale, q), || {
                let v = Vertex::new(q.0 as f64 * scale / 2.0, q.1 as f64 * scale / 2.0);
                let want = match winding(q, &two) { None => Continence::Boundary, Some(0) => Continence::Outside, Some(_) => Continence::Inside };
                let got = poly.contains(&v);
                if got.as_ref() != Some(&want) { return fail("contains", format!("{:?}, expected {:?}", got, want)); }
                Ok(())
            });
        }
        r.case("opened", format!("{:?}", ps), || {
            let p = Polyline::new_opened(vs.clone()).unwrap();
            if p.contains(&Vertex::new(0.5, 0.5)).is_some() { return fail("opened", "an answer for an opened line".into()); }
            Ok(())
        });
        let a = area2(&ps);
        if a != 0 {
            r.case("direction", format!("{:?} start {}", ps, k), || {
                let o = segments_orientation(&vertex_pairs(&vs, false));
                let want = if a > 0 { Orientation::Counterclockwise } else { Orientation::Clockwise };
                if o != want { return fail("direction", format!("{:?}", o)); }
                Ok(())
            });
        }
    }
    r.done();
}
