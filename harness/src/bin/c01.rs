//! Quadruples of points on small integer grids, scaled by powers of two so that the arithmetic of the code is exact, degenerate configurations
//! (equal, collinear and cocircular points, values around the tolerance) included on purpose; distinct inputs are counted.
use nlsn_delaunay::elements::{edge::Edge, triangle::Triangle, vertex::Vertex};
use nlsn_delaunay::properties::{continence::*, dot::dot as rdot, encroachment::encroach, orientation::*, parallel::parallel};
use std::rc::Rc;
use vh::*;

fn v(p: P, s: f64) -> Rc<Vertex> {
    Rc::new(Vertex::new(p.0 as f64 * s, p.1 as f64 * s))
}

fn sign(d: f64) -> i32 {
    if d.abs() <= 1.0e-14 { 0 } else if d > 0.0 { 1 } else { -1 }
}

fn so(o: Orientation) -> i32 {
    match o { Orientation::Counterclockwise => 1, Orientation::Clockwise => -1, Orientation::Colinear => 0 }
}

fn sc(o: Continence) -> i32 {
    match o { Continence::Inside => 1, Continence::Outside => -1, Continence::Boundary => 0 }
}

fn se(o: Continence) -> i32 {
    match o { Continence::Outside => 1, Continence::Inside => -1, Continence::Boundary => 0 }
}

fn main() {
    let mut r = Run::start();
    let scales = [(4, 1.0), (64, 1.0), (4, 0.25), (5, (2.0f64).powi(-24)), (6, (2.0f64).powi(-23)), (3, (2.0f64).powi(-12)), (4, (2.0f64).powi(-11)), (200, 1024.0)];
    while r.more() {
        let (m, s) = *r.rng.pick(&scales);
        let p: Vec<P> = (0..4).map(|_| (r.rng.int(-m, m), r.rng.int(-m, m))).collect();
        let w: Vec<Rc<Vertex>> = p.iter().map(|&q| v(q, s)).collect();
        let txt = format!("points {:?} times {:e}", p, s);
        let (s2, s4) = (s * s, s * s * s * s);
        let want = |name: &str, got: i32, exp: i32| if got == exp { Ok(()) } else { fail(name, format!("got {} expected {}", got, exp)) };
        let o = sign(orient(p[0], p[1], p[2]) as f64 * s2);
        r.case("orientation", txt.clone(), || want("orientation", so(orientation(&w[0], &w[1], &w[2])), o));
        // the 4x4 determinant is not exact in floating point: only answers rounding cannot decide are judged
        let det = incircle(p[0], p[1], p[2], p[3]) as f64 * s4;
        let ic = sign(det);
        let mag = m as f64 * s;
        let clear = if mag <= 0.02 { (det.abs() - 1.0e-14).abs() > 1.0e-19 } else { det.abs() > 1.0e-9 * mag * mag * mag * mag + 1.0e-12 };
        if clear { r.case("in-circle", txt.clone(), || want("in-circle", sc(continence(&w[0], &w[1], &w[2], &w[3])), ic)); }
        let e = sign(dot(p[2], p[0], p[2], p[1]) as f64 * s2);
        r.case("encroachment", txt.clone(), || want("encroachment", se(encroach(&w[0], &w[1], &w[2])), e));
        r.case("encroachment of an edge", txt.clone(), || want("encroachment", se(Edge::new(&w[0], &w[1]).encroach(&w[2])), e));
        r.case("dot", txt.clone(), || {
            let g = rdot(&w[0], &w[1], &w[2], &w[3]);
            let x = dot(p[0], p[1], p[2], p[3]) as f64 * s2;
            if g == x { Ok(()) } else { fail("dot", format!("got {} expected {}", g, x)) }
        });
        let cr = orient((0, 0), (p[1].0 - p[0].0, p[1].1 - p[0].1), (p[3].0 - p[2].0, p[3].1 - p[2].1));
        r.case("parallel", txt.clone(), || want("parallel", parallel(&w[0], &w[1], &w[2], &w[3]) as i32, (cr == 0) as i32));
        if clear && p[0] != p[1] && p[1] != p[2] && p[0] != p[2] {
            r.case("solid triangle", txt.clone(), || want("solid triangle", sc(Triangle::new(&w[0], &w[1], &w[2]).encircles(&w[3])), ic));
        }
        if p[0] != p[1] {
            let g = Rc::new(Vertex::new_ghost());
            let og = sign(orient(p[0], p[1], p[3]) as f64 * s2);
            r.case("ghost triangle", txt.clone(), || {
                let t = Triangle::new(&w[0], &w[1], &g);
                want("ghost triangle", sc(t.encircles(&w[3])), og)
            });
        }
    }
    r.done();
}
