//! Pairs of segments on small integer grids: crossing, touching, collinear (overlapping or not), parallel and zero-length ones; the reported point is
//! compared with the exact rational one, absence with the exact predicate.
use nlsn_delaunay::elements::vertex::Vertex;
use nlsn_delaunay::properties::intersection::intersection;
use std::rc::Rc;
use vh::*;

fn v(p: P, s: f64) -> Rc<Vertex> {
    Rc::new(Vertex::new(p.0 as f64 * s, p.1 as f64 * s))
}

fn main() {
    let mut r = Run::start();
    while r.more() {
        let (m, s) = *r.rng.pick(&[(2, 1.0), (4, 1.0), (8, 0.5), (30, 0.25)]);
        let mut p: Vec<P> = (0..4).map(|_| (r.rng.int(-m, m), r.rng.int(-m, m))).collect();
        let near = r.rng.chance(4);
        let (m, s) = if near { (2000, 1.0 / 1024.0) } else { (m, s) };
        if near {
            // the second segment begins close to the first one
            p = (0..4).map(|_| (r.rng.int(-m, m), r.rng.int(-m, m))).collect();
            let t = *r.rng.pick(&[0, 1, 2, 3, 4]);
            p[2] = (p[0].0 + (p[1].0 - p[0].0) * t / 4 + r.rng.int(-2, 2), p[0].1 + (p[1].1 - p[0].1) * t / 4 + r.rng.int(-2, 2));
        }
        if !near && r.rng.chance(3) {
            // collinear or parallel on purpose
            let d = (r.rng.int(-2, 2), r.rng.int(-2, 2));
            let k: Vec<i64> = (0..3).map(|_| r.rng.int(-3, 3)).collect();
            p[1] = (p[0].0 + d.0 * k[0], p[0].1 + d.1 * k[0]);
            if r.rng.chance(2) { p[2] = (p[0].0 + d.0 * k[1], p[0].1 + d.1 * k[1]); }
            p[3] = (p[2].0 + d.0 * k[2], p[2].1 + d.1 * k[2]);
        }
        let (a, b, c, d) = (p[0], p[1], p[2], p[3]);
        let cr = orient((0, 0), (b.0 - a.0, b.1 - a.1), (d.0 - c.0, d.1 - c.1));
        let w: Vec<Rc<Vertex>> = p.iter().map(|&q| v(q, s)).collect();
        let txt = format!("{:?}-{:?} {:?}-{:?} times {}", a, b, c, d, s);
        let got = || intersection(&w[0], &w[1], &w[2], &w[3]);
        if cr != 0 {
            // a + t (b - a), t = n / cr
            let n = orient((0, 0), (c.0 - a.0, c.1 - a.1), (d.0 - c.0, d.1 - c.1));
            let u = orient((0, 0), (c.0 - a.0, c.1 - a.1), (b.0 - a.0, b.1 - a.1));
            let inside = |n: i128| if cr > 0 { n >= 0 && n <= cr } else { n <= 0 && n >= cr };
            let hit = inside(n) && inside(u);
            let strict = |n: i128| n != 0 && n != cr;
            // when the lines meet exactly at an end of a segment rounding may place the point just outside
            r.case("crossing", txt, || match got() {
                Some(g) => {
                    if !hit { return fail("crossing", format!("reported ({}, {}) for segments that do not meet", g.x, g.y)); }
                    let t = n as f64 / cr as f64;
                    let (x, y) = ((a.0 as f64 + t * (b.0 - a.0) as f64) * s, (a.1 as f64 + t * (b.1 - a.1) as f64) * s);
                    if (g.x - x).abs() + (g.y - y).abs() > 1e-9 || g.is_ghost { return fail("crossing", format!("got ({}, {}) expected ({}, {})", g.x, g.y, x, y)); }
                    Ok(())
                }
                None => if hit && strict(n) && strict(u) { fail("crossing", "crossing missed".into()) } else { Ok(()) },
            });
        } else {
            let common = on_segment(a, c, d) || on_segment(b, c, d) || on_segment(c, a, b) || on_segment(d, a, b);
            r.case("parallel", txt, || match got() {
                Some(g) => {
                    if !common { return fail("parallel", format!("reported ({}, {}) for segments that do not meet", g.x, g.y)); }
                    // twice the coordinates are on the grid
                    let q = ((g.x / s * 2.0).round() as i64, (g.y / s * 2.0).round() as i64);
                    let dbl = |p: P| (2 * p.0, 2 * p.1);
                    if on_segment(q, dbl(a), dbl(b)) && on_segment(q, dbl(c), dbl(d)) && !g.is_ghost { Ok(()) } else { fail("parallel", format!("({}, {}) is not common to both", g.x, g.y)) }
                }
                None => if common { fail("parallel", "common point missed".into()) } else { Ok(()) },
            });
        }
    }
    r.done();
}
