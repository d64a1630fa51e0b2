//! Points on small integer grids with a power of two scale; results compared with exact rational values within 1e-9 relative, ghosts and degenerate triangles included.
use nlsn_delaunay::elements::{edge::Edge, triangle::Triangle, vertex::Vertex};
use nlsn_delaunay::properties::{angle::angle, area::*, circumcenter::circumcenter, distance::distance, midpoint::midpoint};
use std::rc::Rc;
use vh::*;

fn v(p: P, s: f64) -> Rc<Vertex> {
    Rc::new(Vertex::new(p.0 as f64 * s, p.1 as f64 * s))
}

fn close(key: &str, g: f64, x: f64, mag: f64) -> Result<(), Fail> {
    if (g - x).abs() <= 1.0e-9 * (mag + x.abs()) { Ok(()) } else { fail(key, format!("got {} expected {}", g, x)) }
}

fn len(a: P, b: P) -> f64 {
    ((dot(a, b, a, b)) as f64).sqrt()
}

fn circ(p: &[P]) -> Option<(f64, f64)> {
    let o = orient(p[0], p[1], p[2]);
    if o == 0 { return None; }
    let q: Vec<i128> = p.iter().map(|a| (a.0 as i128) * (a.0 as i128) + (a.1 as i128) * (a.1 as i128)).collect();
    let x = q[0] * (p[1].1 - p[2].1) as i128 + q[1] * (p[2].1 - p[0].1) as i128 + q[2] * (p[0].1 - p[1].1) as i128;
    let y = q[0] * (p[2].0 - p[1].0) as i128 + q[1] * (p[0].0 - p[2].0) as i128 + q[2] * (p[1].0 - p[0].0) as i128;
    Some((x as f64 / (2 * o) as f64, y as f64 / (2 * o) as f64))
}

fn main() {
    let mut r = Run::start();
    let scales = [(4, 1.0), (30, 1.0), (4, 0.25), (5, 0.0009765625), (20, 64.0)];
    let gh = Rc::new(Vertex::new_ghost());
    while r.more() {
        let (m, s) = *r.rng.pick(&scales);
        let p: Vec<P> = (0..3).map(|_| (r.rng.int(-m, m), r.rng.int(-m, m))).collect();
        let w: Vec<Rc<Vertex>> = p.iter().map(|&q| v(q, s)).collect();
        let txt = format!("points {:?} times {}", p, s);
        let o = orient(p[0], p[1], p[2]);
        let mf = m as f64 * s;
        r.case("distance", txt.clone(), || close("distance", distance(&w[0], &w[1]), len(p[0], p[1]) * s, mf));
        r.case("edge length", txt.clone(), || close("distance", Edge::new(&w[0], &w[1]).length(), len(p[0], p[1]) * s, mf));
        r.case("area", txt.clone(), || close("area", area_triangle(&w[0], &w[1], &w[2]), o as f64 * s * s / 2.0, mf * mf));
        r.case("midpoint", txt.clone(), || {
            let g = midpoint(&w[0], &w[1]);
            if g.is_ghost { return fail("midpoint", "ghost".into()); }
            close("midpoint", g.x, (p[0].0 + p[1].0) as f64 * s / 2.0, 0.0)?;
            close("midpoint", g.y, (p[0].1 + p[1].1) as f64 * s / 2.0, 0.0)?;
            if !midpoint(&w[0], &gh).is_ghost || !midpoint(&gh, &w[0]).is_ghost { return fail("midpoint-ghost", "midpoint with a ghost is not a ghost".into()); }
            let g = Edge::new(&w[0], &w[1]).midpoint();
            close("midpoint", g.x, (p[0].0 + p[1].0) as f64 * s / 2.0, 0.0)?;
            close("midpoint", g.y, (p[0].1 + p[1].1) as f64 * s / 2.0, 0.0)
        });
        r.case("circumcenter", txt.clone(), || match (circumcenter(&w[0], &w[1], &w[2]), circ(&p)) {
            (None, None) => Ok(()),
            (Some(g), Some(x)) => { close("circumcenter", g.x, x.0 * s, mf)?; close("circumcenter", g.y, x.1 * s, mf) }
            (g, x) => fail("circumcenter", format!("got {:?} expected {:?}", g.map(|g| (g.x, g.y)), x)),
        });
        r.case("angle", txt.clone(), || {
            if p[0] == p[1] || p[1] == p[2] { return Ok(()); }
            let u = ((p[0].0 - p[1].0) as f64, (p[0].1 - p[1].1) as f64);
            let q = ((p[2].0 - p[1].0) as f64, (p[2].1 - p[1].1) as f64);
            let x = (u.0 * q.1 - u.1 * q.0).abs().atan2(u.0 * q.0 + u.1 * q.1);
            let x = if o < 0 { 2.0 * std::f64::consts::PI - x } else { x };
            if (o as f64 * s * s).abs() <= 1e-13 && o != 0 { return Ok(()); }
            match angle(&w[0], &w[1], &w[2]) {
                Some(g) if g.is_nan() => Ok(()),    // rounding of the cosine beyond one: arithmetic is taken as exact
                Some(g) => if (g - x).abs() < 1e-6 { Ok(()) } else { fail("angle", format!("got {} expected {}", g, x)) },
                None => fail("angle", "none".into()),
            }
        });
        if p[0] != p[1] && p[1] != p[2] && p[0] != p[2] {
            r.case("solid triangle", txt.clone(), || {
                let t = Triangle::new(&w[0], &w[1], &w[2]);
                match t.area() { Some(a) => close("triangle area", a, o as f64 * s * s / 2.0, mf * mf)?, None => return fail("triangle area", "none".into()) }
                let c = t.center();
                close("center", c.x, (p[0].0 + p[1].0 + p[2].0) as f64 * s / 3.0, mf)?;
                close("center", c.y, (p[0].1 + p[1].1 + p[2].1) as f64 * s / 3.0, mf)?;
                match (t.circumcenter(), circ(&p)) {
                    (None, None) => (),
                    (Some(g), Some(x)) => { close("triangle circumcenter", g.x, x.0 * s, mf)?; close("triangle circumcenter", g.y, x.1 * s, mf)? }
                    _ => return fail("triangle circumcenter", "wrong existence".into()),
                }
                if o != 0 {
                    let (k, l, m) = (len(p[0], p[1]), len(p[1], p[2]), len(p[2], p[0]));
                    let x = k * l * m / (2.0 * o as f64) / k.min(l).min(m);
                    match t.quality() { Some(q) => close("quality", q, x, 1.0)?, None => return fail("quality", "none".into()) }
                }
                Ok(())
            });
        }
        if p[0] != p[1] {
            let k = r.rng.below(3);
            r.case("ghost triangle", format!("{} rotation {}", txt, k), || {
                let t = match k { 0 => Triangle::new(&w[0], &w[1], &gh), 1 => Triangle::new(&w[1], &gh, &w[0]), _ => Triangle::new(&gh, &w[0], &w[1]) };
                if t.area().is_some() || t.quality().is_some() || t.circumcenter().is_some() { return fail("ghost triangle", "a ghost triangle has no measure".into()); }
                if k > 0 { return Ok(()); }      // the ghost is the third corner
                let c = t.center();
                close("ghost center", c.x, (p[0].0 + p[1].0) as f64 * s / 2.0, mf)?;
                close("ghost center", c.y, (p[0].1 + p[1].1) as f64 * s / 2.0, mf)
            });
        }
        let n = 3 + r.rng.below(5);
        let q: Vec<P> = (0..n).map(|_| (r.rng.int(-m, m), r.rng.int(-m, m))).collect();
        r.case("area of a closed chain", format!("{:?} times {}", q, s), || {
            let vs: Vec<Rc<Vertex>> = q.iter().map(|&a| v(a, s)).collect();
            let ps: Vec<(Rc<Vertex>, Rc<Vertex>)> = (0..n).map(|i| (vs[i].clone(), vs[(i + 1) % n].clone())).collect();
            let mut x = 0i64;
            for i in 0..n { let (a, b) = (q[i], q[(i + 1) % n]); x += (b.0 - a.0) * (b.1 + a.1); }
            close("area of segments", area_segments(&ps), x as f64 * s * s / 2.0, mf * mf)
        });
    }
    r.done();
}
