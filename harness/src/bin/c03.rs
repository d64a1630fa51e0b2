//! Boxes and point lists on small integer grids (exact), single points, degenerate and touching boxes included.
use nlsn_delaunay::elements::{bounding_box::BoundingBox, vertex::Vertex};
use std::rc::Rc;
use vh::*;

fn v(p: P, s: f64) -> Rc<Vertex> {
    Rc::new(Vertex::new(p.0 as f64 * s, p.1 as f64 * s))
}

fn bx(a: P, b: P, s: f64) -> BoundingBox {
    BoundingBox { origin: v(a, s), destin: v(b, s) }
}

fn same(key: &str, g: Option<BoundingBox>, e: Option<(P, P)>, s: f64) -> Result<(), Fail> {
    match (g, e) {
        (None, None) => Ok(()),
        (Some(g), Some((a, b))) => {
            let w = (a.0 as f64 * s, a.1 as f64 * s, b.0 as f64 * s, b.1 as f64 * s);
            let h = (g.origin.x, g.origin.y, g.destin.x, g.destin.y);
            if w == h && !g.origin.is_ghost && !g.destin.is_ghost { Ok(()) } else { fail(key, format!("got {:?} expected {:?}", h, w)) }
        }
        (g, e) => fail(key, format!("got some={} expected {:?}", g.is_some(), e)),
    }
}

fn main() {
    let mut r = Run::start();
    while r.more() {
        let (m, s) = *r.rng.pick(&[(3, 1.0), (10, 0.5), (1000, 0.125), (4, 1024.0)]);
        let n = r.rng.below(7);
        let p: Vec<P> = (0..n).map(|_| (r.rng.int(-m, m), r.rng.int(-m, m))).collect();
        let e = if n == 0 { None } else {
            Some(((p.iter().map(|a| a.0).min().unwrap(), p.iter().map(|a| a.1).min().unwrap()), (p.iter().map(|a| a.0).max().unwrap(), p.iter().map(|a| a.1).max().unwrap())))
        };
        r.case("box of points", format!("{:?} times {}", p, s), || same("box of points", BoundingBox::from_vertices(p.iter().map(|&a| v(a, s)).collect()), e, s));
        let b: Vec<(P, P)> = (0..r.rng.below(4) + 1).map(|_| {
            let (x, y) = (r.rng.int(-m, m), r.rng.int(-m, m));
            ((x, y), (x + r.rng.int(0, m), y + r.rng.int(0, m)))
        }).collect();
        let (a, c) = (b[0], *b.last().unwrap());
        let u = |a: (P, P), c: (P, P)| (((a.0).0.min((c.0).0), (a.0).1.min((c.0).1)), ((a.1).0.max((c.1).0), (a.1).1.max((c.1).1)));
        let i = (((a.0).0.max((c.0).0), (a.0).1.max((c.0).1)), ((a.1).0.min((c.1).0), (a.1).1.min((c.1).1)));
        let ie = if (i.0).0 <= (i.1).0 && (i.0).1 <= (i.1).1 { Some(i) } else { None };
        let txt = format!("{:?} times {}", b, s);
        r.case("common region", txt.clone(), || same("common region", BoundingBox::intersection(&bx(a.0, a.1, s), &bx(c.0, c.1, s)), ie, s));
        r.case("union", txt.clone(), || same("union", Some(BoundingBox::union(&bx(a.0, a.1, s), bx(c.0, c.1, s))), Some(u(a, c)), s));
        let all = b.iter().fold(a, |x, &y| u(x, y));
        r.case("union of a list", txt.clone(), || same("union of a list", BoundingBox::union_list(b.iter().map(|x| bx(x.0, x.1, s)).collect()), Some(all), s));
        r.case("union of nothing", String::new(), || same("union of a list", BoundingBox::union_list(vec![]), None, s));
        let q = (r.rng.int(-m, m), r.rng.int(-m, m));
        let ex = q.0 >= (a.0).0 && q.0 <= (a.1).0 && q.1 >= (a.0).1 && q.1 <= (a.1).1;
        r.case("contains", format!("{:?} point {:?} times {}", a, q, s), || if bx(a.0, a.1, s).contains(&v(q, s)) == ex { Ok(()) } else { fail("contains", format!("expected {}", ex)) });
    }
    r.done();
}
