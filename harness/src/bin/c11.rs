//! Random insertions into a square and into convex and reflex polygons: accounting of triangles, constrained sides, and the geometry of the result
//! (every vertex in, positive triangles tiling the polygon, no side twice, empty circles).
use nlsn_delaunay::elements::{edge::Edge, polyline::Polyline, triangle::Triangle, vertex::Vertex};
use nlsn_delaunay::planar::triangulation::Triangulation;
use nlsn_delaunay::planar::triangulation_procedures::{boundary, vertices};
use nlsn_delaunay::properties::continence::*;
use std::collections::HashSet;
use std::rc::Rc;
use vh::*;

fn gh(t: &Triangle) -> bool {
    t.v1.is_ghost || t.v2.is_ghost || t.v3.is_ghost
}

fn ps(t: &Triangle) -> [P; 3] {
    [pi(&t.v1), pi(&t.v2), pi(&t.v3)]
}

fn pi(v: &nlsn_delaunay::elements::vertex::Vertex) -> P {
    (v.x.round() as i64, v.y.round() as i64)
}

fn may(t: &Rc<Triangle>, v: &Rc<Vertex>, b: &Rc<Polyline>) -> bool {
    let line = if gh(t) {
        Polyline::new_closed(vec![Rc::clone(&t.v1), Rc::clone(&t.v2), Rc::clone(v)]).unwrap()
    } else {
        Polyline::new_opened(vec![Rc::new(t.center()), Rc::clone(v)]).unwrap()
    };
    match Polyline::continence(b, &line) { Some((c, _)) => c != Continence::Outside, None => false }
}

/// rounding misjudges some point on a circle through three others: the shape of cavities is then left to chance
fn rounded(ps: &[P]) -> bool {
    for &a in ps { for &b in ps { for &c in ps {
        if orient(a, b, c) <= 0 { continue; }
        let t = tri(&vx(a), &vx(b), &vx(c));
        for &d in ps {
            if d != a && d != b && d != c && (incircle(a, b, c, d) > 0) != (t.encircles(&vx(d)) == Continence::Inside) { return true; }
        }
    } } }
    false
}

fn unless_rounded(r: Result<(), Fail>, ps: &[P]) -> Result<(), Fail> {
    if r.is_err() && rounded(ps) { Ok(()) } else { r }
}

/// solid triangles tile the polygon, and every side leads to its triangle
fn tiling(t: &Triangulation, poly: &[P]) -> Result<(), Fail> {
    let mut sum = 0;
    let mut sides = HashSet::new();
    for x in t.triangles.iter() {
        let (a, b, c) = x.inner_edges();
        for e in &[a, b, c] {
            if !sides.insert(eid(e)) { return fail("side twice", format!("{} is a side of two triangles", e)); }
            match t.adjacency.get(e) {
                Some(y) if tid(y) == tid(x) => {}
                _ => return fail("index", format!("side {} of {} does not lead to it", e, x)),
            }
        }
        if gh(x) { continue; }
        let q = ps(x);
        let o = orient(q[0], q[1], q[2]);
        if o <= 0 { return fail("flat or turned triangle", format!("{}", x)); }
        sum += o;
    }
    if t.adjacency.len() != sides.len() { return fail("index", "the index lists sides of no triangle".into()); }
    if sum != area2(poly).abs() { return fail("tiling", format!("twice the area is {} instead of {}", sum, area2(poly).abs())); }
    Ok(())
}

fn main() {
    let mut r = Run::start();
    while r.more() {
        let w = 2 * r.rng.int(2, 6);
        let kind = r.rng.below(3);
        let mut poly: Vec<P> = match kind {
            0 => vec![(0, 0), (w, 0), (w, w), (0, w)],
            1 => vec![(0, 0), (w, 0), (w + 2, w / 2), (w, w), (0, w), (-2, w / 2)],
            _ => simple_polygon(&mut r.rng, 7, w),
        };
        if area2(&poly) < 0 { poly.reverse(); }
        let convex = kind < 2;
        let n = 1 + r.rng.below(9);
        let mut inner: Vec<P> = Vec::new();
        for _ in 0..n {
            let p = (r.rng.int(-1, w + 1), r.rng.int(-1, w + 1));
            if in_polygon(p, &poly) > 0 && !inner.contains(&p) { inner.push(p); }
        }
        let again = if r.rng.chance(3) { Some(poly[r.rng.below(poly.len())]) } else { None };
        let split = r.rng.below(poly.len());
        let steps = r.rng.chance(2);
        r.case("insert", format!("boundary {:?} points {:?} again {:?} one by one {}", poly, inner, again, steps), || {
            let b = polygon(&poly);
            let mut t = Triangulation::from_initial_segment((&b.vertices[0], &b.vertices[1]));
            boundary::include(&mut t, &b, &HashSet::new());
            if tiling(&t, &poly).is_err() { return Ok(()); }
            let cons: HashSet<Rc<Edge>> = b.into_edges().into_iter().collect();
            let mut pts: Vec<_> = inner.iter().map(|&p| vx(p)).collect();
            if let Some(p) = again { pts.push(vx(p)); }
            let batches: Vec<Vec<_>> = if steps { pts.iter().map(|p| vec![Rc::clone(p)]).collect() } else { vec![pts.clone()] };
            for batch in batches {
                let before: HashSet<_> = t.triangles.iter().map(|x| tid(x)).collect();
                let (inc, rem) = vertices::include(&mut t, batch.clone(), &cons, &Some(Rc::clone(&b)), &HashSet::new());
                let after: HashSet<_> = t.triangles.iter().map(|x| tid(x)).collect();
                let inc: HashSet<_> = inc.iter().map(|x| tid(x)).collect();
                let rem: HashSet<_> = rem.iter().map(|x| tid(x)).collect();
                if after.iter().any(|x| !before.contains(x) && !inc.contains(x)) { return fail("account", "a triangle appeared that is not reported as included".into()); }
                if before.iter().any(|x| !after.contains(x) && !rem.contains(x)) { return fail("account", "a triangle disappeared that is not reported as removed".into()); }
                if inc.iter().any(|x| !rem.contains(x) && !after.contains(x)) { return fail("account", "an included triangle that was not removed is missing".into()); }
                if rem.iter().any(|x| !before.contains(x) && !inc.contains(x)) { return fail("account", "a triangle is reported as removed that was never there".into()); }
            }
            let have = t.vertices();
            for e in cons.iter() {
                if !t.adjacency.contains_key(e) || !t.adjacency.contains_key(&e.opposite()) { return fail("constrained side", format!("{} is gone", e)); }
            }
            if convex {
                for v in &pts {
                    if have.contains(v) { continue; }
                    for x in t.triangles.iter() {
                        if x.encircles(v) == Continence::Inside && may(x, v, &b) { return fail("not inserted", format!("{} is no vertex although it lies in the circle of {} and may be joined to it", v, x)); }
                    }
                }
                /* along slanted sides rounding can refuse a line that touches the boundary: only the square is exact */
                if kind > 0 { return Ok(()); }
                let all: Vec<P> = poly.iter().chain(inner.iter()).cloned().collect();
                unless_rounded(tiling(&t, &poly), &all)?;
                for x in t.triangles.iter().filter(|x| !gh(x)) {
                    let q = ps(x);
                    for v in have.iter() {
                        if incircle(q[0], q[1], q[2], pi(v)) > 0 { return unless_rounded(fail("circle", format!("{} lies in the circle of {}", v, x)), &all); }
                    }
                }
            }
            Ok(())
        });
        if kind == 0 {
            r.case("split a boundary side", format!("boundary {:?} points {:?} side {}", poly, inner, split), || {
                let q: Vec<P> = poly.iter().map(|p| (2 * p.0, 2 * p.1)).collect();
                let b = polygon(&q);
                let mut t = Triangulation::from_initial_segment((&b.vertices[0], &b.vertices[1]));
                boundary::include(&mut t, &b, &HashSet::new());
                let mut cons: HashSet<Rc<Edge>> = b.into_edges().into_iter().collect();
                vertices::include(&mut t, inner.iter().map(|&p| vx((2 * p.0, 2 * p.1))).collect(), &cons, &Some(Rc::clone(&b)), &HashSet::new());
                let (a, z) = (q[split], q[(split + 1) % q.len()]);
                let m = ((a.0 + z.0) / 2, (a.1 + z.1) / 2);
                let mid = vx(m);
                let mut all: Vec<P> = q.iter().cloned().chain(inner.iter().map(|&p| (2 * p.0, 2 * p.1))).collect();
                all.push(m);
                cons.remove(&edge(&vx(a), &vx(z)));
                vertices::include(&mut t, vec![Rc::clone(&mid)], &cons, &Some(Rc::clone(&b)), &HashSet::new());
                for e in &[edge(&vx(a), &mid), edge(&mid, &vx(z))] {
                    if !t.adjacency.contains_key(e) || !t.adjacency.contains_key(&e.opposite()) { return unless_rounded(fail("halves", format!("half {} has no triangle on both sides", e)), &all); }
                }
                unless_rounded(tiling(&t, &q), &all)
            });
        }
    }
    r.done();
}
