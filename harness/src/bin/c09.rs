//! Random simple polygons against random lines, opened and closed, on a small grid (touching and sharing sides often); the parts of the line strictly
//! inside and strictly outside are found exactly with rational arithmetic.
use nlsn_delaunay::elements::polyline::Polyline;
use nlsn_delaunay::properties::continence::{BoundaryInclusion, Continence};
use vh::*;

type Q = (i64, i64);

/// parameters on a b where it meets c d
fn meets(a: P, b: P, c: P, d: P, out: &mut Vec<Q>) {
    let (ux, uy, vx, vy) = (b.0 - a.0, b.1 - a.1, d.0 - c.0, d.1 - c.1);
    let den = ux * vy - uy * vx;
    let (wx, wy) = (c.0 - a.0, c.1 - a.1);
    if den != 0 {
        let (t, s) = (wx * vy - wy * vx, wx * uy - wy * ux);
        let (t, s, den) = if den < 0 { (-t, -s, -den) } else { (t, s, den) };
        if t >= 0 && t <= den && s >= 0 && s <= den { out.push((t, den)); }
    } else {
        for p in [c, d] {
            if on_segment(p, a, b) {
                let l = ux * ux + uy * uy;
                out.push((((p.0 - a.0) * ux + (p.1 - a.1) * uy), l));
            }
        }
    }
}

fn parts(p1: &[P], sides: &[(P, P)]) -> (bool, bool, bool) {
    let (mut ins, mut outs, mut touch) = (false, false, false);
    for &(a, b) in sides {
        let mut ts: Vec<Q> = vec![(0, 1), (1, 1)];
        let k = ts.len();
        for i in 0..p1.len() { meets(a, b, p1[i], p1[(i + 1) % p1.len()], &mut ts); }
        if ts.len() > k { touch = true; }
        ts.sort_by(|x, y| (x.0 * y.1).cmp(&(y.0 * x.1)));
        for w in ts.windows(2) {
            let ((n1, d1), (n2, d2)) = (w[0], w[1]);
            if n1 * d2 == n2 * d1 { continue; }
            let (n, d) = (n1 * d2 + n2 * d1, 2 * d1 * d2);
            let q = (a.0 * d + n * (b.0 - a.0), a.1 * d + n * (b.1 - a.1));
            let big: Vec<P> = p1.iter().map(|p| (p.0 * d, p.1 * d)).collect();
            match in_polygon(q, &big) { 1 => ins = true, -1 => outs = true, _ => {} }
        }
    }
    (ins, outs, touch)
}

/// every point where two of the sides meet divides them by a binary fraction; elsewhere the code works with rounded points
fn binary(sides: &[(P, P)]) -> bool {
    for &(a, b) in sides {
        for &(c, d) in sides {
            let mut ts = vec![];
            meets(a, b, c, d, &mut ts);
            for (n, d) in ts {
                let mut e = d;
                while e % 2 == 0 { e /= 2; }
                if n % e != 0 { return false; }
            }
        }
    }
    true
}

fn main() {
    let mut r = Run::start();
    while r.more() {
        let w = r.rng.int(3, 7);
        let mut p1 = simple_polygon(&mut r.rng, 7, w);
        let opened = r.rng.chance(2);
        let mut p2: Vec<P> = if r.rng.chance(2) { simple_polygon(&mut r.rng, 6, w) } else { (0..3 + r.rng.below(4)).map(|_| (r.rng.int(0, w), r.rng.int(0, w))).collect() };
        if r.rng.chance(3) { for _ in 0..2 { let i = r.rng.below(p2.len()); p2[i] = *r.rng.pick(&p1); } }
        if opened && r.rng.chance(2) { p2.truncate(2); }
        if r.rng.chance(3) { p1.reverse(); }
        if r.rng.chance(3) { let s = r.rng.int(-3, 3); for p in p2.iter_mut() { p.0 += s; } }
        let n = p2.len();
        if (0..n).any(|i| p2[i] == p2[(i + 1) % n]) { continue; }
        let sides: Vec<(P, P)> = (0..if opened { n - 1 } else { n }).map(|i| (p2[i], p2[(i + 1) % n])).collect();
        r.case(if opened { "opened line" } else { "closed line" }, format!("{:?} against {:?}", p1, p2), || {
            let a = polygon(&p1);
            let vs = p2.iter().map(|&p| vx(p)).collect();
            let b = if opened { Polyline::new_opened(vs) } else { Polyline::new_closed(vs) }.unwrap();
            let got = Polyline::continence(&a, &b);
            let (ins, outs, touch) = parts(&p1, &sides);
            let two: Vec<P> = p1.iter().map(|p| (2 * p.0, 2 * p.1)).collect();
            let crit: Vec<i32> = sides.iter().flat_map(|&(a, b)| vec![(2 * a.0, 2 * a.1), (2 * b.0, 2 * b.1), (a.0 + b.0, a.1 + b.1)]).map(|q| in_polygon(q, &two)).collect();
            let closed = crit.contains(&0);
            let strict = crit.iter().any(|&x| x != 0);
            let want = match (ins, outs) {
                (true, true) => None,
                (true, false) => Some(Continence::Inside),
                (false, true) => Some(Continence::Outside),
                _ => Some(Continence::Boundary),
            };
            match (&got, &want) {
                (None, None) => {}
                (None, Some(_)) => if !touch || strict && binary(&sides.iter().cloned().chain((0..p1.len()).map(|i| (p1[i], p1[(i + 1) % p1.len()]))).collect::<Vec<_>>()) { return fail("one-sided", format!("no answer, expected {:?}", want)); },
                (Some(_), None) => return fail("two-sided", format!("{:?} although the line has parts on both sides", got)),
                (Some((s, b)), Some(x)) => {
                    if s != x { return fail("side", format!("{:?}, expected {:?}", s, x)); }
                    if (*b == BoundaryInclusion::Closed) != closed { return fail("closedness", format!("{:?}", b)); }
                }
            }
            // an opened polygon has no inside
            let o = Polyline::new_opened(p1.iter().map(|&p| vx(p)).collect()).unwrap();
            if Polyline::continence(&o, &b).is_some() { return fail("opened", "an answer against an opened line".into()); }
            Ok(())
        });
    }
    r.done();
}
