//! Random input actions (polylines, circles, segments listed by pairs or by index, vertices; too short, out of range, unknown ones included) given to the parsers and to the
//! whole reading of the input: what is built and what is refused, never a panic.
use nlsn_delaunay::elements::{edge::Edge, polyline::Polyline, vertex::Vertex};
use std::collections::HashSet;
use std::rc::Rc;
use vh::*;

#[allow(dead_code)]
#[path = "/repo/src/json_serializar/mod.rs"]
mod json_serializar;
#[allow(dead_code)]
#[path = "/repo/src/triangulator_interface/mod.rs"]
mod triangulator_interface;
use json_serializar::models::{action::Action, input::*, point::Point};
use triangulator_interface::interpreter;
use interpreter::{circle_parser, polyline_parser, refine_params_parser, segments_parser, vertices_parser};

type F = (u64, u64);

fn fp(v: &Vertex) -> F {
    ((v.x + 0.0).to_bits(), (v.y + 0.0).to_bits())
}

fn qp(p: &P) -> F {
    ((p.0 as f64 + 0.0).to_bits(), (p.1 as f64 + 0.0).to_bits())
}

fn action(intent: &str, geometry: &str, scalars: &[f64], ps: &[P], asm: &[Vec<usize>]) -> Action {
    Action { intent: intent.into(), geometry: geometry.into(), scalars: scalars.to_vec(), points: ps.iter().map(|p| Point { x: p.0 as f64, y: p.1 as f64, z: 0.0 }).collect(), assemble: asm.to_vec() }
}

fn is_circle(p: &Polyline, c: P, r: f64, n: usize) -> Result<(), Fail> {
    if p.opened { return fail("circle opened", "the circle is an opened line".into()); }
    if p.vertices.len() != n { return fail("circle corners", format!("{} corners instead of {}", p.vertices.len(), n)); }
    let (cx, cy) = (c.0 as f64, c.1 as f64);
    for (i, v) in p.vertices.iter().enumerate() {
        let a = 2.0 * std::f64::consts::PI * i as f64 / n as f64;
        if (v.x - (cx + r * a.cos())).abs() > 1e-9 || (v.y - (cy + r * a.sin())).abs() > 1e-9 { return fail("circle corner", format!("corner {} is {}", i, v)); }
    }
    Ok(())
}

fn same_lines(have: &[Rc<Polyline>], want: &[Vec<F>]) -> bool {
    have.len() == want.len() && have.iter().zip(want).all(|(p, w)| !p.opened && p.vertices.iter().map(|v| fp(v)).collect::<Vec<_>>() == *w)
}

fn main() {
    let mut r = Run::start();
    while r.more() {
        let n = r.rng.below(8);
        let w = if r.rng.chance(3) { 2 } else { 9 };
        let ps: Vec<P> = (0..n).map(|_| (r.rng.int(-w, w), r.rng.int(-w, w))).collect();
        r.case("vertices", format!("{:?}", ps), || {
            match vertices_parser::parse(&action("constraint", "vertices", &[], &ps, &[])) {
                Err(_) => fail("vertices refused", "points of vertices are never refused".into()),
                Ok(s) => {
                    let have: HashSet<F> = s.iter().map(|v| fp(v)).collect();
                    let want: HashSet<F> = ps.iter().map(qp).collect();
                    if have != want || s.len() != want.len() || s.iter().any(|v| v.is_ghost) { return fail("vertices", format!("{} vertices", s.len())); }
                    Ok(())
                }
            }
        });
        r.case("polyline", format!("{:?}", ps), || {
            match polyline_parser::parse(&action("include", "polyline", &[], &ps, &[])) {
                Err(_) => if ps.len() >= 3 && is_simple(&ps) { fail("polyline refused", "a simple polygon was refused".into()) } else { Ok(()) },
                Ok(p) => {
                    if ps.len() < 3 { return fail("polyline accepted", "fewer than three points are no region".into()); }
                    if p.opened || p.vertices.iter().map(|v| fp(v)).collect::<Vec<_>>() != ps.iter().map(qp).collect::<Vec<_>>() { return fail("polyline", format!("{} vertices", p.vertices.len())); }
                    Ok(())
                }
            }
        });
        let rows: Vec<Vec<usize>> = (0..r.rng.below(4)).map(|_| { let k = if r.rng.chance(8) { r.rng.below(4) } else { 2 }; (0..k).map(|_| if r.rng.chance(9) { n } else { r.rng.below(n.max(1)) }).collect() }).collect();
        r.case("segments", format!("{:?} {:?}", ps, rows), || {
            let got = segments_parser::parse(&action("constraint", "segments", &[], &ps, &rows));
            let want: Option<HashSet<(F, F)>> = if rows.is_empty() {
                if n % 2 == 1 { None } else { Some(ps.chunks(2).map(|c| (qp(&c[0]), qp(&c[1]))).collect()) }
            } else if rows.iter().any(|q| q.len() < 2 || q[0] >= n || q[1] >= n) { None } else { Some(rows.iter().map(|q| (qp(&ps[q[0]]), qp(&ps[q[1]]))).collect()) };
            match (got, want) {
                (Err(_), None) => Ok(()),
                (Err(_), Some(_)) => fail("segments refused", "well formed segments were refused".into()),
                (Ok(_), None) => fail("segments accepted", "malformed segments were accepted".into()),
                (Ok(s), Some(want)) => {
                    let have: HashSet<(F, F)> = s.iter().map(|e: &Rc<Edge>| (fp(&e.v1), fp(&e.v2))).collect();
                    if have != want { return fail("segments", format!("{:?} instead of {:?}", have.len(), want.len())); }
                    Ok(())
                }
            }
        });
        let rad = r.rng.int(1, 40) as f64 / 4.0;
        let res: Option<usize> = if r.rng.chance(4) { None } else { Some(r.rng.below(12)) };
        let sc: Vec<f64> = if r.rng.chance(8) { vec![] } else { match res { Some(k) => vec![rad, k as f64], None => vec![rad] } };
        r.case("circle", format!("{:?} {:?}", ps, sc), || {
            let k = res.unwrap_or(100);
            let well = ps.len() == 1 && !sc.is_empty() && k >= 3;
            match circle_parser::parse(&action("include", "circle", &sc, &ps, &[])) {
                Err(_) => if well { fail("circle refused", "a circle was refused".into()) } else { Ok(()) },
                Ok(p) => if well { is_circle(&p, ps[0], rad, k) } else { fail("circle accepted", "no circle".into()) },
            }
        });
        let ma = if r.rng.chance(2) { None } else { Some(r.rng.int(1, 9) as f64) };
        let q = r.rng.int(1, 30) as f64 / 10.0;
        // a list of actions
        let mut acts: Vec<(&str, &str, Vec<P>, Vec<f64>)> = vec![];
        for _ in 0..r.rng.below(6) {
            let good = !r.rng.chance(12);
            let geo = r.rng.below(if good { 4 } else { 5 });
            let g = ["polyline", "circle", "segments", "vertices", "spline"][geo];
            let i = if good { if geo < 2 { *r.rng.pick(&["include", "remove"]) } else { "constraint" } } else { *r.rng.pick(&["include", "remove", "constraint", "nothing"]) };
            let pts = match geo { 0 => { let o = (r.rng.int(-w, w), r.rng.int(-w, w)); vec![o, (o.0 + 2, o.1), (o.0 + 1, o.1 + 3)] }, 1 => vec![(r.rng.int(-w, w), r.rng.int(-w, w))], _ => (0..2 * (1 + r.rng.below(2))).map(|_| (r.rng.int(-w, w), r.rng.int(-w, w))).collect() };
            acts.push((i, g, pts, if geo == 1 { vec![2.0, 5.0] } else { vec![] }));
        }
        r.case("interpreter", format!("{:?} area {:?} quality {}", acts, ma, q), || {
            let input = TriangulationInput { id: uuid::Uuid::nil(), name: "x".into(), date: "d".into(), actions: acts.iter().map(|a| action(a.0, a.1, &a.3, &a.2, &[])).collect(), params: RefineParams { max_area: ma, quality: q } };
            let p = refine_params_parser::parse(&input.params).unwrap();
            if p.max_area != ma || p.quality_ratio != q { return fail("params", "other parameters".into()); }
            let well = acts.iter().all(|a| match a.1 { "polyline" | "circle" => a.0 == "include" || a.0 == "remove", "segments" | "vertices" => a.0 == "constraint", _ => false });
            match interpreter::parse(&input) {
                Err(_) => if well { fail("input refused", "a well formed input was refused".into()) } else { Ok(()) },
                Ok((inc, rem, segs, vs, p)) => {
                    if !well { return fail("input accepted", "unknown intent or geometry was accepted".into()); }
                    if p.max_area != ma || p.quality_ratio != q { return fail("params", "other parameters".into()); }
                    let circ = |c: P| circle_parser::parse(&action("include", "circle", &[2.0, 5.0], &[c], &[])).unwrap().vertices.iter().map(|v| fp(v)).collect::<Vec<F>>();
                    let lines = |i: &str| acts.iter().filter(|a| a.0 == i).map(|a| if a.1 == "circle" { circ(a.2[0]) } else { a.2.iter().map(qp).collect() }).collect::<Vec<_>>();
                    if !same_lines(&inc, &lines("include")) { return fail("included regions", "other regions are included".into()); }
                    if !same_lines(&rem, &lines("remove")) { return fail("removed regions", "other regions are removed".into()); }
                    let ws: HashSet<(F, F)> = acts.iter().filter(|a| a.1 == "segments").flat_map(|a| a.2.chunks(2).map(|c| (qp(&c[0]), qp(&c[1]))).collect::<Vec<_>>()).collect();
                    if segs.iter().map(|e| (fp(&e.v1), fp(&e.v2))).collect::<HashSet<_>>() != ws { return fail("constraint segments", "other segments".into()); }
                    let wv: HashSet<F> = acts.iter().filter(|a| a.1 == "vertices").flat_map(|a| a.2.iter().map(qp).collect::<Vec<_>>()).collect();
                    if vs.iter().map(|v| fp(v)).collect::<HashSet<_>>() != wv { return fail("constraint vertices", "other vertices".into()); }
                    Ok(())
                }
            }
        });
    }
    r.done();
}
