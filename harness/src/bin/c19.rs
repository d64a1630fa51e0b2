//! Random triangulations (squares with random vertices, made by the triangulator) written as output: indices, coordinates and triangles are compared with the triangulation.
use nlsn_delaunay::elements::triangle::Triangle;
use nlsn_delaunay::planar::triangulator::Triangulator;
use std::collections::HashSet;
use vh::*;

#[allow(dead_code)]
#[path = "/repo/src/json_serializar/mod.rs"]
mod json_serializar;
use json_serializar::models::{input::*, output::TriangulationOutput};

fn bits(v: (f64, f64)) -> (u64, u64) {
    ((v.0 + 0.0).to_bits(), (v.1 + 0.0).to_bits())
}

fn rot(a: [(u64, u64); 3]) -> [(u64, u64); 3] {
    let mut r = vec![a, [a[1], a[2], a[0]], [a[2], a[0], a[1]]];
    r.sort();
    r[0]
}

fn solid(t: &Triangle) -> bool {
    !(t.v1.is_ghost || t.v2.is_ghost || t.v3.is_ghost)
}

fn main() {
    let mut r = Run::start();
    while r.more() {
        let n = if r.rng.chance(20) { 100 + r.rng.below(300) } else { r.rng.below(8) };
        let w = 10;
        let ps: Vec<P> = (0..n).map(|_| (r.rng.int(0, w), r.rng.int(0, w))).collect();
        let zero = r.rng.chance(3);
        let by_hand = n > 50 || r.rng.chance(2);
        let name = format!("n{}", r.rng.below(1000));
        r.case("output", format!("points {:?} {} {} {}", ps, zero, by_hand, name), || {
            let off = if zero { 0 } else { -3 };
            let sq: Vec<P> = vec![(off, off), (w + off + 1, off), (w + off + 1, w + off + 1), (off, w + off + 1)];
            let mut t = Triangulator::new(&polygon(&sq));
            if by_hand {
                let g = ghost();
                let tr = ears(&sq);
                {
                    let mut m = t.triangulation.borrow_mut();
                    for x in &tr { m.include_triangle(&tri(&vx(x[0]), &vx(x[1]), &vx(x[2]))); }
                    for i in 0..4 { m.include_triangle(&tri(&vx(sq[(i + 1) % 4]), &vx(sq[i]), &g)); }
                    // triangles that share nothing with the others
                    for (i, q) in ps.chunks(3).enumerate() {
                        if q.len() == 3 && orient(q[0], q[1], q[2]) != 0 { let s = |p: P| vx((p.0 + 100 + 20 * i as i64, p.1 - 100)); m.include_triangle(&tri(&s(q[0]), &s(q[1]), &s(q[2]))); }
                    }
                }
            } else {
                let set: HashSet<_> = ps.iter().filter(|&&p| in_polygon(p, &sq) > 0).map(|&p| vx(p)).collect();
                if t.insert_vertices(&set).is_err() { return Ok(()); }
                t.triangulate();
            }
            let input = TriangulationInput { id: uuid::Uuid::nil(), name: name.clone(), date: "2020-09-03T00:09:27.591Z".into(), actions: vec![], params: RefineParams { max_area: None, quality: 1.0 } };
            let out = TriangulationOutput::from_triangulator(&input, &t);
            let m = t.triangulation.borrow();
            if out.name != name || out.id != uuid::Uuid::nil() || out.date != input.date { return fail("name", "name, id or date changed".into()); }
            if !out.tetrahedrons.is_empty() { return fail("tetrahedra", "a plane triangulation has no tetrahedra".into()); }
            let want: Vec<_> = { let mut v: Vec<_> = m.triangles.iter().filter(|t| solid(t)).map(|t| rot([bits((t.v1.x, t.v1.y)), bits((t.v2.x, t.v2.y)), bits((t.v3.x, t.v3.y))])).collect(); v.sort(); v };
            let mut have = vec![];
            // through the text that is written
            let text = serde_json::to_string(&out).unwrap();
            let v: serde_json::Value = serde_json::from_str(&text).unwrap();
            let cs: Vec<(f64, f64)> = v["coordinates"].as_array().unwrap().iter().map(|p| (p["x"].as_f64().unwrap(), p["y"].as_f64().unwrap())).collect();
            for t in v["triangles"].as_array().unwrap() {
                let ix: Vec<usize> = ["v1", "v2", "v3"].iter().map(|k| t[*k].as_u64().unwrap() as usize).collect();
                if ix.iter().any(|&i| i >= cs.len()) { return fail("index", format!("triangle {:?} has no such coordinate", ix)); }
                have.push(rot([bits(cs[ix[0]]), bits(cs[ix[1]]), bits(cs[ix[2]])]));
            }
            have.sort();
            if have != want { return fail("triangles", format!("{} triangles are written, {} stored, or corners differ", have.len(), want.len())); }
            let corners: HashSet<_> = m.triangles.iter().flat_map(|t| vec![t.v1.clone(), t.v2.clone(), t.v3.clone()]).filter(|v| !v.is_ghost).map(|v| bits((v.x, v.y))).collect();
            for c in &cs { if !corners.contains(&bits(*c)) { return fail("coordinates", format!("{:?} is no corner", c)); } }
            Ok(())
        });
    }
    r.done();
}
