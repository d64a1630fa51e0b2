//! Vertices, edges and triangles over a handful of coordinates (so that equal ones are frequent), negative zero, ghosts with any coordinates and
//! coordinates within 1e-14 of each other included; laws of ==, cmp and Hash checked on triples; sorting against a reference sort.
use nlsn_delaunay::elements::{edge::Edge, triangle::Triangle, vertex::Vertex};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use vh::*;

type V = (f64, f64, bool);

fn mk(v: V) -> Rc<Vertex> {
    Rc::new(Vertex { x: v.0, y: v.1, is_ghost: v.2 })
}

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

fn same(a: V, b: V) -> bool {
    (a.2 && b.2) || (!a.2 && !b.2 && a.0 == b.0 && a.1 == b.1)
}

fn gen(r: &mut Rng) -> V {
    let c = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-300, -1e-300, 1e9, 3.25];
    (*r.pick(&c), *r.pick(&c), r.below(4) == 0)
}

fn main() {
    let mut r = Run::start();
    // the listed finding: vertices equal within the tolerance hash differently, and the tolerance is not transitive
    r.case("tolerance", "(1,1) and (1+4e-15,1)".into(), || {
        let (a, b) = (mk((1.0, 1.0, false)), mk((1.0 + 4e-15, 1.0, false)));
        if a == b && h(&a) != h(&b) { fail("hash-within-tolerance", "equal vertices hash differently".into()) } else { Ok(()) }
    });
    r.case("tolerance", "(0,0), (8e-15,0), (16e-15,0)".into(), || {
        let (a, b, c) = (mk((0.0, 0.0, false)), mk((8e-15, 0.0, false)), mk((16e-15, 0.0, false)));
        if a == b && b == c && a != c { fail("equality-not-transitive-within-tolerance", "a == b, b == c, a != c".into()) } else { Ok(()) }
    });
    while r.more() {
        let (x, y) = (r.rng.int(-8, 8) as f64 / 8.0, r.rng.int(-8, 8) as f64 / 8.0);
        let d = 10f64.powi(-(r.rng.int(1, 13) as i32)) * 2.0;
        let axis = r.rng.chance(2);
        r.case("near misses", format!("({},{}) moved by {} along {}", x, y, d, if axis { "x" } else { "y" }), || {
            let (a, b) = (mk((x, y, false)), if axis { mk((x + d, y, false)) } else { mk((x, y + d, false)) });
            if a == b || b == a { return fail("vertex equality", "vertices further apart than the tolerance are equal".into()); }
            let c = mk((y, x, false));
            if Edge::new(&a, &c) == Edge::new(&b, &c) || Edge::new(&c, &a) == Edge::new(&c, &b) { return fail("edge equality", "edges with different ends are equal".into()); }
            let e = mk((x + 3.0, y - 5.0, false));
            if tri(&a, &c, &e) == tri(&b, &c, &e) || tri(&a, &c, &e) == tri(&c, &e, &b) || tri(&a, &c, &e) == tri(&e, &b, &c) { return fail("triangle equality", "triangles with different corners are equal".into()); }
            Ok(())
        });
        let v: Vec<V> = (0..6).map(|_| gen(&mut r.rng)).collect();
        let txt = format!("{:?}", v);
        // tiny coordinates are within the tolerance of zero: laws that need exactness skip them
        let tiny = v.iter().any(|a| a.0.abs() == 1e-300 || a.1.abs() == 1e-300);
        let m: Vec<Rc<Vertex>> = v.iter().map(|&a| mk(a)).collect();
        r.case("vertex laws", txt.clone(), || {
            for i in 0..6 {
                for j in 0..6 {
                    let e = m[i] == m[j];
                    if !tiny && e != same(v[i], v[j]) { return fail("vertex equality", format!("{:?} == {:?} is {}", v[i], v[j], e)); }
                    if e != (m[j] == m[i]) { return fail("vertex equality", format!("not symmetric {:?} {:?}", v[i], v[j])); }
                    if same(v[i], v[j]) && h(&m[i]) != h(&m[j]) { return fail("vertex hash", format!("{:?} and {:?} are equal and hash differently", v[i], v[j])); }
                    let o = m[i].cmp(&m[j]);
                    if (o == Ordering::Equal) != same(v[i], v[j]) { return fail("vertex order", format!("cmp({:?},{:?}) = {:?}", v[i], v[j], o)); }
                    if o != m[j].cmp(&m[i]).reverse() { return fail("vertex order", format!("not antisymmetric {:?} {:?}", v[i], v[j])); }
                    if m[i].partial_cmp(&m[j]) != Some(o) { return fail("vertex order", format!("partial_cmp differs {:?} {:?}", v[i], v[j])); }
                    if !v[i].2 && !v[j].2 && o != (v[i].0, v[i].1).partial_cmp(&(v[j].0, v[j].1)).unwrap() { return fail("vertex order", format!("not lexicographic {:?} {:?}", v[i], v[j])); }
                    for k in 0..6 {
                        if o != Ordering::Greater && m[j].cmp(&m[k]) != Ordering::Greater && m[i].cmp(&m[k]) == Ordering::Greater {
                            return fail("vertex order", format!("not transitive {:?} {:?} {:?}", v[i], v[j], v[k]));
                        }
                    }
                }
            }
            Ok(())
        });
        if !tiny {
            let pick = [0, 1, 2].iter().map(|_| r.rng.below(3) as usize).collect::<Vec<_>>();
            r.case("edge laws", format!("{} {:?}", txt, pick), || {
                let (a, b) = (Edge::new(&m[0], &m[1]), Edge::new(&m[pick[0]], &m[pick[1]]));
                let e = same(v[0], v[pick[0]]) && same(v[1], v[pick[1]]);
                if (a == b) != e { return fail("edge equality", format!("expected {}", e)); }
                if e && h(&a) != h(&b) { return fail("edge hash", "equal edges hash differently".into()); }
                Ok(())
            });
            let d: Vec<usize> = match r.rng.below(6) { 0 => vec![0, 1, 2], 1 => vec![1, 2, 0], 2 => vec![2, 0, 1], 3 => vec![1, 0, 2], 4 => vec![0, 2, 1], _ => (0..3).map(|_| r.rng.below(6) as usize).collect() };
            r.case("triangle laws", format!("{} {:?}", txt, d), || {
                let (a, b) = (Triangle::new(&m[0], &m[1], &m[2]), Triangle::new(&m[d[0]], &m[d[1]], &m[d[2]]));
                let e = (0..3).any(|k| (0..3).all(|i| same(v[i], v[d[(i + k) % 3]])));
                if (a == b) != e || (b == a) != e { return fail("triangle equality", format!("expected {}", e)); }
                if e && h(&a) != h(&b) { return fail("triangle hash", "triangles equal up to rotation hash differently".into()); }
                Ok(())
            });
        }
        let n = r.rng.below(9);
        let p: Vec<(f64, f64)> = (0..n).map(|_| { let a = gen(&mut r.rng); (a.0, a.1) }).collect();
        r.case("sort", format!("{:?}", p), || {
            let mut g: Vec<Rc<Vertex>> = p.iter().map(|a| mk((a.0, a.1, false))).collect();
            Vertex::sort(&mut g);
            let mut e = p.clone();
            e.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let gg: Vec<(f64, f64)> = g.iter().map(|v| (v.x, v.y)).collect();
            if gg == e { Ok(()) } else { fail("sort", format!("got {:?}", gg)) }
        });
    }
    r.done();
}
