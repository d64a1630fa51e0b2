//! Shared parts of the bounded searches: seeded generator, reporting, watchdog, exact oracles.
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut Vec<T>) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

/// a failure: a stable key naming the clause, and what was seen
pub type Fail = (String, String);

pub fn fail<T>(key: &str, what: String) -> Result<T, Fail> {
    Err((key.to_string(), what))
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

pub struct Run {
    pub rng: Rng,
    pub seed: u64,
    until: Instant,
    cases: u64,
    kinds: BTreeMap<String, u64>,
    reported: BTreeMap<String, u64>,
    inputs: HashSet<u64>,
    samples: Vec<String>,
    cur: Arc<Mutex<(Option<Instant>, String)>>,
}

fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Run {
    /// arguments: seed, seconds
    pub fn start() -> Run {
        let a: Vec<String> = std::env::args().collect();
        let seed = a.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
        let secs: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(5);
        std::panic::set_hook(Box::new(|_| {}));
        let cur: Arc<Mutex<(Option<Instant>, String)>> = Arc::new(Mutex::new((None, String::new())));
        let w = cur.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = w.lock().unwrap();
            if let Some(t) = g.0 {
                if t.elapsed() > Duration::from_secs(40) {
                    println!("{{\"violation\":{{\"key\":\"does-not-return\",\"what\":\"no answer within 40 seconds\",\"input\":\"{}\"}}}}", esc(&g.1));
                    println!("{{\"done\":{{\"cases\":0}}}}");
                    std::process::exit(1);
                }
            }
        });
        Run {
            rng: Rng::new(seed), seed, until: Instant::now() + Duration::from_secs(secs), cases: 0, kinds: BTreeMap::new(), reported: BTreeMap::new(),
            inputs: HashSet::new(), samples: vec![], cur,
        }
    }
    pub fn more(&self) -> bool {
        Instant::now() < self.until && self.reported.values().sum::<u64>() < 12
    }
    /// run one case; a panic is a failure with key "panic"
    pub fn case<F: FnOnce() -> Result<(), Fail>>(&mut self, kind: &str, input: String, f: F) {
        self.cases += 1;
        *self.kinds.entry(kind.to_string()).or_insert(0) += 1;
        if self.inputs.len() < 3_000_000 {
            self.inputs.insert(hash(&input) ^ hash(kind));
        }
        if self.samples.len() < 3 && self.kinds[kind] == 2 {
            self.samples.push(format!("{}: {}", kind, input));
        }
        {
            let mut g = self.cur.lock().unwrap();
            g.0 = Some(Instant::now());
            g.1 = input.clone();
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        self.cur.lock().unwrap().0 = None;
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                let m = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() };
                Err((format!("panic-{}", kind), format!("panicked: {}", m)))
            }
        };
        if let Err((key, what)) = r {
            let n = self.reported.entry(key.clone()).or_insert(0);
            *n += 1;
            if *n <= 2 {
                println!("{{\"violation\":{{\"key\":\"{}\",\"what\":\"{}\",\"input\":\"{}\"}}}}", esc(&key), esc(&what), esc(&format!("[{}] {}", kind, input)));
            } else {
                // known findings repeat: do not count them twice against the limit
                *n -= 1;
            }
        }
    }
    pub fn done(self) {
        let ks: Vec<String> = self.kinds.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
        let ss: Vec<String> = self.samples.iter().map(|s| format!("\"{}\"", esc(&s.chars().take(400).collect::<String>()))).collect();
        println!("{{\"done\":{{\"cases\":{},\"distinct\":{},\"kinds\":{{{}}},\"samples\":[{}]}}}}", self.cases, self.inputs.len(), ks.join(","), ss.join(","));
    }
}

// ---------------------------------------------------------------- exact geometry on a grid
pub type P = (i64, i64);

pub fn orient(a: P, b: P, c: P) -> i128 {
    let (ax, ay, bx, by, cx, cy) = (a.0 as i128, a.1 as i128, b.0 as i128, b.1 as i128, c.0 as i128, c.1 as i128);
    (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)
}

pub fn incircle(a: P, b: P, c: P, d: P) -> i128 {
    let f = |p: P| {
        let (x, y) = ((p.0 - d.0) as i128, (p.1 - d.1) as i128);
        (x, y, x * x + y * y)
    };
    let (a, b, c) = (f(a), f(b), f(c));
    a.0 * (b.1 * c.2 - b.2 * c.1) - a.1 * (b.0 * c.2 - b.2 * c.0) + a.2 * (b.0 * c.1 - b.1 * c.0)
}

pub fn dot(a: P, b: P, c: P, d: P) -> i128 {
    ((b.0 - a.0) as i128) * ((d.0 - c.0) as i128) + ((b.1 - a.1) as i128) * ((d.1 - c.1) as i128)
}

pub fn on_segment(p: P, a: P, b: P) -> bool {
    orient(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}

/// even-odd containment: 1 inside, 0 on the boundary, -1 outside
pub fn in_polygon(p: P, poly: &[P]) -> i32 {
    let n = poly.len();
    let mut inside = false;
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        if on_segment(p, a, b) {
            return 0;
        }
        if (a.1 > p.1) != (b.1 > p.1) {
            // strictly to the left of the crossing
            let o = orient(a, b, p);
            if (b.1 > a.1) == (o > 0) {
                inside = !inside;
            }
        }
    }
    if inside { 1 } else { -1 }
}

// ---------------------------------------------------------------- objects of the code under test
use nlsn_delaunay::elements::{edge::Edge, polyline::Polyline, triangle::Triangle, vertex::Vertex};
use std::rc::Rc;

pub fn vx(p: P) -> Rc<Vertex> {
    Rc::new(Vertex::new(p.0 as f64, p.1 as f64))
}

pub fn ghost() -> Rc<Vertex> {
    Rc::new(Vertex::new_ghost())
}

/// coordinates of a vertex, None for a ghost
pub fn pt(v: &Vertex) -> Option<(f64, f64)> {
    if v.is_ghost { None } else { Some((v.x, v.y)) }
}

/// a comparable name of a vertex
pub type Id = (bool, u64, u64);

pub fn id(v: &Vertex) -> Id {
    if v.is_ghost { (true, 0, 0) } else { (false, (v.x + 0.0).to_bits(), (v.y + 0.0).to_bits()) }
}

pub fn eid(e: &Edge) -> (Id, Id) {
    (id(&e.v1), id(&e.v2))
}

/// corners, rotated so that the smallest comes first
pub fn tid(t: &Triangle) -> (Id, Id, Id) {
    let (a, b, c) = (id(&t.v1), id(&t.v2), id(&t.v3));
    let mut r = vec![(a, b, c), (b, c, a), (c, a, b)];
    r.sort();
    r[0]
}

pub fn tri(a: &Rc<Vertex>, b: &Rc<Vertex>, c: &Rc<Vertex>) -> Rc<Triangle> {
    Rc::new(Triangle::new(a, b, c))
}

pub fn edge(a: &Rc<Vertex>, b: &Rc<Vertex>) -> Rc<Edge> {
    Rc::new(Edge::new(a, b))
}

pub fn polygon(ps: &[P]) -> Rc<Polyline> {
    Rc::new(Polyline::new_closed(ps.iter().map(|&p| vx(p)).collect()).unwrap())
}

/// twice the signed area
pub fn area2(ps: &[P]) -> i128 {
    (0..ps.len()).map(|i| { let (a, b) = (ps[i], ps[(i + 1) % ps.len()]); a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128 }).sum()
}

pub fn segments_meet(a: P, b: P, c: P, d: P) -> bool {
    let (o1, o2, o3, o4) = (orient(a, b, c).signum(), orient(a, b, d).signum(), orient(c, d, a).signum(), orient(c, d, b).signum());
    if o1 * o2 < 0 && o3 * o4 < 0 {
        return true;
    }
    on_segment(c, a, b) || on_segment(d, a, b) || on_segment(a, c, d) || on_segment(b, c, d)
}

/// no two sides meet except neighbours at their common corner
pub fn is_simple(ps: &[P]) -> bool {
    let n = ps.len();
    for i in 0..n {
        let (a, b) = (ps[i], ps[(i + 1) % n]);
        if a == b {
            return false;
        }
        for j in (i + 1)..n {
            let (c, d) = (ps[j], ps[(j + 1) % n]);
            if j == i + 1 || (i == 0 && j == n - 1) {
                // common corner only
                let (p, q) = if j == i + 1 { (a, d) } else { (b, c) };
                let s = if j == i + 1 { b } else { a };
                if orient(p, s, q) == 0 && dot(s, p, s, q) > 0 {
                    return false;
                }
                if n > 3 && (if j == i + 1 { on_segment(d, a, b) || on_segment(a, c, d) } else { on_segment(c, a, b) || on_segment(b, c, d) }) {
                    return false;
                }
            } else if segments_meet(a, b, c, d) {
                return false;
            }
        }
    }
    n >= 3 && area2(ps) != 0
}

/// a random simple polygon on a grid, counter-clockwise
pub fn simple_polygon(r: &mut Rng, n: usize, w: i64) -> Vec<P> {
    loop {
        let k = 3 + r.below(n - 2);
        let mut ps: Vec<P> = (0..k).map(|_| (r.int(0, w), r.int(0, w))).collect();
        ps.sort();
        ps.dedup();
        if ps.len() < 3 {
            continue;
        }
        r.shuffle(&mut ps);
        // untangle
        for _ in 0..60 {
            let m = ps.len();
            let mut done = true;
            'o: for i in 0..m {
                for j in (i + 2)..m {
                    if i == 0 && j == m - 1 {
                        continue;
                    }
                    if segments_meet(ps[i], ps[i + 1], ps[j], ps[(j + 1) % m]) {
                        ps[i + 1..=j].reverse();
                        done = false;
                        break 'o;
                    }
                }
            }
            if done {
                break;
            }
        }
        if !is_simple(&ps) {
            continue;
        }
        if area2(&ps) < 0 {
            ps.reverse();
        }
        return ps;
    }
}

/// ear clipping of a counter-clockwise simple polygon
pub fn ears(poly: &[P]) -> Vec<[P; 3]> {
    let mut ps = poly.to_vec();
    let mut out = vec![];
    while ps.len() > 3 {
        let n = ps.len();
        let k = (0..n).find(|&i| {
            let (a, b, c) = (ps[(i + n - 1) % n], ps[i], ps[(i + 1) % n]);
            orient(a, b, c) > 0 && !ps.iter().any(|&p| p != a && p != b && p != c && orient(a, b, p) >= 0 && orient(b, c, p) >= 0 && orient(c, a, p) >= 0)
        });
        match k {
            Some(i) => {
                out.push([ps[(i + n - 1) % n], ps[i], ps[(i + 1) % n]]);
                ps.remove(i);
            }
            None => {
                // a corner in line
                match (0..n).find(|&i| orient(ps[(i + n - 1) % n], ps[i], ps[(i + 1) % n]) == 0) {
                    Some(i) => { ps.remove(i); }
                    None => break,
                }
            }
        }
    }
    if ps.len() == 3 && orient(ps[0], ps[1], ps[2]) > 0 {
        out.push([ps[0], ps[1], ps[2]]);
    }
    out
}
