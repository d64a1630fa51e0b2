#![feature(rustc_private)]
//! Dumps the MIR of every function of the crate being compiled as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER; it runs the real rustc front end on the
//! real sources and prints what the compiler built: nothing is rewritten.
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;

use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx {
    queue: VecDeque<(String, Job)>,
    seen: HashSet<String>,
    adts: BTreeMap<String, String>,
}
enum Job {
    Inst(Instance),
    Closure(ClosureDef, GenericArgs),
}

impl Cx {
    fn args(&mut self, a: &GenericArgs) -> String {
        list(
            a.0.iter()
                .filter_map(|g| match g {
                    GenericArgKind::Type(t) => Some(self.ty(*t)),
                    GenericArgKind::Const(c) => Some(format!("{{\"k\":\"const\",\"v\":{}}}", q(&format!("{:?}", c)))),
                    _ => None,
                })
                .collect(),
        )
    }
    fn ty(&mut self, t: Ty) -> String {
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "{\"k\":\"bool\"}".into(),
                RigidTy::Char => "{\"k\":\"char\"}".into(),
                RigidTy::Int(i) => format!("{{\"k\":\"int\",\"s\":true,\"n\":{}}}", q(&format!("{:?}", i))),
                RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"s\":false,\"n\":{}}}", q(&format!("{:?}", i))),
                RigidTy::Float(f) => format!("{{\"k\":\"float\",\"n\":{}}}", q(&format!("{:?}", f))),
                RigidTy::Adt(d, a) => {
                    let name = d.name();
                    let aj = self.args(&a);
                    let key = format!("{}", t);
                    if !self.adts.contains_key(&key) {
                        self.adts.insert(key.clone(), String::from("null"));
                        let local = d.krate().is_local || d.krate().name == "nlsn_delaunay";
                        let nm = name.as_str();
                        let expand = local
                            || nm.ends_with("::Option") || nm.ends_with("::Result")
                            || nm.ends_with("::Ordering") || nm.ends_with("::ControlFlow")
                            || nm.ends_with("::Range") || nm.contains("F64Margin");
                        let mut vs = vec![];
                        if expand {
                            for v in d.variants_iter() {
                                let fs: Vec<String> = v
                                    .fields()
                                    .iter()
                                    .map(|f| format!("[{},{}]", q(&f.name), self.ty(f.ty_with_args(&a))))
                                    .collect();
                                let dv = if d.kind().is_enum() { d.discriminant_for_variant(v.idx_pub()).val } else { 0 };
                                vs.push(format!("{{\"name\":{},\"fields\":{},\"discr\":\"{}\"}}", q(&v.name()), list(fs), dv));
                            }
                        }
                        let j = format!(
                            "{{\"name\":{},\"args\":{},\"kind\":{},\"variants\":{}}}",
                            q(&name), aj, q(&format!("{:?}", d.kind())),
                            if expand { list(vs) } else { "null".into() }
                        );
                        self.adts.insert(key.clone(), j);
                    }
                    format!("{{\"k\":\"adt\",\"name\":{},\"args\":{},\"key\":{}}}", q(&name), aj, q(&key))
                }
                RigidTy::Str => "{\"k\":\"str\"}".into(),
                RigidTy::Array(t, n) => {
                    let tj = self.ty(t);
                    format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", tj, q(&match n.eval_target_usize() { Ok(v) => v.to_string(), _ => "?".into() }))
                }
                RigidTy::Slice(t) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(t)),
                RigidTy::RawPtr(t, _) => format!("{{\"k\":\"ptr\",\"t\":{}}}", self.ty(t)),
                RigidTy::Ref(_, t, m) => format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}}}", m == Mutability::Mut, self.ty(t)),
                RigidTy::FnDef(d, a) => {
                    let f = self.fndef(d, &a);
                    format!("{{\"k\":\"fndef\",\"f\":{}}}", f)
                }
                RigidTy::Closure(d, a) => {
                    let name = d.name();
                    let key = name.clone();
                    if self.seen.insert(key.clone()) {
                        self.queue.push_back((key, Job::Closure(d, a.clone())));
                    }
                    let _ = a;
                    format!("{{\"k\":\"closure\",\"name\":{}}}", q(&name))
                }
                RigidTy::Never => "{\"k\":\"never\"}".into(),
                RigidTy::Tuple(ts) => format!("{{\"k\":\"tuple\",\"ts\":{}}}", list(ts.iter().map(|t| self.ty(*t)).collect())),
                other => format!("{{\"k\":\"other\",\"d\":{}}}", q(&format!("{:?}", other))),
            },
            other => format!("{{\"k\":\"other\",\"d\":{}}}", q(&format!("{:?}", other))),
        }
    }
    fn fndef(&mut self, d: FnDef, a: &GenericArgs) -> String {
        let aj = self.args(a);
        let mut inst = String::from("null");
        let mut local = false;
        let mut intr = String::from("null");
        if let Ok(i) = Instance::resolve(d, a) {
            let n = i.name();
            inst = q(&n);
            if let Some(x) = i.intrinsic_name() {
                intr = q(&x);
            }
            if i.def_krate_local() {
                local = true;
                if self.seen.insert(n.clone()) {
                    self.queue.push_back((n, Job::Inst(i)));
                }
            }
        }
        format!("{{\"def\":{},\"inst\":{},\"args\":{},\"local\":{},\"intr\":{},\"krate\":{}}}", q(&d.name()), inst, aj, local, intr, q(&d.krate().name))
    }
    fn place(&mut self, p: &Place) -> String {
        let pr: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"field\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"cindex\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Downcast(v) => format!("[\"downcast\",{}]", v.to_index_pub()),
                other => format!("[\"other\",{}]", q(&format!("{:?}", other))),
            })
            .collect();
        format!("[{},{}]", p.local, list(pr))
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                let v = match c.const_.kind() {
                    ConstantKind::Allocated(a) => match self.decode(c.const_.ty(), a, 0) {
                        Some(d) => d,
                        None => self.alloc(a),
                    },
                    ConstantKind::ZeroSized => "{\"zst\":true}".into(),
                    k => format!("{{\"other\":{}}}", q(&format!("{:?}", k))),
                };
                format!("[\"const\",{},{}]", t, v)
            }
            other => format!("[\"other\",{}]", q(&format!("{:?}", other))),
        }
    }
    fn alloc(&mut self, a: &Allocation) -> String {
        let bytes: Vec<String> = a.bytes.iter().map(|b| match b { Some(b) => b.to_string(), None => "null".into() }).collect();
        let mut ptrs = vec![];
        for (off, prov) in a.provenance.ptrs.iter() {
            let ga: rustc_public::mir::alloc::GlobalAlloc = prov.0.into();
            match ga {
                rustc_public::mir::alloc::GlobalAlloc::Memory(m) => ptrs.push(format!("[{},{}]", off, self.alloc(&m))),
                other => ptrs.push(format!("[{},{{\"other\":{}}}]", off, q(&format!("{:?}", other)))),
            }
        }
        format!("{{\"bytes\":[{}],\"ptrs\":[{}]}}", bytes.join(","), ptrs.join(","))
    }
    /// Decode a constant allocation into a structured value using the compiler's layout.
    fn decode(&mut self, t: Ty, a: &Allocation, off: usize) -> Option<String> {
        use rustc_public::abi::*;
        let rd = |o: usize, n: usize| -> Option<u128> {
            let mut v: u128 = 0;
            for i in 0..n { v |= ((*a.bytes.get(o + i)?)? as u128) << (8 * i); }
            Some(v)
        };
        let ptr_at = |o: usize| a.provenance.ptrs.iter().find(|(x, _)| *x == o).map(|(_, p)| {
            let ga: rustc_public::mir::alloc::GlobalAlloc = p.0.into(); ga });
        match t.kind() {
            TyKind::RigidTy(RigidTy::Bool) | TyKind::RigidTy(RigidTy::Char) | TyKind::RigidTy(RigidTy::Int(_))
            | TyKind::RigidTy(RigidTy::Uint(_)) | TyKind::RigidTy(RigidTy::Float(_)) => {
                let n = t.layout().ok()?.shape().size.bytes();
                Some(format!("{{\"bits\":\"{}\",\"size\":{}}}", rd(off, n)?, n))
            }
            TyKind::RigidTy(RigidTy::Ref(_, inner, _)) => match ptr_at(off)? {
                rustc_public::mir::alloc::GlobalAlloc::Memory(m) => {
                    let base = rd(off, 8)? as usize;
                    match inner.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = rd(off + 8, 8)? as usize;
                            let mut by = vec![];
                            for i in 0..n { by.push((*m.bytes.get(base + i)?)?); }
                            Some(format!("{{\"str\":{}}}", q(&String::from_utf8_lossy(&by))))
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let n = rd(off + 8, 8)? as usize;
                            let sz = el.layout().ok()?.shape().size.bytes();
                            let mut xs = vec![];
                            for i in 0..n { xs.push(self.decode(el, &m, base + i * sz)?); }
                            Some(format!("{{\"list\":{}}}", list(xs)))
                        }
                        _ => self.decode(inner, &m, base),
                    }
                }
                _ => None,
            },
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                if ts.is_empty() { return Some("{\"v\":0,\"fs\":[]}".into()); }
                let sh = t.layout().ok()?.shape();
                let FieldsShape::Arbitrary { offsets } = sh.fields else { return None };
                let mut xs = vec![];
                for (i, ft) in ts.iter().enumerate() { xs.push(self.decode(*ft, a, off + offsets[i].bytes())?); }
                Some(format!("{{\"v\":0,\"fs\":{}}}", list(xs)))
            }
            TyKind::RigidTy(RigidTy::Array(el, n)) => {
                let n = n.eval_target_usize().ok()? as usize;
                let sz = el.layout().ok()?.shape().size.bytes();
                let mut xs = vec![];
                for i in 0..n { xs.push(self.decode(el, a, off + i * sz)?); }
                Some(format!("{{\"list\":{}}}", list(xs)))
            }
            TyKind::RigidTy(RigidTy::Adt(d, ga)) => {
                let sh = t.layout().ok()?.shape();
                let (vidx, offs) = match &sh.variants {
                    VariantsShape::Empty => return None,
                    VariantsShape::Single { index } => {
                        let offs = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.clone(), _ => vec![] };
                        (index.to_index_pub(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &sh.fields else { return None };
                        let to = offsets[*tag_field].bytes();
                        let prim = match tag { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
                        let n = match prim { Primitive::Int { length, .. } => length.bits() / 8, _ => 8 };
                        let is_ptr = ptr_at(off + to).is_some();
                        let tv = rd(off + to, n)?;
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut r = None;
                                for v in d.variants_iter() {
                                    let dv = d.discriminant_for_variant(v.idx_pub()).val;
                                    let mask = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                    if dv & mask == tv { r = Some(v.idx_pub().to_index_pub()); }
                                }
                                r?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let lo = niche_variants.start().to_index_pub();
                                let hi = niche_variants.end().to_index_pub();
                                let mask = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                let rel = tv.wrapping_sub(*niche_start) & mask;
                                if !is_ptr && rel <= (hi - lo) as u128 { lo + rel as usize } else { untagged_variant.to_index_pub() }
                            }
                        };
                        (vi, variants.get(vi)?.offsets.clone())
                    }
                };
                let v = d.variants_iter().find(|v| v.idx_pub().to_index_pub() == vidx)?;
                let mut xs = vec![];
                for (i, f) in v.fields().iter().enumerate() {
                    xs.push(self.decode(f.ty_with_args(&ga), a, off + offs.get(i)?.bytes())?);
                }
                Some(format!("{{\"v\":{},\"fs\":{}}}", vidx, list(xs)))
            }
            _ => None,
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", *m == Mutability::Mut, self.place(p)),
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",{},{},{}]", q(&format!("{:?}", b)), self.operand(x), self.operand(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",{},{},{}]", q(&format!("{:?}", b)), self.operand(x), self.operand(y)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",{},{}]", q(&format!("{:?}", u)), self.operand(x)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", q(&format!("{:?}", k)), self.operand(o), self.ty(*t)),
            Rvalue::Aggregate(k, os) => {
                let kj = match k {
                    AggregateKind::Array(t) => format!("{{\"k\":\"array\",\"t\":{}}}", self.ty(*t)),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = Ty::from_rigid_kind(RigidTy::Adt(*d, a.clone()));
                        let tj = self.ty(t);
                        format!("{{\"k\":\"adt\",\"ty\":{},\"v\":{},\"f\":{}}}", tj, v.to_index_pub(), match f { Some(f) => f.to_string(), None => "null".into() })
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::from_rigid_kind(RigidTy::Closure(*d, a.clone()));
                        format!("{{\"k\":\"closure\",\"ty\":{}}}", self.ty(t))
                    }
                    o => format!("{{\"k\":\"other\",\"d\":{}}}", q(&format!("{:?}", o))),
                };
                let oj = list(os.iter().map(|o| self.operand(o)).collect());
                format!("[\"agg\",{},{}]", kj, oj)
            }
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), q(&match n.eval_target_usize() { Ok(v) => v.to_string(), _ => "?".into() })),
            other => format!("[\"other\",{}]", q(&format!("{:?}", other))),
        }
    }
    fn body(&mut self, name: &str, b: &Body, kind: &str, upvars: &str) -> String {
        let locals = list(b.locals().iter().map(|l| self.ty(l.ty)).collect());
        let mut dbg = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(format!("[{},{}]", q(&v.name), self.place(p)));
            }
        }
        let mut blocks = vec![];
        for bb in b.blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                let line = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => st.push(format!("[\"assign\",{},{},{}]", self.place(p), self.rvalue(r), line)),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setdiscr\",{},{}]", self.place(place), variant_index.to_index_pub()))
                    }
                    StatementKind::Intrinsic(x) => st.push(format!("[\"intrinsic\",{}]", q(&format!("{:?}", x)))),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = list(targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect());
                    format!("[\"switch\",{},{},{}]", self.operand(discr), br, targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a = list(args.iter().map(|o| self.operand(o)).collect());
                    let d = self.place(destination);
                    format!("[\"call\",{},{},{},{}]", f, a, d, match target { Some(t) => t.to_string(), None => "null".into() })
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond), expected, q(&format!("{:?}", msg)), target)
                }
                other => format!("[\"other\",{}]", q(&format!("{:?}", other))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"line\":{}}}", list(st), t, line));
        }
        let spread = match b.spread_arg() { Some(l) => l.to_string(), None => "null".into() };
        format!(
            "{{\"name\":{},\"kind\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"debug\":{},\"upvars\":{},\"blocks\":{},\"file\":{},\"line\":{}}}",
            q(name), q(kind), b.arg_locals().len(), spread, locals, list(dbg), upvars, list(blocks),
            q(&b.span.get_filename()), b.span.get_lines().start_line
        )
    }
}

trait KrateLocal { fn def_krate_local(&self) -> bool; }
impl KrateLocal for Instance {
    fn def_krate_local(&self) -> bool {
        self.kind == InstanceKind::Item && self.def.krate().is_local
    }
}
trait IdxPub { fn to_index_pub(&self) -> usize; }
impl IdxPub for VariantIdx {
    fn to_index_pub(&self) -> usize {
        // VariantIdx(n, marker): the index is opaque in the public API, take it from Debug
        let s = format!("{:?}", self);
        let digits: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
        digits.parse().unwrap()
    }
}
trait VIdx { fn idx_pub(&self) -> VariantIdx; }
impl VIdx for VariantDef {
    fn idx_pub(&self) -> VariantIdx { self.idx() }
}

fn dump() -> ControlFlow<()> {
    let krate = local_crate();
    let out_dir = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let ctype = std::env::var("MIRDUMP_CTYPE").unwrap_or_default();
    let mut cx = Cx { queue: VecDeque::new(), seen: HashSet::new(), adts: BTreeMap::new() };
    let mut bodies = vec![];
    for item in all_local_items() {
        if !matches!(item.kind(), ItemKind::Fn) { continue; }
        if item.name().contains("::_::") { continue; }
        if item.requires_monomorphization() {
            // generic bodies (Hash::hash<H>, generic helpers) are dumped as written
            let name = item.name();
            if name.contains("{closure") || name.contains("::_::") { continue; }
            if let Some(b) = item.body() {
                if cx.seen.insert(format!("generic {}", name)) {
                    let j = cx.body(&name, &b, "generic", "[]");
                    bodies.push(j);
                }
            }
            continue;
        }
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = item.ty().kind() {
            let _ = cx.fndef(d, &a);
        }
    }
    let mut done = HashSet::new();
    while let Some((name, job)) = cx.queue.pop_front() {
        if !done.insert(name.clone()) { continue; }
        match job {
            Job::Inst(i) => if let Some(b) = i.body() {
                let j = cx.body(&name, &b, "fn", "[]");
                bodies.push(j);
            },
            Job::Closure(d, a) => {
                let n = a.0.len();
                let mut kind = ClosureKind::FnMut;
                if n >= 3 {
                    if let GenericArgKind::Type(t) = &a.0[n - 3] {
                        if let TyKind::RigidTy(RigidTy::Int(i)) = t.kind() {
                            if format!("{:?}", i) == "I32" { kind = ClosureKind::FnOnce; }
                        }
                    }
                }
                let b = match Instance::resolve_closure(d, &a, kind) { Ok(i) if !i.is_empty_shim() => i.body(), _ => None };
                let b = match b { Some(b) => Some(b), None => d.body() };
                if let Some(b) = b {
                    let j = cx.body(&name, &b, "closure", "[]");
                    bodies.push(j);
                }
            }
        }
    }
    let adts: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
    let json = format!("{{\"crate\":{},\"fns\":[\n{}\n],\"adts\":{{\n{}\n}}}}\n", q(&krate.name), bodies.join(",\n"), adts.join(",\n"));
    let path = format!("{}/{}-{}.json", out_dir, krate.name, ctype);
    std::fs::write(&path, json).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_query = args.iter().any(|a| a == "-vV" || a.starts_with("--print")) || !args.iter().any(|a| a == "--crate-name");
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let wanted = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "nlsn_delaunay".into());
    if is_query || crate_name != wanted {
        let st = std::process::Command::new("rustc").args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let ctype = args.iter().position(|a| a == "--crate-type").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    std::env::set_var("MIRDUMP_CTYPE", &ctype);
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    args.push("-Cdebug-assertions=off".into());
    args.push("-Coverflow-checks=on".into());
    args.push("--cap-lints=allow".into());
    let r = rustc_public::run!(&args, dump);
    match r {
        Ok(_) => {}
        Err(e) => {
            eprintln!("mirdump: {:?}", e);
            std::process::exit(1);
        }
    }
}
