// MIR dumper: a rustc driver that writes the resolved, monomorphic MIR of the crate being
// compiled (and of the std helpers in a whitelist) as JSON. Analysis happens in /verif/engine.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx {
    types: Vec<String>,
    tyidx: HashMap<Ty, usize>,
    fns: Vec<String>,
    seen: HashSet<String>,
    queue: VecDeque<(String, Src)>,
}
#[derive(Clone)]
enum Src { Inst(Instance), Closure(ClosureDef) }

fn std_whitelist(n: &str) -> bool {
    const P: &[&str] = &[
        "core::option::Option", "std::option::Option", "core::cmp::", "std::cmp::", "core::num::", "core::f64::",
        "core::ops::range", "std::ops::Range", "core::result::Result", "std::result::Result", "core::mem::", "std::mem::", "core::bool::",
        "core::char::methods", "std::convert", "core::convert", "core::clone", "std::clone",
    ];
    P.iter().any(|p| n.contains(p))
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyidx.get(&t) { return *i; }
        let i = self.types.len();
        self.tyidx.insert(t, i);
        self.types.push(String::new());
        let s = self.ty_json(t);
        self.types[i] = s;
        i
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in a.0.iter() {
            if let GenericArgKind::Type(t) = g { v.push(self.ty(*t).to_string()); }
        }
        arr(v)
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let k = t.kind();
        let disp = esc(&format!("{}", t));
        let r = match k { TyKind::RigidTy(r) => r, _ => return format!("{{\"k\":\"other\",\"d\":{}}}", disp) };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(x) => { let b = match x { IntTy::Isize => 64, IntTy::I8 => 8, IntTy::I16 => 16, IntTy::I32 => 32, IntTy::I64 => 64, IntTy::I128 => 128 };
                format!("{{\"k\":\"int\",\"bits\":{},\"d\":{}}}", b, disp) }
            RigidTy::Uint(x) => { let b = match x { UintTy::Usize => 64, UintTy::U8 => 8, UintTy::U16 => 16, UintTy::U32 => 32, UintTy::U64 => 64, UintTy::U128 => 128 };
                format!("{{\"k\":\"uint\",\"bits\":{},\"d\":{}}}", b, disp) }
            RigidTy::Float(f) => format!("{{\"k\":\"float\",\"bits\":{}}}", match f { FloatTy::F32 => 32, FloatTy::F64 => 64, _ => 0 }),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|x| self.ty(*x).to_string()).collect(); format!("{{\"k\":\"tuple\",\"e\":{}}}", arr(v)) }
            RigidTy::Array(t, n) => { let e = self.ty(t); let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()); format!("{{\"k\":\"array\",\"e\":{},\"n\":{}}}", e, n) }
            RigidTy::Slice(t) => { let e = self.ty(t); format!("{{\"k\":\"slice\",\"e\":{}}}", e) }
            RigidTy::RawPtr(t, _) => { let e = self.ty(t); format!("{{\"k\":\"ptr\",\"e\":{}}}", e) }
            RigidTy::Ref(_, t, m) => { let e = self.ty(t); format!("{{\"k\":\"ref\",\"e\":{},\"mut\":{}}}", e, m == Mutability::Mut) }
            RigidTy::FnDef(d, a) => { let g = self.gargs(&a); format!("{{\"k\":\"fndef\",\"name\":{},\"a\":{}}}", esc(&d.name()), g) }
            RigidTy::Closure(d, a) => {
                let key = d.name().to_string();
                self.want(key.clone(), Src::Closure(d));
                // upvar types: last generic arg is the tuple of upvars
                let mut up = "null".to_string();
                if let Some(GenericArgKind::Type(u)) = a.0.last() { up = self.ty(*u).to_string(); }
                format!("{{\"k\":\"closure\",\"name\":{},\"up\":{}}}", esc(&key), up) }
            RigidTy::Adt(d, a) => {
                let name = d.name().to_string();
                let g = self.gargs(&a);
                let kind = match d.kind() { AdtKind::Struct => "struct", AdtKind::Enum => "enum", AdtKind::Union => "union" };
                let local = d.krate().is_local;
                let expand = local || name.contains("option::Option") || name.contains("ops::Range") || name.contains("ops::ControlFlow") || name.contains("result::Result")
                    || name.contains("cmp::Ordering") || name.contains("RangeInclusive");
                let mut vs = vec![];
                if expand {
                    for v in d.variants_iter() {
                        let mut fs = vec![];
                        for f in v.fields() { let t = f.ty_with_args(&a); fs.push(format!("[{},{}]", esc(&f.name), self.ty(t))); }
                        let disc = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        vs.push(format!("{{\"n\":{},\"disc\":{},\"f\":{}}}", esc(&v.name()), disc, arr(fs)));
                    }
                }
                format!("{{\"k\":\"{}\",\"name\":{},\"a\":{},\"local\":{},\"v\":{}}}", kind, esc(&name), g, local, arr(vs))
            }
            _ => format!("{{\"k\":\"other\",\"d\":{}}}", disp),
        }
    }
    fn want(&mut self, key: String, s: Src) {
        if self.seen.insert(key.clone()) { self.queue.push_back((key, s)); }
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"dc\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }
    fn decode(&mut self, t: Ty, a: &Allocation, off: usize) -> Option<String> {
        let TyKind::RigidTy(r) = t.kind() else { return None };
        let rd = |n: usize| a.read_partial_uint(off..off + n).ok();
        match r {
            RigidTy::Bool => rd(1).map(|x| format!("{{\"i\":{}}}", x)),
            RigidTy::Char => rd(4).map(|x| format!("{{\"i\":{}}}", x)),
            RigidTy::Int(_) | RigidTy::Uint(_) => {
                let n = t.layout().ok()?.shape().size.bytes();
                let u = rd(n)?;
                let signed = matches!(t.kind(), TyKind::RigidTy(RigidTy::Int(_)));
                if signed && n < 16 { let sh = 128 - 8 * n; let v = ((u << sh) as i128) >> sh; Some(format!("{{\"i\":{}}}", v)) }
                else if signed { Some(format!("{{\"i\":{}}}", u as i128)) }
                else { Some(format!("{{\"i\":{}}}", u)) }
            }
            RigidTy::Float(FloatTy::F64) => rd(8).map(|x| format!("{{\"f64\":{}}}", x)),
            RigidTy::Float(FloatTy::F32) => rd(4).map(|x| format!("{{\"f32\":{}}}", x)),
            RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                let prov = a.provenance.ptrs.iter().find(|(s, _)| *s == off)?.1;
                let base = a.read_partial_uint(off..off + 8).ok()? as usize;
                let ga: GlobalAlloc = prov.0.into();
                let GlobalAlloc::Memory(m) = ga else { return None };
                match inner.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let len = a.read_partial_uint(off + 8..off + 16).ok()? as usize;
                        let b: Option<Vec<u8>> = m.bytes[base..base + len].iter().copied().collect();
                        Some(format!("{{\"s\":{}}}", esc(&String::from_utf8_lossy(&b?))))
                    }
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let len = a.read_partial_uint(off + 8..off + 16).ok()? as usize;
                        let sz = e.layout().ok()?.shape().size.bytes();
                        let mut v = vec![];
                        for i in 0..len { v.push(self.decode(e, &m, base + i * sz)?); }
                        Some(format!("{{\"ref\":{{\"arr\":{}}}}}", arr(v)))
                    }
                    _ => { let s = self.decode(inner, &m, base)?; Some(format!("{{\"ref\":{}}}", s)) }
                }
            }
            RigidTy::Array(e, n) => {
                let len = n.eval_target_usize().ok()? as usize;
                let sz = e.layout().ok()?.shape().size.bytes();
                let mut v = vec![];
                for i in 0..len { v.push(self.decode(e, a, off + i * sz)?); }
                Some(format!("{{\"arr\":{}}}", arr(v)))
            }
            RigidTy::Tuple(ts) => {
                let sh = t.layout().ok()?.shape();
                let offs = match &sh.fields { rustc_public::abi::FieldsShape::Arbitrary { offsets } => offsets.clone(), _ => vec![] };
                let mut v = vec![];
                for (i, e) in ts.iter().enumerate() { v.push(self.decode(*e, a, off + offs.get(i)?.bytes())?); }
                Some(format!("{{\"tup\":{}}}", arr(v)))
            }
            RigidTy::Adt(d, ga) if d.kind() == AdtKind::Struct => {
                let sh = t.layout().ok()?.shape();
                let offs = match &sh.fields { rustc_public::abi::FieldsShape::Arbitrary { offsets } => offsets.clone(), _ => vec![] };
                let var = d.variants_iter().next()?;
                let mut v = vec![];
                for (i, f) in var.fields().iter().enumerate() { let ft = f.ty_with_args(&ga); v.push(self.decode(ft, a, off + offs.get(i)?.bytes())?); }
                Some(format!("{{\"adt\":{}}}", arr(v)))
            }
            RigidTy::Adt(d, _) if d.kind() == AdtKind::Enum && d.variants_iter().all(|v| v.fields().is_empty()) => {
                let n = t.layout().ok()?.shape().size.bytes();
                let u = if n == 0 { 0 } else { rd(n)? };
                let mask: u128 = if n >= 16 { !0 } else { (1u128 << (8 * n)) - 1 };
                for v in d.variants_iter() { if d.discriminant_for_variant(v.idx()).val & mask == u { return Some(format!("{{\"enum\":{}}}", v.idx().to_index())); } }
                None
            }
            _ => None,
        }
    }
    fn konst(&mut self, c: &ConstOperand) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let v = match c.const_.kind() {
            ConstantKind::ZeroSized => "{\"z\":1}".to_string(),
            ConstantKind::Allocated(a) => self.decode(t, a, 0).unwrap_or_else(|| format!("{{\"opaque\":{}}}", esc(&format!("{}", t)))),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() { Ok(x) => format!("{{\"i\":{}}}", x), Err(_) => "{\"opaque\":\"ty\"}".into() },
            k => format!("{{\"opaque\":{}}}", esc(&format!("{:?}", k).chars().take(80).collect::<String>())),
        };
        format!("{{\"ty\":{},\"v\":{}}}", ti, v)
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(c)),
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.op(x)).collect();
                let k = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => { let t = self.ty(d.ty_with_args(a)); format!("[\"adt\",{},{},{}]", t, v.to_index(), f.map(|x| x.to_string()).unwrap_or("null".into())) }
                    AggregateKind::Closure(d, _) => { let key = d.name().to_string(); self.want(key.clone(), Src::Closure(*d)); format!("[\"closure\",{}]", esc(&key)) }
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", k, arr(o))
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::Cast(k, o, t) => { let kk = match k { CastKind::PointerCoercion(p) => format!("{:?}", p), k => format!("{:?}", k) }; format!("[\"cast\",{},{},{}]", esc(&kk), self.op(o), self.ty(*t)) }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, b, p) => { let m = matches!(b, BorrowKind::Mut { .. }); format!("[\"ref\",{},{}]", m, self.place(p)) }
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", *m == Mutability::Mut, self.place(p)),
            Rvalue::Repeat(o, n) => { let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()); format!("[\"repeat\",{},{}]", self.op(o), n) }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
        }
    }
    fn line(&self, s: &Span) -> usize { s.get_lines().start_line }
    fn fnref(&mut self, d: FnDef, a: &GenericArgs) -> String {
        let name = d.name().to_string();
        let g = self.gargs(a);
        let mut inst = "null".to_string();
        let mut kind = "none";
        let mut local = false;
        let mut rname = name.clone();
        if let Ok(i) = Instance::resolve(d, a) {
            kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
            let key = i.name().to_string();
            rname = key.clone();
            if let Ok(item) = CrateItem::try_from(i) { local = item.krate().is_local; }
            if i.kind == InstanceKind::Item && (local || std_whitelist(&key)) && i.has_body() { self.want(key.clone(), Src::Inst(i)); }
            inst = esc(&key);
        }
        format!("{{\"def\":{},\"a\":{},\"inst\":{},\"rn\":{},\"kind\":\"{}\",\"local\":{}}}", esc(&name), g, inst, esc(&rname), kind, local)
    }
    fn term(&mut self, t: &Terminator, locals: &[LocalDecl]) -> String {
        let ln = self.line(&t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let b: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                let ty = discr.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"switch\",{},{},{},{}]", self.op(discr), ty, arr(b), targets.otherwise())
            }
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Resume => "[\"resume\"]".into(),
            TerminatorKind::Abort => "[\"abort\"]".into(),
            TerminatorKind::Unreachable => "[\"unreach\"]".into(),
            TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = match func.ty(locals).ok().map(|t| t.kind()) {
                    Some(TyKind::RigidTy(RigidTy::FnDef(d, a))) => self.fnref(d, &a),
                    _ => "{\"def\":\"<indirect>\",\"a\":[],\"inst\":null,\"rn\":\"<indirect>\",\"kind\":\"indirect\",\"local\":false}".to_string(),
                };
                let a: Vec<String> = args.iter().map(|x| self.op(x)).collect();
                format!("[\"call\",{},{},{},{},{},{}]", f, arr(a), self.place(destination), target.map(|x| x.to_string()).unwrap_or("null".into()), ln, self.op(func))
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (k, ops) = match msg {
                    AssertMessage::BoundsCheck { len, index } => ("bounds".to_string(), vec![self.op(len), self.op(index)]),
                    AssertMessage::Overflow(b, x, y) => (format!("overflow_{:?}", b), vec![self.op(x), self.op(y)]),
                    AssertMessage::OverflowNeg(x) => ("overflow_neg".into(), vec![self.op(x)]),
                    AssertMessage::DivisionByZero(x) => ("divzero".into(), vec![self.op(x)]),
                    AssertMessage::RemainderByZero(x) => ("remzero".into(), vec![self.op(x)]),
                    _ => ("other".into(), vec![]),
                };
                format!("[\"assert\",{},{},\"{}\",{},{},{}]", self.op(cond), expected, k, arr(ops), target, ln)
            }
            TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
        }
    }
    fn body(&mut self, key: &str, name: &str, local: bool, is_closure: bool, b: &Body) -> String {
        let locals = b.locals();
        let lt: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut vars = vec![];
        for v in &b.var_debug_info {
            match &v.value {
                VarDebugInfoContents::Place(p) => vars.push(format!("[{},{}]", esc(&v.name), self.place(p))),
                _ => {}
            }
        }
        let mut bl = vec![];
        for blk in &b.blocks {
            let mut ss = vec![];
            for s in &blk.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => { let ln = self.line(&s.source_info.span); let p = self.place(p); let r = self.rvalue(r); ss.push(format!("[\"=\",{},{},{}]", p, r, ln)); }
                    StatementKind::SetDiscriminant { place, variant_index } => ss.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index())),
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l)),
                    _ => {}
                }
            }
            let t = self.term(&blk.terminator, locals);
            bl.push(format!("{{\"s\":{},\"t\":{}}}", arr(ss), t));
        }
        let file = b.span.get_filename().to_string();
        format!("{{\"key\":{},\"name\":{},\"local\":{},\"closure\":{},\"file\":{},\"line\":{},\"nargs\":{},\"locals\":{},\"vars\":{},\"blocks\":{}}}",
            esc(key), esc(name), local, is_closure, esc(&file), b.span.get_lines().start_line, b.arg_locals().len(), arr(lt), arr(vars), arr(bl))
    }
}

fn dump() -> ControlFlow<()> {
    let Ok(out) = std::env::var("MIRDUMP_OUT") else { return ControlFlow::Continue(()) };
    let kr = rustc_public::local_crate();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    if !want.is_empty() && kr.name.to_string() != want { return ControlFlow::Continue(()) }
    let mut cx = Cx { types: vec![], tyidx: HashMap::new(), fns: vec![], seen: HashSet::new(), queue: VecDeque::new() };
    for it in rustc_public::all_local_items() {
        if it.kind() != ItemKind::Fn || it.requires_monomorphization() { continue; }
        if let Ok(i) = Instance::try_from(it) { if i.has_body() { let k = i.name().to_string(); cx.want(k, Src::Inst(i)); } }
    }
    while let Some((key, src)) = cx.queue.pop_front() {
        let s = match src {
            Src::Inst(i) => { let Some(b) = i.body() else { continue };
                let item = CrateItem::try_from(i).ok();
                let local = item.map(|x| x.krate().is_local).unwrap_or(false);
                let name = item.map(|x| x.name().to_string()).unwrap_or(key.clone());
                cx.body(&key, &name, local, false, &b) }
            Src::Closure(d) => { let Some(b) = d.body() else { continue }; let local = d.krate().is_local; cx.body(&key, &key.clone(), local, true, &b) }
        };
        cx.fns.push(s);
    }
    let mut o = String::new();
    o.push_str("{\"crate\":");
    o.push_str(&esc(&kr.name));
    o.push_str(",\"types\":[\n");
    o.push_str(&cx.types.join(",\n"));
    o.push_str("],\n\"fns\":[\n");
    o.push_str(&cx.fns.join(",\n"));
    o.push_str("]}\n");
    std::fs::write(&out, o).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let r = rustc_public::run!(&args, dump);
    if let Err(rustc_public::CompilerError::Failed) = r { std::process::exit(1); }
}
