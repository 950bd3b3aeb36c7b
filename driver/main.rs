// MIR exporter: runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`, compiles the crate
// normally and dumps the type-checked, monomorphised program (MIR, types, evaluated constants)
// as JSON for the analyses in /verif/analysis.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_hir;
extern crate rustc_span;
extern crate rustc_public;

use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::abi::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;
use rustc_public::rustc_internal;
use rustc_middle::ty::TyCtxt;
use std::collections::{HashMap, BTreeMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    inst: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    consts: HashMap<String, usize>,
    const_out: Vec<String>,
    statics: HashMap<String, usize>,
    static_list: Vec<StaticDef>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
}

fn want_body(name: &str, krate: &str, local: bool) -> bool {
    if local { return true; }
    match krate {
        "core" | "alloc" | "std" | "num_traits" | "num_integer" | "num_rational" | "num" | "enum_primitive" | "lazy_static" => {}
        _ => return false,
    }
    let bad = ["fmt", "panicking", "unicode", "::io::", "std::fs", "::sys::", "::thread", "backtrace", "::alloc::", "raw_vec", "::hash", "std::rt", "::env::", "::process", "stdarch", "core_arch", "::sync::", "::time::", "::net::", "::str::", "::char::", "::string::", "::ffi::", "::path::", "::os::"];
    for b in bad { if name.contains(b) { return false; } }
    true
}

impl<'tcx> Cx<'tcx> {
    fn inst_id(&mut self, i: Instance) -> usize {
        if let Some(x) = self.inst.get(&i) { return *x; }
        let id = self.inst_list.len();
        self.inst.insert(i, id);
        self.inst_list.push(i);
        id
    }
    fn static_id(&mut self, s: StaticDef) -> usize {
        let n = s.name();
        if let Some(x) = self.statics.get(&n) { return *x; }
        let id = self.static_list.len();
        self.statics.insert(n, id);
        self.static_list.push(s);
        id
    }
    fn file_id(&mut self, f: &str) -> usize {
        if let Some(x) = self.files.get(f) { return *x; }
        let id = self.file_list.len();
        self.files.insert(f.to_string(), id);
        self.file_list.push(f.to_string());
        id
    }
    fn span(&mut self, s: Span) -> String {
        let f = self.file_id(&s.get_filename());
        let l = s.get_lines();
        format!("[{},{}]", f, l.start_line)
    }
    fn closure_inst(&mut self, def: ClosureDef, args: &GenericArgs) -> Option<usize> {
        let a = rustc_internal::internal(self.tcx, args.clone());
        let k = a.as_closure().kind();
        let kind = match k {
            rustc_middle::ty::ClosureKind::Fn => ClosureKind::Fn,
            rustc_middle::ty::ClosureKind::FnMut => ClosureKind::FnMut,
            rustc_middle::ty::ClosureKind::FnOnce => ClosureKind::FnOnce,
        };
        match Instance::resolve_closure(def, args, kind) { Ok(i) => Some(self.inst_id(i)), Err(_) => None }
    }
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(x) = self.tys.get(&t) { return *x; }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(String::new());
        let s = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "{\"k\":\"bool\"}".to_string(),
                RigidTy::Char => "{\"k\":\"char\"}".to_string(),
                RigidTy::Int(i) => format!("{{\"k\":\"int\",\"s\":true,\"b\":{}}}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"s\":false,\"b\":{}}}", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("{{\"k\":\"float\",\"n\":{}}}", esc(&format!("{:?}", f))),
                RigidTy::Adt(def, args) => {
                    let mut targs = vec![];
                    for a in args.0.iter() { if let GenericArgKind::Type(t) = a { targs.push(self.ty(*t).to_string()); } }
                    let kind = match def.kind() { AdtKind::Enum => "enum", AdtKind::Union => "union", AdtKind::Struct => "struct" };
                    let mut vs = vec![];
                    for (i, v) in def.variants().into_iter().enumerate() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            fs.push(format!("[{},{}]", esc(&f.name), self.ty(ft)));
                        }
                        let discr = if let AdtKind::Enum = def.kind() { format!("{}", def.discriminant_for_variant(v.idx()).val) } else { "0".to_string() };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(&v.name()), discr, fs.join(",")));
                    }
                    format!("{{\"k\":\"adt\",\"n\":{},\"ak\":\"{}\",\"box\":{},\"args\":[{}],\"v\":[{}]}}", esc(&def.name()), kind, def.is_box(), targs.join(","), vs.join(","))
                }
                RigidTy::Foreign(_) => "{\"k\":\"foreign\"}".to_string(),
                RigidTy::Str => "{\"k\":\"str\"}".to_string(),
                RigidTy::Array(t, c) => { let e = self.ty(t); let n = c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()); format!("{{\"k\":\"array\",\"e\":{},\"n\":{}}}", e, n) }
                RigidTy::Pat(t, _) => { let e = self.ty(t); format!("{{\"k\":\"pat\",\"e\":{}}}", e) }
                RigidTy::Slice(t) => { let e = self.ty(t); format!("{{\"k\":\"slice\",\"e\":{}}}", e) }
                RigidTy::RawPtr(t, m) => { let e = self.ty(t); format!("{{\"k\":\"ptr\",\"e\":{},\"m\":{}}}", e, m == Mutability::Mut) }
                RigidTy::Ref(_, t, m) => { let e = self.ty(t); format!("{{\"k\":\"ref\",\"e\":{},\"m\":{}}}", e, m == Mutability::Mut) }
                RigidTy::FnDef(def, args) => {
                    let i = Instance::resolve(def, &args).ok().map(|i| self.inst_id(i));
                    let mut targs = vec![];
                    for a in args.0.iter() { if let GenericArgKind::Type(t) = a { targs.push(self.ty(*t).to_string()); } }
                    format!("{{\"k\":\"fndef\",\"n\":{},\"i\":{},\"args\":[{}]}}", esc(&def.name()), i.map(|x| x.to_string()).unwrap_or("null".into()), targs.join(","))
                }
                RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".to_string(),
                RigidTy::Closure(def, args) => {
                    let a = rustc_internal::internal(self.tcx, args.clone());
                    let ups: Vec<Ty> = a.as_closure().upvar_tys().iter().map(|t| rustc_internal::stable(t)).collect();
                    let us: Vec<String> = ups.into_iter().map(|t| self.ty(t).to_string()).collect();
                    let i = self.closure_inst(def, &args);
                    format!("{{\"k\":\"closure\",\"n\":{},\"i\":{},\"f\":[{}]}}", esc(&def.name()), i.map(|x| x.to_string()).unwrap_or("null".into()), us.join(","))
                }
                RigidTy::Dynamic(p, _) => format!("{{\"k\":\"dyn\",\"n\":{}}}", esc(&format!("{}", t))),
                RigidTy::Never => "{\"k\":\"never\"}".to_string(),
                RigidTy::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect(); format!("{{\"k\":\"tuple\",\"f\":[{}]}}", v.join(",")) }
                _ => format!("{{\"k\":\"other\",\"n\":{}}}", esc(&format!("{}", t))),
            },
            _ => format!("{{\"k\":\"other\",\"n\":{}}}", esc(&format!("{}", t))),
        };
        self.ty_out[id] = s;
        id
    }

    fn rd(bytes: &[Option<u8>], off: usize, n: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for i in 0..n { v |= (bytes.get(off + i).copied().flatten()? as u128) << (8 * i); }
        Some(v)
    }

    // typed decoding of constant memory
    fn val(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 40 { return "{\"opaque\":\"deep\"}".into(); }
        let opaque = |w: &str| format!("{{\"opaque\":{}}}", esc(w));
        let k = match t.kind() { TyKind::RigidTy(r) => r, _ => return opaque("nonrigid") };
        match k {
            RigidTy::Bool => Self::rd(&a.bytes, off, 1).map(|v| v.to_string()).unwrap_or(opaque("uninit")),
            RigidTy::Char => Self::rd(&a.bytes, off, 4).map(|v| v.to_string()).unwrap_or(opaque("uninit")),
            RigidTy::Int(i) => {
                let n = i.num_bytes();
                match Self::rd(&a.bytes, off, n) {
                    None => opaque("uninit"),
                    Some(v) => { let sh = 128 - 8 * n as u32; (((v << sh) as i128) >> sh).to_string() }
                }
            }
            RigidTy::Uint(i) => Self::rd(&a.bytes, off, i.num_bytes()).map(|v| v.to_string()).unwrap_or(opaque("uninit")),
            RigidTy::Tuple(ts) => {
                if ts.is_empty() { return "{\"t\":[]}".into(); }
                let sh = t.layout().unwrap().shape();
                if let FieldsShape::Arbitrary { offsets } = &sh.fields {
                    let v: Vec<String> = ts.iter().enumerate().map(|(i, ft)| self.val(a, off + offsets[i].bytes(), *ft, depth + 1)).collect();
                    return format!("{{\"t\":[{}]}}", v.join(","));
                }
                opaque("tuple")
            }
            RigidTy::Array(e, c) => {
                let n = c.eval_target_usize().unwrap_or(0) as usize;
                let sz = e.layout().unwrap().shape().size.bytes();
                let v: Vec<String> = (0..n).map(|i| self.val(a, off + i * sz, e, depth + 1)).collect();
                format!("{{\"a\":[{}]}}", v.join(","))
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let p = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                let addr = Self::rd(&a.bytes, off, 8).unwrap_or(0) as usize;
                match p {
                    None => opaque("intptr"),
                    Some(id) => match GlobalAlloc::from(id) {
                        GlobalAlloc::Static(s) => format!("{{\"static\":{}}}", self.static_id(s)),
                        GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst_id(i)),
                        GlobalAlloc::Memory(m) => match e.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let n = Self::rd(&a.bytes, off + 8, 8).unwrap_or(0) as usize;
                                let b: Vec<u8> = m.bytes[addr..addr + n].iter().map(|x| x.unwrap_or(0)).collect();
                                format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(&b)))
                            }
                            TyKind::RigidTy(RigidTy::Slice(se)) => {
                                let n = Self::rd(&a.bytes, off + 8, 8).unwrap_or(0) as usize;
                                let sz = se.layout().unwrap().shape().size.bytes();
                                let v: Vec<String> = (0..n).map(|i| self.val(&m, addr + i * sz, se, depth + 1)).collect();
                                format!("{{\"ref\":{{\"a\":[{}]}}}}", v.join(","))
                            }
                            TyKind::RigidTy(RigidTy::Dynamic(..)) => opaque("dyn"),
                            _ => format!("{{\"ref\":{}}}", self.val(&m, addr, e, depth + 1)),
                        },
                        _ => opaque("vtable"),
                    },
                }
            }
            RigidTy::FnPtr(_) => {
                let p = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                match p.map(GlobalAlloc::from) {
                    Some(GlobalAlloc::Function(i)) => format!("{{\"fn\":{}}}", self.inst_id(i)),
                    _ => opaque("fnptr"),
                }
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => "{\"zst\":1}".into(),
            RigidTy::Adt(def, args) => {
                let lay = match t.layout() { Ok(l) => l.shape(), Err(_) => return opaque("nolayout") };
                match def.kind() {
                    AdtKind::Union => opaque("union"),
                    AdtKind::Struct => {
                        let v = def.variants();
                        let fs = v[0].fields();
                        if fs.is_empty() { return "{\"s\":[]}".into(); }
                        match &lay.fields {
                            FieldsShape::Arbitrary { offsets } => {
                                let r: Vec<String> = fs.iter().enumerate().map(|(i, f)| { let ft = f.ty_with_args(&args); self.val(a, off + offsets[i].bytes(), ft, depth + 1) }).collect();
                                format!("{{\"s\":[{}]}}", r.join(","))
                            }
                            _ => opaque("structshape"),
                        }
                    }
                    AdtKind::Enum => {
                        let vs = def.variants();
                        let (vi, offsets): (usize, Vec<usize>) = match &lay.variants {
                            VariantsShape::Empty => return opaque("empty"),
                            VariantsShape::Single { index } => {
                                let o = if let FieldsShape::Arbitrary { offsets } = &lay.fields { offsets.iter().map(|x| x.bytes()).collect() } else { vec![] };
                                (index.to_index(), o)
                            }
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let toff = if let FieldsShape::Arbitrary { offsets } = &lay.fields { offsets[*tag_field].bytes() } else { 0 };
                                let tsz = match tag { Scalar::Initialized { value, .. } => prim_size(value), Scalar::Union { value } => prim_size(value) };
                                let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                                let tv = match Self::rd(&a.bytes, off + toff, tsz) { Some(v) => v, None => return opaque("uninit tag") };
                                let mask: u128 = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                let vi = match tag_encoding {
                                    TagEncoding::Direct => vs.iter().position(|v| def.discriminant_for_variant(v.idx()).val & mask == tv).unwrap_or(0),
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        if has_prov { untagged_variant.to_index() } else {
                                            let rel = tv.wrapping_sub(*niche_start) & mask;
                                            let s = niche_variants.start().to_index(); let e = niche_variants.end().to_index();
                                            if rel <= (e - s) as u128 { s + rel as usize } else { untagged_variant.to_index() }
                                        }
                                    }
                                };
                                (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                            }
                        };
                        let fs = vs[vi].fields();
                        let r: Vec<String> = fs.iter().enumerate().map(|(i, f)| { let ft = f.ty_with_args(&args); self.val(a, off + offsets[i], ft, depth + 1) }).collect();
                        format!("{{\"e\":{},\"f\":[{}]}}", vi, r.join(","))
                    }
                }
            }
            _ => opaque("kind"),
        }
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.val(a, 0, c.ty(), 0),
            ConstantKind::ZeroSized => "{\"zst\":1}".to_string(),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => self.val(a, 0, c.ty(), 0),
                TyConstKind::ZSTValue(_) => "{\"zst\":1}".to_string(),
                _ => "{\"opaque\":\"tyconst\"}".to_string(),
            },
            ConstantKind::Unevaluated(u) => format!("{{\"opaque\":{}}}", esc(&format!("uneval {}", u.def.name()))),
            ConstantKind::Param(_) => "{\"opaque\":\"param\"}".to_string(),
        };
        let key = format!("[{},{}]", t, v);
        if key.len() < 64 { return format!("[\"k\",{},{}]", t, v); }
        let id = if let Some(x) = self.consts.get(&key) { *x } else {
            let id = self.const_out.len();
            self.consts.insert(key.clone(), id);
            self.const_out.push(key);
            id
        };
        format!("[\"K\",{}]", id)
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(i) => format!("[\"d\",{}]", i.to_index()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(c) => format!("[\"rt\",{}]", esc(&format!("{:?}", c))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.operand(x)).collect();
                let kk = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, args, _, fi) => {
                        let t = d.ty_with_args(args);
                        format!("[\"adt\",{},{},{}]", self.ty(t), vi.to_index(), fi.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => { let t = Ty::new_closure(*d, args.clone()); format!("[\"closure\",{}]", self.ty(t)) }
                    AggregateKind::RawPtr(t, m) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kk, o.join(","))
            }
            Rvalue::BinaryOp(b, x, y) => { let a = self.operand(x); let c = self.operand(y); format!("[\"bin\",\"{:?}\",{},{}]", b, a, c) }
            Rvalue::CheckedBinaryOp(b, x, y) => { let a = self.operand(x); let c = self.operand(y); format!("[\"cbin\",\"{:?}\",{},{}]", b, a, c) }
            Rvalue::Cast(k, o, t) => { let a = self.operand(o); let ti = self.ty(*t); format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), a, ti) }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::Repeat(o, c) => { let a = self.operand(o); format!("[\"repeat\",{},{}]", a, c.eval_target_usize().unwrap_or(0)) }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".to_string(),
            Rvalue::UnaryOp(u, o) => { let a = self.operand(o); format!("[\"un\",\"{:?}\",{}]", u, a) }
            Rvalue::Use(o, _) => { let a = self.operand(o); format!("[\"use\",{}]", a) }
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", self.place(p), *m == Mutability::Mut),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let mut blocks = vec![];
        for bb in b.blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let ps = self.place(p); let rs = self.rvalue(r);
                        let sp = s.source_info.span.get_lines().start_line;
                        st.push(format!("[\"=\",{},{},{}]", ps, rs, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => { let ps = self.place(place); st.push(format!("[\"sd\",{},{}]", ps, variant_index.to_index())); }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => st.push("[\"copynonoverlapping\"]".to_string()),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let tfile = { let f = bb.terminator.source_info.span.get_filename(); self.file_id(&f) };
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"switch\",{},[{}],{}]", d, br.join(","), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let ty = place.ty(b.locals()).ok();
                    let p = self.place(place);
                    let ti = ty.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"drop\",{},{},{}]", p, target, ti)
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(x)).collect();
                    let d = self.place(destination);
                    format!("[\"call\",{},[{}],{},{}]", f, a.join(","), d, target.map(|t| t.to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(cond);
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => { let l = self.operand(len); let i = self.operand(index); format!("[\"bounds\",{},{}]", l, i) }
                        AssertMessage::Overflow(op, x, y) => format!("[\"overflow\",\"{:?}\"]", op),
                        AssertMessage::OverflowNeg(_) => "[\"overflow\",\"Neg\"]".into(),
                        AssertMessage::DivisionByZero(_) => "[\"divzero\"]".into(),
                        AssertMessage::RemainderByZero(_) => "[\"remzero\"]".into(),
                        _ => "[\"other\"]".into(),
                    };
                    format!("[\"assert\",{},{},{},{}]", c, expected, m, target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{},\"l\":[{},{}]}}", st.join(","), t, tfile, line));
        }
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let ps = self.place(p);
                names.push(format!("[{},{},{}]", esc(&v.name), ps, v.argument_index.map(|x| x.to_string()).unwrap_or("null".into())));
            }
        }
        format!("{{\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[{}]}}", b.arg_locals().len(), b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), locals.join(","), names.join(","), blocks.join(","))
    }
}

struct Unsafe<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<(String, String)> }
impl<'tcx> Unsafe<'tcx> {
    fn add(&mut self, what: &str, sp: rustc_span::Span) {
        if sp.allows_unsafe() { return; }
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        self.out.push((what.to_string(), format!("{}:{}", f, l.line)));
    }
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules { self.add("unsafe block", b.span); }
        rustc_hir::intravisit::walk_block(self, b);
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        match &i.kind {
            rustc_hir::ItemKind::Fn { sig, .. } if sig.header.is_unsafe() => self.add("unsafe function", i.span),
            rustc_hir::ItemKind::ForeignMod { .. } => self.add("foreign functions", i.span),
            rustc_hir::ItemKind::GlobalAsm { .. } => self.add("assembly", i.span),
            _ => {}
        }
        rustc_hir::intravisit::walk_item(self, i);
    }
    fn visit_impl_item(&mut self, i: &'tcx rustc_hir::ImplItem<'tcx>) {
        if let rustc_hir::ImplItemKind::Fn(sig, _) = &i.kind { if sig.header.is_unsafe() { self.add("unsafe function", i.span); } }
        rustc_hir::intravisit::walk_impl_item(self, i);
    }
}

fn prim_size(p: &Primitive) -> usize {
    match p {
        Primitive::Int { length, .. } => match length { IntegerLength::I8 => 1, IntegerLength::I16 => 2, IntegerLength::I32 => 4, IntegerLength::I64 => 8, IntegerLength::I128 => 16 },
        Primitive::Float { .. } => 8,
        Primitive::Pointer(_) => 8,
    }
}

fn export<'tcx>(tcx: TyCtxt<'tcx>) -> ControlFlow<()> {
    let out_dir = std::env::var("AV1V_OUT").expect("AV1V_OUT");
    let krate = rustc_public::local_crate();
    let is_bin = rustc_public::entry_fn().is_some();
    let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], inst: HashMap::new(), inst_list: vec![], consts: HashMap::new(), const_out: vec![], statics: HashMap::new(), static_list: vec![], files: HashMap::new(), file_list: vec![] };
    let mut named = vec![];
    let mut generic = vec![];
    for it in rustc_public::all_local_items() {
        match it.kind() {
            ItemKind::Fn => {
                if it.requires_monomorphization() { generic.push(esc(&it.name())); continue; }
                if let Ok(i) = Instance::try_from(it) { cx.inst_id(i); }
            }
            ItemKind::Static => { if let Ok(s) = StaticDef::try_from(it) { cx.static_id(s); } }
            ItemKind::Const => {
                let did = rustc_internal::internal(tcx, it.def_id());
                if it.requires_monomorphization() { continue; }
                use rustc_hir::def::DefKind;
                match tcx.def_kind(did) { DefKind::Const { .. } | DefKind::AssocConst { .. } => {}, _ => continue }
                if let Ok(cv) = tcx.const_eval_poly(did) {
                    let ty = tcx.normalize_erasing_regions(rustc_middle::ty::TypingEnv::fully_monomorphized(), tcx.type_of(did).instantiate_identity());
                    let c = rustc_middle::mir::Const::Val(cv, ty);
                    let sc: MirConst = rustc_internal::stable(c);
                    let v = cx.constant(&sc);
                    let sp = it.span();
                    let sps = cx.span(sp);
                    named.push(format!("{{\"n\":{},\"v\":{},\"at\":{}}}", esc(&it.name()), v, sps));
                }
            }
            _ => {}
        }
    }
    // all local ADTs
    let mut adts = vec![];
    for a in krate.adts() {
        let did = rustc_internal::internal(tcx, a.def_id());
        if tcx.generics_of(did).own_params.iter().all(|p| matches!(p.kind, rustc_middle::ty::GenericParamDefKind::Lifetime)) {
            let t = a.ty();
            adts.push(cx.ty(t).to_string());
        }
    }
    let mut out_inst: Vec<String> = vec![];
    let mut out_static: Vec<String> = vec![];
    let mut i = 0;
    let mut s = 0;
    while i < cx.inst_list.len() || s < cx.static_list.len() {
        while s < cx.static_list.len() {
            let sd = cx.static_list[s];
            let t = cx.ty(sd.ty());
            let v = match sd.eval_initializer() { Ok(a) if sd.krate().is_local => cx.val(&a, 0, sd.ty(), 0), _ => "{\"opaque\":\"static\"}".into() };
            let did = rustc_internal::internal(tcx, sd.def_id());
            let m = tcx.is_mutable_static(did);
            let ity = tcx.type_of(did).instantiate_identity();
            let ity = tcx.normalize_erasing_regions(rustc_middle::ty::TypingEnv::fully_monomorphized(), ity);
            let fz = ity.is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized());
            let tl = tcx.is_thread_local_static(did);
            out_static.push(format!("{{\"n\":{},\"t\":{},\"v\":{},\"mut\":{},\"freeze\":{},\"tls\":{},\"local\":{}}}", esc(&sd.name()), t, v, m, fz, tl, sd.krate().is_local));
            s += 1;
        }
        if i >= cx.inst_list.len() { break; }
        let inst = cx.inst_list[i];
        let name = inst.name();
        let k = inst.def.krate();
        let dname = inst.def.name();
        let kind = match inst.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
        let mut body = None;
        if matches!(inst.kind, InstanceKind::Item | InstanceKind::Shim) && want_body(&dname, &k.name, k.is_local) && inst.has_body() {
            body = inst.body();
        }
        let bs = match &body { Some(b) => cx.body(b), None => "null".into() };
        let mut targs = vec![];
        for a in inst.args().0.iter() { if let GenericArgKind::Type(t) = a { targs.push(cx.ty(*t).to_string()); } }
        let sp = if k.is_local { let s = inst.def.span(); cx.span(s) } else { "null".into() };
        let intr = if kind == "intrinsic" { inst.intrinsic_name().map(|x| esc(&x)).unwrap_or("null".into()) } else { "null".into() };
        let nobody = !inst.has_body();
        out_inst.push(format!("{{\"n\":{},\"d\":{},\"c\":{},\"local\":{},\"k\":\"{}\",\"intr\":{},\"args\":[{}],\"at\":{},\"body\":{}}}", esc(&name), esc(&dname), esc(&k.name), k.is_local, kind, intr, targs.join(","), sp, bs));
        i += 1;
    }
    let entry = rustc_public::entry_fn().and_then(|e| Instance::try_from(e).ok()).map(|i| cx.inst_id(i).to_string()).unwrap_or("null".into());
    let files: Vec<String> = cx.file_list.iter().map(|f| esc(f)).collect();
    let mut us = Unsafe { tcx, out: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut us);
    let us: Vec<String> = us.out.iter().map(|(a, b)| format!("[{},{}]", esc(a), esc(b))).collect();
    let o = format!("{{\"unsafe\":[{}],\"crate\":{},\"bin\":{},\"entry\":{},\"files\":[{}],\"generic\":[{}],\"adts\":[{}],\"tys\":[\n{}\n],\"consts\":[\n{}\n],\"named\":[\n{}\n],\"statics\":[\n{}\n],\"inst\":[\n{}\n]}}\n",
        us.join(","), esc(&krate.name), is_bin, entry, files.join(","), generic.join(","), adts.join(","), cx.ty_out.join(",\n"), cx.const_out.join(",\n"), named.join(",\n"), out_static.join(",\n"), out_inst.join(",\n"));
    let p = format!("{}/{}-{}.json", out_dir, krate.name, if is_bin { "bin" } else { "lib" });
    std::fs::write(&p, o).expect("write export");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let is_query = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print")) ;
    let has_crate = args.iter().any(|a| a == "--crate-name");
    if is_query || !has_crate {
        let mut c = std::process::Command::new("rustc");
        c.args(&args[1..]);
        let st = c.status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("--cap-lints=allow".into());
    let r = rustc_public::run_with_tcx!(&args, |tcx| rustc_middle::ty::print::with_no_visible_paths!(export(tcx)));
    match r {
        Ok(_) => std::process::exit(0),
        Err(_) => std::process::exit(1),
    }
}
