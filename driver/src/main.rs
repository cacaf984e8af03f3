//! mirdump: a rustc wrapper that writes the monomorphic MIR of a crate as JSON.
//!
//! Injected with RUSTC_WORKSPACE_WRAPPER; the dump directory is $Y86_DUMP_DIR.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use rustc_public::CrateDefType;
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

#[derive(Default)]
struct Cx {
    tys: HashMap<Ty, usize>,
    tyout: Vec<String>,
    queue: VecDeque<Instance>,
    seen: HashMap<String, ()>,
    fnrefs: BTreeMap<String, String>,
    vtabs: BTreeMap<String, String>,
    vt_seen: HashSet<String>,
    next_def: Option<FnDef>,
    into_def: Option<FnDef>,
    iter_q: Vec<Ty>,
    iter_seen: HashSet<Ty>,
    iters: Vec<String>,
}

fn kindstr(i: &Instance) -> String {
    match i.kind {
        InstanceKind::Item => "item".into(),
        InstanceKind::Intrinsic => "intrinsic".into(),
        InstanceKind::LlvmIntrinsic => "llvm".into(),
        InstanceKind::Virtual { idx } => format!("virtual:{idx}"),
        InstanceKind::Shim => "shim".into(),
    }
}

impl Cx {
    fn key(&mut self, i: &Instance) -> String {
        let k = if let InstanceKind::Virtual { idx } = i.kind {
            format!("virtual:{}:{}", idx, i.name())
        } else {
            i.mangled_name().to_string()
        };
        if self.seen.insert(k.clone(), ()).is_none() {
            let intr = match i.intrinsic_name() {
                Some(s) => q(&s.to_string()),
                None => "null".into(),
            };
            let path = CrateDef::name(&i.def).to_string();
            let args: Vec<Ty> = i.args().0.iter().filter_map(|a| a.ty().copied()).collect();
            if path.starts_with("std::iter::Iterator::") || path.ends_with("::from_iter") || path.ends_with("::extend") {
                for t in &args {
                    if self.iter_seen.insert(*t) {
                        self.iter_q.push(*t);
                    }
                }
            }
            let ga = arr(args.iter().map(|t| self.ty(*t).to_string()).collect::<Vec<_>>());
            self.fnrefs.insert(
                k.clone(),
                format!(
                    "{{\"name\":{},\"path\":{},\"kind\":{},\"intr\":{},\"ga\":{}}}",
                    q(&i.name().to_string()),
                    q(&path),
                    q(&kindstr(i)),
                    intr,
                    ga
                ),
            );
            self.queue.push_back(*i);
        }
        k
    }

    /// Resolve `Iterator::next` (through `IntoIterator`) for types that are collected.
    fn iterators(&mut self) {
        let (Some(nd), Some(id)) = (self.next_def, self.into_def) else { return };
        for t in std::mem::take(&mut self.iter_q) {
            let ga = GenericArgs(vec![GenericArgKind::Type(t)]);
            let next = Instance::resolve(nd, &ga).ok();
            let into = match next {
                Some(_) => None,
                None => Instance::resolve(id, &ga).ok(),
            };
            let next = next.or_else(|| {
                let i = into?;
                let out = i.fn_abi().ok()?.ret.ty;
                Instance::resolve(nd, &GenericArgs(vec![GenericArgKind::Type(out)])).ok()
            });
            let Some(n) = next else { continue };
            let nk = self.key(&n);
            let ik = match into {
                Some(i) => q(&self.key(&i)),
                None => "null".into(),
            };
            let s = format!("[{},{},{}]", self.ty(t), q(&nk), ik);
            self.iters.push(s);
        }
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.tyout.len();
        self.tys.insert(t, id);
        self.tyout.push(String::new());
        let disp = format!("{t}");
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".to_string(),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(u64::MAX);
                    format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(e), n)
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => format!(
                    "\"k\":\"ptr\",\"e\":{},\"mut\":{}",
                    self.ty(e),
                    m == Mutability::Mut
                ),
                RigidTy::Ref(_, e, m) => format!(
                    "\"k\":\"ref\",\"e\":{},\"mut\":{}",
                    self.ty(e),
                    m == Mutability::Mut
                ),
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"f\":{}", arr(v))
                }
                RigidTy::FnDef(d, a) => match Instance::resolve(d, &a) {
                    Ok(i) => {
                        let k = self.key(&i);
                        format!("\"k\":\"fndef\",\"fn\":{}", q(&k))
                    }
                    Err(_) => format!("\"k\":\"fndef\",\"fn\":null,\"path\":{}", q(&d.name().to_string())),
                },
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Closure(d, a) => {
                    let key = match Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                        Ok(i) => self.key(&i),
                        Err(_) => String::new(),
                    };
                    let kfn = match Instance::resolve_closure(d, &a, ClosureKind::Fn) {
                        Ok(i) => self.key(&i),
                        Err(_) => String::new(),
                    };
                    // upvar types: last generic arg is the tuple of upvars
                    let up = match a.0.last() {
                        Some(GenericArgKind::Type(t)) => match t.kind() {
                            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                                arr(ts.iter().map(|t| self.ty(*t).to_string()).collect::<Vec<_>>())
                            }
                            _ => "[]".into(),
                        },
                        _ => "[]".into(),
                    };
                    format!(
                        "\"k\":\"closure\",\"path\":{},\"once\":{},\"fn\":{},\"f\":{}",
                        q(&d.name().to_string()),
                        q(&key),
                        q(&kfn),
                        up
                    )
                }
                RigidTy::Dynamic(ps, _) => {
                    let mut p = String::new();
                    for x in ps.iter() {
                        if let ExistentialPredicate::Trait(t) = &x.value {
                            p = t.def_id.name().to_string();
                        }
                    }
                    format!("\"k\":\"dyn\",\"trait\":{}", q(&p))
                }
                RigidTy::Adt(def, args) => {
                    let kind = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            fs.push(format!("[{},{}]", q(&f.name.to_string()), self.ty(ft)));
                        }
                        let d = if def.kind() == AdtKind::Enum {
                            def.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!(
                            "{{\"name\":{},\"d\":{},\"f\":{}}}",
                            q(&v.name().to_string()),
                            d,
                            arr(fs)
                        ));
                    }
                    let ga: Vec<Ty> = args.0.iter().filter_map(|a| a.ty().copied()).collect();
                    let ga = arr(ga.iter().map(|t| self.ty(*t).to_string()).collect::<Vec<_>>());
                    format!(
                        "\"k\":\"{}\",\"path\":{},\"box\":{},\"ga\":{},\"v\":{}",
                        kind,
                        q(&def.name().to_string()),
                        def.is_box(),
                        ga,
                        arr(vs)
                    )
                }
                _ => "\"k\":\"other\"".to_string(),
            },
            _ => "\"k\":\"other\"".to_string(),
        };
        self.tyout[id] = format!("{{\"s\":{},{}}}", q(&disp), body);
        id
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        match c.kind() {
            ConstantKind::ZeroSized => format!("[\"zst\",{}]", self.ty(t)),
            ConstantKind::Allocated(a) => {
                let a = a.clone();
                self.decode(t, &a, 0, 0)
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(*t, a, 0, 0),
                TyConstKind::ZSTValue(t) => format!("[\"zst\",{}]", self.ty(*t)),
                _ => "[\"opaque\",\"tyconst\"]".into(),
            },
            _ => "[\"opaque\",\"const\"]".into(),
        }
    }

    fn ptr(a: &Allocation, off: usize) -> Option<(AllocRef, u64)> {
        let addr = a.read_partial_uint(off..off + 8).ok()? as u64;
        for (o, p) in a.provenance.ptrs.iter() {
            if *o == off {
                return Some((GlobalAlloc::from(p.0), addr));
            }
        }
        None
    }

    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        if depth > 24 {
            return "[\"opaque\",\"depth\"]".into();
        }
        let opaque = |s: &str| format!("[\"opaque\",{}]", q(s));
        let TyKind::RigidTy(r) = t.kind() else {
            return opaque("nonrigid");
        };
        match r {
            RigidTy::Bool => match a.read_partial_uint(off..off + 1) {
                Ok(v) => format!("[\"int\",{v}]"),
                _ => opaque("uninit"),
            },
            RigidTy::Char => match a.read_partial_uint(off..off + 4) {
                Ok(v) => format!("[\"int\",{v}]"),
                _ => opaque("uninit"),
            },
            RigidTy::Int(i) => match a.read_partial_uint(off..off + i.num_bytes()) {
                Ok(v) => format!("[\"int\",{v}]"),
                _ => opaque("uninit"),
            },
            RigidTy::Uint(i) => match a.read_partial_uint(off..off + i.num_bytes()) {
                Ok(v) => format!("[\"int\",{v}]"),
                _ => opaque("uninit"),
            },
            RigidTy::FnDef(..) => format!("[\"zst\",{}]", self.ty(t)),
            RigidTy::FnPtr(_) => match Self::ptr(a, off) {
                Some((GlobalAlloc::Function(i), _)) => {
                    let k = self.key(&i);
                    format!("[\"fn\",{}]", q(&k))
                }
                _ => opaque("fnptr"),
            },
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some((ga, addr)) = Self::ptr(a, off) else {
                    return match a.read_partial_uint(off..off + 8) {
                        Ok(v) => format!("[\"rawptr\",{v}]"),
                        _ => opaque("ptr"),
                    };
                };
                match ga {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = a.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                            let b: Vec<u8> = m.bytes[addr as usize..addr as usize + n]
                                .iter()
                                .map(|x| x.unwrap_or(0))
                                .collect();
                            format!("[\"str\",{}]", q(&String::from_utf8_lossy(&b)))
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let n = a.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                            let sz = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let mut v = vec![];
                            if n > 70000 {
                                return opaque("bigslice");
                            }
                            for i in 0..n {
                                v.push(self.decode(el, &m, addr as usize + i * sz, depth + 1));
                            }
                            format!("[\"ref\",[\"arr\",{}]]", arr(v))
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => opaque("dynref"),
                        _ => {
                            let inner = self.decode(e, &m, addr as usize, depth + 1);
                            format!("[\"ref\",{inner}]")
                        }
                    },
                    GlobalAlloc::Static(s) => {
                        let init = match s.eval_initializer() {
                            Ok(m) => self.decode(s.ty(), &m, 0, depth + 1),
                            _ => opaque("static"),
                        };
                        format!("[\"static\",{},{}]", q(&s.name().to_string()), init)
                    }
                    GlobalAlloc::Function(i) => {
                        let k = self.key(&i);
                        format!("[\"fn\",{}]", q(&k))
                    }
                    GlobalAlloc::VTable(..) => opaque("vtable"),
                    _ => opaque("typeid"),
                }
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if n > 4096 {
                    // uniform?
                    let b = &a.bytes[off..off + n * sz];
                    if b.iter().all(|x| *x == Some(0)) {
                        let z = self.decode(e, a, off, depth + 1);
                        return format!("[\"rep\",{z},{n}]");
                    }
                    return opaque("bigarray");
                }
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode(e, a, off + i * sz, depth + 1));
                }
                format!("[\"arr\",{}]", arr(v))
            }
            RigidTy::Tuple(ts) => {
                if ts.is_empty() {
                    return format!("[\"zst\",{}]", self.ty(t));
                }
                let Ok(l) = t.layout() else { return opaque("layout") };
                let FieldsShape::Arbitrary { offsets } = l.shape().fields else {
                    return opaque("shape");
                };
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    v.push(self.decode(*ft, a, off + offsets[i].bytes(), depth + 1));
                }
                format!("[\"tup\",{}]", arr(v))
            }
            RigidTy::Closure(..) => format!("[\"zst\",{}]", self.ty(t)),
            RigidTy::Adt(def, args) => {
                let tid = self.ty(t);
                let Ok(l) = t.layout() else { return opaque("layout") };
                let sh = l.shape();
                let (vi, offsets): (usize, Vec<usize>) = match (&sh.variants, def.kind()) {
                    (_, AdtKind::Union) => return opaque("union"),
                    (VariantsShape::Single { index }, _) => {
                        let offs = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => {
                                offsets.iter().map(|x| x.bytes()).collect()
                            }
                            _ => vec![0; 8],
                        };
                        (index.to_index(), offs)
                    }
                    (VariantsShape::Multiple { tag, tag_encoding, variants, tag_field }, _) => {
                        let toff = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let prim = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => *value,
                            rustc_public::abi::Scalar::Union { value } => *value,
                        };
                        let sz = prim
                            .size(&rustc_public::target::MachineInfo::target())
                            .bytes();
                        // pointers with provenance as tag: non-null -> untagged
                        let hasprov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let raw = match a.read_partial_uint(off + toff..off + toff + sz) {
                            Ok(v) => v,
                            _ => return opaque("tag"),
                        };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut r = None;
                                for v in def.variants() {
                                    let d = def.discriminant_for_variant(v.idx()).val;
                                    let m = if sz >= 16 { u128::MAX } else { (1u128 << (sz * 8)) - 1 };
                                    if d & m == raw {
                                        r = Some(v.idx().to_index());
                                    }
                                }
                                match r {
                                    Some(r) => r,
                                    None => return opaque("tagval"),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let m = if sz >= 16 { u128::MAX } else { (1u128 << (sz * 8)) - 1 };
                                let rel = raw.wrapping_sub(*niche_start) & m;
                                let lo = niche_variants.start().to_index() as u128;
                                let hi = niche_variants.end().to_index() as u128;
                                if !hasprov && rel <= hi - lo {
                                    (lo + rel) as usize
                                } else {
                                    untagged_variant.to_index()
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                    }
                    _ => return opaque("emptyvariants"),
                };
                let vs = def.variants();
                let mut v = vec![];
                for (i, f) in vs[vi].fields().iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    v.push(self.decode(ft, a, off + offsets[i], depth + 1));
                }
                format!("[\"adt\",{},{},{}]", tid, vi, arr(v))
            }
            _ => opaque("kind"),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{from},{to},{from_end}]")
                }
                ProjectionElem::Downcast(v) => format!("[\"dc\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                format!("[\"k\",{},{}]", self.konst(&c.const_), self.ty(c.const_.ty()))
            }
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", q(&format!("{r:?}"))),
        }
    }

    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::AddressOf(k, p) => {
                format!("[\"addr\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(p))
            }
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p))
            }
            Rvalue::BinaryOp(b, x, y) => {
                let t = x.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                format!("[\"bin\",\"{:?}\",{},{},{}]", b, self.op(x), self.op(y), t)
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let t = x.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                format!("[\"cbin\",\"{:?}\",{},{},{}]", b, self.op(x), self.op(y), t)
            }
            Rvalue::UnaryOp(u, x) => {
                let t = x.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                format!("[\"un\",\"{:?}\",{},{}]", u, self.op(x), t)
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).ok();
                let ft = from.map(|t| self.ty(t)).unwrap_or(0);
                if let (CastKind::PointerCoercion(PointerCoercion::Unsize), Some(f)) = (k, from) {
                    self.unsize(f, *t);
                }
                if let (CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)), Some(f)) =
                    (k, from)
                {
                    self.ty(f);
                }
                format!(
                    "[\"cast\",{},{},{},{}]",
                    q(&format!("{k:?}")),
                    self.op(o),
                    self.ty(*t),
                    ft
                )
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let kk = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t),
                            v.to_index(),
                            f.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", kk, arr(os))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                format!("[\"discr\",{},{}]", self.place(p), t)
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().unwrap_or(u64::MAX);
                format!("[\"rep\",{},{}]", self.op(o), n)
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".to_string(),
        }
    }

    fn pointee(t: Ty) -> Option<Ty> {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => {
                Some(e)
            }
            TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().find_map(|x| x.ty().copied()),
            _ => None,
        }
    }

    fn unsize(&mut self, f: Ty, t: Ty) {
        let (Some(fe), Some(te)) = (Self::pointee(f), Self::pointee(t)) else { return };
        // descend through nested pointers (Box<Pin<..>>) is not needed here
        if let TyKind::RigidTy(RigidTy::Dynamic(ps, _)) = te.kind() {
            if let TyKind::RigidTy(RigidTy::Dynamic(..)) = fe.kind() {
                return;
            }
            for p in ps.iter() {
                if let ExistentialPredicate::Trait(tr) = &p.value {
                    // Fn* objects are called through their concrete type
                    let tn = tr.def_id.name().to_string();
                    if tn.contains("::function::Fn") || tn.contains("ops::Fn") {
                        self.ty(fe);
                        continue;
                    }
                    let k = format!("{}|{}", fe, te);
                    if !self.vt_seen.insert(k.clone()) {
                        continue;
                    }
                    let trait_ref = tr.with_self_ty(fe);
                    let es: Vec<String> = trait_ref
                        .vtable_entries()
                        .iter()
                        .map(|e| match e {
                            VtblEntry::Method(i) => {
                                let k = self.key(i);
                                q(&k)
                            }
                            _ => "null".to_string(),
                        })
                        .collect();
                    let fi = self.ty(fe);
                    let ti = self.ty(te);
                    self.vtabs.insert(k, format!("[{},{},{}]", fi, ti, arr(es)));
                }
            }
        }
    }

    fn body(&mut self, i: &Instance, b: &Body) -> String {
        let locals = b.locals();
        let file = b.span.get_filename().to_string();
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in b.var_debug_info.iter() {
            if let Some(l) = v.local() {
                names.entry(l).or_insert_with(|| v.name.to_string());
            }
        }
        let ls = arr(locals
            .iter()
            .enumerate()
            .map(|(n, l)| match names.get(&n) {
                Some(s) => format!("[{},{}]", self.ty(l.ty), q(s)),
                None => format!("[{}]", self.ty(l.ty)),
            })
            .collect::<Vec<_>>());
        let mut bbs = vec![];
        for bb in b.blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                let line = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        st.push(format!("[\"=\",{},{},{}]", self.place(p), self.rv(r, locals), line))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!(
                        "[\"sd\",{},{},{}]",
                        self.place(place),
                        variant_index.to_index(),
                        line
                    )),
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{l}]")),
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{l}]")),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => st
                        .push(format!(
                            "[\"cno\",{},{},{}]",
                            self.op(&c.src),
                            self.op(&c.dst),
                            self.op(&c.count)
                        )),
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let line = t.source_info.span.get_lines().start_line;
            let term = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                    format!(
                        "[\"sw\",{},{},{},{},{}]",
                        self.op(discr),
                        arr(targets.branches().map(|(v, b)| format!("[{v},{b}]")).collect::<Vec<_>>()),
                        targets.otherwise(),
                        ty,
                        line
                    )
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                    format!("[\"drop\",{},{},{}]", self.place(place), target, ty)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func.ty(locals).map(|t| t.kind()) {
                        Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => match {
                            if self.next_def.is_none() || self.into_def.is_none() {
                                let n = d.name().to_string();
                                if n == "std::iter::Iterator::next" {
                                    self.next_def = Some(d);
                                } else if n == "std::iter::IntoIterator::into_iter" {
                                    self.into_def = Some(d);
                                }
                            }
                            Instance::resolve(d, &a)
                        } {
                            Ok(ci) => {
                                let k = self.key(&ci);
                                format!("[\"fn\",{},{}]", q(&k), q(&d.name().to_string()))
                            }
                            Err(_) => format!("[\"unresolved\",{}]", q(&d.name().to_string())),
                        },
                        _ => format!("[\"ptr\",{}]", self.op(func)),
                    };
                    let as_: Vec<String> = args.iter().map(|a| self.op(a)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        f,
                        arr(as_),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        line
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (m, ops): (String, Vec<Operand>) = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![len.clone(), index.clone()])
                        }
                        AssertMessage::Overflow(b, x, y) => {
                            (format!("overflow:{b:?}"), vec![x.clone(), y.clone()])
                        }
                        AssertMessage::OverflowNeg(x) => ("overflow:Neg".into(), vec![x.clone()]),
                        AssertMessage::DivisionByZero(x) => ("divzero".into(), vec![x.clone()]),
                        AssertMessage::RemainderByZero(x) => ("remzero".into(), vec![x.clone()]),
                        AssertMessage::MisalignedPointerDereference { .. } => ("misaligned".into(), vec![]),
                        AssertMessage::NullPointerDereference => ("nullptr".into(), vec![]),
                        _ => ("other".into(), vec![]),
                    };
                    let os: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                    format!(
                        "[\"assert\",{},{},{},{},{},{}]",
                        self.op(cond),
                        expected,
                        q(&m),
                        target,
                        arr(os),
                        line
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            bbs.push(format!("[{},{}]", arr(st), term));
        }
        let spread = b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into());
        let nargs = b.arg_locals().len();
        let line = b.span.get_lines().start_line;
        let _ = i;
        format!(
            "{{\"file\":{},\"line\":{},\"nargs\":{},\"spread\":{},\"locals\":{},\"bb\":{}}}",
            q(&file),
            line,
            nargs,
            spread,
            ls,
            arr(bbs)
        )
    }
}

type AllocRef = GlobalAlloc;

fn want_body(path: &str, krate: &str, local: &str) -> bool {
    if krate == local {
        return true;
    }
    matches!(krate, "core" | "alloc" | "std" | "y86_sim" | "y86_dbg" | "binutils")
        && !path.contains("::fmt::")
}

fn dump() -> ControlFlow<(), ()> {
    let Ok(dir) = std::env::var("Y86_DUMP_DIR") else {
        return ControlFlow::Continue(());
    };
    let krate = rustc_public::local_crate();
    let cname = krate.name.to_string();
    let mut cx = Cx::default();
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if let Ok(i) = Instance::try_from(it) {
            if matches!(it.kind(), rustc_public::ItemKind::Fn) && it.has_body() {
                let k = cx.key(&i);
                roots.push(q(&k));
            }
        }
    }
    // local ADTs without generics, so that the checker can look them up by path
    let mut fns: Vec<(String, String)> = vec![];
    loop {
        let Some(i) = cx.queue.pop_front() else {
            cx.iterators();
            if cx.queue.is_empty() {
                break;
            }
            continue;
        };
        let k = cx.key(&i);
        if matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic) {
            continue;
        }
        if i.is_foreign_item() {
            continue;
        }
        let kr = CrateDef::krate(&i.def).name.to_string();
        let path = CrateDef::name(&i.def).to_string();
        if !want_body(&path, &kr, &cname) {
            continue;
        }
        if i.kind != InstanceKind::Shim && !i.has_body() {
            continue;
        }
        if i.kind == InstanceKind::Intrinsic {
            continue;
        }
        if let Some(b) = i.body() {
            let s = cx.body(&i, &b);
            fns.push((k, s));
        }
    }
    let mut out = String::new();
    let _ = write!(out, "{{\"crate\":{},\n\"roots\":{},\n\"types\":[\n", q(&cname), arr(roots));
    out.push_str(&cx.tyout.join(",\n"));
    out.push_str("],\n\"vtables\":[");
    out.push_str(&cx.vtabs.values().cloned().collect::<Vec<_>>().join(",\n"));
    out.push_str("],\n\"iters\":[");
    out.push_str(&cx.iters.join(",\n"));
    out.push_str("],\n\"refs\":{\n");
    out.push_str(
        &cx.fnrefs.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(",\n"),
    );
    out.push_str("},\n\"fns\":{\n");
    out.push_str(&fns.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(",\n"));
    out.push_str("}}\n");
    let kind = if rustc_public::entry_fn().is_some() { "bin" } else { "lib" };
    let p = format!("{dir}/{cname}.{kind}.json");
    let tmp = format!("{p}.tmp{}", std::process::id());
    std::fs::write(&tmp, out).expect("write dump");
    std::fs::rename(&tmp, &p).expect("rename dump");
    ControlFlow::Continue(())
}

fn main() {
    // argv: mirdump rustc <args...>
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 {
        args.remove(1);
    }
    let info_only = args.iter().any(|a| a == "--print" || a.starts_with("--print=") || a == "-vV")
        || !args.iter().any(|a| a == "--crate-name");
    let procmacro = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "proc-macro");
    let build_script = args.windows(2).any(|w| w[0] == "--crate-name" && w[1].starts_with("build_script"));
    if info_only || procmacro || build_script {
        let rustc = std::env::args().nth(1).unwrap();
        let st = std::process::Command::new(rustc)
            .args(std::env::args().skip(2))
            .status()
            .expect("run rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Coverflow-checks=on".into());
    let r = run!(&args, dump);
    std::process::exit(match r {
        Ok(()) => 0,
        Err(_) => 1,
    });
}
