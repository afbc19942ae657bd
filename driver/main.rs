//! MIR fact extractor.  Injected as RUSTC_WORKSPACE_WRAPPER under
//! `cargo +nightly check`; for every workspace crate it writes
//! $SA_OUT/<crate>.json with the type-checked, monomorphised MIR of the crate
//! (callees resolved, constants evaluated), the bodies of a few whitelisted
//! std helpers reached from it, plus unsafe/static/type inventories.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use rustc_public::abi::{Scalar, FieldsShape, TagEncoding, VariantsShape};
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

#[derive(Clone)]
enum J { Null, B(bool), N(String), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
fn s<T: ToString>(x: T) -> J { J::S(x.to_string()) }
fn n<T: ToString>(x: T) -> J { J::N(x.to_string()) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(x) => o.push_str(x),
            J::S(x) => esc(x, o),
            J::A(v) => { o.push('['); for (i, e) in v.iter().enumerate() { if i > 0 { o.push(',') } e.w(o) } o.push(']') }
            J::O(v) => { o.push('{'); for (i, (k, e)) in v.iter().enumerate() { if i > 0 { o.push(',') } esc(k, o); o.push(':'); e.w(o) } o.push('}') }
        }
    }
}
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { write!(o, "\\u{:04x}", c as u32).unwrap(); } c => o.push(c) }
    }
    o.push('"');
}

struct Cx {
    types: Vec<J>, tyidx: HashMap<Ty, usize>,
    queue: VecDeque<Instance>, seen: HashSet<Instance>,
    local: String, inline: Vec<String>, poly: bool,
}
macro_rules! o { ($($k:literal : $v:expr),* $(,)?) => { J::O(vec![$(($k, $v)),*]) } }

impl Cx {
    fn ty(&mut self, t: Ty) -> J {
        if let Some(i) = self.tyidx.get(&t) { return n(i); }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tyidx.insert(t, i);
        let d = self.ty_desc(t);
        self.types[i] = d;
        n(i)
    }
    fn args(&mut self, a: &GenericArgs) -> J {
        J::A(a.0.iter().filter_map(|g| match g {
            GenericArgKind::Type(t) => Some(self.ty(*t)),
            GenericArgKind::Const(c) => Some(o!{"const": c.eval_target_usize().map(n).unwrap_or(J::Null)}),
            _ => None,
        }).collect())
    }
    fn ty_desc(&mut self, t: Ty) -> J {
        let text = s(format!("{}", t));
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o!{"k": s("bool")},
                RigidTy::Char => o!{"k": s("char")},
                RigidTy::Str => o!{"k": s("str")},
                RigidTy::Never => o!{"k": s("never")},
                RigidTy::Int(x) => o!{"k": s("int"), "signed": J::B(true), "bits": n(x.num_bytes() * 8), "name": text},
                RigidTy::Uint(x) => o!{"k": s("int"), "signed": J::B(false), "bits": n(x.num_bytes() * 8), "name": text},
                RigidTy::Float(_) => o!{"k": s("float"), "name": text},
                RigidTy::Adt(d, a) => {
                    let kind = match d.kind() { AdtKind::Enum => "enum", AdtKind::Union => "union", AdtKind::Struct => "struct" };
                    let args = self.args(&a);
                    let cn = d.krate().name.to_string(); let local = cn == self.local || cn.starts_with("sm_") || cn == "wolfram_wxf";
                    let mut vs = vec![];
                    for v in d.variants() {
                        let disc = if d.kind() == AdtKind::Enum { n(d.discriminant_for_variant(v.idx()).val) } else { J::Null };
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = if local { self.ty(f.ty_with_args(&a)) } else { J::Null };
                            fs.push(J::A(vec![s(f.name.clone()), ft]));
                        }
                        vs.push(o!{"name": s(v.name()), "disc": disc, "fields": J::A(fs)});
                    }
                    o!{"k": s("adt"), "adt": s(d.name()), "crate": s(d.krate().name), "kind": s(kind), "args": args, "variants": J::A(vs), "text": text}
                }
                RigidTy::Array(t, c) => o!{"k": s("array"), "el": self.ty(t), "len": c.eval_target_usize().map(n).unwrap_or(J::Null)},
                RigidTy::Slice(t) => o!{"k": s("slice"), "el": self.ty(t)},
                RigidTy::RawPtr(t, m) => o!{"k": s("ptr"), "el": self.ty(t), "mut": J::B(m == Mutability::Mut)},
                RigidTy::Ref(_, t, m) => o!{"k": s("ref"), "el": self.ty(t), "mut": J::B(m == Mutability::Mut)},
                RigidTy::FnDef(d, a) => self.fndef(d, &a),
                RigidTy::FnPtr(_) => o!{"k": s("fnptr"), "text": text},
                RigidTy::Closure(d, a) => {
                    let mut id = J::Null;
                    if !self.poly { for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                        if let Ok(i) = Instance::resolve_closure(d, &a, k) {
                            if i.kind == InstanceKind::Item { id = s(i.mangled_name()); self.enqueue(i); break; }
                        }
                    } }
                    o!{"k": s("closure"), "def": s(d.name()), "inst": id, "text": text}
                }
                RigidTy::Tuple(v) => { let a = v.iter().map(|t| self.ty(*t)).collect(); o!{"k": s("tuple"), "el": J::A(a)} }
                RigidTy::Dynamic(..) => o!{"k": s("dyn"), "text": text},
                _ => o!{"k": s("other"), "text": text},
            },
            TyKind::Param(_) => o!{"k": s("param"), "text": text},
            _ => o!{"k": s("other"), "text": text},
        }
    }
    fn enqueue(&mut self, i: Instance) {
        if self.seen.contains(&i) { return; }
        let def_crate = match i.ty().kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, _)) => (d.krate().name.to_string(), d.name().to_string()),
            TyKind::RigidTy(RigidTy::Closure(d, _)) => (d.krate().name.to_string(), d.name().to_string()),
            _ => (String::new(), String::new()),
        };
        let nm = i.name();
        let ok = def_crate.0 == self.local || self.inline.iter().any(|p| def_crate.1.starts_with(p.as_str()) || nm.starts_with(p.as_str()) || nm.starts_with(&format!("<{}", p)));
        if !ok || i.kind == InstanceKind::Intrinsic || matches!(i.kind, InstanceKind::Virtual{..}) { return; }
        if !i.has_body() { return; }
        self.seen.insert(i);
        self.queue.push_back(i);
    }
    fn fndef(&mut self, d: FnDef, a: &GenericArgs) -> J {
        let args = self.args(a);
        let (mut id, mut nm, mut kind) = (J::Null, J::Null, J::Null);
        let mut uns = false;
        let mut ret = J::Null;
        { let sig = d.fn_sig().skip_binder(); if format!("{:?}", sig.safety) == "Unsafe" { uns = true; } }
        let intr = d.is_intrinsic();
        if self.poly { } else if let Ok(i) = Instance::resolve(d, a) {
            id = s(i.mangled_name()); nm = s(i.name()); kind = s(format!("{:?}", i.kind).split(' ').next().unwrap());
            if let Ok(abi) = i.fn_abi() { ret = self.ty(abi.ret.ty); }
            self.enqueue(i);
        }
        o!{"k": s("fndef"), "ret": ret, "path": s(d.name()), "crate": s(d.krate().name), "args": args, "inst": id, "iname": nm, "ikind": kind, "unsafe": J::B(uns), "intrinsic": J::B(intr)}
    }
    fn span(&self, sp: Span) -> J {
        let l = sp.get_lines();
        s(format!("{}:{}", sp.get_filename().rsplit("/projects/").next().unwrap_or(""), l.start_line))
    }
    fn place(&mut self, p: &Place) -> J {
        let pr = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => s("*"),
            ProjectionElem::Field(i, t) => { let t = self.ty(*t); J::A(vec![s("f"), n(i), t]) }
            ProjectionElem::Index(l) => J::A(vec![s("i"), n(l)]),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("c"), n(offset), n(min_length), J::B(*from_end)]),
            ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("s"), n(from), n(to), J::B(*from_end)]),
            ProjectionElem::Downcast(v) => J::A(vec![s("v"), n(v.to_index())]),
            ProjectionElem::OpaqueCast(_) => s("opaque"),
        }).collect();
        J::A(vec![n(p.local), J::A(pr)])
    }
    fn alloc_val(&mut self, al: &Allocation, off: usize, t: Ty, depth: usize) -> J {
        if depth > 12 { return o!{"opaque": s("depth")}; }
        let rd = |o: usize, l: usize| al.read_partial_uint(o..o + l).ok();
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => match rd(off, 1) { Some(x) => o!{"bool": J::B(x != 0)}, None => o!{"opaque": s("uninit")} },
                RigidTy::Char => match rd(off, 4) { Some(x) => o!{"char": n(x)}, None => o!{"opaque": s("uninit")} },
                RigidTy::Uint(u) => match rd(off, u.num_bytes()) { Some(x) => o!{"int": n(x)}, None => o!{"opaque": s("uninit")} },
                RigidTy::Int(u) => match rd(off, u.num_bytes()) {
                    Some(x) => { let b = u.num_bytes() * 8; let v = if b == 128 { x as i128 } else if x >> (b - 1) & 1 == 1 { x as i128 - (1i128 << b) } else { x as i128 }; o!{"int": n(v)} }
                    None => o!{"opaque": s("uninit")} },
                RigidTy::Float(_) => o!{"opaque": s("float")},
                RigidTy::Tuple(ts) => {
                    if ts.is_empty() { return o!{"tuple": J::A(vec![])}; }
                    let sh = match t.layout() { Ok(l) => l.shape(), Err(_) => return o!{"opaque": s("layout")} };
                    if let FieldsShape::Arbitrary { offsets } = sh.fields {
                        let v = ts.iter().zip(offsets.iter()).map(|(t, f)| self.alloc_val(al, off + f.bytes(), *t, depth + 1)).collect();
                        o!{"tuple": J::A(v)}
                    } else { o!{"opaque": s("tuple")} }
                }
                RigidTy::Array(el, c) => {
                    let len = c.eval_target_usize().unwrap_or(0) as usize;
                    let st = match el.layout() { Ok(l) => l.shape().size.bytes(), Err(_) => return o!{"opaque": s("layout")} };
                    if len > 4096 { return o!{"opaque": s("long array")}; }
                    let v = (0..len).map(|i| self.alloc_val(al, off + i * st, el, depth + 1)).collect();
                    o!{"array": J::A(v)}
                }
                RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => self.ptr_val(al, off, to, depth),
                RigidTy::FnDef(..) | RigidTy::Closure(..) => { let t = self.ty(t); o!{"zst": t} }
                RigidTy::Adt(d, a) => {
                    let sh = match t.layout() { Ok(l) => l.shape(), Err(_) => return o!{"opaque": s("layout")} };
                    let ti = self.ty(t);
                    match (&sh.variants, &sh.fields) {
                        (VariantsShape::Single { index }, FieldsShape::Arbitrary { offsets }) => {
                            let idx = index.to_index();
                            let v = match d.variants().into_iter().nth(idx) { Some(v) => v, None => return o!{"opaque": s("variant")} };
                            let fs = v.fields();
                            let mut out = vec![];
                            for (f, of) in fs.iter().zip(offsets.iter()) { out.push(self.alloc_val(al, off + of.bytes(), f.ty_with_args(&a), depth + 1)); }
                            o!{"adt": ti, "variant": n(idx), "fields": J::A(out)}
                        }
                        (VariantsShape::Multiple { tag, tag_encoding, tag_field, variants }, FieldsShape::Arbitrary { offsets }) => {
                            let mi = rustc_public::target::MachineInfo::target();
                            let tsz = match tag { Scalar::Initialized { value, .. } | Scalar::Union { value } => value.size(&mi).bytes() };
                            let to = offsets[*tag_field].bytes();
                            let has_prov = al.provenance.ptrs.iter().any(|(o2, _)| *o2 == off + to);
                            let tagv = if has_prov { None } else { rd(off + to, tsz) };
                            let idx = match tag_encoding {
                                TagEncoding::Direct => { match tagv { Some(tv) => d.variants().iter().position(|v| d.discriminant_for_variant(v.idx()).val == tv), None => None } }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    match tagv {
                                        None => Some(untagged_variant.to_index()),
                                        Some(tv) => {
                                            let lo = niche_variants.start().to_index() as u128; let hi = niche_variants.end().to_index() as u128;
                                            let mask = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                            let rel = tv.wrapping_sub(*niche_start) & mask;
                                            if rel <= hi - lo { Some((lo + rel) as usize) } else { Some(untagged_variant.to_index()) }
                                        }
                                    }
                                }
                            };
                            let idx = match idx { Some(i) => i, None => return o!{"opaque": s("tag")} };
                            let v = d.variants().into_iter().nth(idx).unwrap();
                            let mut out = vec![];
                            for (f, of) in v.fields().iter().zip(variants[idx].offsets.iter()) { out.push(self.alloc_val(al, off + of.bytes(), f.ty_with_args(&a), depth + 1)); }
                            o!{"adt": ti, "variant": n(idx), "fields": J::A(out)}
                        }
                        _ => o!{"opaque": s("adt")},
                    }
                }
                _ => o!{"opaque": s("type")},
            },
            _ => o!{"opaque": s("type")},
        }
    }
    fn ptr_val(&mut self, al: &Allocation, off: usize, to: Ty, depth: usize) -> J {
        let prov = al.provenance.ptrs.iter().find(|(o2, _)| *o2 == off).map(|(_, p)| p.0);
        let base = al.read_partial_uint(off..off + 8).unwrap_or(0) as usize;
        let target = match prov { None => {
            // dangling pointer to a ZST / empty slice
            if let TyKind::RigidTy(RigidTy::Slice(_)) = to.kind() { return o!{"ref": o!{"array": J::A(vec![])}}; }
            if let TyKind::RigidTy(RigidTy::Str) = to.kind() { return o!{"str": s("")}; }
            return o!{"opaque": s("ptr")} }, Some(a) => GlobalAlloc::from(a) };
        match target {
            GlobalAlloc::Memory(m) => match to.kind() {
                TyKind::RigidTy(RigidTy::Str) => {
                    let len = al.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                    let b: Vec<u8> = m.bytes[base..base + len].iter().map(|x| x.unwrap_or(0)).collect();
                    o!{"str": s(String::from_utf8_lossy(&b))}
                }
                TyKind::RigidTy(RigidTy::Slice(el)) => {
                    let len = al.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                    if len > 4096 { return o!{"opaque": s("long slice")}; }
                    let st = match el.layout() { Ok(l) => l.shape().size.bytes(), Err(_) => return o!{"opaque": s("layout")} };
                    if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = el.kind() {
                        let b: Vec<J> = m.bytes[base..base + len].iter().map(|x| n(x.unwrap_or(0))).collect();
                        return o!{"bytes": J::A(b)};
                    }
                    let v = (0..len).map(|i| self.alloc_val(&m, base + i * st, el, depth + 1)).collect();
                    o!{"ref": o!{"array": J::A(v)}}
                }
                TyKind::RigidTy(RigidTy::Dynamic(..)) => o!{"opaque": s("dyn")},
                _ => { let v = self.alloc_val(&m, base, to, depth + 1); o!{"ref": v} }
            },
            GlobalAlloc::Static(d) => o!{"static": s(d.name()), "krate": s(d.krate().name)},
            GlobalAlloc::Function(i) => { if !self.poly { self.enqueue(i); } o!{"fn": s(i.mangled_name()), "iname": s(i.name())} }
            _ => o!{"opaque": s("global")},
        }
    }
    fn constant(&mut self, c: &ConstOperand) -> J {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let v = match c.const_.kind() {
            ConstantKind::ZeroSized => o!{"zst": ti.clone()},
            ConstantKind::Allocated(a) => { if a.bytes.is_empty() { match t.kind() { TyKind::RigidTy(RigidTy::Tuple(v)) if v.is_empty() => o!{"tuple": J::A(vec![])}, TyKind::RigidTy(RigidTy::FnDef(..)) | TyKind::RigidTy(RigidTy::Closure(..)) => o!{"zst": ti.clone()}, _ => self.alloc_val(a, 0, t, 0) } } else { self.alloc_val(a, 0, t, 0) } }
            ConstantKind::Ty(tc) => match tc.eval_target_usize() { Ok(x) => o!{"int": n(x)}, _ => o!{"opaque": s("tyconst")} },
            ConstantKind::Param(_) => o!{"opaque": s("param")},
            ConstantKind::Unevaluated(_) => o!{"opaque": s("unevaluated")},
        };
        o!{"t": ti, "v": v}
    }
    fn operand(&mut self, op: &Operand) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("const"), self.constant(c)]),
            Operand::RuntimeChecks(r) => J::A(vec![s("rtc"), s(format!("{:?}", r))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        match r {
            Rvalue::Use(op, _) => J::A(vec![s("use"), self.operand(op)]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("usep"), self.place(p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("usep"), self.place(p)]),
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), s(match bk { BorrowKind::Shared => "shared", BorrowKind::Mut { .. } => "mut", _ => "fake" }), self.place(p)]),
            Rvalue::AddressOf(k, p) => J::A(vec![s("addr"), s(format!("{:?}", k)), self.place(p)]),
            Rvalue::BinaryOp(b, x, y) => { let ty = x.ty(locals).map(|t| self.ty(t)).unwrap_or(J::Null); J::A(vec![s("bin"), s(format!("{:?}", b)), self.operand(x), self.operand(y), ty]) }
            Rvalue::CheckedBinaryOp(b, x, y) => { let ty = x.ty(locals).map(|t| self.ty(t)).unwrap_or(J::Null); J::A(vec![s("cbin"), s(format!("{:?}", b)), self.operand(x), self.operand(y), ty]) }
            Rvalue::UnaryOp(u, x) => { let ty = x.ty(locals).map(|t| self.ty(t)).unwrap_or(J::Null); J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(x), ty]) }
            Rvalue::Cast(k, x, t) => { let from = x.ty(locals).map(|t| self.ty(t)).unwrap_or(J::Null); let to = self.ty(*t); J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(x), from, to]) }
            Rvalue::Discriminant(p) => { let ty = p.ty(locals).map(|t| self.ty(t)).unwrap_or(J::Null); J::A(vec![s("disc"), self.place(p), ty]) }
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
            Rvalue::Repeat(x, c) => J::A(vec![s("repeat"), self.operand(x), c.eval_target_usize().map(n).unwrap_or(J::Null)]),
            Rvalue::ThreadLocalRef(i) => J::A(vec![s("tls"), s(i.name())]),
            Rvalue::Aggregate(k, ops) => {
                let kj = match k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, f) => { let t = d.ty_with_args(a); let ti = self.ty(t); J::A(vec![s("adt"), ti, n(v.to_index()), f.map(n).unwrap_or(J::Null)]) }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(*d, a.clone()); let ti = self.ty(t); J::A(vec![s("closure"), ti]) }
                    _ => J::A(vec![s("other")]),
                };
                let ov = ops.iter().map(|x| self.operand(x)).collect();
                J::A(vec![s("agg"), kj, J::A(ov)])
            }
        }
    }
    fn body(&mut self, b: &Body) -> J {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let lt = locals.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value { names.push(J::A(vec![s(v.name.clone()), self.place(p)])); }
        }
        let mut blocks = vec![];
        for blk in &b.blocks {
            let mut st = vec![];
            for x in &blk.statements {
                match &x.kind {
                    StatementKind::Assign(p, r) => { let sp = self.span(x.source_info.span); st.push(J::A(vec![s("="), self.place(p), self.rvalue(r, &locals), sp])) }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::A(vec![s("setdisc"), self.place(place), n(variant_index.to_index())])),
                    StatementKind::Intrinsic(_) => st.push(J::A(vec![s("intrinsic"), s(format!("{:?}", x.kind))])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), n(l)])),
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l)])),
                    _ => {}
                }
            }
            let sp = self.span(blk.terminator.source_info.span);
            let t = match &blk.terminator.kind {
                TerminatorKind::Goto { target } => J::A(vec![s("goto"), n(target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&locals).map(|t| self.ty(t)).unwrap_or(J::Null);
                    let br = targets.branches().map(|(v, t)| J::A(vec![n(v), n(t)])).collect();
                    J::A(vec![s("switch"), self.operand(discr), J::A(br), n(targets.otherwise()), ty, sp])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Resume | TerminatorKind::Abort => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => { let ty = place.ty(&locals).map(|t| self.ty(t)).unwrap_or(J::Null); J::A(vec![s("drop"), self.place(place), n(target), ty]) }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => J::A(vec![s("bounds"), self.operand(len), self.operand(index)]),
                        AssertMessage::Overflow(op, a, b) => J::A(vec![s("overflow"), s(format!("{:?}", op)), self.operand(a), self.operand(b)]),
                        AssertMessage::OverflowNeg(a) => J::A(vec![s("overflowneg"), self.operand(a)]),
                        AssertMessage::DivisionByZero(a) => J::A(vec![s("div0"), self.operand(a)]),
                        AssertMessage::RemainderByZero(a) => J::A(vec![s("rem0"), self.operand(a)]),
                        other => J::A(vec![s("other"), s(format!("{:?}", other).chars().take(60).collect::<String>())]),
                    };
                    J::A(vec![s("assert"), self.operand(cond), J::B(*expected), m, n(target), sp])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a = args.iter().map(|x| self.operand(x)).collect();
                    let fty = func.ty(&locals).map(|t| self.ty(t)).unwrap_or(J::Null);
                    J::A(vec![s("call"), f, J::A(a), self.place(destination), target.map(n).unwrap_or(J::Null), fty, sp])
                }
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
            };
            blocks.push(o!{"s": J::A(st), "t": t});
        }
        o!{"locals": J::A(lt), "argc": n(b.arg_locals().len()), "names": J::A(names), "blocks": J::A(blocks),
           "spread": b.spread_arg().map(n).unwrap_or(J::Null), "span": self.span(b.span)}
    }
}

fn analyze(unsafe_facts: Vec<String>) -> ControlFlow<(), ()> {
    let local = rustc_public::local_crate().name.to_string();
    let inline = std::env::var("SA_INLINE").unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(String::from).collect();
    let mut cx = Cx { types: vec![], tyidx: HashMap::new(), queue: VecDeque::new(), seen: HashSet::new(), local: local.clone(), inline, poly: false };
    let mut items = vec![];
    let mut generic = vec![];
    let mut later = vec![];
    for it in rustc_public::all_local_items() {
        let kind = match it.kind() { ItemKind::Fn => "fn", ItemKind::Static => "static", ItemKind::Const => "const", ItemKind::Ctor(_) => "ctor" };
        let g = it.requires_monomorphization();
        let mut id = J::Null;
        if kind == "fn" && !g {
            if let Ok(i) = Instance::try_from(it) { if i.has_body() { id = s(i.mangled_name()); if cx.seen.insert(i) { cx.queue.push_back(i); } } }
        }
        let tj = if kind == "static" || kind == "const" { cx.ty(it.ty()) } else { J::Null };
        let mut val = J::Null;
        if kind == "static" {
            if let Ok(sd) = rustc_public::mir::mono::StaticDef::try_from(it) { if let Ok(a) = sd.eval_initializer() { val = cx.alloc_val(&a, 0, it.ty(), 0); } }
        }
        if kind != "ctor" && (g || kind != "fn") && !it.name().contains("{closure") { later.push(it); }
        let sp = cx.span(it.span());
        items.push(o!{"name": s(it.name()), "kind": s(kind), "generic": J::B(g), "inst": id, "ty": tj, "val": val, "span": sp});
    }
    let mut insts = vec![];
    let mut count = 0;
    while let Some(i) = cx.queue.pop_front() {
        count += 1;
        if count > 20000 { eprintln!("sa-driver: too many instances"); break; }
        let body = i.body();
        let (dname, dcrate, clos) = match i.ty().kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, _)) => (d.name().to_string(), d.krate().name.to_string(), false),
            TyKind::RigidTy(RigidTy::Closure(d, _)) => (d.name().to_string(), d.krate().name.to_string(), true),
            _ => (String::new(), String::new(), false),
        };
        let bj = match body { Some(b) => cx.body(&b), None => J::Null };
        insts.push(o!{"id": s(i.mangled_name()), "name": s(i.name()), "def": s(dname), "crate": s(dcrate), "closure": J::B(clos), "kind": s(format!("{:?}", i.kind)), "body": bj});
    }
    cx.poly = true;
    for it in later {
        if let Some(b) = it.body() { let bj = cx.body(&b); generic.push(o!{"name": s(it.name()), "body": bj}); }
    }
    let out = o!{"crate": s(&local), "items": J::A(items), "instances": J::A(insts), "generic": J::A(generic),
                 "types": J::A(cx.types.clone()), "unsafe": J::A(unsafe_facts.iter().map(s).collect())};
    let mut txt = String::new();
    out.w(&mut txt);
    let dir = std::env::var("SA_OUT").expect("SA_OUT");
    std::fs::write(format!("{}/{}.json", dir, local), txt).expect("write");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let real = args.remove(1); // RUSTC_WORKSPACE_WRAPPER passes the real rustc path first
    let is_target = args.iter().position(|a| a == "--crate-name").map(|i| {
        let nme = args[i + 1].as_str();
        std::env::var("SA_CRATES").unwrap_or_default().split(',').any(|c| c == nme)
    }).unwrap_or(false);
    if !is_target {
        let st = std::process::Command::new(&real).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("--cap-lints=allow".into());
    args.push("--force-warn=unsafe_code".into());
    let r = run!(&args, || analyze(vec![]));
    std::process::exit(if r.is_ok() { 0 } else { 1 });
}
#[allow(dead_code)]
fn _u(_: CrateItem) {}
