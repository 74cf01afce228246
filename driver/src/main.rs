//! MIR extractor: a rustc driver (used as RUSTC_WORKSPACE_WRAPPER) that writes the
//! type-checked, monomorphic MIR of the crate under analysis as JSON.
//! Nothing is executed; the JSON is the input of the analyses in /verif/sa.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_session;
extern crate rustc_span;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CompilerError, run};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

#[derive(Default)]
struct Cx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    insts: HashMap<Instance, usize>,
    work: Vec<Instance>,
    fn_out: Vec<(usize, String)>,
    files: HashMap<String, usize>,
    file_out: Vec<String>,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(String::new());
        let s = self.ty_json(t);
        self.ty_out[id] = s;
        id
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":{}}}", n),
                    Err(_) => format!("{{\"c\":{}}}", js(&format!("{:?}", c))),
                }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(v)
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let name = js(&format!("{}", t));
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "{\"k\":\"bool\"}".into(),
                RigidTy::Char => "{\"k\":\"char\"}".into(),
                RigidTy::Int(i) => format!("{{\"k\":\"int\",\"b\":{},\"s\":true,\"n\":{}}}", i.num_bytes() * 8, name),
                RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"b\":{},\"s\":false,\"n\":{}}}", i.num_bytes() * 8, name),
                RigidTy::Float(_) => "{\"k\":\"float\"}".into(),
                RigidTy::Str => "{\"k\":\"str\"}".into(),
                RigidTy::Never => "{\"k\":\"never\"}".into(),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    let n = n.eval_target_usize().map(|x| x as i64).unwrap_or(-1);
                    format!("{{\"k\":\"array\",\"e\":{},\"len\":{}}}", e, n)
                }
                RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", self.ty(e)),
                RigidTy::RawPtr(e, _) => format!("{{\"k\":\"ptr\",\"e\":{}}}", self.ty(e)),
                RigidTy::Ref(_, e, m) => format!(
                    "{{\"k\":\"ref\",\"e\":{},\"mut\":{}}}",
                    self.ty(e),
                    m == Mutability::Mut
                ),
                RigidTy::Tuple(ts) => {
                    let v = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("{{\"k\":\"tuple\",\"f\":{},\"n\":{}}}", arr(v), name)
                }
                RigidTy::FnDef(d, a) => {
                    let aj = self.args(&a);
                    format!("{{\"k\":\"fndef\",\"d\":{},\"args\":{},\"n\":{}}}", js(&d.name()), aj, name)
                }
                RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"n\":{}}}", name),
                RigidTy::Closure(d, a) => {
                    let aj = self.args(&a);
                    let mut up = vec![];
                    if let Some(GenericArgKind::Type(t)) = a.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                            for t in ts {
                                up.push(self.ty(t).to_string());
                            }
                        }
                    }
                    format!("{{\"k\":\"closure\",\"d\":{},\"args\":{},\"f\":{},\"n\":{}}}", js(&d.name()), aj, arr(up), name)
                }
                RigidTy::Dynamic(p, _) => {
                    let mut tn = String::new();
                    for b in &p {
                        if let ExistentialPredicate::Trait(t) = &b.value {
                            tn = t.def_id.name();
                        }
                    }
                    format!("{{\"k\":\"dyn\",\"t\":{},\"n\":{}}}", js(&tn), name)
                }
                RigidTy::Adt(d, a) => {
                    let aj = self.args(&a);
                    let kind = if d.kind().is_enum() {
                        "enum"
                    } else if d.kind().is_union() {
                        "union"
                    } else {
                        "struct"
                    };
                    let mut vs = vec![];
                    for v in d.variants_iter() {
                        let discr = if kind == "enum" {
                            d.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&a);
                            fs.push(format!("[{},{}]", js(&f.name), self.ty(ft)));
                        }
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", js(&v.name()), discr, arr(fs)));
                    }
                    format!(
                        "{{\"k\":\"adt\",\"a\":{},\"d\":{},\"local\":{},\"args\":{},\"v\":{},\"n\":{},\"box\":{}}}",
                        js(kind),
                        js(&d.name()),
                        d.krate().is_local,
                        aj,
                        arr(vs),
                        name,
                        d.is_box()
                    )
                }
                _ => format!("{{\"k\":\"other\",\"n\":{}}}", name),
            },
            _ => format!("{{\"k\":\"other\",\"n\":{}}}", name),
        }
    }

    // ---- constants ----
    fn uint(bytes: &[Option<u8>]) -> Option<u128> {
        let mut v: u128 = 0;
        for (i, b) in bytes.iter().enumerate() {
            v |= ((*b)? as u128) << (8 * i);
        }
        Some(v)
    }
    fn prov(al: &Allocation, off: usize) -> Option<rustc_public::mir::alloc::AllocId> {
        for (o, p) in &al.provenance.ptrs {
            if *o == off {
                return Some(p.0);
            }
        }
        None
    }
    fn cval(&mut self, t: Ty, al: &Allocation, off: usize, depth: usize) -> String {
        let unk = |w: &str| format!("{{\"unk\":{}}}", js(w));
        if depth > 40 {
            return unk("depth");
        }
        let k = match t.kind() {
            TyKind::RigidTy(r) => r,
            _ => return unk("nonrigid"),
        };
        let tid = self.ty(t);
        let size = match t.layout() {
            Ok(l) => l.shape().size.bytes(),
            Err(_) => return unk("nolayout"),
        };
        if off + size > al.bytes.len() {
            return unk("range");
        }
        let raw = &al.bytes[off..off + size];
        match k {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match Self::uint(raw) {
                Some(v) => format!("{{\"i\":{},\"t\":{}}}", v, tid),
                None => unk("uninit"),
            },
            RigidTy::Int(_) => match Self::uint(raw) {
                Some(v) => {
                    let bits = size * 8;
                    let sv: i128 = if bits < 128 && (v >> (bits - 1)) & 1 == 1 {
                        v as i128 - (1i128 << bits)
                    } else {
                        v as i128
                    };
                    format!("{{\"i\":{},\"t\":{}}}", sv, tid)
                }
                None => unk("uninit"),
            },
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if n > 4096 {
                    return unk("bigarray");
                }
                let v = (0..n).map(|i| self.cval(e, al, off + i * es, depth + 1)).collect();
                format!("{{\"arr\":{},\"t\":{}}}", arr(v), tid)
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some(p) = Self::prov(al, off) else {
                    return unk("noprov");
                };
                let base = Self::uint(&raw[..8]).unwrap_or(0) as usize;
                match GlobalAlloc::from(p) {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Slice(_)) => {
                            let len = Self::uint(&raw[8..16]).unwrap_or(0) as usize;
                            let (et, is_str) = match e.kind() {
                                TyKind::RigidTy(RigidTy::Slice(et)) => (Some(et), false),
                                _ => (None, true),
                            };
                            let isbytes = is_str
                                || matches!(et.map(|x| x.kind()), Some(TyKind::RigidTy(RigidTy::Uint(UintTy::U8))));
                            if isbytes && base + len <= m.bytes.len() {
                                let v = m.bytes[base..base + len]
                                    .iter()
                                    .map(|b| b.unwrap_or(0).to_string())
                                    .collect();
                                return format!("{{\"bytes\":{},\"t\":{}}}", arr(v), tid);
                            }
                            if let Some(et) = et {
                                let es = et.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                if len > 4096 {
                                    return unk("bigslice");
                                }
                                let v = (0..len)
                                    .map(|i| self.cval(et, &m, base + i * es, depth + 1))
                                    .collect();
                                return format!("{{\"sl\":{},\"t\":{}}}", arr(v), tid);
                            }
                            unk("slice")
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => unk("dyn"),
                        _ => {
                            let inner = self.cval(e, &m, base, depth + 1);
                            format!("{{\"ref\":{},\"t\":{}}}", inner, tid)
                        }
                    },
                    GlobalAlloc::Static(s) => format!("{{\"static\":{},\"t\":{}}}", js(&s.name()), tid),
                    GlobalAlloc::Function(i) => self.fnconst(i, tid),
                    _ => unk("alloc"),
                }
            }
            RigidTy::FnPtr(_) => {
                let Some(p) = Self::prov(al, off) else {
                    return unk("noprov");
                };
                match GlobalAlloc::from(p) {
                    GlobalAlloc::Function(i) => self.fnconst(i, tid),
                    _ => unk("alloc"),
                }
            }
            RigidTy::Tuple(ts) => {
                let offs = match t.layout().unwrap().shape().fields {
                    FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                    _ => vec![],
                };
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    v.push(self.cval(*ft, al, off + offs.get(i).copied().unwrap_or(0), depth + 1));
                }
                format!("{{\"agg\":0,\"f\":{},\"t\":{}}}", arr(v), tid)
            }
            RigidTy::Adt(d, a) => {
                let shape = t.layout().unwrap().shape();
                let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Single { index } => (
                        index.to_index(),
                        match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            _ => vec![0; 64],
                        },
                    ),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let tsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. }
                            | rustc_public::abi::Scalar::Union { value } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bytes()
                            }
                        };
                        let tv = if Self::prov(al, off + toff).is_some() {
                            None
                        } else {
                            Self::uint(&al.bytes[off + toff..off + toff + tsz])
                        };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tv) = tv else { return unk("tag") };
                                let mut r = None;
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                for v in d.variants_iter() {
                                    if d.discriminant_for_variant(v.idx()).val & mask == tv {
                                        r = Some(v.idx().to_index());
                                    }
                                }
                                match r {
                                    Some(r) => r,
                                    None => return unk("tag"),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                match tv {
                                    None => untagged_variant.to_index(),
                                    Some(tv) => {
                                        let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        let rel = tv.wrapping_sub(*niche_start) & mask;
                                        let lo = niche_variants.start().to_index() as u128;
                                        let hi = niche_variants.end().to_index() as u128;
                                        if rel <= hi - lo {
                                            (lo + rel) as usize
                                        } else {
                                            untagged_variant.to_index()
                                        }
                                    }
                                }
                            }
                        };
                        let offs = variants[vi].offsets.iter().map(|o| o.bytes()).collect();
                        (vi, offs)
                    }
                    VariantsShape::Empty => return unk("empty"),
                };
                let Some(v) = d.variant(VariantIdx::to_val(vi)) else {
                    return unk("variant");
                };
                let mut fv = vec![];
                for (i, f) in v.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&a);
                    fv.push(self.cval(ft, al, off + offs.get(i).copied().unwrap_or(0), depth + 1));
                }
                format!("{{\"agg\":{},\"f\":{},\"t\":{}}}", vi, arr(fv), tid)
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => format!("{{\"zst\":{}}}", tid),
            _ => unk("kind"),
        }
    }
    fn fnconst(&mut self, i: Instance, tid: usize) -> String {
        let id = self.inst(i);
        format!("{{\"fn\":{},\"t\":{}}}", id, tid)
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        match c.kind() {
            ConstantKind::Allocated(a) => self.cval(t, a, 0, 0),
            ConstantKind::ZeroSized => format!("{{\"zst\":{}}}", self.ty(t)),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => format!("{{\"i\":{},\"t\":{}}}", n, self.ty(t)),
                Err(_) => {
                    if let TyConstKind::Value(ty, al) = tc.kind() {
                        self.cval(*ty, al, 0, 0)
                    } else {
                        format!("{{\"unk\":\"tyconst\",\"t\":{}}}", self.ty(t))
                    }
                }
            },
            _ => format!("{{\"unk\":\"unevaluated\",\"t\":{}}}", self.ty(t)),
        }
    }

    // ---- MIR ----
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![p.local.to_string()];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".into(),
            });
        }
        arr(v)
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(&c.const_)),
            Operand::RuntimeChecks(c) => format!("{{\"rtc\":{}}}", js(&format!("{:?}", c))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os = ops.iter().map(|o| self.op(o)).collect();
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, fi) => {
                        let t = self.ty(d.ty_with_args(a));
                        format!(
                            "[\"adt\",{},{},{}]",
                            t,
                            v.to_index(),
                            fi.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!("[\"closure\",{}]", t)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", ks, arr(os))
            }
            Rvalue::BinaryOp(b, x, y) => {
                let (x, y) = (self.op(x), self.op(y));
                format!("[\"bin\",{},{},{}]", js(&format!("{:?}", b)), x, y)
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let (x, y) = (self.op(x), self.op(y));
                format!("[\"chk\",{},{},{}]", js(&format!("{:?}", b)), x, y)
            }
            Rvalue::Cast(k, o, t) => {
                let o = self.op(o);
                format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), o, self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(p), m)
            }
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let o = self.op(o);
                format!("[\"repeat\",{},{}]", o, n.eval_target_usize().map(|x| x as i64).unwrap_or(-1))
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(u, o) => {
                let o = self.op(o);
                format!("[\"un\",{},{}]", js(&format!("{:?}", u)), o)
            }
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
        }
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let id = self.insts.len();
        self.insts.insert(i, id);
        self.work.push(i);
        id
    }
    fn line(&mut self, s: &Span) -> String {
        let f = format!("{:?}", s.get_filename());
        let f = f.trim_matches('"').to_string();
        let n = self.files.len();
        let id = *self.files.entry(f.clone()).or_insert(n);
        if id == self.file_out.len() {
            self.file_out.push(js(&f));
        }
        format!("[{},{}]", id, s.get_lines().start_line)
    }
    fn callee(&mut self, f: &Operand, locals: &[LocalDecl]) -> String {
        let t = match f.ty(locals) {
            Ok(t) => t,
            Err(_) => return "{\"k\":\"unk\"}".into(),
        };
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                let aj = self.args(&a);
                match Instance::resolve(d, &a) {
                    Ok(i) => {
                        let kind = match i.kind {
                            InstanceKind::Virtual { .. } => "virtual",
                            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
                            InstanceKind::Shim => "shim",
                            InstanceKind::Item => "item",
                        };
                        let id = self.inst(i);
                        format!(
                            "{{\"k\":{},\"d\":{},\"args\":{},\"i\":{}}}",
                            js(kind),
                            js(&d.name()),
                            aj,
                            id
                        )
                    }
                    Err(_) => format!("{{\"k\":\"unres\",\"d\":{},\"args\":{}}}", js(&d.name()), aj),
                }
            }
            _ => format!("{{\"k\":\"ptr\",\"op\":{}}}", self.op(f)),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals().to_vec();
        let lt: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("[{},{}]", l, js(&v.name)));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r);
                        let l = self.line(&s.source_info.span);
                        st.push(format!("[\"=\",{},{},{}]", p, r, l));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        let l = self.line(&s.source_info.span);
                        st.push(format!("[\"sd\",{},{},{}]", p, variant_index.to_index(), l));
                    }
                    StatementKind::StorageLive(x) => st.push(format!("[\"sl\",{}]", x)),
                    StatementKind::StorageDead(x) => st.push(format!("[\"sx\",{}]", x)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let (a, d, n) = (self.op(&c.src), self.op(&c.dst), self.op(&c.count));
                        st.push(format!("[\"cno\",{},{},{}]", a, d, n));
                    }
                    _ => {}
                }
            }
            let l = self.line(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let d = self.op(discr);
                    let v = targets
                        .branches()
                        .map(|(v, t)| format!("[{},{}]", v, t))
                        .collect();
                    format!("[\"sw\",{},{},{},{}]", d, arr(v), targets.otherwise(), dt)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let c = self.callee(func, &locals);
                    let a = args.iter().map(|o| self.op(o)).collect();
                    let d = self.place(destination);
                    format!(
                        "[\"call\",{},{},{},{}]",
                        c,
                        arr(a),
                        d,
                        target.map(|x| x.to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond);
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            let (a, b) = (self.op(len), self.op(index));
                            format!("[\"bounds\",{},{}]", a, b)
                        }
                        AssertMessage::Overflow(o, x, y) => {
                            let (a, b) = (self.op(x), self.op(y));
                            format!("[\"overflow\",{},{},{}]", js(&format!("{:?}", o)), a, b)
                        }
                        AssertMessage::OverflowNeg(x) => format!("[\"neg\",{}]", self.op(x)),
                        AssertMessage::DivisionByZero(x) => format!("[\"div0\",{}]", self.op(x)),
                        AssertMessage::RemainderByZero(x) => format!("[\"rem0\",{}]", self.op(x)),
                        o => format!("[\"other\",{}]", js(&format!("{:?}", o))),
                    };
                    format!("[\"assert\",{},{},{},{}]", c, expected, m, target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{}}}", arr(st), t, l));
        }
        let sp = self.line(&b.span);
        format!(
            "\"argc\":{},\"spread\":{},\"lt\":{},\"names\":{},\"bl\":{},\"span\":{}",
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            arr(lt),
            arr(names),
            arr(blocks),
            sp
        )
    }
    fn want_body(&self, i: &Instance, local: bool, path: &str) -> bool {
        if local {
            return true;
        }
        if i.kind == InstanceKind::Shim {
            return true;
        }
        const P: &[&str] = &[
            "std::option::", "core::option::", "std::result::", "core::result::", "std::ops::", "core::ops::",
            "std::cmp::", "core::cmp::", "std::convert::", "core::convert::", "std::iter::", "core::iter::",
            "std::slice::", "core::slice::", "std::array::", "core::array::", "std::mem::", "core::mem::",
            "std::boxed::", "alloc::boxed::", "std::borrow::", "alloc::borrow::", "core::borrow::",
            "std::default::", "core::default::", "std::clone::", "core::clone::", "std::num::", "core::num::",
            "core::bool", "std::bool", "std::rc::", "std::sync::", "alloc::slice", "std::vec", "alloc::vec",
        ];
        let p = path.trim_start_matches('<');
        P.iter().any(|x| p.starts_with(x)) || path.starts_with('<')
    }
    fn drain(&mut self) {
        while let Some(i) = self.work.pop() {
            let id = self.insts[&i];
            let local = i.def_is_local();
            let path = i.def_name();
            let name = i.name();
            let kind = match i.kind {
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
                InstanceKind::Shim => "shim",
                InstanceKind::Item => "item",
            };
            let args = i.args();
            let aj = self.args(&args);
            let mut s = format!(
                "{{\"id\":{},\"n\":{},\"d\":{},\"k\":{},\"local\":{},\"args\":{}",
                id,
                js(&name),
                js(&path),
                js(kind),
                local,
                aj
            );
            let ok = matches!(i.kind, InstanceKind::Item | InstanceKind::Shim)
                && self.want_body(&i, local, &path);
            if ok {
                if let Some(b) = i.body() {
                    s.push(',');
                    s.push_str(&self.body(&b));
                }
            }
            s.push('}');
            self.fn_out.push((id, s));
        }
    }
}

trait InstExt {
    fn def_is_local(&self) -> bool;
    fn def_name(&self) -> String;
}
impl InstExt for Instance {
    fn def_is_local(&self) -> bool {
        self.def.krate().is_local
    }
    fn def_name(&self) -> String {
        self.def.name()
    }
}

fn analyze(out: &str) -> ControlFlow<()> {
    let mut cx = Cx::default();
    let mut roots = vec![];
    let mut generics = vec![];
    let krate = rustc_public::local_crate();
    for it in rustc_public::all_local_items() {
        match it.kind() {
            rustc_public::ItemKind::Fn => match Instance::try_from(it) {
                Ok(i) => roots.push(cx.inst(i).to_string()),
                Err(_) => generics.push(js(&it.name())),
            },
            _ => {}
        }
    }
    // implementations of local (and selected foreign) traits: candidates for dynamic dispatch
    let mut impls = vec![];
    for im in krate.trait_impls() {
        let tr = im.trait_impl().value;
        let st = tr.self_ty();
        let tname = tr.def_id.name();
        let a = tr.args().clone();
        if a.0.iter().any(|g| format!("{:?}", g).contains("Param(")) {
            continue;
        }
        let mut ms = vec![];
        for ai in tr.def_id.associated_items() {
            if let rustc_public::ty::AssocKind::Fn { .. } = ai.kind {
                let fd = FnDef(ai.def_id.0);
                if let Ok(i) = Instance::resolve(fd, &a) {
                    let id = cx.inst(i);
                    ms.push(format!("[{},{}]", js(&fd.name()), id));
                }
            }
        }
        let stid = cx.ty(st);
        let aj = cx.args(&a);
        impls.push(format!(
            "{{\"trait\":{},\"self\":{},\"args\":{},\"m\":{}}}",
            js(&tname),
            stid,
            aj,
            arr(ms)
        ));
    }
    cx.drain();
    // statics
    let mut stats = vec![];
    for s in krate.statics() {
        let t = s.ty();
        let v = match s.eval_initializer() {
            Ok(al) => cx.cval(t, &al, 0, 0),
            Err(_) => "null".into(),
        };
        let tid = cx.ty(t);
        stats.push(format!("{{\"n\":{},\"t\":{},\"v\":{}}}", js(&s.name()), tid, v));
    }
    cx.drain();
    let mut fns = std::mem::take(&mut cx.fn_out);
    fns.sort_by_key(|x| x.0);
    let s = format!(
        "{{\"crate\":{},\"files\":{},\"types\":{},\"roots\":{},\"generics\":{},\"impls\":{},\"statics\":{},\"fns\":{}}}",
        js(&krate.name),
        arr(cx.file_out.clone()),
        arr(cx.ty_out.clone()),
        arr(roots),
        arr(generics),
        arr(impls),
        arr(stats),
        arr(fns.into_iter().map(|x| x.1).collect())
    );
    if std::fs::write(out, s).is_err() {
        std::process::exit(97);
    }
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_target = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == want);
    if is_target && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=yes".into());
        let r = run!(&args, || analyze(&out));
        match r {
            Ok(_) => {}
            Err(CompilerError::Skipped) => {}
            Err(_) => std::process::exit(1),
        }
    } else {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
