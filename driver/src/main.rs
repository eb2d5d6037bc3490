//! mirdump: dumps the monomorphic, fully resolved MIR reachable from the root functions of the
//! witness crate as JSON.  It decides nothing: the analysis is done by /verif/analyzer.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
use rustc_public_bridge::IndexedVal;

use rustc_middle::ty as ity;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::rustc_internal::{internal, stable};
use rustc_public::ty::*;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: ity::TyCtxt<'tcx>,
    tys: HashMap<ity::Ty<'tcx>, usize>,
    ty_queue: VecDeque<(usize, Ty)>,
    ty_out: Vec<String>,
    insts: HashMap<Instance, usize>,
    inst_queue: VecDeque<(usize, Instance)>,
    inst_out: Vec<String>,
    statics: HashMap<rustc_public::DefId, usize>,
    static_queue: VecDeque<(usize, StaticDef)>,
    static_out: Vec<String>,
    vt_seen: HashMap<(usize, String), ()>,
    vt_out: Vec<String>,
    tr_seen: HashMap<usize, ()>,
    tr_out: Vec<String>,
    stop: Vec<String>,
    depth: usize,
    shadows: Vec<(String, String)>,
    shadow_defs: HashMap<String, rustc_span::def_id::DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn norm(&self, t: Ty) -> Ty {
        let it = internal(self.tcx, t);
        let it = self.tcx.erase_and_anonymize_regions(it);
        let it = self
            .tcx
            .try_normalize_erasing_regions(
                ity::TypingEnv::fully_monomorphized(),
                ity::Unnormalized::new_wip(it),
            )
            .unwrap_or(it);
        stable(it)
    }
    fn ty(&mut self, t: Ty) -> usize {
        let t = self.norm(t);
        let it = internal(self.tcx, t);
        if let Some(i) = self.tys.get(&it) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(it, i);
        self.ty_out.push(String::new());
        self.ty_queue.push_back((i, t));
        i
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let n = self.inst_out.len();
        self.insts.insert(i, n);
        self.inst_out.push(String::new());
        self.inst_queue.push_back((n, i));
        n
    }
    fn stat(&mut self, s: StaticDef) -> usize {
        let d = s.def_id();
        if let Some(x) = self.statics.get(&d) {
            return *x;
        }
        let n = self.static_out.len();
        self.statics.insert(d, n);
        self.static_out.push(String::new());
        self.static_queue.push_back((n, s));
        n
    }

    fn gen_ty(&mut self, i: usize, t: Ty) {
        let name = esc(&format!("{}", internal(self.tcx, t)));
        let k = t.kind();
        let body = match k.rigid() {
            None => "\"k\":\"other\"".to_string(),
            Some(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(x) => format!("\"k\":\"int\",\"b\":{},\"s\":true", x.num_bytes() * 8),
                RigidTy::Uint(x) => format!("\"k\":\"int\",\"b\":{},\"s\":false", x.num_bytes() * 8),
                RigidTy::Float(x) => format!(
                    "\"k\":\"float\",\"b\":{}",
                    match x {
                        FloatTy::F16 => 16,
                        FloatTy::F32 => 32,
                        FloatTy::F64 => 64,
                        FloatTy::F128 => 128,
                    }
                ),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                    format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(*e), n)
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(*e)),
                RigidTy::RawPtr(e, m) => {
                    format!("\"k\":\"ptr\",\"e\":{},\"m\":{}", self.ty(*e), *m == Mutability::Mut)
                }
                RigidTy::Ref(_, e, m) => {
                    format!("\"k\":\"ref\",\"e\":{},\"m\":{}", self.ty(*e), *m == Mutability::Mut)
                }
                RigidTy::Tuple(es) => {
                    let v: Vec<String> = es.iter().map(|e| self.ty(*e).to_string()).collect();
                    format!("\"k\":\"tuple\",\"es\":{}", arr(v))
                }
                RigidTy::FnDef(d, a) => {
                    let inst = Instance::resolve(*d, a).ok().map(|x| self.redirect(*d, a, x));
                    let n = inst.map(|x| self.inst(x).to_string()).unwrap_or("null".into());
                    format!("\"k\":\"fndef\",\"i\":{}", n)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, a) => {
                    let it = internal(self.tcx, t);
                    let ups: Vec<Ty> = match it.kind() {
                        ity::TyKind::Closure(_, args) => {
                            args.as_closure().upvar_tys().iter().map(|u| stable(u)).collect()
                        }
                        _ => vec![],
                    };
                    let v: Vec<String> = ups.into_iter().map(|e| self.ty(e).to_string()).collect();
                    let _ = a;
                    format!("\"k\":\"closure\",\"d\":{},\"es\":{}", esc(&d.name()), arr(v))
                }
                RigidTy::Dynamic(..) => {
                    let p = k
                        .trait_principal()
                        .map(|b| b.skip_binder().def_id.name().to_string())
                        .unwrap_or_default();
                    format!("\"k\":\"dyn\",\"t\":{}", esc(&p))
                }
                RigidTy::Adt(def, args) => {
                    let it = internal(self.tcx, t);
                    let (idef, iargs) = match it.kind() {
                        ity::TyKind::Adt(d, a) => (*d, *a),
                        _ => unreachable!(),
                    };
                    let mut vs = vec![];
                    for (vi, v) in idef.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let fty = f.ty(self.tcx, iargs);
                            let fty = self
                                .tcx
                                .try_normalize_erasing_regions(
                                    ity::TypingEnv::fully_monomorphized(),
                                    fty,
                                )
                                .unwrap_or(f.ty(self.tcx, iargs).skip_norm_wip());
                            let fi = self.ty(stable(fty));
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), fi));
                        }
                        let d = if idef.is_enum() {
                            idef.discriminant_for_variant(self.tcx, vi).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!("[{},{},{}]", esc(v.name.as_str()), d, arr(fs)));
                    }
                    let kind = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                        AdtKind::Struct => "struct",
                    };
                    let mut av = vec![];
                    for a in &args.0 {
                        if let GenericArgKind::Type(x) = a {
                            av.push(self.ty(*x).to_string());
                        }
                    }
                    format!(
                        "\"k\":\"adt\",\"d\":{},\"ak\":\"{}\",\"a\":{},\"v\":{}",
                        esc(&def.name()),
                        kind,
                        arr(av),
                        arr(vs)
                    )
                }
                _ => "\"k\":\"other\"".into(),
            },
        };
        self.ty_out[i] = format!("{{\"n\":{},{}}}", name, body);
    }

    /// Iterator methods that std overrides for speed are replaced by the trait's default body,
    /// which is defined in terms of `next`.
    fn redirect(&mut self, def: FnDef, args: &GenericArgs, resolved: Instance) -> Instance {
        let tcx = self.tcx;
        let did = internal(tcx, def.def_id());
        let Some(tr) = tcx.trait_of_assoc(did) else { return resolved };
        let trn = tcx.def_path_str(tr);
        if !(trn.ends_with("iter::Iterator") || trn.ends_with("iter::DoubleEndedIterator") || trn.ends_with("iter::ExactSizeIterator")) {
            return resolved;
        }
        let name = tcx.item_name(did);
        if matches!(name.as_str(), "next" | "next_back" | "size_hint" | "len") {
            return resolved;
        }
        if !tcx.defaultness(did).has_value() {
            return resolved;
        }
        let rdid = internal(tcx, resolved.def.def_id());
        if rdid == did {
            return resolved;
        }
        let kr = tcx.crate_name(rdid.krate);
        if !matches!(kr.as_str(), "core" | "alloc" | "std") {
            return resolved;
        }
        // GenericShunt implements `next` by its own `try_fold`
        if tcx.def_path_str(rdid).contains("GenericShunt") {
            return resolved;
        }
        let iargs = internal(tcx, args);
        let iargs = tcx.erase_and_anonymize_regions(iargs);
        let inst = ity::Instance::new_raw(did, iargs);
        stable(inst)
    }

    fn vtable(&mut self, t: Ty, dynty: Ty) {
        let ti = self.ty(t);
        let Some(p) = dynty.kind().trait_principal() else { return };
        let tn = p.skip_binder().def_id.name().to_string();
        if self.vt_seen.insert((ti, tn), ()).is_some() {
            return;
        }
        let t = self.norm(t);
        let it = internal(self.tcx, t);
        let idyn = internal(self.tcx, self.norm(dynty));
        let ity::TyKind::Dynamic(preds, ..) = idyn.kind() else { return };
        let Some(pr) = preds.principal() else { return };
        let tr = pr.with_self_ty(self.tcx, it);
        let tr = self.tcx.instantiate_bound_regions_with_erased(tr);
        let tr = self.tcx.erase_and_anonymize_regions(tr);
        for e in self.tcx.vtable_entries(tr).iter() {
            if let ity::vtable::VtblEntry::Method(inst) = e {
                let did = inst.def_id();
                // key: the trait method's def path
                let key = match self.tcx.opt_associated_item(did) {
                    Some(ai) => match ai.trait_item_def_id() {
                        Some(x) => x,
                        None => did,
                    },
                    None => did,
                };
                let mut kname = self.tcx.def_path_str(key);
                if self.tcx.is_closure_like(did) {
                    kname = "<closure>".into();
                }
                let si: Instance = stable(*inst);
                let n = self.inst(si);
                self.vt_out.push(format!("[{},{},{}]", ti, esc(&kname), n));
            }
        }
    }

    /// records vtables for an unsizing coercion from `a` to `b` (pointee types)
    fn unsize(&mut self, a: Ty, b: Ty) {
        let (a, b) = (self.norm(a), self.norm(b));
        match (a.kind().rigid(), b.kind().rigid()) {
            (Some(RigidTy::Dynamic(..)), Some(RigidTy::Dynamic(..))) => {}
            (_, Some(RigidTy::Dynamic(..))) => self.vtable(a, b),
            (Some(RigidTy::Adt(d1, a1)), Some(RigidTy::Adt(d2, a2))) if d1 == d2 => {
                // struct unsizing (Box<T> -> Box<dyn ..>, wrappers)
                for (x, y) in a1.0.iter().zip(a2.0.iter()) {
                    if let (GenericArgKind::Type(x), GenericArgKind::Type(y)) = (x, y) {
                        if x != y {
                            self.unsize(*x, *y);
                        }
                    }
                }
            }
            (Some(RigidTy::Ref(_, x, _) | RigidTy::RawPtr(x, _)), Some(RigidTy::Ref(_, y, _) | RigidTy::RawPtr(y, _))) => {
                self.unsize(*x, *y)
            }
            _ => {}
        }
    }

    fn uint(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        if n == 0 {
            return Some(0);
        }
        a.read_partial_uint(off..off + n).ok()
    }

    fn dec(&mut self, t: Ty, a: &Allocation, off: usize) -> String {
        self.depth += 1;
        let r = if self.depth > 60 { "{\"opaque\":1}".into() } else { self.dec_(t, a, off) };
        self.depth -= 1;
        r
    }
    fn dec_ptr(&mut self, pointee: Ty, a: &Allocation, off: usize) -> String {
        let pointee = self.norm(pointee);
        let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| *p);
        let Some(p) = prov else {
            let v = self.uint(a, off, 8).unwrap_or(0);
            // empty slices / strs are dangling
            if let Some(RigidTy::Slice(_)) = pointee.kind().rigid() {
                return "{\"ref\":{\"seq\":[]},\"meta\":0}".into();
            }
            if let Some(RigidTy::Str) = pointee.kind().rigid() {
                return "{\"ref\":{\"str\":\"\"},\"meta\":0}".into();
            }
            if let Ok(l) = pointee.layout() {
                let s = l.shape();
                if !s.is_unsized() && s.size.bytes() == 0 {
                    let empty = Allocation { bytes: vec![], provenance: ProvenanceMap { ptrs: vec![] }, align: 1, mutability: Mutability::Not };
                    let inner = self.dec(pointee, &empty, 0);
                    return format!("{{\"ref\":{}}}", inner);
                }
            }
            return format!("{{\"dangling\":{}}}", v);
        };
        let rel = self.uint(a, off, 8).unwrap_or(0) as usize;
        let ga: GlobalAlloc = p.0.into();
        match ga {
            GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
            GlobalAlloc::Static(s) => format!("{{\"static\":{}}}", self.stat(s)),
            GlobalAlloc::VTable(..) => "{\"opaque\":1}".into(),
            GlobalAlloc::TypeId { ty } => format!("{{\"typeid\":{}}}", self.ty(ty)),
            GlobalAlloc::Memory(m) => match pointee.kind().rigid() {
                Some(RigidTy::Str) => {
                    let n = self.uint(a, off + 8, 8).unwrap_or(0) as usize;
                    let b: Vec<u8> = m.bytes[rel..rel + n].iter().map(|x| x.unwrap_or(0)).collect();
                    format!("{{\"ref\":{{\"str\":{}}},\"meta\":{}}}", esc(&String::from_utf8_lossy(&b)), n)
                }
                Some(RigidTy::Slice(e)) => {
                    let n = self.uint(a, off + 8, 8).unwrap_or(0) as usize;
                    if n > 4096 {
                        return "{\"opaque\":1}".into();
                    }
                    let st = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let v: Vec<String> = (0..n).map(|i| self.dec(*e, &m, rel + i * st)).collect();
                    format!("{{\"ref\":{{\"seq\":{}}},\"meta\":{}}}", arr(v), n)
                }
                Some(RigidTy::Dynamic(..)) => {
                    let vp = a.provenance.ptrs.iter().find(|(o, _)| *o == off + 8).map(|(_, p)| *p);
                    match vp.map(|p| GlobalAlloc::from(p.0)) {
                        Some(GlobalAlloc::VTable(ct, _)) => {
                            self.vtable(ct, pointee);
                            let inner = self.dec(ct, &m, rel);
                            let c = self.ty(ct);
                            format!("{{\"ref\":{},\"vt\":{}}}", inner, c)
                        }
                        _ => "{\"opaque\":1}".into(),
                    }
                }
                _ => {
                    let inner = self.dec(pointee, &m, rel);
                    format!("{{\"ref\":{}}}", inner)
                }
            },
        }
    }
    fn dec_(&mut self, t: Ty, a: &Allocation, off: usize) -> String {
        let t = self.norm(t);
        let k = t.kind();
        let Some(r) = k.rigid() else { return "{\"opaque\":1}".into() };
        let Ok(layout) = t.layout() else { return "{\"opaque\":1}".into() };
        let shape = layout.shape();
        let size = shape.size.bytes();
        let sint = |v: u128, n: usize| -> String {
            if n == 16 {
                (v as i128).to_string()
            } else {
                let sh = 128 - n * 8;
                ((((v << sh) as i128) >> sh) as i128).to_string()
            }
        };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match self.uint(a, off, size) {
                Some(v) => v.to_string(),
                None => "{\"opaque\":1}".into(),
            },
            RigidTy::Int(_) => match self.uint(a, off, size) {
                Some(v) => sint(v, size),
                None => "{\"opaque\":1}".into(),
            },
            RigidTy::Float(_) => match self.uint(a, off, size) {
                Some(v) => format!("{{\"f\":{}}}", v),
                None => "{\"opaque\":1}".into(),
            },
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => self.dec_ptr(*e, a, off),
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| *p);
                match prov.map(|p| GlobalAlloc::from(p.0)) {
                    Some(GlobalAlloc::Function(i)) => format!("{{\"fn\":{}}}", self.inst(i)),
                    _ => "{\"opaque\":1}".into(),
                }
            }
            RigidTy::FnDef(..) => "{\"z\":1}".into(),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                if n > 4096 {
                    return "{\"opaque\":1}".into();
                }
                let st = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let v: Vec<String> = (0..n).map(|i| self.dec(*e, a, off + i * st)).collect();
                format!("{{\"seq\":{}}}", arr(v))
            }
            RigidTy::Tuple(es) => {
                let FieldsShape::Arbitrary { offsets } = &shape.fields else {
                    return "{\"agg\":[0,[]]}".into();
                };
                let v: Vec<String> =
                    es.iter().enumerate().map(|(i, e)| self.dec(*e, a, off + offsets[i].bytes())).collect();
                format!("{{\"agg\":[0,{}]}}", arr(v))
            }
            RigidTy::Closure(..) => {
                let it = internal(self.tcx, t);
                let ups: Vec<Ty> = match it.kind() {
                    ity::TyKind::Closure(_, args) => args.as_closure().upvar_tys().iter().map(|u| stable(u)).collect(),
                    _ => vec![],
                };
                let FieldsShape::Arbitrary { offsets } = &shape.fields else {
                    return "{\"agg\":[0,[]]}".into();
                };
                let v: Vec<String> =
                    ups.iter().enumerate().map(|(i, e)| self.dec(*e, a, off + offsets[i].bytes())).collect();
                format!("{{\"agg\":[0,{}]}}", arr(v))
            }
            RigidTy::Adt(def, args) => {
                if def.name().ends_with("any::TypeId") {
                    for (o, p) in &a.provenance.ptrs {
                        if *o >= off && *o < off + size {
                            if let GlobalAlloc::TypeId { ty } = GlobalAlloc::from(p.0) {
                                return format!("{{\"typeid\":{}}}", self.ty(ty));
                            }
                        }
                    }
                    return "{\"opaque\":1}".into();
                }
                if def.kind() == AdtKind::Union {
                    return "{\"opaque\":1}".into();
                }
                let variants = def.variants();
                let field_tys = |v: &VariantDef| -> Vec<Ty> {
                    v.fields().iter().map(|f| f.ty_with_args(args)).collect()
                };
                match &shape.variants {
                    VariantsShape::Empty => "{\"opaque\":1}".into(),
                    VariantsShape::Single { index } => {
                        let vi = index.to_index();
                        let offsets = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            _ => vec![0; 16],
                        };
                        let tys = field_tys(&variants[vi]);
                        let v: Vec<String> =
                            tys.iter().enumerate().map(|(i, e)| self.dec(*e, a, off + offsets[i])).collect();
                        format!("{{\"agg\":[{},{}]}}", vi, arr(v))
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants: vf } => {
                        let toff = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let prim = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => *value,
                            rustc_public::abi::Scalar::Union { value } => *value,
                        };
                        let tsz = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                        let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let Some(tv) = self.uint(a, off + toff, tsz) else { return "{\"opaque\":1}".into() };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut f = None;
                                for v in &variants {
                                    let d = def.discriminant_for_variant(v.idx()).val;
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    if d & mask == tv {
                                        f = Some(v.idx().to_index());
                                    }
                                }
                                match f {
                                    Some(x) => x,
                                    None => return "{\"opaque\":1}".into(),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                let rel = tv.wrapping_sub(*niche_start) & mask;
                                let lo = niche_variants.start().to_index() as u128;
                                let hi = niche_variants.end().to_index() as u128;
                                if !has_prov && rel <= hi - lo {
                                    (lo + rel) as usize
                                } else {
                                    untagged_variant.to_index()
                                }
                            }
                        };
                        let tys = field_tys(&variants[vi]);
                        let offs: Vec<usize> = vf[vi].offsets.iter().map(|o| o.bytes()).collect();
                        let v: Vec<String> =
                            tys.iter().enumerate().map(|(i, e)| self.dec(*e, a, off + offs[i])).collect();
                        format!("{{\"agg\":[{},{}]}}", vi, arr(v))
                    }
                }
            }
            RigidTy::Pat(inner, _) => self.dec(*inner, a, off),
            _ => "{\"opaque\":1}".into(),
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => {
                let a = a.clone();
                self.dec(t, &a, 0)
            }
            ConstantKind::ZeroSized => {
                let empty = Allocation { bytes: vec![], provenance: ProvenanceMap { ptrs: vec![] }, align: 1, mutability: Mutability::Not };
                self.dec(t, &empty, 0)
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t2, a) => {
                    let (t2, a) = (*t2, a.clone());
                    self.dec(t2, &a, 0)
                }
                TyConstKind::ZSTValue(t2) => {
                    let empty = Allocation { bytes: vec![], provenance: ProvenanceMap { ptrs: vec![] }, align: 1, mutability: Mutability::Not };
                    self.dec(*t2, &empty, 0)
                }
                _ => "{\"opaque\":1}".into(),
            },
            _ => "{\"opaque\":1}".into(),
        };
        format!("[\"k\",{},{}]", v, ti)
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(i) => format!("[\"v\",{}]", i.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!(
                "[\"k\",{},{}]",
                matches!(r, RuntimeChecks::OverflowChecks) as u8,
                self.ty(Ty::bool_ty())
            ),
        }
    }
    fn ops(&mut self, v: &[Operand]) -> String {
        let x: Vec<String> = v.iter().map(|o| self.op(o)).collect();
        arr(x)
    }

    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Ref(_, b, p) => {
                format!("[\"ref\",{},{}]", matches!(b, BorrowKind::Mut { .. }), self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", *m == Mutability::Mut, self.place(p))
            }
            Rvalue::AddressOf(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::Aggregate(k, os) => {
                let o = self.ops(os);
                match k {
                    AggregateKind::Array(_) => format!("[\"aseq\",{}]", o),
                    AggregateKind::Tuple => format!("[\"atup\",{}]", o),
                    AggregateKind::Adt(d, v, a, _, active) => {
                        let t = self.ty(d.ty_with_args(a));
                        let act = active.map(|x| x.to_string()).unwrap_or("null".into());
                        format!("[\"aadt\",{},{},{},{}]", t, v.to_index(), o, act)
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!("[\"aadt\",{},0,{},null]", t, o)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"arawptr\",{},{}]", self.ty(*t), o),
                    _ => "[\"unk\"]".into(),
                }
            }
            Rvalue::BinaryOp(b, x, y) => {
                let t = x.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"bin\",\"{:?}\",{},{},{}]", b, self.op(x), self.op(y), t)
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let t = x.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"cbin\",\"{:?}\",{},{},{}]", b, self.op(x), self.op(y), t)
            }
            Rvalue::UnaryOp(u, x) => {
                let t = x.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"un\",\"{:?}\",{},{}]", u, self.op(x), t)
            }
            Rvalue::Cast(k, o, t) => {
                let src = o.ty(locals).ok();
                let ks = match k {
                    CastKind::PointerCoercion(c) => match c {
                        PointerCoercion::Unsize => {
                            if let Some(s) = src {
                                self.unsize(s, *t);
                            }
                            "Unsize".to_string()
                        }
                        PointerCoercion::ReifyFnPointer(_) => {
                            if let Some(s) = src {
                                if let Some((d, a)) = s.kind().fn_def() {
                                    if let Ok(i) = Instance::resolve_for_fn_ptr(d, a) {
                                        let n = self.inst(i);
                                        return format!("[\"use\",[\"k\",{{\"fn\":{}}},{}]]", n, self.ty(*t));
                                    }
                                }
                            }
                            "Reify".into()
                        }
                        PointerCoercion::ClosureFnPointer(_) => {
                            if let Some(s) = src {
                                if let Some(RigidTy::Closure(d, a)) = s.kind().rigid() {
                                    if let Ok(i) = Instance::resolve_closure(*d, a, ClosureKind::FnOnce) {
                                        let n = self.inst(i);
                                        return format!("[\"use\",[\"k\",{{\"fn\":{}}},{}]]", n, self.ty(*t));
                                    }
                                }
                            }
                            "ClosureFn".into()
                        }
                        x => format!("{:?}", x).split('(').next().unwrap().to_string(),
                    },
                    k => format!("{:?}", k),
                };
                let s = src.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"cast\",\"{}\",{},{},{}]", ks, self.op(o), self.ty(*t), s)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"disc\",{},{}]", self.place(p), t)
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", self.op(o), n)
            }
            Rvalue::ThreadLocalRef(_) => "[\"unk\"]".into(),
        }
    }

    fn line(&self, s: &Span) -> String {
        let l = s.get_lines();
        l.start_line.to_string()
    }

    fn gen_inst(&mut self, n: usize, i: Instance) {
        let name = i.name().to_string();
        let dname = i.def.name().to_string();
        let mut kind = match i.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic => "intrinsic".into(),
            InstanceKind::LlvmIntrinsic => "llvm".into(),
            InstanceKind::Virtual { .. } => "virtual".into(),
            InstanceKind::Shim => "shim".into(),
        };
        let iinst = internal(self.tcx, i);
        let shim = match iinst.def {
            ity::InstanceKind::Shim(s) => format!("{:?}", s),
            _ => String::new(),
        };
        let shim_kind: String = shim.chars().take_while(|c| c.is_alphanumeric()).collect();
        let args = i.args();
        let mut av = vec![];
        for a in &args.0 {
            match a {
                GenericArgKind::Type(t) => av.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => av.push(format!(
                    "{{\"n\":{}}}",
                    c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
                )),
                _ => {}
            }
        }
        let did = iinst.def_id();
        let is_closure = self.tcx.is_closure_like(did);
        // trait method path, when this is a trait impl method
        let tm = match self.tcx.opt_associated_item(did).and_then(|a| a.trait_item_def_id()) {
            Some(x) => self.tcx.def_path_str(x),
            None => String::new(),
        };
        let kept = self.stop.iter().any(|p| p.strip_prefix("keep:").map_or(false, |q| dname.contains(q)));
        let stopped = !kept && self.stop.iter().any(|p| {
            let kr = self.tcx.crate_name(did.krate);
            if let Some(q) = p.strip_prefix("crate:") {
                kr.as_str() == q
            } else if let Some(q) = p.strip_prefix("std:") {
                matches!(kr.as_str(), "core" | "alloc" | "std") && dname.contains(q)
            } else if p.starts_with("keep:") {
                false
            } else if let Some(q) = p.strip_prefix("tm:") {
                tm == q
            } else {
                dname.contains(p.as_str())
            }
        });
        if stopped || kind == "intrinsic" {
            for a in &args.0 {
                if let GenericArgKind::Type(t) = a {
                    self.traits(*t);
                }
            }
        }
        // a stand-in written in the witness crate, with the same type arguments
        let mut shadow = "null".to_string();
        let hit = self.shadows.iter().find(|(p, _)| {
            let q = p.strip_prefix('*').unwrap_or(p);
            match (p.starts_with('*'), q.strip_suffix('*')) {
                (false, None) => dname == q,
                (true, None) => dname.ends_with(q),
                (false, Some(q)) => dname.starts_with(q),
                (true, Some(q)) => dname.contains(q),
            }
        });
        if let Some((_, f)) = hit {
            if let Some(sd) = self.shadow_defs.get(f).copied() {
                let tcx = self.tcx;
                let mut tys = iinst.args.types();
                let mut cs = iinst.args.consts();
                let mut ok = true;
                let ga = ity::GenericArgs::for_item(tcx, sd, |par, _| match par.kind {
                    ity::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    ity::GenericParamDefKind::Type { .. } => match tys.next() {
                        Some(t) => t.into(),
                        None => {
                            ok = false;
                            tcx.types.unit.into()
                        }
                    },
                    ity::GenericParamDefKind::Const { .. } => match cs.next() {
                        Some(c) => c.into(),
                        None => {
                            ok = false;
                            ity::Const::from_target_usize(tcx, 0).into()
                        }
                    },
                });
                if ok {
                    if let Ok(Some(x)) = ity::Instance::try_resolve(tcx, ity::TypingEnv::fully_monomorphized(), sd, ga) {
                        let x: Instance = stable(x);
                        shadow = self.inst(x).to_string();
                    }
                }
            }
        }
        let stopped = stopped || shadow != "null";
        let mut body_s = "null".to_string();
        let mut file = String::new();
        let mut line = 0usize;
        if !stopped && matches!(i.kind, InstanceKind::Item | InstanceKind::Shim) && !shim_kind.starts_with("DropGlue") {
            // a body the compiler's constant evaluator (or this driver) cannot handle is an unknown function
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                i.body().map(|b| (b.span.get_filename().to_string(), b.span.get_lines().start_line, self.body(&b)))
            })) {
                Ok(Some((f, l, b))) => (file, line, body_s) = (f, l, b),
                _ => kind = "nobody".into(),
            }
        }
        if i.kind == InstanceKind::Intrinsic {
            // fallback bodies of intrinsics are not used
        }
        // output type, for models and unknown results
        let sig = internal(self.tcx, i.ty());
        let out = match sig.kind() {
            ity::TyKind::FnDef(..) | ity::TyKind::FnPtr(..) => {
                let s = sig.fn_sig(self.tcx);
                let s = self.tcx.instantiate_bound_regions_with_erased(s);
                let o: Ty = stable(s.output());
                self.ty(o).to_string()
            }
            _ => "null".into(),
        };
        self.inst_out[n] = format!(
            "{{\"n\":{},\"d\":{},\"k\":\"{}\",\"sh\":\"{}\",\"tm\":{},\"a\":{},\"cl\":{},\"st\":{},\"o\":{},\"f\":{},\"l\":{},\"sw\":{},\"b\":{}}}",
            esc(&name), esc(&dname), kind, shim_kind, esc(&tm), arr(av), is_closure, stopped, out, esc(&file), line, shadow, body_s
        );
    }

    /// Trait method instances a model of a generic std function may need for a type argument.
    fn traits(&mut self, t: Ty) {
        let ti = self.ty(t);
        if self.tr_seen.insert(ti, ()).is_some() {
            return;
        }
        let tcx = self.tcx;
        let it = internal(tcx, self.norm(t));
        if !it.is_sized(tcx, ity::TypingEnv::fully_monomorphized()) {
            // unsized: only comparison and formatting traits are interesting
        }
        let peeled: Option<ity::Ty<'_>> = match it.kind() {
            ity::TyKind::Ref(_, e, _) => Some(*e),
            _ => None,
        };
        let want: &[(&str, &str)] = &[
            ("Iterator", "next"),
            ("DoubleEndedIterator", "next_back"),
            ("IntoIterator", "into_iter"),
            ("Clone", "clone"),
            ("PartialEq", "eq"),
            ("Ord", "cmp"),
            ("PartialOrd", "partial_cmp"),
            ("Default", "default"),
            ("Display", "fmt"),
            ("Debug", "fmt"),
            ("FnOnce", "call_once"),
            ("FnMut", "call_mut"),
            ("Hash", "hash"),
            ("FromStr", "from_str"),
            ("Deref", "deref"),
            ("ToString", "to_string"),
        ];
        let mut found = vec![];
        for tr in tcx.all_traits_including_private() {
            let kr = tcx.crate_name(tr.krate);
            if !matches!(kr.as_str(), "core" | "alloc") {
                continue;
            }
            let n = tcx.item_name(tr);
            for (w, m) in want {
                if n.as_str() == *w {
                    found.push((tr, *w, *m));
                }
            }
        }
        for (tr, w, m) in found {
            let Some(md) = tcx.associated_items(tr).in_definition_order().find(|a| a.opt_name().map(|s| s.as_str() == m).unwrap_or(false)) else {
                continue;
            };
            let args: Vec<ity::GenericArg<'_>> = match w {
                "PartialEq" | "PartialOrd" => vec![it.into(), it.into()],
                "FnOnce" | "FnMut" => {
                    let inputs: Vec<ity::Ty<'_>> = match it.kind() {
                        ity::TyKind::Closure(_, a) => {
                            let s = a.as_closure().sig();
                            let s = tcx.instantiate_bound_regions_with_erased(s);
                            s.inputs().to_vec()
                        }
                        ity::TyKind::FnDef(..) | ity::TyKind::FnPtr(..) => {
                            let s = it.fn_sig(tcx);
                            let s = tcx.instantiate_bound_regions_with_erased(s);
                            vec![ity::Ty::new_tup(tcx, s.inputs())]
                        }
                        _ => continue,
                    };
                    if inputs.len() != 1 {
                        continue;
                    }
                    vec![it.into(), inputs[0].into()]
                }
                _ => vec![it.into()],
            };
            let iargs = tcx.mk_args(&args);
            let mut full: Vec<ity::GenericArg<'_>> = iargs.to_vec();
            // method-level generics: Hash::hash<H> cannot be resolved here
            let g = tcx.generics_of(md.def_id);
            let own_types = g.own_params.iter().filter(|p| !matches!(p.kind, ity::GenericParamDefKind::Lifetime)).count();
            if own_types > 0 {
                continue;
            }
            for p in &g.own_params {
                if matches!(p.kind, ity::GenericParamDefKind::Lifetime) {
                    full.push(tcx.lifetimes.re_erased.into());
                }
            }
            let full = tcx.erase_and_anonymize_regions(tcx.mk_args(&full));
            let env = ity::TypingEnv::fully_monomorphized();
            if let Ok(Some(inst)) = ity::Instance::try_resolve(tcx, env, md.def_id, full) {
                let si: Instance = stable(inst);
                let n = self.inst(si);
                self.tr_out.push(format!("[{},\"{}::{}\",{}]", ti, w, m, n));
                if w == "IntoIterator" || w == "Deref" {
                    let sig = tcx.instantiate_bound_regions_with_erased(
                        internal(tcx, si.ty()).fn_sig(tcx),
                    );
                    let o: Ty = stable(sig.output());
                    self.traits(o);
                }
            }
        }
        if let Some(p) = peeled {
            let p: Ty = stable(p);
            self.traits(p);
        }
        if let ity::TyKind::Tuple(es) = it.kind() {
            for e in es.iter() {
                let e: Ty = stable(e);
                self.traits(e);
            }
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals();
        let lt: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let ln = self.line(&s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rv(r, locals);
                        st.push(format!("[\"=\",{},{},{}]", p, r, ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[\"sd\",{},{}]", p, variant_index.to_index()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                        st.push("[\"unk\"]".into())
                    }
                    _ => {}
                }
            }
            let ln = self.line(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let bs: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    let t = discr.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"sw\",{},{},{},{},{}]", self.op(discr), arr(bs), targets.otherwise(), t, ln)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unr\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"drop\",{},{},{}]", self.place(place), t, target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(locals).ok();
                    let mut callee = None;
                    if let Some(ft) = ft {
                        if let Some((d, a)) = ft.kind().fn_def() {
                            if let Ok(i) = Instance::resolve(d, a) {
                                let i = self.redirect(d, a, i);
                                // for virtual calls keep the method path
                                let n = self.inst(i);
                                let v = matches!(i.kind, InstanceKind::Virtual { .. });
                                let _ = v;
                                callee = Some(format!("[\"i\",{}]", n));
                            } else {
                                callee = Some(format!("[\"u\",{}]", esc(&d.name())));
                            }
                        }
                    }
                    let callee = match callee {
                        Some(c) => c,
                        None => format!("[\"op\",{}]", self.op(func)),
                    };
                    let a = self.ops(args);
                    let d = self.place(destination);
                    let t = target.map(|x| x.to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{}]", callee, a, d, t, ln)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = msg.description().unwrap_or("assert");
                    format!("[\"assert\",{},{},{},{},{}]", self.op(cond), expected, esc(m), target, ln)
                }
                TerminatorKind::InlineAsm { .. } => "[\"unk\"]".into(),
            };
            blocks.push(format!("[{},{}]", arr(st), t));
        }
        let spread = b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into());
        format!(
            "{{\"lt\":{},\"ac\":{},\"sp\":{},\"bb\":{}}}",
            arr(lt),
            b.arg_locals().len(),
            spread,
            arr(blocks)
        )
    }
}

trait Bytes_ {
    fn bytes(&self) -> usize;
}
impl Bytes_ for rustc_public::target::MachineSize {
    fn bytes(&self) -> usize {
        rustc_public::target::MachineSize::bytes(*self)
    }
}

fn analyze(tcx: ity::TyCtxt<'_>) -> ControlFlow<()> {
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .unwrap_or_default()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .collect();
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_queue: VecDeque::new(),
        ty_out: vec![],
        insts: HashMap::new(),
        inst_queue: VecDeque::new(),
        inst_out: vec![],
        statics: HashMap::new(),
        static_queue: VecDeque::new(),
        static_out: vec![],
        vt_seen: HashMap::new(),
        vt_out: vec![],
        tr_seen: HashMap::new(),
        tr_out: vec![],
        stop,
        depth: 0,
        shadows: std::env::var("MIRDUMP_SHADOW").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default().lines()
            .filter_map(|l| l.split_once(" => ").map(|(a, b)| (a.trim().to_string(), b.trim().to_string()))).collect(),
        shadow_defs: HashMap::new(),
    };
    for it in rustc_public::all_local_items() {
        let name = it.name().to_string();
        if let Some((_, f)) = name.rsplit_once("shadow::") {
            cx.shadow_defs.insert(f.to_string(), internal(tcx, it.def_id()));
        }
    }
    let dbg = std::env::var("MIRDUMP_PANICS").is_ok();
    std::panic::set_hook(Box::new(move |i| if dbg { eprintln!("PANIC {}", i) }));
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if it.requires_monomorphization() {
            continue;
        }
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        let name = it.name().to_string();
        let last = name.rsplit("::").next().unwrap_or("").to_string();
        if !(last.starts_with("ob_") || last.starts_with("root_")) {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let n = cx.inst(i);
            roots.push(format!("[{},{}]", esc(&name), n));
        }
    }
    loop {
        if let Some((n, i)) = cx.inst_queue.pop_front() {
            cx.gen_inst(n, i);
        } else if let Some((n, s)) = cx.static_queue.pop_front() {
            let t = cx.ty(s.ty());
            let init = match s.eval_initializer() {
                Ok(a) => cx.dec(s.ty(), &a, 0),
                Err(_) => "null".into(),
            };
            cx.static_out[n] = format!("{{\"n\":{},\"t\":{},\"v\":{}}}", esc(&s.name()), t, init);
        } else if let Some((n, t)) = cx.ty_queue.pop_front() {
            cx.gen_ty(n, t);
        } else {
            break;
        }
    }
    let out = format!(
        "{{\"types\":{},\"insts\":{},\"statics\":{},\"vt\":{},\"tr\":{},\"roots\":{}}}\n",
        format!("[{}]", cx.ty_out.join(",\n")),
        format!("[{}]", cx.inst_out.join(",\n")),
        arr(cx.static_out),
        arr(cx.vt_out),
        arr(cx.tr_out),
        arr(roots)
    );
    let path = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    std::fs::write(format!("{path}.tmp"), out).unwrap();
    std::fs::rename(format!("{path}.tmp"), &path).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args...]
    args.remove(0);
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or("witness".into());
    if crate_name != target {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = run_with_tcx!(&args, analyze);
    if r.is_err() {
        std::process::exit(1);
    }
}
