#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypingEnv};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON helper
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<String>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    inst_ids: HashMap<Instance<'tcx>, usize>,
    insts: Vec<Option<String>>,
    queue: VecDeque<Instance<'tcx>>,
    statics: HashMap<DefId, usize>,
    static_out: Vec<String>,
    stop: Vec<String>,
    descend: Vec<String>,
    vtables: HashMap<(usize, usize), usize>, // (concrete ty, dyn ty) -> idx
    vtable_out: Vec<String>,
    /// std function path -> harness model function
    models: HashMap<String, DefId>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn opaque_adt(&self, name: &str) -> bool {
        matches!(
            name,
            "alloc::vec::Vec" | "std::vec::Vec" | "alloc::boxed::Box" | "std::boxed::Box" | "alloc::string::String" | "std::string::String"
            | "std::sync::Arc" | "alloc::sync::Arc" | "std::rc::Rc" | "std::io::Error" | "core::cell::RefCell" | "std::cell::RefCell"
            | "core::slice::Iter" | "core::slice::IterMut" | "std::slice::Iter" | "std::slice::IterMut"
        )
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.normalize_erasing_regions(self.env, rustc_middle::ty::Unnormalized::new_wip(self.tcx.erase_and_anonymize_regions(t)));
        if let Some(&i) = self.ty_ids.get(&t) {
            return i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.ty_ids.insert(t, id);
        let s = with_no_trimmed_paths!(t.to_string());
        let body = match t.kind() {
            TyKind::Bool => "\"k\":\"bool\"".into(),
            TyKind::Char => "\"k\":\"char\"".into(),
            TyKind::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.bit_width().unwrap_or(64)),
            TyKind::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.bit_width().unwrap_or(64)),
            TyKind::Float(f) => format!("\"k\":\"float\",\"bits\":{}", f.bit_width()),
            TyKind::Str => "\"k\":\"str\"".into(),
            TyKind::Never => "\"k\":\"never\"".into(),
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"elems\":{}", arr(v))
            }
            TyKind::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(u64::MAX >> 1);
                format!("\"k\":\"array\",\"elem\":{},\"len\":{}", self.ty(*e), n)
            }
            TyKind::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(*e)),
            TyKind::Ref(_, e, m) => format!("\"k\":\"ref\",\"mut\":{},\"ty\":{}", m.is_mut(), self.ty(*e)),
            TyKind::RawPtr(e, m) => format!("\"k\":\"ptr\",\"mut\":{},\"ty\":{}", m.is_mut(), self.ty(*e)),
            TyKind::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            TyKind::FnDef(d, args) => {
                let inst = self.resolve(*d, args.skip_binder());
                format!("\"k\":\"fndef\",\"callee\":{}", inst)
            }
            TyKind::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let kind = args.as_closure().kind();
                let inst = Instance::new_raw(*d, self.tcx.erase_and_anonymize_regions(args));
                let id = self.want(inst);
                format!("\"k\":\"closure\",\"path\":{},\"upvars\":{},\"ckind\":{},\"inst\":{}", esc(&self.path(*d)), arr(ups), esc(&format!("{:?}", kind)), id)
            }
            TyKind::Dynamic(preds, ..) => {
                let n = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("\"k\":\"dyn\",\"trait\":{}", esc(&n))
            }
            TyKind::Adt(def, args) => {
                let name = self.path(def.did());
                let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = vec![];
                if !self.opaque_adt(&name) {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args);
                            let ft = self.tcx.normalize_erasing_regions(self.env, ft);
                            let fid = self.ty(ft);
                            fs.push(format!("{{\"n\":{},\"t\":{}}}", esc(f.name.as_str()), fid));
                        }
                        let d = if def.is_enum() {
                            let dd = def.discriminant_for_variant(self.tcx, vi);
                            let sz = rustc_abi::Size::from_bytes(16);
                            let _ = sz;
                            // sign-extend where the discriminant type is signed
                            let bits = match dd.ty.kind() {
                                TyKind::Int(i) => {
                                    let b = i.bit_width().unwrap_or(64);
                                    let v = dd.val as i128;
                                    (v << (128 - b)) >> (128 - b)
                                }
                                _ => dd.val as i128,
                            };
                            bits
                        } else {
                            0
                        };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(v.name.as_str()), d, arr(fs)));
                    }
                }
                format!(
                    "\"k\":\"adt\",\"name\":{},\"adt\":\"{}\",\"args\":{},\"local\":{},\"variants\":{}",
                    esc(&name), kind, arr(targs), def.did().is_local(), arr(vs)
                )
            }
            _ => "\"k\":\"other\"".into(),
        };
        let interior = !t.is_freeze(self.tcx, self.env);
        self.types[id] = format!("{{\"id\":{},\"s\":{},\"interior\":{},{}}}", id, esc(&s), interior, body);
        id
    }

    fn stopped(&self, p: &str) -> bool {
        self.stop.iter().any(|s| if let Some(x) = s.strip_suffix('*') { p.starts_with(x) } else { p == s })
    }
    fn descended(&self, p: &str) -> bool {
        self.descend.iter().any(|s| if let Some(x) = s.strip_suffix('*') { p.starts_with(x) } else { p == s })
    }

    // Path used for matching models: trait method path if trait method, else def path
    fn want(&mut self, inst: Instance<'tcx>) -> usize {
        if let Some(&i) = self.inst_ids.get(&inst) {
            return i;
        }
        let id = self.insts.len();
        self.inst_ids.insert(inst, id);
        self.insts.push(None);
        self.queue.push_back(inst);
        id
    }

    // JSON describing a callee
    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let decl = self.path(d);
        let mut decl_args = vec![];
        for t in args.types() {
            decl_args.push(self.ty(t).to_string());
        }
        let mut trait_path = String::new();
        let mut has_default = false;
        if let Some(tr) = tcx.trait_of_assoc(d) {
            trait_path = self.path(tr);
            has_default = tcx.defaultness(d).has_value();
        }
        if let Some(intr) = tcx.intrinsic(d) {
            return format!("{{\"intrinsic\":{},\"decl\":{},\"args\":{}}}", esc(intr.name.as_str()), esc(&decl), arr(decl_args));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let (variant, adt) = {
                let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip().skip_binder();
                let out = sig.output();
                let tid = self.ty(out);
                let mut vi = 0usize;
                if let TyKind::Adt(def, _) = out.kind() {
                    if def.is_enum() {
                        vi = def.variant_index_with_ctor_id(d).as_usize();
                    }
                }
                (vi, tid)
            };
            return format!("{{\"ctor\":true,\"decl\":{},\"ty\":{},\"variant\":{}}}", esc(&decl), adt, variant);
        }
        // Iterator-family methods: prefer the trait's default body over std overrides.
        let iter_trait = matches!(trait_path.as_str(), "std::iter::Iterator" | "core::iter::Iterator");
        let name = tcx.item_name(d);
        if iter_trait && has_default && name.as_str() != "size_hint" && !self.stopped(&decl) {
            let self_ty = args.type_at(0);
            // only bypass overrides from outside the analysed crate
            let r = Instance::try_resolve(tcx, self.env, d, args).ok().flatten();
            let local_override = r.map_or(false, |i| i.def_id().is_local());
            if !local_override && !matches!(self_ty.kind(), TyKind::Dynamic(..)) {
                let inst = Instance::new_raw(d, args);
                let id = self.want(inst);
                return format!("{{\"inst\":{},\"decl\":{},\"args\":{},\"name\":{}}}", id, esc(&decl), arr(decl_args), esc(name.as_str()));
            }
        }
        let inst = match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(i)) => i,
            _ => return format!("{{\"unresolved\":true,\"decl\":{},\"args\":{}}}", esc(&decl), arr(decl_args)),
        };
        let inst = self.base_impl(inst, d, args).unwrap_or(inst);
        if let InstanceKind::Item(id) = inst.def {
            if !id.is_local() {
                let p = self.path(id);
                if let Some(&m) = self.models.get(&p).or_else(|| self.models.get(&decl)) {
                    let src: Vec<_> = if self.models.contains_key(&p) { inst.args.types().collect() } else { args.types().collect() };
                    let src: Vec<ty::GenericArg<'tcx>> = src.into_iter().map(|t| t.into()).collect();
                    let n = tcx.generics_of(m).count();
                    if src.len() >= n {
                        let ga = tcx.mk_args(&src[..n]);
                        let mi = Instance::new_raw(m, ga);
                        let id = self.want(mi);
                        return format!("{{\"inst\":{},\"model\":true,\"decl\":{},\"args\":{},\"name\":{}}}", id, esc(&decl), arr(decl_args), esc(name.as_str()));
                    }
                }
            }
        }
        match inst.def {
            InstanceKind::Virtual(td, idx) => {
                let _ = td;
                format!("{{\"virtual\":{},\"decl\":{},\"args\":{},\"name\":{}}}", idx, esc(&decl), arr(decl_args), esc(name.as_str()))
            }
            InstanceKind::Intrinsic(di) => {
                format!("{{\"intrinsic\":{},\"decl\":{},\"args\":{}}}", esc(tcx.item_name(di).as_str()), esc(&decl), arr(decl_args))
            }
            _ => {
                let id = self.want(inst);
                format!("{{\"inst\":{},\"decl\":{},\"args\":{},\"name\":{}}}", id, esc(&decl), arr(decl_args), esc(name.as_str()))
            }
        }
    }

    /// For std's private specialisation traits take the least specialised (plain) implementation.
    fn base_impl(&self, inst: Instance<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        let tr = tcx.trait_of_assoc(d)?;
        let n = tcx.item_name(tr);
        if inst.def_id().is_local() || !matches!(n.as_str(), "ZipImpl" | "StepByImpl" | "FuseImpl" | "SpecAdvanceBy") {
            return None;
        }
        let mut best: Option<(usize, DefId, DefId)> = None;
        for im in tcx.all_impls(tr) {
            for it in tcx.associated_items(im).in_definition_order() {
                if it.name() == tcx.item_name(d) && tcx.defaultness(it.def_id).is_default() {
                    let np = tcx.explicit_clauses_of(im).clauses.len();
                    if best.map_or(true, |b| np < b.0) {
                        best = Some((np, it.def_id, im));
                    }
                }
            }
        }
        let (_, item, im) = best?;
        let n_im = tcx.generics_of(im).count();
        let self_ty = args.type_at(0);
        let all: Vec<ty::GenericArg<'tcx>> = match self_ty.kind() {
            TyKind::Adt(_, a) if n_im == a.len() && n.as_str() != "SpecAdvanceBy" => a.iter().collect(),
            _ if n_im == 1 => vec![self_ty.into()],
            _ => return None,
        };
        let nt = tcx.generics_of(tr).count();
        let own: Vec<_> = args.iter().skip(nt).collect();
        let ga = tcx.mk_args(&[all, own].concat());
        Some(Instance::new_raw(item, ga))
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        let f = f.rsplit("/src/").next().map(|x| x.to_string()).unwrap_or(f);
        format!("{}:{}:{}", f, lo.line, lo.col.0 + 1)
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let tid = self.ty(t);
        if depth > 12 {
            return format!("{{\"t\":{},\"k\":\"unk\"}}", tid);
        }
        match t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) => {
                if let Some(s) = self.scalar_of(v, t) {
                    if let Ok(si) = s.try_to_scalar_int() {
                        let bits = si.to_bits(si.size());
                        let val: String = match t.kind() {
                            TyKind::Int(_) => {
                                let b = si.size().bits();
                                let x = ((bits as i128) << (128 - b)) >> (128 - b);
                                x.to_string()
                            }
                            TyKind::Float(f) => {
                                let fv = if f.bit_width() == 32 { f32::from_bits(bits as u32) as f64 } else { f64::from_bits(bits as u64) };
                                return if fv.is_finite() {
                                    format!("{{\"t\":{},\"k\":\"f\",\"v\":{:?}}}", tid, fv)
                                } else {
                                    format!("{{\"t\":{},\"k\":\"unk\"}}", tid)
                                };
                            }
                            _ => bits.to_string(),
                        };
                        return format!("{{\"t\":{},\"k\":\"i\",\"v\":{}}}", tid, val);
                    }
                }
                format!("{{\"t\":{},\"k\":\"unk\"}}", tid)
            }
            TyKind::FnDef(d, a) => {
                let c = self.resolve(*d, a.skip_binder());
                format!("{{\"t\":{},\"k\":\"fn\",\"callee\":{}}}", tid, c)
            }
            TyKind::FnPtr(..) => {
                if let Some(mir::interpret::Scalar::Ptr(p, _)) = self.scalar_of(v, t) {
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(p.provenance.alloc_id()) {
                        let id = self.want(instance);
                        return format!("{{\"t\":{},\"k\":\"fnptr\",\"inst\":{}}}", tid, id);
                    }
                }
                format!("{{\"t\":{},\"k\":\"unk\"}}", tid)
            }
            TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => {
                if inner.is_str() || matches!(inner.kind(), TyKind::Slice(_)) {
                    // fat pointers
                    let (bytes_alloc, off, meta) = match v {
                        ConstValue::Slice { alloc_id, meta } => (alloc_id, 0u64, meta),
                        ConstValue::Indirect { alloc_id, offset } => {
                            let mem = match tcx.global_alloc(alloc_id) {
                                GlobalAlloc::Memory(m) => m,
                                _ => return format!("{{\"t\":{},\"k\":\"unk\"}}", tid),
                            };
                            let a = mem.inner();
                            let p = a.read_scalar(&tcx, mir::interpret::AllocRange { start: offset, size: rustc_abi::Size::from_bytes(8) }, true);
                            let m = a.read_scalar(&tcx, mir::interpret::AllocRange { start: offset + rustc_abi::Size::from_bytes(8), size: rustc_abi::Size::from_bytes(8) }, false);
                            match (p, m) {
                                (Ok(mir::interpret::Scalar::Ptr(p, _)), Ok(m)) => {
                                    let (prov, o) = p.into_raw_parts();
                                    (prov.alloc_id(), o.bytes(), m.try_to_scalar_int().map_or(0,|x|x.to_bits(rustc_abi::Size::from_bytes(8))) as u64)
                                }
                                (_, Ok(m)) if m.try_to_scalar_int().map_or(false, |x| x.to_bits(rustc_abi::Size::from_bytes(8)) == 0) => {
                                    return format!("{{\"t\":{},\"k\":\"slice\",\"elems\":[]}}", tid);
                                }
                                _ => return format!("{{\"t\":{},\"k\":\"unk\"}}", tid),
                            }
                        }
                        _ => return format!("{{\"t\":{},\"k\":\"unk\"}}", tid),
                    };
                    let mem = match tcx.global_alloc(bytes_alloc) {
                        GlobalAlloc::Memory(m) => m,
                        GlobalAlloc::Static(d) => tcx.eval_static_initializer(d).unwrap(),
                        _ => return format!("{{\"t\":{},\"k\":\"unk\"}}", tid),
                    };
                    if inner.is_str() {
                        let a = mem.inner();
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + meta) as usize);
                        return format!("{{\"t\":{},\"k\":\"str\",\"v\":{}}}", tid, esc(&String::from_utf8_lossy(b)));
                    }
                    let et = match inner.kind() {
                        TyKind::Slice(e) => *e,
                        _ => unreachable!(),
                    };
                    let lay = tcx.layout_of(self.env.as_query_input(et)).unwrap();
                    let mut out = vec![];
                    for i in 0..meta {
                        let cv = ConstValue::Indirect { alloc_id: bytes_alloc, offset: rustc_abi::Size::from_bytes(off + i * lay.size.bytes()) };
                        out.push(self.const_val(cv, et, depth + 1));
                    }
                    return format!("{{\"t\":{},\"k\":\"slice\",\"elems\":{}}}", tid, arr(out));
                }
                if let Some(mir::interpret::Scalar::Ptr(p, _)) = self.scalar_of(v, t) {
                    let (prov, off) = p.into_raw_parts();
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Memory(_) => {
                            if inner.is_sized(tcx, self.env) {
                                let cv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                let iv = self.const_val(cv, *inner, depth + 1);
                                return format!("{{\"t\":{},\"k\":\"ref\",\"v\":{}}}", tid, iv);
                            }
                        }
                        GlobalAlloc::Static(d) => {
                            let s = self.want_static(d);
                            return format!("{{\"t\":{},\"k\":\"static\",\"id\":{}}}", tid, s);
                        }
                        _ => {}
                    }
                }
                format!("{{\"t\":{},\"k\":\"unk\"}}", tid)
            }
            TyKind::Adt(def, _) if self.opaque_adt(&self.path(def.did())) || def.is_union() => {
                let nm = self.path(def.did());
                if nm.ends_with("vec::Vec") || nm.ends_with("string::String") {
                    return format!("{{\"t\":{},\"k\":\"emptyvec\"}}", tid);
                }
                format!("{{\"t\":{},\"k\":\"unk\"}}", tid)
            }
            TyKind::Adt(..) | TyKind::Tuple(_) | TyKind::Array(..) => {
                let v = match v {
                    ConstValue::ZeroSized => v,
                    v => v,
                };
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(dc) => {
                        let fs: Vec<String> = dc.fields.iter().map(|(v, t)| self.const_val(*v, *t, depth + 1)).collect();
                        let vi = dc.variant.map_or(-1, |v| v.as_usize() as i64);
                        if matches!(t.kind(), TyKind::Array(..)) {
                            format!("{{\"t\":{},\"k\":\"arr\",\"elems\":{}}}", tid, arr(fs))
                        } else {
                            format!("{{\"t\":{},\"k\":\"agg\",\"variant\":{},\"fields\":{}}}", tid, vi, arr(fs))
                        }
                    }
                    None => format!("{{\"t\":{},\"k\":\"unk\"}}", tid),
                }
            }
            TyKind::Closure(..) => format!("{{\"t\":{},\"k\":\"agg\",\"variant\":-1,\"fields\":[]}}", tid),
            _ => format!("{{\"t\":{},\"k\":\"unk\"}}", tid),
        }
    }

    fn scalar_of(&self, v: ConstValue, t: Ty<'tcx>) -> Option<mir::interpret::Scalar> {
        match v {
            ConstValue::Scalar(s) => Some(s),
            ConstValue::Indirect { alloc_id, offset } => {
                let lay = self.tcx.layout_of(self.env.as_query_input(t)).ok()?;
                let mem = match self.tcx.global_alloc(alloc_id) {
                    GlobalAlloc::Memory(m) => m,
                    GlobalAlloc::Static(d) => self.tcx.eval_static_initializer(d).ok()?,
                    _ => return None,
                };
                let prov = t.is_any_ptr();
                mem.inner().read_scalar(&self.tcx, mir::interpret::AllocRange { start: offset, size: lay.size }, prov).ok()
            }
            _ => None,
        }
    }

    fn want_static(&mut self, d: DefId) -> usize {
        if let Some(&i) = self.statics.get(&d) {
            return i;
        }
        let id = self.static_out.len();
        self.statics.insert(d, id);
        self.static_out.push(String::new());
        let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let val = if d.is_local() {
            match self.tcx.eval_static_initializer(d) {
                Ok(a) => {
                    let aid = self.tcx.reserve_and_set_memory_alloc(a);
                    self.const_val(ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::ZERO }, t, 0)
                }
                Err(_) => "null".into(),
            }
        } else {
            "null".into()
        };
        let tid = self.ty(t);
        let mt = self.tcx.is_mutable_static(d);
        self.static_out[id] = format!("{{\"path\":{},\"ty\":{},\"mut\":{},\"local\":{},\"v\":{}}}", esc(&self.path(d)), tid, mt, d.is_local(), val);
        id
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("{{\"f\":{},\"t\":{}}}", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("{{\"i\":{}}}", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("{{\"ci\":{},\"min\":{},\"end\":{}}}", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("{{\"ss\":[{},{}],\"end\":{}}}", from, to, from_end),
                ProjectionElem::Downcast(_, vi) => format!("{{\"v\":{}}}", vi.as_usize()),
                _ => "{\"other\":true}".to_string(),
            });
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.as_usize(), arr(v))
    }

    fn operand(&mut self, o: &Operand<'tcx>, _inst: Instance<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                // A promoted of a trait's default body must be evaluated for that body, not for
                // whatever impl the trait method would resolve to.
                let ev = match c.const_ {
                    mir::Const::Unevaluated(u, _) if u.promoted.is_some() => {
                        let gid = mir::interpret::GlobalId {
                            instance: Instance::new_raw(u.def, self.tcx.erase_and_anonymize_regions(u.args)),
                            promoted: u.promoted,
                        };
                        self.tcx.const_eval_global_id(self.env, gid, c.span)
                    }
                    k => k.eval(self.tcx, self.env, c.span),
                };
                let s = match ev {
                    Ok(v) => self.const_val(v, t, 0),
                    Err(_) => {
                        let tid = self.ty(t);
                        format!("{{\"t\":{},\"k\":\"unk\"}}", tid)
                    }
                };
                format!("{{\"k\":{}}}", s)
            }
            Operand::RuntimeChecks(r) => {
                let t = self.ty(self.tcx.types.bool);
                let v = matches!(r, RuntimeChecks::OverflowChecks) as u8;
                format!("{{\"k\":{{\"t\":{},\"k\":\"i\",\"v\":{}}}}}", t, v)
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, inst: Instance<'tcx>, body: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(o, inst)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(o, inst), n)
            }
            Rvalue::Ref(_, bk, p) => format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(k, p) => format!("{{\"r\":\"ref\",\"raw\":true,\"mut\":{},\"p\":{}}}", matches!(k, RawPtrKind::Mut), self.place(p)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"c\":{}}}}}", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("{{\"r\":\"use\",\"reborrow\":{},\"o\":{{\"c\":{}}}}}", m.is_mut(), self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body, self.tcx);
                let fid = self.ty(from);
                let tid = self.ty(*t);
                let kn = match k {
                    CastKind::PointerCoercion(pc, _) => format!("{:?}", pc).split('(').next().unwrap().to_string(),
                    k => format!("{:?}", k),
                };
                let mut extra = String::new();
                if kn == "Unsize" {
                    self.record_unsize(from, *t);
                }
                if kn == "ReifyFnPointer" || kn == "ClosureFnPointer" {
                    match from.kind() {
                        TyKind::FnDef(d, a) => {
                            let c = match Instance::resolve_for_fn_ptr(self.tcx, self.env, *d, a.skip_binder()) {
                                Some(i) => self.want(i) as i64,
                                None => -1,
                            };
                            extra = format!(",\"inst\":{}", c);
                        }
                        TyKind::Closure(d, a) => {
                            let i = Instance::resolve_closure(self.tcx, *d, self.tcx.erase_and_anonymize_regions(*a), ty::ClosureKind::FnOnce);
                            extra = format!(",\"inst\":{}", self.want(i));
                        }
                        _ => {}
                    }
                }
                format!("{{\"r\":\"cast\",\"k\":{},\"o\":{},\"from\":{},\"to\":{}{}}}", esc(&kn), self.operand(o, inst), fid, tid, extra)
            }
            Rvalue::BinaryOp(op, b) => format!(
                "{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{},\"t\":{}}}",
                op,
                self.operand(&b.0, inst),
                self.operand(&b.1, inst),
                { let t = b.0.ty(body, self.tcx); self.ty(t) }
            ),
            Rvalue::UnaryOp(op, o) => format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"o\":{},\"t\":{}}}", op, self.operand(o, inst), { let t = o.ty(body, self.tcx); self.ty(t) }),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                format!("{{\"r\":\"discr\",\"p\":{},\"t\":{}}}", self.place(p), self.ty(t))
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, inst)).collect();
                let t = r.ty(body, self.tcx);
                let tid = self.ty(t);
                let (kk, v) = match &**k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, vi, _, _, Some(_)) => ("union", vi.as_usize()),
                    AggregateKind::Adt(_, vi, ..) => ("adt", vi.as_usize()),
                    AggregateKind::Closure(..) => ("closure", 0),
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                format!("{{\"r\":\"agg\",\"k\":\"{}\",\"v\":{},\"t\":{},\"os\":{}}}", kk, v, tid, arr(os))
            }
            _ => "{\"r\":\"other\"}".into(),
        }
    }

    // For unsizing to dyn: record vtable of the trait
    fn record_unsize(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) {
        fn pointee<'t>(tcx: TyCtxt<'t>, a: Ty<'t>) -> Option<Ty<'t>> {
            match a.kind() {
                TyKind::Ref(_, t, _) | TyKind::RawPtr(t, _) => Some(*t),
                TyKind::Adt(d, args) if d.is_struct() => {
                    let _ = tcx;
                    let n = tcx.item_name(d.did());
                    if matches!(n.as_str(), "Box" | "Arc" | "Rc" | "NonNull" | "Unique" | "RefMut" | "Ref" | "Pin") {
                        args.types().next()
                    } else {
                        None
                    }
                }
                _ => None,
            }
        }
        let (Some(f), Some(t)) = (pointee(self.tcx, from), pointee(self.tcx, to)) else { return };
        if let TyKind::Dynamic(preds, ..) = t.kind() {
            if matches!(f.kind(), TyKind::Dynamic(..)) {
                return;
            }
            let f = self.tcx.erase_and_anonymize_regions(f);
            let t2 = self.tcx.erase_and_anonymize_regions(t);
            let (fid, did) = (self.ty(f), self.ty(t2));
            if self.vtables.contains_key(&(fid, did)) {
                return;
            }
            let idx = self.vtable_out.len();
            self.vtables.insert((fid, did), idx);
            self.vtable_out.push(String::new());
            let mut ents = vec![];
            if let Some(principal) = preds.principal() {
                let tr = self.tcx.instantiate_bound_regions_with_erased(principal);
                let tref = tr.with_self_ty(self.tcx, f);
                let tref = self.tcx.erase_and_anonymize_regions(tref);
                let entries = self.tcx.vtable_entries(tref);
                for e in entries.iter() {
                    if let ty::VtblEntry::Method(i) = e {
                        let d = i.def_id();
                        let nm = self.tcx.item_name(d);
                        let id = self.want(*i);
                        ents.push(format!("[{},{}]", esc(nm.as_str()), id));
                    }
                }
            }
            self.vtable_out[idx] = format!("{{\"ty\":{},\"dyn\":{},\"m\":{}}}", fid, did, arr(ents));
        }
    }

    fn body(&mut self, inst: Instance<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Virtual(..) | InstanceKind::Intrinsic(..) | InstanceKind::LlvmIntrinsic(..) => return None,
            InstanceKind::Item(d) => {
                if !tcx.is_mir_available(d) {
                    return None;
                }
            }
            _ => {}
        }
        let mir = tcx.instance_mir(inst.def);
        let body = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, mir.clone())).ok()?;
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), esc(v.name.as_str())));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let rv = self.rvalue(&b.1, inst, &body);
                        st.push(format!("{{\"s\":\"=\",\"p\":{},\"v\":{},\"sp\":{}}}", self.place(&b.0), rv, esc(&self.span(s.source_info.span))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("{{\"s\":\"sd\",\"p\":{},\"v\":{}}}", self.place(place), variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("{{\"s\":\"dead\",\"l\":{}}}", l.as_usize())),
                    StatementKind::StorageLive(l) => st.push(format!("{{\"s\":\"live\",\"l\":{}}}", l.as_usize())),
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::Assume(o) = &**i {
                            st.push(format!("{{\"s\":\"assume\",\"o\":{}}}", self.operand(o, inst)));
                        } else {
                            st.push("{\"s\":\"memcpy\"}".into());
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&body, tcx);
                    let signed_bits = match dty.kind() {
                        TyKind::Int(i) => Some(i.bit_width().unwrap_or(64)),
                        _ => None,
                    };
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| {
                            let v = match signed_bits {
                                Some(b) => ((v as i128) << (128 - b)) >> (128 - b),
                                None => v as i128,
                            };
                            format!("[{},{}]", v, b.as_usize())
                        })
                        .collect();
                    let tyid = self.ty(dty);
                    format!("{{\"t\":\"switch\",\"o\":{},\"ty\":{},\"ts\":{},\"else\":{}}}", self.operand(discr, inst), tyid, arr(ts), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "{\"t\":\"ret\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"t\":\"resume\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body, tcx).ty;
                    let tid = self.ty(t);
                    format!("{{\"t\":\"drop\",\"p\":{},\"ty\":{},\"to\":{}}}", self.place(place), tid, target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&body, tcx);
                    let callee = match fty.kind() {
                        TyKind::FnDef(d, a) => self.resolve(*d, a.skip_binder()),
                        _ => format!("{{\"ptr\":{}}}", self.operand(func, inst)),
                    };
                    let aa: Vec<String> = args.iter().map(|a| self.operand(&a.node, inst)).collect();
                    let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(&body, tcx); self.ty(t).to_string() }).collect();
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"a\":{},\"at\":{},\"d\":{},\"to\":{}}}",
                        callee,
                        arr(aa),
                        arr(at),
                        self.place(destination),
                        target.map_or(-1, |t| t.as_usize() as i64)
                    )
                }
                TerminatorKind::TailCall { .. } => "{\"t\":\"other\"}".into(),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow:{:?}", op), vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![a]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![a]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![a]),
                        AssertKind::MisalignedPointerDereference { .. } => ("misaligned".into(), vec![]),
                        AssertKind::NullPointerDereference | AssertKind::NullReferenceConstructed => ("null".into(), vec![]),
                        _ => ("other".into(), vec![]),
                    };
                    let os: Vec<String> = ops.iter().map(|o| self.operand(o, inst)).collect();
                    format!(
                        "{{\"t\":\"assert\",\"o\":{},\"exp\":{},\"k\":{},\"os\":{},\"to\":{}}}",
                        self.operand(cond, inst),
                        expected,
                        esc(&k),
                        arr(os),
                        target.as_usize()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize()),
                _ => "{\"t\":\"other\"}".into(),
            };
            blocks.push(format!("{{\"st\":{},\"tm\":{},\"sp\":{},\"cleanup\":{}}}", arr(st), term, sp, bb.is_cleanup));
        }
        let spread = body.spread_arg.map_or(-1, |l| l.as_usize() as i64);
        Some(format!("{{\"args\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":{}}}", body.arg_count, spread, arr(locals), arr(names), arr(blocks)))
    }

    fn run(&mut self) {
        while let Some(inst) = self.queue.pop_front() {
            let id = self.inst_ids[&inst];
            let d = inst.def_id();
            let path = self.path(d);
            let full = with_no_trimmed_paths!(inst.to_string());
            let local = d.is_local();
            let targs: Vec<String> = inst.args.types().collect::<Vec<_>>().into_iter().map(|t| self.ty(t).to_string()).collect();
            let mut trait_path = String::new();
            if let Some(tr) = self.tcx.trait_of_assoc(d) {
                trait_path = self.path(tr);
            }
            let mut impl_trait = String::new();
            let mut self_ty: i64 = -1;
            if let Some(im) = self.tcx.impl_of_assoc(d) {
                if let Some(tr) = self.tcx.impl_opt_trait_ref(im) {
                    impl_trait = self.path(tr.skip_binder().def_id);
                }
                let ft = self.tcx.type_of(im).instantiate(self.tcx, inst.args);
                if let Ok(nt) = self.tcx.try_normalize_erasing_regions(self.env, ft) {
                    self_ty = self.ty(nt) as i64;
                }
            }
            let (shim, descend) = match inst.def {
                InstanceKind::Item(_) => ("item", local || (self.descended(&path) && !self.stopped(&path))),
                InstanceKind::Virtual(..) => ("virtual", false),
                InstanceKind::Intrinsic(_) => ("intrinsic", false),
                InstanceKind::LlvmIntrinsic(_) => ("llvm", false),
                InstanceKind::Shim(k) => match k {
                    ShimKind::ClosureOnce { .. } => ("closureonce", true),
                    ShimKind::FnPtr(..) => ("fnptr", true),
                    ShimKind::Clone(..) => ("clone", false),
                    ShimKind::DropGlue(..) => ("drop", false),
                    ShimKind::VTable(_) | ShimKind::Reify(..) => ("vtable", true),
                    _ => ("shim", false),
                },
            };
            let body = if descend { self.body(inst) } else { None };
            let unsafe_fn = matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
                && self.tcx.fn_sig(d).instantiate_identity().skip_norm_wip().safety().is_unsafe();
            let feats: Vec<String> = if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                self.tcx.codegen_fn_attrs(d).target_features.iter().map(|f| esc(f.name.as_str())).collect()
            } else {
                vec![]
            };
            let name = self.tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
            let s = format!(
                "{{\"id\":{},\"path\":{},\"name\":{},\"full\":{},\"local\":{},\"kind\":\"{}\",\"args\":{},\"trait\":{},\"implof\":{},\"self\":{},\"unsafe\":{},\"features\":{},\"krate\":{},\"sp\":{},\"body\":{}}}",
                id,
                esc(&path),
                esc(&name),
                esc(&full),
                local,
                shim,
                arr(targs),
                esc(&trait_path),
                esc(&impl_trait),
                self_ty,
                unsafe_fn,
                arr(feats),
                esc(self.tcx.crate_name(d.krate).as_str()),
                esc(&self.span(self.tcx.def_span(d))),
                body.unwrap_or("null".into())
            );
            self.insts[id] = Some(s);
        }
    }
}

fn dump(tcx: TyCtxt<'_>) {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let read_list = |v: &str| -> Vec<String> {
        std::env::var(v)
            .ok()
            .and_then(|p| std::fs::read_to_string(p).ok())
            .unwrap_or_default()
            .lines()
            .map(|l| l.trim().to_string())
            .filter(|l| !l.is_empty() && !l.starts_with('#'))
            .collect()
    };
    let mut d = Dump {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        types: vec![],
        ty_ids: HashMap::new(),
        inst_ids: HashMap::new(),
        insts: vec![],
        queue: VecDeque::new(),
        statics: HashMap::new(),
        static_out: vec![],
        stop: read_list("MIRDUMP_STOP"),
        descend: read_list("MIRDUMP_DESCEND"),
        vtables: HashMap::new(),
        vtable_out: vec![],
        models: HashMap::new(),
    };
    let model_list = read_list("MIRDUMP_MODELS");
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        if tcx.def_kind(did) == DefKind::Fn {
            let p = d.path(did);
            if let Some(n) = p.strip_prefix("__verif::") {
                for m in &model_list {
                    if let Some((k, v)) = m.rsplit_once(" => ") {
                        if v.trim() == n {
                            d.models.insert(k.trim().to_string(), did);
                        }
                    }
                }
            }
        }
    }
    // unsafe blocks and unsafe impls
    let mut uns = UnsafeVisitor { tcx, out: vec![], owner: None };
    tcx.hir_visit_all_item_likes_in_crate(&mut uns);
    let mut unsafe_out = vec![];
    let mut seen_sp = std::collections::HashSet::new();
    for (owner, what, sp) in &uns.out {
        if !seen_sp.insert(*sp) {
            continue;
        }
        let p = owner.map(|o| d.path(o)).unwrap_or_default();
        unsafe_out.push(format!("{{\"fn\":{},\"what\":{},\"sp\":{}}}", esc(&p), esc(what), esc(&d.span(*sp))));
    }
    let mut roots = vec![];
    let mut fns = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        match kind {
            DefKind::Fn | DefKind::AssocFn => {
                let p = d.path(did);
                let generic = tcx.generics_of(did).requires_monomorphization(tcx);
                let vis = tcx.effective_visibilities(()).is_exported(ld);
                let uns = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().safety().is_unsafe();
                fns.push(format!(
                    "{{\"path\":{},\"exported\":{},\"unsafe\":{},\"generic\":{},\"sp\":{}}}",
                    esc(&p),
                    vis,
                    uns,
                    generic,
                    esc(&d.span(tcx.def_span(did)))
                ));
                if p.contains("__verif") && !generic && kind == DefKind::Fn {
                    let n = tcx.item_name(did);
                    if n.as_str().starts_with("root_") {
                        let inst = Instance::mono(tcx, did);
                        let id = d.want(inst);
                        roots.push(format!("[{},{}]", esc(n.as_str()), id));
                    }
                }
            }
            DefKind::Static { .. } => {
                d.want_static(did);
            }
            _ => {}
        }
    }
    d.run();
    // adt list
    let insts: Vec<String> = d.insts.iter().map(|x| x.clone().unwrap_or("null".into())).collect();
    let s = format!(
        "{{\"unsafe_sites\":{},\n\"roots\":{},\n\"fns\":{},\n\"statics\":{},\n\"vtables\":{},\n\"types\":[\n{}\n],\n\"insts\":[\n{}\n]}}\n",
        arr(unsafe_out),
        arr(roots),
        arr(fns),
        arr(d.static_out.clone()),
        arr(d.vtable_out.clone()),
        d.types.join(",\n"),
        insts.join(",\n")
    );
    std::fs::write(&out, s).unwrap();
}

struct UnsafeVisitor<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<(Option<DefId>, &'static str, rustc_span::Span)>,
    owner: Option<DefId>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeVisitor<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        let old = self.owner;
        self.owner = Some(i.owner_id.to_def_id());
        if let rustc_hir::ItemKind::Impl(im) = &i.kind {
            if let Some(t) = im.of_trait {
                if t.safety.is_unsafe() && !(i.span.from_expansion() && i.span.ctxt().outer_expn_data().macro_def_id.map_or(true, |m| !m.is_local())) {
                    self.out.push((self.owner, "unsafe impl", i.span));
                }
            }
        }
        if let rustc_hir::ItemKind::ForeignMod { .. } = &i.kind {
            self.out.push((self.owner, "extern block", i.span));
        }
        rustc_hir::intravisit::walk_item(self, i);
        self.owner = old;
    }
    fn visit_impl_item(&mut self, i: &'tcx rustc_hir::ImplItem<'tcx>) {
        let old = self.owner;
        self.owner = Some(i.owner_id.to_def_id());
        rustc_hir::intravisit::walk_impl_item(self, i);
        self.owner = old;
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let foreign = b.span.ctxt().outer_expn_data().macro_def_id.map_or(false, |m| !m.is_local());
            self.out.push((self.owner, if foreign { "macro unsafe block" } else { "unsafe block" }, b.span));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb {
    want: bool,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if self.want {
            dump(tcx);
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let krate = std::env::var("MIRDUMP_CRATE").unwrap_or("jpeg_decoder".into());
    let mut is = false;
    for i in 0..args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() && args[i + 1] == krate {
            is = true;
        }
    }
    let test = args.iter().any(|a| a == "--test");
    let is = is && !test && args.iter().any(|a| a == "lib" || a == "--crate-type=lib" || a.ends_with("lib"));
    if is {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=on".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
        args.push("--cap-lints=allow".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { want: is });
}
