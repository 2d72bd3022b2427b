// MIR fact extractor.  Used as RUSTC_WRAPPER: behaves like rustc, and for the crates named in PD_DUMP it
// additionally writes <PD_OUT>/<crate>.json with resolved, instance-level MIR.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::print::{PrintTraitRefExt as _, with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::process::Command;

// ---------------------------------------------------------------- JSON
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}
fn arr<T>(it: impl IntoIterator<Item = T>, mut f: impl FnMut(T) -> String) -> String {
    let mut s = String::from("[");
    for (i, x) in it.into_iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&f(x));
    }
    s.push(']');
    s
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    ids: HashMap<(Instance<'tcx>, Option<DefId>, Option<u32>), usize>,
    work: Vec<(Instance<'tcx>, DefId, Option<u32>, usize)>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<String>,
    out: Vec<(usize, String)>,
    statics: HashMap<DefId, String>,
}

const INLINE_STD: &[&str] = &[
    "core::option::", "core::result::", "core::ops::", "core::convert::", "std::str::<impl str>::parse",
    "core::str::<impl str>::parse", "core::mem::take", "core::mem::replace", "core::bool::", "core::hint::must_use", "core::fmt::rt::",
    "core::cmp::",
];

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_resolve_crate_name!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_out.len();
        self.types.insert(t, i);
        self.type_out.push(String::new());
        let name = with_resolve_crate_name!(with_no_trimmed_paths!(t.to_string()));
        let mut s = format!("{{\"s\":{}", js(&name));
        match *t.kind() {
            ty::Adt(def, args) => {
                let _ = write!(s, ",\"k\":\"adt\",\"def\":{}", js(&path(self.tcx, def.did())));
                let vs: Vec<String> = def
                    .variants()
                    .iter_enumerated()
                    .map(|(vi, v)| {
                        let d = if def.is_enum() {
                            def.discriminant_for_variant(self.tcx, vi).val.to_string()
                        } else {
                            "0".into()
                        };
                        format!(
                            "{{\"n\":{},\"d\":{},\"f\":{}}}",
                            js(v.name.as_str()),
                            js(&d),
                            arr(v.fields.iter(), |f| js(f.name.as_str()))
                        )
                    })
                    .collect();
                let _ = write!(s, ",\"enum\":{},\"v\":[{}]", def.is_enum(), vs.join(","));
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(s, ",\"a\":[{}]", a.join(","));
            }
            ty::Ref(_, t2, m) => {
                let i2 = self.ty(t2);
                let _ = write!(s, ",\"k\":\"ref\",\"mut\":{},\"to\":{i2}", m.is_mut());
            }
            ty::RawPtr(t2, m) => {
                let i2 = self.ty(t2);
                let _ = write!(s, ",\"k\":\"ptr\",\"mut\":{},\"to\":{i2}", m.is_mut());
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(s, ",\"k\":\"tuple\",\"a\":[{}]", a.join(","));
            }
            ty::Array(e, _) | ty::Slice(e) => {
                let i2 = self.ty(e);
                let _ = write!(s, ",\"k\":\"arr\",\"to\":{i2}");
            }
            ty::Closure(d, args) => {
                let a: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(s, ",\"k\":\"closure\",\"def\":{},\"up\":[{}]", js(&path(self.tcx, d)), a.join(","));
            }
            ty::FnDef(d, _) => {
                let _ = write!(s, ",\"k\":\"fndef\",\"def\":{}", js(&path(self.tcx, d)));
            }
            ty::Param(_) => s.push_str(",\"k\":\"param\""),
            ty::Str => s.push_str(",\"k\":\"str\""),
            ty::Dynamic(..) => s.push_str(",\"k\":\"dyn\""),
            ty::Never => s.push_str(",\"k\":\"never\""),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => s.push_str(",\"k\":\"prim\""),
            _ => s.push_str(",\"k\":\"other\""),
        }
        s.push('}');
        self.type_out[i] = s;
        i
    }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        // the place in user-visible source where this code came from
        let lo = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn root_span(&self, sp: Span) -> String {
        let root = sp.ctxt().outer_expn_data();
        let sp2 = if root.is_root() { sp } else { sp.source_callsite() };
        self.span(sp2)
    }

    fn has_param(&self, args: GenericArgsRef<'tcx>) -> bool {
        use rustc_middle::ty::TypeVisitableExt;
        args.has_non_region_param()
    }

    fn want_body(&self, inst: &Instance<'tcx>) -> bool {
        let did = inst.def_id();
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(_) => {}
            _ => return false,
        }
        if !tcx.is_mir_available(did) || tcx.is_foreign_item(did) {
            return false;
        }
        if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            return false;
        }
        let k = tcx.crate_name(did.krate);
        let k = k.as_str();
        if did.krate == LOCAL_CRATE || k == "parse_display" || k == "parse_display_with" {
            return true;
        }
        if tcx.intrinsic(did).is_some() {
            return false;
        }
        if k == "core" || k == "alloc" || k == "std" {
            let root = if tcx.is_closure_like(did) { tcx.typeck_root_def_id(did) } else { did };
            let real = format!("{k}{}", tcx.def_path(root).to_string_no_crate_verbose());
            let p = path(tcx, root);
            if INLINE_STD.iter().any(|x| real.starts_with(x) || real.replace("{impl}", "").starts_with(x)) {
                return true;
            }
            return INLINE_STD.iter().any(|x| p.starts_with(x));
        }
        false
    }

    fn inst_id(&mut self, inst: Instance<'tcx>, root: DefId, prom: Option<u32>) -> usize {
        let key = (inst, if self.has_param(inst.args) { Some(root) } else { None }, prom);
        if let Some(&i) = self.ids.get(&key) {
            return i;
        }
        let i = self.ids.len();
        self.ids.insert(key, i);
        self.work.push((inst, root, prom, i));
        i
    }

    fn trait_form(&self, did: DefId, args: GenericArgsRef<'tcx>) -> (String, String, String, String) {
        // (canonical name, trait path, self type, item name)
        let tcx = self.tcx;
        let item = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
        let show = |t: ty::TraitRef<'tcx>| {
            let t = tcx.erase_and_anonymize_regions(t);
            with_resolve_crate_name!(with_no_trimmed_paths!((
                format!("<{} as {}>::{}", t.self_ty(), t.print_only_trait_path(), item),
                path(tcx, t.def_id),
                t.self_ty().to_string(),
                item.clone()
            )))
        };
        if let Some(tr) = tcx.trait_of_assoc(did) {
            let n = tcx.generics_of(tr).count();
            let tref = ty::TraitRef::new_from_args(tcx, tr, tcx.mk_args(&args[..n]));
            return show(tref);
        }
        if let Some(im) = tcx.impl_of_assoc(did) {
            if let Some(h) = tcx.impl_opt_trait_ref(im) {
                let n = tcx.generics_of(im).count();
                let a = tcx.mk_args(&args[..n]);
                let t = h.instantiate(tcx, a).skip_norm_wip();
                return show(t);
            }
        }
        let s = with_resolve_crate_name!(with_no_trimmed_paths!(tcx.def_path_str_with_args(did, tcx.erase_and_anonymize_regions(args).as_slice())));
        (s, String::new(), String::new(), item)
    }

    fn fn_ref(&mut self, did: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> String {
        let tcx = self.tcx;
        let (canon, tr, slf, item) = self.trait_form(did, args);
        let mut s = format!("{{\"def\":{},\"c\":{}", js(&path(tcx, did)), js(&canon));
        if !tr.is_empty() {
            let _ = write!(s, ",\"tr\":{},\"self\":{},\"m\":{}", js(&tr), js(&slf), js(&item));
        }
        let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let _ = write!(s, ",\"ta\":[{}]", targs.join(","));
        // formatting a reference formats its target: resolve that impl too
        if (tr.starts_with("std::fmt::") || tr.starts_with("core::fmt::")) && item == "fmt" {
            if let Some(t0) = args.types().next() {
                let inner = t0.peel_refs();
                if inner != t0 {
                    let a2 = tcx.mk_args_trait(inner, args.iter().skip(1));
                    let n = self.fn_ref(did, a2, env, root);
                    let _ = write!(s, ",\"peel\":{n}");
                }
            }
        }
        if let DefKind::Ctor(..) = tcx.def_kind(did) {
            let parent = tcx.parent(did);
            let (adt, vi) = if tcx.def_kind(parent) == DefKind::Variant {
                let adt = tcx.adt_def(tcx.parent(parent));
                (adt, adt.variant_index_with_id(parent).as_usize())
            } else {
                (tcx.adt_def(parent), 0)
            };
            let _ = write!(s, ",\"ctor\":[{},{}]", js(&path(tcx, adt.did())), vi);
            s.push('}');
            return s;
        }
        match Instance::try_resolve(tcx, env, did, args) {
            Ok(Some(inst)) => {
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(sh) => match sh {
                        ty::ShimKind::ClosureOnce { .. } => "closure_once",
                        ty::ShimKind::FnPtr(..) => "fnptr",
                        ty::ShimKind::Reify(..) => "reify",
                        ty::ShimKind::DropGlue(..) => "dropglue",
                        ty::ShimKind::Clone(..) => "clone",
                        _ => "shim",
                    },
                    _ => "other",
                };
                let _ = write!(s, ",\"rk\":\"{kind}\"");
                let rdid = inst.def_id();
                let _ = write!(s, ",\"rd\":{}", js(&path(tcx, rdid)));
                let _ = write!(s, ",\"kr\":{}", js(tcx.crate_name(rdid.krate).as_str()));
                if tcx.is_closure_like(rdid) {
                    s.push_str(",\"cl\":true");
                }
                if kind == "closure_once" {
                    // body of the closure itself; self by reference
                    if let InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) = inst.def {
                        // inst.args for the shim are (closure type, tupled args)
                        let cty = inst.args.type_at(0);
                        if let ty::Closure(_, cargs) = cty.kind() {
                            let ci = Instance { def: InstanceKind::Item(closure), args: cargs };
                            if self.want_body(&ci) {
                                let id = self.inst_id(ci, root, None);
                                let _ = write!(s, ",\"cl\":true,\"id\":{id}");
                            }
                        }
                    }
                } else if self.want_body(&inst) {
                    let id = self.inst_id(inst, root, None);
                    let _ = write!(s, ",\"id\":{id}");
                } else if let InstanceKind::Shim(ty::ShimKind::FnPtr(..)) = inst.def {
                    // calling through a fn pointer / fn item
                    let st = inst.args.types().next();
                    if let Some(st) = st {
                        if let ty::FnDef(d2, a2) = st.kind() {
                            if d2 != &did {
                                let a2 = a2.no_bound_vars();
                                if let Some(a2) = a2 {
                                    let inner = self.fn_ref(*d2, a2, env, root);
                                    let _ = write!(s, ",\"fn\":{inner}");
                                }
                            }
                        }
                    }
                }
            }
            _ => s.push_str(",\"rk\":\"unresolved\""),
        }
        s.push('}');
        s
    }

    // ------------------------------------------------------------ constants
    fn scalar(&mut self, sc: Scalar, t: Ty<'tcx>, root: DefId, env: TypingEnv<'tcx>, depth: usize) -> String {
        match sc {
            Scalar::Int(i) => {
                let bits = i.to_bits_unchecked();
                match t.kind() {
                    ty::Bool => format!("{{\"b\":{}}}", bits != 0),
                    ty::Char => format!("{{\"ch\":{bits}}}"),
                    ty::Int(_) => {
                        let size = i.size();
                        format!("{{\"i\":\"{}\"}}", size.sign_extend(bits))
                    }
                    ty::Uint(_) => format!("{{\"i\":\"{bits}\"}}"),
                    ty::Float(_) => format!("{{\"fl\":\"{bits}\"}}"),
                    ty::Ref(..) | ty::RawPtr(..) => format!("{{\"ptr\":\"{bits}\"}}"),
                    _ => format!("{{\"bits\":\"{bits}\",\"ty\":{}}}", self.ty(t)),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                match self.tcx.global_alloc(id) {
                    GlobalAlloc::Static(d) => {
                        let p = path(self.tcx, d);
                        let ty0 = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        let ti = self.ty(ty0);
                        self.statics.insert(d, format!("{{\"p\":{},\"ty\":{ti},\"mut\":{}}}", js(&p), self.tcx.is_mutable_static(d)));
                        // a static of an enclosing function: keep apart by def id
                        format!("{{\"static\":{},\"sid\":{}}}", js(&p), js(&format!("{:?}", self.tcx.def_path_hash(d))))
                    }
                    GlobalAlloc::Function { instance, .. } => {
                        let f = self.fn_ref(instance.def_id(), instance.args, env, root);
                        format!("{{\"fnp\":{f}}}")
                    }
                    GlobalAlloc::Memory(_) => {
                        if let Some(t2) = t.builtin_deref(true) {
                            if t2.is_sized(self.tcx, env) {
                                let v = ConstValue::Indirect { alloc_id: id, offset: off };
                                let inner = self.cval(v, t2, root, env, depth + 1);
                                return format!("{{\"ref\":{inner}}}");
                            }
                        }
                        "{\"mem\":true}".to_string()
                    }
                    _ => "{\"other\":true}".to_string(),
                }
            }
        }
    }
    fn bytes_of(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) {
            let a = a.inner();
            let end = off.checked_add(len)?;
            if end > a.len() as u64 {
                return None;
            }
            Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize).to_vec())
        } else {
            None
        }
    }
    fn slice(&mut self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64, elem: Ty<'tcx>, is_str: bool, root: DefId, env: TypingEnv<'tcx>, depth: usize) -> String {
        if is_str {
            if let Some(b) = self.bytes_of(id, off, len) {
                return format!("{{\"str\":{}}}", js(&String::from_utf8_lossy(&b)));
            }
            return "{\"mem\":true}".into();
        }
        if elem == self.tcx.types.u8 {
            if let Some(b) = self.bytes_of(id, off, len) {
                return format!("{{\"bytes\":\"{}\"}}", hex(&b));
            }
        }
        let Ok(l) = self.tcx.layout_of(env.as_query_input(elem)) else { return "{\"mem\":true}".into() };
        let es = l.size.bytes();
        let mut v = vec![];
        for i in 0..len {
            let cv = ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off + i * es) };
            v.push(self.cval(cv, elem, root, env, depth + 1));
        }
        format!("{{\"arr\":[{}]}}", v.join(","))
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, root: DefId, env: TypingEnv<'tcx>, depth: usize) -> String {
        use rustc_middle::ty::TypeVisitableExt;
        if depth > 24 {
            return "{\"deep\":true}".into();
        }
        let tcx = self.tcx;
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.skip_binder();
            let f = self.fn_ref(*d, a, env, root);
            return format!("{{\"fn\":{f}}}");
        }
        match v {
            ConstValue::ZeroSized => {
                if let ty::Closure(cd, cargs) = t.kind() {
                    let ci = Instance { def: InstanceKind::Item(*cd), args: *cargs };
                    if self.want_body(&ci) {
                        self.inst_id(ci, root, None);
                    }
                }
                let ti = self.ty(t);
                format!("{{\"zst\":{ti}}}")
            }
            ConstValue::Scalar(sc) if matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..)) => {
                self.scalar(sc, t, root, env, depth)
            }
            ConstValue::Slice { alloc_id, meta } => {
                let t2 = t.builtin_deref(true).unwrap_or(t);
                match t2.kind() {
                    ty::Str => self.slice(alloc_id, 0, meta, tcx.types.u8, true, root, env, depth),
                    ty::Slice(e) => {
                        let x = self.slice(alloc_id, 0, meta, *e, false, root, env, depth);
                        format!("{{\"ref\":{x}}}")
                    }
                    _ => "{\"mem\":true}".into(),
                }
            }
            _ => {
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    match t.kind() {
                        ty::Ref(_, t2, _) | ty::RawPtr(t2, _) => {
                            // read the pointer (and length)
                            let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return "{\"mem\":true}".into() };
                            let a = a.inner();
                            let ps = 8u64;
                            let Some(b) = self.bytes_of(alloc_id, offset.bytes(), ps) else { return "{\"mem\":true}".into() };
                            let addr = u64::from_le_bytes(b.try_into().unwrap());
                            let prov = a.provenance().get_ptr(offset);
                            let Some(prov) = prov else { return format!("{{\"ptr\":\"{addr}\"}}") };
                            let id2 = prov.alloc_id();
                            match t2.kind() {
                                ty::Str | ty::Slice(_) => {
                                    let Some(b) = self.bytes_of(alloc_id, offset.bytes() + ps, 8) else { return "{\"mem\":true}".into() };
                                    let len = u64::from_le_bytes(b.try_into().unwrap());
                                    return match t2.kind() {
                                        ty::Str => self.slice(id2, addr, len, tcx.types.u8, true, root, env, depth),
                                        ty::Slice(e) => {
                                            let x = self.slice(id2, addr, len, *e, false, root, env, depth);
                                            format!("{{\"ref\":{x}}}")
                                        }
                                        _ => unreachable!(),
                                    };
                                }
                                ty::Dynamic(..) => return "{\"dyn\":true}".into(),
                                _ => {
                                    let p = rustc_middle::mir::interpret::Pointer::new(prov, rustc_abi::Size::from_bytes(addr));
                                    return self.scalar(Scalar::from_pointer(p, &tcx), t, root, env, depth);
                                }
                            }
                        }
                        ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                            if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
                                if let Some(b) = self.bytes_of(alloc_id, offset.bytes(), l.size.bytes()) {
                                    let mut n: u128 = 0;
                                    for (i, x) in b.iter().enumerate() {
                                        n |= (*x as u128) << (8 * i);
                                    }
                                    if let Some(si) = ty::ScalarInt::try_from_uint(n, l.size) {
                                        return self.scalar(Scalar::Int(si), t, root, env, depth);
                                    }
                                }
                            }
                            return "{\"mem\":true}".into();
                        }
                        ty::Array(e, len) => {
                            if let Some(n) = len.try_to_target_usize(tcx) {
                                return self.slice(alloc_id, offset.bytes(), n, *e, false, root, env, depth);
                            }
                        }
                        _ => {}
                    }
                }
                let ti = self.ty(t);
                if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) && !t.has_non_region_param() {
                    if let ty::Adt(def, _) = t.kind() {
                        if def.is_union() || def.variants().is_empty() {
                            return format!("{{\"op\":{ti}}}");
                        }
                    }
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let f: Vec<String> = d.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, root, env, depth + 1)).collect();
                        let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                        return match t.kind() {
                            ty::Array(..) => format!("{{\"arr\":[{}]}}", f.join(",")),
                            ty::Tuple(..) => format!("{{\"tup\":[{}]}}", f.join(",")),
                            _ => format!("{{\"adt\":{ti},\"v\":{vi},\"f\":[{}]}}", f.join(",")),
                        };
                    }
                }
                // None of an Option of a pointer, where the pointee is generic
                if let ty::Adt(def, args) = t.kind() {
                    if tcx.is_diagnostic_item(rustc_span::sym::Option, def.did()) {
                        let ptr = matches!(args.type_at(0).kind(), ty::Ref(..) | ty::FnPtr(..)) || args.type_at(0).is_box();
                        let none = match v {
                            ConstValue::Scalar(Scalar::Int(i)) => i.is_null(),
                            ConstValue::Indirect { alloc_id, offset } => {
                                matches!(tcx.global_alloc(alloc_id), GlobalAlloc::Memory(a) if a.inner().provenance().get_ptr(offset).is_none())
                                    && self.bytes_of(alloc_id, offset.bytes(), 8).is_some_and(|b| b.iter().all(|x| *x == 0))
                            }
                            _ => false,
                        };
                        if ptr && none {
                            return format!("{{\"adt\":{ti},\"v\":0,\"f\":[]}}");
                        }
                    }
                }
                if let ty::Closure(cd, cargs) = t.kind() {
                    let ci = Instance { def: InstanceKind::Item(*cd), args: *cargs };
                    if self.want_body(&ci) {
                        self.inst_id(ci, root, None);
                    }
                    return format!("{{\"zst\":{ti}}}");
                }
                format!("{{\"op\":{ti}}}")
            }
        }
    }
    fn constant(&mut self, c: &mir::ConstOperand<'tcx>, inst: Instance<'tcx>, root: DefId, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let cst = c.const_;
        let t = cst.ty();
        if let ty::FnDef(..) = t.kind() {
            return self.cval(ConstValue::ZeroSized, t, root, env, 0);
        }
        if let mir::Const::Unevaluated(uv, _) = cst {
            if let Some(p) = uv.promoted {
                if self.has_param(uv.args) {
                    let _ = inst;
                    let i2 = Instance { def: InstanceKind::Item(uv.def), args: uv.args };
                    let id = self.inst_id(i2, root, Some(p.as_u32()));
                    return format!("{{\"prom\":{id}}}");
                }
            } else if self.has_param(uv.args) {
                let (c, ..) = self.trait_form(uv.def, uv.args);
                if let Ok(v) = cst.eval(tcx, env, c_span(tcx, uv.def)) {
                    return self.cval(v, t, root, env, 0);
                }
                return format!("{{\"uneval\":{}}}", js(&c));
            }
        }
        match cst.eval(tcx, env, rustc_span::DUMMY_SP) {
            Ok(v) => self.cval(v, t, root, env, 0),
            Err(_) => format!("{{\"uneval\":{}}}", js(&format!("{cst:?}"))),
        }
    }

    // ------------------------------------------------------------ bodies
    fn place(&mut self, p: &mir::Place<'tcx>) -> String {
        let mut s = format!("[{}", p.local.as_usize());
        for e in p.projection.iter() {
            match e {
                mir::ProjectionElem::Deref => s.push_str(",\"*\""),
                mir::ProjectionElem::Field(f, _) => {
                    let _ = write!(s, ",[\"f\",{}]", f.as_usize());
                }
                mir::ProjectionElem::Index(l) => {
                    let _ = write!(s, ",[\"i\",{}]", l.as_usize());
                }
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(s, ",[\"ci\",{offset},{min_length},{from_end}]");
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, ",[\"ss\",{from},{to},{from_end}]");
                }
                mir::ProjectionElem::Downcast(_, v) => {
                    let _ = write!(s, ",[\"v\",{}]", v.as_usize());
                }
                _ => s.push_str(",[\"?\"]"),
            }
        }
        s.push(']');
        s
    }
    fn operand(&mut self, o: &mir::Operand<'tcx>, inst: Instance<'tcx>, root: DefId, env: TypingEnv<'tcx>) -> String {
        match o {
            mir::Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            mir::Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            mir::Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c, inst, root, env)),
            _ => "[\"k\",{\"b\":false}]".into(),
        }
    }
    fn body(&mut self, inst: Instance<'tcx>, root: DefId, prom: Option<u32>, id: usize) {
        let tcx = self.tcx;
        let did = inst.def_id();
        let env = TypingEnv::post_analysis(tcx, root);
        let raw: &mir::Body<'tcx> = if let Some(p) = prom {
            &tcx.promoted_mir(did)[mir::Promoted::from_u32(p)]
        } else if tcx.is_ctfe_mir_available_kind(did) {
            tcx.mir_for_ctfe(did)
        } else {
            tcx.optimized_mir(did)
        };
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(_) => raw.clone(),
        };
        let (canon, tr, slf, item) = self.trait_form(did, inst.args);
        let mut s = format!("{{\"id\":{id},\"c\":{},\"def\":{}", js(&canon), js(&path(tcx, did)));
        if !tr.is_empty() {
            let _ = write!(s, ",\"tr\":{},\"self\":{},\"m\":{}", js(&tr), js(&slf), js(&item));
        }
        if let Some(p) = prom {
            let _ = write!(s, ",\"prom\":{p}");
        }
        let sp = tcx.def_span(did);
        let _ = write!(s, ",\"kr\":{},\"sp\":{},\"rsp\":{}", js(tcx.crate_name(did.krate).as_str()), js(&self.span(sp)), js(&self.root_span(sp)));
        if let Some(im) = tcx.impl_of_assoc(did) {
            let _ = write!(s, ",\"isp\":{}", js(&self.root_span(tcx.def_span(im))));
        }
        if tcx.is_closure_like(did) {
            let _ = write!(s, ",\"cl\":true,\"par\":{}", js(&path(tcx, tcx.typeck_root_def_id(did))));
        }
        if did.is_local() && matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(s, ",\"vis\":{}", js(&format!("{:?}", tcx.visibility(did))));
            if tcx.fn_sig(did).skip_binder().safety().is_unsafe() {
                s.push_str(",\"unsafe\":true");
            }
        }
        let _ = write!(s, ",\"n\":{}", body.arg_count);
        if body.spread_arg.is_some() {
            let _ = write!(s, ",\"spread\":{}", body.spread_arg.unwrap().as_usize());
        }
        let ls: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(s, ",\"l\":[{}]", ls.join(","));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", self.place(&p), js(v.name.as_str())));
            }
        }
        let _ = write!(s, ",\"nm\":[{}]", names.join(","));
        s.push_str(",\"b\":[");
        for (bi, b) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                s.push(',');
            }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in &b.statements {
                let t = match &st.kind {
                    mir::StatementKind::Assign(bx) => {
                        let (p, rv) = &**bx;
                        let ps = self.place(p);
                        let r = match rv {
                            mir::Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, inst, root, env)),
                            mir::Rvalue::Repeat(o, n) => {
                                format!("[\"rep\",{},{}]", self.operand(o, inst, root, env), js(&n.to_string()))
                            }
                            mir::Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, mir::BorrowKind::Mut { .. }), self.place(p)),
                            mir::Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(p)),
                            mir::Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(p)),
                            mir::Rvalue::Cast(k, o, t) => {
                                format!("[\"cast\",{},{},{}]", js(&format!("{k:?}")), self.operand(o, inst, root, env), self.ty(*t))
                            }
                            mir::Rvalue::BinaryOp(op, ab) => format!(
                                "[\"bin\",{},{},{}]",
                                js(&format!("{op:?}")),
                                self.operand(&ab.0, inst, root, env),
                                self.operand(&ab.1, inst, root, env)
                            ),
                            mir::Rvalue::UnaryOp(op, a) => format!("[\"un\",{},{}]", js(&format!("{op:?}")), self.operand(a, inst, root, env)),
                            mir::Rvalue::Discriminant(p) => {
                                let t = p.ty(&body.local_decls, tcx).ty;
                                format!("[\"disc\",{},{}]", self.place(p), self.ty(t))
                            }
                            mir::Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
                            mir::Rvalue::Aggregate(k, ops) => {
                                let os = arr(ops.iter(), |o| self.operand(o, inst, root, env));
                                match &**k {
                                    mir::AggregateKind::Array(_) => format!("[\"agg\",\"arr\",{os}]"),
                                    mir::AggregateKind::Tuple => format!("[\"agg\",\"tup\",{os}]"),
                                    mir::AggregateKind::Adt(_, vi, _, _, act) => {
                                        let t = p.ty(&body.local_decls, tcx).ty;
                                        format!("[\"agg\",\"adt\",{os},{},{},{}]", self.ty(t), vi.as_usize(), act.map(|a| a.as_usize() as i64).unwrap_or(-1))
                                    }
                                    mir::AggregateKind::Closure(d, cargs) => {
                                        let t = p.ty(&body.local_decls, tcx).ty;
                                        let ci = Instance { def: InstanceKind::Item(*d), args: *cargs };
                                        if self.want_body(&ci) {
                                            self.inst_id(ci, root, None);
                                        }
                                        format!("[\"agg\",\"clo\",{os},{},{}]", self.ty(t), js(&path(tcx, *d)))
                                    }
                                    mir::AggregateKind::RawPtr(..) => format!("[\"agg\",\"raw\",{os}]"),
                                    _ => format!("[\"agg\",\"?\",{os}]"),
                                }
                            }
                            mir::Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&path(tcx, *d))),
                            _ => "[\"?\"]".to_string(),
                        };
                        format!("[\"=\",{ps},{r},{}]", js(&self.span(st.source_info.span)))
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{}]", self.place(place), variant_index.as_usize())
                    }
                    mir::StatementKind::Intrinsic(i) => format!("[\"intr\",{}]", js(&format!("{i:?}"))),
                    _ => continue,
                };
                if !first {
                    s.push(',');
                }
                first = false;
                s.push_str(&t);
            }
            s.push_str("],\"t\":");
            let term = b.terminator();
            let sp = js(&self.span(term.source_info.span));
            let rsp = js(&self.root_span(term.source_info.span));
            let uw = |u: &mir::UnwindAction| match u {
                mir::UnwindAction::Cleanup(b) => b.as_usize() as i64,
                _ => -1,
            };
            let t = match &term.kind {
                mir::TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let v = arr(targets.iter(), |(v, b)| format!("[\"{v}\",{}]", b.as_usize()));
                    let dt = discr.ty(&body.local_decls, tcx);
                    format!("[\"sw\",{},{},{v},{}]", self.operand(discr, inst, root, env), self.ty(dt), targets.otherwise().as_usize())
                }
                mir::TerminatorKind::Return => "[\"ret\"]".into(),
                mir::TerminatorKind::Unreachable => "[\"unr\"]".into(),
                mir::TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                mir::TerminatorKind::UnwindTerminate(_) => "[\"term\"]".into(),
                mir::TerminatorKind::Drop { place, target, unwind, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    format!("[\"drop\",{},{},{},{}]", self.place(place), target.as_usize(), self.ty(t), uw(unwind))
                }
                mir::TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a = arr(args.iter(), |x| self.operand(&x.node, inst, root, env));
                    let f = self.operand(func, inst, root, env);
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let at = arr(args.iter(), |x| {
                        let t = x.node.ty(&body.local_decls, tcx);
                        self.ty(t).to_string()
                    });
                    format!(
                        "[\"call\",{f},{a},{},{},{sp},{rsp},{},{},{at}]",
                        self.place(destination),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        self.ty(dt),
                        uw(unwind)
                    )
                }
                mir::TerminatorKind::TailCall { .. } => "[\"tail\"]".into(),
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => format!(
                    "[\"assert\",{},{expected},{},{},{sp}]",
                    self.operand(cond, inst, root, env),
                    target.as_usize(),
                    js(&format!("{msg:?}"))
                ),
                mir::TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                mir::TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"?\"]".into(),
            };
            s.push_str(&t);
            if b.is_cleanup {
                s.push_str(",\"cu\":true");
            }
            s.push('}');
        }
        s.push_str("]}");
        self.out.push((id, s));
    }
}

fn c_span(tcx: TyCtxt<'_>, d: DefId) -> Span {
    tcx.def_span(d)
}

trait CtfeKind {
    fn is_ctfe_mir_available_kind(self, d: DefId) -> bool;
}
impl<'tcx> CtfeKind for TyCtxt<'tcx> {
    fn is_ctfe_mir_available_kind(self, d: DefId) -> bool {
        matches!(
            self.def_kind(d),
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst
        )
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let name = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut d = Dump {
        tcx,
        ids: HashMap::new(),
        work: vec![],
        types: HashMap::new(),
        type_out: vec![],
        out: vec![],
        statics: HashMap::new(),
    };
    let mut roots: Vec<DefId> = vec![];
    for ld in tcx.mir_keys(()).iter() {
        let did = ld.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => {}
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {}
            _ => continue,
        }
        roots.push(did);
    }
    let mut root_ids = vec![];
    for did in roots {
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let inst = Instance { def: InstanceKind::Item(did), args: tcx.erase_and_anonymize_regions(args) };
        root_ids.push(d.inst_id(inst, did, None));
    }
    while let Some((inst, root, prom, id)) = d.work.pop() {
        d.body(inst, root, prom, id);
    }
    // impls and their predicates
    let mut impls = vec![];
    for (tr, list) in tcx.all_local_trait_impls(()) {
        for im in list {
            let im = im.to_def_id();
            let t = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
            let preds: Vec<String> = with_resolve_crate_name!(with_no_trimmed_paths!(
                tcx.clauses_of(im).clauses.iter().map(|(p, _)| { js(&p.skip_binder_str()) }).collect()
            ));
            let st = with_resolve_crate_name!(with_no_trimmed_paths!(t.self_ty().to_string()));
            let ats: Vec<String> = tcx
                .associated_items(im)
                .in_definition_order()
                .filter(|x| x.is_type())
                .map(|x| {
                    let ty = tcx.type_of(x.def_id).instantiate_identity().skip_norm_wip();
                    format!("[{},{}]", js(x.name().as_str()), js(&with_resolve_crate_name!(with_no_trimmed_paths!(ty.to_string()))))
                })
                .collect();
            impls.push(format!(
                "{{\"at\":[{}],\"mac\":{},\"adt\":{},\"tr\":{},\"self\":{},\"preds\":[{}],\"sp\":{},\"trf\":{}}}",
                ats.join(","),
                js(&definer(tcx, im)),
                js(&t.self_ty().ty_adt_def().map(|a| path(tcx, a.did())).unwrap_or_default()),
                js(&path(tcx, *tr)),
                js(&st),
                preds.join(","),
                js(&d.root_span(tcx.def_span(im))),
                js(&with_resolve_crate_name!(with_no_trimmed_paths!(t.print_only_trait_path().to_string())))
            ));
        }
    }
    // items: fields of local adts
    let mut adts = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            let def = tcx.adt_def(did);
            let vs: Vec<String> = def
                .variants()
                .iter()
                .map(|v| {
                    let fs: Vec<String> = v
                        .fields
                        .iter()
                        .map(|f| {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let fs = with_resolve_crate_name!(with_no_trimmed_paths!(ft.to_string()));
                            format!("[{},{},{}]", js(f.name.as_str()), js(&fs), js(&format!("{:?}", f.vis)))
                        })
                        .collect();
                    format!("{{\"n\":{},\"f\":[{}]}}", js(v.name.as_str()), fs.join(","))
                })
                .collect();
            adts.push(format!("{{\"def\":{},\"ty\":{},\"par\":{},\"sp\":{},\"v\":[{}]}}", js(&path(tcx, did)), js(&with_resolve_crate_name!(with_no_trimmed_paths!(tcx.type_of(did).instantiate_identity().skip_norm_wip().to_string()))), js(&path(tcx, tcx.parent(did))), js(&d.span(tcx.def_span(did))), vs.join(",")));
        }
    }
    // items written by macros: kind, path, the derive that wrote it, kind and path of the parent
    let mut made = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        let m = definer(tcx, did);
        if m.is_empty() {
            continue;
        }
        let k = match tcx.def_kind(did) {
            DefKind::Impl { of_trait: true } => continue,
            DefKind::Impl { of_trait: false } => "inherent impl".to_string(),
            DefKind::Mod | DefKind::Struct | DefKind::Union | DefKind::Enum | DefKind::Trait | DefKind::TyAlias | DefKind::ForeignTy | DefKind::TraitAlias | DefKind::Fn | DefKind::Const { .. }
            | DefKind::Static { .. } | DefKind::Macro(..) | DefKind::ExternCrate | DefKind::Use | DefKind::ForeignMod | DefKind::GlobalAsm => {
                tcx.def_kind(did).descr(did).to_string()
            }
            _ => continue,
        };
        let pa = tcx.parent(did);
        let mut name = tcx.opt_item_name(did).map(|n| n.to_string()).unwrap_or_default();
        if matches!(tcx.def_kind(did), DefKind::Impl { .. }) {
            name = tcx.type_of(did).instantiate_identity().skip_norm_wip().ty_adt_def().map(|a| path(tcx, a.did())).unwrap_or_default();
        }
        made.push(format!(
            "[{},{},{},{},{},{},{}]",
            js(&k),
            js(&name),
            js(&m),
            js(tcx.def_kind(pa).descr(pa)),
            js(&path(tcx, pa)),
            js(&d.root_span(tcx.def_span(did))),
            js(&definer(tcx, pa))
        ));
    }
    d.out.sort();
    let mut f = String::new();
    let crates: Vec<String> = tcx
        .crates(())
        .iter()
        .map(|c| format!("[{},{}]", js(tcx.crate_name(*c).as_str()), js(&format!("{:?}", tcx.crate_dep_kind(*c)))))
        .collect();
    let _ = write!(f, "{{\"crate\":{},\n\"crates\":[{}],\n\"types\":[\n", js(&name), crates.join(","));
    f.push_str(&d.type_out.join(",\n"));
    f.push_str("\n],\n\"fns\":[\n");
    f.push_str(&d.out.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(",\n"));
    f.push_str("\n],\n\"roots\":[");
    f.push_str(&root_ids.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    f.push_str("],\n\"statics\":[");
    f.push_str(&d.statics.values().cloned().collect::<Vec<_>>().join(",\n"));
    f.push_str("],\n\"impls\":[\n");
    f.push_str(&impls.join(",\n"));
    f.push_str("\n],\n\"made\":[\n");
    f.push_str(&made.join(",\n"));
    f.push_str("\n],\n\"adts\":[\n");
    f.push_str(&adts.join(",\n"));
    f.push_str("\n]}\n");
    let tmp = format!("{out}/{name}.json.tmp");
    std::fs::write(&tmp, f).unwrap();
    std::fs::rename(&tmp, format!("{out}/{name}.json")).unwrap();
}

/// the derive macro whose expansion defines this item (the outermost one)
fn definer(tcx: TyCtxt<'_>, did: DefId) -> String {
    let mut e = tcx.expn_that_defined(did);
    let mut r = String::new();
    while e != rustc_span::ExpnId::root() {
        let x = e.expn_data();
        if let rustc_span::ExpnKind::Macro(rustc_span::MacroKind::Derive, n) = x.kind {
            r = n.to_string();
        }
        e = x.call_site.ctxt().outer_expn();
    }
    r
}

trait PredStr {
    fn skip_binder_str(&self) -> String;
}
impl<'tcx, T: std::fmt::Display> PredStr for T {
    fn skip_binder_str(&self) -> String {
        self.to_string()
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if !self.out.is_empty() && tcx.dcx().has_errors().is_none() {
            dump(tcx, &self.out);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as: driver <rustc> <args...>
    let rustc = args.remove(1);
    let name = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone()).unwrap_or_default();
    let want = std::env::var("PD_DUMP").unwrap_or_default();
    let crates: Vec<&str> = want.split(',').filter(|s| !s.is_empty()).collect();
    let hit = crates.iter().any(|c| *c == name || (c.ends_with('*') && name.starts_with(&c[..c.len() - 1])));
    if !hit {
        let st = Command::new(rustc).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let sysroot = std::env::var("PD_SYSROOT").unwrap_or_default();
    let mut a = vec!["rustc".to_string()];
    a.extend(args[1..].iter().cloned());
    if !sysroot.is_empty() && !a.iter().any(|x| x.starts_with("--sysroot")) {
        a.push(format!("--sysroot={sysroot}"));
    }
    let out = std::env::var("PD_OUT").unwrap_or_default();
    let mut cb = Cb { out };
    let code = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&a, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
