//! A rustc driver that dumps the type-checked program (resolved, instance-level
//! MIR plus ADT/function/impl tables) as JSON, without running any of it.
//! Used as RUSTC_WORKSPACE_WRAPPER; writes $MIRDUMP_OUT/<crate>.json.
#![feature(rustc_private)]
#![allow(rustc::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::sync::OnceLock;

use rustc_data_structures::steal::Steal;
use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_interface::interface::{Compiler, Config};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};

thread_local! {
    /// Pre-state-transform bodies of coroutines (async blocks).
    static STASH: RefCell<HashMap<DefId, Body<'static>>> = RefCell::new(HashMap::new());
}

type Elab = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>;
static ORIG: OnceLock<Elab> = OnceLock::new();

fn elab<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    if tcx.is_coroutine(def.to_def_id()) {
        let b: Body<'tcx> = tcx.mir_promoted(def).0.borrow().clone();
        // SAFETY: only read back while the same `tcx` is alive.
        let b: Body<'static> = unsafe { std::mem::transmute(b) };
        STASH.with(|s| s.borrow_mut().insert(def.to_def_id(), b));
    }
    (ORIG.get().unwrap())(tcx, def)
}

// ---------------------------------------------------------------- JSON
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T: AsRef<str>>(v: &[T]) -> String {
    let mut o = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(x.as_ref());
    }
    o.push(']');
    o
}

// ---------------------------------------------------------------- names
fn def_name<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    let kind = tcx.def_kind(d);
    if matches!(kind, DefKind::Closure) {
        let parent = tcx.typeck_root_def_id(d);
        let tail = with_no_trimmed_paths!(tcx.def_path(d).to_string_no_crate_verbose());
        let ptail = with_no_trimmed_paths!(tcx.def_path(parent).to_string_no_crate_verbose());
        return format!("{}{}", def_name(tcx, parent), tail.strip_prefix(ptail.as_str()).unwrap_or(&tail));
    }
    if matches!(kind, DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy) {
        let parent = tcx.parent(d);
        if let DefKind::Impl { .. } = tcx.def_kind(parent) {
            let self_ty = tcx.type_of(parent).skip_binder();
            let s = ty_head(tcx, self_ty);
            if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                let tr = tr.skip_binder();
                let t = with_no_trimmed_paths!(tcx.def_path_str(tr.def_id));
                return format!("<{} as {}>::{}", s, t, tcx.item_name(d));
            }
            return format!("{}::{}", s, tcx.item_name(d));
        }
    }
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

fn ty_head<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(a, _) => with_no_trimmed_paths!(tcx.def_path_str(a.did())),
        ty::Ref(_, t, _) => format!("&{}", ty_head(tcx, *t)),
        ty::Slice(_) => "[T]".into(),
        ty::Array(..) => "[T; N]".into(),
        _ => with_no_trimmed_paths!(t.to_string()),
    }
}

fn ty_str<'tcx>(t: Ty<'tcx>) -> String {
    with_no_trimmed_paths!(t.to_string())
}

/// External bodies worth following: the combinators of core whose meaning is
/// the closure they are given.
fn follow_external(name: &str) -> bool {
    let pre = [
        "std::option::Option::",
        "std::result::Result::",
        "core::bool::",
        "bool::",
        "<std::option::Option as std::ops::Try>",
        "<std::result::Result as std::ops::Try>",
        "<std::option::Option as std::ops::FromResidual>",
        "<std::result::Result as std::ops::FromResidual>",
        "std::ops::ControlFlow::",
        "std::thread::LocalKey::with",
        "std::sync::OnceLock::get_or_init",
        "std::convert::identity",
    ];
    pre.iter().any(|p| name.starts_with(p))
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct Key<'tcx> {
    def: DefId,
    args: ty::GenericArgsRef<'tcx>,
    env: DefId,
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    ids: HashMap<Key<'tcx>, usize>,
    queue: VecDeque<(usize, Key<'tcx>)>,
    out: Vec<String>,
    adts: BTreeMap<String, String>,
}

struct Cx<'a, 'tcx> {
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
    env_def: DefId,
    def: DefId,
}

impl<'tcx> Dump<'tcx> {
    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }

    fn adt(&mut self, a: ty::AdtDef<'tcx>) -> String {
        let name = with_no_trimmed_paths!(self.tcx.def_path_str(a.did()));
        if !self.adts.contains_key(&name) {
            self.adts.insert(name.clone(), String::new());
            let mut vs = vec![];
            for (i, v) in a.variants().iter_enumerated() {
                let fs: Vec<String> = v
                    .fields
                    .iter()
                    .map(|f| {
                        format!(
                            "[{},{},{}]",
                            esc(f.name.as_str()),
                            esc(&ty_str(self.tcx.type_of(f.did).skip_binder())),
                            esc(&format!("{:?}", f.vis))
                        )
                    })
                    .collect();
                let d = if a.is_enum() { a.discriminant_for_variant(self.tcx, i).val.to_string() } else { "0".into() };
                vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":{}}}", esc(v.name.as_str()), d, list(&fs)));
            }
            let kind = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
            let dtor = self.tcx.adt_destructor(a.did()).is_some();
            let s = format!(
                "{{\"kind\":\"{}\",\"local\":{},\"drop\":{},\"v\":{}}}",
                kind,
                a.did().is_local(),
                dtor,
                list(&vs)
            );
            self.adts.insert(name.clone(), s);
        }
        name
    }

    fn get(&mut self, k: Key<'tcx>) -> usize {
        if let Some(i) = self.ids.get(&k) {
            return *i;
        }
        let i = self.ids.len();
        self.ids.insert(k.clone(), i);
        self.queue.push_back((i, k));
        i
    }

    fn has_body(&self, d: DefId) -> bool {
        match self.tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
            _ => return false,
        }
        if d.is_local() {
            return self.tcx.is_mir_available(d);
        }
        self.tcx.is_mir_available(d) && follow_external(&def_name(self.tcx, d))
    }

    /// A key for (def,args) as seen from `cx`; fully concrete instances share one env.
    fn key(&self, cx: &Cx<'_, 'tcx>, def: DefId, args: ty::GenericArgsRef<'tcx>) -> Key<'tcx> {
        let env = if args.has_param() { cx.env_def } else { def };
        Key { def, args, env }
    }

    fn callee(&mut self, cx: &Cx<'_, 'tcx>, def: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut name = def_name(tcx, def);
        let mut inst = None;
        let mut spread = false;
        let mut how = "static";
        let trait_item = tcx.trait_of_assoc(def).is_some();
        let tyargs: Vec<String> = args.types().map(|t| esc(&ty_str(t))).collect();
        let tname = if trait_item { name.clone() } else { String::new() };
        let self_head = if trait_item { ty_head(tcx, args.type_at(0)) } else { String::new() };
        let mut done = false;
        // calling a fn item / closure through the Fn traits
        if trait_item && (tname.starts_with("std::ops::Fn") && tname.contains("::call")) {
            let mut st = args.type_at(0);
            while let ty::Ref(_, t, _) = st.kind() {
                st = *t;
            }
            match st.kind() {
                ty::Closure(d, a) => {
                    name = def_name(tcx, *d);
                    spread = true;
                    done = true;
                    if self.has_body(*d) {
                        let k = self.key(cx, *d, a);
                        inst = Some(self.get(k));
                    }
                }
                ty::FnDef(d, a) => {
                    let a = a.no_bound_vars().unwrap();
                    let c = self.callee(cx, *d, a);
                    return format!("{},\"spread\":true,\"dropself\":true}}", &c[..c.len() - 1]);
                }
                _ => {}
            }
        }
        if !done && matches!(tcx.def_kind(def), DefKind::Ctor(..)) {
            how = "ctor";
            done = true;
        }
        if !done {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, cx.env, def, args)));
            match r {
                Ok(Ok(Some(i))) => match i.def {
                    InstanceKind::Item(d) => {
                        name = def_name(tcx, d);
                        if trait_item && tcx.trait_of_assoc(d).is_some() && tcx.is_mir_available(d) {
                            // provided method, with Self known or not
                            name = format!("<{} as {}", self_head, tname.rsplit_once("::").map(|x| format!("{}>::{}", x.0, x.1)).unwrap_or_default());
                        }
                        if self.has_body(d) {
                            let k = self.key(cx, d, i.args);
                            inst = Some(self.get(k));
                        }
                    }
                    InstanceKind::Virtual(..) => how = "virtual",
                    InstanceKind::Intrinsic(_) => how = "intrinsic",
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => how = "closureonce",
                    InstanceKind::Shim(ShimKind::Clone(..)) => how = "cloneshim",
                    _ => how = "shim",
                },
                _ => how = "unresolved",
            }
        }
        let krate = tcx.crate_name(def.krate);
        let mut s = format!(
            "{{\"p\":{},\"how\":\"{}\",\"ga\":{},\"krate\":{}",
            esc(&name),
            how,
            list(&tyargs),
            esc(krate.as_str())
        );
        if trait_item {
            let _ = write!(s, ",\"t\":{},\"self\":{}", esc(&tname), esc(&self_head));
        }
        if let Some(i) = inst {
            let _ = write!(s, ",\"i\":{}", i);
        }
        if spread {
            s.push_str(",\"spread\":true");
        }
        s.push('}');
        s
    }

    fn place(&mut self, cx: &Cx<'_, 'tcx>, p: Place<'tcx>) -> String {
        let tcx = self.tcx;
        if p.projection.is_empty() {
            return format!("[{}]", p.local.as_usize());
        }
        let mut o = vec![p.local.as_usize().to_string()];
        let mut pt = PlaceTy::from_ty(cx.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let a = *a;
                            self.adt(a);
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            a.variant(v).fields[f].name.to_string()
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) if d.is_local() => tcx
                            .closure_saved_names_of_captured_variables(*d)
                            .get(f)
                            .map(|s| format!("{}", s))
                            .unwrap_or_else(|| f.as_usize().to_string()),
                        _ => f.as_usize().to_string(),
                    };
                    format!("[\"f\",{},{}]", esc(&n), f.as_usize())
                }
                ProjectionElem::Downcast(n, v) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let a = *a;
                            self.adt(a);
                            a.variant(v).name.to_string()
                        }
                        _ => n.map(|s| s.to_string()).unwrap_or_else(|| v.as_usize().to_string()),
                    };
                    format!("[\"d\",{},{}]", esc(&n), v.as_usize())
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"ci\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                _ => String::new(),
            };
            if !s.is_empty() {
                o.push(s);
            }
            pt = pt.projection_ty(tcx, e);
        }
        list(&o)
    }

    fn bytes(b: &[u8]) -> String {
        match std::str::from_utf8(b) {
            Ok(s) => esc(s),
            Err(_) => {
                let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                list(&v)
            }
        }
    }

    fn read_mem(&mut self, cx: &Cx<'_, 'tcx>, alloc: rustc_middle::mir::interpret::ConstAllocation<'tcx>, off: u64, t: Ty<'tcx>, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        if depth > 6 {
            return None;
        }
        let a = alloc.inner();
        let lay = tcx.layout_of(cx.env.as_query_input(t)).ok()?;
        let size = lay.size.bytes();
        let rd = |o: u64, n: u64| -> Option<u128> {
            if o + n > a.size().bytes() || n > 16 {
                return None;
            }
            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + n) as usize);
            let mut v = 0u128;
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u128) << (8 * i);
            }
            Some(v)
        };
        match t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) => Some(rd(off, size)?.to_string()),
            ty::Int(_) => {
                let v = rd(off, size)?;
                let sh = 128 - size * 8;
                Some((((v << sh) as i128) >> sh).to_string())
            }
            ty::Array(et, n) => {
                let n = n.try_to_target_usize(tcx)?;
                let el = tcx.layout_of(cx.env.as_query_input(*et)).ok()?.size.bytes();
                if let ty::Uint(ty::UintTy::U8) = et.kind() {
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize);
                    return Some(format!("{{\"bytes\":{}}}", Self::bytes(b)));
                }
                let mut v = vec![];
                for i in 0..n.min(512) {
                    v.push(self.read_mem(cx, alloc, off + i * el, *et, depth + 1)?);
                }
                Some(list(&v))
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, et) in ts.iter().enumerate() {
                    let o = lay.fields.offset(i).bytes();
                    v.push(self.read_mem(cx, alloc, off + o, et, depth + 1)?);
                }
                Some(list(&v))
            }
            ty::Adt(ad, args) if ad.is_struct() => {
                let mut v = vec![];
                for (i, f) in ad.non_enum_variant().fields.iter().enumerate() {
                    let et = tcx.normalize_erasing_regions(cx.env, f.ty(tcx, args));
                    let o = lay.fields.offset(i).bytes();
                    v.push(format!("{}:{}", esc(f.name.as_str()), self.read_mem(cx, alloc, off + o, et, depth + 1)?));
                }
                Some(format!("{{{}}}", v.join(",")))
            }
            ty::Adt(ad, _) if ad.is_enum() && ad.variants().iter().all(|v| v.fields.is_empty()) => {
                let ad = *ad;
                self.adt(ad);
                if size == 0 {
                    return Some(format!("{{\"variant\":{}}}", esc(ad.variants().iter().next()?.name.as_str())));
                }
                let v = rd(off, size)?;
                let m = if size >= 16 { u128::MAX } else { (1u128 << (8 * size)) - 1 };
                for (vi, var) in ad.variants().iter_enumerated() {
                    if ad.discriminant_for_variant(tcx, vi).val & m == v {
                        return Some(format!("{{\"variant\":{}}}", esc(var.name.as_str())));
                    }
                }
                None
            }
            ty::Adt(ad, _) if ad.is_enum() => {
                let alloc_id = tcx.reserve_and_set_memory_alloc(alloc);
                let val = ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::from_bytes(off) };
                self.enum_value(cx, val, t, *ad)
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let ptr_size = 8u64;
                let prov = a.provenance().get_ptr(rustc_abi::Size::from_bytes(off))?;
                let base = rd(off, ptr_size)? as u64;
                match tcx.try_get_global_alloc(prov.alloc_id())? {
                    GlobalAlloc::Memory(m) => match inner.kind() {
                        ty::Str => {
                            let n = rd(off + ptr_size, ptr_size)? as usize;
                            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(base as usize..base as usize + n);
                            Some(Self::bytes(b))
                        }
                        ty::Slice(et) => {
                            let n = rd(off + ptr_size, ptr_size)? as u64;
                            let el = tcx.layout_of(cx.env.as_query_input(*et)).ok()?.size.bytes();
                            if let ty::Uint(ty::UintTy::U8) = et.kind() {
                                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(base as usize..base as usize + n as usize);
                                return Some(format!("{{\"bytes\":{}}}", Self::bytes(b)));
                            }
                            let mut v = vec![];
                            for i in 0..n.min(512) {
                                v.push(self.read_mem(cx, m, base + i * el, *et, depth + 1)?);
                            }
                            Some(list(&v))
                        }
                        _ => self.read_mem(cx, m, base, *inner, depth + 1),
                    },
                    GlobalAlloc::Static(d) => Some(format!("{{\"static\":{}}}", esc(&def_name(tcx, d)))),
                    GlobalAlloc::Function { instance } => Some(format!("{{\"fn\":{}}}", esc(&def_name(tcx, instance.def_id())))),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// value of an evaluated constant of an enum type with fields
    fn enum_value(&mut self, cx: &Cx<'_, 'tcx>, val: ConstValue, t: Ty<'tcx>, ad: ty::AdtDef<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let n = self.adt(ad);
        let d = tcx.try_destructure_mir_constant_for_user_output(val, t)?;
        let var = ad.variant(d.variant?);
        let mut o = vec![];
        for (fv, ft) in d.fields {
            o.push(self.const_value(cx, *fv, *ft)?);
        }
        let f: Vec<String> = var.fields.iter().map(|f| esc(f.name.as_str())).collect();
        Some(format!("{{\"adt\":{},\"variant\":{},\"f\":{},\"o\":{}}}", esc(&n), esc(var.name.as_str()), list(&f), list(&o)))
    }

    /// value of an evaluated constant of type `t`
    fn const_value(&mut self, cx: &Cx<'_, 'tcx>, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        if let ty::Adt(ad, _) = t.kind() {
            if ad.is_enum() && ad.variants().iter().any(|v| !v.fields.is_empty()) {
                return self.enum_value(cx, v, t, *ad);
            }
        }
        match v {
                ConstValue::ZeroSized => Some("null".to_string()),
                ConstValue::Scalar(Scalar::Int(i)) => match t.kind() {
                    ty::Int(_) => Some(i.to_int(i.size()).to_string()),
                    ty::Adt(a, _) if a.is_enum() => {
                        let a = *a;
                        self.adt(a);
                        let b = i.to_bits(i.size());
                        let mut r = None;
                        for (vi, _) in a.variants().iter_enumerated() {
                            let dv = a.discriminant_for_variant(tcx, vi).val;
                            let m = if i.size().bytes() >= 16 { dv } else { dv & ((1u128 << (8 * i.size().bytes())) - 1) };
                            if m == b && a.variants().iter().all(|v| v.fields.is_empty()) {
                                r = Some(format!("{{\"variant\":{}}}", esc(a.variant(vi).name.as_str())));
                            }
                        }
                        r.or(Some(b.to_string()))
                    }
                    _ => Some(i.to_bits(i.size()).to_string()),
                },
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    match tcx.try_get_global_alloc(prov.alloc_id()) {
                        Some(GlobalAlloc::Static(d)) => Some(format!("{{\"static\":{}}}", esc(&def_name(tcx, d)))),
                        Some(GlobalAlloc::Function { instance }) => {
                            Some(format!("{{\"fn\":{}}}", esc(&def_name(tcx, instance.def_id()))))
                        }
                        Some(GlobalAlloc::Memory(m)) => match t.builtin_deref(true) {
                            Some(inner) => self.read_mem(cx, m, off.bytes(), inner, 0),
                            None => None,
                        },
                        _ => None,
                    }
                }
                ConstValue::Slice { .. } => match t.builtin_deref(true).map(|t| t.kind().clone()) {
                    Some(ty::Str) => v.try_get_slice_bytes_for_diagnostics(tcx).map(Self::bytes),
                    Some(ty::Slice(_)) => v.try_get_slice_bytes_for_diagnostics(tcx).map(|b| format!("{{\"bytes\":{}}}", Self::bytes(b))),
                    _ => None,
                },
                ConstValue::Indirect { alloc_id, offset } => match tcx.try_get_global_alloc(alloc_id) {
                    Some(GlobalAlloc::Memory(m)) => self.read_mem(cx, m, offset.bytes(), t, 0),
                    _ => None,
                },
            }
    }

    fn constant(&mut self, cx: &Cx<'_, 'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = tcx.try_normalize_erasing_regions(cx.env, ty::Unnormalized::new(c.const_.ty())).unwrap_or(c.const_.ty());
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.no_bound_vars().unwrap();
            let s = self.callee(cx, *d, a);
            return format!("{{\"k\":\"fn\",\"c\":{}}}", s);
        }
        let mut path = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                path = def_name(tcx, u.def);
            }
        }
        let ts = ty_str(t);
        let mut head = format!("{{\"k\":\"c\",\"ty\":{}", esc(&ts));
        if !path.is_empty() {
            let _ = write!(head, ",\"path\":{}", esc(&path));
        }
        let promoted = matches!(c.const_, Const::Unevaluated(u, _) if u.promoted.is_some());
        let val = if c.const_.has_param() && !promoted {
            None
        } else {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.const_.eval(tcx, cx.env, c.span).ok())).unwrap_or(None)
        };
        if let Some(v) = val {
            let r = self.const_value(cx, v, t);
            if let Some(r) = r {
                let _ = write!(head, ",\"v\":{}", r);
                head.push('}');
                return head;
            }
        }
        let _ = write!(head, ",\"s\":{}}}", esc(&with_no_trimmed_paths!(format!("{}", c.const_))));
        head
    }

    fn op(&mut self, cx: &Cx<'_, 'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"cp\",\"p\":{}}}", self.place(cx, *p)),
            Operand::Move(p) => format!("{{\"k\":\"mv\",\"p\":{}}}", self.place(cx, *p)),
            Operand::Constant(c) => self.constant(cx, c),
            Operand::RuntimeChecks(_) => "{\"k\":\"c\",\"ty\":\"bool\",\"v\":0}".into(),
        }
    }

    fn rvalue(&mut self, cx: &Cx<'_, 'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"o\":{}}}", self.op(cx, o)),
            Rvalue::Repeat(o, n) => format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}", self.op(cx, o), esc(&n.to_string())),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("{{\"r\":\"ref\",\"m\":{},\"p\":{}}}", m, self.place(cx, *p))
            }
            Rvalue::Reborrow(_, m, p) => format!("{{\"r\":\"ref\",\"m\":{},\"p\":{}}}", m.is_mut(), self.place(cx, *p)),
            Rvalue::RawPtr(k, p) => {
                format!("{{\"r\":\"ref\",\"m\":{},\"raw\":true,\"p\":{}}}", matches!(k, RawPtrKind::Mut), self.place(cx, *p))
            }
            Rvalue::ThreadLocalRef(d) => format!("{{\"r\":\"use\",\"o\":{{\"k\":\"c\",\"ty\":\"tls\",\"v\":{{\"static\":{}}}}}}}", esc(&def_name(tcx, *d))),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                format!("{{\"r\":\"cast\",\"c\":{},\"o\":{},\"ty\":{}}}", esc(&ks), self.op(cx, o), esc(&ty_str(*t)))
            }
            Rvalue::BinaryOp(b, ab) => {
                format!("{{\"r\":\"bin\",\"b\":\"{:?}\",\"o\":[{},{}]}}", b, self.op(cx, &ab.0), self.op(cx, &ab.1))
            }
            Rvalue::UnaryOp(u, o) => format!("{{\"r\":\"un\",\"u\":\"{:?}\",\"o\":{}}}", u, self.op(cx, o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(cx.body, tcx).ty;
                let n = match t.kind() {
                    ty::Adt(a, _) => {
                        let a = *a;
                        self.adt(a)
                    }
                    _ => ty_str(t),
                };
                format!("{{\"r\":\"discr\",\"p\":{},\"adt\":{}}}", self.place(cx, *p), esc(&n))
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.op(cx, o)).collect();
                match &**k {
                    AggregateKind::Array(t) => format!("{{\"r\":\"agg\",\"a\":\"array\",\"ty\":{},\"o\":{}}}", esc(&ty_str(*t)), list(&v)),
                    AggregateKind::Tuple => format!("{{\"r\":\"agg\",\"a\":\"tuple\",\"o\":{}}}", list(&v)),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let a = tcx.adt_def(*d);
                        let n = self.adt(a);
                        let var = a.variant(*vi);
                        let f: Vec<String> = var.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!(
                            "{{\"r\":\"agg\",\"a\":\"adt\",\"adt\":{},\"v\":{},\"vi\":{},\"f\":{},\"o\":{}}}",
                            esc(&n),
                            esc(var.name.as_str()),
                            vi.as_usize(),
                            list(&f),
                            list(&v)
                        )
                    }
                    AggregateKind::Closure(d, a) => self.closure("closure", cx, *d, a, &v),
                    AggregateKind::Coroutine(d, a) => self.closure("coroutine", cx, *d, a, &v),
                    AggregateKind::CoroutineClosure(d, a) => self.closure("closure", cx, *d, a, &v),
                    AggregateKind::RawPtr(..) => format!("{{\"r\":\"agg\",\"a\":\"rawptr\",\"o\":{}}}", list(&v)),
                }
            }
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"k\":\"cp\",\"p\":{}}}}}", self.place(cx, *p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("{{\"r\":\"use\",\"o\":{}}}", self.op(cx, o)),
        }
    }

    fn closure(&mut self, what: &str, cx: &Cx<'_, 'tcx>, d: DefId, a: ty::GenericArgsRef<'tcx>, v: &[String]) -> String {
        let mut i = String::from("null");
        if self.has_body(d) {
            let k = self.key(cx, d, a);
            i = self.get(k).to_string();
        }
        let names: Vec<String> = if d.is_local() {
            self.tcx.closure_saved_names_of_captured_variables(d).iter().map(|s| esc(s.as_str())).collect()
        } else {
            vec![]
        };
        format!("{{\"r\":\"agg\",\"a\":\"{}\",\"def\":{},\"i\":{},\"f\":{},\"o\":{}}}", what, esc(&def_name(self.tcx, d)), i, list(&names), list(v))
    }

    /// ADTs with a destructor that dropping a value of type `t` can run (bounded walk).
    fn drops(&mut self, cx: &Cx<'_, 'tcx>, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let mut out: Vec<String> = vec![];
        let mut seen = vec![];
        let mut st = vec![(t, 0)];
        while let Some((t, d)) = st.pop() {
            if d > 5 || seen.contains(&t) || seen.len() > 80 {
                continue;
            }
            seen.push(t);
            match t.kind() {
                ty::Adt(a, args) => {
                    if let Some(dt) = tcx.adt_destructor(a.did()) {
                        let n = with_no_trimmed_paths!(tcx.def_path_str(a.did()));
                        let mut s = format!("{{\"adt\":{}", esc(&n));
                        if dt.did.is_local() {
                            let k = self.key(cx, dt.did, args);
                            let i = self.get(k);
                            let _ = write!(s, ",\"i\":{}", i);
                        }
                        s.push('}');
                        out.push(s);
                    }
                    if a.is_manually_drop() {
                        continue;
                    }
                    if a.did().is_local() || matches!(with_no_trimmed_paths!(tcx.def_path_str(a.did())).as_str(), "std::option::Option" | "std::result::Result") {
                        for f in a.all_fields() {
                            let ft = tcx.try_normalize_erasing_regions(cx.env, f.ty(tcx, args)).unwrap_or(t);
                            st.push((ft, d + 1));
                        }
                    } else {
                        for x in args.types() {
                            st.push((x, d + 1));
                        }
                    }
                }
                ty::Tuple(ts) => {
                    for x in ts.iter() {
                        st.push((x, d + 1));
                    }
                }
                ty::Closure(_, args) => {
                    for x in args.as_closure().upvar_tys() {
                        st.push((x, d + 1));
                    }
                }
                ty::Array(x, _) | ty::Slice(x) => st.push((*x, d + 1)),
                _ => {}
            }
        }
        list(&out)
    }

    fn body(&mut self, id: usize, k: Key<'tcx>) {
        let tcx = self.tcx;
        let is_coro = tcx.is_coroutine(k.def);
        let stash: Option<Body<'tcx>> = if is_coro {
            STASH.with(|s| s.borrow().get(&k.def).map(|b| unsafe { std::mem::transmute::<Body<'static>, Body<'tcx>>(b.clone()) }))
        } else {
            None
        };
        let generic: Body<'tcx> = match stash {
            Some(b) => b,
            None => tcx.optimized_mir(k.def).clone(),
        };
        let env = TypingEnv::post_analysis(tcx, k.env);
        let args = k.args;
        let r = tcx.try_instantiate_and_normalize_erasing_regions(args, env, ty::EarlyBinder::bind(tcx, generic.clone()));
        let body = match r {
            Ok(b) => b,
            Err(_) => generic,
        };
        let cx = Cx { body: &body, env, env_def: k.env, def: k.def };
        let mut s = String::new();
        let identity = k.def.is_local() && k.args == ty::GenericArgs::identity_for_item(tcx, k.def);
        let kind = if is_coro { "coroutine" } else if tcx.is_closure_like(k.def) { "closure" } else { "fn" };
        let _ = write!(
            s,
            "{{\"id\":{},\"name\":{},\"kind\":\"{}\",\"local\":{},\"identity\":{},\"span\":{},\"args\":{},\"argc\":{}",
            id,
            esc(&def_name(tcx, k.def)),
            kind,
            k.def.is_local(),
            identity,
            esc(&self.span(tcx.def_span(k.def))),
            list(&k.args.types().map(|t| esc(&ty_str(t))).collect::<Vec<_>>()),
            body.arg_count
        );
        if let Some(sa) = body.spread_arg {
            let _ = write!(s, ",\"spread_arg\":{}", sa.as_usize());
        }
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let locals: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| format!("[{},{}]", esc(&ty_str(d.ty)), names.get(&l.as_usize()).map(|n| esc(n)).unwrap_or("null".into())))
            .collect();
        let _ = write!(s, ",\"locals\":{}", list(&locals));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        st.push(format!("[\"=\",{},{},{}]", self.place(&cx, *p), self.rvalue(&cx, r), esc(&self.span(x.source_info.span))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(&cx, **place), variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(_) => {}
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    format!(
                        "{{\"t\":\"switch\",\"o\":{},\"ty\":{},\"v\":{},\"else\":{},\"sp\":{}}}",
                        self.op(&cx, discr),
                        esc(&ty_str(dt)),
                        list(&v),
                        targets.otherwise().as_usize(),
                        sp
                    )
                }
                TerminatorKind::Return => "{\"t\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&body, tcx).ty;
                    let dr = self.drops(&cx, ty);
                    format!(
                        "{{\"t\":\"drop\",\"p\":{},\"ty\":{},\"to\":{},\"drops\":{},\"sp\":{}}}",
                        self.place(&cx, *place),
                        esc(&ty_str(ty)),
                        target.as_usize(),
                        dr,
                        sp
                    )
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let a: Vec<String> = args.iter().map(|a| self.op(&cx, &a.node)).collect();
                    let at: Vec<String> = args.iter().map(|a| esc(&ty_str(a.node.ty(&body.local_decls, tcx)))).collect();
                    let f = self.op(&cx, func);
                    let _ = fn_span;
                    let macro_name = {
                        let mut m = String::new();
                        let mut e = t.source_info.span;
                        for _ in 0..8 {
                            let d = e.ctxt().outer_expn_data();
                            if d.is_root() {
                                break;
                            }
                            if let rustc_span::ExpnKind::Macro(_, n) = d.kind {
                                m = n.to_string();
                            }
                            e = d.call_site;
                        }
                        m
                    };
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"a\":{},\"at\":{},\"d\":{},\"dty\":{},\"to\":{},\"sp\":{},\"mac\":{}}}",
                        f,
                        list(&a),
                        list(&at),
                        self.place(&cx, *destination),
                        esc(&ty_str(destination.ty(&body, tcx).ty)),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        sp,
                        esc(&macro_name)
                    )
                }
                TerminatorKind::TailCall { .. } => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (kind, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.op(&cx, len), self.op(&cx, index)]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow-{:?}", b), vec![self.op(&cx, x), self.op(&cx, y)]),
                        AssertKind::OverflowNeg(x) => ("overflow-neg".into(), vec![self.op(&cx, x)]),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![self.op(&cx, x)]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![self.op(&cx, x)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!(
                        "{{\"t\":\"assert\",\"o\":{},\"exp\":{},\"kind\":{},\"ops\":{},\"to\":{},\"sp\":{}}}",
                        self.op(&cx, cond),
                        expected,
                        esc(&kind),
                        list(&ops),
                        target.as_usize(),
                        sp
                    )
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => {
                    format!("{{\"t\":\"yield\",\"to\":{},\"d\":{}}}", resume.as_usize(), self.place(&cx, *resume_arg))
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::InlineAsm { .. } => "{\"t\":\"unreachable\",\"asm\":true}".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{}}}", list(&st), ts));
        }
        let _ = cx.def;
        let _ = write!(s, ",\"b\":{}}}", list(&blocks));
        self.out.push(s);
    }
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut Config) {
        config.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_drops_elaborated_and_const_checked);
            p.queries.mir_drops_elaborated_and_const_checked = elab;
        });
    }

    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(dir) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut d = Dump { tcx, ids: HashMap::new(), queue: VecDeque::new(), out: vec![], adts: BTreeMap::new() };
        let mut fns = vec![];
        let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        owners.sort_by_key(|o| tcx.def_path_hash(o.to_def_id()));
        for o in &owners {
            let did = o.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            if !tcx.is_mir_available(did) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let id = d.get(Key { def: did, args, env: did });
            let sig = tcx.fn_sig(did).skip_binder().skip_binder();
            let ins: Vec<String> = sig.inputs().iter().map(|t| esc(&ty_str(*t))).collect();
            let parent = tcx.parent(did);
            let tr = if let DefKind::Impl { of_trait: true } = tcx.def_kind(parent) {
                with_no_trimmed_paths!(tcx.def_path_str(tcx.impl_trait_ref(parent).skip_binder().def_id))
            } else {
                String::new()
            };
            let derived = tcx.is_automatically_derived(parent);
            fns.push(format!(
                "{{\"name\":{},\"id\":{},\"vis\":{},\"reach\":{},\"in\":{},\"out\":{},\"unsafe\":{},\"trait\":{},\"derived\":{},\"span\":{},\"self\":{}}}",
                esc(&def_name(tcx, did)),
                id,
                esc(&format!("{:?}", tcx.visibility(did))),
                tcx.effective_visibilities(()).is_reachable(*o),
                list(&ins),
                esc(&ty_str(sig.output())),
                !sig.safety().is_safe(),
                esc(&tr),
                derived,
                esc(&d.span(tcx.def_span(did))),
                esc(&if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) { ty_str(tcx.type_of(parent).skip_binder()) } else { String::new() })
            ));
        }
        // statics and consts of the crate
        while let Some((i, k)) = d.queue.pop_front() {
            if d.ids.len() > 60000 {
                eprintln!("mirdump: too many instances");
                std::process::exit(101);
            }
            d.body(i, k);
        }
        // every local ADT
        let mut items = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    d.adt(tcx.adt_def(did));
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(did).skip_binder();
                    items.push(format!(
                        "{{\"trait\":{},\"self\":{},\"derived\":{},\"span\":{},\"tr\":{}}}",
                        esc(&with_no_trimmed_paths!(tcx.def_path_str(tr.def_id))),
                        esc(&ty_str(tr.self_ty())),
                        tcx.is_automatically_derived(did),
                        esc(&d.span(tcx.def_span(did))),
                        esc(&with_no_trimmed_paths!(tr.to_string()))
                    ));
                }
                _ => {}
            }
        }
        let adts: Vec<String> = d.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let text = format!(
            "{{\"crate\":{},\n\"fns\":[\n{}\n],\n\"impls\":{},\n\"adts\":{{\n{}\n}},\n\"bodies\":[\n{}\n]}}\n",
            esc(&krate),
            fns.join(",\n"),
            list(&items),
            adts.join(",\n"),
            d.out.join(",\n")
        );
        let kind = if tcx.entry_fn(()).is_some() { "-bin" } else { "" };
        // a proc-macro is compiled twice at once, to be linked and to be checked
        let tmp = format!("{dir}/{krate}{kind}.{}.tmp", std::process::id());
        std::fs::write(&tmp, text).expect("mirdump: write");
        std::fs::rename(&tmp, format!("{dir}/{krate}{kind}.json")).expect("mirdump: rename");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(1);
    let dump = std::env::var("MIRDUMP_OUT").is_ok()
        && args.iter().any(|a| a == "--crate-name")
        && !args.iter().any(|a| a.starts_with("--print"));
    if dump {
        args.push("-Zmir-opt-level=0".into());
        args.push("--cap-lints=allow".into());
    }
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
}

struct Cb;
