//! Dumps instance-level MIR facts of the crate under analysis as JSON.
//! Injected through RUSTC_WORKSPACE_WRAPPER; the output file is named by SCCFACTS_OUT.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_mir_transform;
extern crate rustc_session;
extern crate rustc_span;

use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

thread_local! {
    static PRE: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}

type DropsProvider = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>;
static ORIG: std::sync::OnceLock<DropsProvider> = std::sync::OnceLock::new();

fn my_drops<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    if tcx.is_coroutine(def.to_def_id()) && !tcx.is_synthetic_mir(def) {
        let _ = tcx.mir_borrowck(tcx.typeck_root_def_id_local(def));
        let mut b: Body<'tcx> = tcx.mir_promoted(def).0.borrow().clone();
        b.coroutine = None;
        rustc_mir_transform::run_analysis_to_runtime_passes(tcx, &mut b);
        // SAFETY: the map is only read within the same compilation session.
        let b: Body<'static> = unsafe { std::mem::transmute(b) };
        PRE.with(|p| p.borrow_mut().insert(def, b));
    }
    (ORIG.get().unwrap())(tcx, def)
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    ids: HashMap<(DefId, GenericArgsRef<'tcx>), usize>,
    queue: VecDeque<(usize, DefId, GenericArgsRef<'tcx>, DefId, bool)>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    fns: Vec<String>,
    envs: Vec<TypingEnv<'tcx>>,
}

fn sname(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!({
        match tcx.def_kind(d) {
            DefKind::Closure | DefKind::SyntheticCoroutineBody => {
                let p = tcx.parent(d);
                let k = tcx.def_key(d);
                format!("{}::{{closure#{}}}", sname(tcx, p), k.disambiguated_data.disambiguator)
            }
            DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy => {
                let p = tcx.parent(d);
                if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let base = tyname(tcx, st);
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        format!("<{} as {}>::{}", base, tcx.def_path_str(tr.def_id), tcx.item_name(d))
                    } else {
                        format!("{}::{}", base, tcx.item_name(d))
                    }
                } else {
                    format!("{}::{}", tcx.def_path_str(p), tcx.item_name(d))
                }
            }
            _ => tcx.def_path_str(d),
        }
    })
}

fn tyname<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    with_no_trimmed_paths!(match t.kind() {
        ty::Adt(a, _) => tcx.def_path_str(a.did()),
        ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, tyname(tcx, *t)),
        ty::RawPtr(t, m) => format!("*{} {}", if m.is_mut() { "mut" } else { "const" }, tyname(tcx, *t)),
        _ => t.to_string(),
    })
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let tcx = self.tcx;
        let s = with_no_trimmed_paths!(t.to_string());
        let mut o = format!("{{\"s\":{}", esc(&s));
        let needs_drop = t.needs_drop(tcx, env);
        let _ = write!(o, ",\"nd\":{}", needs_drop);
        match t.kind() {
            ty::Adt(a, args) => {
                let _ = write!(o, ",\"k\":\"adt\",\"adt\":{}", esc(&with_no_trimmed_paths!(tcx.def_path_str(a.did()))));
                let mut l = vec![];
                let mut c = vec![];
                for g in args.iter() {
                    match g.kind() {
                        GenericArgKind::Type(t) => l.push(self.ty(t, env).to_string()),
                        GenericArgKind::Const(k) => c.push(esc(&with_no_trimmed_paths!(k.to_string()))),
                        _ => {}
                    }
                }
                let _ = write!(o, ",\"a\":[{}],\"c\":[{}]", l.join(","), c.join(","));
                if a.did().is_local() || a.is_enum() {
                    if a.is_enum() {
                        let v: Vec<String> = a.variants().iter().map(|v| esc(v.name.as_str())).collect();
                        let _ = write!(o, ",\"variants\":[{}]", v.join(","));
                        let dv: Vec<String> = a.discriminants(tcx).map(|(_, d)| d.val.to_string()).collect();
                        let _ = write!(o, ",\"discrs\":[{}]", dv.join(","));
                    }
                }
                if a.did().is_local() {
                    let mut vs = vec![];
                    for v in a.variants().iter() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = tcx.try_normalize_erasing_regions(env, ft).unwrap_or(f.ty(tcx, args).skip_norm_wip());
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), self.ty(ft, env)));
                        }
                        vs.push(format!("[{}]", fs.join(",")));
                    }
                    let _ = write!(o, ",\"fields\":[{}],\"local\":true", vs.join(","));
                }
            }
            ty::Ref(_, t, m) => {
                let _ = write!(o, ",\"k\":\"ref\",\"mut\":{},\"a\":[{}]", m.is_mut(), self.ty(*t, env));
            }
            ty::RawPtr(t, m) => {
                let _ = write!(o, ",\"k\":\"ptr\",\"mut\":{},\"a\":[{}]", m.is_mut(), self.ty(*t, env));
            }
            ty::Tuple(ts) => {
                let l: Vec<String> = ts.iter().map(|t| self.ty(t, env).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"a\":[{}]", l.join(","));
            }
            ty::Array(t, _) | ty::Slice(t) => {
                let _ = write!(o, ",\"k\":\"array\",\"a\":[{}]", self.ty(*t, env));
            }
            ty::Param(_) => { let _ = write!(o, ",\"k\":\"param\""); }
            ty::Closure(d, _) => {
                let _ = write!(o, ",\"k\":\"closure\",\"def\":{}", esc(&sname(tcx, *d)));
            }
            ty::Coroutine(d, _) => {
                let _ = write!(o, ",\"k\":\"coroutine\",\"def\":{}", esc(&sname(tcx, *d)));
            }
            ty::FnDef(d, _) => {
                let _ = write!(o, ",\"k\":\"fndef\",\"def\":{}", esc(&sname(tcx, *d)));
            }
            ty::FnPtr(..) => { let _ = write!(o, ",\"k\":\"fnptr\""); }
            ty::Dynamic(..) => { let _ = write!(o, ",\"k\":\"dyn\""); }
            _ => { let _ = write!(o, ",\"k\":\"other\""); }
        }
        if needs_drop {
            let mut out = vec![];
            let mut seen = vec![];
            self.glue(t, env, &mut out, &mut seen, 0);
            let _ = write!(o, ",\"glue\":[{}]", out.join(","));
        }
        o.push('}');
        self.ty_out[i] = o;
        i
    }

    /// The destructors that dropping a value of the type runs, in order.
    fn glue(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>, out: &mut Vec<String>, seen: &mut Vec<Ty<'tcx>>, depth: usize) {
        let tcx = self.tcx;
        if depth > 12 || seen.contains(&t) || !t.needs_drop(tcx, env) {
            return;
        }
        seen.push(t);
        match t.kind() {
            ty::Adt(a, args) => {
                if a.is_manually_drop() { return; }
                if let Some(d) = tcx.adt_destructor(a.did()) {
                    // Resolve <T as Drop>::drop for these arguments.
                    let impl_args: GenericArgsRef<'tcx> = args;
                    if d.did.is_local() {
                        // Drop impls are never specialised: same parameters as the type's.
                        let r = CUR_ROOT.with(|c| c.get()).unwrap_or(d.did);
                        let id = self.id(d.did, impl_args, r, false);
                        out.push(format!("{{\"id\":{},\"n\":{}}}", id, esc(&sname(tcx, d.did))));
                    } else {
                        out.push(format!("{{\"n\":{},\"t\":{}}}", esc(&sname(tcx, d.did)), esc(&with_no_trimmed_paths!(t.to_string()))));
                        if !a.is_box() {
                            // Containers such as Vec drop their elements.
                            for g in args.iter() {
                                if let GenericArgKind::Type(x) = g.kind() {
                                    self.glue(x, env, out, seen, depth + 1);
                                }
                            }
                        }
                    }
                }
                if a.is_box() {
                    self.glue(t.boxed_ty().unwrap(), env, out, seen, depth + 1);
                    return;
                }
                for v in a.variants().iter() {
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = tcx.try_normalize_erasing_regions(env, ft).unwrap_or(f.ty(tcx, args).skip_norm_wip());
                        self.glue(ft, env, out, seen, depth + 1);
                    }
                }
            }
            ty::Tuple(ts) => for x in ts.iter() { self.glue(x, env, out, seen, depth + 1); },
            ty::Array(x, _) | ty::Slice(x) => self.glue(*x, env, out, seen, depth + 1),
            ty::Closure(_, args) => {
                for x in args.as_closure().upvar_tys().iter() { self.glue(x, env, out, seen, depth + 1); }
            }
            ty::Coroutine(d, args) => {
                out.push(format!("{{\"cor\":{}}}", esc(&sname(tcx, *d))));
                for x in args.as_coroutine().upvar_tys().iter() { self.glue(x, env, out, seen, depth + 1); }
            }
            _ => out.push(format!("{{\"user\":{}}}", esc(&with_no_trimmed_paths!(t.to_string())))),
        }
    }

    fn id(&mut self, d: DefId, args: GenericArgsRef<'tcx>, root: DefId, is_root: bool) -> usize {
        let args = self.tcx.erase_and_anonymize_regions(args);
        if let Some(i) = self.ids.get(&(d, args)) {
            return *i;
        }
        let i = self.ids.len();
        self.ids.insert((d, args), i);
        self.queue.push_back((i, d, args, root, is_root));
        i
    }

    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            o => format!("{o:?}"),
        };
        format!("{}:{}", f, lo.line)
    }

    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>, inst: &Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        if p.projection.is_empty() {
            return format!("[{}]", p.local.as_u32());
        }
        let mut o = format!("[{}", p.local.as_u32());
        let mut pt = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let bt = self.norm(pt.ty, inst, env);
                    let (mut nm, mut own) = (f.as_u32().to_string(), String::new());
                    match bt.kind() {
                        ty::Adt(a, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if a.is_struct() || a.is_union() || pt.variant_index.is_some() {
                                nm = a.variant(v).fields[f].name.to_string();
                            }
                            own = with_no_trimmed_paths!(tcx.def_path_str(a.did()));
                            if a.is_enum() { own = format!("{}::{}", own, a.variant(v).name); }
                        }
                        ty::Closure(..) | ty::Coroutine(..) => own = "{closure}".into(),
                        _ => {}
                    }
                    let _ = write!(o, ",[\"f\",{},{},{}]", f.as_u32(), esc(&nm), esc(&own));
                }
                ProjectionElem::Downcast(n, v) => {
                    let _ = write!(o, ",[\"d\",{},{}]", v.as_u32(), esc(&n.map(|n| n.to_string()).unwrap_or_default()));
                }
                ProjectionElem::Index(l) => { let _ = write!(o, ",[\"i\",{}]", l.as_u32()); }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => { let _ = write!(o, ",[\"ci\",{},{}]", offset, from_end); }
                _ => o.push_str(",[\"o\"]"),
            }
            pt = pt.projection_ty(tcx, e);
        }
        o.push(']');
        o
    }

    fn norm<T>(&self, t: T, inst: &Instance<'tcx>, env: TypingEnv<'tcx>) -> T
    where T: rustc_middle::ty::TypeFoldable<TyCtxt<'tcx>> + Copy {
        let eb = ty::EarlyBinder::bind(self.tcx, t);
        match inst.try_instantiate_mir_and_normalize_erasing_regions(self.tcx, env, eb) {
            Ok(t) => t,
            Err(_) => self.tcx.erase_and_anonymize_regions(inst.instantiate_mir(self.tcx, ty::EarlyBinder::bind(self.tcx, t))),
        }
    }

    /// The integer fields of a constant (or a reference to a constant) of a struct that has nothing else.
    fn const_fields(&self, k: Const<'tcx>, env: TypingEnv<'tcx>) -> Option<Vec<u128>> {
        use rustc_middle::mir::ConstValue;
        use rustc_middle::mir::interpret::{Scalar, alloc_range};
        let t = k.ty();
        let (t, by_ref) = match t.kind() {
            ty::Ref(_, t, _) => (*t, true),
            _ => (t, false),
        };
        let ty::Adt(def, args) = t.kind() else { return None };
        if !def.is_struct() || def.non_enum_variant().fields.is_empty() {
            return None;
        }
        let layout = self.tcx.layout_of(env.as_query_input(t)).ok()?;
        let (id, off) = match k.eval(self.tcx, env, rustc_span::DUMMY_SP).ok()? {
            ConstValue::Indirect { alloc_id, offset } if !by_ref => (alloc_id, offset),
            ConstValue::Scalar(Scalar::Ptr(p, _)) if by_ref => {
                let (prov, offset) = p.prov_and_relative_offset();
                (prov.alloc_id(), offset)
            }
            _ => return None,
        };
        let alloc = self.tcx.try_get_global_alloc(id)?.unwrap_memory().inner();
        let mut l = vec![];
        for (i, fd) in def.non_enum_variant().fields.iter().enumerate() {
            let ft = self.tcx.normalize_erasing_regions(env, fd.ty(self.tcx, args));
            if !ft.is_integral() {
                return None;
            }
            let fl = self.tcx.layout_of(env.as_query_input(ft)).ok()?;
            let r = alloc_range(off + layout.fields.offset(i), fl.size);
            l.push(alloc.read_scalar(&self.tcx, r, false).ok()?.to_bits(fl.size).discard_err()?);
        }
        Some(l)
    }

    fn operand(&mut self, b: &Body<'tcx>, op: &Operand<'tcx>, inst: &Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(b, p, inst, env)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(b, p, inst, env)),
            Operand::RuntimeChecks(c) => format!("{{\"k\":{},\"rt\":true}}", esc(&format!("{c:?}"))),
            Operand::Constant(c) => {
                let k = self.norm(c.const_, inst, env);
                let t = k.ty();
                let ti = self.ty(t, env);
                let s = with_no_trimmed_paths!(format!("{}", k));
                let mut o = format!("{{\"k\":{},\"t\":{}", esc(&s), ti);
                if let ty::FnDef(d, args) = t.kind() {
                    let (d, args) = (*d, args.skip_binder());
                    let _ = write!(o, ",\"fn\":{}", self.callee(d, args, inst, env));
                } else if let Some(l) = self.const_fields(k, env) {
                    let l: Vec<String> = l.iter().map(|v| format!("\"{v}\"")).collect();
                    let _ = write!(o, ",\"vs\":[{}]", l.join(","));
                } else if !matches!(t.kind(), ty::Ref(..) | ty::RawPtr(..)) {
                    if let Some(v) = k.try_eval_bits(self.tcx, env) {
                        let _ = write!(o, ",\"v\":\"{}\"", v);
                    }
                    if let Const::Unevaluated(u, _) = k {
                        let _ = write!(o, ",\"cn\":{}", esc(&sname(self.tcx, u.def)));
                    }
                    if let Const::Unevaluated(u, _) = c.const_ {
                        let _ = write!(o, ",\"cn0\":{}", esc(&sname(self.tcx, u.def)));
                    }
                }
                o.push('}');
                o
            }
        }
    }

    fn args_json(&mut self, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut l = vec![];
        for g in args.iter() {
            match g.kind() {
                GenericArgKind::Type(t) => l.push(self.ty(t, env).to_string()),
                GenericArgKind::Const(k) => {
                    let v = k.try_to_target_usize(self.tcx).map(|v| v.to_string());
                    let s = with_no_trimmed_paths!(k.to_string());
                    l.push(esc(&format!("const {}", v.unwrap_or(s))));
                }
                _ => {}
            }
        }
        format!("[{}]", l.join(","))
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, _inst: &Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"n\":{}", esc(&sname(tcx, d)));
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push_str(",\"ctor\":true}");
            return o;
        }
        let mut res = Instance::try_resolve(tcx, env, d, args);
        if matches!(res, Ok(None)) && tcx.trait_of_assoc(d).is_some() {
            // The root that reached this instance first may lack bounds that other roots state.
            for e in self.envs.clone() {
                if let Ok(Some(i)) = Instance::try_resolve(tcx, e, d, args) {
                    if matches!(i.def, InstanceKind::Item(x) if x.is_local()) {
                        res = Ok(Some(i));
                        break;
                    }
                }
            }
        }
        match res {
            Ok(Some(i)) => {
                let (rd, ra, how) = match i.def {
                    InstanceKind::Item(x) => (Some(x), i.args, "item"),
                    InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) => {
                        // Call through FnOnce shim: the closure's own body.
                        let st = args.type_at(0);
                        match st.kind() {
                            ty::Closure(_, ca) => (Some(closure), *ca, "once"),
                            _ => (Some(closure), i.args, "once"),
                        }
                    }
                    InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => (None, i.args, "fnptr"),
                    InstanceKind::Shim(ty::ShimKind::Clone(..)) => (None, i.args, "cloneshim"),
                    InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => (None, i.args, "dropglue"),
                    InstanceKind::Intrinsic(..) => (None, i.args, "intrinsic"),
                    InstanceKind::Virtual(..) => (None, i.args, "virtual"),
                    _ => (None, i.args, "shim"),
                };
                let _ = write!(o, ",\"how\":\"{}\"", how);
                if let Some(x) = rd {
                    if x != d { let _ = write!(o, ",\"rn\":{}", esc(&sname(tcx, x))); }
                    if x.is_local() && tcx.is_mir_available(x) && !matches!(tcx.def_kind(x), DefKind::Ctor(..)) {
                        let id = self.id(x, ra, CUR_ROOT.with(|c| c.get()).unwrap(), false);
                        let _ = write!(o, ",\"id\":{}", id);
                    }
                }
            }
            Ok(None) => { o.push_str(",\"how\":\"unresolved\""); }
            Err(_) => { o.push_str(",\"how\":\"err\""); }
        }
        let _ = write!(o, ",\"ga\":{}", self.args_json(args, env));
        o.push('}');
        o
    }

    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>, inst: &Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(b, o, inst, env)),
            Rvalue::Repeat(o, _) => format!("[\"repeat\",{}]", self.operand(b, o, inst, env)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",\"{}\",{}]", match bk { BorrowKind::Mut { .. } => "mut", BorrowKind::Shared => "sh", _ => "fake" }, self.place(b, p, inst, env)),
            Rvalue::RawPtr(k, p) => format!("[\"raw\",\"{}\",{}]", match k { RawPtrKind::Mut => "mut", RawPtrKind::Const => "const", _ => "meta" }, self.place(b, p, inst, env)),
            Rvalue::Cast(k, o, t) => {
                let t = self.norm(*t, inst, env);
                let ti = self.ty(t, env);
                format!("[\"cast\",{},{},{}]", esc(&format!("{k:?}")), self.operand(b, o, inst, env), ti)
            }
            Rvalue::BinaryOp(op, ab) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(b, &ab.0, inst, env), self.operand(b, &ab.1, inst, env)),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(b, a, inst, env)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(b, p, inst, env)),
            Rvalue::Aggregate(k, ops) => {
                let l: Vec<String> = ops.iter().map(|o| self.operand(b, o, inst, env)).collect();
                let kind = match &**k {
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let a = self.tcx.adt_def(*d);
                        let p = with_no_trimmed_paths!(self.tcx.def_path_str(*d));
                        let fl: Vec<String> = a.variant(*v).fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!("{{\"adt\":{},\"v\":{},\"vn\":{},\"fs\":[{}]}}", esc(&p), v.as_u32(), esc(a.variant(*v).name.as_str()), fl.join(","))
                    }
                    AggregateKind::Closure(d, args) => {
                        let args = self.norm(*args, inst, env);
                        let id = if d.is_local() { self.id(*d, args, CUR_ROOT.with(|c| c.get()).unwrap(), false) as i64 } else { -1 };
                        format!("{{\"closure\":{},\"id\":{}}}", esc(&sname(self.tcx, *d)), id)
                    }
                    AggregateKind::Coroutine(d, args) => {
                        let args = self.norm(*args, inst, env);
                        let id = if d.is_local() { self.id(*d, args, CUR_ROOT.with(|c| c.get()).unwrap(), false) as i64 } else { -1 };
                        format!("{{\"coroutine\":{},\"id\":{}}}", esc(&sname(self.tcx, *d)), id)
                    }
                    AggregateKind::Tuple => "{\"tuple\":true}".to_string(),
                    AggregateKind::Array(_) => "{\"array\":true}".to_string(),
                    _ => "{\"other\":true}".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kind, l.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(b, p, inst, env)),
            Rvalue::ThreadLocalRef(_) => "[\"other\",\"tls\"]".into(),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",\"{}\",{}]", if m.is_mut() { "mut" } else { "sh" }, self.place(b, p, inst, env)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(b, o, inst, env)),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, inst: &Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut o = String::new();
        let ua = |u: &UnwindAction| match u {
            UnwindAction::Cleanup(b) => b.as_u32().to_string(),
            UnwindAction::Continue => "-1".into(),
            _ => "-2".into(),
        };
        let mut ls = vec![];
        let mut names: HashMap<u32, String> = HashMap::new();
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names.insert(p.local.as_u32(), v.name.to_string()); }
                else { dbg.push(format!("[{},{}]", esc(v.name.as_str()), self.place(b, p, inst, env))); }
            }
        }
        for (i, l) in b.local_decls.iter_enumerated() {
            let t = self.norm(l.ty, inst, env);
            let ti = self.ty(t, env);
            match names.get(&i.as_u32()) {
                Some(n) => ls.push(format!("[{},{}]", ti, esc(n))),
                None => ls.push(format!("[{}]", ti)),
            }
        }
        let _ = write!(o, "\"argc\":{},\"locals\":[{}],\"dbg\":[{}],\"bb\":[", b.arg_count, ls.join(","), dbg.join(","));
        for (bi, bb) in b.basic_blocks.iter_enumerated() {
            if bi.as_u32() > 0 { o.push(','); }
            let _ = write!(o, "{{\"cl\":{},\"s\":[", bb.is_cleanup);
            let mut first = true;
            for s in &bb.statements {
                let j = match &s.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        format!("[\"=\",{},{},{}]", self.place(b, p, inst, env), self.rvalue(b, r, inst, env), esc(&self.span(s.source_info.span)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"setd\",{},{}]", self.place(b, place, inst, env), variant_index.as_u32()),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_u32()),
                    StatementKind::StorageLive(l) => format!("[\"live\",{}]", l.as_u32()),
                    StatementKind::Intrinsic(i) => format!("[\"intr\",{}]", esc(&format!("{i:?}"))),
                    _ => continue,
                };
                if !first { o.push(','); }
                first = false;
                o.push_str(&j);
            }
            let t = bb.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"g\":{}}}", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> = targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_u32())).collect();
                    format!("{{\"sw\":{},\"ts\":[{}],\"o\":{}}}", self.operand(b, discr, inst, env), ts.join(","), targets.otherwise().as_u32())
                }
                TerminatorKind::UnwindResume => "{\"r\":\"unwind\"}".into(),
                TerminatorKind::UnwindTerminate(_) => "{\"r\":\"abort\"}".into(),
                TerminatorKind::Return => "{\"r\":\"ret\"}".into(),
                TerminatorKind::Unreachable => "{\"r\":\"unreachable\"}".into(),
                TerminatorKind::CoroutineDrop => "{\"r\":\"cordrop\"}".into(),
                TerminatorKind::Drop { place, target, unwind, replace, .. } => {
                    let pt = place.ty(b, self.tcx).ty;
                    let pt = self.norm(pt, inst, env);
                    let ti = self.ty(pt, env);
                    format!("{{\"drop\":{},\"ty\":{},\"t\":{},\"u\":{},\"rep\":{}}}", self.place(b, place, inst, env), ti, target.as_u32(), ua(unwind), replace)
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(b, func, inst, env);
                    let l: Vec<String> = args.iter().map(|a| self.operand(b, &a.node, inst, env)).collect();
                    format!("{{\"call\":{},\"a\":[{}],\"d\":{},\"t\":{},\"u\":{}}}", f, l.join(","), self.place(b, destination, inst, env), target.map(|t| t.as_u32() as i64).unwrap_or(-1), ua(unwind))
                }
                TerminatorKind::TailCall { .. } => "{\"r\":\"tail\"}".into(),
                TerminatorKind::Assert { cond, expected, target, unwind, msg } => {
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        _ => "other",
                    };
                    format!("{{\"as\":{},\"e\":{},\"t\":{},\"u\":{},\"mk\":\"{}\"}}", self.operand(b, cond, inst, env), expected, target.as_u32(), ua(unwind), kind)
                }
                TerminatorKind::Yield { value, resume, resume_arg, drop } => {
                    format!("{{\"y\":{},\"t\":{},\"ra\":{},\"dr\":{}}}", self.operand(b, value, inst, env), resume.as_u32(), self.place(b, resume_arg, inst, env), drop.map(|t| t.as_u32() as i64).unwrap_or(-1))
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"g\":{}}}", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"g\":{}}}", real_target.as_u32()),
                TerminatorKind::InlineAsm { .. } => "{\"r\":\"asm\"}".into(),
            };
            let _ = write!(o, "],\"t\":{},\"sp\":{}}}", tj, sp);
        }
        o.push(']');
        o
    }
}

thread_local! {
    static CUR_ROOT: std::cell::Cell<Option<DefId>> = std::cell::Cell::new(None);
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) {
        c.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_drops_elaborated_and_const_checked);
            p.queries.mir_drops_elaborated_and_const_checked = my_drops;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(out) = std::env::var("SCCFACTS_OUT") {
            dump(tcx, &out);
        }
        Compilation::Continue
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let ev = tcx.effective_visibilities(());
    let mut cx = Cx { tcx, ids: HashMap::new(), queue: VecDeque::new(), tys: HashMap::new(), ty_out: vec![], fns: vec![], envs: vec![] };
    let mut all = vec![];
    for d in tcx.mir_keys(()) {
        let did = d.to_def_id();
        let k = tcx.def_kind(did);
        all.push(format!("{{\"n\":{},\"k\":{},\"sp\":{}}}", esc(&sname(tcx, did)), esc(&format!("{k:?}")), esc(&cx.span(tcx.def_span(did)))));
        if !matches!(k, DefKind::Fn | DefKind::AssocFn) { continue; }
        let p = tcx.parent(did);
        let root = match tcx.def_kind(p) {
            DefKind::Impl { of_trait: true } => true,
            DefKind::Impl { of_trait: false } | DefKind::Mod => ev.is_reachable(*d),
            _ => false,
        };
        if root {
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            cx.id(did, args, did, true);
            let e = TypingEnv::post_analysis(tcx, did);
            if !cx.envs.contains(&e) { cx.envs.push(e); }
        }
    }
    while let Some((i, d, args, root, is_root)) = cx.queue.pop_front() {
        CUR_ROOT.with(|c| c.set(Some(root)));
        let ld = match d.as_local() { Some(l) => l, None => continue };
        let env = TypingEnv::post_analysis(tcx, root);
        let inst = Instance { def: InstanceKind::Item(d), args };
        let is_cor = tcx.is_coroutine(d);
        let b: Body<'tcx> = {
            let om = tcx.optimized_mir(d);
            if is_cor {
                let x: Option<Body<'static>> = PRE.with(|p| p.borrow().get(&ld).cloned());
                match x { Some(x) => unsafe { std::mem::transmute(x) }, None => om.clone() }
            } else { om.clone() }
        };
        let mut o = format!("{{\"id\":{},\"n\":{},\"root\":{},\"cor\":{}", i, esc(&sname(tcx, d)), is_root, is_cor);
        let k = tcx.def_kind(d);
        let fnd = if matches!(k, DefKind::Fn | DefKind::AssocFn) { Some(d) } else { None };
        if let Some(f) = fnd {
            let sig = tcx.fn_sig(f).instantiate_identity().skip_norm_wip();
            let _ = write!(o, ",\"unsafe\":{},\"async\":{}", !sig.safety().is_safe(), tcx.asyncness(f).is_async());
            let _ = write!(o, ",\"pub\":{}", ev.is_reachable(ld));
            let _ = write!(o, ",\"sig\":{}", esc(&with_no_trimmed_paths!(sig.to_string())));
        }
        let p = tcx.parent(d);
        let _ = write!(o, ",\"parent\":{}", esc(&if matches!(k, DefKind::Closure) { sname(tcx, p) } else { with_no_trimmed_paths!(tcx.def_path_str(p)) }));
        let _ = write!(o, ",\"ga\":{}", cx.args_json(args, env));
        let _ = write!(o, ",\"sp\":{},", esc(&cx.span(tcx.def_span(d))));
        let bj = cx.body(&b, &inst, env);
        o.push_str(&bj);
        o.push('}');
        if cx.fns.len() <= i { cx.fns.resize(i + 1, String::new()); }
        cx.fns[i] = o;
        if cx.ids.len() > 60000 { panic!("instance explosion"); }
    }
    let fns: Vec<&String> = cx.fns.iter().filter(|f| !f.is_empty()).collect();
    let mut s = String::new();
    s.push_str("{\"all\":[");
    s.push_str(&all.join(",\n"));
    s.push_str("],\n\"types\":[");
    s.push_str(&cx.ty_out.join(",\n"));
    s.push_str("],\n\"fns\":[");
    for (i, f) in fns.iter().enumerate() {
        if i > 0 { s.push_str(",\n"); }
        s.push_str(f);
    }
    s.push_str("]}\n");
    let tmp = format!("{out}.tmp");
    std::fs::write(&tmp, s).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

struct N;
impl Callbacks for N {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "scc")
        && std::env::var("SCCFACTS_OUT").is_ok();
    if is {
        args.push("-Zmir-opt-level=0".into());
        args.push("--cap-lints=allow".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
