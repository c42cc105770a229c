use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tmap: HashMap<Ty<'tcx>, usize>,
    files: Vec<String>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i64)
}

macro_rules! noerr {
    ($e:expr) => {
        rustc_middle::ty::print::with_resolve_crate_name!(
            rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!($e))
        )
    };
}

pub fn run<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new(), files: vec![] };
    let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    owners.sort_by_key(|d| tcx.def_path_hash(d.to_def_id()));
    // functions first (constants may be stolen by const-eval on the way)
    let mut bodies: Vec<(LocalDefId, Body<'tcx>, Vec<Body<'tcx>>, &'static str)> = vec![];
    for &d in &owners {
        let kind = tcx.def_kind(d);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody => {}
            _ => continue,
        }
        let (b, p) = tcx.mir_promoted(d);
        if !b.is_stolen() && !p.is_stolen() {
            let body = b.borrow().clone();
            let proms: Vec<Body<'tcx>> = p.borrow().iter().cloned().collect();
            bodies.push((d, body, proms, "promoted"));
        } else if tcx.is_const_fn(d.to_def_id()) {
            let body = tcx.mir_for_ctfe(d).clone();
            let proms = tcx.promoted_mir(d.to_def_id()).iter().cloned().collect();
            bodies.push((d, body, proms, "ctfe"));
        } else {
            let body = tcx.optimized_mir(d).clone();
            let proms = tcx.promoted_mir(d.to_def_id()).iter().cloned().collect();
            bodies.push((d, body, proms, "optimized"));
        }
    }
    // consts and statics
    for &d in &owners {
        let kind = tcx.def_kind(d);
        match kind {
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {}
            _ => continue,
        }
        let (b, p) = tcx.mir_promoted(d);
        if !b.is_stolen() && !p.is_stolen() {
            let body = b.borrow().clone();
            let proms: Vec<Body<'tcx>> = p.borrow().iter().cloned().collect();
            bodies.push((d, body, proms, "promoted"));
        } else {
            let body = tcx.mir_for_ctfe(d).clone();
            let proms = tcx.promoted_mir(d.to_def_id()).iter().cloned().collect();
            bodies.push((d, body, proms, "ctfe"));
        }
    }
    let mut fns = vec![];
    for (d, b, proms, how) in &bodies {
        let f = cx.func(*d, b, how);
        fns.push(f);
        let base = cx.path(d.to_def_id());
        for (i, p) in proms.iter().enumerate() {
            let j = cx.body_common(d.to_def_id(), p);
            let mut v: Vec<(&'static str, J)> =
                vec![("id", s(format!("{}::promoted[{}]", base, i))), ("kind", s("promoted"))];
            v.extend(j);
            fns.push(J::O(v));
        }
    }
    // named constants with values
    let mut consts = vec![];
    for &d in &owners {
        match tcx.def_kind(d) {
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {}
            _ => continue,
        }
        if tcx.generics_of(d).requires_monomorphization(tcx) {
            continue;
        }
        let ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let val = match tcx.const_eval_poly(d.to_def_id()) {
            Ok(v) => cx.constval(v, ty, 0),
            Err(_) => J::Null,
        };
        let tyi = cx.ty(ty);
        consts.push(J::O(vec![("id", s(cx.path(d.to_def_id()))), ("ty", n(tyi)), ("val", val)]));
    }
    // adts, impls, traits
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    let ev = tcx.effective_visibilities(());
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(did);
                let mut variants = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fields = vec![];
                    for f in v.fields.iter() {
                        let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let t = cx.ty(fty);
                        fields.push(J::O(vec![
                            ("name", s(f.name.to_string())),
                            ("ty", n(t)),
                            ("vis", s(cx.vis(f.did))),
                        ]));
                    }
                    let disc = if def.is_enum() {
                        s(def.discriminant_for_variant(tcx, vi).val.to_string())
                    } else {
                        J::Null
                    };
                    variants.push(J::O(vec![
                        ("name", s(v.name.to_string())),
                        ("disc", disc),
                        ("fields", J::A(fields)),
                    ]));
                }
                let (file, lo, _) = cx.span(tcx.def_span(did));
                adts.push(J::O(vec![
                    ("id", s(cx.path(did))),
                    ("kind", s(if def.is_enum() { "enum" } else { "struct" })),
                    ("vis", s(cx.vis(did))),
                    ("reach", J::B(ev.is_reachable(id))),
                    ("file", n(file)),
                    ("line", n(lo)),
                    ("variants", J::A(variants)),
                ]));
            }
            DefKind::Impl { of_trait } => {
                let self_ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let st = cx.ty(self_ty);
                let tr = if of_trait {
                    let t = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    let p = cx.path(t.def_id);
                    let full = noerr!(format!("{:?}", t));
                    J::A(vec![s(p), s(full)])
                } else {
                    J::Null
                };
                let mut items = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    let ti = match it.trait_item_def_id() {
                        Some(t) => s(cx.path(t)),
                        _ => J::Null,
                    };
                    items.push(J::A(vec![s(cx.path(it.def_id)), ti, s(it.name().to_string())]));
                }
                let (file, lo, _) = cx.span(tcx.def_span(did));
                let derived = tcx.is_builtin_derived(did);
                impls.push(J::O(vec![
                    ("id", s(cx.path(did))),
                    ("self", n(st)),
                    ("trait", tr),
                    ("items", J::A(items)),
                    ("derived", J::B(derived)),
                    ("file", n(file)),
                    ("line", n(lo)),
                ]));
            }
            DefKind::Trait => {
                let mut items = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    items.push(J::A(vec![
                        s(cx.path(it.def_id)),
                        J::B(it.defaultness(tcx).has_value()),
                        s(it.name().to_string()),
                    ]));
                }
                traits.push(J::O(vec![("id", s(cx.path(did))), ("items", J::A(items))]));
            }
            _ => {}
        }
    }
    let o = J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("fns", J::A(fns)),
        ("consts", J::A(consts)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("traits", J::A(traits)),
        ("types", J::A(cx.types)),
        ("files", J::A(cx.files.into_iter().map(J::S).collect())),
    ]);
    let mut buf = String::new();
    o.write(&mut buf);
    let tmp = format!("{}.tmp{}", out, std::process::id());
    std::fs::write(&tmp, buf).expect("write facts");
    std::fs::rename(&tmp, out).expect("rename facts");
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        noerr!(self.tcx.def_path_str(d))
    }

    fn vis(&self, d: DefId) -> String {
        match self.tcx.visibility(d) {
            ty::Visibility::Public => "pub".into(),
            ty::Visibility::Restricted(m) => {
                if m.is_crate_root() {
                    "crate".into()
                } else {
                    format!("in {}", self.path(m.to_def_id()))
                }
            }
        }
    }

    fn span(&mut self, sp: Span) -> (usize, usize, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let hi = sm.lookup_char_pos(sp.hi());
        let f = lo.file.name.prefer_remapped_unconditionally().to_string();
        let fi = match self.files.iter().position(|x| *x == f) {
            Some(i) => i,
            None => {
                self.files.push(f);
                self.files.len() - 1
            }
        };
        (fi, lo.line, hi.line)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tmap.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tmap.insert(t, i);
        let disp = noerr!(format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![("s", s(disp))];
        let kids = |cx: &mut Self, a: &ty::GenericArgs<'tcx>| -> J {
            J::A(a.types().map(|x| n(cx.ty(x))).collect())
        };
        match *t.kind() {
            ty::Bool | ty::Char | ty::Str | ty::Never => o.push(("k", s("prim"))),
            ty::Int(_) | ty::Uint(_) | ty::Float(_) => o.push(("k", s("num"))),
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("d", s(self.path(def.did()))));
                let a = kids(self, args);
                o.push(("a", a));
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s(if m.is_mut() { "mutref" } else { "ref" })));
                let x = self.ty(inner);
                o.push(("a", J::A(vec![n(x)])));
            }
            ty::RawPtr(inner, _) => {
                o.push(("k", s("ptr")));
                let x = self.ty(inner);
                o.push(("a", J::A(vec![n(x)])));
            }
            ty::Slice(inner) => {
                o.push(("k", s("slice")));
                let x = self.ty(inner);
                o.push(("a", J::A(vec![n(x)])));
            }
            ty::Array(inner, len) => {
                o.push(("k", s("array")));
                let x = self.ty(inner);
                o.push(("a", J::A(vec![n(x)])));
                if let Some(l) = len.try_to_target_usize(self.tcx) {
                    o.push(("len", J::N(l as i64)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|x| n(self.ty(x))).collect();
                o.push(("a", J::A(v)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("d", s(self.path(d))));
                let _ = args;
            }
            ty::Coroutine(d, _) => {
                o.push(("k", s("coroutine")));
                o.push(("d", s(self.path(d))));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("d", s(self.path(d))));
                let a = kids(self, args.skip_binder());
                o.push(("a", a));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("d", s(p.name.to_string())));
            }
            ty::Dynamic(preds, _) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("d", s(self.path(p))));
                }
            }
            _ => o.push(("k", s("other"))),
        }
        self.types[i] = J::O(o);
        i
    }

    fn func(&mut self, d: LocalDefId, b: &Body<'tcx>, how: &'static str) -> J {
        let tcx = self.tcx;
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        let k = match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "fn",
            DefKind::Closure => {
                if b.coroutine.is_some() {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            DefKind::SyntheticCoroutineBody => "coroutine",
            _ => "const",
        };
        let mut v: Vec<(&'static str, J)> = vec![("id", s(self.path(did))), ("kind", s(k)), ("mir", s(how))];
        if k == "fn" {
            v.push(("vis", s(self.vis(did))));
            let ev = tcx.effective_visibilities(());
            v.push(("reach", J::B(ev.is_reachable(d))));
            v.push(("async", J::B(tcx.asyncness(did).is_async())));
            v.push(("constfn", J::B(tcx.is_const_fn(did))));
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let sti = self.ty(st);
                v.push(("self_ty", n(sti)));
                v.push(("derived", J::B(tcx.is_builtin_derived(imp))));
                if tcx.def_kind(imp) == (DefKind::Impl { of_trait: true }) {
                    let t = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
                    v.push(("trait", s(self.path(t.def_id))));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(did) {
                v.push(("in_trait", s(self.path(tr))));
            }
        }
        if k != "fn" && k != "const" {
            let parent = tcx.parent(did);
            v.push(("parent", s(self.path(parent))));
        }
        v.extend(self.body_common(did, b));
        J::O(v)
    }

    fn body_common(&mut self, did: DefId, b: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let (file, lo, hi) = self.span(b.span);
        let env = TypingEnv::post_analysis(self.tcx, did);
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv = vec![];
        for vi in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = vi.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert_with(|| vi.name.to_string());
                } else {
                    let pj = self.place(b, &p);
                    upv.push(J::A(vec![s(vi.name.to_string()), pj]));
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in b.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            match names.get(&l.as_usize()) {
                Some(nm) => locals.push(J::A(vec![n(t), s(nm.clone())])),
                None => locals.push(J::A(vec![n(t)])),
            }
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for stt in &bb.statements {
                if let Some(j) = self.stmt(b, env, stt) {
                    st.push(j);
                }
            }
            let t = self.term(did, b, env, bb.terminator());
            let mut o = vec![("s", J::A(st)), ("t", t)];
            if bb.is_cleanup {
                o.push(("c", J::B(true)));
            }
            blocks.push(J::O(o));
        }
        vec![
            ("file", n(file)),
            ("lo", n(lo)),
            ("hi", n(hi)),
            ("argc", n(b.arg_count)),
            ("spread", b.spread_arg.map_or(J::Null, |l| n(l.as_usize()))),
            ("locals", J::A(locals)),
            ("upv", J::A(upv)),
            ("blocks", J::A(blocks)),
        ]
    }

    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let nm = match pt.ty.kind() {
                        ty::Adt(def, _) if !def.is_union() => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if vi.as_usize() < def.variants().len() {
                                def.variant(vi).fields.get(f).map(|x| x.name.to_string())
                            } else {
                                None
                            }
                        }
                        _ => None,
                    };
                    let ad = match pt.ty.kind() {
                        ty::Adt(def, _) if !def.did().is_local() && !tcx.crate_name(def.did().krate).as_str().starts_with("sip") => J::Null,
                        ty::Adt(def, _) => s(self.path(def.did())),
                        _ => J::Null,
                    };
                    J::A(vec![s("f"), n(f.as_usize()), nm.map_or(J::Null, J::S), ad])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), J::N(offset as i64), J::N(min_length as i64), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::N(from as i64), J::N(to as i64), J::B(from_end)])
                }
                ProjectionElem::Downcast(nm, vi) => {
                    let nm = match (nm, pt.ty.kind()) {
                        (Some(x), _) => x.to_string(),
                        (None, ty::Adt(def, _)) => def.variant(vi).name.to_string(),
                        _ => format!("#{}", vi.as_usize()),
                    };
                    J::A(vec![s("d"), s(nm), n(vi.as_usize())])
                }
                ProjectionElem::OpaqueCast(_) => s("oc"),
                ProjectionElem::UnwrapUnsafeBinder(_) => s("ub"),
                _ => s("?"),
            };
            pr.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        if pr.is_empty() {
            n(p.local.as_usize())
        } else {
            J::A(vec![n(p.local.as_usize()), J::A(pr)])
        }
    }

    fn operand(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(b, p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(b, p)]),
            Operand::Constant(c) => self.constant(env, c),
            _ => J::A(vec![s("k"), J::O(vec![("rt", J::B(true))])]),
        }
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        let t = self.ty(ty);
        let mut o: Vec<(&'static str, J)> = vec![("ty", n(t))];
        if let ty::FnDef(d, args) = *ty.kind() {
            o.push(("fn", s(self.path(d))));
            let a: Vec<J> = args.skip_binder().types().map(|x| n(self.ty(x))).collect();
            o.push(("ga", J::A(a)));
            return J::A(vec![s("k"), J::O(o)]);
        }
        let mut promoted = false;
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                promoted = true;
                o.push(("prom", s(format!("{}::promoted[{}]", self.path(u.def), p.as_usize()))));
            } else {
                o.push(("named", s(self.path(u.def))));
            }
        }
        if let Some(d) = c.check_static_ptr(tcx) {
            o.push(("static", s(self.path(d))));
            return J::A(vec![s("k"), J::O(o)]);
        }
        let generic = rustc_middle::ty::TypeVisitableExt::has_non_region_param(&c.const_);
        if !generic {
            if !promoted {
                if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                    o.push(("v", self.constval(v, ty, 0)));
                }
            }
        }
        J::A(vec![s("k"), J::O(o)])
    }

    fn constval(&mut self, v: ConstValue, ty: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 6 {
            return J::Null;
        }
        match (v, ty.kind()) {
            (ConstValue::Scalar(Scalar::Int(i)), ty::Bool) => J::B(i.to_bits_unchecked() != 0),
            (ConstValue::Scalar(Scalar::Int(i)), ty::Char) => {
                let c = char::from_u32(i.to_bits_unchecked() as u32).unwrap_or('\u{fffd}');
                J::O(vec![("ch", J::N(c as i64))])
            }
            (ConstValue::Scalar(Scalar::Int(i)), ty::Uint(_)) => {
                J::O(vec![("i", s(i.to_bits_unchecked().to_string()))])
            }
            (ConstValue::Scalar(Scalar::Int(i)), ty::Int(_)) => {
                let x = i.to_int(i.size());
                J::O(vec![("i", s(x.to_string()))])
            }
            (ConstValue::Scalar(Scalar::Int(i)), ty::Float(_)) => {
                let b = i.to_bits_unchecked();
                let x = if i.size().bytes() == 8 { f64::from_bits(b as u64) } else { f32::from_bits(b as u32) as f64 };
                J::O(vec![("fl", s(format!("{:?}", x)))])
            }
            (ConstValue::Slice { alloc_id, meta }, ty::Ref(_, inner, _)) => match inner.kind() {
                ty::Str => match v.try_get_slice_bytes_for_diagnostics(tcx) {
                    Some(b) => J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))]),
                    None => J::Null,
                },
                ty::Slice(e) if *e == tcx.types.u8 => match v.try_get_slice_bytes_for_diagnostics(tcx) {
                    Some(b) => J::O(vec![("bytes", J::A(b.iter().map(|x| J::N(*x as i64)).collect()))]),
                    None => J::Null,
                },
                ty::Slice(e) => {
                    let at = Ty::new_array(tcx, *e, meta);
                    self.constval(
                        ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO },
                        at,
                        depth + 1,
                    )
                }
                _ => J::Null,
            },
            (ConstValue::Scalar(Scalar::Ptr(p, _)), ty::Ref(_, inner, _)) => {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                match tcx.try_get_global_alloc(aid) {
                    Some(GlobalAlloc::Memory(_)) => {
                        let x = self.constval(ConstValue::Indirect { alloc_id: aid, offset: off }, *inner, depth + 1);
                        x
                    }
                    _ => J::Null,
                }
            }
            (ConstValue::Indirect { alloc_id, offset }, ty::Ref(_, inner, _))
                if matches!(inner.kind(), ty::Str | ty::Slice(_)) =>
            {
                let alloc = match tcx.try_get_global_alloc(alloc_id) {
                    Some(GlobalAlloc::Memory(a)) => a.inner(),
                    _ => return J::Null,
                };
                let ps = tcx.data_layout.pointer_size();
                let p = alloc.read_scalar(&tcx, AllocRange { start: offset, size: ps }, true);
                let l = alloc.read_scalar(&tcx, AllocRange { start: offset + ps, size: ps }, false);
                match (p, l) {
                    (Ok(Scalar::Ptr(p, _)), Ok(Scalar::Int(l))) => {
                        let (prov, off) = p.into_raw_parts();
                        let len = l.to_bits_unchecked() as u64;
                        let aid = prov.alloc_id();
                        let al = match tcx.try_get_global_alloc(aid) {
                            Some(GlobalAlloc::Memory(a)) => a.inner(),
                            _ => return J::Null,
                        };
                        match inner.kind() {
                            ty::Str => {
                                let b = al.inspect_with_uninit_and_ptr_outside_interpreter(
                                    off.bytes_usize()..off.bytes_usize() + len as usize,
                                );
                                J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))])
                            }
                            ty::Slice(e) => {
                                let at = Ty::new_array(tcx, *e, len);
                                self.constval(ConstValue::Indirect { alloc_id: aid, offset: off }, at, depth + 1)
                            }
                            _ => J::Null,
                        }
                    }
                    _ => J::Null,
                }
            }
            (ConstValue::Indirect { alloc_id, offset }, ty::Str) => {
                let _ = (alloc_id, offset);
                J::Null
            }
            (_, ty::Adt(..)) | (_, ty::Array(..)) | (_, ty::Tuple(..)) => {
                if let ty::Array(e, l) = ty.kind() {
                    if *e == tcx.types.u8 {
                        if let (ConstValue::Indirect { alloc_id, offset }, Some(l)) = (v, l.try_to_target_usize(tcx)) {
                            if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                    offset.bytes_usize()..offset.bytes_usize() + l as usize,
                                );
                                return J::O(vec![("bytes", J::A(b.iter().map(|x| J::N(*x as i64)).collect()))]);
                            }
                        }
                    }
                }
                if let ty::Adt(d, _) = ty.kind() {
                    if d.is_union() {
                        return J::Null;
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, ty) {
                    Some(d) => {
                        let kids: Vec<J> = d.fields.iter().map(|(fv, ft)| self.constval(*fv, *ft, depth + 1)).collect();
                        match ty.kind() {
                            ty::Adt(def, _) => {
                                let vi = d.variant.unwrap_or(rustc_abi::FIRST_VARIANT);
                                let vn = if def.is_enum() { s(def.variant(vi).name.to_string()) } else { J::Null };
                                J::O(vec![("adt", s(self.path(def.did()))), ("var", vn), ("f", J::A(kids))])
                            }
                            _ => J::O(vec![("arr", J::A(kids))]),
                        }
                    }
                    None => J::Null,
                }
            }
            (_, ty::Pat(base, _)) => self.constval(v, *base, depth + 1),
            (ConstValue::Indirect { alloc_id, offset }, _) => {
                // scalar stored in memory
                let alloc = match tcx.try_get_global_alloc(alloc_id) {
                    Some(GlobalAlloc::Memory(a)) => a.inner(),
                    _ => return J::Null,
                };
                let lay = match tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(ty)) {
                    Ok(l) => l,
                    Err(_) => return J::Null,
                };
                if lay.size.bytes() == 0 || lay.size.bytes() > 16 {
                    return J::Null;
                }
                let isp = matches!(ty.kind(), ty::Ref(..));
                match alloc.read_scalar(&tcx, AllocRange { start: offset, size: lay.size }, isp) {
                    Ok(sc) => self.constval(ConstValue::Scalar(sc), ty, depth + 1),
                    Err(_) => J::Null,
                }
            }
            (ConstValue::ZeroSized, _) => J::O(vec![("zst", J::B(true))]),
            _ => J::Null,
        }
    }

    fn rvalue(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(b, env, o)]),
            Rvalue::Repeat(o, c) => {
                let l = c.try_to_target_usize(tcx).map_or(J::Null, |x| J::N(x as i64));
                J::A(vec![s("rep"), self.operand(b, env, o), l])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = match bk {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Fake(_) => "fake",
                    _ => "shr",
                };
                J::A(vec![s("ref"), self.place(b, p), s(m)])
            }
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![s("rebor"), self.place(b, p), s(if m.is_mut() { "mut" } else { "shr" })])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(b, p), s("raw")]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let from = o.ty(b, tcx);
                let fi = self.ty(from);
                J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(b, env, o), n(ti), n(fi)])
            }
            Rvalue::BinaryOp(op, ab) => {
                let (x, y) = &**ab;
                let t = x.ty(b, tcx);
                let ti = self.ty(t);
                J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(b, env, x), self.operand(b, env, y), n(ti)])
            }
            Rvalue::UnaryOp(op, x) => J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(b, env, x)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(b, tcx).ty;
                let ti = self.ty(t);
                J::A(vec![s("disc"), self.place(b, p), n(ti), self.variants(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(b, env, o)).collect();
                let kd = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let def = tcx.adt_def(*d);
                        let var = def.variant(*vi);
                        let fns: Vec<J> = var.fields.iter().map(|f| s(f.name.to_string())).collect();
                        J::A(vec![
                            s("adt"),
                            s(self.path(*d)),
                            if def.is_enum() { s(var.name.to_string()) } else { J::Null },
                            n(vi.as_usize()),
                            J::A(fns),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.path(*d))]),
                    AggregateKind::Coroutine(d, _) => J::A(vec![s("coroutine"), s(self.path(*d))]),
                    AggregateKind::CoroutineClosure(d, _) => J::A(vec![s("closure"), s(self.path(*d))]),
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                };
                J::A(vec![s("agg"), kd, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(b, p)])]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(b, env, o)]),
        }
    }

    fn variants(&mut self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Adt(def, _) if def.is_enum() => {
                let mut v = vec![];
                for (vi, var) in def.variants().iter_enumerated() {
                    let d = def.discriminant_for_variant(self.tcx, vi).val;
                    v.push(J::A(vec![s(d.to_string()), s(var.name.to_string())]));
                }
                J::A(v)
            }
            _ => J::Null,
        }
    }

    fn stmt(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, st: &Statement<'tcx>) -> Option<J> {
        let (_, ln, _) = self.span(st.source_info.span);
        match &st.kind {
            StatementKind::Assign(pr) => {
                let (p, r) = &**pr;
                if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = r {
                    return None;
                }
                Some(J::A(vec![s("="), self.place(b, p), self.rvalue(b, env, r), n(ln)]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => Some(J::A(vec![
                s("sd"),
                self.place(b, place),
                n(variant_index.as_usize()),
                n(ln),
            ])),
            StatementKind::StorageDead(l) => Some(J::A(vec![s("dead"), n(l.as_usize())])),
            _ => None,
        }
    }

    fn term(&mut self, did: DefId, b: &Body<'tcx>, env: TypingEnv<'tcx>, t: &Terminator<'tcx>) -> J {
        let tcx = self.tcx;
        let (fi, ln, _) = self.span(t.source_info.span);
        let uw = |u: &UnwindAction| match u {
            UnwindAction::Cleanup(x) => n(x.as_usize()),
            _ => J::Null,
        };
        let _ = did;
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let mut v = vec![];
                for (val, bb) in targets.iter() {
                    v.push(J::A(vec![s(val.to_string()), n(bb.as_usize())]));
                }
                let dt = discr.ty(b, tcx);
                let ti = self.ty(dt);
                J::A(vec![
                    s("switch"),
                    self.operand(b, env, discr),
                    J::A(v),
                    n(targets.otherwise().as_usize()),
                    n(ti),
                    n(ln),
                ])
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => {
                J::A(vec![s("resume")])
            }
            TerminatorKind::Return => J::A(vec![s("ret")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let pt = place.ty(b, tcx).ty;
                let ti = self.ty(pt);
                J::A(vec![s("drop"), self.place(b, place), n(target.as_usize()), uw(unwind), n(ti), n(ln)])
            }
            TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                let mut c: Vec<(&'static str, J)> = vec![];
                if let Operand::Constant(fc) = func {
                    if let ty::FnDef(d, ga) = *fc.const_.ty().kind() {
                        let ga = ga.skip_binder();
                        c.push(("f", s(self.path(d))));
                        let a: Vec<J> = ga.types().map(|x| n(self.ty(x))).collect();
                        c.push(("ga", J::A(a)));
                        let eg = tcx.erase_and_anonymize_regions(ga);
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, eg) {
                            let rd = inst.def_id();
                            if rd != d {
                                c.push(("r", s(self.path(rd))));
                            }
                            match inst.def {
                                ty::InstanceKind::Virtual(..) => c.push(("virt", J::B(true))),
                                _ => {}
                            }
                        } else {
                            c.push(("unres", J::B(true)));
                        }
                        if tcx.trait_of_assoc(d).is_some() {
                            c.push(("tr", J::B(true)));
                        }
                    }
                } else {
                    c.push(("ptr", self.operand(b, env, func)));
                }
                let av: Vec<J> = args.iter().map(|a| self.operand(b, env, &a.node)).collect();
                c.push(("a", J::A(av)));
                let at: Vec<J> = args
                    .iter()
                    .map(|a| {
                        let t = a.node.ty(b, tcx);
                        n(self.ty(t))
                    })
                    .collect();
                c.push(("at", J::A(at)));
                c.push(("d", self.place(b, destination)));
                c.push(("t", target.map_or(J::Null, |x| n(x.as_usize()))));
                c.push(("u", uw(unwind)));
                c.push(("l", n(ln)));
                c.push(("fi", n(fi)));
                let _ = fn_span;
                J::A(vec![s("call"), J::O(c)])
            }
            TerminatorKind::TailCall { .. } => J::A(vec![s("unreach")]),
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let m = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        J::A(vec![s("bounds"), self.operand(b, env, len), self.operand(b, env, index)])
                    }
                    AssertKind::Overflow(op, x, y) => J::A(vec![
                        s("overflow"),
                        s(format!("{:?}", op)),
                        self.operand(b, env, x),
                        self.operand(b, env, y),
                    ]),
                    AssertKind::OverflowNeg(x) => J::A(vec![s("neg"), self.operand(b, env, x)]),
                    AssertKind::DivisionByZero(x) => J::A(vec![s("div0"), self.operand(b, env, x)]),
                    AssertKind::RemainderByZero(x) => J::A(vec![s("rem0"), self.operand(b, env, x)]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![
                    s("assert"),
                    self.operand(b, env, cond),
                    J::B(*expected),
                    m,
                    n(target.as_usize()),
                    uw(unwind),
                    n(ln),
                ])
            }
            TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                let pj = self.place(b, resume_arg);
                J::A(vec![s("yield"), self.operand(b, env, value), n(resume.as_usize()), pj, n(ln)])
            }
            TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
            TerminatorKind::InlineAsm { .. } => J::A(vec![s("unreach")]),
        }
    }
}
