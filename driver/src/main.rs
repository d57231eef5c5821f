//! Fact extractor: dumps, as JSON, the type-checked MIR of one crate (every function,
//! closure and constant), its ADTs, trait impls, and evaluated constants.
//! Used as RUSTC_WORKSPACE_WRAPPER: argv = [nyx-facts, rustc, args...].
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;
use std::collections::BTreeSet;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let j = rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(dump_crate(tcx))
        );
        let mut s = String::with_capacity(64 << 20);
        j.write(&mut s);
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, s).expect("write facts");
        std::fs::rename(&tmp, &self.out).expect("rename facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper mode: drop our own argv[0]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) {
        args.remove(0);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned());
    let is_test = args.iter().any(|a| a == "--test");
    let dir = std::env::var("NYX_FACTS_DIR").unwrap_or_default();
    let wanted = std::env::var("NYX_FACTS_CRATES").unwrap_or_else(|_| "nyx_space,_nyx".into());
    let hit = crate_name
        .as_ref()
        .map(|c| wanted.split(',').any(|w| w == c))
        .unwrap_or(false);
    rustc_driver::catch_with_exit_code(move || {
        if hit && !is_test && !dir.is_empty() {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zalways-encode-mir=no".into());
            let pkg = std::env::var("CARGO_PKG_NAME").unwrap_or_default();
            let mut cb = Cb { out: format!("{}/{}.json", dir, pkg) };
            rustc_driver::compiler_entrypoint(&args, &mut cb)
        } else {
            let mut cb = Noop;
            rustc_driver::compiler_entrypoint(&args, &mut cb)
        }
    })
}
struct Noop;
impl Callbacks for Noop {}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = tcx.def_path_str(d);
    p
}

fn span_j(tcx: TyCtxt<'_>, s: Span) -> J {
    let s = s.source_callsite();
    let sm = tcx.sess.source_map();
    let loc = sm.lookup_char_pos(s.lo());
    let f = loc.file.name.prefer_local_unconditionally().to_string();
    J::A(vec![J::s(f), J::I(loc.line as i128)])
}
fn line(tcx: TyCtxt<'_>, s: Span) -> J {
    let s = s.source_callsite();
    J::I(tcx.sess.source_map().lookup_char_pos(s.lo()).line as i128)
}

fn dump_crate<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let mut bodies = vec![];
    let mut consts = vec![];
    let mut adts: BTreeSet<DefIdOrd> = BTreeSet::new();
    for ld in tcx.mir_keys(()) {
        let ld: LocalDefId = *ld;
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_coroutine(did) {
                    continue;
                }
                let body = tcx.optimized_mir(did);
                bodies.push(dump_body(tcx, did, body, &mut adts));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                let body = tcx.mir_for_ctfe(did);
                bodies.push(dump_body(tcx, did, body, &mut adts));
                consts.push((path(tcx, did), dump_const_item(tcx, did)));
            }
            DefKind::AnonConst => {}
            _ => {}
        }
    }
    // local ADTs
    for id in tcx.hir_crate_items(()).free_items() {
        let did = id.owner_id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum => {
                adts.insert(DefIdOrd(did));
            }
            _ => {}
        }
    }
    let mut adt_j = vec![];
    for d in adts.iter() {
        adt_j.push((path(tcx, d.0), dump_adt(tcx, d.0)));
    }
    // trait impls
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).free_items() {
        let did = id.owner_id.to_def_id();
        if let DefKind::Impl { of_trait } = tcx.def_kind(did) {
            let self_ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let mut o = vec![
                ("self".into(), J::s(format!("{}", self_ty))),
                ("span".into(), span_j(tcx, tcx.def_span(did))),
            ];
            if of_trait {
                let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                o.push(("trait".into(), J::s(path(tcx, tr.def_id))));
                o.push(("trait_full".into(), J::s(format!("{}", tr))));
            }
            let mut items = vec![];
            for it in tcx.associated_items(did).in_definition_order() {
                items.push(J::A(vec![
                    J::s(it.opt_name().map(|n| n.to_string()).unwrap_or_default()),
                    J::s(path(tcx, it.def_id)),
                ]));
            }
            o.push(("items".into(), J::A(items)));
            impls.push(J::O(o));
        }
    }
    J::O(vec![
        ("crate".into(), J::s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
        ("bodies".into(), J::A(bodies)),
        ("consts".into(), J::O(consts)),
        ("adts".into(), J::O(adt_j)),
        ("impls".into(), J::A(impls)),
    ])
}

#[derive(PartialEq, Eq, Clone, Copy)]
struct DefIdOrd(DefId);
impl PartialOrd for DefIdOrd {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for DefIdOrd {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.0.krate.as_u32(), self.0.index.as_u32()).cmp(&(o.0.krate.as_u32(), o.0.index.as_u32()))
    }
}

fn dump_adt<'tcx>(tcx: TyCtxt<'tcx>, did: DefId) -> J {
    let adt = tcx.adt_def(did);
    let mut vs = vec![];
    for (vi, v) in adt.variants().iter_enumerated() {
        let d = if adt.is_enum() {
            J::I(adt.discriminant_for_variant(tcx, vi).val as i128)
        } else {
            J::Null
        };
        let fs = v
            .fields
            .iter()
            .map(|f| {
                J::A(vec![
                    J::s(f.name.to_string()),
                    J::s(format!("{}", tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                ])
            })
            .collect();
        vs.push(J::O(vec![
            ("name".into(), J::s(v.name.to_string())),
            ("discr".into(), d),
            ("fields".into(), J::A(fs)),
        ]));
    }
    J::O(vec![
        ("kind".into(), J::s(if adt.is_enum() { "enum" } else if adt.is_union() { "union" } else { "struct" })),
        ("variants".into(), J::A(vs)),
        ("local".into(), J::B(did.is_local())),
    ])
}

fn dump_const_item<'tcx>(tcx: TyCtxt<'tcx>, did: DefId) -> J {
    let g = tcx.generics_of(did);
    if g.requires_monomorphization(tcx) {
        return J::Null;
    }
    if matches!(tcx.def_kind(did), DefKind::Static { .. }) {
        return J::Null;
    }
    let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
    match tcx.const_eval_poly(did) {
        Ok(v) => J::O(vec![
            ("ty".into(), J::s(format!("{}", ty))),
            ("v".into(), const_value_j(tcx, v, ty, 0)),
        ]),
        Err(_) => J::Null,
    }
}

fn float_j(f: f64) -> J {
    J::O(vec![("f".into(), J::s(format!("{:?}", f)))])
}

fn scalar_j<'tcx>(tcx: TyCtxt<'tcx>, s: Scalar, ty: Ty<'tcx>, depth: usize) -> J {
    match s {
        Scalar::Int(i) => match ty.kind() {
            TyKind::Bool => J::B(i.to_bits(i.size()) != 0),
            TyKind::Char => J::s(char::from_u32(i.to_bits(i.size()) as u32).unwrap_or('?').to_string()),
            TyKind::Int(_) => J::I(i.to_int(i.size())),
            TyKind::Uint(_) => J::I(i.to_bits(i.size()) as i128),
            TyKind::Float(ty::FloatTy::F64) => float_j(f64::from_bits(i.to_bits(i.size()) as u64)),
            TyKind::Float(ty::FloatTy::F32) => float_j(f32::from_bits(i.to_bits(i.size()) as u32) as f64),
            _ => J::O(vec![("raw".into(), J::I(i.to_bits(i.size()) as i128)), ("ty".into(), J::s(format!("{}", ty)))]),
        },
        Scalar::Ptr(p, _) => {
            if depth > 6 {
                return J::Null;
            }
            let (prov, off) = p.prov_and_relative_offset();
            let aid = prov.alloc_id();
            if let Some(inner) = ty.builtin_deref(true) {
                if inner.is_sized(tcx, TypingEnv::fully_monomorphized()) {
                    return mem_j(tcx, aid, off.bytes(), inner, depth + 1);
                }
            }
            J::Null
        }
    }
}

fn const_value_j<'tcx>(tcx: TyCtxt<'tcx>, v: ConstValue, ty: Ty<'tcx>, depth: usize) -> J {
    match v {
        ConstValue::Scalar(s) => {
            if let TyKind::Adt(adt, _) = ty.kind() {
                // newtype / fieldless enum
                if adt.is_enum() {
                    if let Scalar::Int(i) = s {
                        let bits = i.to_bits(i.size());
                        for (vi, v) in adt.variants().iter_enumerated() {
                            let d = adt.discriminant_for_variant(tcx, vi);
                            if d.val == bits && v.fields.is_empty() {
                                return J::O(vec![("variant".into(), J::s(v.name.to_string()))]);
                            }
                        }
                    }
                    return J::Null;
                }
                return J::Null;
            }
            scalar_j(tcx, s, ty, depth)
        }
        ConstValue::ZeroSized => J::O(vec![("zst".into(), J::s(format!("{}", ty)))]),
        ConstValue::Slice { alloc_id, meta } => {
            if let TyKind::Ref(_, inner, _) = ty.kind() {
                return slice_j(tcx, alloc_id, 0, meta, *inner, depth);
            }
            J::Null
        }
        ConstValue::Indirect { alloc_id, offset } => mem_j(tcx, alloc_id, offset.bytes(), ty, depth),
    }
}

fn slice_j<'tcx>(tcx: TyCtxt<'tcx>, aid: AllocId, off: u64, n: u64, inner: Ty<'tcx>, depth: usize) -> J {
    match inner.kind() {
        TyKind::Str => {
            if let GlobalAlloc::Memory(a) = tcx.global_alloc(aid) {
                let a = a.inner();
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize);
                return J::O(vec![("str".into(), J::s(String::from_utf8_lossy(b).to_string()))]);
            }
            J::Null
        }
        TyKind::Slice(el) => {
            let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(*el)) else { return J::Null };
            let sz = l.size.bytes();
            J::A((0..n).map(|i| mem_j(tcx, aid, off + i * sz, *el, depth + 1)).collect())
        }
        _ => J::Null,
    }
}

fn mem_j<'tcx>(tcx: TyCtxt<'tcx>, aid: AllocId, off: u64, ty: Ty<'tcx>, depth: usize) -> J {
    if depth > 8 {
        return J::Null;
    }
    let GlobalAlloc::Memory(a) = tcx.global_alloc(aid) else { return J::Null };
    let a = a.inner();
    let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(ty)) else { return J::Null };
    let sz = l.size.bytes();
    if off + sz > a.len() as u64 {
        return J::Null;
    }
    let rd = |o: u64, n: u64| -> u128 {
        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + n) as usize);
        let mut v: u128 = 0;
        for (i, x) in b.iter().enumerate() {
            v |= (*x as u128) << (8 * i);
        }
        v
    };
    let ptr_at = |o: u64| -> Option<(AllocId, u64)> {
        a.provenance()
            .ptrs()
            .iter()
            .find(|(k, _)| k.bytes() == o)
            .map(|(_, p)| (p.alloc_id(), rd(o, 8) as u64))
    };
    match ty.kind() {
        TyKind::Bool => J::B(rd(off, 1) != 0),
        TyKind::Char => J::s(char::from_u32(rd(off, 4) as u32).unwrap_or('?').to_string()),
        TyKind::Uint(_) => J::I(rd(off, sz) as i128),
        TyKind::Int(_) => {
            let v = rd(off, sz);
            let sh = 128 - 8 * sz as u32;
            J::I(((v << sh) as i128) >> sh)
        }
        TyKind::Float(ty::FloatTy::F64) => float_j(f64::from_bits(rd(off, 8) as u64)),
        TyKind::Float(ty::FloatTy::F32) => float_j(f32::from_bits(rd(off, 4) as u32) as f64),
        TyKind::Array(el, n) => {
            let n = n.try_to_target_usize(tcx).unwrap_or(0);
            let Ok(el_l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(*el)) else { return J::Null };
            let es = el_l.size.bytes();
            J::A((0..n).map(|i| mem_j(tcx, aid, off + i * es, *el, depth + 1)).collect())
        }
        TyKind::Tuple(ts) => J::A(
            ts.iter()
                .enumerate()
                .map(|(i, t)| mem_j(tcx, aid, off + l.fields.offset(i).bytes(), t, depth + 1))
                .collect(),
        ),
        TyKind::Adt(adt, args) if adt.is_struct() => {
            let v = adt.non_enum_variant();
            let mut o = vec![];
            for (i, f) in v.fields.iter().enumerate() {
                let ft = f.ty(tcx, args).skip_norm_wip();
                o.push((f.name.to_string(), mem_j(tcx, aid, off + l.fields.offset(i).bytes(), ft, depth + 1)));
            }
            J::O(o)
        }
        TyKind::Adt(adt, args) if adt.is_enum() => {
            // decode via variants layout
            use rustc_abi::{TagEncoding, Variants};
            let vidx = match &l.variants {
                Variants::Single { index } => *index,
                Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                    let toff = l.fields.offset(tag_field.as_usize()).bytes();
                    let tsz = tag.size(&tcx).bytes();
                    let raw = rd(off + toff, tsz);
                    match tag_encoding {
                        TagEncoding::Direct => {
                            let mut found = None;
                            for (vi, _) in adt.variants().iter_enumerated() {
                                let d = adt.discriminant_for_variant(tcx, vi).val;
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                if d & mask == raw {
                                    found = Some(vi);
                                }
                            }
                            match found {
                                Some(f) => f,
                                None => return J::Null,
                            }
                        }
                        _ => return J::Null,
                    }
                }
                _ => return J::Null,
            };
            let v = adt.variant(vidx);
            let vl = {
                let cx = ty::layout::LayoutCx::new(tcx, TypingEnv::fully_monomorphized());
                l.for_variant(&cx, vidx)
            };
            let mut o = vec![];
            for (i, f) in v.fields.iter().enumerate() {
                let ft = f.ty(tcx, args).skip_norm_wip();
                o.push(mem_j(tcx, aid, off + vl.fields.offset(i).bytes(), ft, depth + 1));
            }
            J::O(vec![("variant".into(), J::s(v.name.to_string())), ("fields".into(), J::A(o))])
        }
        TyKind::Ref(_, inner, _) => match inner.kind() {
            TyKind::Str | TyKind::Slice(_) => {
                if let Some((p, po)) = ptr_at(off) {
                    let n = rd(off + 8, 8) as u64;
                    slice_j(tcx, p, po, n, *inner, depth + 1)
                } else {
                    J::Null
                }
            }
            _ => {
                if let Some((p, po)) = ptr_at(off) {
                    mem_j(tcx, p, po, *inner, depth + 1)
                } else {
                    J::Null
                }
            }
        },
        _ => J::Null,
    }
}

fn dump_body<'tcx>(tcx: TyCtxt<'tcx>, did: DefId, body: &Body<'tcx>, adts: &mut BTreeSet<DefIdOrd>) -> J {
    let kind = match tcx.def_kind(did) {
        DefKind::Closure => "closure",
        DefKind::Fn => "fn",
        DefKind::AssocFn => "assocfn",
        DefKind::Const { .. } => "const",
        DefKind::AssocConst { .. } => "assocconst",
        DefKind::Static { .. } => "static",
        _ => "other",
    };
    let mut o = vec![
        ("id".into(), J::s(path(tcx, did))),
        ("kind".into(), J::s(kind)),
        ("span".into(), span_j(tcx, tcx.def_span(did))),
        ("endline".into(), {
            let sp = body.span;
            J::I(tcx.sess.source_map().lookup_char_pos(sp.hi()).line as i128)
        }),
        ("exp".into(), J::B(tcx.def_span(did).from_expansion())),
    ];
    {
        let mut names = vec![];
        let mut g = Some(tcx.generics_of(did));
        let mut chain = vec![];
        while let Some(x) = g {
            chain.push(x);
            g = x.parent.map(|p| tcx.generics_of(p));
        }
        for x in chain.iter().rev() {
            for p in &x.own_params {
                names.push(J::s(p.name.to_string()));
            }
        }
        o.push(("generics".into(), J::A(names)));
    }
    if kind != "closure" && kind != "other" {
        o.push(("pub".into(), J::B(tcx.visibility(did).is_public())));
    }
    if let Some(imp) = tcx.impl_of_assoc(did) {
        let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
        o.push(("impl_self".into(), J::s(format!("{}", st))));
        if tcx.impl_is_of_trait(imp) {
            let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
            o.push(("impl_trait".into(), J::s(path(tcx, tr.def_id))));
        }
    }
    if let Some(tr) = tcx.trait_of_assoc(did) {
        o.push(("trait_default".into(), J::s(path(tcx, tr))));
    }
    if kind == "closure" {
        let p = tcx.parent(did);
        o.push(("parent".into(), J::s(path(tcx, p))));
        if let Some(ld) = did.as_local() {
            let ups: Vec<J> = tcx
                .closure_captures(ld)
                .iter()
                .map(|c| J::A(vec![J::s(c.to_symbol().to_string()), J::B(c.is_by_ref())]))
                .collect();
            o.push(("upvars".into(), J::A(ups)));
        }
    }
    dump_body_inner(tcx, did, body, adts, &mut o);
    if let Some(ld) = did.as_local() {
        if kind != "other" {
            let proms = tcx.promoted_mir(ld.to_def_id());
            let mut pj = vec![];
            for p in proms.iter() {
                let mut po = vec![];
                dump_body_inner(tcx, did, p, adts, &mut po);
                pj.push(J::O(po));
            }
            o.push(("promoted".into(), J::A(pj)));
        }
    }
    J::O(o)
}

fn note_ty<'tcx>(ty: Ty<'tcx>, adts: &mut BTreeSet<DefIdOrd>) {
    let t = ty.peel_refs();
    if let TyKind::Adt(a, _) = t.kind() {
        adts.insert(DefIdOrd(a.did()));
    }
}

fn dump_body_inner<'tcx>(
    tcx: TyCtxt<'tcx>,
    did: DefId,
    body: &Body<'tcx>,
    adts: &mut BTreeSet<DefIdOrd>,
    o: &mut Vec<(String, J)>,
) {
    let env = TypingEnv::post_analysis(tcx, did);
    let mut cx = Cx { tcx, body, env, adts };
    o.push(("argc".into(), J::I(body.arg_count as i128)));
    let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
    for v in &body.var_debug_info {
        if let VarDebugInfoContents::Place(p) = v.value {
            if p.projection.is_empty() {
                names[p.local.as_usize()] = Some(v.name.to_string());
            }
        }
    }
    let locals = body
        .local_decls
        .iter_enumerated()
        .map(|(l, d)| {
            note_ty(d.ty, cx.adts);
            J::A(vec![
                J::s(format!("{}", d.ty)),
                names[l.as_usize()].clone().map(J::s).unwrap_or(J::Null),
            ])
        })
        .collect();
    o.push(("locals".into(), J::A(locals)));
    let mut blocks = vec![];
    for (_bb, d) in body.basic_blocks.iter_enumerated() {
        if d.is_cleanup {
            blocks.push(J::Null);
            continue;
        }
        let mut ss = vec![];
        for s in &d.statements {
            match &s.kind {
                StatementKind::Assign(b) => {
                    let (p, r) = &**b;
                    let pj = cx.place(p);
                    let rj = cx.rvalue(r);
                    ss.push(J::A(vec![J::s("="), pj, rj, line(tcx, s.source_info.span)]));
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let ty = place.ty(body, tcx).ty;
                    let vn = match ty.kind() {
                        TyKind::Adt(a, _) => a.variant(*variant_index).name.to_string(),
                        _ => format!("{}", variant_index.as_usize()),
                    };
                    let pj = cx.place(place);
                    ss.push(J::A(vec![J::s("setdisc"), pj, J::s(vn)]));
                }
                _ => {}
            }
        }
        let t = d.terminator();
        let tj = match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), J::I(target.as_usize() as i128)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(body, tcx);
                let signed = matches!(ty.kind(), TyKind::Int(_));
                let dj = cx.operand(discr);
                let tg = targets
                    .iter()
                    .map(|(v, b)| {
                        let vv = if signed {
                            let sz = cx.tcx.layout_of(cx.env.as_query_input(ty)).map(|l| l.size.bits()).unwrap_or(64);
                            let sh = 128 - sz as u32;
                            ((v << sh) as i128) >> sh
                        } else {
                            v as i128
                        };
                        J::A(vec![J::I(vv), J::I(b.as_usize() as i128)])
                    })
                    .collect();
                J::A(vec![
                    J::s("switch"),
                    dj,
                    J::A(tg),
                    J::I(targets.otherwise().as_usize() as i128),
                    J::s(format!("{}", ty)),
                    line(tcx, t.source_info.span),
                ])
            }
            TerminatorKind::Return => J::A(vec![J::s("return")]),
            TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
            TerminatorKind::Drop { place, target, .. } => {
                J::A(vec![J::s("drop"), cx.place(place), J::I(target.as_usize() as i128)])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fj = cx.callee(func);
                let aj = args.iter().map(|a| cx.operand(&a.node)).collect();
                let dj = cx.place(destination);
                J::A(vec![
                    J::s("call"),
                    fj,
                    J::A(aj),
                    dj,
                    target.map(|t| J::I(t.as_usize() as i128)).unwrap_or(J::Null),
                    line(tcx, t.source_info.span),
                ])
            }
            TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                let m = format!("{:?}", msg);
                let m: String = m.chars().take(24).collect();
                J::A(vec![
                    J::s("assert"),
                    cx.operand(cond),
                    J::B(*expected),
                    J::I(target.as_usize() as i128),
                    J::s(m),
                ])
            }
            TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![J::s("goto"), J::I(real_target.as_usize() as i128)]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![J::s("goto"), J::I(real_target.as_usize() as i128)]),
            k => J::A(vec![J::s("other"), J::s(format!("{:?}", k).chars().take(60).collect::<String>())]),
        };
        blocks.push(J::O(vec![("s".into(), J::A(ss)), ("t".into(), tj)]));
    }
    o.push(("blocks".into(), J::A(blocks)));
}

struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
    adts: &'a mut BTreeSet<DefIdOrd>,
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::I(p.local.as_usize() as i128)];
        let mut pty = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => v.push(J::s("*")),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        TyKind::Adt(a, _) => {
                            note_ty(pty.ty, self.adts);
                            let vi = pty.variant_index.unwrap_or(rustc_abi::VariantIdx::from_usize(0));
                            a.variant(vi).fields[f].name.to_string()
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    v.push(J::A(vec![J::s("f"), J::I(f.as_usize() as i128), J::s(name)]));
                }
                ProjectionElem::Index(l) => v.push(J::A(vec![J::s("i"), J::I(l.as_usize() as i128)])),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    v.push(J::A(vec![J::s("ci"), J::I(offset as i128), J::B(from_end)]))
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    v.push(J::A(vec![J::s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)]))
                }
                ProjectionElem::Downcast(n, vi) => {
                    note_ty(pty.ty, self.adts);
                    v.push(J::A(vec![
                        J::s("as"),
                        J::s(n.map(|n| n.to_string()).unwrap_or_else(|| format!("{}", vi.as_usize()))),
                        J::I(vi.as_usize() as i128),
                    ]))
                }
                _ => v.push(J::s("cast")),
            }
            pty = pty.projection_ty(self.tcx, e);
        }
        J::A(v)
    }
    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![J::s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![J::s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![J::s("k"), self.constant(&c.const_)]),
            Operand::RuntimeChecks(_) => J::A(vec![J::s("k"), J::O(vec![("v".into(), J::B(false)), ("ty".into(), J::s("bool"))])]),
        }
    }
    fn callee(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Constant(c) => {
                let ty = c.const_.ty();
                if let TyKind::FnDef(d, args) = ty.kind() {
                    return self.fn_j(*d, args.no_bound_vars().unwrap());
                }
                J::O(vec![("op".into(), self.operand(op))])
            }
            _ => J::O(vec![("op".into(), self.operand(op)), ("ty".into(), J::s(format!("{}", op.ty(self.body, self.tcx))))]),
        }
    }
    fn fn_j(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("fn".into(), J::s(path(tcx, d))),
            ("args".into(), J::A(args.iter().map(|a| J::s(format!("{}", a))).collect())),
        ];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait".into(), J::s(path(tcx, tr))));
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            o.push(("impl_self".into(), J::s(format!("{}", st))));
        }
        if let Some(n) = tcx.opt_item_name(d) {
            o.push(("name".into(), J::s(n.to_string())));
        }
        let is_fn = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn);
        if is_fn {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
                let rd = inst.def_id();
                if rd != d {
                    o.push(("res".into(), J::s(path(tcx, rd))));
                }
                if rd.is_local() {
                    o.push(("local".into(), J::B(true)));
                }
                o.push(("rargs".into(), J::A(inst.args.iter().map(|a| J::s(format!("{}", a))).collect())));
                o.push(("virt".into(), J::B(matches!(inst.def, ty::InstanceKind::Virtual(..)))));
            } else if d.is_local() {
                o.push(("unres".into(), J::B(true)));
            }
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("ret".into(), J::s(format!("{}", sig.output()))));
        }
        J::O(o)
    }
    fn constant(&mut self, c: &Const<'tcx>) -> J {
        let tcx = self.tcx;
        let ty = c.ty();
        if let TyKind::FnDef(d, args) = ty.kind() {
            return self.fn_j(*d, args.no_bound_vars().unwrap());
        }
        let mut o = vec![("ty".into(), J::s(format!("{}", ty)))];
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                o.push(("prom".into(), J::I(p.as_usize() as i128)));
                if u.def.is_local() {
                    o.push(("promof".into(), J::s(path(tcx, u.def))));
                }
            } else {
                o.push(("path".into(), J::s(path(tcx, u.def))));
                if !u.args.is_empty() {
                    o.push(("cargs".into(), J::A(u.args.iter().map(|a| J::s(format!("{}", a))).collect())));
                }
            }
        }
        if let Const::Ty(_, tc) = c {
            o.push(("tyconst".into(), J::s(format!("{}", tc))));
        }
        let isprom = matches!(c, Const::Unevaluated(u, _) if u.promoted.is_some());
        if !isprom {
            let v = match c {
                Const::Val(v, _) => Some(*v),
                Const::Unevaluated(u, _) if !rustc_middle::ty::TypeVisitableExt::has_param(&u.args) => {
                    c.eval(tcx, self.env, rustc_span::DUMMY_SP).ok()
                }
                Const::Ty(_, tc) if !rustc_middle::ty::TypeVisitableExt::has_param(tc) => c.eval(tcx, self.env, rustc_span::DUMMY_SP).ok(),
                _ => None,
            };
            if let Some(v) = v {
                if !rustc_middle::ty::TypeVisitableExt::has_param(&ty) {
                    o.push(("v".into(), const_value_j(tcx, v, ty, 0)));
                }
            }
        }
        J::O(o)
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(op, ..) => J::A(vec![J::s("use"), self.operand(op)]),
            Rvalue::Repeat(op, n) => J::A(vec![
                J::s("repeat"),
                self.operand(op),
                n.try_to_target_usize(self.tcx).map(|n| J::I(n as i128)).unwrap_or(J::s(format!("{}", n))),
            ]),
            Rvalue::Ref(_, bk, p) => J::A(vec![
                J::s("ref"),
                J::B(matches!(bk, BorrowKind::Mut { .. })),
                self.place(p),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("ref"), J::B(true), self.place(p)]),
            Rvalue::Cast(k, op, ty) => J::A(vec![
                J::s("cast"),
                J::s(format!("{:?}", k)),
                self.operand(op),
                J::s(format!("{}", ty)),
                J::s(format!("{}", op.ty(self.body, self.tcx))),
            ]),
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(self.body, self.tcx);
                J::A(vec![J::s("bin"), J::s(format!("{:?}", op)), self.operand(&b.0), self.operand(&b.1), J::s(format!("{}", t))])
            }
            Rvalue::UnaryOp(op, a) => J::A(vec![J::s("un"), J::s(format!("{:?}", op)), self.operand(a)]),
            Rvalue::Discriminant(p) => {
                let ty = p.ty(self.body, self.tcx).ty;
                note_ty(ty, self.adts);
                let a = match ty.kind() {
                    TyKind::Adt(a, _) => J::s(path(self.tcx, a.did())),
                    _ => J::Null,
                };
                J::A(vec![J::s("disc"), self.place(p), a])
            }
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        self.adts.insert(DefIdOrd(*d));
                        let a = self.tcx.adt_def(*d);
                        let v = a.variant(*vi);
                        J::A(vec![
                            J::s("adt"),
                            J::s(path(self.tcx, *d)),
                            J::s(v.name.to_string()),
                            J::B(a.is_enum()),
                            J::A(v.fields.iter().map(|f| J::s(f.name.to_string())).collect()),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![J::s("closure"), J::s(path(self.tcx, *d))]),
                    _ => J::A(vec![J::s("otheragg")]),
                };
                let oj = ops.iter().map(|x| self.operand(x)).collect();
                J::A(vec![J::s("agg"), kj, J::A(oj)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(p)])]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![J::s("ref"), J::B(m.is_mut()), self.place(p)]),
            x => J::A(vec![J::s("otherrv"), J::s(format!("{:?}", x).chars().take(80).collect::<String>())]),
        }
    }
}
