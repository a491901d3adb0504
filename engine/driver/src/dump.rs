use crate::json::{i, s, J};
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use std::collections::VecDeque;
use std::path::Path;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: FxHashMap<Ty<'tcx>, usize>,
    insts: Vec<J>,
    inst_ids: FxHashMap<(DefId, GenericArgsRef<'tcx>, TypingEnv<'tcx>), usize>,
    queue: VecDeque<(usize, DefId, GenericArgsRef<'tcx>, TypingEnv<'tcx>)>,
    adts: FxHashMap<String, J>,
    glue: FxHashMap<usize, (Ty<'tcx>, TypingEnv<'tcx>)>,
    promoted_bodies: FxHashMap<DefId, Body<'tcx>>,
    paths: FxHashMap<DefId, String>,
}

/// `<Self as Trait>::m`, `Self::m`, `Parent::{closure#n}`, free paths otherwise.
fn path_of<'tcx>(cx: &mut Cx<'tcx>, did: DefId) -> String {
    if let Some(p) = cx.paths.get(&did) {
        return p.clone();
    }
    let tcx = cx.tcx;
    let p = match tcx.def_kind(did) {
        DefKind::Closure | DefKind::SyntheticCoroutineBody => {
            let parent = tcx.parent(did);
            let pp = path_of(cx, parent);
            let last = tcx.def_path(did).data.last().map(|d| d.disambiguator).unwrap_or(0);
            format!("{pp}::{{closure#{last}}}")
        }
        DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy => {
            let name = tcx.item_name(did);
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let sty = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let head = head_name(cx, sty);
                match tcx.impl_opt_trait_ref(imp) {
                    Some(tr) => {
                        let t = with_no_trimmed_paths!(tcx.def_path_str(tr.skip_binder().def_id));
                        let t = full(cx, tr.skip_binder().def_id, t);
                        format!("<{head} as {t}>::{name}")
                    }
                    None => format!("{head}::{name}"),
                }
            } else {
                let par = tcx.parent(did);
                let p = path_of(cx, par);
                format!("{p}::{name}")
            }
        }
        _ => {
            let p = with_no_trimmed_paths!(tcx.def_path_str(did));
            full(cx, did, p)
        }
    };
    cx.paths.insert(did, p.clone());
    p
}

fn full<'tcx>(cx: &Cx<'tcx>, did: DefId, p: String) -> String {
    if did.is_local() {
        format!("{}::{}", cx.tcx.crate_name(LOCAL_CRATE), p)
    } else {
        p
    }
}

fn head_name<'tcx>(cx: &mut Cx<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(a, _) => path_of(cx, a.did()),
        ty::Ref(_, t, _) => format!("&{}", head_name(cx, *t)),
        ty::Dynamic(preds, ..) => match preds.principal_def_id() {
            Some(d) => format!("dyn {}", path_of(cx, d)),
            None => "dyn".to_string(),
        },
        ty::Slice(t) => format!("[{}]", head_name(cx, *t)),
        _ => with_no_trimmed_paths!(t.to_string()),
    }
}

fn ty_id<'tcx>(cx: &mut Cx<'tcx>, t: Ty<'tcx>) -> usize {
    if let Some(x) = cx.type_ids.get(&t) {
        return *x;
    }
    let id = cx.types.len();
    cx.types.push(J::Null);
    cx.type_ids.insert(t, id);
    let tcx = cx.tcx;
    let name = with_no_trimmed_paths!(t.to_string());
    let args_j = |cx: &mut Cx<'tcx>, args: GenericArgsRef<'tcx>| {
        J::A(args.types().map(|t| i(ty_id(cx, t))).collect())
    };
    let j = match t.kind() {
        ty::Adt(a, args) => {
            let p = path_of(cx, a.did());
            dump_adt(cx, a.did(), &p);
            let aj = args_j(cx, args);
            J::O(vec![("k", s("adt")), ("p", s(p)), ("a", aj), ("s", s(name))])
        }
        ty::Ref(_, t, m) => {
            let x = ty_id(cx, *t);
            J::O(vec![("k", s("ref")), ("t", i(x)), ("m", J::B(m.is_mut())), ("s", s(name))])
        }
        ty::RawPtr(t, m) => {
            let x = ty_id(cx, *t);
            J::O(vec![("k", s("ptr")), ("t", i(x)), ("m", J::B(m.is_mut())), ("s", s(name))])
        }
        ty::Slice(t) => {
            let x = ty_id(cx, *t);
            J::O(vec![("k", s("slice")), ("t", i(x)), ("s", s(name))])
        }
        ty::Array(t, _) => {
            let x = ty_id(cx, *t);
            J::O(vec![("k", s("array")), ("t", i(x)), ("s", s(name))])
        }
        ty::Tuple(ts) => {
            let v = ts.iter().map(|t| i(ty_id(cx, t))).collect();
            J::O(vec![("k", s("tuple")), ("a", J::A(v)), ("s", s(name))])
        }
        ty::Closure(did, args) => {
            let p = path_of(cx, *did);
            let up: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| i(ty_id(cx, t))).collect();
            let names: Vec<J> = closure_names(tcx, *did);
            J::O(vec![("k", s("closure")), ("p", s(p)), ("up", J::A(up)), ("un", J::A(names)), ("s", s(name))])
        }
        ty::Coroutine(did, args) => {
            let p = path_of(cx, *did);
            let up: Vec<J> = args.as_coroutine().upvar_tys().iter().map(|t| i(ty_id(cx, t))).collect();
            let names: Vec<J> = closure_names(tcx, *did);
            J::O(vec![("k", s("coroutine")), ("p", s(p)), ("up", J::A(up)), ("un", J::A(names)), ("s", s(name))])
        }
        ty::FnDef(did, args) => {
            let p = path_of(cx, *did);
            let aj = args_j(cx, args.skip_binder());
            J::O(vec![("k", s("fndef")), ("p", s(p)), ("a", aj), ("s", s(name))])
        }
        ty::FnPtr(..) => J::O(vec![("k", s("fnptr")), ("s", s(name))]),
        ty::Dynamic(preds, ..) => {
            let p = match preds.principal_def_id() {
                Some(d) => path_of(cx, d),
                None => String::new(),
            };
            J::O(vec![("k", s("dyn")), ("p", s(p)), ("s", s(name))])
        }
        ty::Param(_) => J::O(vec![("k", s("param")), ("s", s(name))]),
        ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
            J::O(vec![("k", s("prim")), ("s", s(name))])
        }
        _ => J::O(vec![("k", s("other")), ("s", s(name))]),
    };
    cx.types[id] = j;
    id
}

fn closure_names<'tcx>(tcx: TyCtxt<'tcx>, did: DefId) -> Vec<J> {
    match did.as_local() {
        Some(l) => tcx.closure_saved_names_of_captured_variables(l).iter().map(|x| s(x.to_string())).collect(),
        None => vec![],
    }
}

fn dump_adt<'tcx>(cx: &mut Cx<'tcx>, did: DefId, p: &str) {
    if cx.adts.contains_key(p) {
        return;
    }
    cx.adts.insert(p.to_string(), J::Null);
    let tcx = cx.tcx;
    let adt = tcx.adt_def(did);
    let mut vs = Vec::new();
    for (vi, v) in adt.variants().iter_enumerated() {
        let mut fs = Vec::new();
        for f in v.fields.iter() {
            let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
            let tn = if did.is_local() {
                i(ty_id(cx, fty))
            } else {
                J::Null
            };
            fs.push(J::O(vec![
                ("n", s(f.name.to_string())),
                ("t", tn),
                ("pub", J::B(f.vis.is_public())),
            ]));
        }
        let d = if adt.is_enum() {
            Some(adt.discriminant_for_variant(tcx, vi).val as i128)
        } else {
            None
        };
        vs.push(J::O(vec![
            ("n", s(v.name.to_string())),
            ("f", J::A(fs)),
            ("d", d.map(J::I).unwrap_or(J::Null)),
        ]));
    }
    let kind = if adt.is_enum() {
        "enum"
    } else if adt.is_union() {
        "union"
    } else {
        "struct"
    };
    let local = did.is_local();
    let (file, line) = if local { loc(tcx, tcx.def_span(did)) } else { (String::new(), 0) };
    let vis = local && tcx.visibility(did).is_public();
    cx.adts.insert(
        p.to_string(),
        J::O(vec![
            ("kind", s(kind)),
            ("local", J::B(local)),
            ("v", J::A(vs)),
            ("file", s(file)),
            ("line", i(line)),
            ("pub", J::B(vis)),
        ]),
    );
}

fn loc<'tcx>(tcx: TyCtxt<'tcx>, sp: rustc_span::Span) -> (String, usize) {
    let sm = tcx.sess.source_map();
    let sp = sp.source_callsite();
    let l = sm.lookup_char_pos(sp.lo());
    let f = l.file.name.prefer_local_unconditionally().to_string();
    (f, l.line)
}

fn line<'tcx>(tcx: TyCtxt<'tcx>, sp: rustc_span::Span) -> usize {
    tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo()).line
}

fn inst_id<'tcx>(cx: &mut Cx<'tcx>, env: TypingEnv<'tcx>, did: DefId, args: GenericArgsRef<'tcx>) -> usize {
    let args = cx.tcx.erase_and_anonymize_regions(args);
    let key = (did, args, env);
    if let Some(x) = cx.inst_ids.get(&key) {
        return *x;
    }
    let id = cx.insts.len();
    cx.insts.push(J::Null);
    cx.inst_ids.insert(key, id);
    cx.queue.push_back((id, did, args, env));
    id
}

/// Does this crate have a body for the item that is worth walking?
fn walkable<'tcx>(cx: &Cx<'tcx>, did: DefId) -> bool {
    did.is_local() && cx.tcx.is_mir_available(did)
        && !matches!(cx.tcx.def_kind(did), DefKind::Ctor(..))
}

/// A reference to a callee: {i: local instance, p: path, ga: generic arg types, ...}
fn callee<'tcx>(cx: &mut Cx<'tcx>, env: TypingEnv<'tcx>, did: DefId, args: GenericArgsRef<'tcx>) -> J {
    let tcx = cx.tcx;
    let orig = path_of(cx, did);
    let is_trait_item = tcx.trait_of_assoc(did).is_some();
    let self_ty = if is_trait_item { args.types().next().map(|t| i(ty_id(cx, t))).unwrap_or(J::Null) } else { J::Null };
    let ga: Vec<J> = args.types().map(|t| i(ty_id(cx, t))).collect();
    let mut o: Vec<(&'static str, J)> = vec![];
    let args_e = tcx.erase_and_anonymize_regions(args);
    let res = if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, did, args_e)))
            .ok()
            .and_then(|r| r.ok())
            .flatten()
    } else {
        None
    };
    match res {
        Some(inst) => {
            let (rdid, rargs, extra): (DefId, GenericArgsRef<'tcx>, &str) = match inst.def {
                InstanceKind::Item(d) => (d, inst.args, ""),
                InstanceKind::Intrinsic(d) => (d, inst.args, "intrinsic"),
                InstanceKind::Virtual(d, _) => (d, inst.args, "dyn"),
                InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                    // args[0] is the closure type
                    let cargs = match inst.args.type_at(0).kind() {
                        ty::Closure(_, a) => *a,
                        _ => inst.args,
                    };
                    (closure, cargs, "once")
                }
                InstanceKind::Shim(ShimKind::FnPtr(d, t)) => match t.kind() {
                    ty::FnDef(fd, fa) => {
                        let fa = fa.skip_binder();
                        let r = Instance::try_resolve(tcx, env, *fd, tcx.erase_and_anonymize_regions(fa)).ok().flatten();
                        match r {
                            Some(Instance { def: InstanceKind::Item(d2), args: a2 }) => (d2, a2, "fnshim"),
                            _ => (*fd, fa, "fnshim"),
                        }
                    }
                    _ => (d, inst.args, "fnptr"),
                },
                _ => (did, args, "shim"),
            };
            if extra != "" {
                o.push(("x", s(extra)));
            }
            let p = path_of(cx, rdid);
            if p != orig {
                o.push(("tp", s(orig)));
            }
            o.push(("p", s(p)));
            if walkable(cx, rdid) && extra != "dyn" && extra != "intrinsic" {
                o.push(("i", i(inst_id(cx, env, rdid, rargs))));
            }
            if tcx.is_closure_like(rdid) {
                o.push(("cl", J::B(true)));
            }
        }
        None => {
            o.push(("p", s(orig)));
            if is_trait_item {
                o.push(("x", s("unres")));
            }
            if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
                o.push(("x", s("ctor")));
            }
        }
    }
    o.push(("st", self_ty));
    o.push(("ga", J::A(ga)));
    if tcx.is_foreign_item(did) {
        o.push(("foreign", J::B(true)));
    }
    J::O(o)
}

fn place<'tcx>(cx: &mut Cx<'tcx>, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
    let tcx = cx.tcx;
    let mut pj = Vec::new();
    for (base, el) in p.as_ref().iter_projections() {
        let bt = base.ty(&body.local_decls, tcx);
        pj.push(match el {
            ProjectionElem::Deref => s("*"),
            ProjectionElem::Field(f, _) => {
                let mut v = vec![s("f"), i(f.index())];
                if let ty::Adt(a, _) = bt.ty.kind() {
                    let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                    if a.is_enum() || a.is_struct() || a.is_union() {
                        let vd = a.variant(vi);
                        v.push(s(vd.fields[f].name.to_string()));
                        let ap = path_of(cx, a.did());
                        v.push(s(ap));
                    }
                }
                J::A(v)
            }
            ProjectionElem::Downcast(n, vi) => {
                J::A(vec![s("d"), i(vi.index()), n.map(|x| s(x.to_string())).unwrap_or(J::Null)])
            }
            ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.index())]),
            ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)])
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
            }
            _ => s("o"),
        });
    }
    if pj.is_empty() {
        J::A(vec![i(p.local.index())])
    } else {
        J::A(vec![i(p.local.index()), J::A(pj)])
    }
}

fn konst<'tcx>(cx: &mut Cx<'tcx>, env: TypingEnv<'tcx>, c: &Const<'tcx>) -> J {
    let tcx = cx.tcx;
    let t = c.ty();
    let mut o: Vec<(&'static str, J)> = vec![("t", i(ty_id(cx, t)))];
    if let ty::FnDef(did, args) = t.kind() {
        let f = callee(cx, env, *did, args.skip_binder());
        o.push(("fn", f));
        return J::O(o);
    }
    if let Const::Unevaluated(u, _) = c {
        if let Some(p) = u.promoted {
            o.push(("prom", i(p.index())));
            return J::O(o);
        }
        o.push(("cp", s(path_of(cx, u.def))));
    }
    match t.kind() {
        ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
            let bits = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.try_eval_bits(tcx, env))).ok().flatten();
            if let Some(b) = bits {
                let v: i128 = if let ty::Int(it) = t.kind() {
                    let w = it.bit_width().unwrap_or(64);
                    let sh = 128 - w as u32;
                    ((b as i128) << sh) >> sh
                } else {
                    b as i128
                };
                o.push(("v", J::I(v)));
            }
        }
        ty::Ref(_, inner, _) => {
            let val = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.eval(tcx, env, rustc_span::DUMMY_SP))).ok().and_then(|r| r.ok());
            if let Some(v) = val {
                match inner.kind() {
                    ty::Str => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                        }
                    }
                    ty::Slice(e) if *e == tcx.types.u8 => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            o.push(("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                        }
                    }
                    ty::Array(e, n) if *e == tcx.types.u8 => {
                        if let (ConstValue::Scalar(sc), Some(n)) = (v, n.try_to_target_usize(tcx)) {
                            {
                                let ptr = sc.to_pointer(&tcx);
                                if let Some(prov) = ptr.provenance {
                                    if let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) =
                                        tcx.global_alloc(prov.alloc_id())
                                    {
                                        let off = ptr.into_raw_parts().1.bytes() as usize;
                                        let a = m.inner();
                                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + n as usize);
                                        o.push(("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                                    }
                                }
                            }
                        }
                    }
                    _ => {
                        // reference to a static?
                        if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                            if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) =
                                tcx.try_get_global_alloc(p.provenance.alloc_id())
                            {
                                o.push(("static", s(path_of(cx, d))));
                            }
                        }
                    }
                }
            }
        }
        ty::RawPtr(..) => {
            if let Const::Val(ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), _) = c {
                if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) =
                    tcx.try_get_global_alloc(p.provenance.alloc_id())
                {
                    o.push(("static", s(path_of(cx, d))));
                }
            }
        }
        ty::Float(_) => {
            o.push(("dbg", s(format!("{c}"))));
        }
        _ => {
            // unit-like enum constants and the like
            o.push(("dbg", s(with_no_trimmed_paths!(format!("{c}")))));
        }
    }
    J::O(o)
}

fn operand<'tcx>(cx: &mut Cx<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
    match op {
        Operand::Copy(p) => J::A(vec![s("c"), place(cx, body, p)]),
        Operand::Move(p) => J::A(vec![s("m"), place(cx, body, p)]),
        Operand::Constant(c) => {
            let k = konst(cx, env, &c.const_);
            J::A(vec![s("k"), k])
        }
        _ => J::A(vec![s("k"), J::O(vec![("dbg", s("runtime_checks"))])]),
    }
}

fn rvalue<'tcx>(cx: &mut Cx<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
    match r {
        Rvalue::Use(o, ..) => J::A(vec![s("use"), operand(cx, env, body, o)]),
        Rvalue::Repeat(o, _) => J::A(vec![s("repeat"), operand(cx, env, body, o)]),
        Rvalue::Ref(_, bk, p) => J::A(vec![
            s("ref"),
            place(cx, body, p),
            J::B(matches!(bk, BorrowKind::Mut { .. })),
        ]),
        Rvalue::ThreadLocalRef(d) => {
            let p = path_of(cx, *d);
            J::A(vec![s("tls"), s(p)])
        }
        Rvalue::RawPtr(k, p) => J::A(vec![s("raw"), place(cx, body, p), s(format!("{k:?}"))]),
        Rvalue::Cast(k, o, t) => {
            let ks = match k {
                CastKind::PointerCoercion(c, _) => format!("{c:?}"),
                k => format!("{k:?}"),
            };
            let from = o.ty(&body.local_decls, cx.tcx);
            let f = ty_id(cx, from);
            J::A(vec![s("cast"), operand(cx, env, body, o), s(ks), i(ty_id(cx, *t)), i(f)])
        }
        Rvalue::BinaryOp(op, b) => J::A(vec![
            s("bin"),
            s(format!("{op:?}")),
            operand(cx, env, body, &b.0),
            operand(cx, env, body, &b.1),
        ]),
        Rvalue::UnaryOp(op, o) => J::A(vec![s("un"), s(format!("{op:?}")), operand(cx, env, body, o)]),
        Rvalue::Discriminant(p) => {
            let t = p.ty(&body.local_decls, cx.tcx).ty;
            let t = ty_id(cx, t);
            J::A(vec![s("discr"), place(cx, body, p), i(t)])
        }
        Rvalue::Aggregate(k, ops) => {
            let kj = match &**k {
                AggregateKind::Array(_) => J::O(vec![("k", s("array"))]),
                AggregateKind::Tuple => J::O(vec![("k", s("tuple"))]),
                AggregateKind::Adt(did, vi, _, _, fidx) => {
                    let p = path_of(cx, *did);
                    let adt = cx.tcx.adt_def(*did);
                    dump_adt(cx, *did, &p);
                    let v = adt.variant(*vi);
                    let fnames: Vec<J> = match fidx {
                        Some(f) => vec![s(v.fields[*f].name.to_string())],
                        None => v.fields.iter().map(|f| s(f.name.to_string())).collect(),
                    };
                    J::O(vec![
                        ("k", s("adt")),
                        ("p", s(p)),
                        ("v", s(v.name.to_string())),
                        ("e", J::B(adt.is_enum())),
                        ("f", J::A(fnames)),
                    ])
                }
                AggregateKind::Closure(did, args) => {
                    let p = path_of(cx, *did);
                    let id = if walkable(cx, *did) { i(inst_id(cx, env, *did, *args)) } else { J::Null };
                    J::O(vec![("k", s("closure")), ("p", s(p)), ("i", id), ("f", J::A(closure_names(cx.tcx, *did)))])
                }
                AggregateKind::Coroutine(did, args) | AggregateKind::CoroutineClosure(did, args) => {
                    let p = path_of(cx, *did);
                    let id = if walkable(cx, *did) { i(inst_id(cx, env, *did, *args)) } else { J::Null };
                    J::O(vec![("k", s("coroutine")), ("p", s(p)), ("i", id), ("f", J::A(closure_names(cx.tcx, *did)))])
                }
                AggregateKind::RawPtr(..) => J::O(vec![("k", s("rawptr"))]),
            };
            let v = ops.iter().map(|o| operand(cx, env, body, o)).collect();
            J::A(vec![s("agg"), kj, J::A(v)])
        }
        Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), place(cx, body, p)])]),
        Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), operand(cx, env, body, o)]),
        Rvalue::Reborrow(_, _, p) => J::A(vec![s("use"), J::A(vec![s("c"), place(cx, body, p)])]),
    }
}

fn body_json<'tcx>(cx: &mut Cx<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
    let tcx = cx.tcx;
    let mut names: FxHashMap<usize, String> = FxHashMap::default();
    let mut upvars: Vec<J> = vec![];
    for v in body.var_debug_info.iter() {
        if let VarDebugInfoContents::Place(p) = &v.value {
            if p.projection.is_empty() {
                names.entry(p.local.index()).or_insert(v.name.to_string());
            } else {
                upvars.push(J::A(vec![s(v.name.to_string()), place(cx, body, p)]));
            }
        }
    }
    let locals: Vec<J> = body
        .local_decls
        .iter_enumerated()
        .map(|(l, d)| {
            let t = ty_id(cx, d.ty);
            match names.get(&l.index()) {
                Some(n) => J::A(vec![i(t), s(n.clone())]),
                None => J::A(vec![i(t)]),
            }
        })
        .collect();
    let mut blocks = Vec::new();
    for bb in body.basic_blocks.iter() {
        let mut st = Vec::new();
        for x in bb.statements.iter() {
            match &x.kind {
                StatementKind::Assign(b) => {
                    let (p, r) = &**b;
                    let pj = place(cx, body, p);
                    let rj = rvalue(cx, env, body, r);
                    st.push(J::A(vec![s("="), pj, rj, i(line(tcx, x.source_info.span))]));
                }
                StatementKind::SetDiscriminant { place: p, variant_index } => {
                    let pj = place(cx, body, p);
                    st.push(J::A(vec![s("sd"), pj, i(variant_index.index())]));
                }
                StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), i(l.index())])),
                _ => {}
            }
        }
        let term = bb.terminator();
        let ln = line(tcx, term.source_info.span);
        let unw = |u: &UnwindAction| match u {
            UnwindAction::Cleanup(b) => i(b.index()),
            _ => J::Null,
        };
        let t = match &term.kind {
            TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("t", i(target.index()))]),
            TerminatorKind::FalseEdge { real_target, .. } => J::O(vec![("k", s("goto")), ("t", i(real_target.index()))]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::O(vec![("k", s("goto")), ("t", i(real_target.index()))]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(&body.local_decls, tcx);
                let d = operand(cx, env, body, discr);
                let tv = targets
                    .iter()
                    .map(|(v, b)| J::A(vec![J::I(v as i128), i(b.index())]))
                    .collect();
                J::O(vec![
                    ("k", s("switch")),
                    ("d", d),
                    ("dt", i(ty_id(cx, dt))),
                    ("tv", J::A(tv)),
                    ("o", i(targets.otherwise().index())),
                ])
            }
            TerminatorKind::Return => J::O(vec![("k", s("ret"))]),
            TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::O(vec![("k", s("resume"))]),
            TerminatorKind::CoroutineDrop => J::O(vec![("k", s("cdrop"))]),
            TerminatorKind::Drop { place: p, target, unwind, .. } => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let tid = ty_id(cx, t);
                cx.glue.entry(tid).or_insert((t, env));
                J::O(vec![
                    ("k", s("drop")),
                    ("p", place(cx, body, p)),
                    ("ty", i(tid)),
                    ("t", i(target.index())),
                    ("u", unw(unwind)),
                ])
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let f = match func {
                    Operand::Constant(c) => match c.const_.ty().kind() {
                        ty::FnDef(did, ga) => callee(cx, env, *did, ga.skip_binder()),
                        _ => J::O(vec![("x", s("ptr"))]),
                    },
                    o => {
                        let oj = operand(cx, env, body, o);
                        J::O(vec![("x", s("ptr")), ("op", oj)])
                    }
                };
                let aj = args.iter().map(|a| operand(cx, env, body, &a.node)).collect();
                J::O(vec![
                    ("k", s("call")),
                    ("f", f),
                    ("a", J::A(aj)),
                    ("d", place(cx, body, destination)),
                    ("t", target.map(|b| i(b.index())).unwrap_or(J::Null)),
                    ("u", unw(unwind)),
                ])
            }
            TerminatorKind::TailCall { .. } => J::O(vec![("k", s("ret"))]),
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                    AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                    AssertKind::DivisionByZero(_) => "divzero".into(),
                    AssertKind::RemainderByZero(_) => "remzero".into(),
                    _ => "other".into(),
                };
                J::O(vec![
                    ("k", s("assert")),
                    ("c", operand(cx, env, body, cond)),
                    ("e", J::B(*expected)),
                    ("m", s(m)),
                    ("t", i(target.index())),
                    ("u", unw(unwind)),
                ])
            }
            TerminatorKind::Yield { value, resume, drop, .. } => J::O(vec![
                ("k", s("yield")),
                ("v", operand(cx, env, body, value)),
                ("t", i(resume.index())),
                ("dr", drop.map(|b| i(b.index())).unwrap_or(J::Null)),
            ]),
            TerminatorKind::InlineAsm { .. } => J::O(vec![("k", s("unreachable"))]),
        };
        let t = match t {
            J::O(mut v) => {
                v.push(("l", i(ln)));
                J::O(v)
            }
            t => t,
        };
        blocks.push(J::O(vec![
            ("s", J::A(st)),
            ("t", t),
            ("c", if bb.is_cleanup { J::B(true) } else { J::Null }),
        ]));
    }
    vec![
        ("argc", i(body.arg_count)),
        ("locals", J::A(locals)),
        ("upv", if upvars.is_empty() { J::Null } else { J::A(upvars) }),
        ("blocks", J::A(blocks)),
    ]
}

fn glue_walk<'tcx>(
    cx: &mut Cx<'tcx>,
    env: TypingEnv<'tcx>,
    t: Ty<'tcx>,
    seen: &mut Vec<Ty<'tcx>>,
    out: &mut Vec<J>,
    depth: usize,
) {
    let tcx = cx.tcx;
    if depth > 14 || seen.contains(&t) {
        return;
    }
    seen.push(t);
    match t.kind() {
        ty::Adt(a, args) => {
            if a.is_manually_drop() {
                return;
            }
            if a.is_phantom_data() {
                glue_walk(cx, env, args.type_at(0), seen, out, depth + 1);
                return;
            }
            if let Some(d) = tcx.adt_destructor(a.did()) {
                let p = path_of(cx, a.did());
                let mut o = vec![("p", s(p)), ("ty", i(ty_id(cx, t)))];
                if walkable(cx, d.did) {
                    // impl args correspond to the ADT's args for Drop impls
                    let id = inst_id(cx, env, d.did, args);
                    o.push(("i", i(id)));
                }
                out.push(J::O(o));
            }
            for v in a.variants().iter() {
                for f in v.fields.iter() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let ft = tcx
                        .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft))
                        .unwrap_or(ft);
                    glue_walk(cx, env, ft, seen, out, depth + 1);
                }
            }
        }
        ty::Tuple(ts) => {
            for t in ts.iter() {
                glue_walk(cx, env, t, seen, out, depth + 1);
            }
        }
        ty::Array(t, _) | ty::Slice(t) => glue_walk(cx, env, *t, seen, out, depth + 1),
        ty::Closure(_, a) => {
            for t in a.as_closure().upvar_tys().iter() {
                glue_walk(cx, env, t, seen, out, depth + 1);
            }
        }
        ty::Coroutine(_, a) => {
            for t in a.as_coroutine().upvar_tys().iter() {
                glue_walk(cx, env, t, seen, out, depth + 1);
            }
        }
        ty::Dynamic(..) => {
            let id = ty_id(cx, t);
            out.push(J::O(vec![("p", s("dyn")), ("ty", i(id))]));
        }
        ty::Param(_) => {
            let id = ty_id(cx, t);
            out.push(J::O(vec![("p", s("param")), ("ty", i(id))]));
        }
        _ => {}
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &Path) {
    let mut cx = Cx {
        tcx,
        types: vec![],
        type_ids: FxHashMap::default(),
        insts: vec![],
        inst_ids: FxHashMap::default(),
        queue: VecDeque::new(),
        adts: FxHashMap::default(),
        glue: FxHashMap::default(),
        promoted_bodies: FxHashMap::default(),
        paths: FxHashMap::default(),
    };
    // coroutine bodies: take them before the state transform
    for l in tcx.mir_keys(()).iter() {
        if tcx.is_coroutine(l.to_def_id()) {
            let b = tcx.mir_promoted(*l).0.borrow().clone();
            cx.promoted_bodies.insert(l.to_def_id(), b);
        }
    }
    // item table and roots
    let mut fns = Vec::new();
    let mut consts = Vec::new();
    for l in tcx.mir_keys(()).iter() {
        let did = l.to_def_id();
        let kind = tcx.def_kind(did);
        match kind {
            DefKind::Fn | DefKind::AssocFn => {
                let args = ty::GenericArgs::identity_for_item(tcx, did);
                let env = TypingEnv::post_analysis(tcx, did);
                let p = path_of(&mut cx, did);
                let id = if walkable(&cx, did) { i(inst_id(&mut cx, env, did, args)) } else { J::Null };
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                let ins: Vec<J> = sig.inputs().iter().map(|t| i(ty_id(&mut cx, *t))).collect();
                let outp = ty_id(&mut cx, sig.output());
                let (file, ln) = loc(tcx, tcx.def_span(did));
                let vis = tcx.visibility(did).is_public();
                let asy = tcx.asyncness(did).is_async();
                let sig_s = with_no_trimmed_paths!(tcx.fn_sig(did).instantiate_identity().skip_norm_wip().to_string());
                let no_mangle = tcx.codegen_fn_attrs(did).contains_extern_indicator();
                let implt = tcx
                    .impl_of_assoc(did)
                    .and_then(|im| tcx.impl_opt_trait_ref(im))
                    .map(|t| t.skip_binder().def_id);
                let implt = implt.map(|d| s(path_of(&mut cx, d))).unwrap_or(J::Null);
                let from_exp = tcx.def_span(did).from_expansion();
                fns.push(J::O(vec![
                    ("p", s(p)),
                    ("i", id),
                    ("in", J::A(ins)),
                    ("out", i(outp)),
                    ("sig", s(sig_s)),
                    ("file", s(file)),
                    ("line", i(ln)),
                    ("pub", J::B(vis)),
                    ("async", J::B(asy)),
                    ("extern", J::B(no_mangle)),
                    ("trait", implt),
                    ("macro", J::B(from_exp)),
                ]));
            }
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                let p = path_of(&mut cx, did);
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let mutable = matches!(kind, DefKind::Static { mutability: rustc_hir::Mutability::Mut, .. });
                let is_static = matches!(kind, DefKind::Static { .. });
                let env = TypingEnv::post_analysis(tcx, did);
                let freeze = t.is_freeze(tcx, env);
                let (file, ln) = loc(tcx, tcx.def_span(did));
                let mut o = vec![
                    ("p", s(p)),
                    ("t", i(ty_id(&mut cx, t))),
                    ("static", J::B(is_static)),
                    ("mut", J::B(mutable)),
                    ("freeze", J::B(freeze)),
                    ("tls", J::B(is_static && tcx.is_thread_local_static(did))),
                    ("file", s(file)),
                    ("line", i(ln)),
                ];
                let body: Option<Body<'tcx>> = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    tcx.mir_for_ctfe(did).clone()
                }))
                .ok();
                if let Some(b) = body {
                    o.extend(body_json(&mut cx, env, &b));
                }
                consts.push(J::O(o));
            }
            _ => {}
        }
    }
    // walk
    while let Some((id, did, args, env)) = cx.queue.pop_front() {
        let body: Body<'tcx> = match cx.promoted_bodies.get(&did) {
            Some(b) => b.clone(),
            None => tcx.instance_mir(InstanceKind::Item(did)).clone(),
        };
        let inst = Instance { def: InstanceKind::Item(did), args };
        let norm = |b: Body<'tcx>| -> Body<'tcx> {
            match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b.clone())) {
                Ok(b) => b,
                Err(_) => b,
            }
        };
        let body = norm(body);
        let p = path_of(&mut cx, did);
        let mut o: Vec<(&'static str, J)> = vec![("id", i(id)), ("p", s(p))];
        let ga: Vec<J> = args.types().map(|t| i(ty_id(&mut cx, t))).collect();
        o.push(("ga", J::A(ga)));
        let (file, ln) = loc(tcx, tcx.def_span(did));
        o.push(("file", s(file)));
        o.push(("line", i(ln)));
        if tcx.is_closure_like(did) {
            o.push(("cl", J::B(true)));
            let parent = tcx.parent(did);
            o.push(("parent", s(path_of(&mut cx, parent))));
        }
        if tcx.is_coroutine(did) {
            o.push(("co", J::B(true)));
        }
        let ident = ty::GenericArgs::identity_for_item(tcx, did);
        if args == ident || args.types().next().is_none() {
            o.push(("generic", J::B(true)));
        }
        o.extend(body_json(&mut cx, env, &body));
        // promoted constants
        if !matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            let proms = tcx.promoted_mir(did);
            if !proms.is_empty() {
                let v: Vec<J> = proms
                    .iter()
                    .map(|b| {
                        let b = norm(b.clone());
                        J::O(body_json(&mut cx, env, &b))
                    })
                    .collect();
                o.push(("prom", J::A(v)));
            }
        }
        cx.insts[id] = J::O(o);
        if cx.queue.is_empty() {
            // resolve pending drop glue (may enqueue Drop impls)
            let todo: Vec<(usize, (Ty<'tcx>, TypingEnv<'tcx>))> = cx.glue.iter().map(|(k, v)| (*k, *v)).collect();
            for (_, (t, e)) in todo {
                let mut outv = vec![];
                glue_walk(&mut cx, e, t, &mut vec![], &mut outv, 0);
            }
        }
    }
    let todo: Vec<(usize, (Ty<'tcx>, TypingEnv<'tcx>))> = cx.glue.iter().map(|(k, v)| (*k, *v)).collect();
    let mut glue = Vec::new();
    for (k, (t, e)) in todo {
        let mut outv = vec![];
        glue_walk(&mut cx, e, t, &mut vec![], &mut outv, 0);
        glue.push((k.to_string(), J::A(outv)));
    }
    // trait impls
    let mut impls = Vec::new();
    for (tr, list) in tcx.all_local_trait_impls(()).iter() {
        let tp = path_of(&mut cx, *tr);
        for im in list.iter() {
            let sty = tcx.type_of(im.to_def_id()).instantiate_identity().skip_norm_wip();
            let st = ty_id(&mut cx, sty);
            let neg = matches!(tcx.impl_polarity(im.to_def_id()), ty::ImplPolarity::Negative);
            let (file, ln) = loc(tcx, tcx.def_span(im.to_def_id()));
            let header = with_no_trimmed_paths!(tcx.impl_trait_ref(im.to_def_id()).instantiate_identity().skip_norm_wip().to_string());
            let derived = tcx.is_builtin_derived(im.to_def_id());
            impls.push(J::O(vec![
                ("trait", s(tp.clone())),
                ("self", i(st)),
                ("neg", J::B(neg)),
                ("unsafe", J::B(tcx.impl_trait_header(im.to_def_id()).safety.is_unsafe())),
                ("hdr", s(header)),
                ("derived", J::B(derived)),
                ("file", s(file)),
                ("line", i(ln)),
            ]));
        }
    }
    let mut insts = Vec::new();
    std::mem::swap(&mut insts, &mut cx.insts);
    let mut types = Vec::new();
    std::mem::swap(&mut types, &mut cx.types);
    let adts: Vec<(String, J)> = {
        let mut m = FxHashMap::default();
        std::mem::swap(&mut m, &mut cx.adts);
        #[allow(rustc::potential_query_instability)]
        let mut v: Vec<_> = m.into_iter().collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v
    };
    let j = J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("types", J::A(types)),
        ("adts", J::M(adts)),
        ("insts", J::A(insts)),
        ("fns", J::A(fns)),
        ("consts", J::A(consts)),
        ("impls", J::A(impls)),
        ("glue", J::M(glue)),
    ]);
    let mut o = String::with_capacity(1 << 24);
    j.write(&mut o);
    std::fs::write(out, o).expect("write facts");
}
