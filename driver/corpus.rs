use crate::dump::{did, pname, Cx};
use crate::json::{i, s, V};
use rustc_const_eval::interpret::{OpTy, Projectable};
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::ConstValue;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_ast::attr::AttributeExt;
use rustc_middle::ty::util::IntTypeExt;
use std::collections::HashMap;

type Ecx<'tcx> = rustc_const_eval::const_eval::CompileTimeInterpCx<'tcx>;

pub struct ConstDump<'tcx> {
    pub seen: HashMap<(u64, u64, Ty<'tcx>, u64), usize>,
    pub out: Vec<V>,
    pub fns: Vec<ty::Instance<'tcx>>,
    pub fidx: HashMap<ty::Instance<'tcx>, usize>,
}

/// Instances whose (monomorphic) body is part of the analysed program.
pub fn inspectable<'tcx>(tcx: TyCtxt<'tcx>, inst: &ty::Instance<'tcx>) -> bool {
    let d = inst.def_id();
    match inst.def {
        ty::InstanceKind::Item(_) => {
            (tcx.crate_name(d.krate).as_str().starts_with("facet") && tcx.is_mir_available(d))
                || crate::dump::std_flow(tcx, d)
        }
        ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => {
            tcx.crate_name(d.krate).as_str().starts_with("facet") || true
        }
        ty::InstanceKind::Shim(ty::ShimKind::FnPtr { .. }) => true,
        _ => false,
    }
}

impl<'tcx> ConstDump<'tcx> {
    pub fn new() -> Self {
        ConstDump { seen: HashMap::new(), out: vec![], fns: vec![], fidx: HashMap::new() }
    }
    pub fn inst(&mut self, x: ty::Instance<'tcx>) -> usize {
        if let Some(k) = self.fidx.get(&x) {
            return *k;
        }
        self.fns.push(x);
        self.fidx.insert(x, self.fns.len() - 1);
        self.fns.len() - 1
    }
    pub fn finish(self) -> V {
        V::A(self.out)
    }
    pub fn value(
        &mut self,
        cx: &mut Cx<'tcx>,
        val: ConstValue,
        t: Ty<'tcx>,
        env: TypingEnv<'tcx>,
    ) -> V {
        let tcx = cx.tcx;
        use rustc_middle::ty::TypeVisitableExt;
        if t.has_param() {
            return V::Null;
        }
        let _ = env; let env = TypingEnv::fully_monomorphized();
        match rustc_const_eval::const_eval::mk_eval_cx_for_const_val(
            tcx.at(rustc_span::DUMMY_SP),
            env,
            val,
            t,
        ) {
            Some((ecx, op)) => self.op(cx, &ecx, &op, 0),
            None => V::Null,
        }
    }
    pub fn op(&mut self, cx: &mut Cx<'tcx>, ecx: &Ecx<'tcx>, op: &OpTy<'tcx>, depth: usize) -> V {
        let tcx = cx.tcx;
        let t = op.layout.ty;
        if depth > 400 {
            return s("<deep>");
        }
        match *t.kind() {
            ty::Bool => match ecx.read_scalar(op).discard_err().and_then(|x| x.to_bool().discard_err()) {
                Some(b) => V::B(b),
                None => V::Null,
            },
            ty::Char | ty::Uint(_) => match ecx.read_scalar(op).discard_err() {
                Some(Scalar::Int(n)) => i(n.to_bits(n.size()) as i128),
                _ => V::Null,
            },
            ty::Int(_) => match ecx.read_scalar(op).discard_err() {
                Some(Scalar::Int(n)) => i(n.to_int(n.size())),
                _ => V::Null,
            },
            ty::Float(_) => match ecx.read_scalar(op).discard_err() {
                Some(Scalar::Int(n)) => V::O(vec![("float", s(n.to_bits(n.size()).to_string()))]),
                _ => V::Null,
            },
            ty::FnPtr(..) => match ecx.read_scalar(op).discard_err() {
                Some(Scalar::Ptr(p, _)) => {
                    let (prov, _) = p.into_raw_parts();
                    match tcx.try_get_global_alloc(prov.alloc_id()) {
                        Some(GlobalAlloc::Function { instance, .. }) => {
                            let k = self.inst(instance);
                            V::O(vec![
                                ("fnptr", s(did(tcx, instance.def_id()))),
                                ("name", s(pname(tcx, instance.def_id()))),
                                ("args", V::A(cx.gargs(instance.args))),
                                ("inst", i(k as i128)),
                            ])
                        }
                        _ => V::Null,
                    }
                }
                _ => V::Null,
            },
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let Some(mp) = ecx.deref_pointer(op).discard_err() else {
                    return V::Null;
                };
                if inner.is_str() {
                    return match ecx.read_str(&mp).discard_err() {
                        Some(x) => V::S(x.to_string()),
                        None => V::Null,
                    };
                }
                let (prov, off) = mp.ptr().into_raw_parts();
                let aid = prov.map(|p| p.alloc_id().0.get()).unwrap_or(0);
                let len = match *inner.kind() {
                    ty::Slice(_) | ty::Array(..) => mp.len(ecx).discard_err().unwrap_or(0),
                    ty::Dynamic(..) => return V::O(vec![("dynref", cx.ty(inner))]),
                    _ => 0,
                };
                let key = (aid, off.bytes(), inner, len);
                if aid != 0 {
                    if let Some(k) = self.seen.get(&key) {
                        return V::O(vec![("ref", i(*k as i128))]);
                    }
                }
                let k = self.out.len();
                self.out.push(V::Null);
                if aid != 0 {
                    self.seen.insert(key, k);
                }
                let o: OpTy<'tcx> = mp.into();
                let v = self.op(cx, ecx, &o, depth + 1);
                let tv = cx.ty(inner);
                self.out[k] = V::O(vec![("ty", tv), ("v", v)]);
                V::O(vec![("ref", i(k as i128))])
            }
            ty::Slice(_) | ty::Array(..) => {
                let n = op.len(ecx).discard_err().unwrap_or(0);
                let mut v = vec![];
                for k in 0..n.min(4096) {
                    match ecx.project_index(op, k).discard_err() {
                        Some(e) => v.push(self.op(cx, ecx, &e, depth + 1)),
                        None => v.push(V::Null),
                    }
                }
                V::A(v)
            }
            ty::Tuple(l) => {
                let mut v = vec![];
                for k in 0..l.len() {
                    match ecx.project_field(op, crate::dump::fidx(k)).discard_err() {
                        Some(e) => v.push(self.op(cx, ecx, &e, depth + 1)),
                        None => v.push(V::Null),
                    }
                }
                V::A(v)
            }
            ty::Adt(ad, _) if !ad.is_union() => {
                let (vi, base) = if ad.is_enum() {
                    match ecx.read_discriminant(op).discard_err() {
                        Some(vi) => match ecx.project_downcast(op, vi).discard_err() {
                            Some(b) => (vi, b),
                            None => return V::Null,
                        },
                        None => return V::Null,
                    }
                } else {
                    (rustc_abi::FIRST_VARIANT, op.clone())
                };
                let vd = ad.variant(vi);
                let mut fs = vec![];
                for (k, f) in vd.fields.iter().enumerate() {
                    let v = match ecx.project_field(&base, crate::dump::fidx(k)).discard_err() {
                        Some(e) => self.op(cx, ecx, &e, depth + 1),
                        None => V::Null,
                    };
                    fs.push((f.name.to_string(), v));
                }
                V::O(vec![
                    ("adt", s(did(tcx, ad.did()))),
                    ("var", if ad.is_enum() { s(vd.name.as_str()) } else { V::Null }),
                    ("f", V::M(fs)),
                    ("ty", cx.ty(t)),
                ])
            }
            ty::FnDef(d, _) => V::O(vec![("fndef", s(did(tcx, d)))]),
            _ => V::O(vec![("opaque", cx.ty(t))]),
        }
    }
}


fn attrs_of(tcx: TyCtxt<'_>, d: rustc_hir::def_id::DefId) -> V {
    let mut docs = vec![];
    let mut fac = vec![];
    #[allow(deprecated)]
    for a in tcx.get_all_attrs(d) {
        if let Some(t) = a.doc_str() {
            docs.push(s(t.as_str()));
        } else if a.name().map(|n| n.as_str() == "facet").unwrap_or(false) {
            if let rustc_attr_ir::Attribute::DeriveHelper(it) = a {
                fac.push(s(match &it.args {
                    rustc_attr_ir::AttrArgs::Delimited(da) => {
                        rustc_ast_pretty::pprust::tts_to_string(&da.tokens)
                    }
                    _ => String::new(),
                }));
            }
        }
    }
    V::O(vec![("doc", V::A(docs)), ("facet", V::A(fac))])
}

const TRAITS: &[(&str, &[&str])] = &[
    ("Debug", &["core", "fmt", "Debug"]),
    ("Display", &["core", "fmt", "Display"]),
    ("Clone", &["core", "clone", "Clone"]),
    ("Default", &["core", "default", "Default"]),
    ("PartialEq", &["core", "cmp", "PartialEq"]),
    ("Eq", &["core", "cmp", "Eq"]),
    ("PartialOrd", &["core", "cmp", "PartialOrd"]),
    ("Ord", &["core", "cmp", "Ord"]),
    ("Hash", &["core", "hash", "Hash"]),
    ("FromStr", &["core", "str", "FromStr"]),
    ("Send", &["core", "marker", "Send"]),
    ("Sync", &["core", "marker", "Sync"]),
    ("Copy", &["core", "marker", "Copy"]),
    ("Unpin", &["core", "marker", "Unpin"]),
];

fn truth<'tcx>(
    cx: &mut Cx<'tcx>,
    t: Ty<'tcx>,
    env: TypingEnv<'tcx>,
    traits: &HashMap<&'static str, rustc_hir::def_id::DefId>,
) -> V {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let tcx = cx.tcx;
    let mut o: Vec<(&'static str, V)> = vec![("ty", cx.ty(t))];
    let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
    let mut tm = vec![];
    for (n, _) in TRAITS {
        let d = traits[n];
        let g = tcx.generics_of(d).count();
        let args: Vec<ty::GenericArg<'tcx>> =
            if g == 2 { vec![t.into(), t.into()] } else { vec![t.into()] };
        let r = infcx.type_implements_trait(d, args, penv).must_apply_modulo_regions();
        tm.push((n.to_string(), V::B(r)));
    }
    o.push(("traits", V::M(tm)));
    o.push(("needs_drop", V::B(t.needs_drop(tcx, env))));
    let Ok(l) = tcx.layout_of(env.as_query_input(t)) else {
        return V::O(o);
    };
    o.push(("size", i(l.size.bytes() as i128)));
    o.push(("align", i(l.align.abi.bytes() as i128)));
    let lcx = ty::layout::LayoutCx::new(tcx, env);
    match *t.kind() {
        ty::Tuple(ts) => {
            let mut fs = vec![];
            for (k, ft) in ts.iter().enumerate() {
                fs.push(V::O(vec![
                    ("name", s(k.to_string())),
                    ("ty", cx.ty(ft)),
                    ("off", i(l.fields.offset(k).bytes() as i128)),
                ]));
            }
            o.push(("kind", s("tuple")));
            o.push(("fields", V::A(fs)));
        }
        ty::Adt(ad, args) if !ad.is_union() => {
            o.push(("def", s(did(tcx, ad.did()))));
            o.push(("local", V::B(ad.did().is_local())));
            if ad.did().is_local() {
                o.push(("attrs", attrs_of(tcx, ad.did())));
            }
            o.push(("kind", s(if ad.is_enum() { "enum" } else { "struct" })));
            let mut gp = vec![];
            let gen_ = tcx.generics_of(ad.did());
            for p in gen_.own_params.iter() {
                if let ty::GenericParamDefKind::Type { .. } = p.kind {
                    let a = args[p.index as usize].expect_ty();
                    gp.push(V::O(vec![("name", s(p.name.as_str())), ("ty", cx.ty(a))]));
                }
            }
            o.push(("tparams", V::A(gp)));
            let discrs: Vec<i128> = if ad.is_enum() {
                ad.discriminants(tcx)
                    .map(|(_, x)| {
                        let sz = rustc_abi::Size::from_bits(
                            x.ty.primitive_size(tcx).bits(),
                        );
                        if x.ty.is_signed() {
                            sz.sign_extend(x.val) as i128
                        } else {
                            x.val as i128
                        }
                    })
                    .collect()
            } else {
                vec![0]
            };
            let mut vs = vec![];
            for (vi, v) in ad.variants().iter_enumerated() {
                let vl = if ad.is_enum() { l.for_variant(&lcx, vi) } else { l };
                let mut fs = vec![];
                for (k, f) in v.fields.iter().enumerate() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let ft = tcx
                        .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft))
                        .unwrap_or(ft);
                    let mut fo = vec![
                        ("name", s(f.name.as_str())),
                        ("ty", cx.ty(ft)),
                        ("off", i(vl.fields.offset(k).bytes() as i128)),
                    ];
                    if ad.did().is_local() {
                        fo.push(("attrs", attrs_of(tcx, f.did)));
                    }
                    fs.push(V::O(fo));
                }
                let mut vo = vec![
                    ("name", s(v.name.as_str())),
                    ("discr", i(discrs[vi.as_usize()])),
                    ("ctor", s(format!("{:?}", v.ctor_kind()))),
                    ("fields", V::A(fs)),
                ];
                if ad.did().is_local() {
                    vo.push(("attrs", attrs_of(tcx, v.def_id)));
                }
                vs.push(V::O(vo));
            }
            o.push(("variants", V::A(vs)));
            if ad.is_enum() {
                let dt = ad.repr().discr_type().to_ty(tcx);
                o.push(("dty", s(dt.to_string())));
                o.push(("repr", s(format!("{:?}", ad.repr()))));
                if let rustc_abi::Variants::Multiple { tag, tag_encoding, tag_field, .. } = &l.variants {
                    o.push(("tagsize", i(tag.size(&tcx).bytes() as i128)));
                    o.push((
                        "tagdirect",
                        V::B(matches!(tag_encoding, rustc_abi::TagEncoding::Direct)),
                    ));
                    o.push((
                        "tagoff",
                        i(l.fields.offset(tag_field.as_usize()).bytes() as i128),
                    ));
                }
            }
        }
        ty::Array(_, n) => {
            if let Some(n) = n.try_to_target_usize(tcx) {
                o.push(("len", i(n as i128)));
            }
        }
        _ => {}
    }
    V::O(o)
}

fn find_trait(tcx: TyCtxt<'_>, path: &[&str]) -> Option<rustc_hir::def_id::DefId> {
    for d in tcx.all_traits_including_private() {
        if tcx.crate_name(d.krate).as_str() == path[0]
            && tcx.item_name(d).as_str() == *path.last().unwrap()
        {
            let p = pname(tcx, d);
            if path.len() == 3 && !p.contains(&format!("::{}::", path[1])) {
                continue;
            }
            return Some(d);
        }
    }
    None
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> V {
    let mut cx = Cx::new(tcx);
    let env = TypingEnv::fully_monomorphized();
    let mut traits = HashMap::new();
    for (n, p) in TRAITS {
        traits.insert(*n, find_trait(tcx, p).unwrap_or_else(|| panic!("no trait {n}")));
    }
    let facet = find_trait(tcx, &["facet_core", "Facet"]).expect("Facet trait");
    let shape = tcx
        .associated_items(facet)
        .in_definition_order()
        .find(|x| x.name().as_str() == "SHAPE")
        .expect("SHAPE")
        .def_id;
    let mut corpus = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        if tcx.def_kind(d) != DefKind::TyAlias {
            continue;
        }
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let t = tcx.erase_and_anonymize_regions(t);
        let t = tcx
            .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t))
            .unwrap_or(t);
        let args = tcx.mk_args(&[t.into()]);
        let u = rustc_middle::mir::UnevaluatedConst::new(shape, args);
        let mut o: Vec<(&'static str, V)> = vec![
            ("alias", s(tcx.def_path(d).to_string_no_crate_verbose())),
            ("span", cx.span(tcx.def_span(d))),
        ];
        match tcx.const_eval_resolve(env, u, rustc_span::DUMMY_SP) {
            Ok(v) => {
                let st = tcx.type_of(shape).instantiate(tcx, args).skip_norm_wip();
                let st = tcx.erase_and_anonymize_regions(st);
                let mut cd = std::mem::replace(&mut cx.cdump, ConstDump::new());
                let val = cd.value(&mut cx, v, st, env);
                cx.cdump = cd;
                o.push(("shape", val));
            }
            Err(_) => o.push(("shape", V::Null)),
        }
        o.push(("truth", truth(&mut cx, t, env, &traits)));
        corpus.push(V::O(o));
    }
    // Monomorphic bodies of every function reachable from the tables.
    let mut insts = vec![];
    let mut k = 0;
    while k < cx.cdump.fns.len() {
        let inst = cx.cdump.fns[k];
        k += 1;
        let mut o: Vec<(&'static str, V)> = vec![
            ("def", s(did(tcx, inst.def_id()))),
            ("name", s(pname(tcx, inst.def_id()))),
            ("args", V::A(cx.gargs(inst.args))),
            ("span", cx.span(tcx.def_span(inst.def_id()))),
            ("kind", s(format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string())),
        ];
        if inspectable(tcx, &inst) {
            let b = tcx.instance_mir(inst.def);
            let b = inst.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                env,
                ty::EarlyBinder::bind(tcx, b.clone()),
            );
            cx.mono = true;
            let v = cx.body(&b, env);
            o.push(("body", v));
            let mut pv = vec![];
            if let ty::InstanceKind::Item(dd) = inst.def {
                for p in tcx.promoted_mir(dd).iter() {
                    let p = inst.instantiate_mir_and_normalize_erasing_regions(
                        tcx,
                        env,
                        ty::EarlyBinder::bind(tcx, p.clone()),
                    );
                    pv.push(cx.body(&p, env));
                }
            }
            o.push(("promoted", V::A(pv)));
            cx.mono = false;
        }
        insts.push(V::O(o));
    }
    // also the truth for every type that occurs in a shape's type id
    crate::dump::dump_crate_with(cx, vec![("corpus", V::A(corpus)), ("insts", V::A(insts))])
}
