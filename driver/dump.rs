use crate::json::{i, s, V};
use rustc_abi::FieldIdx;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;

pub struct Cx<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub tys: HashMap<Ty<'tcx>, usize>,
    pub ty_out: Vec<V>,
    pub cdump: crate::corpus::ConstDump<'tcx>,
    pub mono: bool,
    /// functions of the standard library's control-flow types that bodies refer to
    pub called: Vec<DefId>,
}

/// Option, Result and `?` are followed into the standard library: they only route values.
pub fn std_flow(tcx: TyCtxt<'_>, d: DefId) -> bool {
    if d.is_local() || tcx.crate_name(d.krate).as_str() != "core" {
        return false;
    }
    let n = did(tcx, d);
    ["core::bool::", "core::option::", "core::result::", "core::ops::control_flow::", "core::ops::try_trait::"]
        .iter()
        .any(|p| n.starts_with(p))
        && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
        && tcx.is_mir_available(d)
}

pub fn did(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}
pub fn pname(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

impl<'tcx> Cx<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Cx { tcx, tys: HashMap::new(), ty_out: vec![], cdump: crate::corpus::ConstDump::new(), mono: false, called: vec![] }
    }

    pub fn span(&self, sp: Span) -> V {
        let sm = self.tcx.sess.source_map();
        let root = sp.source_callsite();
        let lo = sm.lookup_char_pos(root.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => {
                r.local_path().map(|p| p.display().to_string()).unwrap_or_default()
            }
            _ => String::new(),
        };
        s(format!("{}:{}", f, lo.line))
    }
    pub fn line(&self, sp: Span) -> i128 {
        let sm = self.tcx.sess.source_map();
        sm.lookup_char_pos(sp.source_callsite().lo()).line as i128
    }

    pub fn ty(&mut self, t: Ty<'tcx>) -> V {
        let t = self.tcx.erase_and_anonymize_regions(t);
        i(self.ty_id(t) as i128)
    }
    pub fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(k) = self.tys.get(&t) {
            return *k;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(V::Null);
        let tcx = self.tcx;
        let name = with_no_trimmed_paths!(t.to_string());
        let mut o: Vec<(&'static str, V)> = vec![("s", s(name))];
        let mut args: Vec<V> = vec![];
        let k = match *t.kind() {
            ty::Adt(d, a) => {
                o.push(("def", s(did(tcx, d.did()))));
                o.push((
                    "adt",
                    s(if d.is_enum() {
                        "enum"
                    } else if d.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                args = self.gargs(a);
                "adt"
            }
            ty::Ref(_, x, m) => {
                o.push(("mut", V::B(m.is_mut())));
                args.push(i(self.ty_id(x) as i128));
                "ref"
            }
            ty::RawPtr(x, m) => {
                o.push(("mut", V::B(m.is_mut())));
                args.push(i(self.ty_id(x) as i128));
                "ptr"
            }
            ty::Slice(x) => {
                args.push(i(self.ty_id(x) as i128));
                "slice"
            }
            ty::Array(x, n) => {
                args.push(i(self.ty_id(x) as i128));
                if let Some(n) = n.try_to_target_usize(tcx) {
                    o.push(("len", i(n as i128)));
                }
                "array"
            }
            ty::Tuple(l) => {
                for x in l.iter() {
                    let k = self.ty_id(x);
                    args.push(i(k as i128));
                }
                "tuple"
            }
            ty::Param(p) => {
                o.push(("name", s(p.name.as_str())));
                "param"
            }
            ty::FnDef(d, a) => {
                o.push(("def", s(did(tcx, d))));
                args = self.gargs(a.skip_binder());
                "fndef"
            }
            ty::Closure(d, a) => {
                o.push(("def", s(did(tcx, d))));
                args = self.gargs(a);
                "closure"
            }
            ty::FnPtr(sig, _) => {
                for x in sig.skip_binder().inputs_and_output.iter() {
                    let k = self.ty_id(x);
                    args.push(i(k as i128));
                }
                "fnptr"
            }
            ty::Dynamic(p, ..) => {
                if let Some(d) = p.principal_def_id() {
                    o.push(("def", s(did(tcx, d))));
                }
                "dyn"
            }
            ty::Alias(_, a) => {
                args = self.gargs(a.args);
                "alias"
            }
            ty::Bool => "bool",
            ty::Char => "char",
            ty::Int(_) => "int",
            ty::Uint(_) => "uint",
            ty::Float(_) => "float",
            ty::Str => "str",
            ty::Never => "never",
            _ => "other",
        };
        o.push(("k", s(k)));
        o.push(("args", V::A(args)));
        use rustc_middle::ty::TypeVisitableExt;
        if matches!(k, "adt" | "tuple" | "array" | "slice" | "closure" | "dyn")
            && !t.has_param()
            && !t.has_aliases()
            && !t.has_infer()
            && !t.has_escaping_bound_vars()
        {
            o.push(("nd", V::B(t.needs_drop(tcx, ty::TypingEnv::fully_monomorphized()))));
        }
        self.ty_out[id] = V::O(o);
        id
    }
    pub fn gargs(&mut self, a: GenericArgsRef<'tcx>) -> Vec<V> {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                ty::GenericArgKind::Type(t) => v.push(self.ty(t)),
                ty::GenericArgKind::Const(c) => v.push(match c.try_to_target_usize(self.tcx) {
                    Some(n) => V::O(vec![("const", i(n as i128))]),
                    None => V::O(vec![("const", s(format!("{}", c)))]),
                }),
                ty::GenericArgKind::Lifetime(_) => {}
                _ => {}
            }
        }
        v
    }

    pub fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> V {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, V)> = vec![
            ("def", s(did(tcx, d))),
            ("name", s(pname(tcx, d))),
            ("args", V::A(self.gargs(a))),
        ];
        if !self.mono && std_flow(tcx, d) && !self.called.contains(&d) {
            self.called.push(d);
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            if !sig.safety().is_safe() {
                o.push(("unsafe", V::B(true)));
            }
            if sig.output().skip_binder().is_never() {
                o.push(("never", V::B(true)));
            }
        }
        if self.mono {
            let a2 = tcx.erase_and_anonymize_regions(a);
            let a2 = tcx
                .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(a2))
                .unwrap_or(a2);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, a2) {
                o.push(("rdef", s(did(tcx, inst.def_id()))));
                o.push(("rname", s(pname(tcx, inst.def_id()))));
                o.push(("rargs", V::A(self.gargs(inst.args))));
                if crate::corpus::inspectable(tcx, &inst) {
                    let k = self.cdump.inst(inst);
                    o.push(("inst", i(k as i128)));
                }
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(did(tcx, tr))));
            o.push(("item", s(tcx.item_name(d).as_str())));
            if a.len() > 0 {
                if let Some(t) = a.get(0).and_then(|x| x.as_type()) {
                    o.push(("self", self.ty(t)));
                }
            }
            let a2 = tcx.erase_and_anonymize_regions(a);
            let a2 = tcx
                .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(a2))
                .unwrap_or(a2);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, a2) {
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "item",
                    _ => "shim",
                };
                if !self.mono && kind == "item" && std_flow(tcx, inst.def_id()) && !self.called.contains(&inst.def_id()) {
                    self.called.push(inst.def_id());
                }
                o.push((
                    "res",
                    V::O(vec![
                        ("def", s(did(tcx, inst.def_id()))),
                        ("name", s(pname(tcx, inst.def_id()))),
                        ("kind", s(kind)),
                        ("args", V::A(self.gargs(inst.args))),
                    ]),
                ));
            }
        } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("iself", self.ty(t)));
            o.push(("item", s(tcx.item_name(d).as_str())));
        }
        V::O(o)
    }

    pub fn cst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> V {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o: Vec<(&'static str, V)> = vec![("ty", self.ty(t))];
        match *t.kind() {
            ty::FnDef(d, a) => {
                o.push(("fn", self.callee(d, a.skip_binder(), env)));
                return V::O(o);
            }
            ty::Closure(d, a) => {
                o.push(("closure", s(did(tcx, d))));
                if self.mono {
                    let k = self.cdump.inst(ty::Instance::new_raw(d, a));
                    o.push(("cinst", i(k as i128)));
                }
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c {
            o.push(("uneval", s(did(tcx, u.def))));
            o.push(("uname", s(pname(tcx, u.def))));
            o.push(("uargs", V::A(self.gargs(u.args))));
            if let Some(p) = u.promoted {
                o.push(("promoted", i(p.as_u32() as i128)));
            }
            if let Some(tr) = tcx.trait_of_assoc(u.def) {
                o.push(("utrait", s(did(tcx, tr))));
            }
        }
        if let Const::Ty(_, ct) = c {
            if let ty::ConstKind::Param(p) = ct.kind() {
                o.push(("param", s(p.name.as_str())));
                return V::O(o);
            }
        }
        let too_generic = match c {
            Const::Unevaluated(u, _) => {
                use rustc_middle::ty::TypeVisitableExt;
                u.args.has_param()
            }
            _ => false,
        };
        if !too_generic {
            if let Some(n) = c.try_eval_scalar_int(tcx, env) {
                o.push(("bits", s(n.to_bits(n.size()).to_string())));
                o.push(("size", i(n.size().bytes() as i128)));
                return V::O(o);
            }
            if let Ok(val) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                if let ty::Ref(_, inner, _) = *t.kind() {
                    if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8)
                    {
                        if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                            o.push(("str", s(String::from_utf8_lossy(b).into_owned())));
                            return V::O(o);
                        }
                    }
                }
                if let ConstValue::ZeroSized = val {
                    o.push(("zst", V::B(true)));
                    return V::O(o);
                }
                let mono = std::mem::replace(&mut self.mono, false);
                let mut cd = std::mem::replace(&mut self.cdump, crate::corpus::ConstDump::new());
                let v = cd.value(self, val, t, env);
                self.cdump = cd;
                self.mono = mono;
                o.push(("val", v));
            }
        }
        V::O(o)
    }

    pub fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> V {
        let tcx = self.tcx;
        let mut pr = vec![];
        for (base, e) in p.iter_projections() {
            let v = match e {
                PlaceElem::Deref => s("*"),
                PlaceElem::Field(f, fty) => {
                    let bt = base.ty(&body.local_decls, tcx);
                    let (mut nm, mut adt, mut var) = (V::Null, V::Null, V::Null);
                    match *bt.ty.kind() {
                        ty::Adt(d, _) => {
                            adt = s(did(tcx, d.did()));
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let vd = d.variant(vi);
                            if d.is_enum() {
                                var = s(vd.name.as_str());
                            }
                            nm = s(vd.fields[f].name.as_str());
                        }
                        ty::Closure(..) => adt = s("{closure}"),
                        ty::Tuple(_) => adt = s("()"),
                        _ => {}
                    }
                    V::A(vec![
                        s("f"),
                        i(f.as_u32() as i128),
                        nm,
                        adt,
                        var,
                        self.ty(fty),
                    ])
                }
                PlaceElem::Index(l) => V::A(vec![s("i"), i(l.as_u32() as i128)]),
                PlaceElem::ConstantIndex { offset, min_length, from_end } => V::A(vec![
                    s("ci"),
                    i(offset as i128),
                    V::B(from_end),
                    i(min_length as i128),
                ]),
                PlaceElem::Subslice { from, to, from_end } => {
                    V::A(vec![s("sub"), i(from as i128), i(to as i128), V::B(from_end)])
                }
                PlaceElem::Downcast(n, vi) => {
                    let bt = base.ty(&body.local_decls, tcx);
                    let nm = match *bt.ty.kind() {
                        ty::Adt(d, _) => s(d.variant(vi).name.as_str()),
                        _ => n.map(|x| s(x.as_str())).unwrap_or(V::Null),
                    };
                    V::A(vec![s("d"), nm, i(vi.as_u32() as i128)])
                }
                _ => s("?"),
            };
            pr.push(v);
        }
        V::A(vec![i(p.local.as_u32() as i128), V::A(pr)])
    }
    pub fn op(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> V {
        match o {
            Operand::Copy(p) => V::A(vec![s("c"), self.place(p, body)]),
            Operand::Move(p) => V::A(vec![s("m"), self.place(p, body)]),
            Operand::Constant(c) => V::A(vec![s("k"), self.cst(&c.const_, env)]),
            _ => V::A(vec![s("rt")]),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> V {
        let tcx = self.tcx;
        V::A(match r {
            Rvalue::Use(o, ..) => vec![s("use"), self.op(o, b, env)],
            Rvalue::Repeat(o, n) => vec![
                s("repeat"),
                self.op(o, b, env),
                n.try_to_target_usize(tcx).map(|x| i(x as i128)).unwrap_or(V::Null),
            ],
            Rvalue::Ref(_, k, p) => vec![
                s("ref"),
                V::B(matches!(k, BorrowKind::Mut { .. })),
                self.place(p, b),
            ],
            Rvalue::RawPtr(k, p) => {
                vec![s("raw"), V::B(matches!(k, RawPtrKind::Mut)), self.place(p, b)]
            }
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(&b.local_decls, tcx);
                vec![
                    s("cast"),
                    s(format!("{:?}", k)),
                    self.op(o, b, env),
                    self.ty(*t),
                    self.ty(st),
                ]
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&b.local_decls, tcx);
                vec![
                    s("bin"),
                    s(format!("{:?}", op)),
                    self.op(&ab.0, b, env),
                    self.op(&ab.1, b, env),
                    self.ty(t),
                ]
            }
            Rvalue::UnaryOp(op, a) => vec![s("un"), s(format!("{:?}", op)), self.op(a, b, env)],
            Rvalue::Discriminant(p) => vec![s("discr"), self.place(p, b)],
            Rvalue::Aggregate(k, ops) => {
                let kv = match **k {
                    AggregateKind::Array(t) => V::A(vec![s("array"), self.ty(t)]),
                    AggregateKind::Tuple => V::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, a, _, fi) => {
                        let ad = tcx.adt_def(d);
                        let vd = ad.variant(vi);
                        let fs: Vec<V> = match fi {
                            Some(f) => vec![s(vd.fields[f].name.as_str())],
                            None => vd.fields.iter().map(|f| s(f.name.as_str())).collect(),
                        };
                        V::A(vec![
                            s("adt"),
                            s(did(tcx, d)),
                            s(vd.name.as_str()),
                            V::A(fs),
                            V::A(self.gargs(a)),
                            i(vi.as_u32() as i128),
                        ])
                    }
                    AggregateKind::Closure(d, a) => {
                        let mut v = vec![s("closure"), s(did(tcx, d)), V::A(self.gargs(a))];
                        if self.mono {
                            let k = self.cdump.inst(ty::Instance::new_raw(d, a));
                            v.push(i(k as i128));
                        }
                        V::A(v)
                    }
                    AggregateKind::RawPtr(t, _) => V::A(vec![s("rawptr"), self.ty(t)]),
                    _ => V::A(vec![s("other")]),
                };
                let mut v = vec![];
                for o in ops.iter() {
                    v.push(self.op(o, b, env));
                }
                vec![s("agg"), kv, V::A(v)]
            }
            Rvalue::CopyForDeref(p) => {
                vec![s("use"), V::A(vec![s("c"), self.place(p, b)])]
            }
            other => vec![s("other"), s(format!("{:?}", other))],
        })
    }

    pub fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> V {
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pv = self.place(&p, b);
                names.push(V::A(vec![s(v.name.as_str()), pv]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        let pv = self.place(p, b);
                        let rv = self.rv(r, b, env);
                        st.push(V::A(vec![s("="), pv, rv, i(self.line(x.source_info.span))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pv = self.place(place, b);
                        st.push(V::A(vec![
                            s("setd"),
                            pv,
                            i(variant_index.as_u32() as i128),
                        ]));
                    }
                    StatementKind::Intrinsic(x) => match &**x {
                        NonDivergingIntrinsic::Assume(o) => {
                            let ov = self.op(o, b, env);
                            st.push(V::A(vec![s("assume"), ov]));
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let (a, bb, n) = (
                                self.op(&c.src, b, env),
                                self.op(&c.dst, b, env),
                                self.op(&c.count, b, env),
                            );
                            st.push(V::A(vec![s("copy"), a, bb, n]));
                        }
                    },
                    StatementKind::StorageDead(l) => {
                        st.push(V::A(vec![s("dead"), i(l.as_u32() as i128)]));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = term.source_info.span;
            let ln = i(self.line(sp));
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => i(b.as_u32() as i128),
                _ => V::Null,
            };
            let bbv = |b: &BasicBlock| i(b.as_u32() as i128);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => V::A(vec![s("goto"), bbv(target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&b.local_decls, self.tcx);
                    let mut tv = vec![];
                    for (val, bl) in targets.iter() {
                        tv.push(V::A(vec![s(val.to_string()), i(bl.as_u32() as i128)]));
                    }
                    V::A(vec![
                        s("switch"),
                        self.op(discr, b, env),
                        V::A(tv),
                        bbv(&targets.otherwise()),
                        self.ty(t),
                        ln,
                    ])
                }
                TerminatorKind::Return => V::A(vec![s("ret")]),
                TerminatorKind::Unreachable => V::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume => V::A(vec![s("resume")]),
                TerminatorKind::UnwindTerminate(_) => V::A(vec![s("abort")]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let t = place.ty(&b.local_decls, self.tcx).ty;
                    V::A(vec![
                        s("drop"),
                        self.place(place, b),
                        bbv(target),
                        uw(unwind),
                        self.ty(t),
                        ln,
                    ])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let mut av = vec![];
                    for a in args.iter() {
                        av.push(self.op(&a.node, b, env));
                    }
                    let mac = sp.ctxt().outer_expn_data();
                    let mv = match mac.kind {
                        rustc_span::ExpnKind::Macro(_, n) => s(n.as_str()),
                        _ => V::Null,
                    };
                    V::A(vec![
                        s("call"),
                        self.op(func, b, env),
                        V::A(av),
                        self.place(destination, b),
                        target.as_ref().map(bbv).unwrap_or(V::Null),
                        uw(unwind),
                        ln,
                        mv,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => V::A(vec![
                            s("bounds"),
                            self.op(len, b, env),
                            self.op(index, b, env),
                        ]),
                        AssertKind::Overflow(op, x, y) => V::A(vec![
                            s("overflow"),
                            s(format!("{:?}", op)),
                            self.op(x, b, env),
                            self.op(y, b, env),
                        ]),
                        AssertKind::OverflowNeg(x) => V::A(vec![s("negoverflow"), self.op(x, b, env)]),
                        AssertKind::DivisionByZero(x) => V::A(vec![s("div0"), self.op(x, b, env)]),
                        AssertKind::RemainderByZero(x) => V::A(vec![s("rem0"), self.op(x, b, env)]),
                        other => V::A(vec![s("other"), s(format!("{:?}", other))]),
                    };
                    V::A(vec![
                        s("assert"),
                        self.op(cond, b, env),
                        V::B(*expected),
                        m,
                        bbv(target),
                        uw(unwind),
                        ln,
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => V::A(vec![s("goto"), bbv(real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => V::A(vec![s("goto"), bbv(real_target)]),
                other => V::A(vec![s("other"), s(format!("{:?}", other))]),
            };
            blocks.push(V::O(vec![
                ("s", V::A(st)),
                ("t", t),
                ("cl", V::B(bb.is_cleanup)),
            ]));
        }
        V::O(vec![
            ("argc", i(b.arg_count as i128)),
            ("locals", V::A(locals)),
            ("names", V::A(names)),
            ("blocks", V::A(blocks)),
        ])
    }
}

struct UnsafeVis<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(Span, &'static str, DefId)>,
}
impl<'tcx> Visitor<'tcx> for UnsafeVis<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.found.push((b.span, "block", b.hir_id.owner.to_def_id()));
        }
        intravisit::walk_block(self, b);
    }
    fn visit_item(&mut self, it: &'tcx rustc_hir::Item<'tcx>) {
        if let rustc_hir::ItemKind::Impl(im) = &it.kind {
            if let Some(of) = &im.of_trait {
                if matches!(of.safety, rustc_hir::Safety::Unsafe) {
                    self.found.push((it.span, "impl", it.owner_id.to_def_id()));
                }
            }
        }
        intravisit::walk_item(self, it);
    }
}

/// the type and const parameters of an item, outermost first, as they are named in its types
fn gen_names<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> V {
    V::A(
        ty::GenericArgs::identity_for_item(tcx, d)
            .iter()
            .filter(|a| a.as_region().is_none())
            .map(|a| s(a.to_string()))
            .collect(),
    )
}

pub fn dump_crate<'tcx>(tcx: TyCtxt<'tcx>) -> V {
    let cx = Cx::new(tcx);
    dump_crate_with(cx, vec![])
}
pub fn dump_crate_with<'tcx>(mut cx: Cx<'tcx>, mut extra: Vec<(&'static str, V)>) -> V {
    let tcx = cx.tcx;
    let ev = tcx.effective_visibilities(());
    let mut fns = vec![];
    let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|d| did(tcx, d.to_def_id()));
    // of the corpus itself only the constants and the instances they reach matter
    let wit = tcx.crate_name(LOCAL_CRATE).as_str().starts_with("facet_witness");
    if wit {
        keys.retain(|d| did(tcx, d.to_def_id()).starts_with("facet_witness::fmt_entry"));
    }
    for ld in keys {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let is_const_like = matches!(
            kind,
            DefKind::Const { .. }
                | DefKind::AssocConst { .. }
                | DefKind::Static { .. }
                | DefKind::AnonConst
        );
        if matches!(kind, DefKind::Ctor(..)) {
            continue;
        }
        let env = TypingEnv::post_analysis(tcx, d);
        let body: &Body<'tcx> =
            if is_const_like { tcx.mir_for_ctfe(ld) } else { tcx.optimized_mir(d) };
        let promoted = tcx.promoted_mir(d);
        let mut o: Vec<(&'static str, V)> = vec![
            ("id", s(did(tcx, d))),
            ("name", s(pname(tcx, d))),
            ("kind", s(format!("{:?}", kind))),
            ("span", cx.span(tcx.def_span(d))),
            ("macro", V::B(tcx.def_span(d).from_expansion())),
            ("pub", V::B(tcx.def_kind(d) != DefKind::Closure && matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.visibility(d).is_public())),
            ("reach", V::B(ev.is_reachable(ld))),
        ];
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            o.push(("unsafe", V::B(!sig.safety().is_safe())));
        }
        if let Some(p) = tcx.opt_parent(d) {
            o.push(("parent", s(did(tcx, p))));
        }
        let root = tcx.typeck_root_def_id(d);
        if root != d {
            o.push(("root", s(did(tcx, root))));
        }
        // enclosing impl
        let mut cur = Some(root);
        while let Some(c) = cur {
            if let DefKind::Impl { of_trait } = tcx.def_kind(c) {
                let st = tcx.type_of(c).instantiate_identity().skip_norm_wip();
                let mut io: Vec<(&'static str, V)> = vec![("self", cx.ty(st)), ("id", s(did(tcx, c)))];
                if of_trait {
                    let tr = tcx.impl_trait_ref(c).instantiate_identity().skip_norm_wip();
                    io.push(("trait", s(did(tcx, tr.def_id))));
                    io.push(("targs", V::A(cx.gargs(tr.args))));
                }
                o.push(("impl", V::O(io)));
                break;
            }
            cur = tcx.opt_parent(c);
        }
        o.push(("item", s(tcx.opt_item_name(root).map(|n| n.to_string()).unwrap_or_default())));
        o.push(("gen", gen_names(tcx, root)));
        o.push(("body", cx.body(body, env)));
        let mut pv = vec![];
        for p in promoted.iter() {
            pv.push(cx.body(p, env));
        }
        o.push(("promoted", V::A(pv)));
        fns.push(V::O(o));
    }
    let mut std = vec![];
    let mut k = 0;
    while k < cx.called.len() {
        let d = cx.called[k];
        k += 1;
        let env = TypingEnv::post_analysis(tcx, d);
        let b = cx.body(tcx.optimized_mir(d), env);
        let mut o: Vec<(&'static str, V)> = vec![
            ("id", s(did(tcx, d))),
            ("gen", gen_names(tcx, d)),
            ("name", s(pname(tcx, d))),
            ("kind", s("Std")),
            ("item", s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())),
            ("body", b),
        ];
        let mut pv = vec![];
        for p in tcx.promoted_mir(d).iter() {
            pv.push(cx.body(p, env));
        }
        o.push(("promoted", V::A(pv)));
        std.push(V::O(o));
    }
    // ADTs
    let mut adts = vec![];
    let mut impls = vec![];
    let mut consts = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        if wit {
            break;
        }
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let ad = tcx.adt_def(d);
                let mut vs = vec![];
                let discrs: Vec<String> = if ad.is_enum() {
                    ad.discriminants(tcx).map(|(_, x)| x.val.to_string()).collect()
                } else {
                    vec!["0".to_string()]
                };
                for (k, v) in ad.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        fs.push(V::A(vec![
                            s(f.name.as_str()),
                            cx.ty(ft),
                            V::B(f.vis.is_public()),
                        ]));
                    }
                    vs.push(V::O(vec![
                        ("name", s(v.name.as_str())),
                        ("discr", s(discrs[k.as_usize()].clone())),
                        ("fields", V::A(fs)),
                    ]));
                }
                adts.push(V::O(vec![
                    ("id", s(did(tcx, d))),
                    ("pub", V::B(ev.is_reachable(ld))),
                    ("span", cx.span(tcx.def_span(d))),
                    ("kind", s(format!("{:?}", tcx.def_kind(d)))),
                    ("repr", s(format!("{:?}", ad.repr()))),
                    ("variants", V::A(vs)),
                ]));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut io: Vec<(&'static str, V)> = vec![
                    ("id", s(did(tcx, d))),
                    ("self", cx.ty(st)),
                    ("span", cx.span(tcx.def_span(d))),
                ];
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    io.push(("trait", s(did(tcx, tr.def_id))));
                    io.push(("targs", V::A(cx.gargs(tr.args))));
                    io.push(("neg", V::B(tcx.impl_polarity(d) == ty::ImplPolarity::Negative)));
                }
                impls.push(V::O(io));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if tcx.generics_of(d).is_empty() && tcx.generics_of(d).parent.is_none() && t.is_integral() {
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        if let Some(n) = v.try_to_scalar_int() {
                            consts.push(V::A(vec![
                                s(did(tcx, d)),
                                s(n.to_bits(n.size()).to_string()),
                            ]));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let mut uv = UnsafeVis { tcx, found: vec![] };
    if !wit {
        tcx.hir_visit_all_item_likes_in_crate(&mut uv);
    }
    let mut uns = vec![];
    for (sp, k, owner) in uv.found {
        uns.push(V::A(vec![s(k), s(did(tcx, owner)), cx.span(sp)]));
    }
    let cd = std::mem::replace(&mut cx.cdump, crate::corpus::ConstDump::new());
    let mut o = vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).as_str())),
        ("fns", V::A(fns)),
        ("std", V::A(std)),
        ("adts", V::A(adts)),
        ("impls", V::A(impls)),
        ("consts", V::A(consts)),
        ("unsafe", V::A(uns)),
        ("allocs", cd.finish()),
        ("types", V::A(cx.ty_out)),
    ];
    o.append(&mut extra);
    V::O(o)
}
#[allow(unused)]
pub fn fidx(n: usize) -> FieldIdx {
    FieldIdx::from_usize(n)
}
