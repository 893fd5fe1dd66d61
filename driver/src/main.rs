//! Dumps the type-checked program (MIR bodies, signatures, impl table) of one crate as JSON.
//!
//! Runs as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc. The crate whose name
//! equals $CLMIR_CRATE is written to $CLMIR_OUT; every other crate is compiled unchanged.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;

use json::J;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use std::collections::HashMap;

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("CLMIR_CRATE").unwrap_or_default();
        let out = std::env::var("CLMIR_OUT").unwrap_or_default();
        if !out.is_empty() && tcx.crate_name(LOCAL_CRATE).as_str() == want {
            let mut d = Dumper { tcx, tys: vec![], ty_ids: HashMap::new() };
            let j = d.dump();
            std::fs::write(&out, j.to_string()).expect("write dump");
        }
        Compilation::Continue
    }
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
}

fn s(x: impl ToString) -> J {
    J::S(x.to_string())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}

impl<'tcx> Dumper<'tcx> {
    /// Unique key of a definition.
    fn key(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn pretty(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::A(vec![s(f), n(lo.line)])
    }

    fn ga(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => v.push(self.tconst(c)),
            }
        }
        J::A(v)
    }

    fn tconst(&mut self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Param(p) => J::O(vec![("cparam", s(p.name)), ("i", n(p.index as usize))]),
            ty::ConstKind::Value(v) => match v.try_to_target_usize(self.tcx) {
                Some(u) => J::O(vec![("cval", J::I(u as i128))]),
                None => J::O(vec![("cother", s(format!("{c:?}")))]),
            },
            _ => J::O(vec![("cother", s(format!("{c:?}")))]),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.ty_ids.get(&t) {
            return n(*i);
        }
        let id = self.tys.len();
        self.ty_ids.insert(t, id);
        self.tys.push(J::Null);
        let j = self.ty_inner(t);
        self.tys[id] = j;
        n(id)
    }

    fn ty_inner(&mut self, t: Ty<'tcx>) -> J {
        let k = |x: &str| ("k", s(x));
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                J::O(vec![k("prim"), ("name", s(t))])
            }
            ty::Adt(d, a) => J::O(vec![
                k("adt"),
                ("path", s(self.pretty(d.did()))),
                ("key", s(self.key(d.did()))),
                ("args", self.ga(a)),
            ]),
            ty::Array(e, l) => {
                let e = self.ty(e);
                let l = self.tconst(l);
                J::O(vec![k("array"), ("elem", e), ("len", l)])
            }
            ty::Slice(e) => J::O(vec![k("slice"), ("elem", self.ty(e))]),
            ty::RawPtr(e, m) => J::O(vec![k("ptr"), ("elem", self.ty(e)), ("mut", J::B(m.is_mut()))]),
            ty::Ref(_, e, m) => J::O(vec![k("ref"), ("elem", self.ty(e)), ("mut", J::B(m.is_mut()))]),
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                self.fndef(d, a, None)
            }
            ty::FnPtr(..) => J::O(vec![k("fnptr")]),
            ty::Closure(d, a) => {
                let cl = a.as_closure();
                let up: Vec<J> = cl.upvar_tys().iter().map(|t| self.ty(t)).collect();
                J::O(vec![
                    k("closure"),
                    ("key", s(self.key(d))),
                    ("kind", s(format!("{:?}", cl.kind()))),
                    ("upvars", J::A(up)),
                    ("parent_args", {
                        let pa = cl.parent_args();
                        let mut v = vec![];
                        for a in pa.iter() {
                            match a.kind() {
                                GenericArgKind::Lifetime(_) => {}
                                GenericArgKind::Type(t) => v.push(self.ty(t)),
                                GenericArgKind::Const(c) => v.push(self.tconst(c)),
                            }
                        }
                        J::A(v)
                    }),
                ])
            }
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                J::O(vec![k("tuple"), ("args", J::A(v))])
            }
            ty::Param(p) => J::O(vec![k("param"), ("name", s(p.name)), ("i", n(p.index as usize))]),
            ty::Alias(_, a) => {
                let did = match a.kind {
                    ty::AliasTyKind::Projection { def_id } => Some(("proj", def_id)),
                    ty::AliasTyKind::Opaque { def_id } => Some(("opaque", def_id)),
                    ty::AliasTyKind::Inherent { def_id } => Some(("inherent", def_id)),
                    ty::AliasTyKind::Free { def_id } => Some(("free", def_id)),
                };
                match did {
                    Some((kind, d)) => {
                        let args = self.ga(a.args);
                        J::O(vec![
                            k("alias"),
                            ("kind", s(kind)),
                            ("path", s(self.pretty(d))),
                            ("key", s(self.key(d))),
                            ("name", s(self.tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
                            ("args", args),
                        ])
                    }
                    None => J::O(vec![k("other"), ("s", s(t))]),
                }
            }
            _ => J::O(vec![k("other"), ("s", s(with_no_trimmed_paths!(t.to_string())))]),
        }
    }

    fn fndef(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: Option<DefId>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("k", s("fndef")),
            ("path", s(self.pretty(d))),
            ("key", s(self.key(d))),
            ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
            ("args", self.ga(a)),
            ("unsafe", J::B(matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
                && tcx.fn_sig(d).skip_binder().safety().is_unsafe())),
        ];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.pretty(tr))));
            o.push(("trait_key", s(self.key(tr))));
            // number of (non-lifetime) args that belong to the trait
            let nt = a[..tcx.generics_of(tr).count().min(a.len())]
                .iter()
                .filter(|x| !matches!(x.kind(), GenericArgKind::Lifetime(_)))
                .count();
            o.push(("ntrait", n(nt)));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            o.push(("impl", s(self.key(im))));
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("impl_self", self.ty(st)));
        }
        if let Some(env) = env {
            let te = ty::TypingEnv::post_analysis(tcx, env);
            let a2 = tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, te, d, a2) {
                if let ty::InstanceKind::Item(rd) = inst.def {
                    if rd != d {
                        o.push(("res", s(self.key(rd))));
                        o.push(("res_path", s(self.pretty(rd))));
                        o.push(("res_args", self.ga(inst.args)));
                    }
                }
            }
        }
        J::O(o)
    }

    fn scalar_bytes(&self, c: &ConstValue, t: Ty<'tcx>) -> J {
        match *c {
            ConstValue::Scalar(sc) => match sc {
                mir::interpret::Scalar::Int(i) => {
                    let sz = i.size();
                    let bits = i.to_bits(sz);
                    match t.kind() {
                        ty::Float(ty::FloatTy::F64) => J::O(vec![("f", s(format!("{:?}", f64::from_bits(bits as u64)))), ("bits", J::I(bits as i128))]),
                        ty::Float(ty::FloatTy::F32) => J::O(vec![("f", s(format!("{:?}", f32::from_bits(bits as u32)))), ("bits", J::I(bits as i128))]),
                        ty::Int(_) => J::O(vec![("i", J::I(sz.sign_extend(bits)))]),
                        ty::Bool => J::O(vec![("b", J::B(bits != 0))]),
                        ty::Char => J::O(vec![("c", J::I(bits as i128))]),
                        _ => J::O(vec![("i", J::I(bits as i128))]),
                    }
                }
                mir::interpret::Scalar::Ptr(p, _) => {
                    let aid = p.provenance.alloc_id();
                    match self.tcx.try_get_global_alloc(aid) {
                        Some(mir::interpret::GlobalAlloc::Function { instance }) => {
                            J::O(vec![("fnptr", s(self.key(instance.def_id())))])
                        }
                        Some(mir::interpret::GlobalAlloc::Static(d)) => J::O(vec![("static", s(self.key(d)))]),
                        Some(mir::interpret::GlobalAlloc::Memory(a)) => {
                            let al = a.inner();
                            let off = p.into_raw_parts().1.bytes_usize();
                            let bytes = al.inspect_with_uninit_and_ptr_outside_interpreter(off..al.len());
                            J::O(vec![("mem", J::A(bytes.iter().take(4096).map(|b| n(*b as usize)).collect()))])
                        }
                        _ => J::O(vec![("opaque", s(format!("{c:?}")))]),
                    }
                }
            },
            ConstValue::ZeroSized => J::O(vec![("zst", J::B(true))]),
            ConstValue::Slice { alloc_id, meta } => {
                let al = self.tcx.global_alloc(alloc_id).unwrap_memory();
                let bytes = al.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..(meta as usize));
                let is_str = matches!(t.kind(), ty::Ref(_, x, _) if x.is_str());
                if is_str {
                    J::O(vec![("str", s(String::from_utf8_lossy(bytes)))])
                } else {
                    J::O(vec![("bytes", J::A(bytes.iter().map(|b| n(*b as usize)).collect()))])
                }
            }
            ConstValue::Indirect { .. } => J::O(vec![("opaque", s(format!("{c:?}")))]),
        }
    }

    fn constop(&mut self, c: &ConstOperand<'tcx>, env: DefId) -> J {
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = *t.kind() {
            let f = self.fndef(d, a.skip_binder(), Some(env));
            return J::O(vec![("fn", f)]);
        }
        let tj = self.ty(t);
        match c.const_ {
            mir::Const::Ty(_, cc) => J::O(vec![("ty", tj), ("tc", self.tconst(cc))]),
            mir::Const::Val(v, _) => {
                let b = self.scalar_bytes(&v, t);
                J::O(vec![("ty", tj), ("v", b)])
            }
            mir::Const::Unevaluated(u, _) => {
                let mut o = vec![
                    ("ty", tj),
                    ("def", s(self.key(u.def))),
                    ("path", s(self.pretty(u.def))),
                    ("args", self.ga(u.args)),
                ];
                if let Some(p) = u.promoted {
                    o.push(("promoted", n(p.as_usize())));
                } else if !u.def.is_local() {
                    let te = ty::TypingEnv::post_analysis(self.tcx, env);
                    if let Ok(v) = c.const_.eval(self.tcx, te, c.span) {
                        o.push(("v", self.scalar_bytes(&v, t)));
                    }
                }
                J::O(o)
            }
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), n(f.as_usize()), self.ty(t)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), n(v.as_usize())]),
                _ => J::A(vec![s("?"), s(format!("{e:?}"))]),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(v)])
    }

    fn op(&mut self, o: &Operand<'tcx>, env: DefId) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("p", self.place(p))]),
            Operand::Move(p) => J::O(vec![("p", self.place(p)), ("mv", J::B(true))]),
            Operand::Constant(c) => J::O(vec![("c", self.constop(c, env))]),
            Operand::RuntimeChecks(_) => J::O(vec![("rt", J::B(true))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: DefId) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.op(o, env)]),
            Rvalue::Repeat(o, c) => J::A(vec![s("repeat"), self.op(o, env), self.tconst(*c)]),
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                J::B(matches!(bk, BorrowKind::Mut { .. })),
                self.place(p),
            ]),
            Rvalue::RawPtr(k, p) => {
                J::A(vec![s("rawptr"), s(format!("{k:?}")), self.place(p)])
            }
            Rvalue::Cast(k, o, t) => {
                J::A(vec![s("cast"), s(format!("{k:?}")), self.op(o, env), self.ty(*t)])
            }
            Rvalue::BinaryOp(b, oo) => J::A(vec![
                s("bin"),
                s(format!("{b:?}")),
                self.op(&oo.0, env),
                self.op(&oo.1, env),
            ]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{u:?}")), self.op(o, env)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let mut v: Vec<J> = vec![];
                for o in ops.iter() {
                    v.push(self.op(o, env));
                }
                let kj = match &**k {
                    AggregateKind::Array(t) => J::O(vec![("k", s("array")), ("ty", self.ty(*t))]),
                    AggregateKind::Tuple => J::O(vec![("k", s("tuple"))]),
                    AggregateKind::Adt(d, vi, a, _, _) => {
                        let ad = self.tcx.adt_def(*d);
                        let var = ad.variant(*vi);
                        J::O(vec![
                            ("k", s("adt")),
                            ("path", s(self.pretty(*d))),
                            ("variant", n(vi.as_usize())),
                            ("vname", s(var.name)),
                            ("args", self.ga(a)),
                        ])
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, *d, a);
                        J::O(vec![("k", s("closure")), ("key", s(self.key(*d))), ("ty", self.ty(t))])
                    }
                    AggregateKind::RawPtr(t, _) => J::O(vec![("k", s("rawptr")), ("ty", self.ty(*t))]),
                    _ => J::O(vec![("k", s("other"))]),
                };
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("p", self.place(p))])]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), J::B(m.is_mut()), self.place(p)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.key(*d))]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.op(o, env)]),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, env: DefId) -> J {
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(&pr.0);
                        let r = self.rvalue(&pr.1, env);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("setd"), p, n(variant_index.as_usize()), sp]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::A(vec![s("intr"), s(format!("{i:?}")), sp]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr, env);
                    let dt = discr.ty(b, self.tcx);
                    let dt = self.ty(dt);
                    let mut v = vec![];
                    for (val, tb) in targets.iter() {
                        v.push(J::A(vec![J::I(val as i128), n(tb.as_usize())]));
                    }
                    J::A(vec![s("switch"), d, J::A(v), n(targets.otherwise().as_usize()), dt])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("unwind")]),
                TerminatorKind::Drop { place, target, .. } => {
                    J::A(vec![s("drop"), self.place(place), n(target.as_usize())])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func, env);
                    let mut v = vec![];
                    for a in args.iter() {
                        v.push(self.op(&a.node, env));
                    }
                    let d = self.place(destination);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(v),
                        d,
                        target.map(|t| n(t.as_usize())).unwrap_or(J::Null),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, env);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::DivisionByZero(_) => "div0",
                        AssertKind::RemainderByZero(_) => "rem0",
                        _ => "other",
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), n(target.as_usize()), s(m)])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_usize())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_usize())])
                }
                _ => J::A(vec![s("other"), s(format!("{:?}", t.kind))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("sp", sp),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        let mut dbg = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                dbg.push(J::A(vec![s(v.name), self.place(&p)]));
            }
        }
        J::O(vec![
            ("locals", J::A(locals)),
            ("argc", n(b.arg_count)),
            ("spread", b.spread_arg.map(|l| n(l.as_usize())).unwrap_or(J::Null)),
            ("blocks", J::A(blocks)),
            ("names", J::A(dbg)),
        ])
    }

    fn generics(&self, d: DefId) -> J {
        let g = self.tcx.generics_of(d);
        let mut names = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                names.push(s(p.name));
            }
        }
        J::A(names)
    }

    fn bounds(&mut self, d: DefId) -> J {
        let mut v = vec![];
        for p in self.tcx.param_env(d).caller_bounds() {
            if let ty::ClauseKind::Trait(tp) = p.kind().skip_binder() {
                let path = self.pretty(tp.trait_ref.def_id);
                let args = self.ga(tp.trait_ref.args);
                v.push(J::A(vec![s(path), args]));
            }
        }
        J::A(v)
    }

    fn dump(&mut self) -> J {
        let tcx = self.tcx;
        let mut bodies = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let b: &Body<'tcx> = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(d) {
                        continue;
                    }
                    tcx.optimized_mir(d)
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst | DefKind::Static { .. } => {
                    tcx.mir_for_ctfe(d)
                }
                _ => continue,
            };
            let mut o = vec![
                ("key", s(self.key(d))),
                ("path", s(self.pretty(d))),
                ("kind", s(format!("{kind:?}"))),
                ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
                ("generics", self.generics(d)),
                ("span", self.span(tcx.def_span(d))),
                ("mac", J::B(tcx.def_span(d).from_expansion())),
            ];
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                let ins: Vec<J> = sig.inputs().iter().map(|t| self.ty(*t)).collect();
                o.push(("inputs", J::A(ins)));
                o.push(("output", self.ty(sig.output())));
                o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                o.push(("vis", s(if tcx.visibility(d).is_public() { "pub" } else { "priv" })));
                o.push(("reach", J::B(tcx.effective_visibilities(()).is_reachable(*ld))));
                o.push(("bounds", self.bounds(d)));
                if let Some(im) = tcx.impl_of_assoc(d) {
                    o.push(("impl", s(self.key(im))));
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    o.push(("impl_self", self.ty(st)));
                    if tcx.impl_is_of_trait(im) {
                        let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                        o.push(("impl_trait", s(self.pretty(tr.def_id))));
                        let a = self.ga(tr.args);
                        o.push(("impl_trait_args", a));
                    }
                } else if let Some(tr) = tcx.trait_of_assoc(d) {
                    o.push(("in_trait", s(self.pretty(tr))));
                }
            }
            if matches!(kind, DefKind::Closure) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                o.push(("closure_ty", self.ty(t)));
            }
            // user-written unsafe blocks
            let mut finder = UnsafeFinder { n: 0, foreign: 0, spans: vec![] };
            if let Some(bid) = tcx.hir_maybe_body_owned_by(*ld) {
                use rustc_hir::intravisit::Visitor;
                finder.visit_body(bid);
            }
            o.push(("unsafe_blocks", n(finder.n)));
            o.push(("unsafe_foreign", n(finder.foreign)));
            o.push(("body", self.body(b, d)));
            if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst | DefKind::Static { .. }) {
                let pm = tcx.promoted_mir(d);
                let mut pv = vec![];
                for p in pm.iter() {
                    pv.push(self.body(p, d));
                }
                o.push(("promoted", J::A(pv)));
            }
            bodies.push(J::O(o));
        }

        let mut impls = vec![];
        let mut statics = vec![];
        let mut adts = vec![];
        let mut traits = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Static { mutability, .. } => {
                    statics.push(J::O(vec![
                        ("key", s(self.key(d))),
                        ("path", s(self.pretty(d))),
                        ("mut", J::B(mutability.is_mut())),
                        ("ty", {
                            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                            self.ty(t)
                        }),
                        ("freeze", J::B({
                            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                            t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized())
                        })),
                        ("span", self.span(tcx.def_span(d))),
                    ]));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(d);
                    let mut vs = vec![];
                    for v in ad.variants().iter() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            fs.push(J::A(vec![
                                s(f.name),
                                self.ty(ft),
                                s(if f.vis.is_public() { "pub" } else { "priv" }),
                            ]));
                        }
                        vs.push(J::A(vec![s(v.name), J::A(fs)]));
                    }
                    let mut discr = vec![];
                    if ad.is_enum() {
                        for (_, dv) in ad.discriminants(tcx) {
                            let t = dv.ty;
                            let sz = match t.kind() {
                                ty::Int(i) => i.bit_width().unwrap_or(64),
                                ty::Uint(i) => i.bit_width().unwrap_or(64),
                                _ => 64,
                            };
                            let v = dv.val;
                            let v = if t.is_signed() {
                                rustc_abi::Size::from_bits(sz).sign_extend(v)
                            } else {
                                v as i128
                            };
                            discr.push(J::I(v));
                        }
                    }
                    adts.push(J::O(vec![
                        ("key", s(self.key(d))),
                        ("path", s(self.pretty(d))),
                        ("generics", self.generics(d)),
                        ("variants", J::A(vs)),
                        ("discr", J::A(discr)),
                        ("vis", s(if tcx.visibility(d).is_public() { "pub" } else { "priv" })),
                        ("reach", J::B(tcx.effective_visibilities(()).is_reachable(ld))),
                        ("span", self.span(tcx.def_span(d))),
                    ]));
                }
                DefKind::Trait => {
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        items.push(J::O(vec![
                            ("name", s(it.opt_name().map(|x| x.to_string()).unwrap_or_default())),
                            ("key", s(self.key(it.def_id))),
                            ("default", J::B(it.defaultness(tcx).has_value())),
                            ("kind", s(format!("{:?}", it.tag()))),
                        ]));
                    }
                    traits.push(J::O(vec![
                        ("key", s(self.key(d))),
                        ("path", s(self.pretty(d))),
                        ("generics", self.generics(d)),
                        ("items", J::A(items)),
                        ("bounds", self.bounds(d)),
                    ]));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut o = vec![
                        ("key", s(self.key(d))),
                        ("self", self.ty(st)),
                        ("generics", self.generics(d)),
                        ("bounds", self.bounds(d)),
                        ("span", self.span(tcx.def_span(d))),
                    ];
                    if of_trait {
                        let h = tcx.impl_trait_header(d);
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(self.pretty(tr.def_id))));
                        o.push(("trait_args", self.ga(tr.args)));
                        o.push(("unsafe", J::B(h.safety.is_unsafe())));
                        o.push(("neg", J::B(matches!(h.polarity, ty::ImplPolarity::Negative))));
                    }
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        let mut io = vec![
                            ("name", s(it.opt_name().map(|x| x.to_string()).unwrap_or_default())),
                            ("key", s(self.key(it.def_id))),
                            ("kind", s(format!("{:?}", it.tag()))),
                        ];
                        if it.is_type() && it.opt_name().is_some() {
                            let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                            io.push(("ty", self.ty(t)));
                        }
                        items.push(J::O(io));
                    }
                    o.push(("items", J::A(items)));
                    impls.push(J::O(o));
                }
                _ => {}
            }
        }
        let mut seen = 0;
        let mut tys = vec![];
        while seen < self.tys.len() {
            tys.push(self.tys[seen].clone());
            seen += 1;
        }
        J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE))),
            ("bodies", J::A(bodies)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
            ("adts", J::A(adts)),
            ("statics", J::A(statics)),
            ("types", J::A(tys)),
        ])
    }
}

struct UnsafeFinder {
    n: usize,
    foreign: usize,
    spans: Vec<rustc_span::Span>,
}
impl<'v> rustc_hir::intravisit::Visitor<'v> for UnsafeFinder {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if matches!(
            b.rules,
            rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided)
        ) {
            // blocks that come out of a macro of another crate are that crate's
            let e = b.span.ctxt().outer_expn_data();
            if e.macro_def_id.map_or(true, |m| m.is_local()) {
                self.n += 1;
                self.spans.push(b.span);
            } else {
                self.foreign += 1;
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn main() {
    // argv: clmir <rustc> <args...>
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let want = std::env::var("CLMIR_CRATE").unwrap_or_default();
    if !want.is_empty() && args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want) {
        for x in ["-Zmir-opt-level=0", "-Coverflow-checks=off", "-Cdebug-assertions=off"] {
            args.push(x.to_string());
        }
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
