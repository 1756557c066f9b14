#![feature(rustc_private)]
#![allow(unused)]
//! mirfacts: dumps the MIR of every body of one crate (before the coroutine state transform) as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...].
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet};

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        let want = std::env::var("MIRFACTS_CRATE").unwrap_or("sequential_storage".into());
        if name.as_str() == want {
            if let Ok(out) = std::env::var("MIRFACTS_OUT") {
                dump(tcx, &out);
            }
        }
        Compilation::Continue
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut bodies = vec![];
    for def in tcx.hir_body_owners() {
        let kind = tcx.def_kind(def);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {}
            DefKind::SyntheticCoroutineBody => {}
            _ => continue,
        }
        let b = tcx.mir_built(def).borrow().clone();
        bodies.push((def, b));
    }
    let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), adts: BTreeMap::new() };
    let mut jb = vec![];
    for (def, b) in &bodies {
        jb.push(cx.body(*def, b));
    }
    // impls: trait item -> impl items in this crate
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        if let DefKind::Impl { of_trait: true } = tcx.def_kind(id) {
            let tr = tcx.impl_trait_ref(id).instantiate_identity().skip_norm_wip();
            let mut items = vec![];
            for it in tcx.associated_items(id).in_definition_order() {
                if let Some(t) = it.trait_item_def_id() {
                    items.push(J::O(vec![
                        ("trait_item", J::s(cx.path(t))),
                        ("item", J::s(cx.path(it.def_id))),
                    ]));
                }
            }
            let st = cx.ty(tr.self_ty());
            impls.push(J::O(vec![
                ("trait", J::s(cx.path(tr.def_id))),
                ("self", J::n(st)),
                ("self_s", J::s(format!("{}", tr.self_ty()))),
                ("items", J::A(items)),
                ("span", J::s(cx.span(tcx.def_span(id)))),
            ]));
        }
    }
    let adts = J::A(cx.adts.values().cloned().collect());
    let j = J::O(vec![
        ("crate", J::s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
        ("types", J::A(std::mem::take(&mut cx.types))),
        ("adts", adts),
        ("impls", J::A(impls)),
        ("bodies", J::A(jb)),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    std::fs::write(out, s).unwrap();
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() { format!("crate::{p}") } else { p }
    }
    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.to_string_lossy().to_string(),
                None => format!("{:?}", r),
            },
            o => format!("{o:?}"),
        };
        format!("{}:{}", f, lo.line)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(J::N);
        self.tymap.insert(t, i);
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{t}"));
        let mut o: Vec<(&'static str, J)> = vec![];
        match t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", J::s("int"))),
            ty::Ref(_, inner, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("t", J::n(self.ty(*inner))));
            }
            ty::RawPtr(inner, _) => {
                o.push(("k", J::s("ptr")));
                o.push(("t", J::n(self.ty(*inner))));
            }
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("p", J::s(self.path(def.did()))));
                let mut a = vec![];
                for x in args.iter() {
                    if let Some(t) = x.as_type() {
                        a.push(J::n(self.ty(t)));
                    }
                }
                o.push(("args", J::A(a)));
                self.adt(*def);
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("n", J::s(p.name.to_string())));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let a = ts.iter().map(|t| J::n(self.ty(t))).collect();
                o.push(("args", J::A(a)));
            }
            ty::Slice(x) => {
                o.push(("k", J::s("slice")));
                o.push(("t", J::n(self.ty(*x))));
            }
            ty::Array(x, n) => {
                o.push(("k", J::s("array")));
                o.push(("t", J::n(self.ty(*x))));
                o.push(("n", J::s(format!("{n}"))));
            }
            ty::Closure(d, _) => {
                o.push(("k", J::s("closure")));
                o.push(("p", J::s(self.path(*d))));
            }
            ty::Coroutine(d, _) => {
                o.push(("k", J::s("coroutine")));
                o.push(("p", J::s(self.path(*d))));
            }
            ty::FnDef(d, _) => {
                o.push(("k", J::s("fndef")));
                o.push(("p", J::s(self.path(*d))));
            }
            ty::Never => o.push(("k", J::s("never"))),
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            _ => o.push(("k", J::s("other"))),
        }
        o.push(("s", J::s(s)));
        self.types[i] = J::O(o);
        i
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let p = self.path(def.did());
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), J::N);
        let mut vs = vec![];
        let discrs: Vec<u128> = if def.is_enum() {
            def.discriminants(self.tcx).map(|(_, d)| d.val).collect()
        } else {
            vec![]
        };
        for (i, v) in def.variants().iter_enumerated() {
            let fields = v.fields.iter().map(|f| {
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                J::O(vec![
                    ("name", J::s(f.name.to_string())),
                    ("ty", if def.did().is_local() { J::n(self.ty(t)) } else { J::N }),
                ])
            }).collect::<Vec<_>>();
            vs.push(J::O(vec![
                ("name", J::s(v.name.to_string())),
                ("discr", if def.is_enum() { J::n(discrs[i.index()] as usize) } else { J::N }),
                ("fields", J::A(fields)),
            ]));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" };
        self.adts.insert(p.clone(), J::O(vec![("path", J::s(p)), ("kind", J::s(kind)), ("variants", J::A(vs))]));
    }

    fn body(&mut self, def: LocalDefId, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let did = def.to_def_id();
        let root = tcx.typeck_root_def_id(did);
        let env = TypingEnv::post_analysis(tcx, root);
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.index(), v.name.to_string());
                }
            }
        }
        let locals = b.local_decls.iter_enumerated().map(|(l, d)| {
            let t = self.ty(d.ty);
            let mut o = vec![("ty", J::n(t))];
            if let Some(n) = names.get(&l.index()) {
                o.push(("name", J::s(n.clone())));
            }
            J::O(o)
        }).collect::<Vec<_>>();
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                if let Some(j) = self.stmt(s, env, b) {
                    st.push(j);
                }
            }
            let t = self.term(bb.terminator(), env, b);
            blocks.push(J::O(vec![("s", J::A(st)), ("t", t), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let mut preds = vec![];
        let gp = tcx.clauses_of(root).instantiate_identity(tcx);
        for (p, _) in gp.clauses.iter().zip(gp.spans.iter()) {
            preds.push(J::s(format!("{p:?}")));
        }
        let kind = tcx.def_kind(def);
        let vis = match kind {
            DefKind::Fn | DefKind::AssocFn => tcx.visibility(did).is_public(),
            _ => false,
        };
        let eff = tcx.effective_visibilities(()).is_reachable(def);
        let trait_item = tcx.opt_associated_item(did).and_then(|a| a.trait_item_def_id()).map(|d| self.path(d));
        let mut o = vec![
            ("path", J::s(self.path(did))),
            ("name", J::s(tcx.opt_item_name(did).map(|n| n.to_string()).unwrap_or_default())),
            ("kind", J::s(format!("{kind:?}"))),
            ("coroutine", J::B(b.coroutine.is_some())),
            ("is_async", J::B(matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.asyncness(did).is_async())),
            ("pub", J::B(vis)),
            ("reachable", J::B(eff)),
            ("root", J::s(self.path(root))),
            ("span", J::s(self.span(b.span))),
            ("preds", J::A(preds)),
            ("argc", J::n(b.arg_count)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ];
        if let Some(t) = trait_item {
            o.push(("trait_item", J::s(t)));
        }
        if let Some(tid) = tcx.trait_of_assoc(did) {
            o.push(("in_trait", J::s(self.path(tid))));
        }
        if let Some(imp) = tcx.impl_of_assoc(root) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let i = self.ty(st);
            o.push(("impl_self", J::n(i)));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("sig", J::s(format!("{sig}"))));
        }
        J::O(o)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _) => J::A(vec![J::s("f"), J::n(f.index())]),
                ProjectionElem::Downcast(_, v) => J::A(vec![J::s("d"), J::n(v.index())]),
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::n(l.index())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![J::s("c"), J::n(offset as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("s"), J::n(from as usize), J::n(to as usize), J::B(from_end)])
                }
                _ => J::A(vec![J::s("x")]),
            });
        }
        J::O(vec![("l", J::n(p.local.index())), ("p", J::A(pr))])
    }

    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let ty = c.ty();
        if let ty::FnDef(d, args) = ty.kind() {
            return self.fnref(*d, args.no_bound_vars().unwrap(), env);
        }
        let t = self.ty(ty);
        let mut o = vec![("ty", J::n(t))];
        match c {
            Const::Unevaluated(u, _) => {
                o.push(("k", J::s("uneval")));
                o.push(("path", J::s(self.path(u.def))));
                o.push(("args", J::s(format!("{:?}", u.args))));
                o.push(("promoted", J::B(u.promoted.is_some())));
            }
            Const::Ty(_, ct) => {
                o.push(("k", J::s("tyconst")));
                o.push(("s", J::s(format!("{ct}"))));
            }
            Const::Val(..) => o.push(("k", J::s("val"))),
        }
        if ty.is_integral() || ty.is_bool() || ty.is_char() {
            let generic = match c { Const::Unevaluated(u, _) => { use rustc_middle::ty::TypeVisitableExt; u.args.has_param() }, _ => false };
            if !generic {
                if let Some(v) = c.try_eval_scalar_int(tcx, env) {
                    let size = v.size();
                    let bits = v.to_bits(size);
                    let val = if ty.is_signed() { size.sign_extend(bits) as i128 } else { bits as i128 };
                    o.push(("v", J::s(val.to_string())));
                }
            }
        }
        o.push(("s", J::s(format!("{c}"))));
        J::O(o)
    }

    fn fnref(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("k", J::s("fn")), ("path", J::s(self.path(d)))];
        let mut targs = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                targs.push(J::n(self.ty(t)));
            }
        }
        o.push(("targs", J::A(targs)));
        if let Some(tid) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(self.path(tid))));
            let st = self.ty(args.type_at(0));
            o.push(("self", J::n(st)));
            // The identity generic environment is enough to resolve concrete self types.
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let args = tcx.erase_and_anonymize_regions(args);
                ty::Instance::try_resolve(tcx, env, d, args)
            }));
            if let Ok(Ok(Some(inst))) = r {
                if let ty::InstanceKind::Item(rd) = inst.def {
                    if rd != d || tcx.is_mir_available(rd) {
                        o.push(("resolved", J::s(self.path(rd))));
                    }
                }
            }
        }
        o.push(("name", J::s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())));
        J::O(o)
    }

    fn op(&mut self, x: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match x {
            Operand::Copy(p) => J::O(vec![("cp", self.place(p))]),
            Operand::Move(p) => J::O(vec![("mv", self.place(p))]),
            Operand::Constant(c) => J::O(vec![("c", self.konst(&c.const_, env))]),
            _ => J::O(vec![("rt", J::B(true))]),
        }
    }

    fn rv(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        match r {
            Rvalue::Use(x, ..) => { o.push(("r", J::s("use"))); o.push(("o", self.op(x, env))); }
            Rvalue::Repeat(x, n) => { o.push(("r", J::s("repeat"))); o.push(("o", self.op(x, env))); o.push(("n", J::s(format!("{n}")))); }
            Rvalue::Ref(_, bk, p) => { o.push(("r", J::s("ref"))); o.push(("mut", J::B(matches!(bk, BorrowKind::Mut{..})))); o.push(("fake", J::B(matches!(bk, BorrowKind::Fake(_))))); o.push(("p", self.place(p))); }
            Rvalue::RawPtr(_, p) => { o.push(("r", J::s("ref"))); o.push(("mut", J::B(true))); o.push(("raw", J::B(true))); o.push(("p", self.place(p))); }
            Rvalue::Cast(k, x, t) => { o.push(("r", J::s("cast"))); o.push(("k", J::s(format!("{k:?}")))); o.push(("o", self.op(x, env))); let t0 = x.ty(&b.local_decls, tcx); o.push(("from", J::n(self.ty(t0)))); o.push(("ty", J::n(self.ty(*t)))); }
            Rvalue::BinaryOp(bo, ab) => { o.push(("r", J::s("bin"))); o.push(("op", J::s(format!("{bo:?}")))); o.push(("a", self.op(&ab.0, env))); o.push(("b", self.op(&ab.1, env))); }
            Rvalue::UnaryOp(u, x) => { o.push(("r", J::s("un"))); o.push(("op", J::s(format!("{u:?}")))); o.push(("o", self.op(x, env))); }
            Rvalue::Discriminant(p) => { o.push(("r", J::s("discr"))); o.push(("p", self.place(p))); let t = p.ty(&b.local_decls, tcx).ty; o.push(("ty", J::n(self.ty(t)))); }
            Rvalue::Aggregate(k, ops) => {
                o.push(("r", J::s("agg")));
                match &**k {
                    AggregateKind::Array(_) => o.push(("k", J::s("array"))),
                    AggregateKind::Tuple => o.push(("k", J::s("tuple"))),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        o.push(("k", J::s("adt")));
                        o.push(("path", J::s(self.path(*d))));
                        let ad = tcx.adt_def(*d);
                        self.adt(ad);
                        o.push(("v", J::n(v.index())));
                        o.push(("vname", J::s(ad.variant(*v).name.to_string())));
                    }
                    AggregateKind::Closure(d, _) => { o.push(("k", J::s("closure"))); o.push(("path", J::s(self.path(*d)))); }
                    AggregateKind::Coroutine(d, _) => { o.push(("k", J::s("coroutine"))); o.push(("path", J::s(self.path(*d)))); }
                    _ => o.push(("k", J::s("other"))),
                }
                let v = ops.iter().map(|x| self.op(x, env)).collect();
                o.push(("ops", J::A(v)));
            }
            Rvalue::CopyForDeref(p) => { o.push(("r", J::s("use"))); o.push(("o", J::O(vec![("cp", self.place(p))]))); }
            x => { o.push(("r", J::s("other"))); o.push(("s", J::s(format!("{x:?}")))); }
        }
        J::O(o)
    }

    fn stmt(&mut self, s: &Statement<'tcx>, env: TypingEnv<'tcx>, b: &Body<'tcx>) -> Option<J> {
        let sp = self.span(s.source_info.span);
        match &s.kind {
            StatementKind::Assign(x) => {
                let (p, r) = &**x;
                Some(J::O(vec![("k", J::s("=")), ("p", self.place(p)), ("v", self.rv(r, env, b)), ("sp", J::s(sp))]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                Some(J::O(vec![("k", J::s("setd")), ("p", self.place(place)), ("v", J::n(variant_index.index()))]))
            }
            StatementKind::StorageDead(l) => Some(J::O(vec![("k", J::s("dead")), ("l", J::n(l.index()))])),
            StatementKind::StorageLive(l) => Some(J::O(vec![("k", J::s("live")), ("l", J::n(l.index()))])),
            _ => None,
        }
    }

    fn term(&mut self, t: &Terminator<'tcx>, env: TypingEnv<'tcx>, b: &Body<'tcx>) -> J {
        let sp = self.span(t.source_info.span);
        let mut o: Vec<(&'static str, J)> = vec![];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => { o.push(("t", J::s("goto"))); o.push(("to", J::n(target.index()))); }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("t", J::s("switch")));
                let dt = discr.ty(&b.local_decls, self.tcx);
                o.push(("o", self.op(discr, env)));
                o.push(("ty", J::n(self.ty(dt))));
                let v = targets.iter().map(|(v, bb)| J::A(vec![J::s(v.to_string()), J::n(bb.index())])).collect();
                o.push(("vals", J::A(v)));
                o.push(("else", J::n(targets.otherwise().index())));
            }
            TerminatorKind::Return => o.push(("t", J::s("ret"))),
            TerminatorKind::Unreachable => o.push(("t", J::s("unreachable"))),
            TerminatorKind::Drop { place, target, .. } => { o.push(("t", J::s("drop"))); o.push(("p", self.place(place))); o.push(("to", J::n(target.index()))); }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                o.push(("t", J::s("call")));
                o.push(("f", self.op(func, env)));
                let a = args.iter().map(|x| self.op(&x.node, env)).collect();
                o.push(("args", J::A(a)));
                let at = args.iter().map(|x| { let t = x.node.ty(&b.local_decls, self.tcx); J::n(self.ty(t)) }).collect();
                o.push(("argtys", J::A(at)));
                o.push(("d", self.place(destination)));
                let dt = destination.ty(&b.local_decls, self.tcx).ty;
                o.push(("dty", J::n(self.ty(dt))));
                if let Some(t) = target { o.push(("to", J::n(t.index()))); }
            }
            TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                o.push(("t", J::s("assert")));
                o.push(("o", self.op(cond, env)));
                o.push(("exp", J::B(*expected)));
                o.push(("to", J::n(target.index())));
                let m = format!("{msg:?}");
                o.push(("msg", J::s(m)));
            }
            TerminatorKind::Yield { resume, resume_arg, .. } => { o.push(("t", J::s("yield"))); o.push(("to", J::n(resume.index()))); o.push(("d", self.place(resume_arg))); }
            TerminatorKind::FalseEdge { real_target, .. } => { o.push(("t", J::s("goto"))); o.push(("to", J::n(real_target.index()))); }
            TerminatorKind::FalseUnwind { real_target, .. } => { o.push(("t", J::s("goto"))); o.push(("to", J::n(real_target.index()))); }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => o.push(("t", J::s("resume"))),
            TerminatorKind::CoroutineDrop => o.push(("t", J::s("codrop"))),
            x => { o.push(("t", J::s("other"))); o.push(("s", J::s(format!("{x:?}")))); }
        }
        o.push(("sp", J::s(sp)));
        J::O(o)
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1].
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::install_ice_hook("https://localhost/", |_| ());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
