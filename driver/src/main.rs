//! rustc wrapper that dumps the type-checked MIR of every local body as JSON.
//! Used through RUSTC_WORKSPACE_WRAPPER; the output file is $MIRDUMP_OUT.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::collections::BTreeMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    tymap: std::collections::HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
    pending: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn args(&mut self, a: &'tcx ty::List<ty::GenericArg<'tcx>>) -> String {
        let v: Vec<String> = a.iter().filter_map(|g| match g.kind() {
            ty::GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
            ty::GenericArgKind::Const(c) => Some(esc(&format!("{}", c))),
            _ => None,
        }).collect();
        format!("[{}]", v.join(","))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tymap.get(&t) { return i; }
        let id = self.tys.len();
        self.tys.push(String::new());
        self.tymap.insert(t, id);
        let s = match t.kind() {
            ty::Bool => r#"{"k":"bool"}"#.to_string(),
            ty::Char => r#"{"k":"int","w":32,"s":false,"c":true}"#.to_string(),
            ty::Int(i) => format!(r#"{{"k":"int","w":{},"s":true,"sz":{}}}"#, i.bit_width().unwrap_or(64), i.bit_width().is_none()),
            ty::Uint(i) => format!(r#"{{"k":"int","w":{},"s":false,"sz":{}}}"#, i.bit_width().unwrap_or(64), i.bit_width().is_none()),
            ty::Float(_) => r#"{"k":"float"}"#.to_string(),
            ty::Str => r#"{"k":"str"}"#.to_string(),
            ty::Never => r#"{"k":"never"}"#.to_string(),
            ty::Ref(_, i, m) => format!(r#"{{"k":"ref","mut":{},"t":{}}}"#, m.is_mut(), self.ty(*i)),
            ty::RawPtr(i, m) => format!(r#"{{"k":"ptr","mut":{},"t":{}}}"#, m.is_mut(), self.ty(*i)),
            ty::Slice(i) => format!(r#"{{"k":"slice","t":{}}}"#, self.ty(*i)),
            ty::Array(i, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!(r#"{{"k":"array","t":{},"n":{}}}"#, self.ty(*i), n)
            }
            ty::Tuple(l) => { let v: Vec<String> = l.iter().map(|x| self.ty(x).to_string()).collect(); format!(r#"{{"k":"tuple","a":[{}]}}"#, v.join(",")) }
            ty::Adt(d, a) => {
                let p = self.path(d.did());
                if !self.adts.contains_key(&p) {
                    self.adts.insert(p.clone(), String::new());
                    let mut vs = vec![];
                    for (vi, v) in d.variants().iter_enumerated() {
                        let disc = if d.is_enum() { d.discriminant_for_variant(self.tcx, vi).val as i128 } else { 0 };
                        let fs: Vec<String> = v.fields.iter().map(|f| {
                            let ft = self.tcx.type_of(f.did).instantiate_identity();
                            let ft = ft.skip_norm_wip();
                            format!(r#"{{"n":{},"t":{},"pub":{}}}"#, esc(f.name.as_str()), self.ty(ft), f.vis.is_public())
                        }).collect();
                        vs.push(format!(r#"{{"n":{},"d":{},"f":[{}]}}"#, esc(v.name.as_str()), disc, fs.join(",")));
                    }
                    let s = format!(r#"{{"enum":{},"v":[{}],"local":{}}}"#, d.is_enum(), vs.join(","), d.did().is_local());
                    self.adts.insert(p.clone(), s);
                }
                let a = self.args(a);
                format!(r#"{{"k":"adt","p":{},"a":{}}}"#, esc(&p), a)
            }
            ty::Closure(d, a) => {
                let p = self.path(*d);
                let ups: Vec<String> = a.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!(r#"{{"k":"closure","p":{},"u":[{}]}}"#, esc(&p), ups.join(","))
            }
            ty::FnDef(d, a) => { let p = self.path(*d); let a = self.args(a.no_bound_vars().unwrap()); format!(r#"{{"k":"fndef","p":{},"a":{}}}"#, esc(&p), a) }
            ty::FnPtr(..) => r#"{"k":"fnptr"}"#.to_string(),
            ty::Param(p) => format!(r#"{{"k":"param","n":{}}}"#, esc(p.name.as_str())),
            _ => format!(r#"{{"k":"other","s":{}}}"#, esc(&format!("{}", t))),
        };
        self.tys[id] = s;
        id
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut v = vec![];
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => r#"["*"]"#.to_string(),
                ProjectionElem::Field(f, t) => format!(r#"["f",{},{}]"#, f.index(), self.ty(t)),
                ProjectionElem::Index(l) => format!(r#"["i",{}]"#, l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!(r#"["ci",{},{},{}]"#, offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!(r#"["ss",{},{},{}]"#, from, to, from_end),
                ProjectionElem::Downcast(_, vi) => format!(r#"["d",{}]"#, vi.index()),
                ProjectionElem::OpaqueCast(_) => r#"["oc"]"#.to_string(),
                _ => r#"["?"]"#.to_string(),
            };
            v.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        let t = self.ty(pt.ty);
        format!("[{},[{}],{}]", p.local.index(), v.join(","), t)
    }

    fn konst(&mut self, body: &Body<'tcx>, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, a) = t.kind() {
            return self.fnref(*d, a.no_bound_vars().unwrap(), env, tid);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!(r#"{{"k":"promoted","i":{},"t":{}}}"#, p.index(), tid);
            }
            if c.const_.try_eval_scalar_int(self.tcx, env).is_none() {
                return format!(r#"{{"k":"named","p":{},"t":{}}}"#, esc(&self.path(u.def)), tid);
            }
        }
        if let Some(i) = c.const_.try_eval_scalar_int(self.tcx, env) {
            let sz = i.size();
            let bits = i.to_bits(sz);
            return format!(r#"{{"k":"int","v":"{}","t":{}}}"#, bits, tid);
        }
        let _ = body;
        let txt = match t.kind() {
            ty::Ref(_, i, _) if i.is_str() => format!("{}", c.const_),
            _ => format!("{}", c.const_),
        };
        format!(r#"{{"k":"const","s":{},"t":{}}}"#, esc(&txt), tid)
    }

    fn fnref(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, tid: usize) -> String {
        let tcx = self.tcx;
        let decl = self.path(d);
        let a = tcx.erase_and_anonymize_regions(a);
        let mut res = String::from("null");
        let mut local = d.is_local();
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, a) {
            let rd = inst.def_id();
            let virt = matches!(inst.def, ty::InstanceKind::Virtual(..));
            if !virt { res = esc(&self.path(rd)); local = rd.is_local(); }
        }
        let tr = tcx.trait_of_assoc(d).map(|t| esc(&self.path(t))).unwrap_or("null".into());
        let ga = self.args(a);
        format!(r#"{{"k":"fn","decl":{},"res":{},"local":{},"trait":{},"a":{},"t":{}}}"#, esc(&decl), res, local, tr, ga, tid)
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!(r#"["cp",{}]"#, self.place(body, p)),
            Operand::Move(p) => format!(r#"["mv",{}]"#, self.place(body, p)),
            Operand::Constant(c) => format!(r#"["k",{}]"#, self.konst(body, c, env)),
            #[allow(unreachable_patterns)]
            x => format!(r#"["rt",{}]"#, esc(&format!("{:?}", x))),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!(r#"["use",{}]"#, self.operand(body, o, env)),
            Rvalue::Repeat(o, n) => format!(r#"["repeat",{},{}]"#, self.operand(body, o, env), n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1)),
            Rvalue::Ref(_, k, p) => format!(r#"["ref",{},{}]"#, matches!(k, BorrowKind::Mut { .. }), self.place(body, p)),
            Rvalue::RawPtr(k, p) => format!(r#"["rawptr",{},{}]"#, esc(&format!("{:?}", k)), self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(&body.local_decls, self.tcx);
                let st = self.ty(st);
                let kk = format!("{:?}", k);
                format!(r#"["cast",{},{},{},{}]"#, esc(&kk), self.operand(body, o, env), st, self.ty(*t))
            }
            Rvalue::BinaryOp(op, ab) => {
                let st = ab.0.ty(&body.local_decls, self.tcx);
                let st = self.ty(st);
                format!(r#"["bin","{:?}",{},{},{}]"#, op, self.operand(body, &ab.0, env), self.operand(body, &ab.1, env), st)
            }
            Rvalue::UnaryOp(op, a) => { let st = a.ty(&body.local_decls, self.tcx); let st = self.ty(st); format!(r#"["un","{:?}",{},{}]"#, op, self.operand(body, a, env), st) }
            Rvalue::Discriminant(p) => format!(r#"["discr",{}]"#, self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(body, o, env)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => r#"["array"]"#.to_string(),
                    AggregateKind::Tuple => r#"["tuple"]"#.to_string(),
                    AggregateKind::Adt(d, vi, a, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, a).skip_norm_wip();
                        let _ = self.ty(t);
                        format!(r#"["adt",{},{}]"#, esc(&self.path(*d)), vi.index())
                    }
                    AggregateKind::Closure(d, _) => format!(r#"["closure",{}]"#, esc(&self.path(*d))),
                    AggregateKind::RawPtr(..) => r#"["rawptr"]"#.to_string(),
                    x => format!(r#"["other",{}]"#, esc(&format!("{:?}", x))),
                };
                format!(r#"["agg",{},[{}]]"#, kk, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!(r#"["use",["cp",{}]]"#, self.place(body, p)),
            x => format!(r#"["other",{}]"#, esc(&format!("{:?}", x))),
        }
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!(r#"[{},{}]"#, esc(&f), lo.line)
    }

    fn body(&mut self, name: &str, body: &Body<'tcx>, env: TypingEnv<'tcx>, extra: &str) -> String {
        let tcx = self.tcx;
        let mut locals = vec![];
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.insert(p.local.index(), v.name.to_string()); }
            }
        }
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let n = names.get(&l.index()).map(|x| esc(x)).unwrap_or("null".into());
            locals.push(format!("[{},{}]", t, n));
        }
        let mut bbs = vec![];
        for (_bb, d) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &d.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => { let l = self.place(body, &b.0); let r = self.rvalue(body, &b.1, env); st.push(format!(r#"["=",{},{},{}]"#, l, r, sp)); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let l = self.place(body, place); st.push(format!(r#"["sd",{},{},{}]"#, l, variant_index.index(), sp)); }
                    StatementKind::StorageDead(l) => st.push(format!(r#"["dead",{}]"#, l.index())),
                    StatementKind::StorageLive(l) => st.push(format!(r#"["live",{}]"#, l.index())),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => st.push(format!(r#"["assume",{}]"#, self.operand(body, o, env))),
                        _ => st.push(r#"["?","intrinsic"]"#.to_string()),
                    },
                    _ => {}
                }
            }
            let t = d.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!(r#"["goto",{}]"#, target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(body, discr, env);
                    let dt = discr.ty(&body.local_decls, tcx); let dt = self.ty(dt);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!(r#"["{}",{}]"#, v, b.index())).collect();
                    format!(r#"["switch",{},{},[{}],{}]"#, o, dt, v.join(","), targets.otherwise().index())
                }
                TerminatorKind::Return => r#"["ret"]"#.into(),
                TerminatorKind::Unreachable => r#"["unreachable"]"#.into(),
                TerminatorKind::UnwindResume => r#"["resume"]"#.into(),
                TerminatorKind::UnwindTerminate(_) => r#"["abort"]"#.into(),
                TerminatorKind::Drop { place, target, .. } => format!(r#"["drop",{},{}]"#, self.place(body, place), target.index()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, func, env);
                    let v: Vec<String> = args.iter().map(|a| self.operand(body, &a.node, env)).collect();
                    let dst = self.place(body, destination);
                    format!(r#"["call",{},[{}],{},{}]"#, f, v.join(","), dst, target.map(|x| x.index() as i64).unwrap_or(-1))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (&str, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![len, index]),
                        AssertKind::Overflow(_, a, b) => ("overflow", vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflow", vec![a]),
                        AssertKind::DivisionByZero(a) => ("divzero", vec![a]),
                        AssertKind::RemainderByZero(a) => ("divzero", vec![a]),
                        _ => ("other", vec![]),
                    };
                    let ov: Vec<String> = ops.iter().map(|o| self.operand(body, o, env)).collect();
                    format!(r#"["assert",{},{},"{}",[{}],{}]"#, self.operand(body, cond, env), expected, k, ov.join(","), target.index())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!(r#"["goto",{}]"#, real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!(r#"["goto",{}]"#, real_target.index()),
                x => format!(r#"["?",{}]"#, esc(&format!("{:?}", x))),
            };
            bbs.push(format!(r#"{{"s":[{}],"t":{},"sp":{},"cl":{}}}"#, st.join(","), ts, sp, d.is_cleanup));
        }
        format!(r#"{{"name":{},"argc":{},"locals":[{}],"span":{},"bbs":[{}]{}}}"#, esc(name), body.arg_count, locals.join(","), self.span(body.span), bbs.join(",\n"), extra)
    }
}

mod compat {
    // def_path_str already prints `<Type as Trait>::method` for impl items.
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        let mut cx = Cx { tcx, tys: vec![], tymap: Default::default(), adts: Default::default(), pending: vec![] };
        let _ = &cx.pending;
        let mut bodies = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let env = TypingEnv::post_analysis(tcx, d);
            let (body, k): (&Body<'tcx>, &str) = match kind {
                DefKind::Fn | DefKind::AssocFn => (tcx.optimized_mir(d), "fn"),
                DefKind::Closure => (tcx.optimized_mir(d), "closure"),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => (tcx.mir_for_ctfe(d), "const"),
                _ => continue,
            };
            let name = cx.path(d);
            let unsafe_ = matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe();
            let vis = matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.visibility(d).is_public();
            let reach = tcx.effective_visibilities(()).is_reachable(*ld);
            let imp = tcx.impl_of_assoc(d).and_then(|i| tcx.impl_opt_trait_ref(i)).map(|t| esc(&cx.path(t.skip_binder().def_id))).unwrap_or("null".into());
            let derived = tcx.impl_of_assoc(d).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false);
            let gens = tcx.generics_of(d);
            let gn: Vec<String> = (0..gens.count()).filter_map(|i| { let p = gens.param_at(i, tcx); match p.kind { ty::GenericParamDefKind::Type { .. } => Some(esc(p.name.as_str())), _ => None } }).collect();
            let mut proms = vec![];
            for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
                proms.push(cx.body(&format!("{}::promoted{}", name, pi.index()), pb, env, ""));
            }
            let extra = format!(r#","kind":"{}","unsafe":{},"pub":{},"reach":{},"impl_trait":{},"derived":{},"generics":[{}],"promoted":[{}]"#, k, unsafe_, vis, reach, imp, derived, gn.join(","), proms.join(","));
            bodies.push(cx.body(&name, body, env, &extra));
        }
        // unsafe impls, statics
        let mut impls = vec![];
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            match tcx.def_kind(id) {
                DefKind::Impl { of_trait: true } => {
                    let h = tcx.impl_trait_header(id.to_def_id());
                    let tr = h.trait_ref.skip_binder();
                    impls.push(format!(r#"{{"trait":{},"self":{},"unsafe":{},"span":{}}}"#, esc(&cx.path(tr.def_id)), esc(&format!("{}", tr.self_ty())), h.safety.is_unsafe(), cx.span(tcx.def_span(id))));
                }
                DefKind::Static { mutability, .. } => statics.push(format!(r#"{{"p":{},"mut":{},"t":{},"freeze":{}}}"#, esc(&cx.path(id.to_def_id())), mutability.is_mut(), cx.ty(tcx.type_of(id).instantiate_identity().skip_norm_wip()), tcx.type_of(id).instantiate_identity().skip_norm_wip().is_freeze(tcx, TypingEnv::post_analysis(tcx, id)))),
                _ => {}
            }
        }
        let adts: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let s = format!("{{\"crate\":{},\"types\":[{}],\n\"adts\":{{{}}},\n\"impls\":[{}],\"statics\":[{}],\n\"bodies\":[{}]}}\n", esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()), cx.tys.join(",\n"), adts.join(",\n"), impls.join(","), statics.join(","), bodies.join(",\n"));
        std::fs::write(&out, s).expect("write dump");
        let _ = mir::START_BLOCK;
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target);
    if is_target {
        for a in ["-Zmir-opt-level=0", "-Zalways-encode-mir", "-Awarnings", "--cap-lints=allow"] { args.push(a.to_string()); }
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct N; impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
