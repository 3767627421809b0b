//! Facts extractor: a rustc driver used as RUSTC_WORKSPACE_WRAPPER.
//! Dumps the type-checked program (MIR bodies, ADTs, impls) of each
//! workspace crate as JSON into $CFGFACTS_OUT. It never executes the crate.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypeVisitableExt};
use std::collections::BTreeMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, String>,
    adt_queue: Vec<DefId>,
    env: ty::TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn raw(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }

    fn pretty(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        match tcx.def_kind(d) {
            DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy => {
                let parent = tcx.parent(d);
                let name = tcx.item_name(d);
                match tcx.def_kind(parent) {
                    DefKind::Impl { of_trait } => {
                        let self_ty = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                        let s = self.ty_short(self_ty);
                        if of_trait {
                            let tr = tcx.impl_trait_id(parent);
                            format!("<{} as {}>::{}", s, self.raw(tr), name)
                        } else {
                            format!("{}::{}", s, name)
                        }
                    }
                    _ => format!("{}::{}", self.raw(parent), name),
                }
            }
            DefKind::Closure => {
                let parent = tcx.parent(d);
                let p = self.pretty(parent);
                let raw = self.raw(d);
                let last = raw.rsplit("::").next().unwrap_or("").to_string();
                format!("{}::{}", p, last)
            }
            _ => {
                if let Some(parent) = tcx.opt_parent(d) {
                    if matches!(tcx.def_kind(parent), DefKind::Mod) || parent.is_crate_root() {
                        return self.raw(d);
                    }
                    if matches!(
                        tcx.def_kind(parent),
                        DefKind::AssocFn | DefKind::Fn | DefKind::Closure
                    ) {
                        let p = self.pretty(parent);
                        let raw = self.raw(d);
                        let last = raw.rsplit("::").next().unwrap_or("").to_string();
                        return format!("{}::{}", p, last);
                    }
                }
                self.raw(d)
            }
        }
    }

    fn ty_short(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(def, _) => self.raw(def.did()),
            ty::Ref(_, t, m) => format!(
                "&{}{}",
                if m.is_mut() { "mut " } else { "" },
                self.ty_short(*t)
            ),
            ty::Slice(t) => format!("[{}]", self.ty_short(*t)),
            ty::Array(t, _) => format!("[{};N]", self.ty_short(*t)),
            ty::Tuple(ts) => {
                let v: Vec<_> = ts.iter().map(|t| self.ty_short(t)).collect();
                format!("({})", v.join(","))
            }
            ty::Param(p) => format!("${}", p.name),
            _ => format!("{}", t),
        }
    }

    fn adt(&mut self, d: DefId) {
        let k = self.raw(d);
        if !self.adts.contains_key(&k) {
            self.adts.insert(k, String::new());
            self.adt_queue.push(d);
        }
    }

    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let v = a
            .iter()
            .filter_map(|g| {
                if let Some(t) = g.as_type() {
                    Some(self.ty(t))
                } else if let Some(c) = g.as_const() {
                    Some(format!("[\"const\",{}]", esc(&format!("{}", c))))
                } else {
                    None
                }
            })
            .collect();
        list(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("[\"prim\",{}]", esc(&format!("{}", t)))
            }
            ty::Adt(def, args) => {
                self.adt(def.did());
                let a = self.args(args);
                format!("[\"adt\",{},{}]", esc(&self.raw(def.did())), a)
            }
            ty::Array(t, c) => {
                let t = self.ty(*t);
                format!("[\"array\",{},{}]", t, esc(&format!("{}", c)))
            }
            ty::Slice(t) => {
                let t = self.ty(*t);
                format!("[\"slice\",{}]", t)
            }
            ty::RawPtr(t, m) => {
                let t = self.ty(*t);
                format!("[\"ptr\",{},{}]", m.is_mut(), t)
            }
            ty::Ref(_, t, m) => {
                let t = self.ty(*t);
                format!("[\"ref\",{},{}]", m.is_mut(), t)
            }
            ty::FnDef(d, args) => {
                let f = self.fnref((*d).into(), args.skip_binder());
                format!("[\"fndef\",{}]", f)
            }
            ty::FnPtr(..) => "[\"fnptr\"]".to_string(),
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.raw(d)).unwrap_or_default();
                format!("[\"dyn\",{}]", esc(&p))
            }
            ty::Closure(d, args) => {
                let ups: Vec<_> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.ty(t))
                    .collect();
                let pa = args.as_closure().parent_args();
                let pa = self.tcx.mk_args(pa);
                let pa = self.args(pa);
                let r = self.raw((*d).into());
                format!("[\"closure\",{},{},{}]", esc(&r), list(ups), pa)
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                format!("[\"tuple\",{}]", list(v))
            }
            ty::Param(p) => format!("[\"param\",{}]", esc(p.name.as_str())),
            ty::Alias(_, a) => {
                let d = match a.kind {
                    ty::AliasTyKind::Projection { def_id } => Some(DefId::from(def_id)),
                    ty::AliasTyKind::Opaque { def_id } => Some(DefId::from(def_id)),
                    _ => None,
                };
                let n = match d {
                    Some(d) => self.raw(d),
                    None => format!("{}", t),
                };
                let kind = match a.kind {
                    ty::AliasTyKind::Projection { .. } => "proj",
                    ty::AliasTyKind::Opaque { .. } => "opaque",
                    _ => "alias",
                };
                // concrete type behind `impl Trait`
                if let ty::AliasTyKind::Opaque { def_id } = a.kind {
                    let hidden = self.tcx.type_of(DefId::from(def_id));
                    let hidden = hidden.instantiate(self.tcx, a.args).skip_norm_wip();
                    if !hidden.has_escaping_bound_vars() {
                        let h = self.ty_depth(hidden);
                        return h;
                    }
                }
                let args = self.args(a.args);
                format!("[{},{},{}]", esc(kind), esc(&n), args)
            }
            _ => format!("[\"other\",{}]", esc(&format!("{}", t))),
        }
    }

    fn ty_depth(&mut self, t: Ty<'tcx>) -> String {
        self.ty(t)
    }

    fn fnref(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut out = String::from("{");
        let raw = self.raw(d);
        let pretty = self.pretty(d);
        let _ = write!(out, "\"id\":{},\"n\":{}", esc(&raw), esc(&pretty));
        let a = self.args(args);
        let _ = write!(out, ",\"args\":{}", a);
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(out, ",\"trait\":{}", esc(&self.raw(tr)));
            let _ = write!(out, ",\"m\":{}", esc(tcx.item_name(d).as_str()));
            if !args.has_escaping_bound_vars() {
                let args2 = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args2) {
                    let rd = inst.def_id();
                    if rd != d {
                        let raw = self.raw(rd);
                        let pretty = self.pretty(rd);
                        let a = self.args(inst.args);
                        let _ = write!(
                            out,
                            ",\"res\":{{\"id\":{},\"n\":{},\"args\":{}}}",
                            esc(&raw),
                            esc(&pretty),
                            a
                        );
                    }
                }
            }
        }
        out.push('}');
        out
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fnref((*d).into(), args.skip_binder());
            return format!("{{\"k\":\"fn\",\"f\":{}}}", f);
        }
        let ty_s = self.ty(t);
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!("{{\"k\":\"promoted\",\"i\":{},\"ty\":{}}}", p.as_usize(), ty_s);
            }
        }
        // try to evaluate
        let val = c.const_.eval(tcx, self.env, c.span).ok();
        let uneval = match c.const_ {
            Const::Unevaluated(u, _) => {
                let r = self.raw(u.def);
                let a = self.args(u.args);
                format!(",\"def\":{},\"dargs\":{}", esc(&r), a)
            }
            Const::Ty(_, ct) => format!(",\"ct\":{}", esc(&format!("{}", ct))),
            _ => String::new(),
        };
        if let Some(v) = val {
            match v {
                ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                    let bits = i.to_bits(i.size());
                    let n = match t.kind() {
                        ty::Int(_) => {
                            let sz = i.size();
                            format!("{}", sz.sign_extend(bits))
                        }
                        _ => format!("{}", bits),
                    };
                    return format!(
                        "{{\"k\":\"int\",\"v\":{},\"ty\":{}{}}}",
                        esc(&n),
                        ty_s,
                        uneval
                    );
                }
                ConstValue::ZeroSized => {
                    return format!("{{\"k\":\"zst\",\"ty\":{}{}}}", ty_s, uneval);
                }
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return format!(
                            "{{\"k\":\"str\",\"v\":{},\"ty\":{}{}}}",
                            esc(&String::from_utf8_lossy(b)),
                            ty_s,
                            uneval
                        );
                    }
                }
                ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let Some(GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                        let r = self.raw(d);
                        return format!(
                            "{{\"k\":\"static\",\"v\":{},\"ty\":{}}}",
                            esc(&r),
                            ty_s
                        );
                    }
                }
                _ => {}
            }
        }
        format!(
            "{{\"k\":\"opaque\",\"v\":{},\"ty\":{}{}}}",
            esc(&format!("{}", c.const_)),
            ty_s,
            uneval
        )
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for (base, elem) in p.iter_projections() {
            let bt = base.ty(body, self.tcx);
            let s = match elem {
                ProjectionElem::Deref => {
                    // box deref vs ref deref
                    let b = if bt.ty.is_box() { "box" } else { "ref" };
                    format!("[\"*\",{}]", esc(b))
                }
                ProjectionElem::Field(f, fty) => {
                    let (adt, vi, name) = match bt.ty.kind() {
                        ty::Adt(def, _) => {
                            self.adt(def.did());
                            let vi = bt.variant_index.map(|v| v.as_usize()).unwrap_or(0);
                            let var = &def.variants()[rustc_abi::VariantIdx::from_usize(vi)];
                            (
                                self.raw(def.did()),
                                vi as i64,
                                var.fields[f].name.to_string(),
                            )
                        }
                        ty::Tuple(_) => ("(tuple)".to_string(), 0, format!("{}", f.as_usize())),
                        ty::Closure(..) => ("(closure)".to_string(), 0, format!("{}", f.as_usize())),
                        _ => ("?".to_string(), 0, format!("{}", f.as_usize())),
                    };
                    let t = self.ty(fty);
                    format!(
                        "[\"f\",{},{},{},{},{}]",
                        f.as_usize(),
                        esc(&adt),
                        vi,
                        esc(&name),
                        t
                    )
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex {
                    offset,
                    min_length,
                    from_end,
                } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => "[\"?\"]".to_string(),
            };
            v.push(s);
        }
        format!("[{},{}]", p.local.as_usize(), list(v))
    }

    fn op(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(c)),
            _ => "[\"k\",{\"k\":\"opaque\",\"v\":\"rtcheck\",\"ty\":[\"prim\",\"bool\"]}]".to_string(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(body, o)),
            Rvalue::Repeat(o, c) => {
                let o = self.op(body, o);
                format!("[\"repeat\",{},{}]", o, esc(&format!("{}", c)))
            }
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(body, p)
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body, self.tcx);
                let from = self.ty(from);
                let o = self.op(body, o);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), o, from, t)
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(body, self.tcx);
                let t = self.ty(t);
                let x = self.op(body, &ops.0);
                let y = self.op(body, &ops.1);
                format!("[\"bin\",{},{},{},{}]", esc(&format!("{:?}", b)), x, y, t)
            }
            Rvalue::UnaryOp(u, o) => {
                format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), self.op(body, o))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<_> = ops.iter().map(|o| self.op(body, o)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        self.adt(*d);
                        format!("[\"adt\",{},{}]", esc(&self.raw(*d)), v.as_usize())
                    }
                    AggregateKind::Closure(d, args) => {
                        let pa = args.as_closure().parent_args();
                        let pa = self.tcx.mk_args(pa);
                        let pa = self.args(pa);
                        format!("[\"closure\",{},{}]", esc(&self.raw(*d)), pa)
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", k, list(v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", m.is_mut(), self.place(body, p))
            }
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }

    fn body(&mut self, body: &Body<'tcx>) -> String {
        let mut out = String::from("{");
        let _ = write!(out, "\"argc\":{},\"locals\":", body.arg_count);
        let l: Vec<_> = body.local_decls.iter().map(|d| self.ty(d.ty)).collect();
        out.push_str(&list(l));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!(
                    "[{},{}]",
                    esc(v.name.as_str()),
                    self.place(body, &p)
                ));
            }
        }
        let _ = write!(out, ",\"names\":{}", list(names));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(body, &b.1);
                        st.push(format!("[\"=\",{},{},{}]", p, r, self.line(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => {
                        let p = self.place(body, place);
                        st.push(format!("[\"sd\",{},{}]", p, variant_index.as_usize()));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = self.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(body, self.tcx);
                    let dts = self.ty(dt);
                    let d = self.op(body, discr);
                    let v: Vec<_> = targets
                        .iter()
                        .map(|(v, b)| {
                            let n = match dt.kind() {
                                ty::Int(it) => {
                                    let sz = rustc_abi::Size::from_bits(it.bit_width().unwrap_or(64));
                                    format!("{}", sz.sign_extend(v))
                                }
                                _ => format!("{}", v),
                            };
                            format!("[{},{}]", esc(&n), b.as_usize())
                        })
                        .collect();
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        d,
                        list(v),
                        targets.otherwise().as_usize(),
                        dts
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                TerminatorKind::Drop { target, place, .. } => {
                    let p = self.place(body, place);
                    format!("[\"drop\",{},{}]", p, target.as_usize())
                }
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => {
                    let f = self.op(body, func);
                    let a: Vec<_> = args.iter().map(|a| self.op(body, &a.node)).collect();
                    let d = self.place(body, destination);
                    let t = target.map(|t| t.as_usize() as i64).unwrap_or(-1);
                    format!("[\"call\",{},{},{},{},{}]", f, list(a), d, t, line)
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    target,
                    msg,
                    ..
                } => {
                    let c = self.op(body, cond);
                    let k = format!("{:?}", msg);
                    let k = k.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        c,
                        expected,
                        target.as_usize(),
                        esc(&k),
                        line
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                _ => "[\"resume\"]".to_string(),
            };
            blocks.push(format!(
                "{{\"s\":{},\"t\":{},\"l\":{},\"cl\":{}}}",
                list(st),
                ts,
                line,
                bb.is_cleanup
            ));
        }
        let _ = write!(out, ",\"blocks\":{}", list(blocks));
        out.push('}');
        out
    }

    fn generics(&mut self, d: DefId) -> String {
        let mut v = vec![];
        let g = self.tcx.generics_of(d);
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            match p.kind {
                ty::GenericParamDefKind::Lifetime => {}
                _ => v.push(esc(p.name.as_str())),
            }
        }
        list(v)
    }
}

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let Ok(dir) = std::env::var("CFGFACTS_OUT") else {
            return Compilation::Continue;
        };
        let crate_name = tcx.crate_name(LOCAL_CRATE).to_string();
        if crate_name == "build_script_build" {
            return Compilation::Continue;
        }
        let mut cx = Cx {
            tcx,
            adts: BTreeMap::new(),
            adt_queue: vec![],
            env: ty::TypingEnv::fully_monomorphized(),
        };
        let ev = tcx.effective_visibilities(());
        let mut fns = vec![];
        for &ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            cx.env = ty::TypingEnv::post_analysis(tcx, d);
            let (body, is_const): (&Body<'_>, bool) = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => (tcx.optimized_mir(d), false),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    (tcx.mir_for_ctfe(d), true)
                }
                _ => continue,
            };
            let b = cx.body(body);
            let proms: Vec<_> = tcx.promoted_mir(d).iter().map(|b| cx.body(b)).collect();
            let raw = cx.raw(d);
            let pretty = cx.pretty(d);
            let gens = cx.generics(d);
            let sp = tcx.def_span(d);
            let file = tcx
                .sess
                .source_map()
                .lookup_char_pos(sp.lo())
                .file
                .name
                .prefer_local_unconditionally()
                .to_string();
            let exp = sp.from_expansion() || {
                // derive-generated impls carry the automatically_derived attribute
                let mut p = d;
                let mut r = false;
                while let Some(q) = tcx.opt_parent(p) {
                    if let DefKind::Impl { .. } = tcx.def_kind(q) {
                        r = tcx.is_automatically_derived(q);
                        break;
                    }
                    p = q;
                }
                r
            };
            let public = ev.is_reachable(ld);
            fns.push(format!(
                "{{\"id\":{},\"n\":{},\"g\":{},\"file\":{},\"line\":{},\"pub\":{},\"derived\":{},\"const\":{},\"kind\":{},\"body\":{},\"prom\":{}}}",
                esc(&raw),
                esc(&pretty),
                gens,
                esc(&file),
                cx.line(sp),
                public,
                exp,
                is_const,
                esc(&format!("{:?}", kind).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")),
                b,
                list(proms)
            ));
        }
        let mut impls = vec![];
        for (tr, ids) in tcx.all_local_trait_impls(()).iter() {
            for &i in ids {
                let d = i.to_def_id();
                let t = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let self_ty = cx.ty(t.self_ty());
                let targs = cx.args(t.args);
                let mut items = vec![];
                for &it in tcx.associated_item_def_ids(d) {
                    if let DefKind::AssocFn = tcx.def_kind(it) {
                        items.push(format!(
                            "[{},{}]",
                            esc(tcx.item_name(it).as_str()),
                            esc(&cx.raw(it))
                        ));
                    }
                    if let DefKind::AssocConst { .. } = tcx.def_kind(it) {
                        items.push(format!(
                            "[{},{}]",
                            esc(&format!("const {}", tcx.item_name(it).as_str())),
                            esc(&cx.raw(it))
                        ));
                    }
                    if let DefKind::AssocTy = tcx.def_kind(it) {
                        let t = tcx.type_of(it).instantiate_identity().skip_norm_wip();
                        let t = cx.ty(t);
                        items.push(format!(
                            "[{},{}]",
                            esc(&format!("type {}", tcx.item_name(it).as_str())),
                            t
                        ));
                    }
                }
                impls.push(format!(
                    "{{\"trait\":{},\"self\":{},\"targs\":{},\"g\":{},\"items\":{}}}",
                    esc(&cx.raw(*tr)),
                    self_ty,
                    targs,
                    cx.generics(d),
                    list(items)
                ));
            }
        }
        // local ADTs even when not mentioned
        for ld in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(ld), DefKind::Struct | DefKind::Enum) {
                cx.adt(ld.to_def_id());
            }
        }
        while let Some(d) = cx.adt_queue.pop() {
            let def = tcx.adt_def(d);
            let local_or_std = true;
            let mut vars = vec![];
            for (vi, v) in def.variants().iter_enumerated() {
                let discr = if def.is_enum() {
                    format!("{}", def.discriminant_for_variant(tcx, vi).val)
                } else {
                    "0".into()
                };
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let t = if d.is_local() && local_or_std {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        cx.ty(t)
                    } else {
                        "null".into()
                    };
                    fs.push(format!(
                        "[{},{},{}]",
                        esc(f.name.as_str()),
                        t,
                        f.vis.is_public()
                    ));
                }
                vars.push(format!(
                    "{{\"n\":{},\"d\":{},\"f\":{}}}",
                    esc(v.name.as_str()),
                    esc(&discr),
                    list(fs)
                ));
            }
            let s = format!(
                "{{\"enum\":{},\"g\":{},\"v\":{}}}",
                def.is_enum(),
                cx.generics(d),
                list(vars)
            );
            let k = cx.raw(d);
            cx.adts.insert(k, s);
        }
        let adts: Vec<_> = cx
            .adts
            .iter()
            .map(|(k, v)| format!("{}:{}", esc(k), v))
            .collect();
        let out = format!(
            "{{\"crate\":{},\"fns\":{},\"impls\":{},\"adts\":{{{}}}}}",
            esc(&crate_name),
            list(fns),
            list(impls),
            adts.join(",")
        );
        let path = format!("{}/{}.json", dir, crate_name);
        std::fs::write(&path, out).expect("write facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    if std::env::var("CFGFACTS_OUT").is_ok() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Coverflow-checks=yes".into());
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb)); return code;
}
