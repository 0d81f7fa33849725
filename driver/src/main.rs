//! mirfacts: a rustc driver (RUSTC_WORKSPACE_WRAPPER) that type-checks a crate exactly as the
//! real build does and writes its drop-elaborated MIR, resolved callees, type definitions and
//! trait-impl tables as JSON to $MIRFACTS_OUT/<crate>.json.  It never runs the analysed code.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_abi;

use std::fmt::Write as _;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};

struct Cb;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

fn uid(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

fn ty_name<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(a, _) => uid(tcx, a.did()),
        ty::Ref(_, i, _) => format!("&{}", ty_name(tcx, *i)),
        ty::Dynamic(preds, ..) => match preds.principal_def_id() {
            Some(d) => format!("dyn {}", uid(tcx, d)),
            None => "dyn".into(),
        },
        ty::Foreign(d) => uid(tcx, *d),
        _ => rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t)),
    }
}

/// Full printed type, with definition paths made canonical (crate-qualified).
fn ty_full<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    fn args<'tcx>(tcx: TyCtxt<'tcx>, a: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = a
            .iter()
            .filter_map(|g| g.as_type())
            .map(|t| ty_full(tcx, t))
            .collect();
        if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) }
    }
    match t.kind() {
        ty::Adt(a, s) => format!("{}{}", uid(tcx, a.did()), args(tcx, s)),
        ty::Ref(_, i, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, ty_full(tcx, *i)),
        ty::RawPtr(i, m) => format!("*{} {}", if m.is_mut() { "mut" } else { "const" }, ty_full(tcx, *i)),
        ty::Slice(i) => format!("[{}]", ty_full(tcx, *i)),
        ty::Array(i, _) => format!("[{}; N]", ty_full(tcx, *i)),
        ty::Tuple(ts) => format!("({})", ts.iter().map(|t| ty_full(tcx, t)).collect::<Vec<_>>().join(", ")),
        ty::Dynamic(preds, ..) => {
            let mut s = String::from("dyn ");
            if let Some(d) = preds.principal_def_id() {
                s.push_str(&uid(tcx, d));
            }
            for d in preds.auto_traits() {
                s.push_str(" + ");
                s.push_str(&uid(tcx, d));
            }
            s
        }
        ty::Closure(d, _) => format!("closure {}", uid(tcx, *d)),
        ty::FnDef(d, s) => format!("fndef {}{}", uid(tcx, *d), args(tcx, s.skip_binder())),
        _ => rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t)),
    }
}

fn canon(tcx: TyCtxt<'_>, d: DefId) -> String {
    let kind = tcx.def_kind(d);
    if matches!(kind, DefKind::Closure) {
        let p = tcx.parent(d);
        let u = uid(tcx, d);
        let last = u.rsplit("::").next().unwrap_or("").to_string();
        return format!("{}::{}", canon(tcx, p), last);
    }
    if let Some(p) = tcx.opt_parent(d) {
        if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
            let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
            let sn = ty_name(tcx, st);
            let name = tcx.item_name(d);
            return match tcx.impl_opt_trait_ref(p) {
                Some(tr) => {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    format!("<{} as {}>::{}", sn, uid(tcx, tr.def_id), name)
                }
                None => format!("{}::{}", sn, name),
            };
        }
    }
    uid(tcx, d)
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'tcx Body<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Dump<'tcx> {
    fn place(&self, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{}", p.local.as_u32());
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            o.push(',');
            match el {
                PlaceElem::Deref => o.push_str("\"*\""),
                PlaceElem::Field(f, _) => {
                    let mut nm = format!("{}", f.as_u32());
                    let mut owner = String::new();
                    if let ty::Adt(a, _) = pt.ty.kind() {
                        owner = uid(tcx, a.did());
                        let v = match pt.variant_index {
                            Some(v) => Some(a.variant(v)),
                            None if a.is_enum() => None,
                            None => Some(a.non_enum_variant()),
                        };
                        if let Some(v) = v {
                            nm = v.fields[f].name.to_string();
                            if a.is_enum() {
                                owner = format!("{}::{}", owner, v.name);
                            }
                        }
                    } else if let ty::Closure(d, _) = pt.ty.kind() {
                        owner = format!("closure {}", uid(tcx, *d));
                        if let Some(l) = d.as_local() {
                            if let Some(c) = tcx.closure_captures(l).get(f.as_usize()) {
                                nm = format!("{}", c.var_ident);
                                nm = format!("{}:{}", f.as_u32(), nm);
                            }
                        }
                    } else if let ty::Tuple(_) = pt.ty.kind() {
                        owner = "tuple".into();
                    }
                    let _ = write!(o, "[\"f\",{},{},{}]", f.as_u32(), esc(&nm), esc(&owner));
                }
                PlaceElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_u32());
                }
                PlaceElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"ci\",{},{}]", offset, from_end);
                }
                PlaceElem::Subslice { .. } => o.push_str("\"sub\""),
                PlaceElem::Downcast(name, v) => {
                    let mut nm = name.map(|s| s.to_string()).unwrap_or_default();
                    if let ty::Adt(a, _) = pt.ty.kind() {
                        if a.is_enum() {
                            nm = a.variant(v).name.to_string();
                        }
                    }
                    let _ = write!(o, "[\"d\",{},{}]", v.as_u32(), esc(&nm));
                }
                _ => o.push_str("\"?\""),
            }
            pt = pt.projection_ty(tcx, el);
        }
        o.push(']');
        o
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let mut o = String::from("{\"k\":");
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", c.const_));
        o.push_str(&esc(&s));
        let _ = write!(o, ",\"ty\":{}", esc(&ty_full(self.tcx, t)));
        if let ty::FnDef(d, a) = t.kind() {
            let _ = write!(o, ",\"fn\":{}", self.callee(*d, a.skip_binder()));
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(o, ",\"def\":{}", esc(&uid(self.tcx, u.def)));
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"prom\":{}", p.as_u32());
            }
        }
        o.push('}');
        o
    }

    fn op(&self, x: &Operand<'tcx>) -> String {
        match x {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(c),
            #[allow(unreachable_patterns)]
            _ => "{\"k\":\"?\",\"ty\":\"?\"}".into(),
        }
    }

    fn callee(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::from("{");
        let _ = write!(o, "\"decl\":{}", esc(&canon(tcx, d)));
        let gen: Vec<String> = args
            .iter()
            .filter_map(|g| g.as_type())
            .map(|t| esc(&ty_full(tcx, t)))
            .collect();
        let _ = write!(o, ",\"g\":{}", list(gen));
        let tr = tcx.trait_of_assoc(d);
        if let Some(t) = tr {
            let _ = write!(o, ",\"tr\":{}", esc(&uid(tcx, t)));
        }
        let mut res: Option<DefId> = None;
        let mut virt = false;
        if tr.is_some() {
            let ea = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, ea) {
                match inst.def {
                    ty::InstanceKind::Item(r) => res = Some(r),
                    ty::InstanceKind::Virtual(..) => virt = true,
                    _ => {}
                }
            }
        } else {
            res = Some(d);
        }
        if let Some(r) = res {
            let _ = write!(o, ",\"uid\":{},\"name\":{}", esc(&uid(tcx, r)), esc(&canon(tcx, r)));
        }
        if virt {
            o.push_str(",\"virt\":1");
        }
        o.push('}');
        o
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(x, ..) => format!("[\"use\",{}]", self.op(x)),
            Rvalue::Repeat(x, _) => format!("[\"rep\",{}]", self.op(x)),
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                if matches!(bk, BorrowKind::Mut { .. }) { 1 } else { 0 },
                self.place(p)
            ),
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(p)),
            Rvalue::Cast(k, x, t) => format!(
                "[\"cast\",{},{},{}]",
                esc(&format!("{:?}", k)),
                self.op(x),
                esc(&ty_full(self.tcx, *t))
            ),
            Rvalue::BinaryOp(b, xs) => {
                format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", b)), self.op(&xs.0), self.op(&xs.1))
            }
            Rvalue::UnaryOp(b, x) => format!("[\"un\",{},{}]", esc(&format!("{:?}", b)), self.op(x)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, xs) => {
                let ops = list(xs.iter().map(|x| self.op(x)));
                match &**k {
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let a = self.tcx.adt_def(*d);
                        let var = a.variant(*v);
                        let names: Vec<String> = match active {
                            Some(f) => vec![esc(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        format!(
                            "[\"agg\",{},{},{},{}]",
                            esc(&uid(self.tcx, *d)),
                            esc(if a.is_enum() { var.name.as_str() } else { "" }),
                            list(names),
                            ops
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        let names: Vec<String> = match d.as_local() {
                            Some(l) => self
                                .tcx
                                .closure_captures(l)
                                .iter()
                                .map(|c| esc(&format!("{}", c.var_ident)))
                                .collect(),
                            None => vec![],
                        };
                        format!(
                            "[\"agg\",{},\"\",{},{}]",
                            esc(&format!("closure {}", uid(self.tcx, *d))),
                            list(names),
                            ops
                        )
                    }
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",\"\",[],{}]", ops),
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",\"\",[],{}]", ops),
                    _ => format!("[\"agg\",\"other\",\"\",[],{}]", ops),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line)
    }

    fn unwind(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => format!("{}", b.as_u32()),
            _ => "null".into(),
        }
    }

    fn block(&self, b: &BasicBlockData<'tcx>) -> String {
        let mut st = Vec::new();
        for s in &b.statements {
            let l = self.line(s.source_info.span).1;
            match &s.kind {
                StatementKind::Assign(x) => {
                    st.push(format!("[\"=\",{},{},{}]", l, self.place(&x.0), self.rvalue(&x.1)))
                }
                StatementKind::SetDiscriminant { place, variant_index } => st.push(format!(
                    "[\"setd\",{},{},{}]",
                    l,
                    self.place(place),
                    variant_index.as_u32()
                )),
                StatementKind::StorageDead(x) => st.push(format!("[\"dead\",{},{}]", l, x.as_u32())),
                _ => {}
            }
        }
        let t = b.terminator();
        let l = self.line(t.source_info.span).1;
        let term = match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{},{}]", l, target.as_u32()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v: Vec<String> = targets
                    .iter()
                    .map(|(v, b)| format!("[{},{}]", v, b.as_u32()))
                    .collect();
                format!(
                    "[\"switch\",{},{},{},{}]",
                    l,
                    self.op(discr),
                    list(v),
                    targets.otherwise().as_u32()
                )
            }
            TerminatorKind::Return => format!("[\"ret\",{}]", l),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => format!("[\"resume\",{}]", l),
            TerminatorKind::Unreachable => format!("[\"unreach\",{}]", l),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let ty = place.ty(self.body, self.tcx).ty;
                format!(
                    "[\"drop\",{},{},{},{},{}]",
                    l,
                    self.place(place),
                    target.as_u32(),
                    Self::unwind(unwind),
                    esc(&ty_full(self.tcx, ty))
                )
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let f = match func {
                    Operand::Constant(c) => match c.const_.ty().kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.skip_binder()),
                        _ => format!("{{\"ptr\":{}}}", self.op(func)),
                    },
                    _ => format!("{{\"ptr\":{}}}", self.op(func)),
                };
                let xs = list(args.iter().map(|x| self.op(&x.node)));
                format!(
                    "[\"call\",{},{},{},{},{},{}]",
                    l,
                    f,
                    xs,
                    self.place(destination),
                    target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()),
                    Self::unwind(unwind)
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let kind = format!("{:?}", msg);
                let kind: String = kind.chars().take(60).collect();
                format!(
                    "[\"assert\",{},{},{},{},{},{}]",
                    l,
                    self.op(cond),
                    expected,
                    target.as_u32(),
                    Self::unwind(unwind),
                    esc(&kind)
                )
            }
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{},{}]", l, real_target.as_u32()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{},{}]", l, real_target.as_u32()),
            k => format!("[\"other\",{},{}]", l, esc(&format!("{:?}", k))),
        };
        format!("[{},{},{}]", if b.is_cleanup { 1 } else { 0 }, list(st), term)
    }

    fn blocks(&self) -> String {
        list(self.body.basic_blocks.iter().map(|b| self.block(b)))
    }

    fn locals(&self) -> String {
        let mut names: Vec<String> = vec![String::new(); self.body.local_decls.len()];
        for v in &self.body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = v.name.to_string();
                }
            }
        }
        list(self.body.local_decls.iter_enumerated().map(|(i, d)| {
            format!("[{},{}]", esc(&ty_full(self.tcx, d.ty)), esc(&names[i.as_usize()]))
        }))
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut fns = Vec::new();
    for ld in tcx.mir_keys(()).iter() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let k = match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Closure => "closure",
            _ => continue,
        };
        if tcx.is_constructor(d) {
            continue;
        }
        let body = tcx.optimized_mir(d);
        let dm = Dump { tcx, body, env: TypingEnv::post_analysis(tcx, d) };
        let (file, line) = dm.line(tcx.def_span(d));
        let mut o = String::from("{");
        let _ = write!(o, "\"uid\":{},\"name\":{},\"kind\":\"{}\"", esc(&uid(tcx, d)), esc(&canon(tcx, d)), k);
        let _ = write!(o, ",\"file\":{},\"line\":{}", esc(&file), line);
        let _ = write!(o, ",\"args\":{}", body.arg_count);
        let p = tcx.parent(d);
        if k == "closure" {
            let _ = write!(o, ",\"parent\":{}", esc(&uid(tcx, tcx.typeck_root_def_id(d))));
        } else {
            let vis = tcx.visibility(d);
            let _ = write!(o, ",\"pub\":{}", vis.is_public());
            let ev = tcx.effective_visibilities(()).is_reachable(*ld);
            let _ = write!(o, ",\"exported\":{}", ev);
        }
        let exp = tcx.def_span(d).from_expansion();
        let _ = write!(o, ",\"exp\":{}", exp);
        match tcx.def_kind(p) {
            DefKind::Impl { .. } => {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"self\":{},\"selfty\":{}", esc(&ty_name(tcx, st)), esc(&ty_full(tcx, st)));
                if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"trait\":{}", esc(&uid(tcx, tr.def_id)));
                    if let Some(ti) = tcx.trait_item_of(d) {
                        let _ = write!(o, ",\"tritem\":{}", esc(&uid(tcx, ti)));
                    }
                }
            }
            DefKind::Trait => {
                let _ = write!(o, ",\"intrait\":{}", esc(&uid(tcx, p)));
            }
            _ => {}
        }
        let _ = write!(o, ",\"locals\":{}", dm.locals());
        let _ = write!(o, ",\"blocks\":{}", dm.blocks());
        let proms = tcx.promoted_mir(d);
        let pl = list(proms.iter().map(|b| {
            let dm2 = Dump { tcx, body: b, env: dm.env };
            format!("{{\"locals\":{},\"blocks\":{}}}", dm2.locals(), dm2.blocks())
        }));
        let _ = write!(o, ",\"prom\":{}", pl);
        o.push('}');
        fns.push(o);
    }
    let mut adts = Vec::new();
    let mut traits = Vec::new();
    let mut impls = Vec::new();
    let items = tcx.hir_crate_items(());
    for id in items.definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(d);
                let vs = list(a.variants().iter().map(|v| {
                    let fs = list(v.fields.iter().map(|f| {
                        format!(
                            "[{},{},{}]",
                            esc(f.name.as_str()),
                            esc(&ty_full(tcx, tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                            f.vis.is_public()
                        )
                    }));
                    format!("[{},{}]", esc(v.name.as_str()), fs)
                }));
                let sm = tcx.sess.source_map();
                let lo = sm.lookup_char_pos(tcx.def_span(d).lo());
                adts.push(format!(
                    "{{\"uid\":{},\"enum\":{},\"pub\":{},\"exported\":{},\"file\":{},\"line\":{},\"variants\":{}}}",
                    esc(&uid(tcx, d)),
                    a.is_enum(),
                    tcx.visibility(d).is_public(),
                    tcx.effective_visibilities(()).is_reachable(id),
                    esc(&format!("{}", lo.file.name.prefer_local_unconditionally())),
                    lo.line,
                    vs
                ));
            }
            DefKind::Trait => {
                let ms = list(
                    tcx.associated_items(d)
                        .in_definition_order()
                        .filter(|i| i.is_fn())
                        .map(|i| {
                            format!("[{},{}]", esc(&uid(tcx, i.def_id)), i.defaultness(tcx).has_value())
                        }),
                );
                traits.push(format!("{{\"uid\":{},\"methods\":{}}}", esc(&uid(tcx, d)), ms));
            }
            DefKind::Impl { .. } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let ms = list(tcx.associated_items(d).in_definition_order().filter(|i| i.is_fn()).map(|i| {
                        let ti = tcx.trait_item_of(i.def_id).map(|t| uid(tcx, t)).unwrap_or_default();
                        format!("[{},{}]", esc(&ti), esc(&uid(tcx, i.def_id)))
                    }));
                    impls.push(format!(
                        "{{\"trait\":{},\"self\":{},\"selfty\":{},\"methods\":{},\"g\":{}}}",
                        esc(&uid(tcx, tr.def_id)),
                        esc(&ty_name(tcx, st)),
                        esc(&ty_full(tcx, st)),
                        ms,
                        list(tr.args.types().skip(1).map(|t| esc(&ty_full(tcx, t))))
                    ));
                }
            }
            _ => {}
        }
    }
    format!(
        "{{\"crate\":{},\"fns\":{},\"adts\":{},\"traits\":{},\"impls\":{}}}",
        esc(tcx.crate_name(LOCAL_CRATE).as_str()),
        list(fns).replace("},{\"uid\"", "},\n{\"uid\""),
        list(adts),
        list(traits),
        list(impls)
    )
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Ok(dir) = std::env::var("MIRFACTS_OUT") {
            let name = tcx.crate_name(LOCAL_CRATE).to_string();
            let is_bin = tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable");
            if name != "build_script_build" {
                let s = dump(tcx);
                let fname = format!("{}/{}{}.json", dir, name, if is_bin { "-bin" } else { "" });
                let tmp = format!("{}.tmp{}", fname, std::process::id());
                std::fs::write(&tmp, s).expect("write facts");
                std::fs::rename(&tmp, &fname).expect("rename facts");
            }
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc itself.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let query = args.iter().any(|a| a == "-vV" || a == "-V" || a.starts_with("--print"));
    if query {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
        return;
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
