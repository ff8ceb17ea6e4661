// mirdump: a rustc driver that writes the type-checked MIR of workspace crates as JSON lines.
//
// Used as RUSTC_WRAPPER: argv = [self, rustc, args...].  Crates that are not workspace members are
// handed to the real rustc unchanged (minus one cfg that an old build script sets on any nightly).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, String>,
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate);
        format!("{}{}", krate, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn name(&self, d: DefId) -> String {
        let s = with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)));
        if d.is_local() {
            format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), s)
        } else {
            s
        }
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t)))
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) -> String {
        let id = self.id(def.did());
        if !self.adts.contains_key(&id) {
            self.adts.insert(id.clone(), String::new());
            let tcx = self.tcx;
            let mut vs = vec![];
            for (i, v) in def.variants().iter_enumerated() {
                let discr = if def.is_enum() {
                    def.discriminant_for_variant(tcx, i).val.to_string()
                } else {
                    "0".into()
                };
                let fs = arr(v.fields.iter().map(|f| {
                    let ft = tcx.type_of(f.did).instantiate_identity();
                    let ft = ft.skip_norm_wip();
                    format!("[{},{}]", esc(f.name.as_str()), esc(&self.ty(ft)))
                }));
                vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(v.name.as_str()), esc(&discr), fs));
            }
            let rec = format!(
                "{{\"k\":\"adt\",\"id\":{},\"enum\":{},\"v\":{}}}",
                esc(&id),
                def.is_enum(),
                arr(vs)
            );
            self.adts.insert(id.clone(), rec);
        }
        id
    }
    fn loc(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut out = vec![p.local.as_usize().to_string()];
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let def = *def;
                            self.adt(def);
                            let v = match pt.variant_index {
                                Some(v) => def.variant(v),
                                None if def.is_enum() => def.variant(rustc_abi::FIRST_VARIANT),
                                None => def.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    format!("[\"f\",{}]", esc(&n))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => {
                    let (n, ty) = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let def = *def;
                            let id = self.adt(def);
                            (def.variant(v).name.to_string(), id)
                        }
                        _ => (v.as_usize().to_string(), String::new()),
                    };
                    format!("[\"d\",{},{}]", esc(&n), esc(&ty))
                }
                _ => "[\"o\"]".to_string(),
            };
            out.push(s);
            pt = pt.projection_ty(tcx, e);
        }
        arr(out)
    }
    fn fnref(&mut self, body_def: DefId, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, body_def);
        let orig_name = self.name(did);
        let mut rid = did;
        let mut rargs = args;
        let mut resolved = false;
        let eargs = tcx.erase_and_anonymize_regions(args);
        // Into::into -> From::from
        let mut target = (did, eargs);
        if orig_name == "core::convert::Into::into" {
            if let Some(from_tr) = tcx.get_diagnostic_item(rustc_span::sym::From) {
                if let Some(m) = tcx.associated_items(from_tr).in_definition_order().next() {
                    let na = tcx.mk_args(&[eargs[1], eargs[0]]);
                    target = (m.def_id, na);
                }
            }
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, target.0, target.1) {
            match inst.def {
                ty::InstanceKind::Item(d) => {
                    rid = d;
                    rargs = inst.args;
                    resolved = true;
                }
                ty::InstanceKind::Virtual(..) => {}
                _ => {
                    rid = inst.def_id();
                    rargs = inst.args;
                    resolved = true;
                }
            }
        }
        let derived = {
            let p = tcx.opt_parent(rid);
            p.map(|p| matches!(tcx.def_kind(p), DefKind::Impl { .. }) && tcx.is_automatically_derived(p))
                .unwrap_or(false)
        };
        format!(
            "{{\"id\":{},\"n\":{},\"rn\":{},\"a\":{},\"ra\":{},\"res\":{},\"der\":{}}}",
            esc(&self.id(rid)),
            esc(&orig_name),
            esc(&self.name(rid)),
            arr(args.iter().filter_map(|g| g.as_type()).map(|t| esc(&self.ty(t)))),
            arr(rargs.iter().filter_map(|g| g.as_type()).map(|t| esc(&self.ty(t)))),
            resolved,
            derived
        )
    }
    fn constant(&mut self, bd: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        if let ty::FnDef(d, args) = ty.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            return format!("{{\"fn\":{}}}", self.fnref(bd, *d, args));
        }
        let tys = esc(&self.ty(ty));
        match c.const_ {
            Const::Unevaluated(u, _) => {
                // try to evaluate integer constants only when trivially possible
                let pr = match u.promoted {
                    Some(p) => p.as_usize().to_string(),
                    None => "null".into(),
                };
                format!(
                    "{{\"uneval\":{},\"n\":{},\"p\":{},\"ty\":{}}}",
                    esc(&self.id(u.def)),
                    esc(&self.name(u.def)),
                    pr,
                    tys
                )
            }
            Const::Val(v, _) => self.constval(v, ty, tys),
            Const::Ty(_, ct) => {
                if let Some(v) = ct.try_to_value() {
                    if let Some(si) = v.try_to_leaf() {
                        return format!("{{\"int\":{},\"ty\":{}}}", esc(&si.to_bits_unchecked().to_string()), tys);
                    }
                }
                let _ = tcx;
                format!("{{\"opaque\":{},\"ty\":{}}}", esc(&format!("{:?}", ct)), tys)
            }
        }
    }
    fn constval(&mut self, v: ConstValue, ty: Ty<'tcx>, tys: String) -> String {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(mir::interpret::Scalar::Int(si)) => {
                let bits = si.to_bits_unchecked();
                format!("{{\"int\":{},\"ty\":{}}}", esc(&bits.to_string()), tys)
            }
            ConstValue::ZeroSized => format!("{{\"zst\":{}}}", tys),
            ConstValue::Slice { .. } => {
                let is_str = match ty.kind() {
                    ty::Ref(_, t, _) => t.is_str(),
                    _ => false,
                };
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    let s = String::from_utf8_lossy(b).to_string();
                    if is_str {
                        return format!("{{\"str\":{},\"ty\":{}}}", esc(&s), tys);
                    }
                    return format!("{{\"bytes\":{},\"ty\":{}}}", esc(&s), tys);
                }
                format!("{{\"opaque\":\"slice\",\"ty\":{}}}", tys)
            }
            _ => format!("{{\"opaque\":{},\"ty\":{}}}", esc(&format!("{:?}", v)), tys),
        }
    }
    fn operand(&mut self, bd: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(bd, c)),
            #[allow(unreachable_patterns)]
            _ => "[\"k\",{\"int\":\"0\",\"ty\":\"bool\"}]".into(),
        }
    }
    fn rvalue(&mut self, bd: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(bd, body, o)),
            Rvalue::Repeat(o, _) => format!("[\"rep\",{}]", self.operand(bd, body, o)),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(body, p), m)
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(body, p)),
            Rvalue::BinaryOp(op, ab) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", op)),
                self.operand(bd, body, &ab.0),
                self.operand(bd, body, &ab.1)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(bd, body, a))
            }
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{}]",
                esc(&format!("{:?}", k)),
                self.operand(bd, body, o),
                esc(&self.ty(*t))
            ),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let id = match t.kind() {
                    ty::Adt(def, _) => {
                        let def = *def;
                        self.adt(def)
                    }
                    _ => self.ty(t),
                };
                format!("[\"disc\",{},{}]", self.place(body, p), esc(&id))
            }
            Rvalue::Aggregate(k, ops) => {
                let os = arr(ops.iter().map(|o| self.operand(bd, body, o)).collect::<Vec<_>>());
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",[\"array\"],{}]", os),
                    AggregateKind::Tuple => format!("[\"agg\",[\"tuple\"],{}]", os),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let def = tcx.adt_def(*d);
                        let id = self.adt(def);
                        let var = def.variant(*v);
                        let fs = arr(var.fields.iter().map(|f| esc(f.name.as_str())));
                        format!("[\"agg\",[\"adt\",{},{},{}],{}]", esc(&id), esc(var.name.as_str()), fs, os)
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"agg\",[\"closure\",{}],{}]", esc(&self.id(*d)), os)
                    }
                    _ => format!("[\"agg\",[\"other\"],{}]", os),
                }
            }
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }
    fn body(&mut self, kind: &str, bd: DefId, body: &Body<'tcx>, promoted: Option<usize>) -> String {
        let tcx = self.tcx;
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let locals = arr(body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                format!(
                    "[{},{}]",
                    esc(&self.ty(d.ty)),
                    names.get(&l.as_usize()).map(|s| esc(s)).unwrap_or("null".into())
                )
            })
            .collect::<Vec<_>>());
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push("null".into());
                continue;
            }
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        ss.push(format!("[{},{}]", self.place(body, p), self.rvalue(bd, body, r)));
                    }
                    StatementKind::SetDiscriminant { .. } => ss.push("[null,[\"setdisc\"]]".into()),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let line = self.loc(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts = arr(targets.iter().map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.as_usize())));
                    let dt = discr.ty(&body.local_decls, tcx);
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(bd, body, discr),
                        ts,
                        targets.otherwise().as_usize(),
                        esc(&self.ty(dt))
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(bd, body, func);
                    let aa = arr(args.iter().map(|a| self.operand(bd, body, &a.node)).collect::<Vec<_>>());
                    let at = arr(args.iter().map(|a| {
                        let t = a.node.ty(&body.local_decls, tcx);
                        esc(&self.ty(t))
                    }).collect::<Vec<_>>());
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let d = self.place(body, destination);
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        f,
                        aa,
                        d,
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        esc(&self.ty(dt)),
                        at
                    )
                }
                TerminatorKind::Assert { cond, expected, target, .. } => {
                    format!("[\"assert\",{},{},{}]", self.operand(bd, body, cond), expected, target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"unreach\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{}}}", arr(ss), t, esc(&line)));
        }
        let derived = tcx
            .opt_parent(bd)
            .map(|p| matches!(tcx.def_kind(p), DefKind::Impl { .. }) && tcx.is_automatically_derived(p))
            .unwrap_or(false);
        let vis = if matches!(tcx.def_kind(bd), DefKind::Fn | DefKind::AssocFn) {
            tcx.visibility(bd).is_public()
        } else {
            false
        };
        format!(
            "{{\"k\":{},\"id\":{},\"n\":{},\"p\":{},\"argc\":{},\"locals\":{},\"blocks\":{},\"l\":{},\"der\":{},\"pub\":{},\"g\":{}}}",
            esc(kind),
            esc(&self.id(bd)),
            esc(&self.name(bd)),
            promoted.map(|p| p.to_string()).unwrap_or("null".into()),
            body.arg_count,
            locals,
            arr(blocks),
            esc(&self.loc(body.span)),
            derived,
            vis,
            arr(ty::GenericArgs::identity_for_item(tcx, tcx.typeck_root_def_id(bd)).iter().filter_map(|g| g.as_type()).map(|t| esc(&self.ty(t))).collect::<Vec<_>>())
        )
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, adts: BTreeMap::new() };
        let mut lines: Vec<String> = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            // skip derive output (serde, schemars, Clone, ...): summarised by trait name
            let mut anc = tcx.opt_parent(d);
            let mut skip = false;
            while let Some(p) = anc {
                if matches!(tcx.def_kind(p), DefKind::Impl { .. }) && tcx.is_automatically_derived(p) {
                    skip = true;
                }
                if let DefKind::Impl { of_trait: true } = tcx.def_kind(p) {
                    let n = cx.name(tcx.impl_trait_ref(p).skip_binder().def_id);
                    if n.starts_with("schemars::") || n.starts_with("serde::") || n.starts_with("serde_core::") || n.starts_with("prost::") {
                        skip = true;
                    }
                }
                anc = tcx.opt_parent(p);
            }
            if skip {
                continue;
            }
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(d) {
                        continue;
                    }
                    let b = tcx.optimized_mir(d);
                    let k = if matches!(kind, DefKind::Closure) { "closure" } else { "fn" };
                    lines.push(cx.body(k, d, b, None));
                    for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                        lines.push(cx.body("promoted", d, p, Some(i.as_usize())));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let b = tcx.mir_for_ctfe(d);
                    lines.push(cx.body("const", d, b, None));
                    for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                        lines.push(cx.body("promoted", d, p, Some(i.as_usize())));
                    }
                }
                _ => {}
            }
        }
        // every local ADT, used or not
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
                cx.adt(tcx.adt_def(id.to_def_id()));
            }
        }
        for (_, r) in &cx.adts {
            lines.push(r.clone());
        }
        let krate = tcx.crate_name(LOCAL_CRATE);
        let f = format!("{}/{}.jsonl", self.out, krate);
        let tmp = format!("{}.tmp{}", f, std::process::id());
        let mut fh = std::fs::File::create(&tmp).unwrap();
        for l in lines {
            writeln!(fh, "{}", l).unwrap();
        }
        drop(fh);
        std::fs::rename(&tmp, &f).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // argv[1] is the rustc cargo wanted to run
    let rustc = args.remove(1);
    let mut a2 = vec![];
    let mut i = 1;
    while i < args.len() {
        if args[i] == "--cfg" && i + 1 < args.len() && args[i + 1] == "feature=\"stdsimd\"" {
            i += 2;
            continue;
        }
        a2.push(args[i].clone());
        i += 1;
    }
    let out = std::env::var("MIRDUMP_OUT").ok();
    let primary = std::env::var("CARGO_PRIMARY_PACKAGE").is_ok();
    let is_lib = a2.iter().any(|a| a == "--crate-name") && a2.iter().any(|a| a == "lib" || a == "cdylib" || a == "rlib");
    if out.is_none() || !primary || !is_lib {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(rustc).args(&a2).exec();
        eprintln!("mirdump: exec failed: {e}");
        std::process::exit(101);
    }
    let mut full = vec![rustc];
    full.extend(a2);
    full.push("-Zmir-opt-level=0".into());
    full.push("-Zalways-encode-mir=no".into());
    full.push("-Awarnings".into());
    full.push("-Coverflow-checks=off".into());
    full.push("-Cdebug-assertions=off".into());
    let mut cb = Cb { out: out.unwrap() };
    rustc_driver::compiler_entrypoint(&full, &mut cb);
}
