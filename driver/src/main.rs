//! Dumps the type-checked program of one crate as JSON: every local MIR body
//! (functions, closures, constants, promoteds), the evaluated constants and the
//! resolved callees in them, the data types, the trait impls and the statics.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: `mirdump <rustc> <args..>`.  The dump is
//! written to $MIRDUMP_OUT for the crate named $MIRDUMP_CRATE, other crates are
//! compiled as usual.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{
    AggregateKind, Body, Const, ConstValue, Operand, Place, ProjectionElem, Rvalue, StatementKind,
    TerminatorKind,
};
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut o = String::from("[");
    let mut first = true;
    for x in it {
        if !first {
            o.push(',');
        }
        first = false;
        o.push_str(&x);
    }
    o.push(']');
    o
}

/// Crate name + definition path, without crate hashes.
fn dpath(tcx: TyCtxt<'_>, d: DefId) -> String {
    let krate = tcx.crate_name(d.krate);
    format!("{}{}", krate, tcx.def_path(d).to_string_no_crate_verbose())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}:{}", f, lo.line, lo.col.0 + 1))
    }

    fn ty(&self, t: Ty<'tcx>) -> String {
        match *t.kind() {
            ty::Adt(def, args) => format!(
                "{{\"k\":\"adt\",\"path\":{},\"args\":{}}}",
                esc(&dpath(self.tcx, def.did())),
                self.args(args)
            ),
            ty::Ref(_, t, m) => {
                format!("{{\"k\":\"ref\",\"mut\":{},\"t\":{}}}", m.is_mut(), self.ty(t))
            }
            ty::RawPtr(t, _) => format!("{{\"k\":\"ptr\",\"t\":{}}}", self.ty(t)),
            ty::Slice(t) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(t)),
            ty::Array(t, n) => {
                format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", self.ty(t), esc(&n.to_string()))
            }
            ty::Tuple(ts) => {
                format!("{{\"k\":\"tuple\",\"args\":{}}}", list(ts.iter().map(|t| self.ty(t))))
            }
            ty::Closure(d, _) => format!(
                "{{\"k\":\"closure\",\"path\":{}}}",
                esc(&dpath(self.tcx, d.into()))
            ),
            ty::FnDef(d, _) => {
                format!("{{\"k\":\"fndef\",\"path\":{}}}", esc(&dpath(self.tcx, d.into())))
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"name\":{}}}", esc(p.name.as_str())),
            _ => format!("{{\"k\":\"prim\",\"name\":{}}}", esc(&t.to_string())),
        }
    }

    fn args(&self, args: ty::GenericArgsRef<'tcx>) -> String {
        list(args.iter().filter_map(|a| match a.kind() {
            GenericArgKind::Type(t) => Some(self.ty(t)),
            GenericArgKind::Const(c) => Some(format!(
                "{{\"k\":\"const\",\"v\":{}}}",
                esc(&c.to_string())
            )),
            _ => None,
        }))
    }

    fn place(&self, p: &Place<'tcx>) -> String {
        let proj = list(p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "[\"deref\"]".to_string(),
            ProjectionElem::Field(f, _) => format!("[\"field\",{}]", f.index()),
            ProjectionElem::Index(l) => format!("[\"index\",{}]", l.index()),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                format!("[\"cindex\",{},{},{}]", offset, min_length, from_end)
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                format!("[\"subslice\",{},{},{}]", from, to, from_end)
            }
            ProjectionElem::Downcast(name, v) => format!(
                "[\"downcast\",{},{}]",
                v.index(),
                name.map(|n| esc(n.as_str())).unwrap_or("null".into())
            ),
            ProjectionElem::OpaqueCast(_) => "[\"cast\"]".to_string(),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }));
        format!("[{},{}]", p.local.index(), proj)
    }

    fn callee(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::from("{");
        let _ = write!(
            o,
            "\"path\":{},\"str\":{},\"args\":{},\"kind\":{}",
            esc(&dpath(tcx, d)),
            esc(&tcx.def_path_str_with_args(d, args)),
            self.args(args),
            esc(&format!("{:?}", tcx.def_kind(d)))
        );
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let parent = tcx.parent(d);
            let (adt, variant) = match tcx.def_kind(parent) {
                DefKind::Variant => (tcx.parent(parent), parent),
                _ => (parent, parent),
            };
            let adtdef = tcx.adt_def(adt);
            let vi = if variant == adt { 0 } else { adtdef.variant_index_with_id(variant).index() };
            let _ = write!(o, ",\"ctor\":{{\"adt\":{},\"variant\":{}}}", esc(&dpath(tcx, adt)), vi);
        } else {
            if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(
                    o,
                    ",\"trait\":{},\"method\":{},\"self\":{}",
                    esc(&dpath(tcx, tr)),
                    esc(tcx.item_name(d).as_str()),
                    self.ty(args.type_at(0))
                );
            } else if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let _ = write!(
                    o,
                    ",\"inherent\":{},\"method\":{}",
                    self.ty(st),
                    esc(tcx.item_name(d).as_str())
                );
            }
            if !args.has_escaping_bound_vars() {
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
                    let rd = inst.def_id();
                    let _ = write!(
                        o,
                        ",\"resolved\":{},\"rargs\":{},\"local\":{}",
                        esc(&dpath(tcx, rd)),
                        self.args(inst.args),
                        rd.is_local()
                    );
                    if let Some(im) = tcx.impl_of_assoc(rd) {
                        let _ = write!(o, ",\"impl_derived\":{}", tcx.is_automatically_derived(im));
                    }
                }
            }
            let sig = tcx.fn_sig(d).skip_binder();
            let _ = write!(o, ",\"unsafe\":{}", !sig.safety().is_safe());
        }
        o.push('}');
        o
    }

    fn constval(&self, v: ConstValue, t: Ty<'tcx>) -> String {
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let bits = s.to_bits(s.size());
                    let neg = match *t.kind() {
                        ty::Int(_) => {
                            let size = s.size().bits();
                            let sh = 128 - size;
                            let x = ((bits << sh) as i128) >> sh;
                            return format!("{{\"k\":\"int\",\"v\":{}}}", x);
                        }
                        ty::Bool => "bool",
                        ty::Char => "char",
                        _ => "int",
                    };
                    return format!("{{\"k\":{},\"v\":{}}}", esc(neg), bits);
                }
            }
            ty::Ref(_, inner, _) if matches!(inner.kind(), ty::Array(e, _) if *e == self.tcx.types.u8) => {
                if let (ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), ty::Array(_, n)) = (v, inner.kind()) {
                    let (prov, off) = p.into_raw_parts();
                    if let (rustc_middle::mir::interpret::GlobalAlloc::Memory(m), Some(n)) =
                        (self.tcx.global_alloc(prov.alloc_id()), n.try_to_target_usize(self.tcx))
                    {
                        let o = off.bytes() as usize;
                        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                        return format!("{{\"k\":\"bytearr\",\"v\":{:?}}}", b);
                    }
                }
            }
            ty::Ref(_, inner, _) => {
                if matches!(inner.kind(), ty::Str)
                    || matches!(inner.kind(), ty::Slice(e) if *e == self.tcx.types.u8)
                {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        let k = if matches!(inner.kind(), ty::Str) { "str" } else { "bytes" };
                        if let Ok(s) = std::str::from_utf8(b) {
                            return format!("{{\"k\":{},\"v\":{}}}", esc(k), esc(s));
                        }
                    }
                }
            }
            ty::Tuple(ts) if ts.is_empty() => return "{\"k\":\"unit\"}".into(),
            _ => {}
        }
        if let ConstValue::ZeroSized = v {
            return format!("{{\"k\":\"zst\",\"ty\":{}}}", self.ty(t));
        }
        format!("{{\"k\":\"other\",\"ty\":{},\"d\":{}}}", self.ty(t), esc(&format!("{:?}", v)))
    }

    fn constant(&self, c: &Const<'tcx>, span: Span) -> String {
        let t = c.ty();
        if let ty::FnDef(d, args) = *t.kind() {
            return format!(
                "{{\"k\":\"fn\",\"fn\":{}}}",
                self.callee(d.into(), args.skip_binder())
            );
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return format!(
                    "{{\"k\":\"promoted\",\"of\":{},\"i\":{},\"ty\":{}}}",
                    esc(&dpath(self.tcx, u.def)),
                    p.index(),
                    self.ty(t)
                );
            }
        }
        let from = match c {
            Const::Unevaluated(u, _) => Some(u.def),
            _ => None,
        };
        let has_param = c.has_param();
        let body = if has_param {
            None
        } else {
            c.eval(self.tcx, self.env, span).ok().map(|v| self.constval(v, t))
        };
        match (body, from) {
            (Some(b), Some(d)) => format!(
                "{},\"item\":{}}}",
                &b[..b.len() - 1],
                esc(&dpath(self.tcx, d))
            ),
            (Some(b), None) => b,
            (None, d) => format!(
                "{{\"k\":\"uneval\",\"ty\":{},\"item\":{},\"d\":{}}}",
                self.ty(t),
                d.map(|d| esc(&dpath(self.tcx, d))).unwrap_or("null".into()),
                esc(&format!("{:?}", c))
            ),
        }
    }

    fn operand(&self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.constant(&c.const_, c.span)),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                format!("[\"repeat\",{},{}]", self.operand(o), esc(&n.to_string()))
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, rustc_middle::mir::BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(p), m)
            }
            Rvalue::RawPtr(k, p) => {
                format!("[\"rawptr\",{},{}]", self.place(p), esc(&format!("{:?}", k)))
            }
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", self.place(p), m.is_mut()),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body, self.tcx);
                format!(
                    "[\"cast\",{},{},{},{}]",
                    esc(&format!("{:?}", k)),
                    self.operand(o),
                    self.ty(from),
                    self.ty(*t)
                )
            }
            Rvalue::BinaryOp(op, b) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", op)),
                self.operand(&b.0),
                self.operand(&b.1)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(a))
            }
            Rvalue::Discriminant(p) => {
                format!(
                    "[\"discr\",{},{}]",
                    self.place(p),
                    self.ty(p.ty(body, self.tcx).ty)
                )
            }
            Rvalue::Aggregate(k, ops) => {
                let ops = list(ops.iter().map(|o| self.operand(o)));
                match **k {
                    AggregateKind::Tuple => format!("[\"agg\",[\"tuple\"],{}]", ops),
                    AggregateKind::Array(t) => format!("[\"agg\",[\"array\",{}],{}]", self.ty(t), ops),
                    AggregateKind::Adt(d, v, args, _, active) => format!(
                        "[\"agg\",[\"adt\",{},{},{},{}],{}]",
                        esc(&dpath(self.tcx, d)),
                        v.index(),
                        self.args(args),
                        active.is_some(),
                        ops
                    ),
                    AggregateKind::Closure(d, _) => {
                        format!("[\"agg\",[\"closure\",{}],{}]", esc(&dpath(self.tcx, d)), ops)
                    }
                    ref other => {
                        format!("[\"agg\",[\"other\",{}],{}]", esc(&format!("{:?}", other)), ops)
                    }
                }
            }
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn body(&self, path: &str, kind: &str, did: DefId, b: &Body<'tcx>, extra: &str) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"path\":{},\"kind\":{},\"span\":{},\"args\":{}{}",
            esc(path),
            esc(kind),
            self.span(b.span),
            b.arg_count,
            extra
        );
        let _ = did;
        let _ = write!(
            o,
            ",\"locals\":{}",
            list(b.local_decls.iter().map(|d| self.ty(d.ty)))
        );
        let names = b.var_debug_info.iter().filter_map(|v| match v.value {
            rustc_middle::mir::VarDebugInfoContents::Place(p) => {
                Some(format!("[{},{}]", esc(v.name.as_str()), self.place(&p)))
            }
            _ => None,
        });
        let _ = write!(o, ",\"names\":{}", list(names));
        let blocks = b.basic_blocks.iter().map(|bb| {
            let mut s = String::from("{\"s\":");
            s.push_str(&list(bb.statements.iter().filter_map(|st| {
                let sp = self.span(st.source_info.span);
                match &st.kind {
                    StatementKind::Assign(a) => Some(format!(
                        "[\"=\",{},{},{}]",
                        self.place(&a.0),
                        self.rvalue(&a.1, b),
                        sp
                    )),
                    StatementKind::SetDiscriminant { place, variant_index } => Some(format!(
                        "[\"setdiscr\",{},{},{}]",
                        self.place(place),
                        variant_index.index(),
                        sp
                    )),
                    StatementKind::Intrinsic(i) => {
                        Some(format!("[\"intrinsic\",{},{}]", esc(&format!("{:?}", i)), sp))
                    }
                    _ => None,
                }
            })));
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(b, tcx);
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(discr),
                        list(targets.iter().map(|(v, t)| format!("[{},{}]", v, t.index()))),
                        targets.otherwise().index(),
                        self.ty(ty)
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!(
                        "[\"drop\",{},{},{}]",
                        self.place(place),
                        target.index(),
                        self.ty(place.ty(b, tcx).ty)
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => format!(
                    "[\"call\",{},{},{},{}]",
                    self.operand(func),
                    list(args.iter().map(|a| self.operand(&a.node))),
                    self.place(destination),
                    target.map(|t| t.index().to_string()).unwrap_or("null".into())
                ),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => format!(
                    "[\"assert\",{},{},{},{}]",
                    self.operand(cond),
                    expected,
                    esc(&format!("{:?}", msg)),
                    target.index()
                ),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
            };
            let _ = write!(s, ",\"t\":{},\"sp\":{},\"cleanup\":{}}}", term, sp, bb.is_cleanup);
            s
        });
        let blocks: Vec<String> = blocks.collect();
        let _ = write!(o, ",\"blocks\":{}}}", list(blocks));
        o
    }
}

struct Dump;

impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        if out.is_empty() || name.as_str() != want {
            return Compilation::Continue;
        }
        let json = rustc_middle::ty::print::with_no_trimmed_paths!(dump(tcx));
        std::fs::write(&out, json).expect("write dump");
        Compilation::Continue
    }
}

fn dump(tcx: TyCtxt<'_>) -> String {
    let mut bodies: Vec<String> = vec![];
    let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    owners.sort_by_key(|d| dpath(tcx, d.to_def_id()));
    for ld in owners {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let path = dpath(tcx, did);
        let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, did) };
        let mut extra = String::new();
        let b: &Body<'_> = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let parent_impl = tcx.impl_of_assoc(tcx.typeck_root_def_id(did));
                if let Some(im) = parent_impl {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let tr = tcx.impl_opt_trait_ref(im).map(|t| dpath(tcx, t.skip_binder().def_id));
                    let _ = write!(
                        extra,
                        ",\"impl\":{{\"self\":{},\"trait\":{},\"derived\":{}}}",
                        cx.ty(st),
                        tr.map(|t| esc(&t)).unwrap_or("null".into()),
                        tcx.is_automatically_derived(im)
                    );
                }
                if kind != DefKind::Closure {
                    let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                    let vis = tcx.visibility(did);
                    let _ = write!(
                        extra,
                        ",\"name\":{},\"unsafe\":{},\"vis\":{},\"effvis\":{},\"inputs\":{},\"output\":{}",
                        esc(tcx.item_name(did).as_str()),
                        !sig.safety().is_safe(),
                        esc(&format!("{:?}", vis)),
                        tcx.effective_visibilities(()).is_exported(ld),
                        list(sig.inputs().iter().map(|t| cx.ty(*t))),
                        cx.ty(sig.output())
                    );
                }
                tcx.optimized_mir(did)
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                if tcx.generics_of(did).requires_monomorphization(tcx) {
                    continue;
                }
                tcx.mir_for_ctfe(did)
            }
            _ => continue,
        };
        bodies.push(cx.body(&path, &format!("{:?}", kind), did, b, &extra));
        for (i, p) in tcx.promoted_mir(did).iter_enumerated() {
            bodies.push(cx.body(
                &format!("{}::{{promoted#{}}}", path, i.index()),
                "Promoted",
                did,
                p,
                "",
            ));
        }
    }
    let mut adts = vec![];
    let mut impls = vec![];
    let mut statics = vec![];
    let mut mods = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        if !matches!(
            tcx.def_kind(did),
            DefKind::Struct
                | DefKind::Enum
                | DefKind::Union
                | DefKind::Impl { .. }
                | DefKind::Static { .. }
                | DefKind::ExternCrate
                | DefKind::ForeignMod
                | DefKind::GlobalAsm
        ) {
            continue;
        }
        if matches!(tcx.def_kind(did), DefKind::ExternCrate | DefKind::ForeignMod | DefKind::GlobalAsm) {
            mods.push(format!(
                "[{},{}]",
                esc(&format!("{:?}", tcx.def_kind(did))),
                esc(&dpath(tcx, did))
            ));
            continue;
        }
        let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, did) };
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(did);
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let vs = def.variants().iter_enumerated().map(|(i, v)| {
                    format!(
                        "{{\"name\":{},\"discr\":{},\"ctor\":{},\"fields\":{}}}",
                        esc(v.name.as_str()),
                        esc(&format!("{}", if def.is_enum() { def.discriminant_for_variant(tcx, i).val } else { 0 })),
                        esc(&format!("{:?}", v.ctor_kind())),
                        list(v.fields.iter().map(|f| format!(
                            "{{\"name\":{},\"ty\":{}}}",
                            esc(f.name.as_str()),
                            cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())
                        )))
                    )
                });
                adts.push(format!(
                    "{{\"path\":{},\"kind\":{},\"span\":{},\"freeze\":{},\"effvis\":{},\"variants\":{}}}",
                    esc(&dpath(tcx, did)),
                    esc(&format!("{:?}", tcx.def_kind(did))),
                    cx.span(tcx.def_span(did)),
                    t.is_freeze(tcx, cx.env),
                    tcx.effective_visibilities(()).is_exported(ld),
                    list(vs)
                ));
            }
            DefKind::Impl { .. } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tr = tcx.impl_opt_trait_ref(did).map(|t| t.skip_binder().def_id);
                let items = tcx
                    .associated_items(did)
                    .in_definition_order()
                    .map(|i| format!("[{},{}]", esc(&i.name().to_string()), esc(&dpath(tcx, i.def_id))))
                    .collect::<Vec<_>>();
                impls.push(format!(
                    "{{\"path\":{},\"self\":{},\"trait\":{},\"derived\":{},\"span\":{},\"items\":{}}}",
                    esc(&dpath(tcx, did)),
                    cx.ty(st),
                    tr.map(|t| esc(&dpath(tcx, t))).unwrap_or("null".into()),
                    tcx.is_automatically_derived(did),
                    cx.span(tcx.def_span(did)),
                    list(items)
                ));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                statics.push(format!(
                    "{{\"path\":{},\"mut\":{},\"freeze\":{},\"span\":{},\"ty\":{}}}",
                    esc(&dpath(tcx, did)),
                    mutability.is_mut(),
                    t.is_freeze(tcx, cx.env),
                    cx.span(tcx.def_span(did)),
                    cx.ty(t)
                ));
            }
            _ => {}
        }
    }
    let crates = tcx.crates(()).iter().map(|c| esc(tcx.crate_name(*c).as_str()));
    format!(
        "{{\"crate\":{},\"bodies\":{},\n\"adts\":{},\n\"impls\":{},\n\"statics\":{},\n\"externs\":{},\"crates\":{}}}\n",
        esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
        bodies_join(bodies),
        list(adts),
        list(impls),
        list(statics),
        list(mods),
        list(crates)
    )
}

fn bodies_join(b: Vec<String>) -> String {
    format!("[{}]", b.join(",\n"))
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if let Ok(extra) = std::env::var("MIRDUMP_FLAGS") {
        args.extend(extra.split_whitespace().map(String::from));
    }
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Dump))
}
