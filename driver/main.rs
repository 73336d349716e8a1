// msdump: a rustc_private driver that writes the type-checked program (MIR, resolved callees,
// constants, ADT layouts, unsafe uses) of one workspace crate as JSON, for the analyses in /verif/sa.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    owner: DefId,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(
        rustc_middle::ty::print::with_resolve_crate_name!(tcx.def_path_str(d))
    )
}
fn tystr<'tcx>(t: Ty<'tcx>) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(
        rustc_middle::ty::print::with_no_visible_paths!(format!("{}", t))
    )
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}", lo.line)
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = vec![];
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"D\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pty.variant_index {
                                Some(v) => def.variant(v),
                                None if def.is_enum() => def.variant(rustc_abi::VariantIdx::from_u32(0)),
                                None => def.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    format!("[\"F\",{},{}]", f.as_usize(), esc(&name))
                }
                ProjectionElem::Index(l) => format!("[\"I\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"C\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"S\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => format!("{}", v.as_usize()),
                    };
                    format!("[\"V\",{},{}]", v.as_usize(), esc(&name))
                }
                _ => "[\"O\"]".to_string(),
            };
            out.push(s);
            pty = pty.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.as_usize(), arr(out))
    }
    fn scalar_ty(&self, bits: u128, size: u64, t: Ty<'tcx>) -> Option<String> {
        Some(match t.kind() {
            ty::Bool => format!("[\"bool\",{}]", bits != 0),
            ty::Int(_) => {
                let sh = 128 - size * 8;
                let v = ((bits << sh) as i128) >> sh;
                format!("[\"int\",{}]", v)
            }
            ty::Uint(_) => format!("[\"int\",{}]", bits),
            ty::Char => format!(
                "[\"char\",{}]",
                esc(&char::from_u32(bits as u32).unwrap_or('?').to_string())
            ),
            ty::Float(f) => {
                let v = if size == 8 {
                    f64::from_bits(bits as u64)
                } else {
                    f32::from_bits(bits as u32) as f64
                };
                format!("[\"float\",{}]", esc(&format!("{:?}", v)))
            }
            _ => return None,
        })
    }
    fn constval(&self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        if depth > 6 {
            return "[\"opaque\",\"deep\"]".into();
        }
        match t.kind() {
            ty::FnDef(..) => return "[\"fn\"]".into(),
            ty::Tuple(l) if l.is_empty() => return "[\"unit\"]".into(),
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    return format!("[\"str\",{}]", esc(&String::from_utf8_lossy(b)));
                }
            }
            ty::Ref(_, inner, _) if matches!(inner.kind(), ty::Slice(e) if *e == self.tcx.types.u8) => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    return format!("[\"bytes\",{}]", arr(b.iter().map(|x| x.to_string()).collect()));
                }
            }
            _ => {}
        }
        if let ConstValue::Scalar(mir::interpret::Scalar::Int(i)) = v {
            if let Some(s) = self.scalar_ty(i.to_bits(i.size()), i.size().bytes(), t) {
                return s;
            }
        }
        match t.kind() {
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<String> =
                        d.fields.iter().map(|(v, t)| self.constval(*v, *t, depth + 1)).collect();
                    match t.kind() {
                        ty::Array(..) => return format!("[\"array\",{}]", arr(fs)),
                        ty::Tuple(..) => return format!("[\"tuple\",{}]", arr(fs)),
                        ty::Adt(def, _) => {
                            let vi = d.variant.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            return format!(
                                "[\"adt\",{},{},{},{}]",
                                esc(&path(self.tcx, def.did())),
                                vi.as_usize(),
                                esc(def.variant(vi).name.as_str()),
                                arr(fs)
                            );
                        }
                        _ => {}
                    }
                }
            }
            ty::Ref(_, inner, _) => {
                // reference to an evaluated allocation: try to read the pointee
                if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.into_raw_parts();
                    let inner_v = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                    if matches!(inner.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) {
                        if let mir::interpret::GlobalAlloc::Memory(_) = self.tcx.global_alloc(prov.alloc_id()) {
                            return format!("[\"ref\",{}]", self.constval(inner_v, *inner, depth + 1));
                        }
                    }
                }
            }
            _ => {}
        }
        format!("[\"opaque\",{}]", esc(&format!("{:?}", v)))
    }
    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let mut extra = String::new();
        let val = if let ty::FnDef(d, args) = t.kind() {
            return self.fnref(*d, args.skip_binder());
        } else if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                format!(
                    "[\"promoted\",{}]",
                    esc(&format!("{}::{{promoted#{}}}", path(self.tcx, u.def), p.as_usize()))
                )
            } else {
                extra = format!(",\"named\":{}", esc(&path(self.tcx, u.def)));
                match c.const_.eval(self.tcx, self.env, c.span) {
                    Ok(v) => self.constval(v, t, 0),
                    Err(_) => "[\"opaque\",\"unevaluated\"]".into(),
                }
            }
        } else {
            match c.const_.eval(self.tcx, self.env, c.span) {
                Ok(v) => {
                    if let Some(d) = c.check_static_ptr(self.tcx) {
                        format!("[\"static\",{}]", esc(&path(self.tcx, d)))
                    } else {
                        self.constval(v, t, 0)
                    }
                }
                Err(_) => "[\"opaque\",\"unevaluated\"]".into(),
            }
        };
        format!("{{\"k\":\"const\",\"ty\":{},\"v\":{}{}}}", esc(&tystr(t)), val, extra)
    }
    fn fnref(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!("{{\"k\":\"fn\",\"path\":{}", esc(&path(tcx, d)));
        let a: Vec<String> = args
            .iter()
            .map(|g| match g.kind() {
                ty::GenericArgKind::Type(t) => esc(&tystr(t)),
                _ => esc(&format!("{}", g)),
            })
            .collect();
        let _ = write!(s, ",\"args\":{}", arr(a));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", esc(&path(tcx, tr)));
        }
        if tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
            s.push_str(",\"unsafe\":true");
        }
        if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, args) {
            let rd = i.def_id();
            let _ = write!(s, ",\"resolved\":{}", esc(&path(tcx, rd)));
            if rd.is_local() {
                s.push_str(",\"local\":true");
            }
            if let ty::InstanceKind::Virtual(..) = i.def {
                s.push_str(",\"virtual\":true");
            }
        }
        s.push('}');
        s
    }
    fn operand(&self, b: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(b, p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(b, p)),
            Operand::Constant(c) => self.konst(c),
            _ => "{\"k\":\"const\",\"ty\":\"bool\",\"v\":[\"bool\",false]}".to_string(),
        }
    }
    fn rvalue(&self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(b, o)),
            Rvalue::Repeat(o, n) => format!(
                "{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}",
                self.operand(b, o),
                n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"k\":\"ref\",\"mut\":{},\"p\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(b, p)
            ),
            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"rawptr\",\"mut\":true,\"p\":{}}}", self.place(b, p)),
            Rvalue::Cast(k, o, t) => format!(
                "{{\"k\":\"cast\",\"ck\":{},\"o\":{},\"from\":{},\"ty\":{}}}",
                esc(&format!("{:?}", k)),
                self.operand(b, o),
                esc(&tystr(o.ty(b, self.tcx))),
                esc(&tystr(*t))
            ),
            Rvalue::BinaryOp(op, ab) => format!(
                "{{\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{},\"ty\":{}}}",
                op,
                self.operand(b, &ab.0),
                self.operand(b, &ab.1),
                esc(&tystr(ab.0.ty(b, self.tcx)))
            ),
            Rvalue::UnaryOp(op, a) => format!(
                "{{\"k\":\"un\",\"op\":\"{:?}\",\"a\":{},\"ty\":{}}}",
                op,
                self.operand(b, a),
                esc(&tystr(a.ty(b, self.tcx)))
            ),
            Rvalue::Discriminant(p) => format!(
                "{{\"k\":\"discr\",\"p\":{},\"ty\":{}}}",
                self.place(b, p),
                esc(&tystr(p.ty(b, self.tcx).ty))
            ),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(b, o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => "\"ak\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"ak\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let names: Vec<String> =
                            var.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!(
                            "\"ak\":\"adt\",\"adt\":{},\"v\":{},\"vn\":{},\"fields\":{}",
                            esc(&path(self.tcx, *d)),
                            v.as_usize(),
                            esc(var.name.as_str()),
                            arr(names)
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("\"ak\":\"closure\",\"def\":{}", esc(&path(self.tcx, *d)))
                    }
                    _ => "\"ak\":\"other\"".to_string(),
                };
                format!("{{\"k\":\"agg\",{},\"ops\":{}}}", kk, arr(ops))
            }
            Rvalue::CopyForDeref(p) => {
                format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(b, p))
            }
            Rvalue::Reborrow(_, m, p) => format!(
                "{{\"k\":\"ref\",\"mut\":{},\"p\":{}}}",
                m.is_mut(),
                self.place(b, p)
            ),
            _ => format!("{{\"k\":\"other\",\"d\":{}}}", esc(&format!("{:?}", r))),
        }
    }
    fn body(&self, b: &Body<'tcx>, name: &str, kind: &str, extra: &str) -> String {
        let tcx = self.tcx;
        let mut s = String::new();
        let sm = tcx.sess.source_map();
        let loc = sm.lookup_char_pos(b.span.lo());
        let file = format!("{}", loc.file.name.prefer_local_unconditionally());
        let _ = write!(
            s,
            "{{\"name\":{},\"kind\":\"{}\",\"file\":{},\"line\":{},\"argc\":{}{}",
            esc(name),
            kind,
            esc(&file),
            loc.line,
            b.arg_count,
            extra
        );
        let mut names: Vec<Option<String>> = vec![None; b.local_decls.len()];
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() && names[p.local.as_usize()].is_none() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                }
                dbg.push(format!("[{},{}]", esc(v.name.as_str()), self.place(b, p)));
            }
        }
        let locals: Vec<String> = b
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                format!(
                    "{{\"ty\":{},\"n\":{}}}",
                    esc(&tystr(d.ty)),
                    names[l.as_usize()].as_ref().map(|x| esc(x)).unwrap_or("null".into())
                )
            })
            .collect();
        let _ = write!(s, ",\"locals\":{},\"dbg\":{}", arr(locals), arr(dbg));
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(pr) => st.push(format!(
                        "{{\"k\":\"=\",\"p\":{},\"r\":{},\"l\":{}}}",
                        self.place(b, &pr.0),
                        self.rvalue(b, &pr.1),
                        self.span(x.source_info.span)
                    )),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!(
                        "{{\"k\":\"setd\",\"p\":{},\"v\":{},\"l\":{}}}",
                        self.place(b, place),
                        variant_index.as_usize(),
                        self.span(x.source_info.span)
                    )),
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("{{\"k\":\"intr\",\"d\":{}}}", esc(&format!("{:?}", i))))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let l = self.span(t.source_info.span);
            let tt = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(b, tcx);
                    let c: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| {
                            let v = match dty.kind() {
                                ty::Int(it) => {
                                    let size = it.bit_width().unwrap_or(64);
                                    let sh = 128 - size;
                                    (((v << sh) as i128) >> sh).to_string()
                                }
                                _ => v.to_string(),
                            };
                            format!("[{},{}]", v, t.as_usize())
                        })
                        .collect();
                    format!(
                        "{{\"k\":\"switch\",\"o\":{},\"ty\":{},\"c\":{},\"e\":{}}}",
                        self.operand(b, discr),
                        esc(&tystr(dty)),
                        arr(c),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "{\"k\":\"ret\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"k\":\"resume\"}".into(),
                TerminatorKind::Drop { place, target, .. } => format!(
                    "{{\"k\":\"drop\",\"p\":{},\"ty\":{},\"t\":{}}}",
                    self.place(b, place),
                    esc(&tystr(place.ty(b, tcx).ty)),
                    target.as_usize()
                ),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(b, &x.node)).collect();
                    format!(
                        "{{\"k\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"t\":{}}}",
                        self.operand(b, func),
                        arr(a),
                        self.place(b, destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(b, len),
                            self.operand(b, index)
                        ),
                        AssertKind::Overflow(op, x, y) => format!(
                            "[\"overflow\",\"{:?}\",{},{}]",
                            op,
                            self.operand(b, x),
                            self.operand(b, y)
                        ),
                        AssertKind::OverflowNeg(x) => format!("[\"overflowneg\",{}]", self.operand(b, x)),
                        AssertKind::DivisionByZero(x) => format!("[\"div0\",{}]", self.operand(b, x)),
                        AssertKind::RemainderByZero(x) => format!("[\"rem0\",{}]", self.operand(b, x)),
                        x => format!("[\"other\",{}]", esc(&format!("{:?}", x))),
                    };
                    format!(
                        "{{\"k\":\"assert\",\"o\":{},\"exp\":{},\"m\":{},\"t\":{}}}",
                        self.operand(b, cond),
                        expected,
                        m,
                        target.as_usize()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize())
                }
                x => format!("{{\"k\":\"other\",\"d\":{}}}", esc(&format!("{:?}", x))),
            };
            blocks.push(format!(
                "{{\"c\":{},\"s\":{},\"t\":{},\"l\":{}}}",
                bb.is_cleanup,
                arr(st),
                tt,
                l
            ));
        }
        let _ = write!(s, ",\"blocks\":{}}}", arr(blocks));
        s
    }
}

struct UnsafeV<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<String>,
    blocks: usize,
    cur: String,
}
impl<'tcx> UnsafeV<'tcx> {
    fn rec(&mut self, what: &str, sp: Span) {
        let sm = self.tcx.sess.source_map();
        let ext = sp.in_external_macro(sm);
        let exp = sp.from_expansion();
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        self.out.push(format!(
            "{{\"what\":{},\"in\":{},\"file\":{},\"line\":{},\"external_macro\":{},\"expansion\":{}}}",
            esc(what),
            esc(&self.cur),
            esc(&format!("{}", lo.file.name.prefer_local_unconditionally())),
            lo.line,
            ext,
            exp
        ));
    }
}
impl<'tcx> Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        self.blocks += 1;
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            self.rec("unsafe block", b.span);
        }
        intravisit::walk_block(self, b);
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MSDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let mut fns: Vec<String> = vec![];
        let mut adts: Vec<String> = vec![];
        let mut impls: Vec<String> = vec![];
        let mut uv = UnsafeV { tcx, out: vec![], blocks: 0, cur: String::new() };
        for &d in tcx.mir_keys(()) {
            let did = d.to_def_id();
            let dk = tcx.def_kind(did);
            let name = path(tcx, did);
            let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, did), owner: did };
            let mut extra = String::new();
            let is_fn = matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..));
            if matches!(dk, DefKind::Ctor(..)) {
                continue;
            }
            if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(did).skip_binder();
                if sig.safety().is_unsafe() {
                    uv.cur = name.clone();
                    uv.rec("unsafe fn", tcx.def_span(did));
                }
                extra.push_str(&format!(
                    ",\"vis\":{},\"sig\":{},\"exp\":{}",
                    esc(if tcx.visibility(did).is_public() { "pub" } else { "priv" }),
                    esc(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", sig))),
                    tcx.def_span(did).from_expansion()
                ));
            }
            if let Some(p) = tcx.impl_of_assoc(did) {
                extra.push_str(&format!(",\"impl_self\":{}", esc(&tystr(tcx.type_of(p).skip_binder()))));
                if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                    extra.push_str(&format!(
                        ",\"impl_trait\":{}",
                        esc(&path(tcx, tr.skip_binder().def_id))
                    ));
                }
            }
            extra.push_str(&format!(",\"item\":{}", esc(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default().as_str())));
            let steal = if is_fn { Some(tcx.mir_drops_elaborated_and_const_checked(d)) } else { None };
            let guard = match steal { Some(s) if !s.is_stolen() => Some(s.borrow()), _ => None };
            let b: &Body = if let Some(g) = &guard { &**g } else if is_fn { tcx.optimized_mir(did) } else {
                // consts / statics: keep only non-generic ones
                if tcx.generics_of(did).own_requires_monomorphization() || matches!(dk, DefKind::AnonConst) { continue; }
                tcx.mir_for_ctfe(did)
            };
            fns.push(cx.body(b, &name, &format!("{:?}", dk).replace('"', "'"), &extra));
            if is_fn || matches!(dk, DefKind::Static { .. }) {
                for (i, pb) in tcx.promoted_mir(did).iter_enumerated() {
                    fns.push(cx.body(pb, &format!("{}::{{promoted#{}}}", name, i.as_usize()), "promoted", ""));
                }
            }
        }
        let mut n_bodies = 0;
        for d in tcx.hir_body_owners() {
            // closures are visited through their parents
            if tcx.is_typeck_child(d.to_def_id()) {
                continue;
            }
            n_bodies += 1;
            uv.cur = path(tcx, d.to_def_id());
            let body = tcx.hir_body_owned_by(d);
            uv.visit_expr(body.value);
        }
        for id in tcx.hir_free_items() {
            let it = tcx.hir_item(id);
            let did = it.owner_id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(did);
                    let mut vs = vec![];
                    for (i, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() {
                            def.discriminant_for_variant(tcx, i).val.to_string()
                        } else {
                            "0".into()
                        };
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                format!(
                                    "{{\"n\":{},\"ty\":{},\"vis\":{}}}",
                                    esc(f.name.as_str()),
                                    esc(&tystr(tcx.type_of(f.did).skip_binder())),
                                    esc(if f.vis.is_public() { "pub" } else { "priv" })
                                )
                            })
                            .collect();
                        vs.push(format!(
                            "{{\"n\":{},\"discr\":{},\"fields\":{}}}",
                            esc(v.name.as_str()),
                            discr,
                            arr(fs)
                        ));
                    }
                    adts.push(format!(
                        "{{\"name\":{},\"enum\":{},\"vis\":{},\"variants\":{}}}",
                        esc(&path(tcx, did)),
                        def.is_enum(),
                        esc(if tcx.visibility(did).is_public() { "pub" } else { "priv" }),
                        arr(vs)
                    ));
                }
                DefKind::Impl { of_trait: true } => {
                    let h = tcx.impl_trait_header(did);
                    if h.safety.is_unsafe() {
                        uv.cur = path(tcx, did);
                        uv.rec("unsafe impl", it.span);
                    }
                    impls.push(format!(
                        "{{\"trait\":{},\"self\":{}}}",
                        esc(&path(tcx, h.trait_ref.skip_binder().def_id)),
                        esc(&tystr(tcx.type_of(did).skip_binder()))
                    ));
                }
                DefKind::Static { mutability, .. } => {
                    if mutability.is_mut() {
                        uv.cur = path(tcx, did);
                        uv.rec("static mut", it.span);
                    }
                }
                DefKind::ForeignMod => {
                    uv.cur = path(tcx, did);
                    uv.rec("extern block", it.span);
                }
                _ => {}
            }
        }
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let json = format!(
            "{{\"crate\":{},\"bodies\":{},\"blocks\":{},\"fns\":{},\"adts\":{},\"impls\":{},\"unsafe\":{}}}",
            esc(&krate),
            n_bodies,
            uv.blocks,
            arr(fns),
            arr(adts),
            arr(impls),
            arr(uv.out)
        );
        std::fs::write(&out, json).unwrap();
        Compilation::Continue
    }
}

fn run(args: &[String], cb: &mut (dyn rustc_driver::Callbacks + Send)) -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(args, cb))
}

fn main() -> std::process::ExitCode {
    // RUSTC_WORKSPACE_WRAPPER: argv = [msdump, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let want = std::env::var("MSDUMP_CRATE").unwrap_or_default();
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let dir = std::env::var("CARGO_MANIFEST_DIR").unwrap_or_default();
    let want_dir = std::env::var("MSDUMP_DIR").unwrap_or_default();
    if crate_name == want && dir == want_dir {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        run(&args, &mut Cb)
    } else {
        struct Nop;
        impl rustc_driver::Callbacks for Nop {}
        run(&args, &mut Nop)
    }
}
