// rustc driver: dumps the resolved MIR of one crate as JSON.
// Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
//   MIRDUMP_CRATE  crate name to dump
//   MIRDUMP_OUT    output path
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::collections::BTreeMap;
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    adts: BTreeMap<String, String>,
    cur: Option<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        // crate-local items get a stable "crate::"-less path; impl methods keep their self type
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    // unique id for a local body (def_path_debug keeps {impl#n} and closure indices apart)
    fn uid(&self, d: DefId) -> String {
        let s = self.tcx.def_path_debug_str(d);
        // drop the crate disambiguator of the analysed crate
        match (d.is_local(), s.split_once("::")) {
            (true, Some((_, rest))) => rest.to_string(),
            _ => s,
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        self.note_adt(t);
        esc(&with_no_trimmed_paths!(format!("{t}")))
    }
    fn note_adt(&mut self, t: Ty<'tcx>) {
        match t.kind() {
            ty::Adt(def, _) => {
                let name = self.path(def.did());
                if self.adts.contains_key(&name) {
                    return;
                }
                let mut s = String::new();
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let _ = write!(s, "{{\"kind\":\"{}\",\"local\":{},\"variants\":[", kind, def.did().is_local());
                let mut first = true;
                for (vi, v) in def.variants().iter_enumerated() {
                    if !first {
                        s.push(',');
                    }
                    first = false;
                    let discr = if def.is_enum() {
                        format!("{}", def.discriminant_for_variant(self.tcx, vi).val)
                    } else {
                        "0".to_string()
                    };
                    let fields: Vec<String> = v.fields.iter().map(|f| esc(f.name.as_str())).collect();
                    let ftys: Vec<String> = v
                        .fields
                        .iter()
                        .map(|f| {
                            let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            esc(&with_no_trimmed_paths!(format!("{t}")))
                        })
                        .collect();
                    let _ = write!(
                        s,
                        "{{\"name\":{},\"discr\":\"{}\",\"fields\":[{}],\"ftys\":[{}]}}",
                        esc(v.name.as_str()),
                        discr,
                        fields.join(","),
                        ftys.join(",")
                    );
                }
                s.push_str("]}");
                self.adts.insert(name, s);
            }
            ty::Ref(_, t, _) => self.note_adt(*t),
            ty::Slice(t) => self.note_adt(*t),
            ty::Array(t, _) => self.note_adt(*t),
            ty::Tuple(ts) => {
                for t in ts.iter() {
                    self.note_adt(t)
                }
            }
            _ => {}
        }
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", f, lo.line))
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut s = format!("[{},[", p.local.as_usize());
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            match e {
                ProjectionElem::Deref => s.push_str("[\"deref\"]"),
                ProjectionElem::Field(f, _) => {
                    let _ = write!(s, "[\"field\",{}]", f.as_usize());
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(s, "[\"index\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(s, "[\"cindex\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, "[\"subslice\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(s, "[\"downcast\",{}]", v.as_usize());
                }
                other => {
                    let _ = write!(s, "[\"other\",{}]", esc(&format!("{:?}", other)));
                }
            }
        }
        s.push_str("]]");
        s
    }
    fn fndef(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let path = self.path(d);
        let full = with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args));
        let targs: Vec<String> = args.types().map(|t| self.ty(t)).collect();
        let mut s = format!(
            "{{\"k\":\"fn\",\"path\":{},\"full\":{},\"targs\":[{}],\"local\":{}",
            esc(&path),
            esc(&full),
            targs.join(","),
            d.is_local()
        );
        if d.is_local() {
            let _ = write!(s, ",\"uid\":{}", esc(&self.uid(d)));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", esc(&self.path(tr)));
        }
        let _ = write!(s, ",\"name\":{}", esc(tcx.item_name(d).as_str()));
        let erased = tcx.erase_and_anonymize_regions(args);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, d, erased) {
                let rd = inst.def_id();
                let rs = with_no_trimmed_paths!(tcx.def_path_str_with_args(rd, inst.args));
                let _ = write!(
                    s,
                    ",\"res\":{},\"resfull\":{},\"reslocal\":{}",
                    esc(&self.path(rd)),
                    esc(&rs),
                    rd.is_local()
                );
                if rd.is_local() {
                    let _ = write!(s, ",\"resuid\":{}", esc(&self.uid(rd)));
                }
                let kind = format!("{:?}", inst.def);
                let kind = kind.split('(').next().unwrap_or("").to_string();
                let _ = write!(s, ",\"inst\":{}", esc(&kind));
            }
        }
        s.push('}');
        s
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| ty::List::empty());
            return self.fndef(*d, args);
        }
        match (v, t.kind()) {
            (ConstValue::ZeroSized, _) => {
                if let ty::Tuple(ts) = t.kind() {
                    if ts.is_empty() {
                        return "{\"k\":\"unit\"}".into();
                    }
                }
                if let ty::Closure(d, _) = t.kind() {
                    return format!("{{\"k\":\"closure\",\"uid\":{},\"ty\":{}}}", esc(&self.uid(*d)), self.ty(t));
                }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let vi = dc.variant.map(|v| v.as_usize() as i64).unwrap_or(-1);
                    let fs: Vec<String> = dc.fields.iter().map(|(v, t)| self.constval(*v, *t, depth + 1)).collect();
                    return format!("{{\"k\":\"agg\",\"ty\":{},\"variant\":{},\"fields\":[{}]}}", self.ty(t), vi, fs.join(","));
                }
                return format!("{{\"k\":\"zst\",\"ty\":{}}}", self.ty(t));
            }
            (ConstValue::Scalar(Scalar::Int(i)), ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char | ty::Float(_)) => {
                let size = i.size();
                let bits = i.to_bits(size);
                let tys = self.ty(t);
                match t.kind() {
                    ty::Int(_) => {
                        let v = size.sign_extend(bits) as i128;
                        return format!("{{\"k\":\"int\",\"v\":\"{}\",\"ty\":{}}}", v, tys);
                    }
                    ty::Float(_) => {
                        return format!("{{\"k\":\"float\",\"bits\":\"{}\",\"ty\":{}}}", bits, tys);
                    }
                    ty::Bool => return format!("{{\"k\":\"bool\",\"v\":{}}}", bits != 0),
                    ty::Char => return format!("{{\"k\":\"char\",\"v\":\"{}\"}}", bits),
                    _ => return format!("{{\"k\":\"int\",\"v\":\"{}\",\"ty\":{}}}", bits, tys),
                }
            }
            (ConstValue::Slice { .. }, ty::Ref(_, inner, _)) if inner.is_str() => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return format!("{{\"k\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(b)));
                }
            }
            (ConstValue::Scalar(Scalar::Ptr(p, _)), _) => {
                let aid = p.provenance.alloc_id();
                match tcx.global_alloc(aid) {
                    GlobalAlloc::Static(d) => {
                        return format!(
                            "{{\"k\":\"static\",\"path\":{},\"uid\":{},\"local\":{}}}",
                            esc(&self.path(d)),
                            esc(&self.uid(d)),
                            d.is_local()
                        );
                    }
                    GlobalAlloc::Function { instance, .. } => {
                        return self.fndef(instance.def_id(), instance.args);
                    }
                    GlobalAlloc::Memory(_) => {
                        if depth < 6 {
                            if let ty::Ref(_, inner, _) = t.kind() {
                                if inner.is_sized(tcx, self.env) {
                                    let iv = ConstValue::Indirect { alloc_id: aid, offset: p.prov_and_relative_offset().1 };
                                    let is_scalar = inner.is_integral() || inner.is_floating_point() || inner.is_bool() || inner.is_char();
                                    if !is_scalar {
                                        let x = self.constval(iv, *inner, depth + 1);
                                        return format!("{{\"k\":\"ref\",\"v\":{}}}", x);
                                    }
                                }
                            }
                        }
                        return format!("{{\"k\":\"opaque\",\"ty\":{},\"why\":\"ptr\"}}", self.ty(t));
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        if depth < 8 {
            if matches!(t.kind(), ty::Adt(..) | ty::Array(..) | ty::Tuple(..)) {
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let vi = dc.variant.map(|v| v.as_usize() as i64).unwrap_or(-1);
                    let fs: Vec<String> = dc.fields.iter().map(|(v, t)| self.constval(*v, *t, depth + 1)).collect();
                    return format!("{{\"k\":\"agg\",\"ty\":{},\"variant\":{},\"fields\":[{}]}}", self.ty(t), vi, fs.join(","));
                }
            }
        }
        format!("{{\"k\":\"opaque\",\"ty\":{}}}", self.ty(t))
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| ty::List::empty());
            return self.fndef(*d, args);
        }
        match c.const_ {
            mir::Const::Unevaluated(u, ut) => {
                if let Some(p) = u.promoted {
                    return format!(
                        "{{\"k\":\"promoted\",\"uid\":{},\"idx\":{},\"ty\":{}}}",
                        esc(&self.uid(u.def)),
                        p.as_usize(),
                        self.ty(ut)
                    );
                }
                if u.def.is_local() {
                    return format!(
                        "{{\"k\":\"constdef\",\"uid\":{},\"path\":{},\"ty\":{}}}",
                        esc(&self.uid(u.def)),
                        esc(&self.path(u.def)),
                        self.ty(ut)
                    );
                }
                let name = self.path(u.def);
                match c.const_.eval(tcx, self.env, c.span) {
                    Ok(v) => {
                        let x = self.constval(v, ut, 0);
                        format!("{{\"k\":\"extconst\",\"path\":{},\"v\":{},\"ty\":{}}}", esc(&name), x, self.ty(ut))
                    }
                    Err(_) => format!("{{\"k\":\"opaque\",\"path\":{},\"ty\":{}}}", esc(&name), self.ty(ut)),
                }
            }
            _ => match c.const_.eval(tcx, self.env, c.span) {
                Ok(v) => self.constval(v, t, 0),
                Err(_) => format!("{{\"k\":\"opaque\",\"ty\":{}}}", self.ty(t)),
            },
        }
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.constant(c)),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", esc(&format!("{:?}", k)), self.place(p)),
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), self.ty(*t))
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&self.tcx.optimized_mir_or_ctfe(self.cur.unwrap()).local_decls, self.tcx);
                format!(
                    "[\"bin\",{},{},{},{}]",
                    esc(&format!("{:?}", op)),
                    self.operand(&ab.0),
                    self.operand(&ab.1),
                    self.ty(t)
                )
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        self.note_adt(t);
                        format!("[\"adt\",{},{}]", esc(&self.path(*d)), v.as_usize())
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.uid(*d))),
                    other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
                };
                format!("[\"agg\",{},[{}]]", ks, ops.join(","))
            }
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }
    fn body(&mut self, b: &Body<'tcx>) -> String {
        let mut s = String::new();
        let _ = write!(s, "{{\"argc\":{},\"span\":{},\"locals\":[", b.arg_count, self.span(b.span));
        for (i, d) in b.local_decls.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&self.ty(d.ty));
        }
        s.push_str("],\"names\":{");
        let mut first = true;
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    if !first {
                        s.push(',');
                    }
                    first = false;
                    let _ = write!(s, "\"{}\":{}", p.local.as_usize(), esc(v.name.as_str()));
                }
            }
        }
        s.push_str("},\"blocks\":[");
        for (i, (_, bb)) in b.basic_blocks.iter_enumerated().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let _ = write!(s, "{{\"cleanup\":{},\"st\":[", bb.is_cleanup);
            let mut first = true;
            if !bb.is_cleanup {
                for st in bb.statements.iter() {
                    let x = match &st.kind {
                        StatementKind::Assign(pr) => {
                            let p = self.place(&pr.0);
                            let r = self.rvalue(&pr.1);
                            format!("[\"assign\",{},{},{}]", p, r, self.span(st.source_info.span))
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            format!("[\"setdiscr\",{},{}]", self.place(place), variant_index.as_usize())
                        }
                        StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                        StatementKind::Intrinsic(_) => format!("[\"other\",{}]", esc(&format!("{:?}", st.kind))),
                        _ => continue,
                    };
                    if !first {
                        s.push(',');
                    }
                    first = false;
                    s.push_str(&x);
                }
            }
            s.push_str("],\"term\":");
            if bb.is_cleanup {
                s.push_str("[\"resume\"]}");
                continue;
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let x = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr);
                    let ts: Vec<String> =
                        targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize())).collect();
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    format!(
                        "[\"switch\",{},[{}],{},{},{}]",
                        o,
                        ts.join(","),
                        targets.otherwise().as_usize(),
                        self.ty(dt),
                        sp
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|a| {
                            let t = a.node.ty(&b.local_decls, self.tcx);
                            self.ty(t)
                        })
                        .collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    let dts = self.ty(dt);
                    let tg = target.map(|t| t.as_usize().to_string()).unwrap_or("null".into());
                    format!(
                        "[\"call\",{},[{}],{},{},{},[{}],{}]",
                        f,
                        a.join(","),
                        d,
                        tg,
                        sp,
                        at.join(","),
                        dts
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(..) => "overflow:Neg".into(),
                        AssertKind::DivisionByZero(..) => "divzero".into(),
                        AssertKind::RemainderByZero(..) => "remzero".into(),
                        _ => "other".into(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{},{}]",
                        self.operand(cond),
                        expected,
                        esc(&kind),
                        target.as_usize(),
                        sp,
                        esc(&m)
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
            };
            s.push_str(&x);
            s.push('}');
        }
        s.push_str("]}");
        s
    }
}

trait MirFor<'tcx> {
    fn optimized_mir_or_ctfe(self, d: DefId) -> &'tcx Body<'tcx>;
}
impl<'tcx> MirFor<'tcx> for TyCtxt<'tcx> {
    fn optimized_mir_or_ctfe(self, d: DefId) -> &'tcx Body<'tcx> {
        match self.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..) => self.optimized_mir(d),
            _ => self.mir_for_ctfe(d),
        }
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut o = String::new();
    let mut cx = Cx { tcx, env: ty::TypingEnv::fully_monomorphized(), adts: BTreeMap::new(), cur: None };
    o.push_str("{\"bodies\":{");
    let mut first = true;
    let mut owners: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    owners.sort_by_key(|d| cx.uid(d.to_def_id()));
    for ld in owners {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let k = match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Closure => "closure",
            DefKind::Static { .. } => "static",
            DefKind::Const { .. } => "const",
            DefKind::AssocConst { .. } => "const",
            DefKind::AnonConst => "anonconst",
            _ => continue,
        };
        if tcx.is_constructor(d) {
            continue;
        }
        cx.env = ty::TypingEnv::post_analysis(tcx, d);
        cx.cur = Some(d);
        let body = tcx.optimized_mir_or_ctfe(d);
        let bs = cx.body(body);
        if !first {
            o.push(',');
        }
        first = false;
        let vis = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Static { .. } | DefKind::Const { .. })
            && tcx.visibility(d).is_public();
        let reach = tcx.effective_visibilities(()).is_reachable(ld);
        let unsafe_fn = if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            tcx.fn_sig(d).skip_binder().safety().is_unsafe()
        } else {
            false
        };
        let mutstat = matches!(kind, DefKind::Static { mutability: rustc_middle::ty::Mutability::Mut, .. });
        let parent = tcx.opt_parent(d).map(|p| cx.uid(p)).unwrap_or_default();
        let implof = tcx
            .opt_parent(d)
            .filter(|p| matches!(tcx.def_kind(*p), DefKind::Impl { .. }))
            .map(|p| {
                let t = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let tr = tcx.impl_opt_trait_ref(p).map(|t| {
                    with_no_trimmed_paths!(format!("{}", t.instantiate_identity().skip_norm_wip()))
                });
                (with_no_trimmed_paths!(format!("{t}")), tr)
            });
        let _ = write!(
            o,
            "\n{}:{{\"path\":{},\"kind\":\"{}\",\"pub\":{},\"reachable\":{},\"unsafe\":{},\"mutstatic\":{},\"parent\":{},\"selfty\":{},\"trait\":{},\"body\":{},\"promoted\":[",
            esc(&cx.uid(d)),
            esc(&cx.path(d)),
            k,
            vis,
            reach,
            unsafe_fn,
            mutstat,
            esc(&parent),
            implof.as_ref().map(|x| esc(&x.0)).unwrap_or("null".into()),
            implof.as_ref().and_then(|x| x.1.as_ref().map(|t| esc(t))).unwrap_or("null".into()),
            bs
        );
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. }) {
            let pm = tcx.promoted_mir(d);
            let mut f2 = true;
            for b in pm.iter() {
                if !f2 {
                    o.push(',');
                }
                f2 = false;
                let x = cx.body(b);
                o.push_str(&x);
            }
        }
        o.push_str("]}");
    }
    o.push_str("},\n\"adts\":{");
    let mut first = true;
    for (k, v) in cx.adts.iter() {
        if !first {
            o.push(',');
        }
        first = false;
        let _ = write!(o, "\n{}:{}", esc(k), v);
    }
    o.push_str("}}\n");
    std::fs::write(out, o).expect("write dump");
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.cg.debug_assertions = Some(false);
        config.opts.cg.overflow_checks = Some(true);
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if std::env::var("MIRDUMP_CRATE").ok().as_deref() == Some(name.as_str()) {
            if let Ok(out) = std::env::var("MIRDUMP_OUT") {
                dump(tcx, &out);
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) && !args[1].ends_with(".rs") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
