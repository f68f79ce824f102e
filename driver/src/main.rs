// MIR exporter: a rustc_private driver injected through RUSTC_WORKSPACE_WRAPPER.
// For every workspace crate it type-checks, it writes the crate's MIR, types and
// impls as JSON into $VP_MIR_OUT/<crate>.json.  It changes nothing in the compiled crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, InstanceKind, Ty, TyCtxt, TyKind, TypeVisitableExt};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
    adt_order: Vec<DefId>,
    queue: VecDeque<DefId>,
    seen: HashSet<DefId>,
}

const EXTERN_OK: &[&str] = &[
    "core::option::", "core::result::", "core::cmp::", "core::mem::", "core::convert::", "core::bool::",
    "core::ops::range::", "core::ops::control_flow::", "core::ops::function::",
    "core::iter::range::", "core::num::", "core::tuple::",
    "core::ops::try_trait::", "core::clone::", "core::default::",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let s = self.tcx.def_path_str(d);
        s
    }
    fn upath(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) {
            return;
        }
        self.adts.insert(d, String::new());
        let def = self.tcx.adt_def(d);
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let mut s = format!("{{\"path\":{},\"local\":{},\"kind\":\"{}\",\"variants\":[", esc(&self.path(d)), d.is_local(), kind);
        let export_fields = d.is_local() || {
            let p = self.path(d);
            p.starts_with("std::option") || p.starts_with("std::result") || p.starts_with("core::") || p.starts_with("std::ops") || p.starts_with("std::cmp")
        };
        for (vi, v) in def.variants().iter_enumerated() {
            if vi.as_usize() > 0 {
                s.push(',');
            }
            let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val } else { 0 };
            let _ = write!(s, "{{\"name\":{},\"discr\":{},\"fields\":[", esc(v.name.as_str()), discr);
            if export_fields {
                for (i, f) in v.fields.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(t);
                    let _ = write!(s, "[{},{},{}]", esc(f.name.as_str()), ti, f.vis.is_public());
                }
            }
            s.push_str("]}");
        }
        s.push_str("]}");
        self.adts.insert(d, s);
        self.adt_order.push(d);
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, i);
        let s = match *t.kind() {
            TyKind::Bool => "{\"k\":\"bool\"}".to_string(),
            TyKind::Char => "{\"k\":\"char\"}".to_string(),
            TyKind::Str => "{\"k\":\"str\"}".to_string(),
            TyKind::Never => "{\"k\":\"never\"}".to_string(),
            TyKind::Int(it) => format!("{{\"k\":\"int\",\"n\":{},\"signed\":true,\"bits\":{}}}", esc(it.name_str()), it.bit_width().unwrap_or(64)),
            TyKind::Uint(it) => format!("{{\"k\":\"int\",\"n\":{},\"signed\":false,\"bits\":{}}}", esc(it.name_str()), it.bit_width().unwrap_or(64)),
            TyKind::Float(f) => format!("{{\"k\":\"float\",\"n\":{}}}", esc(f.name_str())),
            TyKind::Adt(def, args) => {
                let p = self.path(def.did());
                self.adt(def.did());
                let a = self.args(args);
                format!("{{\"k\":\"adt\",\"path\":{},\"local\":{},\"args\":{}}}", esc(&p), def.did().is_local(), a)
            }
            TyKind::Ref(_, inner, m) => {
                let x = self.ty(inner);
                format!("{{\"k\":\"ref\",\"t\":{},\"mut\":{}}}", x, m.is_mut())
            }
            TyKind::RawPtr(inner, m) => {
                let x = self.ty(inner);
                format!("{{\"k\":\"ptr\",\"t\":{},\"mut\":{}}}", x, m.is_mut())
            }
            TyKind::Array(inner, n) => {
                let x = self.ty(inner);
                let mut len = n.try_to_target_usize(self.tcx);
                if len.is_none() && !t.has_param() {
                    if let Ok(t2) = self.tcx.try_normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(t)) {
                        if let TyKind::Array(_, n2) = *t2.kind() {
                            len = n2.try_to_target_usize(self.tcx);
                        }
                    }
                }
                let n = len.map(|v| v as i128).unwrap_or(-1);
                format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", x, n)
            }
            TyKind::Slice(inner) => {
                let x = self.ty(inner);
                format!("{{\"k\":\"slice\",\"t\":{}}}", x)
            }
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"ts\":[{}]}}", v.join(","))
            }
            TyKind::Closure(d, _) => {
                if self.seen.insert(d) {
                    self.queue.push_back(d);
                }
                format!("{{\"k\":\"closure\",\"path\":{}}}", esc(&self.upath(d)))
            }
            TyKind::FnDef(d, args) => {
                let f = self.fnref(d, args.skip_binder(), None);
                format!("{{\"k\":\"fndef\",\"f\":{}}}", f)
            }
            TyKind::FnPtr(..) => "{\"k\":\"fnptr\"}".to_string(),
            TyKind::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", esc(p.name.as_str())),
            TyKind::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", esc(&t.to_string())),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&t.to_string())),
        };
        // keep a printable form for reports
        let s = format!("{},\"s\":{}}}", &s[..s.len() - 1], esc(&t.to_string()));
        self.types[i] = s;
        i
    }

    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args
            .iter()
            .filter_map(|a| match a.kind() {
                GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
                GenericArgKind::Const(c) => Some(format!("{{\"const\":{}}}", esc(&c.to_string()))),
                _ => None,
            })
            .collect();
        format!("[{}]", v.join(","))
    }

    fn want(&mut self, d: DefId) {
        if self.seen.contains(&d) {
            return;
        }
        if d.is_local() {
            return; // all local bodies are exported anyway
        }
        if !self.tcx.is_mir_available(d) {
            return;
        }
        let cn = self.tcx.crate_name(d.krate);
        if cn.as_str() != "core" {
            return;
        }
        let p = self.upath(d);
        if EXTERN_OK.iter().any(|e| p.starts_with(e)) {
            self.seen.insert(d);
            self.queue.push_back(d);
        }
    }

    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: Option<ty::TypingEnv<'tcx>>) -> String {
        let tcx = self.tcx;
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let mut s = format!("{{\"path\":{},\"u\":{},\"name\":{},\"local\":{}", esc(&self.path(d)), esc(&self.upath(d)), esc(&name), d.is_local());
        let a = self.args(args);
        let _ = write!(s, ",\"args\":{}", a);
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", esc(&self.path(tr)));
        }
        if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let ti = self.ty(st);
            let _ = write!(s, ",\"self\":{}", ti);
        }
        if let Some(im) = tcx.trait_impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let ti = self.ty(st);
            let _ = write!(s, ",\"self\":{}", ti);
        }
        let mut resolved = None;
        if let Some(env) = env {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
                    match inst.def {
                        InstanceKind::Item(r) => {
                            resolved = Some((r, inst.args));
                        }
                        InstanceKind::Intrinsic(_) => {
                            let _ = write!(s, ",\"intrinsic\":true");
                        }
                        InstanceKind::Virtual(..) => {
                            let _ = write!(s, ",\"virtual\":true");
                        }
                        _ => {}
                    }
                }
            }
        }
        if let Some((r, rargs)) = resolved {
            self.want(r);
            let derived = tcx.trait_impl_of_assoc(r).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false);
            let ra = self.args(rargs);
            let _ = write!(s, ",\"r\":{{\"u\":{},\"path\":{},\"local\":{},\"derived\":{},\"args\":{}}}", esc(&self.upath(r)), esc(&self.path(r)), r.is_local(), derived, ra);
        }
        s.push('}');
        s
    }

    fn span(&self, sp: Span) -> String {
        let tcx = self.tcx;
        let mut mac = String::new();
        let mut sp2 = sp;
        for e in sp.macro_backtrace() {
            if let rustc_span::ExpnKind::Macro(_, name) = e.kind {
                mac = name.to_string();
                sp2 = e.call_site;
            }
        }
        let sm = tcx.sess.source_map();
        let sp3 = sp2.source_callsite();
        let lo = sm.lookup_char_pos(sp3.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        if mac.is_empty() {
            format!("[{},{}]", esc(&f), lo.line)
        } else {
            format!("[{},{},{}]", esc(&f), lo.line, esc(&mac))
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut s = format!("[{}", p.local.as_usize());
        let mut cur = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            let e = match el {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let nm = match *cur.ty.kind() {
                        TyKind::Adt(def, _) => {
                            let vi = cur.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(vi).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    format!("[\"f\",{},{}]", f.as_usize(), esc(&nm))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => format!("[\"ci\",{},{},{}]", offset, from_end, min_length),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(n, v) => {
                    format!("[\"v\",{},{}]", v.as_usize(), esc(&n.map(|s| s.to_string()).unwrap_or_default()))
                }
                ProjectionElem::OpaqueCast(_) => "\"cast\"".to_string(),
                _ => "\"?\"".to_string(),
            };
            cur = cur.projection_ty(self.tcx, el);
            s.push(',');
            s.push_str(&e);
        }
        s.push(']');
        s
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let ti = self.ty(t);
        if let Some(si) = v.try_to_scalar_int() {
            match t.kind() {
                TyKind::Bool | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Char => {
                    return format!("{{\"c\":\"int\",\"v\":{},\"t\":{}}}", si.to_bits(si.size()), ti);
                }
                _ => {}
            }
        }
        if depth < 4 && matches!(t.kind(), TyKind::Adt(..) | TyKind::Tuple(..) | TyKind::Array(..)) && !t.has_param() {
            let ok = match t.kind() {
                TyKind::Adt(d, _) => !d.is_union(),
                TyKind::Array(_, n) => n.try_to_target_usize(self.tcx).map(|n| n <= 64).unwrap_or(false),
                _ => true,
            };
            if ok {
                if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<String> = d.fields.iter().map(|&(cv, ct)| self.constval(cv, ct, depth + 1)).collect();
                    return format!(
                        "{{\"c\":\"agg\",\"t\":{},\"variant\":{},\"fields\":[{}]}}",
                        ti,
                        d.variant.map(|v| v.as_usize() as i64).unwrap_or(-1),
                        fs.join(",")
                    );
                }
            }
        }
        if let TyKind::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                return format!("{{\"c\":\"str\",\"t\":{},\"s\":{}}}", ti, esc(&format!("{}", Const::Val(v, t))));
            }
        }
        if let ConstValue::ZeroSized = v {
            return format!("{{\"c\":\"zst\",\"t\":{}}}", ti);
        }
        format!("{{\"c\":\"opaque\",\"t\":{},\"s\":{}}}", ti, esc(&format!("{:?}", Const::Val(v, t))))
    }

    fn konst(&mut self, env: ty::TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let TyKind::FnDef(d, args) = *t.kind() {
            let f = self.fnref(d, args.skip_binder(), Some(env));
            return format!("{{\"c\":\"fn\",\"t\":{},\"f\":{}}}", ti, f);
        }
        let mut name = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!("{{\"c\":\"promoted\",\"t\":{},\"of\":{},\"n\":{}}}", ti, esc(&self.upath(u.def)), p.as_usize());
            }
            name = self.path(u.def);
        }
        if let Const::Ty(_, ct) = c.const_ {
            if let Some(x) = ct.try_to_target_usize(self.tcx) {
                return format!("{{\"c\":\"int\",\"v\":{},\"t\":{}}}", x, ti);
            }
        }
        let r = if c.const_.has_param() {
            // generic constants that do not really depend on the parameters still evaluate
            match c.const_ {
                Const::Unevaluated(..) => match c.const_.eval(self.tcx, env, c.span) {
                    Ok(v) => self.constval(v, t, 0),
                    Err(_) => format!("{{\"c\":\"opaque\",\"t\":{},\"s\":{}}}", ti, esc(&format!("{}", c.const_))),
                },
                _ => format!("{{\"c\":\"opaque\",\"t\":{},\"s\":{}}}", ti, esc(&format!("{}", c.const_))),
            }
        } else {
            match c.const_.eval(self.tcx, env, c.span) {
                Ok(v) => self.constval(v, t, 0),
                Err(_) => format!("{{\"c\":\"opaque\",\"t\":{},\"s\":{}}}", ti, esc(&format!("{}", c.const_))),
            }
        };
        if name.is_empty() {
            r
        } else {
            format!("{},\"name\":{}}}", &r[..r.len() - 1], esc(&name))
        }
    }

    fn operand(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(env, c)),
            Operand::RuntimeChecks(r) => {
                let _ = r;
                let t = self.ty(self.tcx.types.bool);
                format!("[\"k\",{{\"c\":\"int\",\"v\":0,\"t\":{}}}]", t)
            }
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Rvalue::Repeat(o, n) => {
                let len = match n.try_to_target_usize(self.tcx) {
                    Some(v) => Some(v),
                    None if !n.has_param() => self
                        .tcx
                        .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(*n))
                        .ok()
                        .and_then(|c| c.try_to_target_usize(self.tcx)),
                    None => None,
                };
                let n = len.map(|v| v as i128).unwrap_or(-1);
                format!("[\"repeat\",{},{}]", self.operand(body, env, o), n)
            }
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", self.place(body, p), matches!(k, BorrowKind::Mut { .. }))
            }
            Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", self.place(body, p), matches!(k, RawPtrKind::Mut)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(body, env, o), ti)
            }
            Rvalue::BinaryOp(op, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(body, env, &b.0), self.operand(body, env, &b.1))
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(body, env, o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            Rvalue::Aggregate(k, fs) => {
                let v: Vec<String> = fs.iter().map(|o| self.operand(body, env, o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        self.adt(*d);
                        let a = self.args(args);
                        format!(
                            "[\"adt\",{},{},{},{}]",
                            esc(&self.path(*d)),
                            vi.as_usize(),
                            a,
                            active.map(|f| f.as_usize() as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        if self.seen.insert(*d) {
                            self.queue.push_back(*d);
                        }
                        format!("[\"closure\",{}]", esc(&self.upath(*d)))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kk, v.join(","))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(body, env, o)),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, d: DefId) -> String {
        let tcx = self.tcx;
        let env = body.typing_env(tcx);
        let mut s = String::new();
        let _ = write!(s, "\"argc\":{},\"locals\":[", body.arg_count);
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upvars: Vec<String> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    let pl = self.place(body, p);
                    upvars.push(format!("[{},{}]", esc(v.name.as_str()), pl));
                }
            }
        }
        for (l, decl) in body.local_decls.iter_enumerated() {
            if l.as_usize() > 0 {
                s.push(',');
            }
            let t = self.ty(decl.ty);
            match names.get(&l.as_usize()) {
                Some(n) => {
                    let _ = write!(s, "[{},{}]", t, esc(n));
                }
                None => {
                    let _ = write!(s, "[{}]", t);
                }
            }
        }
        let _ = write!(s, "],\"upvars\":[{}],\"blocks\":[", upvars.join(","));
        for (bb, data) in body.basic_blocks.iter_enumerated() {
            if bb.as_usize() > 0 {
                s.push(',');
            }
            let _ = write!(s, "{{\"cleanup\":{},\"s\":[", data.is_cleanup);
            let mut first = true;
            for st in &data.statements {
                let x = match &st.kind {
                    StatementKind::Assign(b) => {
                        format!("[\"=\",{},{},{}]", self.place(body, &b.0), self.rvalue(body, env, &b.1), self.span(st.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{},{}]", self.place(body, place), variant_index.as_usize(), self.span(st.source_info.span))
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => format!("[\"assume\",{}]", self.operand(body, env, o)),
                        _ => "[\"copy_nonoverlapping\"]".to_string(),
                    },
                    _ => continue,
                };
                if !first {
                    s.push(',');
                }
                first = false;
                s.push_str(&x);
            }
            s.push_str("],\"t\":");
            let term = data.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dti = self.ty(dt);
                    format!("[\"switch\",{},[{}],{},{},{}]", self.operand(body, env, discr), v.join(","), targets.otherwise().as_usize(), dti, sp)
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let ti = self.ty(pt);
                    format!("[\"drop\",{},{},{}]", self.place(body, place), target.as_usize(), ti)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    let f = self.operand(body, env, func);
                    format!(
                        "[\"call\",{},[{}],{},{},{}]",
                        f,
                        a.join(","),
                        self.place(body, destination),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        sp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let m = m.split(|c: char| c == '(' || c == ' ' || c == '{').next().unwrap_or("").to_string();
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(_) => "overflow".to_string(),
                        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "div0".to_string(),
                        _ => m,
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(body, env, cond), expected, esc(&kind), target.as_usize(), sp)
                }
                other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
            };
            s.push_str(&t);
            s.push('}');
        }
        s.push(']');
        let _ = d;
        s
    }

    fn item(&mut self, d: DefId) -> Option<String> {
        let tcx = self.tcx;
        let kind = tcx.def_kind(d);
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let mut s = format!(
            "{{\"u\":{},\"path\":{},\"name\":{},\"local\":{},\"kind\":{},\"span\":{}",
            esc(&self.upath(d)),
            esc(&self.path(d)),
            esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()),
            d.is_local(),
            esc(&format!("{:?}", kind)),
            self.span(tcx.def_span(d))
        );
        if is_fn {
            let vis = if kind == DefKind::Closure { false } else { tcx.visibility(d).is_public() };
            let _ = write!(s, ",\"pub\":{}", vis);
            if kind != DefKind::Closure {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                let uns = !sig.safety().is_safe();
                let _ = write!(s, ",\"unsafe\":{}", uns);
                let ga: Vec<String> = ty::GenericArgs::identity_for_item(tcx, d)
                    .iter()
                    .filter_map(|a| match a.kind() {
                        GenericArgKind::Type(t) => Some(esc(&t.to_string())),
                        GenericArgKind::Const(c) => Some(esc(&c.to_string())),
                        _ => None,
                    })
                    .collect();
                let _ = write!(s, ",\"generics\":[{}]", ga.join(","));
            } else {
                let _ = write!(s, ",\"parent\":{}", esc(&self.upath(tcx.parent(d))));
            }
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let ti = self.ty(st);
                let _ = write!(s, ",\"self\":{},\"derived\":{}", ti, tcx.is_automatically_derived(im));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(s, ",\"trait\":{}", esc(&self.path(tr.def_id)));
                    let a = self.args(tr.args);
                    let _ = write!(s, ",\"trait_args\":{}", a);
                }
            }
            if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(s, ",\"in_trait\":{}", esc(&self.path(tr)));
            }
        }
        let body = if is_fn {
            tcx.optimized_mir(d)
        } else if d.is_local() && matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst) {
            return None;
        } else {
            return None;
        };
        s.push(',');
        s.push_str(&self.body(body, d));
        let proms = tcx.promoted_mir(d);
        s.push_str(",\"promoted\":[");
        for (i, p) in proms.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let b = self.body(p, d);
            let _ = write!(s, "{{{}}}", b);
        }
        s.push_str("]}");
        Some(s)
    }
}

fn export(tcx: TyCtxt<'_>) {
    let out = match std::env::var("VP_MIR_OUT") {
        Ok(o) => o,
        Err(_) => return,
    };
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    if krate.starts_with("build_script") {
        return;
    }
    let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), adts: HashMap::new(), adt_order: vec![], queue: VecDeque::new(), seen: HashSet::new() };
    let mut bodies: Vec<String> = vec![];
    for &ld in tcx.mir_keys(()) {
        let d = ld.to_def_id();
        cx.seen.insert(d);
        cx.queue.push_back(d);
    }
    while let Some(d) = cx.queue.pop_front() {
        if let Some(s) = cx.item(d) {
            bodies.push(s);
        }
    }
    // trait impls of the crate
    let mut impls: Vec<String> = vec![];
    for (tr, is) in tcx.all_local_trait_impls(()) {
        for &i in is {
            let d = i.to_def_id();
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let ti = cx.ty(st);
            let uns = tcx.impl_trait_header(d).safety.is_unsafe();
            let items: Vec<String> = tcx
                .associated_items(d)
                .in_definition_order()
                .filter(|a| a.is_fn())
                .map(|a| format!("[{},{}]", esc(a.name().as_str()), esc(&cx.upath(a.def_id))))
                .collect();
            impls.push(format!(
                "{{\"trait\":{},\"self\":{},\"unsafe\":{},\"derived\":{},\"negative\":{},\"span\":{},\"fns\":[{}]}}",
                esc(&cx.path(*tr)),
                ti,
                uns,
                tcx.is_automatically_derived(d),
                matches!(tcx.impl_polarity(d), ty::ImplPolarity::Negative),
                cx.span(tcx.def_span(d)),
                items.join(",")
            ));
        }
    }
    // traits defined in the crate
    let mut traits: Vec<String> = vec![];
    for id in tcx.hir_crate_items(()).free_items() {
        let d = id.owner_id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Trait => {
                let items: Vec<String> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .filter(|a| a.is_fn())
                    .map(|a| format!("[{},{}]", esc(a.name().as_str()), a.defaultness(tcx).has_value()))
                    .collect();
                traits.push(format!("{{\"path\":{},\"fns\":[{}]}}", esc(&cx.path(d)), items.join(",")));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => cx.adt(d),
            _ => {}
        }
    }
    let mut statics: Vec<String> = vec![];
    for id in tcx.hir_crate_items(()).free_items() {
        let d = id.owner_id.to_def_id();
        if let DefKind::Static { mutability, .. } = tcx.def_kind(d) {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let ti = cx.ty(t);
            statics.push(format!("{{\"path\":{},\"t\":{},\"mut\":{}}}", esc(&cx.path(d)), ti, mutability.is_mut()));
        }
    }
    let adts: Vec<String> = cx.adt_order.clone().iter().map(|d| cx.adts[d].clone()).collect();
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"crate\":{},\"debug_assertions\":{},\"types\":[{}],\n\"adts\":[{}],\n\"impls\":[{}],\n\"traits\":[{}],\n\"statics\":[{}],\n\"bodies\":[\n{}\n]}}\n",
        esc(&krate),
        tcx.sess.opts.debug_assertions,
        cx.types.join(",\n"),
        adts.join(",\n"),
        impls.join(",\n"),
        traits.join(",\n"),
        statics.join(",\n"),
        bodies.join(",\n")
    );
    let p = format!("{}/{}.json", out, krate);
    std::fs::write(&p, s).expect("write MIR export");
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        rustc_middle::ty::print::with_no_trimmed_paths!(export(tcx));
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    args.remove(1);
    // version / cfg probes have no input to analyse
    let extra = std::env::var("VP_RUSTC_FLAGS").unwrap_or_default();
    if args.iter().any(|a| a == "--crate-name") {
        for e in extra.split_whitespace() {
            args.push(e.to_string());
        }
    }
    let mut cb = Cb;
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
