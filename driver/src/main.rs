// MIR exporter: RUSTC_WORKSPACE_WRAPPER for `cargo +nightly check`.
// For the crate named by $MIRDUMP_CRATE it writes $MIRDUMP_OUT (JSON): every
// body of the type-checked program (functions, closures, constants, promoteds),
// with callees resolved, plus ADT layouts (variants/fields/discriminants),
// trait impl tables and static/const definitions.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<String, usize>,
    ty_list: Vec<String>,
    adts: BTreeMap<String, DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    /// unique id (impl items carry impl numbering in the debug path)
    fn uid(&self, d: DefId) -> String {
        let c = self.tcx.crate_name(d.krate);
        format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let j = self.ty_json(t);
        if let Some(i) = self.tys.get(&j) {
            return *i;
        }
        let i = self.ty_list.len();
        self.tys.insert(j.clone(), i);
        self.ty_list.push(j);
        i
    }
    fn args_json(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t).to_string());
            } else if let Some(c) = a.as_const() {
                v.push(format!("{{\"const\":{}}}", esc(&format!("{:?}", c))));
            }
        }
        format!("[{}]", v.join(","))
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("{{\"k\":\"prim\",\"n\":{}}}", esc(&format!("{}", t)))
            }
            ty::Adt(d, args) => {
                let p = self.uid(d.did());
                self.adts.entry(p.clone()).or_insert(d.did());
                let a = self.args_json(args);
                format!("{{\"k\":\"adt\",\"p\":{},\"a\":{}}}", esc(&p), a)
            }
            ty::Ref(_, t, m) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"ref\",\"t\":{},\"m\":{}}}", i, m.is_mut())
            }
            ty::RawPtr(t, _) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"ptr\",\"t\":{}}}", i)
            }
            ty::Slice(t) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"slice\",\"t\":{}}}", i)
            }
            ty::Array(t, n) => {
                let i = self.ty(*t);
                let n = n.try_to_target_usize(self.tcx);
                format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", i, n.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"a\":[{}]}}", v.join(","))
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{},\"i\":{}}}", esc(p.name.as_str()), p.index),
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let p = self.uid(*d);
                let a = self.args_json(args);
                format!("{{\"k\":\"fndef\",\"p\":{},\"a\":{}}}", esc(&p), a)
            }
            ty::Closure(d, args) => {
                let p = self.uid(*d);
                let a = { let pa = self.tcx.mk_args(args.as_closure().parent_args()); self.args_json(pa) };
                format!("{{\"k\":\"closure\",\"p\":{},\"a\":{}}}", esc(&p), a)
            }
            ty::Dynamic(preds, ..) => {
                let p = preds.principal_def_id().map(|d| self.uid(d)).unwrap_or_default();
                format!("{{\"k\":\"dyn\",\"p\":{}}}", esc(&p))
            }
            _ => {
                let s = with_no_trimmed_paths!(format!("{}", t));
                let k = if matches!(t.kind(), ty::Alias(..)) { "alias" } else { "other" };
                if let ty::Alias(_, a) = t.kind() {
                    let d = match a.kind { ty::AliasTyKind::Projection { def_id } => Some(def_id), _ => None };
                    if let Some(d) = d {
                        let aj = self.args_json(a.args);
                        return format!("{{\"k\":\"proj\",\"p\":{},\"a\":{},\"s\":{}}}", esc(&self.uid(d)), aj, esc(&s));
                    }
                }
                format!("{{\"k\":\"{}\",\"s\":{}}}", k, esc(&s))
            }
        }
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"c\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => format!("[\"x\"]"),
            });
        }
        if v.is_empty() {
            format!("{}", p.local.as_usize())
        } else {
            format!("[{},{}]", p.local.as_usize(), v.join(","))
        }
    }
    fn scalar(&mut self, s: rustc_middle::mir::interpret::Scalar, t: Ty<'tcx>) -> String {
        let ti = self.ty(t);
        match s {
            rustc_middle::mir::interpret::Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                let val = match t.kind() {
                    ty::Int(_) => format!("{}", i.size().sign_extend(bits)),
                    ty::Float(ty::FloatTy::F64) => {
                        format!("\"{:?}\"", f64::from_bits(bits as u64))
                    }
                    ty::Float(ty::FloatTy::F32) => format!("\"{:?}\"", f32::from_bits(bits as u32)),
                    _ => format!("{}", bits),
                };
                format!("[\"k\",{},{}]", ti, val)
            }
            rustc_middle::mir::interpret::Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                match self.tcx.global_alloc(aid) {
                    rustc_middle::mir::interpret::GlobalAlloc::Static(d) => {
                        format!("[\"static\",{},{}]", ti, esc(&self.uid(d)))
                    }
                    rustc_middle::mir::interpret::GlobalAlloc::Memory(a) => {
                        let a = a.inner();
                        let len = a.len();
                        let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..len).to_vec();
                        format!("[\"mem\",{},{},{:?}]", ti, off.bytes(), bytes)
                    }
                    _ => format!("[\"ptr\",{}]", ti),
                }
            }
        }
    }
    fn constant(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>, span: rustc_span::Span) -> String {
        let t = c.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return self.fnref(*d, args.skip_binder(), env);
        }
        match c {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let ti = self.ty(t);
                    return format!("[\"promoted\",{},{},{}]", ti, esc(&self.uid(u.def)), p.as_usize());
                }
                // scalar-evaluate when possible, keep the name of the item
                if let Ok(v) = c.eval(self.tcx, env, span) {
                    if let ConstValue::Scalar(s) = v {
                        if !matches!(t.kind(), ty::Adt(..)) {
                            return self.scalar(s, t);
                        }
                    }
                    if let Some(s) = self.strval(v, t) {
                        return s;
                    }
                }
                let ti = self.ty(t);
                let inst = rustc_middle::ty::Instance::try_resolve(self.tcx, env, u.def, u.args);
                let d = match inst { Ok(Some(i)) => i.def_id(), _ => u.def };
                let a = self.args_json(u.args);
                format!("[\"item\",{},{},{}]", ti, esc(&self.uid(d)), a)
            }
            Const::Val(v, t) => self.constval(*v, *t),
            Const::Ty(t, cc) => {
                let ti = self.ty(*t);
                if let Some(v) = cc.try_to_target_usize(self.tcx) {
                    return format!("[\"k\",{},{}]", ti, v);
                }
                if let Ok(v) = c.eval(self.tcx, env, span) {
                    if let ConstValue::Scalar(s) = v {
                        return self.scalar(s, *t);
                    }
                    if let Some(s) = self.strval(v, *t) {
                        return s;
                    }
                }
                format!("[\"tyconst\",{},{}]", ti, esc(&format!("{:?}", cc)))
            }
        }
    }
    fn strval(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        if let ConstValue::Slice { .. } | ConstValue::Indirect { .. } = v {
            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        return Some(format!("[\"str\",{}]", esc(&String::from_utf8_lossy(b))));
                    }
                    let ti = self.ty(t);
                    return Some(format!("[\"bytes\",{},{:?}]", ti, b));
                }
            }
        }
        None
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        match v {
            ConstValue::Scalar(s) => self.scalar(s, t),
            ConstValue::ZeroSized => {
                let ti = self.ty(t);
                format!("[\"zst\",{}]", ti)
            }
            _ => {
                if let Some(s) = self.strval(v, t) {
                    return s;
                }
                let ti = self.ty(t);
                // raw bytes of an indirect constant
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    let a = self.tcx.global_alloc(alloc_id).unwrap_memory().inner();
                    let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len()).to_vec();
                    return format!("[\"mem\",{},{},{:?}]", ti, offset.bytes(), bytes);
                }
                format!("[\"cv\",{},{}]", ti, esc(&format!("{:?}", v)))
            }
        }
    }
    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let p = self.uid(d);
        let a = self.args_json(args);
        let mut res = "null".to_string();
        let mut ra = "[]".to_string();
        let mut kind = "\"item\"";
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(i)) = rustc_middle::ty::Instance::try_resolve(self.tcx, env, d, args) {
                kind = match i.def {
                    ty::InstanceKind::Virtual(..) => "\"virtual\"",
                    ty::InstanceKind::Item(_) => "\"item\"",
                    _ => "\"shim\"",
                };
                res = esc(&self.uid(i.def_id()));
                ra = self.args_json(i.args);
            }
        }
        let tr = self.tcx.trait_of_assoc(d).map(|t| esc(&self.uid(t))).unwrap_or("null".into());
        let nm = self.tcx.opt_item_name(d).map(|s| esc(s.as_str())).unwrap_or("null".into());
        let mut st = "null".to_string();
        if let Some(par) = self.tcx.opt_parent(d) {
            if matches!(self.tcx.def_kind(par), DefKind::Impl { of_trait: false }) {
                let t = self.tcx.type_of(par).instantiate_identity().skip_norm_wip();
                st = self.ty(t).to_string();
            }
        }
        format!(
            "[\"fn\",{{\"p\":{},\"a\":{},\"r\":{},\"ra\":{},\"k\":{},\"tr\":{},\"n\":{},\"st\":{}}}]",
            esc(&p), a, res, ra, kind, tr, nm, st
        )
    }
    fn op(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_, env, c.span),
            _ => "[\"rc\"]".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.op(o, env), n)
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.op(o, env), ti)
            }
            Rvalue::BinaryOp(b, ops) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(&ops.0, env), self.op(&ops.1, env))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o, env)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(o, env)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let p = self.uid(*d);
                        self.adts.entry(p.clone()).or_insert(*d);
                        let a = self.args_json(args);
                        format!("[\"adt\",{},{},{},{}]", esc(&p), v.as_usize(), f.map(|f| f.as_usize().to_string()).unwrap_or("null".into()), a)
                    }
                    AggregateKind::Closure(d, args) => {
                        let a = { let pa = self.tcx.mk_args(args.as_closure().parent_args()); self.args_json(pa) };
                        format!("[\"closure\",{},{}]", esc(&self.uid(*d)), a)
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", k, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            _ => "[\"other\"]".into(),
        }
    }
    fn loc(&self, s: rustc_span::Span) -> (String, usize) {
        let s = s.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        (f, l.line)
    }
    fn body(&mut self, id: &str, d: DefId, b: &Body<'tcx>, kind: &str) -> String {
        let env = TypingEnv::post_analysis(self.tcx, d);
        let mut o = String::new();
        let (f, l) = self.loc(self.tcx.def_span(d));
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let exp = self.tcx.def_span(d).from_expansion();
        let _ = write!(o, "{{\"id\":{},\"path\":{},\"kind\":\"{}\",\"file\":{},\"line\":{},\"argc\":{},\"exp\":{}", esc(id), esc(&self.path(d)), kind, esc(&f), l, b.arg_count, exp);
        // generics in order (types only)
        let g = self.tcx.generics_of(d);
        let ids = ty::GenericArgs::identity_for_item(self.tcx, d);
        let mut gn = vec![];
        for (i, a) in ids.iter().enumerate() {
            if a.as_type().is_some() {
                gn.push(esc(g.param_at(i, self.tcx).name.as_str()));
            }
        }
        let _ = write!(o, ",\"generics\":[{}]", gn.join(","));
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let vis = self.tcx.visibility(d).is_public();
            let _ = write!(o, ",\"pub\":{}", vis);
        }
        if let Some(p) = self.tcx.opt_parent(d) {
            if matches!(self.tcx.def_kind(p), DefKind::Impl { .. }) {
                let st = self.tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let st = self.ty(st);
                let tr = if matches!(self.tcx.def_kind(p), DefKind::Impl { of_trait: true }) {
                    esc(&self.uid(self.tcx.impl_trait_ref(p).skip_binder().def_id))
                } else { "null".into() };
                let _ = write!(o, ",\"self\":{},\"trait\":{}", st, tr);
            } else if matches!(self.tcx.def_kind(p), DefKind::Trait) {
                let _ = write!(o, ",\"intrait\":{}", esc(&self.uid(p)));
            }
        }
        let mut ls = vec![];
        for (i, ld) in b.local_decls.iter_enumerated() {
            let t = self.ty(ld.ty);
            match names.get(&i.as_usize()) {
                Some(n) => ls.push(format!("[{},{}]", t, esc(n))),
                None => ls.push(format!("[{}]", t)),
            }
        }
        let _ = write!(o, ",\"locals\":[{}]", ls.join(","));
        let mut bs = vec![];
        for bb in b.basic_blocks.iter() {
            let mut sts = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let (_, ln) = self.loc(s.source_info.span);
                        sts.push(format!("[{},{},{}]", self.place(&a.0), self.rvalue(&a.1, env), ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        sts.push(format!("[{},[\"setdisc\",{}],0]", self.place(place), variant_index.as_usize()));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let (_, ln) = self.loc(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&b.local_decls, self.tcx);
                    let v: Vec<String> = targets.iter().map(|(v, t)| {
                        let v = match dty.kind() {
                            ty::Int(it) => {
                                let sz = it.bit_width().unwrap_or(64);
                                rustc_abi::Size::from_bits(sz).sign_extend(v).to_string()
                            }
                            _ => v.to_string(),
                        };
                        format!("[{},{}]", v, t.as_usize())
                    }).collect();
                    let ti = self.ty(dty);
                    format!("[\"switch\",{},[{}],{},{}]", self.op(discr, env), v.join(","), targets.otherwise().as_usize(), ti)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node, env)).collect();
                    format!("[\"call\",{},[{}],{},{}]", self.op(func, env), a.join(","), self.place(destination), target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertKind::DivisionByZero(_) => "divzero".into(),
                        AssertKind::RemainderByZero(_) => "remzero".into(),
                        _ => "other".into(),
                    };
                    format!("[\"assert\",{},{},\"{}\",{}]", self.op(cond, env), expected, m, target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"other\"]".into(),
            };
            bs.push(format!("{{\"s\":[{}],\"t\":{},\"l\":{},\"c\":{}}}", sts.join(","), tj, ln, bb.is_cleanup));
        }
        let _ = write!(o, ",\"blocks\":[\n{}\n]}}", bs.join(",\n"));
        o
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    // The reference definitions compiled next to the tree (spec/*.rs) may name
    // private fields and methods: for the analysis copy everything is visible.
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_sess, providers| {
            providers.queries.visibility = |_tcx, _d| ty::Visibility::Public;
            providers.queries.adt_def = |tcx, d| {
                let ad = (rustc_interface::DEFAULT_QUERY_PROVIDERS.queries.adt_def)(tcx, d);
                for v in ad.variants().iter() {
                    for f in v.fields.iter() {
                        let p = f as *const ty::FieldDef as *mut ty::FieldDef;
                        // SAFETY: freshly interned by the call above, not read yet
                        unsafe { (*p).vis = ty::Visibility::Public };
                    }
                }
                ad
            };
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() != want {
            return Compilation::Continue;
        }
        let Ok(out) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_list: vec![], adts: BTreeMap::new() };
        let mut bodies = vec![];
        let mut seen_ext: Vec<DefId> = vec![];
        for &ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            let uid = cx.uid(d);
            match k {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if !tcx.is_mir_available(d) { continue; }
                    let b = tcx.optimized_mir(d);
                    bodies.push(cx.body(&uid, d, b, if k == DefKind::Closure { "closure" } else { "fn" }));
                    for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                        bodies.push(cx.body(&format!("{}#p{}", uid, i.as_usize()), d, p, "promoted"));
                    }
                }
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => {
                    let b = tcx.mir_for_ctfe(d);
                    bodies.push(cx.body(&uid, d, b, "const"));
                    for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                        bodies.push(cx.body(&format!("{}#p{}", uid, i.as_usize()), d, p, "promoted"));
                    }
                }
                _ => {}
            }
        }
        let _ = &mut seen_ext;
        // trait impls in the local crate
        let mut impls = vec![];
        for (tr, is) in tcx.all_local_trait_impls(()) {
            for i in is {
                let d = i.to_def_id();
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let st = cx.ty(st);
                let trr = tcx.impl_trait_ref(d).skip_binder();
                let ta = cx.args_json(trr.args);
                let mut items = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    if it.is_fn() {
                        items.push(format!("{}:{}", esc(it.name().as_str()), esc(&cx.uid(it.def_id))));
                    }
                }
                let mut tys = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    if matches!(tcx.def_kind(it.def_id), DefKind::AssocTy) {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        tys.push(format!("{}:{}", esc(it.name().as_str()), cx.ty(t)));
                    }
                }
                let mut defaults = vec![];
                for it in tcx.associated_items(*tr).in_definition_order() {
                    if it.is_fn() && it.defaultness(tcx).has_value() {
                        defaults.push(format!("{}:{}", esc(it.name().as_str()), esc(&cx.uid(it.def_id))));
                    }
                }
                let (f, l) = cx.loc(tcx.def_span(d));
                let exp = tcx.def_span(d).from_expansion();
                impls.push(format!(
                    "{{\"trait\":{},\"self\":{},\"targs\":{},\"items\":{{{}}},\"tys\":{{{}}},\"defaults\":{{{}}},\"file\":{},\"line\":{},\"exp\":{}}}",
                    esc(&cx.uid(*tr)), st, ta, items.join(","), tys.join(","), defaults.join(","), esc(&f), l, exp
                ));
            }
        }
        // ADTs
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                cx.ty(t);
            }
        }
        let mut adts = vec![];
        let mut done = std::collections::HashSet::new();
        loop {
            let todo: Vec<(String, DefId)> = cx.adts.iter().filter(|(k, _)| !done.contains(*k)).map(|(k, v)| (k.clone(), *v)).collect();
            if todo.is_empty() { break; }
            for (p, d) in todo {
                done.insert(p.clone());
                let ad = tcx.adt_def(d);
                let mut vs = vec![];
                let local = d.is_local();
                for (vi, v) in ad.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let ti = if local { cx.ty(t) as i64 } else { -1 };
                        fs.push(format!("[{},{},{}]", esc(f.name.as_str()), ti, tcx.visibility(f.did).is_public()));
                    }
                    let disc = if ad.is_enum() { ad.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                    let disc = if ad.is_enum() {
                        let dd = ad.discriminant_for_variant(tcx, vi);
                        match dd.ty.kind() {
                            ty::Int(it) => {
                                let sz = it.bit_width().unwrap_or(64);
                                rustc_abi::Size::from_bits(sz).sign_extend(dd.val)
                            }
                            _ => disc,
                        }
                    } else { 0 };
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(v.name.as_str()), disc, fs.join(",")));
                }
                let (f, l) = if local { cx.loc(tcx.def_span(d)) } else { (String::new(), 0) };
                adts.push(format!("{}:{{\"enum\":{},\"local\":{},\"pub\":{},\"file\":{},\"line\":{},\"v\":[{}]}}", esc(&p), ad.is_enum(), local, tcx.visibility(d).is_public(), esc(&f), l, vs.join(",")));
            }
        }
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},\n\"types\":[\n{}\n],\n\"adts\":{{\n{}\n}},\n\"impls\":[\n{}\n],\n\"bodies\":[\n{}\n]}}\n", esc(&want), cx.ty_list.join(",\n"), adts.join(",\n"), impls.join(",\n"), bodies.join(",\n"));
        std::fs::write(&out, o).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    std::process::exit(if rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut Cb)).is_ok() { 0 } else { 1 });
}
