// A rustc driver: type-checks the crate exactly as cargo asked for, then writes
// its MIR (with resolved callees, structured types and evaluated constants) as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    ty_ix: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
    adt_todo: Vec<DefId>,
    adt_seen: HashMap<DefId, ()>,
    fns: HashMap<String, usize>,
    fn_list: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        let k = self.tcx.def_path(d).to_string_no_crate_verbose();
        format!("{}{}", self.tcx.crate_name(d.krate), k)
    }
    fn name(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn args(&mut self, a: &[ty::GenericArg<'tcx>]) -> String {
        let mut v = vec![];
        for g in a {
            if let Some(t) = g.as_type() {
                v.push(self.ty(t).to_string());
            } else if let Some(c) = g.as_const() {
                v.push(format!("[{}]", js(&format!("{:?}", c))));
            }
        }
        format!("[{}]", v.join(","))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.ty_ix.get(&t) {
            return i;
        }
        let i = self.tys.len();
        self.tys.push(String::new());
        self.ty_ix.insert(t, i);
        let s = match *t.kind() {
            ty::Bool => r#"["bool"]"#.into(),
            ty::Char => r#"["char"]"#.into(),
            ty::Int(x) => format!(r#"["int",{}]"#, js(x.name_str())),
            ty::Uint(x) => format!(r#"["int",{}]"#, js(x.name_str())),
            ty::Float(x) => format!(r#"["float",{}]"#, js(x.name_str())),
            ty::Str => r#"["str"]"#.into(),
            ty::Never => r#"["never"]"#.into(),
            ty::Adt(d, a) => {
                if self.adt_seen.insert(d.did(), ()).is_none() {
                    self.adt_todo.push(d.did());
                }
                format!(r#"["adt",{},{}]"#, js(&self.name(d.did())), self.args(a))
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!(r#"["array",{},{}]"#, self.ty(e), n)
            }
            ty::Slice(e) => format!(r#"["slice",{}]"#, self.ty(e)),
            ty::RawPtr(e, m) => format!(r#"["ptr",{},{}]"#, self.ty(e), m.is_mut() as u8),
            ty::Ref(_, e, m) => format!(r#"["ref",{},{}]"#, self.ty(e), m.is_mut() as u8),
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                format!(r#"["fndef",{},{}]"#, js(&self.key(d)), self.args(a))
            }
            ty::FnPtr(..) => r#"["fnptr"]"#.into(),
            ty::Closure(d, a) => {
                let ups: Vec<String> = a.as_closure().upvar_tys().iter().map(|u| self.ty(u).to_string()).collect();
                format!(r#"["closure",{},[{}]]"#, js(&self.key(d)), ups.join(","))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|e| self.ty(e).to_string()).collect();
                format!(r#"["tuple",[{}]]"#, v.join(","))
            }
            ty::Param(p) => format!(r#"["param",{},{}]"#, js(p.name.as_str()), p.index),
            ty::Dynamic(p, ..) => {
                let n = p.principal_def_id().map(|d| self.name(d)).unwrap_or_default();
                format!(r#"["dyn",{}]"#, js(&n))
            }
            _ => format!(r#"["other",{}]"#, js(&format!("{:?}", t))),
        };
        self.tys[i] = s;
        i
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let p = sm.lookup_char_pos(s.lo());
        let f = match &p.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|x| x.display().to_string())
                .unwrap_or_else(|| format!("{:?}", r)),
            o => format!("{:?}", o),
        };
        js(&format!("{}:{}", f, p.line))
    }
    fn fnref(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!(r#"{{"key":{},"name":{},"args":{}"#, js(&self.key(d)), js(&self.name(d)), self.args(a));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, r#","trait":{}"#, js(&self.name(tr)));
        }
        let a2 = tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, a2) {
            let rd = inst.def_id();
            let kind = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone_shim",
                InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr_shim",
                InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "drop_glue",
                _ => "other",
            };
            let _ = write!(
                o,
                r#","rkey":{},"rname":{},"rargs":{},"rkind":"{}""#,
                js(&self.key(rd)),
                js(&self.name(rd)),
                self.args(inst.args),
                kind
            );
        }
        o.push('}');
        let n = self.fn_list.len();
        let ix = *self.fns.entry(o.clone()).or_insert(n);
        if ix == n {
            self.fn_list.push(o);
        }
        ix.to_string()
    }
    fn scalar(&mut self, t: Ty<'tcx>, bits: u128, size: u64) -> String {
        match t.kind() {
            ty::Bool => format!(r#"["bool",{}]"#, bits),
            ty::Char => format!(r#"["char",{}]"#, bits),
            ty::Int(_) => {
                let sh = 128 - 8 * size as u32;
                let v = ((bits << sh) as i128) >> sh;
                format!(r#"["int",{}]"#, v)
            }
            ty::Uint(_) => format!(r#"["int",{}]"#, bits),
            ty::Float(ty::FloatTy::F64) => format!(r#"["f64",{}]"#, bits),
            ty::Float(ty::FloatTy::F32) => format!(r#"["f32",{}]"#, bits),
            ty::Adt(d, _) if d.is_enum() => {
                // fieldless enum constant
                format!(r#"["enumbits",{}]"#, bits)
            }
            _ => format!(r#"["bits",{}]"#, bits),
        }
    }
    fn constant(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>, span: rustc_span::Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        match *t.kind() {
            ty::FnDef(d, a) => {
                let f = self.fnref(d, a.skip_binder(), env);
                return format!(r#"[{},["fn",{}]]"#, ti, f);
            }
            _ => {}
        }
        let mut uneval = None;
        if let Const::Unevaluated(u, _) = c {
            let k = self.key(u.def);
            let a = self.args(u.args);
            uneval = Some(match u.promoted {
                Some(p) => format!(r#"["uneval",{},{}]"#, js(&format!("{}#p{}", k, p.index())), a),
                None => format!(r#"["uneval",{},{}]"#, js(&k), a),
            });
        }
        let simple = match *t.kind() {
            ty::Ref(_, e, _) => match *e.kind() {
                ty::Str => true,
                ty::Slice(x) => x == tcx.types.u8,
                ty::Array(x, _) => x == tcx.types.u8,
                _ => false,
            },
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => true,
            ty::Adt(d, _) => d.is_enum(),
            ty::Tuple(x) => x.is_empty(),
            _ => false,
        };
        let mut v = None;
        if simple || uneval.is_none() {
            if let Ok(cv) = c.eval(tcx, env, span) {
                v = self.constval(t, cv, env);
            }
        }
        if let Some(v) = v {
            if let (Some(u), true) = (&uneval, v.starts_with("[\"?\"")) {
                return format!("[{},{}]", ti, u);
            }
            return format!("[{},{}]", ti, v);
        }
        if let Some(u) = uneval {
            return format!("[{},{}]", ti, u);
        }
        format!(r#"[{},["?",{}]]"#, ti, js(&format!("{:?}", c)))
    }
    fn constval(&mut self, t: Ty<'tcx>, cv: ConstValue, env: TypingEnv<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        match cv {
            ConstValue::ZeroSized => Some(r#"["zst"]"#.into()),
            ConstValue::Scalar(s) => {
                if let Ok(i) = s.try_to_scalar_int() {
                    let sz = i.size();
                    return Some(self.scalar(t, i.to_bits(sz), sz.bytes()));
                }
                // pointer to a static
                if let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = s {
                    let (prov, off) = p.into_raw_parts();
                    if off.bytes() == 0 {
                        if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                            return Some(format!(r#"["static",{}]"#, js(&tcx.def_path_str(d))));
                        }
                    }
                }
                // pointer: maybe &[u8; N]
                if let ty::Ref(_, e, _) = *t.kind() {
                    if let ty::Array(x, n) = *e.kind() {
                        if x == tcx.types.u8 {
                            let n = n.try_to_target_usize(tcx)?;
                            let (prov, off) = match s {
                                rustc_middle::mir::interpret::Scalar::Ptr(p, _) => p.into_raw_parts(),
                                _ => return None,
                            };
                            let id = prov.alloc_id();
                            if let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(id) {
                                let a = m.inner();
                                let o = off.bytes() as usize;
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                                return Some(format!(r#"["bytes",{:?}]"#, b));
                            }
                        }
                    }
                }
                None
            }
            ConstValue::Slice { .. } => {
                let b = cv.try_get_slice_bytes_for_diagnostics(tcx)?;
                if let ty::Ref(_, e, _) = *t.kind() {
                    if matches!(e.kind(), ty::Str) {
                        return Some(format!(r#"["str",{}]"#, js(&String::from_utf8_lossy(b))));
                    }
                    if let ty::Slice(x) = *e.kind() {
                        if x == tcx.types.u8 {
                            return Some(format!(r#"["bytes",{:?}]"#, b));
                        }
                    }
                }
                None
            }
            ConstValue::Indirect { .. } => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                    if let ty::Adt(ad, _) = t.kind() {
                        let vi = d.variant?;
                        let mut fs = vec![];
                        for (fv, ft) in d.fields.iter() {
                            let x = self.constval(*ft, *fv, env)?;
                            fs.push(format!("[{},{}]", self.ty(*ft), x));
                        }
                        let _ = ad;
                        return Some(format!(r#"["adt",{},[{}]]"#, vi.index(), fs.join(",")));
                    }
                }
                None
            }
        }
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!(r#"["f",{},{}]"#, f.index(), self.ty(t)),
                ProjectionElem::Index(l) => format!(r#"["i",{}]"#, l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!(r#"["ci",{},{},{}]"#, offset, min_length, from_end as u8)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!(r#"["ss",{},{},{}]"#, from, to, from_end as u8)
                }
                ProjectionElem::Downcast(_, vi) => format!(r#"["d",{}]"#, vi.index()),
                _ => "[\"x\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.index(), v.join(","))
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!(r#"["c",{}]"#, self.place(p)),
            Operand::Move(p) => format!(r#"["m",{}]"#, self.place(p)),
            Operand::Constant(c) => format!(r#"["k",{}]"#, self.constant(&c.const_, env, c.span)),
            _ => r#"["rt"]"#.to_string(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!(r#"["use",{}]"#, self.operand(o, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!(r#"["repeat",{},{}]"#, self.operand(o, env), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!(r#"["ref",{},{}]"#, self.place(p), m as u8)
            }
            Rvalue::RawPtr(_, p) => format!(r#"["ref",{},1]"#, self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!(r#"["ref",{},{}]"#, self.place(p), m.is_mut() as u8),
            Rvalue::Cast(k, o, t) => {
                format!(r#"["cast",{},{},{}]"#, js(&format!("{:?}", k)), self.operand(o, env), self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => format!(
                r#"["bin",{},{},{}]"#,
                js(&format!("{:?}", op)),
                self.operand(&b.0, env),
                self.operand(&b.1, env)
            ),
            Rvalue::UnaryOp(op, o) => format!(r#"["un",{},{}]"#, js(&format!("{:?}", op)), self.operand(o, env)),
            Rvalue::Discriminant(p) => format!(r#"["discr",{}]"#, self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                let v = v.join(",");
                match &**k {
                    AggregateKind::Array(t) => format!(r#"["agg",["array",{}],[{}]]"#, self.ty(*t), v),
                    AggregateKind::Tuple => format!(r#"["agg",["tuple"],[{}]]"#, v),
                    AggregateKind::Adt(d, vi, a, _, af) => format!(
                        r#"["agg",["adt",{},{},{},{}],[{}]]"#,
                        js(&self.name(*d)),
                        vi.index(),
                        self.args(a),
                        af.map(|x| x.index().to_string()).unwrap_or("null".into()),
                        v
                    ),
                    AggregateKind::Closure(d, _) => format!(r#"["agg",["closure",{}],[{}]]"#, js(&self.key(*d)), v),
                    _ => format!(r#"["agg",["other"],[{}]]"#, v),
                }
            }
            Rvalue::CopyForDeref(p) => format!(r#"["use",["c",{}]]"#, self.place(p)),
            _ => format!(r#"["other",{}]"#, js(&format!("{:?}", r))),
        }
    }
    fn body(&mut self, key: &str, name: &str, extra: &str, b: &Body<'tcx>, env: TypingEnv<'tcx>, out: &mut String) {
        let tcx = self.tcx;
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.index(), v.name.to_string());
                }
            }
        }
        let names: Vec<String> = names.iter().map(|(k, v)| format!("\"{}\":{}", k, js(v))).collect();
        let _ = write!(
            out,
            r#"{{"key":{},"name":{},"argc":{},"locals":[{}],"names":{{{}}},"span":{}{},"blocks":["#,
            js(key),
            js(name),
            b.arg_count,
            locals.join(","),
            names.join(","),
            self.span(b.span),
            extra
        );
        let mut first = true;
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            if !first {
                out.push(',');
            }
            first = false;
            if bb.is_cleanup {
                out.push_str("null");
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0);
                        let r = self.rvalue(&x.1, env);
                        st.push(format!("[{},{},{}]", p, r, self.span(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!(r#"[{},["setdiscr",{}],{}]"#, p, variant_index.index(), self.span(s.source_info.span)));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!(r#"["goto",{}]"#, target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, tcx);
                    let signed = matches!(dt.kind(), ty::Int(_));
                    let size = match dt.kind() {
                        ty::Int(i) => i.bit_width().unwrap_or(64),
                        _ => 64,
                    };
                    let mut v = vec![];
                    for (val, tg) in targets.iter() {
                        let vs = if signed {
                            let sh = 128 - size as u32;
                            (((val << sh) as i128) >> sh).to_string()
                        } else {
                            val.to_string()
                        };
                        v.push(format!("[{},{}]", vs, tg.index()));
                    }
                    format!(
                        r#"["sw",{},{},[{}],{},{}]"#,
                        self.operand(discr, env),
                        self.ty(dt),
                        v.join(","),
                        targets.otherwise().index(),
                        sp
                    )
                }
                TerminatorKind::Return => r#"["ret"]"#.to_string(),
                TerminatorKind::Unreachable => r#"["unreach"]"#.to_string(),
                TerminatorKind::Drop { place, target, .. } => format!(r#"["drop",{},{}]"#, self.place(place), target.index()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let v: Vec<String> = args.iter().map(|a| self.operand(&a.node, env)).collect();
                    format!(
                        r#"["call",{},[{}],{},{},{}]"#,
                        self.operand(func, env),
                        v.join(","),
                        self.place(destination),
                        target.map(|t| t.index().to_string()).unwrap_or("null".into()),
                        sp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![len, index]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow:{:?}", op), vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".to_string(), vec![a]),
                        AssertKind::DivisionByZero(a) => ("divzero".to_string(), vec![a]),
                        AssertKind::RemainderByZero(a) => ("remzero".to_string(), vec![a]),
                        AssertKind::NullPointerDereference
                        | AssertKind::MisalignedPointerDereference { .. }
                        | AssertKind::NullReferenceConstructed => ("ptr".to_string(), vec![]),
                        AssertKind::InvalidEnumConstruction(_) => ("enum".to_string(), vec![]),
                        _ => ("other".to_string(), vec![]),
                    };
                    let v: Vec<String> = ops.iter().map(|a| self.operand(a, env)).collect();
                    format!(
                        r#"["assert",{},{},{},[{}],{},{}]"#,
                        self.operand(cond, env),
                        *expected as u8,
                        js(&k),
                        v.join(","),
                        target.index(),
                        sp
                    )
                }
                o => format!(r#"["other",{}]"#, js(&format!("{:?}", o))),
            };
            let _ = write!(out, "[[{}],{}]", st.join(","), ts);
        }
        out.push_str("]}");
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out_path = match std::env::var("MIRDUMP_OUT") {
            Ok(p) => p,
            Err(_) => return Compilation::Continue,
        };
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut cx = Cx {
            tcx,
            tys: vec![],
            ty_ix: HashMap::new(),
            adts: BTreeMap::new(),
            adt_todo: vec![],
            adt_seen: HashMap::new(),
            fns: HashMap::new(),
            fn_list: vec![],
        };
        let mut out = String::new();
        out.push_str("{\"bodies\":[\n");
        let mut first = true;
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| cx.key(k.to_def_id()));
        for k in keys {
            let d = k.to_def_id();
            let dk = tcx.def_kind(d);
            let env = TypingEnv::post_analysis(tcx, d);
            let key = cx.key(d);
            let name = cx.name(d);
            let (body, is_fn): (&Body<'tcx>, bool) = match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => (tcx.optimized_mir(d), true),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    (tcx.mir_for_ctfe(d), false)
                }
                _ => continue,
            };
            let vis = if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                let eff = tcx.effective_visibilities(());
                if eff.is_reachable(k) { "pub" } else { "priv" }
            } else {
                "priv"
            };
            let mut extra = format!(
                r#","kind":{},"vis":"{}","isfn":{}"#,
                js(&format!("{:?}", dk)),
                vis,
                is_fn
            );
            let gens = tcx.generics_of(d);
            let mut gn = vec![];
            let mut g = Some(gens);
            while let Some(x) = g {
                for p in &x.own_params {
                    if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                        gn.push((p.index, p.name.to_string()));
                    }
                }
                g = x.parent.map(|p| tcx.generics_of(p));
            }
            gn.sort();
            let gs: Vec<String> = gn.iter().map(|x| js(&x.1)).collect();
            let _ = write!(extra, r#","generics":[{}]"#, gs.join(","));
            if let Some(impl_) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(impl_).skip_binder();
                let _ = write!(extra, r#","self_ty":{}"#, cx.ty(st));
                if let Some(tr) = tcx.impl_opt_trait_ref(impl_) {
                    let _ = write!(extra, r#","trait":{}"#, js(&cx.name(tr.skip_binder().def_id)));
                }
                let derived = tcx.is_automatically_derived(impl_);
                let _ = write!(extra, r#","derived":{}"#, derived);
            }
            let _ = write!(extra, r#","method":{}"#, js(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()));
            if !first {
                out.push_str(",\n");
            }
            first = false;
            cx.body(&key, &name, &extra, body, env, &mut out);
            for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                out.push_str(",\n");
                let pk = format!("{}#p{}", key, i.index());
                cx.body(&pk, &pk.clone(), r#","kind":"promoted","vis":"priv","isfn":false,"generics":[]"#, p, env, &mut out);
            }
        }
        // every local adt, and every adt mentioned
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) && cx.adt_seen.insert(d, ()).is_none() {
                cx.adt_todo.push(d);
            }
        }
        while let Some(d) = cx.adt_todo.pop() {
            let ad = tcx.adt_def(d);
            let mut vs = vec![];
            let deep = d.is_local()
                || ad.is_enum()
                || { let n = cx.name(d); n.contains("ops::range") };
            if ad.is_enum() || ad.is_struct() {
                for (vi, v) in ad.variants().iter_enumerated() {
                    let discr = if ad.is_enum() { ad.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                    let mut fs = vec![];
                    for f in &v.fields {
                        let t = if deep { cx.ty(tcx.type_of(f.did).skip_binder()).to_string() } else { "null".into() };
                        fs.push(format!("[{},{}]", js(f.name.as_str()), t));
                    }
                    vs.push(format!(r#"[{},{},[{}]]"#, js(v.name.as_str()), discr, fs.join(",")));
                }
            }
            let n = cx.name(d);
            let repr = if ad.is_enum() { let t = ad.repr().discr_type(); format!("{:?}", t) } else { String::new() };
            cx.adts.insert(
                n,
                format!(
                    r#"{{"kind":{},"local":{},"span":{},"repr":{},"variants":[{}]}}"#,
                    js(if ad.is_enum() { "enum" } else if ad.is_struct() { "struct" } else { "union" }),
                    d.is_local(),
                    cx.span(tcx.def_span(d)),
                    js(&repr),
                    vs.join(",")
                ),
            );
        }
        out.push_str("\n],\"fns\":[\n");
        out.push_str(&cx.fn_list.join(",\n"));
        out.push_str("\n],\"types\":[\n");
        out.push_str(&cx.tys.join(",\n"));
        out.push_str("\n],\"adts\":{\n");
        let a: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        out.push_str(&a.join(",\n"));
        // trait impls in this crate
        out.push_str("\n},\"impls\":[\n");
        let mut im = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
                let tr = tcx.impl_trait_ref(d).skip_binder();
                let st = tr.self_ty();
                let mut ms = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    ms.push(format!("{}:{}", js(it.name().as_str()), js(&cx.key(it.def_id))));
                }
                im.push(format!(
                    r#"{{"trait":{},"self":{},"selfs":{},"methods":{{{}}}}}"#,
                    js(&cx.name(tr.def_id)),
                    cx.ty(st),
                    js(&format!("{:?}", st)),
                    ms.join(",")
                ));
            }
        }
        out.push_str(&im.join(",\n"));
        out.push_str("\n],\"types2\":[\n");
        out.push_str(&cx.tys.join(",\n"));
        out.push_str("\n]}\n");
        std::fs::write(&out_path, out).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let crate_name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone());
    let lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    if crate_name.as_deref() == std::env::var("MIRDUMP_CRATE").ok().as_deref() && lib && !args.iter().any(|a| a == "--test") {
        args.push("-Zmir-opt-level=0".into());
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
    } else {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut N))
    }
}
