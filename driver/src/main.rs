//! Dumps the type-checked program (MIR with resolved callees, ADTs, impls,
//! constants, unsafe sites) of one crate as JSON facts for the analyses in /verif/analysis.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tyidx: HashMap<Ty<'tcx>, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn uid(&self, d: DefId) -> String {
        let k = self.tcx.crate_name(d.krate);
        format!("{}{}", k, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn loc(&self, s: Span) -> (String, usize) {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(s.lo());
        (format!("{}", l.file.name.prefer_local_unconditionally()), l.line)
    }
    fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t).to_string());
            } else if let Some(c) = a.as_const() {
                v.push(esc(&format!("{:?}", c)));
            }
        }
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyidx.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tyidx.insert(t, i);
        let s = with_no_trimmed_paths!(format!("{}", t));
        let body = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("\"k\":\"prim\"")
            }
            ty::Adt(d, a) => {
                let p = self.path(d.did());
                let a = self.gargs(a);
                format!("\"k\":\"adt\",\"p\":{},\"a\":{}", esc(&p), a)
            }
            ty::Ref(_, x, m) => {
                let x = self.ty(*x);
                format!("\"k\":\"ref\",\"t\":{},\"m\":{}", x, m.is_mut())
            }
            ty::RawPtr(x, m) => {
                let x = self.ty(*x);
                format!("\"k\":\"ptr\",\"t\":{},\"m\":{}", x, m.is_mut())
            }
            ty::Array(x, n) => {
                let x = self.ty(*x);
                let n = n.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1);
                format!("\"k\":\"array\",\"t\":{},\"n\":{}", x, n)
            }
            ty::Slice(x) => {
                let x = self.ty(*x);
                format!("\"k\":\"slice\",\"t\":{}", x)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":{}", arr(v))
            }
            ty::Dynamic(preds, ..) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("\"k\":\"dyn\",\"p\":{}", esc(&p))
            }
            ty::FnDef(d, _) => {
                let u = self.uid(*d);
                format!("\"k\":\"fndef\",\"u\":{}", esc(&u))
            }
            ty::FnPtr(..) => format!("\"k\":\"fnptr\""),
            ty::Closure(d, _) => {
                let u = self.uid(*d);
                format!("\"k\":\"closure\",\"u\":{}", esc(&u))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", esc(p.name.as_str())),
            _ => format!("\"k\":\"other\""),
        };
        self.types[i] = format!("{{\"s\":{},{}}}", esc(&s), body);
        i
    }

    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let mut out = format!("{{\"o\":\"const\",\"t\":{}", ti);
        if let Const::Unevaluated(u, _) = c {
            let p = self.path(u.def);
            let uid = self.uid(u.def);
            let _ = write!(out, ",\"path\":{},\"uid\":{}", esc(&p), esc(&uid));
            if let Some(pr) = u.promoted {
                let _ = write!(out, ",\"promoted\":{}", pr.as_usize());
            }
        }
        match t.kind() {
            ty::FnDef(d, a) => {
                out.push_str(&self.callee(*d, a.skip_binder(), env));
            }
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char | ty::Float(_) => {
                if let Some(s) = c.try_eval_scalar_int(self.tcx, env) {
                    let bits = s.to_bits(s.size());
                    match t.kind() {
                        ty::Bool => {
                            let _ = write!(out, ",\"v\":{}", bits != 0);
                        }
                        ty::Float(ty::FloatTy::F32) => {
                            let f = f32::from_bits(bits as u32);
                            let _ = write!(out, ",\"f\":{}", esc(&format!("{}", f)));
                        }
                        ty::Float(ty::FloatTy::F64) => {
                            let f = f64::from_bits(bits as u64);
                            let _ = write!(out, ",\"f\":{}", esc(&format!("{}", f)));
                        }
                        ty::Int(_) => {
                            let sz = s.size();
                            let v = sz.sign_extend(bits);
                            let _ = write!(out, ",\"v\":{}", v);
                        }
                        _ => {
                            let _ = write!(out, ",\"v\":{}", bits);
                        }
                    }
                }
            }
            _ => {
                let mut s = with_no_trimmed_paths!(format!("{}", c));
                if let Const::Val(rustc_middle::mir::ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(ptr, _)), _) = c {
                    if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = self.tcx.global_alloc(ptr.provenance.alloc_id()) {
                        s = format!("static {}", self.path(d));
                    }
                }
                let _ = write!(out, ",\"d\":{}", esc(&s));
                if matches!(t.kind(), ty::Adt(..)) {
                    if let Some(s) = c.try_eval_scalar_int(self.tcx, env) {
                        let _ = write!(out, ",\"bits\":{}", s.to_bits(s.size()));
                    }
                }
            }
        }
        out.push('}');
        out
    }

    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut out = String::new();
        let p = self.path(d);
        let u = self.uid(d);
        let ga = self.gargs(a);
        let _ = write!(out, ",\"fn\":{},\"fnuid\":{},\"ga\":{}", esc(&p), esc(&u), ga);
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            let tp = self.path(tr);
            let _ = write!(out, ",\"trait\":{}", esc(&tp));
        }
        let a2 = self.tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, env, d, a2) {
            match inst.def {
                ty::InstanceKind::Virtual(..) => {
                    out.push_str(",\"virt\":true");
                }
                _ => {
                    let rd = inst.def_id();
                    let rp = self.path(rd);
                    let ru = self.uid(rd);
                    let rga = self.gargs(inst.args);
                    let kind = match inst.def {
                        ty::InstanceKind::Item(_) => "item",
                        ty::InstanceKind::Shim(_) => "shim",
                        _ => "other",
                    };
                    let _ = write!(
                        out,
                        ",\"r\":{},\"ruid\":{},\"rga\":{},\"rk\":\"{}\",\"local\":{}",
                        esc(&rp),
                        esc(&ru),
                        rga,
                        kind,
                        rd.is_local()
                    );
                }
            }
        }
        out
    }

    fn place(&mut self, p: &Place<'tcx>, b: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut proj = vec![];
        let mut pty = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let (name, owner) = match pty.ty.kind() {
                        ty::Adt(ad, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if ad.is_enum() || ad.is_struct() || ad.is_union() {
                                (ad.variant(v).fields[f].name.to_string(), self.path(ad.did()))
                            } else {
                                (format!("{}", f.as_usize()), String::new())
                            }
                        }
                        ty::Closure(..) => (format!("{}", f.as_usize()), "closure".to_string()),
                        _ => (format!("{}", f.as_usize()), String::new()),
                    };
                    format!("[\"f\",{},{},{}]", esc(&name), esc(&owner), f.as_usize())
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => {
                    let nm = match pty.ty.kind() {
                        ty::Adt(ad, _) if ad.is_enum() => ad.variant(v).name.to_string(),
                        _ => n.map(|s| s.to_string()).unwrap_or_default(),
                    };
                    format!("[\"d\",{},{}]", esc(&nm), v.as_usize())
                }
                _ => "[\"?\"]".to_string(),
            };
            proj.push(s);
            pty = pty.projection_ty(tcx, e);
        }
        let t = self.ty(pty.ty);
        format!("{{\"l\":{},\"p\":{},\"t\":{}}}", p.local.as_usize(), arr(proj), t)
    }

    fn operand(&mut self, o: &Operand<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"pl\":{}}}", self.place(p, b)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"pl\":{}}}", self.place(p, b)),
            Operand::Constant(c) => self.konst(&c.const_, env),
            Operand::RuntimeChecks(_) => {
                let t = self.ty(self.tcx.types.bool);
                format!("{{\"o\":\"const\",\"t\":{},\"v\":false,\"rtcheck\":true}}", t)
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"k\":\"use\",\"a\":{}}}", self.operand(o, b, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1);
                format!("{{\"k\":\"repeat\",\"a\":{},\"n\":{}}}", self.operand(o, b, env), n)
            }
            Rvalue::Ref(_, k, p) => {
                let k = match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                    #[allow(unreachable_patterns)]
                    _ => "other",
                };
                format!("{{\"k\":\"ref\",\"bk\":\"{}\",\"pl\":{}}}", k, self.place(p, b))
            }
            Rvalue::ThreadLocalRef(d) => format!("{{\"k\":\"tls\",\"d\":{}}}", esc(&self.path(*d))),
            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"ref\",\"bk\":\"raw\",\"pl\":{}}}", self.place(p, b)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!(
                    "{{\"k\":\"cast\",\"ck\":{},\"a\":{},\"t\":{}}}",
                    esc(&format!("{:?}", k)),
                    self.operand(o, b, env),
                    ti
                )
            }
            Rvalue::BinaryOp(op, ab) => format!(
                "{{\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}",
                op,
                self.operand(&ab.0, b, env),
                self.operand(&ab.1, b, env)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("{{\"k\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", op, self.operand(a, b, env))
            }
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"pl\":{}}}", self.place(p, b)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.operand(x, b, env)).collect();
                let head = match &**k {
                    AggregateKind::Array(_) => "\"ak\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"ak\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let ad = self.tcx.adt_def(*d);
                        let var = ad.variant(*v);
                        let names: Vec<String> = match active {
                            Some(f) => vec![esc(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        format!(
                            "\"ak\":\"adt\",\"p\":{},\"vi\":{},\"vn\":{},\"fn\":{},\"enum\":{}",
                            esc(&self.path(*d)),
                            v.as_usize(),
                            esc(var.name.as_str()),
                            arr(names),
                            ad.is_enum()
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("\"ak\":\"closure\",\"u\":{}", esc(&self.uid(*d)))
                    }
                    _ => "\"ak\":\"other\"".to_string(),
                };
                format!("{{\"k\":\"agg\",{},\"ops\":{}}}", head, arr(o))
            }
            Rvalue::CopyForDeref(p) => {
                format!("{{\"k\":\"use\",\"a\":{{\"o\":\"copy\",\"pl\":{}}}}}", self.place(p, b))
            }
            _ => format!("{{\"k\":\"other\",\"d\":{}}}", esc(&format!("{:?}", r))),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in b.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let n = names.get(&l.as_usize()).map(|s| esc(s)).unwrap_or("null".into());
            locals.push(format!("[{},{}]", t, n));
        }
        let mut blocks = vec![];
        for (_bb, data) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &data.statements {
                let line = self.loc(s.source_info.span).1;
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(&pr.0, b);
                        let r = self.rvalue(&pr.1, b, env);
                        st.push(format!("[\"=\",{},{},{}]", p, r, line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, b);
                        st.push(format!("[\"sd\",{},{},{}]", p, variant_index.as_usize(), line));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(format!("[\"dead\",{}]", l.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[\"intr\",{}]", esc(&format!("{:?}", i))));
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let (file, line) = self.loc(t.source_info.span);
            let _ = file;
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, b, env);
                    let tt = discr.ty(&b.local_decls, self.tcx);
                    let ti = self.ty(tt);
                    let vs: Vec<String> =
                        targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_usize())).collect();
                    format!("[\"switch\",{},{},{},{},{}]", d, arr(vs), targets.otherwise().as_usize(), ti, line)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let p = self.place(place, b);
                    let u = match unwind {
                        UnwindAction::Cleanup(c) => c.as_usize() as i64,
                        _ => -1,
                    };
                    format!("[\"drop\",{},{},{},{}]", p, target.as_usize(), line, u)
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func, b, env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, b, env)).collect();
                    let d = self.place(destination, b);
                    let t = target.map(|t| t.as_usize() as i64).unwrap_or(-1);
                    let u = match unwind {
                        UnwindAction::Cleanup(c) => c.as_usize() as i64,
                        _ => -1,
                    };
                    format!("[\"call\",{},{},{},{},{},{}]", f, arr(a), d, t, line, u)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, b, env);
                    let m = format!("{:?}", msg);
                    let m = m.split('(').next().unwrap_or("").to_string();
                    format!("[\"assert\",{},{},{},{},{}]", c, expected, esc(&m), target.as_usize(), line)
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                k => format!("[\"other\",{}]", esc(&format!("{:?}", k))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", arr(st), tj, data.is_cleanup));
        }
        format!("\"argc\":{},\"locals\":{},\"blocks\":{}", b.arg_count, arr(locals), arr(blocks))
    }

    fn run(&mut self, out_path: &str) {
        let tcx = self.tcx;
        let mut fns = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let is_const = matches!(kind, DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. });
            if !is_fn && !is_const {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, d);
            let body = if is_const { tcx.mir_for_ctfe(d) } else { tcx.optimized_mir(d) };
            let (file, line) = self.loc(tcx.def_span(d));
            let mut o = format!(
                "{{\"uid\":{},\"path\":{},\"kind\":{},\"file\":{},\"line\":{}",
                esc(&self.uid(d)),
                esc(&self.path(d)),
                esc(match kind {
                    DefKind::Fn => "fn",
                    DefKind::AssocFn => "assoc",
                    DefKind::Closure => "closure",
                    _ => "const",
                }),
                esc(&file),
                line
            );
            if !matches!(kind, DefKind::Closure) && is_fn {
                let vis = tcx.visibility(d).is_public();
                let eff = tcx.effective_visibilities(()).is_reachable(*ld);
                let _ = write!(o, ",\"name\":{},\"pub\":{},\"reach\":{}", esc(tcx.item_name(d).as_str()), vis, eff);
                let unsafe_fn = tcx.fn_sig(d).skip_binder().skip_binder().safety().is_unsafe();
                let _ = write!(o, ",\"unsafe\":{}", unsafe_fn);
            }
            if let Some(imp) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let st = self.ty(st);
                let _ = write!(o, ",\"self\":{}", st);
                if tcx.impl_is_of_trait(imp) {
                    let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr.def_id)));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(o, ",\"intrait\":{}", esc(&self.path(tr)));
            }
            let g = tcx.generics_of(d);
            let mut gn = vec![];
            let mut gs = vec![g];
            let mut cur = g;
            while let Some(p) = cur.parent {
                cur = tcx.generics_of(p);
                gs.push(cur);
            }
            for gg in gs.iter().rev() {
                for p in &gg.own_params {
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        gn.push(esc(p.name.as_str()));
                    }
                }
            }
            let _ = write!(o, ",\"generics\":{},", arr(gn));
            o.push_str(&self.body(body, env));
            // promoted constants
            let prom = tcx.promoted_mir(d);
            let mut pv = vec![];
            for pb in prom.iter() {
                pv.push(format!("{{{}}}", self.body(pb, env)));
            }
            let _ = write!(o, ",\"promoted\":{}}}", arr(pv));
            fns.push(o);
        }
        // ADTs, traits, impls, consts, unsafe
        let mut adts = vec![];
        let mut impls = vec![];
        let mut consts = vec![];
        let mut traits = vec![];
        let mut unsafes = vec![];
        let mut statics = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(d);
                    let mut vs = vec![];
                    for v in ad.variants().iter() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let t = self.ty(t);
                            fs.push(format!(
                                "[{},{},{}]",
                                esc(f.name.as_str()),
                                t,
                                tcx.visibility(f.did).is_public()
                            ));
                        }
                        let disc = match v.discr {
                            ty::VariantDiscr::Relative(n) => n as i64,
                            ty::VariantDiscr::Explicit(_) => -1,
                        };
                        vs.push(format!("{{\"n\":{},\"f\":{},\"d\":{}}}", esc(v.name.as_str()), arr(fs), disc));
                    }
                    let mut discs = vec![];
                    if ad.is_enum() {
                        for (_, x) in ad.discriminants(tcx) {
                            discs.push(format!("{}", x.val));
                        }
                    }
                    let (file, line) = self.loc(tcx.def_span(d));
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let st = self.ty(st);
                    adts.push(format!(
                        "{{\"p\":{},\"uid\":{},\"enum\":{},\"v\":{},\"discs\":{},\"ty\":{},\"file\":{},\"line\":{},\"reach\":{}}}",
                        esc(&self.path(d)),
                        esc(&self.uid(d)),
                        ad.is_enum(),
                        arr(vs),
                        arr(discs),
                        st,
                        esc(&file),
                        line,
                        tcx.effective_visibilities(()).is_reachable(ld)
                    ));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let sti = self.ty(st);
                    let mut o = format!("{{\"uid\":{},\"self\":{}", esc(&self.uid(d)), sti);
                    if tcx.impl_is_of_trait(d) {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr.def_id)));
                        let s = with_no_trimmed_paths!(format!("{}", tr));
                        let _ = write!(o, ",\"ref\":{}", esc(&s));
                        let safe = tcx.impl_trait_header(d).safety.is_unsafe();
                        // the compiler's own derive(Clone) marker is not user-written unsafe code
                        if safe && !self.path(tr.def_id).ends_with("clone::TrivialClone") {
                            let (f, l) = self.loc(tcx.def_span(d));
                            unsafes.push(format!("[\"impl\",{},{},{}]", esc(&s), esc(&f), l));
                        }
                    }
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        let ti = it.trait_item_def_id().map(|x| esc(&self.uid(x))).unwrap_or("null".into());
                        items.push(format!("[{},{},{}]", esc(it.name().as_str()), esc(&self.uid(it.def_id)), ti));
                    }
                    let _ = write!(o, ",\"items\":{}}}", arr(items));
                    impls.push(o);
                }
                DefKind::Trait => {
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        let has = it.defaultness(tcx).has_value();
                        items.push(format!("[{},{},{}]", esc(it.name().as_str()), esc(&self.uid(it.def_id)), has));
                    }
                    traits.push(format!(
                        "{{\"p\":{},\"uid\":{},\"items\":{},\"reach\":{}}}",
                        esc(&self.path(d)),
                        esc(&self.uid(d)),
                        arr(items),
                        tcx.effective_visibilities(()).is_reachable(ld)
                    ));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    if tcx.generics_of(d).is_empty() || true {
                        let env = TypingEnv::post_analysis(tcx, d);
                        let c = Const::from_unevaluated(tcx, d).instantiate_identity().skip_norm_wip();
                        let has_value = tcx.is_mir_available(d) || tcx.hir_node_by_def_id(ld).body_id().is_some();
                        if has_value && !tcx.generics_of(d).requires_monomorphization(tcx) {
                            let k = self.konst(&c, env);
                            let (file, line) = self.loc(tcx.def_span(d));
                            consts.push(format!(
                                "{{\"p\":{},\"uid\":{},\"c\":{},\"file\":{},\"line\":{}}}",
                                esc(&self.path(d)),
                                esc(&self.uid(d)),
                                k,
                                esc(&file),
                                line
                            ));
                        }
                    }
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(t);
                    let (file, line) = self.loc(tcx.def_span(d));
                    statics.push(format!(
                        "{{\"p\":{},\"uid\":{},\"t\":{},\"mut\":{},\"file\":{},\"line\":{}}}",
                        esc(&self.path(d)),
                        esc(&self.uid(d)),
                        ti,
                        tcx.is_mutable_static(d),
                        esc(&file),
                        line
                    ));
                }
                DefKind::ForeignMod => {
                    let (f, l) = self.loc(tcx.def_span(d));
                    unsafes.push(format!("[\"extern\",{},{},{}]", esc(&self.uid(d)), esc(&f), l));
                }
                _ => {}
            }
        }
        // unsafe blocks / fns
        struct V<'a, 'tcx> {
            cx: &'a mut Cx<'tcx>,
            out: &'a mut Vec<String>,
            nblocks: usize,
        }
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                self.cx.tcx
            }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                self.nblocks += 1;
                if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
                    if matches!(src, rustc_hir::UnsafeSource::UserProvided) {
                        let owner = b.hir_id.owner.to_def_id();
                        let (f, l) = self.cx.loc(b.span);
                        let p = self.cx.path(owner);
                        let exp = b.span.from_expansion();
                        self.out.push(format!("[\"block\",{},{},{},{}]", esc(&p), esc(&f), l, exp));
                    }
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        let nblocks;
        {
            let mut us = vec![];
            let mut v = V { cx: self, out: &mut us, nblocks: 0 };
            tcx.hir_visit_all_item_likes_in_crate(&mut v);
            nblocks = v.nblocks;
            unsafes.extend(us);
        }
        let crate_name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        let s = format!(
            "{{\"crate\":{},\"fns\":{},\n\"adts\":{},\n\"impls\":{},\n\"traits\":{},\n\"consts\":{},\n\"statics\":{},\n\"unsafe\":{},\n\"hirblocks\":{},\n\"types\":{}}}",
            esc(crate_name.as_str()),
            format!("[{}]", fns.join(",\n")),
            arr(adts),
            arr(impls),
            arr(traits),
            arr(consts),
            arr(statics),
            arr(unsafes),
            nblocks,
            arr(self.types.clone())
        );
        let tmp = format!("{}.tmp{}", out_path, std::process::id());
        std::fs::write(&tmp, s).unwrap();
        std::fs::rename(&tmp, out_path).unwrap();
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(out) = std::env::var("B2FACTS_OUT") {
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
            let want = std::env::var("B2FACTS_CRATE").unwrap_or("box2d_rs".into());
            if name.as_str() == want {
                let mut cx = Cx { tcx, types: vec![], tyidx: HashMap::new() };
                cx.run(&out);
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    if std::env::var("B2FACTS_OUT").is_ok() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Coverflow-checks=off".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
