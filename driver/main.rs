// MIR extractor: dumps the type-checked, borrow-checked MIR of one crate as JSON, with resolved callees.
// It is a fact extractor only; every rule lives in /verif/sa (Python).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON helpers
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }
fn obj(v: Vec<(&str, String)>) -> String {
    format!("{{{}}}", v.into_iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","))
}

struct Cx<'tcx> { tcx: TyCtxt<'tcx>, types: Vec<String>, tmap: HashMap<String, usize>, adts: HashMap<DefId, String> }

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        // stable, unique path of a definition: def_path_str for readability plus the raw def path as tie-break
        let raw = self.tcx.def_path(d).to_string_no_crate_verbose();
        format!("{}{}", self.tcx.crate_name(d.krate), raw)
    }
    fn name(&self, d: DefId) -> String { self.tcx.def_path_str(d) }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        arr(vec![esc(&f), loc.line.to_string()])
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) { return; }
        self.adts.insert(d, String::new());
        let def = self.tcx.adt_def(d);
        let local = d.is_local();
        let mut vs = vec![];
        for v in def.variants().iter() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let ty = self.tcx.type_of(f.did).skip_binder();
                let t = if local { self.ty(ty) } else { "-1".into() };
                let vis = match f.vis { ty::Visibility::Public => "pub".to_string(), ty::Visibility::Restricted(m) => self.name(m.into()) };
                fs.push(obj(vec![("name", esc(f.name.as_str())), ("ty", t), ("vis", esc(&vis))]));
            }
            vs.push(obj(vec![("name", esc(v.name.as_str())), ("fields", arr(fs))]));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let s = obj(vec![("path", esc(&self.name(d))), ("local", local.to_string()), ("kind", esc(kind)), ("variants", arr(vs)), ("span", self.span(self.tcx.def_span(d)))]);
        self.adts.insert(d, s);
    }
    fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => { let s = format!("{:?}", c); v.push(self.intern(obj(vec![("k", esc("const")), ("s", esc(&s))]))); }
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(v)
    }
    fn intern(&mut self, s: String) -> String {
        if let Some(i) = self.tmap.get(&s) { return i.to_string(); }
        let i = self.types.len();
        self.tmap.insert(s.clone(), i);
        self.types.push(s);
        i.to_string()
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        let s = match t.kind() {
            ty::Bool => obj(vec![("k", esc("bool"))]),
            ty::Char => obj(vec![("k", esc("char"))]),
            ty::Int(i) => obj(vec![("k", esc("int")), ("name", esc(i.name_str()))]),
            ty::Uint(i) => obj(vec![("k", esc("uint")), ("name", esc(i.name_str()))]),
            ty::Float(i) => obj(vec![("k", esc("float")), ("name", esc(i.name_str()))]),
            ty::Str => obj(vec![("k", esc("str"))]),
            ty::Never => obj(vec![("k", esc("never"))]),
            ty::Adt(d, a) => {
                self.adt(d.did());
                let p = self.name(d.did());
                let a = self.gargs(a);
                obj(vec![("k", esc("adt")), ("path", esc(&p)), ("args", a)])
            }
            ty::Array(t, n) => { let n = format!("{:?}", n); let n2 = n.split(|c: char| !c.is_ascii_digit()).find(|x| !x.is_empty()).unwrap_or("-1").to_string(); let i = self.ty(*t); obj(vec![("k", esc("array")), ("t", i), ("n", n2)]) }
            ty::Slice(t) => { let i = self.ty(*t); obj(vec![("k", esc("slice")), ("t", i)]) }
            ty::RawPtr(t, _) => { let i = self.ty(*t); obj(vec![("k", esc("ptr")), ("t", i)]) }
            ty::Ref(_, t, m) => { let i = self.ty(*t); obj(vec![("k", esc("ref")), ("mut", m.is_mut().to_string()), ("t", i)]) }
            ty::Tuple(ts) => { let v = ts.iter().map(|t| self.ty(t)).collect(); obj(vec![("k", esc("tuple")), ("args", arr(v))]) }
            ty::Param(p) => obj(vec![("k", esc("param")), ("name", esc(p.name.as_str()))]),
            ty::Closure(d, _) => { let k = self.key(*d); obj(vec![("k", esc("closure")), ("key", esc(&k))]) }
            ty::FnDef(d, a) => { let k = self.key(*d); let p = self.name(*d); let a = self.gargs(a.skip_binder()); let p2 = esc(&p); obj(vec![("k", esc("fndef")), ("key", esc(&k)), ("path", p2), ("args", a)]) }
            _ => { let s = format!("{}", t); obj(vec![("k", esc("other")), ("s", esc(&s))]) }
        };
        self.intern(s)
    }
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut proj = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let o = match e {
                ProjectionElem::Deref => obj(vec![("k", esc("deref"))]),
                ProjectionElem::Field(i, t) => {
                    // field name when the base is an ADT
                    let nm = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            if d.is_enum() && pt.variant_index.is_none() { i.as_usize().to_string() }
                            else { d.variant(vi).fields[i].name.to_string() }
                        }
                        _ => i.as_usize().to_string(),
                    };
                    let tt = self.ty(t);
                    obj(vec![("k", esc("field")), ("i", i.as_usize().to_string()), ("n", esc(&nm)), ("t", tt)])
                }
                ProjectionElem::Index(l) => obj(vec![("k", esc("index")), ("l", l.as_usize().to_string())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => obj(vec![("k", esc("cindex")), ("o", offset.to_string()), ("fe", from_end.to_string())]),
                ProjectionElem::Subslice { from, to, from_end } => obj(vec![("k", esc("subslice")), ("from", from.to_string()), ("to", to.to_string()), ("fe", from_end.to_string())]),
                ProjectionElem::Downcast(_, v) => {
                    let nm = match pt.ty.kind() { ty::Adt(d, _) => d.variant(v).name.to_string(), _ => v.as_usize().to_string() };
                    obj(vec![("k", esc("downcast")), ("v", v.as_usize().to_string()), ("n", esc(&nm))])
                }
                _ => obj(vec![("k", esc("otherproj"))]),
            };
            proj.push(o);
            pt = pt.projection_ty(self.tcx, e);
        }
        let tt = self.ty(pt.ty);
        obj(vec![("l", p.local.as_usize().to_string()), ("p", arr(proj)), ("t", tt)])
    }
    fn fnref(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, owner: DefId) -> Vec<(&'static str, String)> {
        let tcx = self.tcx;
        let mut v = vec![("key", esc(&self.key(d))), ("path", esc(&self.name(d))), ("args", self.gargs(a)), ("name", esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str())), ("local", d.is_local().to_string())];
        let mut trait_ = None;
        if let Some(tr) = tcx.trait_of_assoc(d) { trait_ = Some(tr); v.push(("trait", esc(&self.name(tr)))); }
        else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).skip_binder();
            v.push(("implself", self.ty(st)));
            if tcx.impl_is_of_trait(im) { let tr = tcx.impl_trait_ref(im).skip_binder().def_id; v.push(("implof", esc(&self.name(tr)))); }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let env = ty::TypingEnv::post_analysis(tcx, owner);
            let a2 = tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, a2) {
                let rd = inst.def_id();
                v.push(("res", esc(&self.key(rd))));
                v.push(("respath", esc(&self.name(rd))));
                v.push(("reslocal", rd.is_local().to_string()));
                v.push(("resargs", self.gargs(inst.args)));
                let _ = trait_;
            }
        }
        v
    }
    fn alloc_str(&self, alloc_id: rustc_middle::mir::interpret::AllocId, len: usize) -> Option<String> {
        if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..len);
            return String::from_utf8(b.to_vec()).ok();
        }
        None
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, owner: DefId) -> String {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        let t = self.ty(ty);
        let mut v = vec![("k", esc("const")), ("t", t)];
        if let ty::FnDef(d, a) = ty.kind() {
            let f = self.fnref(*d, a.skip_binder(), owner);
            v.push(("fn", obj(f)));
            return obj(v);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                v.push(("promoted", p.as_usize().to_string()));
                v.push(("powner", esc(&self.key(u.def))));
            } else {
                v.push(("cpath", esc(&self.name(u.def))));
                v.push(("ckey", esc(&self.key(u.def))));
            }
        }
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        let generic = matches!(c.const_, Const::Unevaluated(u, _) if u.args.iter().any(|a| matches!(a.kind(), GenericArgKind::Type(t) if rustc_middle::ty::TypeVisitableExt::has_param(&t)))) ;
        if !generic {
            if let Ok(val) = c.const_.eval(tcx, env, c.span) {
                match val {
                    ConstValue::Scalar(s) => {
                        if let Some(i) = s.try_to_scalar_int().ok() {
                            v.push(("bits", esc(&i.to_bits_unchecked().to_string())));
                            v.push(("size", i.size().bytes().to_string()));
                        } else if let interpret::Scalar::Ptr(p, _) = s {
                            let aid = p.provenance.alloc_id();
                            match tcx.global_alloc(aid) {
                                GlobalAlloc::Static(d) => v.push(("static", esc(&self.key(d)))),
                                GlobalAlloc::Function { instance } => v.push(("fnptr", esc(&self.key(instance.def_id())))),
                                _ => v.push(("ptr", "true".into())),
                            }
                        }
                    }
                    ConstValue::ZeroSized => v.push(("zst", "true".into())),
                    ConstValue::Slice { alloc_id, meta } => {
                        if let ty::Ref(_, inner, _) = ty.kind() {
                            if inner.is_str() { if let Some(s) = self.alloc_str(alloc_id, meta as usize) { v.push(("str", esc(&s))); } }
                        }
                    }
                    ConstValue::Indirect { .. } => {}
                }
            }
        }
        obj(v)
    }
    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, owner: DefId) -> String {
        match o {
            Operand::Copy(p) => { let p = self.place(p, body); obj(vec![("k", esc("copy")), ("p", p)]) }
            Operand::Move(p) => { let p = self.place(p, body); obj(vec![("k", esc("move")), ("p", p)]) }
            Operand::Constant(c) => self.konst(c, owner),
            Operand::RuntimeChecks(_) => obj(vec![("k", esc("rtcheck"))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, owner: DefId) -> String {
        match r {
            Rvalue::Use(o, ..) => { let o = self.operand(o, body, owner); obj(vec![("k", esc("use")), ("o", o)]) }
            Rvalue::Repeat(o, n) => { let o = self.operand(o, body, owner); let n = format!("{:?}", n); let n2 = n.split(|c: char| !c.is_ascii_digit()).find(|x| !x.is_empty()).unwrap_or("-1").to_string(); obj(vec![("k", esc("repeat")), ("o", o), ("n", n2)]) }
            Rvalue::Ref(_, bk, p) => { let m = matches!(bk, BorrowKind::Mut { .. }); let p = self.place(p, body); obj(vec![("k", esc("ref")), ("mut", m.to_string()), ("p", p)]) }
            Rvalue::RawPtr(_, p) => { let p = self.place(p, body); obj(vec![("k", esc("rawptr")), ("p", p)]) }
            Rvalue::Reborrow(_, m, p) => { let m = m.is_mut(); let p = self.place(p, body); obj(vec![("k", esc("ref")), ("mut", m.to_string()), ("p", p)]) }
            Rvalue::CopyForDeref(p) => { let p = self.place(p, body); let o = obj(vec![("k", esc("copy")), ("p", p)]); obj(vec![("k", esc("use")), ("o", o)]) }
            Rvalue::Cast(k, o, t) => { let o = self.operand(o, body, owner); let t = self.ty(*t); obj(vec![("k", esc("cast")), ("ck", esc(&format!("{:?}", k))), ("o", o), ("t", t)]) }
            Rvalue::BinaryOp(op, b) => { let x = self.operand(&b.0, body, owner); let y = self.operand(&b.1, body, owner); obj(vec![("k", esc("bin")), ("op", esc(&format!("{:?}", op))), ("a", x), ("b", y)]) }
            Rvalue::UnaryOp(op, o) => { let o = self.operand(o, body, owner); obj(vec![("k", esc("un")), ("op", esc(&format!("{:?}", op))), ("o", o)]) }
            Rvalue::Discriminant(p) => { let p = self.place(p, body); obj(vec![("k", esc("discr")), ("p", p)]) }
            Rvalue::Aggregate(k, ops) => {
                let os = ops.iter().map(|o| self.operand(o, body, owner)).collect();
                let mut v = vec![("k", esc("agg")), ("ops", arr(os))];
                match &**k {
                    AggregateKind::Array(_) => v.push(("ak", esc("array"))),
                    AggregateKind::Tuple => v.push(("ak", esc("tuple"))),
                    AggregateKind::Adt(d, vi, a, _, _) => {
                        self.adt(*d);
                        let def = self.tcx.adt_def(*d);
                        v.push(("ak", esc("adt")));
                        v.push(("path", esc(&self.name(*d))));
                        v.push(("v", vi.as_usize().to_string()));
                        v.push(("vn", esc(def.variant(*vi).name.as_str())));
                        let fs = def.variant(*vi).fields.iter().map(|f| esc(f.name.as_str())).collect();
                        v.push(("fields", arr(fs)));
                        let a = self.gargs(a);
                        v.push(("args", a));
                    }
                    AggregateKind::Closure(d, _) => { v.push(("ak", esc("closure"))); v.push(("key", esc(&self.key(*d)))); }
                    other => v.push(("ak", esc(&format!("{:?}", other)))),
                }
                obj(v)
            }
            other => obj(vec![("k", esc("other")), ("s", esc(&format!("{:?}", other)))]),
        }
    }
    fn body(&mut self, body: &Body<'tcx>, owner: DefId) -> String {
        let mut locals = vec![];
        for l in body.local_decls.iter() { locals.push(self.ty(l.ty)); }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                let p = self.place(&p, body);
                names.push(obj(vec![("n", esc(v.name.as_str())), ("p", p)]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => { let p = self.place(&b.0, body); let r = self.rvalue(&b.1, body, owner); st.push(obj(vec![("k", esc("assign")), ("p", p), ("r", r), ("s", sp)])); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place, body); st.push(obj(vec![("k", esc("setdiscr")), ("p", p), ("v", variant_index.as_usize().to_string()), ("s", sp)])); }
                    StatementKind::Intrinsic(i) => st.push(obj(vec![("k", esc("intrinsic")), ("d", esc(&format!("{:?}", i))), ("s", sp)])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let mut v = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("k", esc("goto")), ("t", target.as_usize().to_string())],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr, body, owner);
                    let ts = targets.iter().map(|(v, b)| arr(vec![esc(&v.to_string()), b.as_usize().to_string()])).collect();
                    let dt = discr.ty(&body.local_decls, self.tcx); let dt = self.ty(dt);
                    vec![("k", esc("switch")), ("o", o), ("ts", arr(ts)), ("ot", targets.otherwise().as_usize().to_string()), ("ty", dt)]
                }
                TerminatorKind::Return => vec![("k", esc("return"))],
                TerminatorKind::Unreachable => vec![("k", esc("unreachable"))],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![("k", esc("resume"))],
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place, body); vec![("k", esc("drop")), ("p", p), ("t", target.as_usize().to_string())] }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(func, body, owner);
                    let a = args.iter().map(|a| self.operand(&a.node, body, owner)).collect();
                    let d = self.place(destination, body);
                    let fs = self.span(*fn_span);
                    vec![("k", esc("call")), ("f", f), ("a", arr(a)), ("d", d), ("t", target.map(|t| t.as_usize() as i64).unwrap_or(-1).to_string()), ("fs", fs)]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, body, owner);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "divzero".to_string(),
                        AssertKind::RemainderByZero(_) => "remzero".to_string(),
                        _ => "other".to_string(),
                    };
                    vec![("k", esc("assert")), ("c", c), ("e", expected.to_string()), ("m", esc(&m)), ("t", target.as_usize().to_string())]
                }
                other => vec![("k", esc("other")), ("d", esc(&format!("{:?}", other)))],
            };
            v.push(("s", sp));
            let cl = bb.is_cleanup;
            blocks.push(obj(vec![("st", arr(st)), ("t", obj(v)), ("c", cl.to_string())]));
        }
        obj(vec![("argc", body.arg_count.to_string()), ("locals", arr(locals)), ("names", arr(names)), ("blocks", arr(blocks))])
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.ub_checks = Some(false);
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new(), adts: HashMap::new() };
        let ev = tcx.effective_visibilities(());
        let mut fns = vec![];
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|d| tcx.def_span(d.to_def_id()).lo());
        for ld in keys {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let is_const = matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst);
            if !is_fn && !is_const { continue; }
            let mut v = vec![("key", esc(&cx.key(d))), ("path", esc(&cx.name(d))), ("kind", esc(&format!("{:?}", kind))), ("span", cx.span(tcx.def_span(d)))];
            let body = if is_fn { tcx.optimized_mir(d) } else { tcx.mir_for_ctfe(d) };
            let b = cx.body(body, d);
            v.push(("body", b));
            let proms = tcx.promoted_mir(d);
            let mut ps = vec![];
            for p in proms.iter() { ps.push(cx.body(p, d)); }
            v.push(("promoted", arr(ps)));
            v.push(("reachable", ev.is_reachable(ld).to_string()));
            v.push(("exported", ev.is_exported(ld).to_string()));
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(d).skip_binder().skip_binder();
                let ins = sig.inputs().iter().map(|t| cx.ty(*t)).collect();
                v.push(("inputs", arr(ins)));
                let o = cx.ty(sig.output());
                v.push(("output", o));
                v.push(("unsafe", (!sig.safety().is_safe()).to_string()));
                v.push(("vispub", tcx.visibility(d).is_public().to_string()));
                let gens = tcx.generics_of(d);
                let _ = gens;
                if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).skip_binder();
                    v.push(("implself", cx.ty(st)));
                    v.push(("derived", tcx.is_automatically_derived(im).to_string()));
                    if tcx.impl_is_of_trait(im) {
                        let tr = tcx.impl_trait_ref(im).skip_binder();
                        v.push(("trait", esc(&cx.name(tr.def_id))));
                        v.push(("traitargs", cx.gargs(tr.args)));
                    }
                } else if let Some(tr) = tcx.trait_of_assoc(d) {
                    v.push(("traitdefault", esc(&cx.name(tr))));
                }
                v.push(("name", esc(tcx.item_name(d).as_str())));
            }
            if let DefKind::Closure = kind { v.push(("parent", esc(&cx.key(tcx.typeck_root_def_id(d))))); }
            if let DefKind::Static { mutability, .. } = kind {
                let t = tcx.type_of(d).skip_binder();
                v.push(("staticmut", mutability.is_mut().to_string()));
                v.push(("sty", cx.ty(t)));
                let env = ty::TypingEnv::post_analysis(tcx, d);
                v.push(("freeze", t.is_freeze(tcx, env).to_string()));
            }
            fns.push(obj(v));
        }
        // local ADTs, even if unused in bodies; inherent info about fields
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) { cx.adt(d); }
        }
        let adts: Vec<String> = { let mut v: Vec<_> = cx.adts.values().cloned().collect(); v.sort(); v };
        let errs = tcx.dcx().has_errors().is_some();
        let out = obj(vec![("crate", esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())), ("errors", errs.to_string()), ("fns", arr(fns)), ("types", arr(cx.types.clone())), ("adts", arr(adts))]);
        let path = std::env::var("KAMI_SA_OUT").expect("KAMI_SA_OUT");
        std::fs::write(&path, out).expect("write");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let target = std::env::var("KAMI_SA_CRATE").unwrap_or_else(|_| "kami".into());
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target) && !args.iter().any(|a| a == "--test");
    rustc_driver::catch_with_exit_code(move || {
        if is_target { rustc_driver::compiler_entrypoint(&args, &mut Cb) } else { rustc_driver::compiler_entrypoint(&args, &mut Plain) }
    })
}
