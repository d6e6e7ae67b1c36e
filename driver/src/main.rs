#![feature(rustc_private)]
//! Dumps a crate's type-checked program for the analyser: the MIR each body
//! is built to (before borrow checking, drop elaboration and the coroutine
//! transform), instantiated for every concrete use reachable from the
//! crate's own non-generic functions, with callees resolved; plus the
//! definitions of its types with the derive-helper attributes on them.
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_attr_ir;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};

use rustc_ast::attr::AttributeExt;
use rustc_data_structures::steal::Steal;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use serde_json::{json, Map, Value};

thread_local! {
    static BODIES: RefCell<HashMap<LocalDefId, mir::Body<'static>>> = RefCell::new(HashMap::new());
}

static mut ORIG: Option<for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<mir::Body<'tcx>>> = None;

fn capture<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<mir::Body<'tcx>> {
    #[allow(static_mut_refs)]
    let orig = unsafe { ORIG.unwrap() };
    let r = orig(tcx, def);
    let body: mir::Body<'tcx> = r.borrow().clone();
    let body: mir::Body<'static> = unsafe { std::mem::transmute(body) };
    BODIES.with(|b| b.borrow_mut().insert(def, body));
    r
}

struct Dump {
    out: String,
}

impl rustc_driver::Callbacks for Dump {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, providers| unsafe {
            ORIG = Some(providers.queries.mir_built);
            providers.queries.mir_built = capture;
        });
    }

    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let v = dump(tcx);
        std::fs::write(&self.out, serde_json::to_string(&v).unwrap()).unwrap();
        Compilation::Stop
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<Value>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_out: Vec<Value>,
    queue: VecDeque<(usize, Instance<'tcx>)>,
    adts: HashMap<DefId, ()>,
    adt_out: Map<String, Value>,
}

/// Modules of `core` whose functions are dumped too: plumbing of `?`,
/// `Option`, `Result`, conversions and comparisons that must be seen through.
const INLINE: &[&str] = &[
    "::option::", "::result::", "::convert::", "::ops::try_trait::", "::ops::control_flow::",
    "::ops::function::", "::bool::", "::cmp::",
];

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_visible_paths!(ty::print::with_resolve_crate_name!(
        ty::print::with_no_trimmed_paths!(tcx.def_path_str(d))
    ))
}

fn tystr<'tcx>(t: impl std::fmt::Display) -> String {
    ty::print::with_no_visible_paths!(ty::print::with_resolve_crate_name!(
        ty::print::with_no_trimmed_paths!(format!("{}", t))
    ))
}

impl<'tcx> Cx<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }

    fn span(&self, s: Span) -> Value {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_default(),
            _ => String::new(),
        };
        json!(format!("{}:{}", f, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(Value::Null);
        let mut o = Map::new();
        o.insert("s".into(), json!(tystr(t)));
        let k = match t.kind() {
            ty::Adt(d, args) => {
                o.insert("path".into(), json!(path(self.tcx, d.did())));
                let a: Vec<usize> = args.types().map(|x| self.ty(x)).collect();
                o.insert("args".into(), json!(a));
                self.adt(d.did());
                if d.is_box() { "box" } else if d.is_enum() { "enum" } else { "struct" }
            }
            ty::Ref(_, x, m) => {
                let x = self.ty(*x);
                o.insert("to".into(), json!(x));
                o.insert("mut".into(), json!(m.is_mut()));
                "ref"
            }
            ty::RawPtr(x, _) => {
                let x = self.ty(*x);
                o.insert("to".into(), json!(x));
                "ptr"
            }
            ty::Tuple(ts) => {
                let a: Vec<usize> = ts.iter().map(|x| self.ty(x)).collect();
                o.insert("args".into(), json!(a));
                "tuple"
            }
            ty::Slice(x) => { let x = self.ty(*x); o.insert("to".into(), json!(x)); "slice" }
            ty::Array(x, n) => {
                let x = self.ty(*x);
                o.insert("to".into(), json!(x));
                if let Some(n) = n.try_to_target_usize(self.tcx) { o.insert("len".into(), json!(n)); }
                "array"
            }
            ty::FnDef(d, _) => { o.insert("path".into(), json!(path(self.tcx, *d))); "fndef" }
            ty::Closure(d, args) => {
                o.insert("path".into(), json!(path(self.tcx, *d)));
                let inst = Instance::new_raw(*d, args);
                let ii = self.inst(inst);
                o.insert("inst".into(), json!(ii));
                o.insert("upvars".into(), json!(args.as_closure().upvar_tys().len()));
                "closure"
            }
            ty::Coroutine(d, args) => {
                o.insert("path".into(), json!(path(self.tcx, *d)));
                let inst = Instance::new_raw(*d, args);
                let ii = self.inst(inst);
                o.insert("inst".into(), json!(ii));
                "coroutine"
            }
            ty::Str => "str",
            ty::Bool => "bool",
            ty::Char => "char",
            ty::Int(_) | ty::Uint(_) => "int",
            ty::Dynamic(p, ..) => {
                if let Some(d) = p.principal_def_id() { o.insert("path".into(), json!(path(self.tcx, d))); }
                "dyn"
            }
            ty::Param(_) => "param",
            ty::Never => "never",
            ty::Error(_) => "error",
            _ => "other",
        };
        o.insert("k".into(), json!(k));
        self.ty_out[i] = Value::Object(o);
        i
    }

    fn attrs(&self, d: DefId) -> Value {
        let mut out = vec![];
        let attrs = if let Some(l) = d.as_local() {
            self.tcx.hir_attrs(self.tcx.local_def_id_to_hir_id(l))
        } else {
            return json!([]);
        };
        for a in attrs {
            if let rustc_attr_ir::Attribute::DeriveHelper(item) | rustc_attr_ir::Attribute::Tool(item) = a {
                let name: Vec<String> = item.path.segments.iter().map(|s| s.to_string()).collect();
                let list = a.meta_item_list();
                let items: Vec<Value> = list.iter().flatten().map(|m| meta(m)).collect();
                out.push(json!([name.join("::"), items]));
            }
        }
        json!(out)
    }

    fn adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_some() { return; }
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity();
                fs.push(json!({"name": f.name.to_string(), "ty": format!("{}", tystr(t.skip_norm_wip())), "attrs": self.attrs(f.did),
                    "vis": if f.vis.is_public() {"pub"} else {"priv"}}));
            }
            let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
            vs.push(json!({"name": v.name.to_string(), "discr": discr, "fields": fs, "attrs": self.attrs(v.def_id),
                "ctor": format!("{:?}", v.ctor_kind())}));
        }
        let p = path(tcx, d);
        self.adt_out.insert(p, json!({"kind": if def.is_enum() {"enum"} else {"struct"}, "variants": vs,
            "attrs": self.attrs(d), "local": d.is_local(), "vis": if d.is_local() && tcx.visibility(d).is_public() {"pub"} else {"priv"},
            "span": self.span(tcx.def_span(d))}));
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.insts.get(&i) { return *x; }
        let id = self.inst_out.len();
        self.insts.insert(i, id);
        self.inst_out.push(Value::Null);
        self.queue.push_back((id, i));
        id
    }

    fn drain(&mut self) {
        while let Some((id, i)) = self.queue.pop_front() {
            let v = self.one(i);
            self.inst_out[id] = v;
        }
    }

    fn one(&mut self, i: Instance<'tcx>) -> Value {
        let tcx = self.tcx;
        let d = i.def_id();
        let mut o = Map::new();
        o.insert("path".into(), json!(path(tcx, d)));
        let a: Vec<usize> = i.args.types().map(|x| self.ty(x)).collect();
        o.insert("args".into(), json!(a));
        o.insert("local".into(), json!(d.is_local()));
        let kind = match i.def {
            InstanceKind::Item(_) => match tcx.def_kind(d) {
                DefKind::Ctor(..) => "ctor",
                DefKind::Closure => if tcx.is_coroutine(d) { "coroutine" } else { "closure" },
                _ => "fn",
            },
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Intrinsic(..) => "intrinsic",
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closureonce",
            InstanceKind::Shim(ty::ShimKind::Clone(..)) => "cloneshim",
            InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "dropglue",
            _ => "shim",
        };
        o.insert("kind".into(), json!(kind));
        if kind == "ctor" {
            let parent = tcx.parent(d);
            let (adt, variant) = match tcx.def_kind(parent) {
                DefKind::Variant => (tcx.parent(parent), tcx.item_name(parent).to_string()),
                _ => (parent, tcx.item_name(parent).to_string()),
            };
            o.insert("adt".into(), json!(path(tcx, adt)));
            o.insert("variant".into(), json!(variant));
            self.adt(adt);
        }
        if let Some(l) = d.as_local() {
            o.insert("span".into(), self.span(tcx.def_span(d)));
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                o.insert("vis".into(), json!(if tcx.effective_visibilities(()).is_exported(l) { "pub" } else { "priv" }));
                o.insert("name".into(), json!(tcx.item_name(d).to_string()));
            }
        }
        if matches!(tcx.def_kind(d), DefKind::AssocFn) {
            let parent = tcx.parent(d);
            o.insert("name".into(), json!(tcx.item_name(d).to_string()));
            if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                let st = tcx.type_of(parent).instantiate(tcx, i.args.truncate_to(tcx, tcx.generics_of(parent)));
                o.insert("self".into(), json!(tystr(st.skip_norm_wip())));
                if of_trait {
                    o.insert("trait".into(), json!(path(tcx, tcx.impl_trait_ref(parent).skip_binder().def_id)));
                    if tcx.is_builtin_derived(parent) { o.insert("derived".into(), json!(true)); }
                }
            } else if let DefKind::Trait = tcx.def_kind(parent) {
                o.insert("trait".into(), json!(path(tcx, parent)));
                if i.args.len() > 0 { if let Some(t) = i.args.types().next() { o.insert("self".into(), json!(tystr(t))); } }
            }
        }
        let body: Option<mir::Body<'tcx>> = if !matches!(i.def, InstanceKind::Item(_)) || kind == "ctor" {
            None
        } else if let Some(l) = d.as_local() {
            let b = BODIES.with(|b| b.borrow().get(&l).cloned());
            let b: Option<mir::Body<'tcx>> = unsafe { std::mem::transmute(b) };
            match b {
                Some(b) if b.tainted_by_errors.is_none() => Some(b),
                Some(_) => { o.insert("tainted".into(), json!(true)); None }
                None => None,
            }
        } else {
            let p = tcx.def_path(d).to_string_no_crate_verbose();
            let inline = tcx.crate_name(d.krate) == rustc_span::sym::core && INLINE.iter().any(|x| p.starts_with(x));
            if inline && tcx.is_mir_available(d) && !tcx.is_intrinsic(d, rustc_span::sym::abort) {
                Some(tcx.instance_mir(i.def).clone())
            } else { None }
        };
        if let Some(b) = body {
            let b = i.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), EarlyBinder::bind(tcx, b));
            match b {
                Ok(b) => { let v = self.body(&b); o.insert("body".into(), v); }
                Err(_) => { o.insert("tainted".into(), json!(true)); }
            }
        }
        Value::Object(o)
    }

    fn body(&mut self, b: &mir::Body<'tcx>) -> Value {
        let mut names = Map::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize().to_string(), json!(v.name.to_string()));
                }
            }
        }
        let locals: Vec<usize> = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup { blocks.push(json!(null)); continue; }
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(b, &x.0);
                        let r = self.rvalue(b, &x.1);
                        ss.push(json!(["=", p, r, self.span(s.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(b, self.tcx).ty;
                        let v = variant_name(t, *variant_index);
                        ss.push(json!(["setd", self.place(b, place), v]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tv = match &t.kind {
                TerminatorKind::Goto { target, .. } => json!(["goto", target.as_usize()]),
                TerminatorKind::FalseEdge { real_target, .. } => json!(["goto", real_target.as_usize()]),
                TerminatorKind::FalseUnwind { real_target, .. } => json!(["goto", real_target.as_usize()]),
                TerminatorKind::Drop { target, .. } => json!(["goto", target.as_usize()]),
                TerminatorKind::Return => json!(["ret"]),
                TerminatorKind::Yield { resume, .. } => json!(["yield", resume.as_usize()]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(b, self.tcx);
                    let ti = self.ty(t);
                    let ts: Vec<Value> = targets.iter().map(|(v, b)| json!([v.to_string(), b.as_usize()])).collect();
                    json!(["sw", self.operand(b, discr), ts, targets.otherwise().as_usize(), ti, sp])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => json!(["bounds", self.operand(b, len), self.operand(b, index)]),
                        AssertKind::Overflow(op, ..) => json!(["overflow", format!("{:?}", op)]),
                        other => json!(["other", format!("{:?}", other)]),
                    };
                    json!(["assert", self.operand(b, cond), expected, target.as_usize(), m, sp])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.callee(b, func);
                    let a: Vec<Value> = args.iter().map(|x| self.operand(b, &x.node)).collect();
                    let dt = { let t = destination.ty(b, self.tcx).ty; self.ty(t) };
                    let _ = fn_span;
                    json!(["call", f, a, self.place(b, destination), target.map(|t| t.as_usize()), dt, sp])
                }
                TerminatorKind::Unreachable => json!(["unreachable"]),
                other => json!(["diverge", format!("{:?}", std::mem::discriminant(other))]),
            };
            blocks.push(json!([ss, tv]));
        }
        json!({"argc": b.arg_count, "locals": locals, "names": names, "blocks": blocks,
            "spread": b.spread_arg.map(|l| l.as_usize())})
    }

    fn callee(&mut self, b: &mir::Body<'tcx>, f: &Operand<'tcx>) -> Value {
        let t = f.ty(b, self.tcx);
        if let ty::FnDef(d, args) = t.kind() {
            return self.fndef(*d, args.skip_binder());
        }
        json!({"dyn": self.operand(b, f)})
    }

    fn fndef(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Value {
        let mut o = Map::new();
        o.insert("path".into(), json!(path(self.tcx, d)));
        let a: Vec<usize> = args.types().map(|x| self.ty(x)).collect();
        o.insert("args".into(), json!(a));
        if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.env(), d, args) {
            let id = self.inst(i);
            o.insert("inst".into(), json!(id));
        }
        Value::Object(o)
    }

    fn place(&mut self, b: &mir::Body<'tcx>, p: &Place<'tcx>) -> Value {
        let mut pr = vec![];
        let mut pt = mir::PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => pr.push(json!(["*"])),
                ProjectionElem::Field(f, _) => {
                    let n = field_name(pt, f.as_usize());
                    pr.push(json!(["f", n]));
                }
                ProjectionElem::Index(l) => pr.push(json!(["i", l.as_usize()])),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => pr.push(json!(["ci", offset, min_length, from_end])),
                ProjectionElem::Subslice { from, to, from_end } => pr.push(json!(["ss", from, to, from_end])),
                ProjectionElem::Downcast(_, v) => pr.push(json!(["v", variant_name(pt.ty, v)])),
                _ => {}
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        json!([p.local.as_usize(), pr])
    }

    fn operand(&mut self, b: &mir::Body<'tcx>, o: &Operand<'tcx>) -> Value {
        match o {
            Operand::Copy(p) => json!(["p", self.place(b, p)]),
            Operand::Move(p) => json!(["p", self.place(b, p)]),
            Operand::Constant(c) => json!(["k", self.constant(&c.const_)]),
            _ => json!(["k", {"rt": true}]),
        }
    }

    fn constant(&mut self, c: &mir::Const<'tcx>) -> Value {
        let t = c.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fndef(*d, args.skip_binder());
            return json!({"t": ti, "fn": f});
        }
        let mut o = Map::new();
        o.insert("t".into(), json!(ti));
        if let mir::Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() { o.insert("def".into(), json!(path(self.tcx, u.def))); }
        }
        match c.eval(self.tcx, self.env(), rustc_span::DUMMY_SP) {
            Ok(v) => {
                if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, _) = p.into_raw_parts();
                    if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                        o.insert("static".into(), json!(path(self.tcx, d)));
                    }
                }
                let x = self.cval(v, t, 0);
                o.insert("v".into(), x);
            }
            Err(_) => {}
        }
        Value::Object(o)
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Value {
        let tcx = self.tcx;
        if depth > 6 { return json!(null); }
        match t.kind() {
            ty::Ref(_, inner, _) if inner.is_str() => {
                if matches!(v, ConstValue::Slice { .. } | ConstValue::Indirect { .. }) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return json!({"str": String::from_utf8_lossy(b)});
                    }
                }
                json!(null)
            }
            ty::Ref(_, inner, _) if matches!(inner.kind(), ty::Slice(x) if *x == tcx.types.u8) => {
                if matches!(v, ConstValue::Slice { .. } | ConstValue::Indirect { .. }) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) { return json!({"bytes": b}); }
                }
                json!(null)
            }
            ty::Ref(_, inner, _) => {
                // a reference to a constant value (promoted or static)
                if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.into_raw_parts();
                    match tcx.try_get_global_alloc(prov.alloc_id()) {
                        Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) => return json!({"static": path(tcx, d)}),
                        Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(_)) => {
                            if inner.is_sized(tcx, self.env()) {
                                let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                return self.cval(iv, *inner, depth + 1);
                            }
                        }
                        _ => {}
                    }
                }
                json!(null)
            }
            ty::Bool => match v.try_to_bool() { Some(b) => json!({"bool": b}), None => json!(null) },
            ty::Int(_) | ty::Uint(_) | ty::Char => {
                let size = tcx.layout_of(self.env().as_query_input(t)).map(|l| l.size);
                if let Ok(size) = size {
                    let v = match v {
                        ConstValue::Scalar(_) => v.try_to_bits(size),
                        ConstValue::Indirect { alloc_id, offset } => match tcx.try_get_global_alloc(alloc_id) {
                            Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) => a.inner()
                                .read_scalar(&tcx, mir::interpret::alloc_range(offset, size), false).ok()
                                .and_then(|s| s.to_bits(size).discard_err()),
                            _ => None,
                        },
                        _ => None,
                    };
                    if let Some(b) = v {
                        if t.is_signed() { return json!({"int": size.sign_extend(b).to_string()}); }
                        if t.is_char() { return json!({"char": char::from_u32(b as u32).map(|c| c.to_string())}); }
                        return json!({"int": b.to_string()});
                    }
                }
                json!(null)
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Adt(d, _) = t.kind() { if d.is_union() { return json!(null); } }
                if let ty::Array(_, n) = t.kind() { if n.try_to_target_usize(tcx).map_or(true, |n| n > 4096) { return json!(null); } }
                if let ty::Array(e, _) = t.kind() {
                    if *e == tcx.types.u8 {
                        if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                            let bs: Vec<Value> = d.fields.iter().map(|(v, _)| json!(v.try_to_bits(rustc_abi::Size::from_bytes(1)).map(|x| x as u64))).collect();
                            return json!({"bytes": bs});
                        }
                    }
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<Value> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                    let vn = match (t.kind(), d.variant) {
                        (ty::Adt(..), Some(vi)) => variant_name(t, vi),
                        (ty::Adt(a, _), None) => json!(a.non_enum_variant().name.to_string()),
                        _ => json!(null),
                    };
                    let names: Vec<Value> = match (t.kind(), d.variant) {
                        (ty::Adt(a, _), Some(vi)) => a.variant(vi).fields.iter().map(|f| json!(f.name.to_string())).collect(),
                        (ty::Adt(a, _), None) => a.non_enum_variant().fields.iter().map(|f| json!(f.name.to_string())).collect(),
                        _ => (0..fs.len()).map(|i| json!(i.to_string())).collect(),
                    };
                    let ti = self.ty(t);
                    return json!({"agg": ti, "var": vn, "names": names, "fields": fs});
                }
                json!(null)
            }
            ty::Closure(..) => { let ti = self.ty(t); json!({"agg": ti, "var": null, "names": [], "fields": []}) }
            _ => json!(null),
        }
    }

    fn rvalue(&mut self, b: &mir::Body<'tcx>, r: &Rvalue<'tcx>) -> Value {
        match r {
            Rvalue::Use(o, _) => json!(["use", self.operand(b, o)]),
            Rvalue::Repeat(o, n) => json!(["repeat", self.operand(b, o), n.try_to_target_usize(self.tcx)]),
            Rvalue::Ref(_, k, p) => json!(["ref", if matches!(k, BorrowKind::Mut { .. }) { "mut" } else { "shr" }, self.place(b, p)]),
            Rvalue::RawPtr(k, p) => json!(["ref", if matches!(k, RawPtrKind::Mut) { "mut" } else { "shr" }, self.place(b, p)]),
            Rvalue::Reborrow(_, m, p) => json!(["reborrow", if m.is_mut() { "mut" } else { "shr" }, self.place(b, p)]),
            Rvalue::CopyForDeref(p) => json!(["use", ["p", self.place(b, p)]]),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let st = o.ty(b, self.tcx);
                let si = self.ty(st);
                let kind = match k {
                    CastKind::PointerCoercion(c, _) => format!("{:?}", c),
                    other => format!("{:?}", other),
                };
                json!(["cast", kind, self.operand(b, o), ti, si])
            }
            Rvalue::BinaryOp(op, x) => json!(["bin", format!("{:?}", op), self.operand(b, &x.0), self.operand(b, &x.1)]),
            Rvalue::UnaryOp(op, x) => json!(["un", format!("{:?}", op), self.operand(b, x)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(b, self.tcx).ty;
                let ti = self.ty(t);
                json!(["discr", self.place(b, p), ti])
            }
            Rvalue::Aggregate(k, fs) => {
                let ops: Vec<Value> = fs.iter().map(|f| self.operand(b, f)).collect();
                let t = r.ty(b, self.tcx);
                let ti = self.ty(t);
                let (var, names): (Value, Vec<Value>) = match &**k {
                    AggregateKind::Adt(d, vi, ..) => {
                        let v = self.tcx.adt_def(*d).variant(*vi);
                        (json!(v.name.to_string()), v.fields.iter().map(|f| json!(f.name.to_string())).collect())
                    }
                    _ => (json!(null), (0..ops.len()).map(|i| json!(i.to_string())).collect()),
                };
                let kind = match &**k {
                    AggregateKind::Array(_) => "array",
                    AggregateKind::Tuple => "tuple",
                    AggregateKind::Adt(..) => "adt",
                    AggregateKind::Closure(..) => "closure",
                    AggregateKind::Coroutine(..) => "coroutine",
                    _ => "other",
                };
                json!(["agg", kind, ti, var, names, ops])
            }
            Rvalue::ThreadLocalRef(d) => json!(["tls", path(self.tcx, *d)]),
            other => json!(["other", format!("{:?}", other)]),
        }
    }
}

fn variant_name(t: Ty<'_>, v: rustc_abi::VariantIdx) -> Value {
    match t.kind() {
        ty::Adt(d, _) if d.is_enum() => json!(d.variant(v).name.to_string()),
        ty::Adt(d, _) => json!(d.non_enum_variant().name.to_string()),
        _ => json!(v.as_usize().to_string()),
    }
}

fn field_name(pt: mir::PlaceTy<'_>, i: usize) -> String {
    match pt.ty.kind() {
        ty::Adt(d, _) if d.is_enum() => match pt.variant_index {
            Some(v) => d.variant(v).fields[rustc_abi::FieldIdx::from_usize(i)].name.to_string(),
            None => i.to_string(),
        },
        ty::Adt(d, _) if !d.is_union() => d.non_enum_variant().fields[rustc_abi::FieldIdx::from_usize(i)].name.to_string(),
        _ => i.to_string(),
    }
}

fn meta(m: &rustc_ast::MetaItemInner) -> Value {
    use rustc_ast::{MetaItemInner, MetaItemKind};
    match m {
        MetaItemInner::Lit(l) => json!({"lit": format!("{}", l.symbol)}),
        MetaItemInner::MetaItem(i) => {
            let p: Vec<String> = i.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let p = p.join("::");
            match &i.kind {
                MetaItemKind::Word => json!({"k": p}),
                MetaItemKind::NameValue(l) => json!({"k": p, "v": l.symbol.to_string()}),
                MetaItemKind::List(l) => json!({"k": p, "list": l.iter().map(meta).collect::<Vec<_>>()}),
            }
        }
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> Value {
    for d in tcx.hir_body_owners() {
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. }) {
            tcx.ensure_done().mir_built(d);
        }
    }
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_out: vec![],
        insts: HashMap::new(),
        inst_out: vec![],
        queue: VecDeque::new(),
        adts: HashMap::new(),
        adt_out: Map::new(),
    };
    let mut roots = vec![];
    let mut generic = vec![];
    for d in tcx.hir_body_owners() {
        let did = d.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { continue; }
        let g = tcx.generics_of(did);
        if g.requires_monomorphization(tcx) {
            generic.push(json!({"path": path(tcx, did), "span": cx.span(tcx.def_span(did)),
                "pub": tcx.effective_visibilities(()).is_exported(d)}));
            continue;
        }
        let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => unreachable!(),
        });
        let i = Instance::new_raw(did, args);
        let id = cx.inst(i);
        roots.push(id);
    }
    // every type the crate defines
    let mut impls = vec![];
    let mut statics = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum => cx.adt(did),
            DefKind::Static { mutability, nested: false, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                statics.push(json!({"path": path(tcx, did), "mut": mutability.is_mut(), "ty": tystr(t),
                    "freeze": t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized()),
                    "thread_local": tcx.is_thread_local_static(did), "span": cx.span(tcx.def_span(did))}));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ms: Vec<String> = tcx.associated_item_def_ids(did).iter().map(|x| path(tcx, *x)).collect();
                let mut o = json!({"self": tystr(st), "items": ms, "span": cx.span(tcx.def_span(did))});
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).skip_binder();
                    o["trait"] = json!(path(tcx, tr.def_id));
                    o["derived"] = json!(tcx.is_builtin_derived(did));
                    let auto = rustc_attr_ir::find_attr!(tcx, did, AutomaticallyDerived);
                    o["auto"] = json!(auto);
                }
                impls.push(o);
            }
            _ => {}
        }
    }
    cx.drain();
    let errs = tcx.dcx().has_errors().is_some();
    let bodies = BODIES.with(|b| b.borrow().len());
    let tainted = BODIES.with(|b| b.borrow().values().filter(|b| b.tainted_by_errors.is_some()).count());
    json!({
        "crate": tcx.crate_name(LOCAL_CRATE).to_string(),
        "errors": errs, "bodies": bodies, "tainted": tainted,
        "roots": roots, "generic": generic,
        "types": cx.ty_out, "insts": cx.inst_out, "adts": cx.adt_out, "impls": impls, "statics": statics,
    })
}

fn main() {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let args: Vec<String> = std::env::args().collect();
    let r = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Dump { out });
    });
    // the dump is written before analysis stops; a non-zero code means parse/resolve errors
    let _ = &r;
    std::process::exit(if r == std::process::ExitCode::SUCCESS { 0 } else { 3 });
}
