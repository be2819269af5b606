//! rustc_private driver: dumps the MIR of every function of a workspace
//! library crate (plus the instances reachable through statically resolved
//! calls into workspace crates) as JSON, with resolved callees.
//!
//! Used through RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{
    PrintTraitRefExt as _, with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name,
};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};

// ---------------------------------------------------------------- JSON
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(o, "{n}");
            }
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

macro_rules! pp {
    ($e:expr) => {
        with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!($e)))
    };
}

const WS: &[&str] = &["tket", "tket_qsystem", "selene_hugr_qis_compiler"];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    seen: HashSet<String>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, String)>,
    adts: BTreeMap<String, J>,
    consts_seen: HashSet<String>,
    const_queue: VecDeque<(DefId, String)>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        pp!(self.tcx.def_path_str(d))
    }
    fn path_args(&self, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        let a = self.tcx.erase_and_anonymize_regions(a);
        pp!(self.tcx.def_path_str_with_args(d, a))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        pp!(t.to_string())
    }
    fn is_ws(&self, d: DefId) -> bool {
        let n = self.tcx.crate_name(d.krate);
        WS.contains(&n.as_str())
    }
    fn line(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        J::N(sm.lookup_char_pos(sp.lo()).line as i128)
    }
    fn file(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let f = sm.lookup_char_pos(sp.lo()).file.clone();
        f.name.prefer_local_unconditionally().to_string()
    }
    fn note_adt(&mut self, t: Ty<'tcx>) {
        if let ty::Adt(def, _) = t.kind() {
            let p = self.path(def.did());
            if self.adts.contains_key(&p) {
                return;
            }
            let mut vs = vec![];
            if def.is_enum() {
                for (i, d) in def.discriminants(self.tcx) {
                    let v = def.variant(i);
                    vs.push(J::O(vec![
                        ("name", J::s(v.name.to_string())),
                        ("discr", J::N(d.val as i128)),
                        (
                            "fields",
                            J::A(v.fields.iter().map(|f| J::s(f.name.to_string())).collect()),
                        ),
                    ]));
                }
            } else {
                for v in def.variants() {
                    vs.push(J::O(vec![
                        ("name", J::s(v.name.to_string())),
                        ("discr", J::N(0)),
                        (
                            "fields",
                            J::A(v.fields.iter().map(|f| J::s(f.name.to_string())).collect()),
                        ),
                    ]));
                }
            }
            self.adts.insert(
                p,
                J::O(vec![("enum", J::B(def.is_enum())), ("variants", J::A(vs))]),
            );
        }
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let key = self.path_args(inst.def_id(), inst.args);
        let d = inst.def_id();
        if self.is_ws(d)
            && matches!(inst.def, ty::InstanceKind::Item(_))
            && self.tcx.is_mir_available(d)
            && self.seen.insert(key.clone())
        {
            self.queue.push_back((inst, env, key.clone()));
        }
        key
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut proj = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _) => {
                    let mut name = String::new();
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        self.note_adt(pt.ty);
                        let v = pt
                            .variant_index
                            .unwrap_or(rustc_abi::FIRST_VARIANT);
                        if !def.is_union() || true {
                            name = def.variant(v).fields[f].name.to_string();
                        }
                    }
                    J::O(vec![("f", J::N(f.as_u32() as i128)), ("n", J::s(name))])
                }
                ProjectionElem::Index(l) => J::O(vec![("ix", J::N(l.as_u32() as i128))]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::O(vec![
                    ("ci", J::N(offset as i128)),
                    ("e", J::B(from_end)),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![
                    ("ss", J::A(vec![J::N(from as i128), J::N(to as i128)])),
                    ("e", J::B(from_end)),
                ]),
                ProjectionElem::Downcast(name, v) => {
                    self.note_adt(pt.ty);
                    let n = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => name.map(|n| n.to_string()).unwrap_or_default(),
                    };
                    J::O(vec![("dc", J::N(v.as_u32() as i128)), ("n", J::s(n))])
                }
                _ => J::s("?"),
            };
            proj.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        if proj.is_empty() {
            J::N(p.local.as_u32() as i128)
        } else {
            J::O(vec![("l", J::N(p.local.as_u32() as i128)), ("p", J::A(proj))])
        }
    }

    fn konst(&mut self, owner: Instance<'tcx>, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o = vec![("t", J::s(self.ty(t)))];
        match *t.kind() {
            ty::FnDef(d, _) | ty::Closure(d, _) => {
                let args = match *t.kind() {
                    ty::FnDef(_, a) => a.no_bound_vars().unwrap_or_else(|| {
                        tcx.instantiate_bound_regions_with_erased(a)
                    }),
                    ty::Closure(_, a) => a,
                    _ => unreachable!(),
                };
                o.push(("fn", self.callee(d, args, env)));
                return J::O(vec![("k", J::O(o))]);
            }
            ty::Adt(..) => self.note_adt(t),
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let base = self.path_args(u.def, u.args);
                let key = format!("{base}::promoted[{}]", p.as_u32());
                o.push(("prom", J::s(key)));
                let _ = owner;
                return J::O(vec![("k", J::O(o))]);
            }
            let key = self.path_args(u.def, u.args);
            o.push(("name", J::s(key.clone())));
            if self.is_ws(u.def) && self.consts_seen.insert(key.clone()) {
                self.const_queue.push_back((u.def, key));
            }
        }
        if let Const::Ty(_, ct) = c {
            o.push(("cparam", J::s(pp!(ct.to_string()))));
        }
        match c.eval(tcx, env, rustc_span::DUMMY_SP) {
            Ok(ConstValue::ZeroSized) => o.push(("zst", J::B(true))),
            Ok(v @ ConstValue::Scalar(s)) => match s {
                interpret::Scalar::Int(i) => {
                    let bits = i.to_bits(i.size());
                    if t.is_floating_point() {
                        if i.size().bytes() == 8 {
                            o.push(("flt", J::s(format!("{:?}", f64::from_bits(bits as u64)))));
                        } else {
                            o.push(("flt", J::s(format!("{:?}", f32::from_bits(bits as u32)))));
                        }
                    } else if t.is_signed() {
                        o.push(("int", J::N(i.to_int(i.size()))));
                    } else {
                        o.push(("int", J::N(bits as i128)));
                    }
                }
                interpret::Scalar::Ptr(..) => {
                    // &'static T or &'static static
                    if let interpret::Scalar::Ptr(ptr, _) = s {
                        let (prov, _) = ptr.prov_and_relative_offset();
                        match tcx.try_get_global_alloc(prov.alloc_id()) {
                            Some(interpret::GlobalAlloc::Static(d)) => {
                                o.push(("static", J::s(self.path(d))));
                                if self.is_ws(d) {
                                    let key = self.path(d);
                                    if d.is_local() && self.consts_seen.insert(key.clone()) {
                                        self.const_queue.push_back((d, key));
                                    }
                                }
                            }
                            Some(interpret::GlobalAlloc::Memory(a)) => {
                                let mut done = false;
                                if let ty::Ref(_, inner, _) = t.kind() {
                                    if let ty::Array(e, _) = inner.kind() {
                                        if *e == tcx.types.u8 {
                                            let a = a.inner();
                                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                                            o.push(("bytes", J::A(b.iter().map(|x| J::N(*x as i128)).collect())));
                                            done = true;
                                        }
                                    }
                                }
                                if !done {
                                    o.push(("ptr", J::B(true)));
                                }
                            }
                            _ => o.push(("ptr", J::B(true))),
                        }
                    }
                    let _ = v;
                }
            },
            Ok(v @ ConstValue::Slice { .. }) => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() {
                            o.push(("str", J::s(String::from_utf8_lossy(b).to_string())));
                        } else {
                            o.push(("bytes", J::A(b.iter().map(|x| J::N(*x as i128)).collect())));
                        }
                    }
                }
            }
            Ok(ConstValue::Indirect { .. }) => o.push(("ind", J::B(true))),
            Err(_) => {}
        }
        J::O(vec![("k", J::O(o))])
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("def", J::s(self.path(d))),
            ("full", J::s(self.path_args(d, args))),
            (
                "args",
                J::A(
                    args.iter()
                        .filter(|a| a.as_region().is_none())
                        .map(|a| {
                            let a = tcx.erase_and_anonymize_regions(a);
                            J::s(pp!(a.to_string()))
                        })
                        .collect(),
                ),
            ),
        ];
        if let ty::Closure(..) = tcx.type_of(d).skip_binder().kind() {
            let k = self.enqueue(Instance::new_raw(d, args), env);
            o.push(("key", J::s(k)));
            return J::O(o);
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let adt = tcx.parent(d);
            let (adt_did, vname, vidx) = match tcx.def_kind(adt) {
                DefKind::Variant => {
                    let e = tcx.parent(adt);
                    let def = tcx.adt_def(e);
                    let i = def.variant_index_with_id(adt);
                    (e, def.variant(i).name.to_string(), i.as_u32())
                }
                _ => {
                    let def = tcx.adt_def(adt);
                    (adt, def.variant(rustc_abi::FIRST_VARIANT).name.to_string(), 0)
                }
            };
            o.push(("ctor", J::s(self.path(adt_did))));
            o.push(("vn", J::s(vname)));
            o.push(("v", J::N(vidx as i128)));
            return J::O(o);
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(self.path(tr))));
        }
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            return J::O(o);
        }
        let eargs = tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(tcx, env, d, eargs) {
            Ok(Some(inst)) => {
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) => {
                        let _ = closure;
                        "closure_once"
                    }
                    ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr",
                    ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone",
                    _ => "shim",
                };
                o.push(("ik", J::s(kind)));
                o.push(("rdef", J::s(self.path(inst.def_id()))));
                let k = self.enqueue(inst, env);
                o.push(("key", J::s(k)));
                // from a provided trait method that the impl does not override
                o.push(("resolved", J::B(true)));
                if let Some((m, margs)) = self.via(d, inst, eargs) {
                    if let Ok(Some(i2)) = Instance::try_resolve(tcx, env, m, margs) {
                        let k = self.enqueue(i2, env);
                        o.push(("via", J::s(k)));
                        o.push(("vdef", J::s(self.path(i2.def_id()))));
                    }
                }
            }
            _ => {
                o.push(("resolved", J::B(false)));
                // unresolved trait method: maybe a provided body in the workspace
                if self.is_ws(d) && tcx.is_mir_available(d) && tcx.trait_of_assoc(d).is_some() {
                    let k = self.enqueue(Instance::new_raw(d, eargs), env);
                    o.push(("key", J::s(k)));
                    o.push(("provided", J::B(true)));
                }
            }
        }
        J::O(o)
    }

    /// The user-visible method that a std forwarding method ends up calling.
    fn via(
        &self,
        d: DefId,
        inst: Instance<'tcx>,
        args: GenericArgsRef<'tcx>,
    ) -> Option<(DefId, GenericArgsRef<'tcx>)> {
        let tcx = self.tcx;
        let p = self.path(d);
        let r = self.path(inst.def_id());
        let item = |tr: &str, m: &str| -> Option<DefId> {
            let t = *tcx
                .all_diagnostic_items(())
                .name_to_id
                .get(&rustc_span::Symbol::intern(tr))?;
            tcx.associated_items(t)
                .in_definition_order()
                .find(|i| i.name().as_str() == m)
                .map(|i| i.def_id)
        };
        let tys: Vec<Ty<'tcx>> = args.types().collect();
        let mk = |ts: &[Ty<'tcx>]| {
            tcx.mk_args_from_iter(ts.iter().map(|t| ty::GenericArg::from(*t)))
        };
        let rt: Vec<Ty<'tcx>> = inst.args.types().collect();
        match p.as_str() {
            "core::convert::Into::into" => Some((item("From", "from")?, mk(&[tys[1], tys[0]]))),
            "core::convert::TryInto::try_into" => {
                Some((item("TryFrom", "try_from")?, mk(&[tys[1], tys[0]])))
            }
            "alloc::string::ToString::to_string" => Some((item("Display", "fmt")?, mk(&[tys[0]]))),
            "core::cmp::PartialEq::ne" => Some((item("PartialEq", "eq")?, mk(&tys[..2]))),
            "core::cmp::PartialOrd::lt"
            | "core::cmp::PartialOrd::le"
            | "core::cmp::PartialOrd::gt"
            | "core::cmp::PartialOrd::ge" => {
                Some((item("PartialOrd", "partial_cmp")?, mk(&tys[..2])))
            }
            "core::cmp::Ord::max" | "core::cmp::Ord::min" => {
                Some((item("Ord", "cmp")?, mk(&tys[..1])))
            }
            "core::cmp::PartialEq::eq" => {
                if r.contains("PartialEq<&B> for &A") {
                    Some((item("PartialEq", "eq")?, mk(&rt[..2])))
                } else if r.contains("Option<T> as core::cmp::PartialEq") {
                    Some((item("PartialEq", "eq")?, mk(&[rt[0], rt[0]])))
                } else {
                    None
                }
            }
            "core::option::Option::<T>::unwrap_or_default"
            | "core::result::Result::<T, E>::unwrap_or_default" => {
                Some((item("Default", "default")?, mk(&tys[..1])))
            }
            _ if p.ends_with("<impl str>::parse") => {
                Some((item("FromStr", "from_str")?, mk(&tys[..1])))
            }
            _ => None,
        }
    }

    fn operand(
        &mut self,
        body: &Body<'tcx>,
        owner: Instance<'tcx>,
        op: &Operand<'tcx>,
        env: TypingEnv<'tcx>,
    ) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("c", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(body, p))]),
            Operand::Constant(c) => self.konst(owner, &c.const_, env),
            _ => J::O(vec![("rt", J::B(true))]),
        }
    }

    fn rvalue(
        &mut self,
        body: &Body<'tcx>,
        owner: Instance<'tcx>,
        rv: &Rvalue<'tcx>,
        env: TypingEnv<'tcx>,
    ) -> J {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(o, ..) => J::A(vec![J::s("use"), self.operand(body, owner, o, env)]),
            Rvalue::Repeat(o, n) => J::A(vec![
                J::s("rep"),
                self.operand(body, owner, o, env),
                match n.try_to_target_usize(tcx) {
                    Some(n) => J::N(n as i128),
                    None => J::s(pp!(n.to_string())),
                },
            ]),
            Rvalue::Ref(_, bk, p) => J::A(vec![
                J::s(if matches!(bk, BorrowKind::Mut { .. }) { "refm" } else { "ref" }),
                self.place(body, p),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("ref"), self.place(body, p)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::s(self.path(*d))]),
            Rvalue::Cast(k, o, t) => J::A(vec![
                J::s("cast"),
                J::s(format!("{k:?}").split('(').next().unwrap_or("").to_string()),
                self.operand(body, owner, o, env),
                J::s(self.ty(*t)),
                J::s(format!("{k:?}")),
            ]),
            Rvalue::BinaryOp(b, ops) => J::A(vec![
                J::s("bin"),
                J::s(format!("{b:?}")),
                self.operand(body, owner, &ops.0, env),
                self.operand(body, owner, &ops.1, env),
                J::s(self.ty(ops.0.ty(&body.local_decls, tcx))),
            ]),
            Rvalue::UnaryOp(u, o) => J::A(vec![
                J::s("un"),
                J::s(format!("{u:?}")),
                self.operand(body, owner, o, env),
                J::s(self.ty(o.ty(&body.local_decls, tcx))),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                self.note_adt(t);
                let an = match t.kind() {
                    ty::Adt(d, _) => self.path(d.did()),
                    _ => self.ty(t),
                };
                J::A(vec![J::s("discr"), self.place(body, p), J::s(an)])
            }
            Rvalue::Aggregate(k, ops) => {
                let a: Vec<J> =
                    ops.iter().map(|o| self.operand(body, owner, o, env)).collect();
                match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("arr"), J::A(a)]),
                    AggregateKind::Tuple => J::A(vec![J::s("tup"), J::A(a)]),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let def = tcx.adt_def(*d);
                        let t = Ty::new_adt(tcx, def, args);
                        self.note_adt(t);
                        let var = def.variant(*v);
                        J::A(vec![
                            J::s("adt"),
                            J::s(self.path(*d)),
                            J::s(var.name.to_string()),
                            J::A(a),
                            J::A(var.fields.iter().map(|f| J::s(f.name.to_string())).collect()),
                            J::s(self.ty(t)),
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let k = self.enqueue(Instance::new_raw(*d, args), env);
                        J::A(vec![J::s("clo"), J::s(k), J::A(a)])
                    }
                    _ => J::A(vec![J::s("agg?"), J::A(a)]),
                }
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![J::s("use"), J::O(vec![("c", self.place(body, p))])])
            }
            Rvalue::Reborrow(_, _, p) => J::A(vec![J::s("use"), J::O(vec![("c", self.place(body, p))])]),
            _ => J::A(vec![J::s("?"), J::s(format!("{rv:?}"))]),
        }
    }

    fn body(&mut self, owner: Instance<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        st.push(J::A(vec![
                            ln,
                            self.place(body, p),
                            self.rvalue(body, owner, r, env),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(body, place);
                        st.push(J::A(vec![
                            ln,
                            pj,
                            J::A(vec![J::s("setd"), J::N(variant_index.as_u32() as i128)]),
                        ]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let n = |b: BasicBlock| J::N(b.as_u32() as i128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), n(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tyy = discr.ty(&body.local_decls, self.tcx);
                    let mut ts = vec![];
                    for (v, b) in targets.iter() {
                        ts.push(J::A(vec![J::N(v as i128), n(b)]));
                    }
                    J::A(vec![
                        J::s("switch"),
                        self.operand(body, owner, discr, env),
                        J::A(ts),
                        n(targets.otherwise()),
                        J::s(self.ty(tyy)),
                    ])
                }
                TerminatorKind::Return => J::A(vec![J::s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    J::A(vec![J::s("drop"), self.place(body, place), n(*target), J::s(self.ty(t))])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(body, owner, func, env);
                    let a: Vec<J> = args
                        .iter()
                        .map(|x| self.operand(body, owner, &x.node, env))
                        .collect();
                    let dt = destination.ty(&body.local_decls, self.tcx).ty;
                    J::A(vec![
                        J::s("call"),
                        f,
                        J::A(a),
                        self.place(body, destination),
                        target.map(n).unwrap_or(J::Null),
                        J::s(self.ty(dt)),
                        self.line(*fn_span),
                    ])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => J::A(vec![
                    J::s("assert"),
                    self.operand(body, owner, cond, env),
                    J::B(*expected),
                    n(*target),
                    J::s(format!("{:?}", msg).chars().take(80).collect::<String>()),
                ]),
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![J::s("goto"), n(*real_target)])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::A(vec![J::s("unwind")])
                }
                k => J::A(vec![J::s("?"), J::s(format!("{k:?}"))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("ln", ln),
                ("cl", J::B(bb.is_cleanup)),
            ]));
        }
        let mut vars = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                vars.push(J::A(vec![J::s(v.name.to_string()), self.place(body, p)]));
            }
        }
        let tys: Vec<J> = body.local_decls.iter().map(|d| J::s(self.ty(d.ty))).collect();
        vec![
            ("argc", J::N(body.arg_count as i128)),
            ("spread", match body.spread_arg { Some(l) => J::N(l.as_u32() as i128), None => J::Null }),
            ("file", J::s(self.file(body.span))),
            ("line", self.line(body.span)),
            ("tys", J::A(tys)),
            ("vars", J::A(vars)),
            ("blocks", J::A(blocks)),
        ]
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx {
        tcx,
        seen: HashSet::new(),
        queue: VecDeque::new(),
        adts: BTreeMap::new(),
        consts_seen: HashSet::new(),
        const_queue: VecDeque::new(),
    };
    let mut fns: Vec<(String, J)> = vec![];
    // roots: every local fn with identity args
    for &ld in tcx.mir_keys(()) {
        let d = ld.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let args = tcx.erase_and_anonymize_regions(args);
        let env = TypingEnv::post_analysis(tcx, d);
        cx.enqueue(Instance::new_raw(d, args), env);
    }
    // impl table: trait impls of the workspace
    let mut impls = vec![];
    for &ld in tcx.mir_keys(()) {
        let d = ld.to_def_id();
        if tcx.def_kind(d) != DefKind::AssocFn {
            continue;
        }
        let p = tcx.parent(d);
        if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
            let selfty = tcx.type_of(p).instantiate_identity().skip_norm_wip();
            let tr = if of_trait {
                let trr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                let s = pp!(trr.print_only_trait_path().to_string());
                J::A(vec![J::s(cx.path(trr.def_id)), J::s(s)])
            } else {
                J::Null
            };
            impls.push(J::O(vec![
                ("fn", J::s(cx.path_args(d, tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d))))),
                ("name", J::s(tcx.item_name(d).to_string())),
                ("self", J::s(cx.ty(selfty))),
                ("trait", tr),
            ]));
        }
    }
    let mut count = 0usize;
    let mut proms_done: HashSet<String> = HashSet::new();
    loop {
        if let Some((d, key)) = cx.const_queue.pop_front() {
            if d.is_local() {
                let kind = tcx.def_kind(d);
                if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
                    let inst = Instance::new_raw(
                        d,
                        tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d)),
                    );
                    let env = TypingEnv::post_analysis(tcx, d);
                    let body = tcx.mir_for_ctfe(d).clone();
                    let mut o = cx.body(inst, &body, env);
                    o.push(("const", J::B(true)));
                    fns.push((format!("const {key}"), J::O(o)));
                    let base = cx.path_args(d, inst.args);
                    if proms_done.insert(base.clone()) {
                        let proms = tcx.promoted_mir(d);
                        for (i, pb) in proms.iter_enumerated() {
                            let pb = pb.clone();
                            let o = cx.body(inst, &pb, env);
                            fns.push((format!("{base}::promoted[{}]", i.as_u32()), J::O(o)));
                        }
                    }
                }
            }
            continue;
        }
        let Some((inst, env, key)) = cx.queue.pop_front() else { break };
        count += 1;
        if count > 200_000 {
            break;
        }
        let d = inst.def_id();
        let body = tcx.optimized_mir(d);
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env,
            EarlyBinder::bind(tcx, body.clone()),
        ) {
            Ok(b) => b,
            Err(_) => body.clone(),
        };
        let mut o = cx.body(inst, &body, env);
        o.push(("def", J::s(cx.path(d))));
        o.push(("crate", J::s(tcx.crate_name(d.krate).to_string())));
        o.push(("local", J::B(d.is_local())));
        o.push((
            "name",
            match tcx.opt_item_name(d) {
                Some(n) => J::s(n.to_string()),
                None => J::s("{closure}"),
            },
        ));
        let vis = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            match tcx.visibility(d) {
                ty::Visibility::Public => "pub",
                _ => "priv",
            }
        } else {
            "closure"
        };
        o.push(("vis", J::s(vis)));
        if tcx.is_typeck_child(d) {
            o.push(("parent", J::s(cx.path(tcx.typeck_root_def_id(d)))));
        }
        fns.push((key.clone(), J::O(o)));
        // promoteds
        if proms_done.insert(key.clone()) {
            let proms = tcx.promoted_mir(d);
            for (i, pb) in proms.iter_enumerated() {
                let pb2 = match inst.try_instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    env,
                    EarlyBinder::bind(tcx, pb.clone()),
                ) {
                    Ok(b) => b,
                    Err(_) => pb.clone(),
                };
                let o = cx.body(inst, &pb2, env);
                fns.push((format!("{key}::promoted[{}]", i.as_u32()), J::O(o)));
            }
        }
    }
    // source files of the crate
    let mut files = vec![];
    for f in tcx.sess.source_map().files().iter() {
        if f.cnum == LOCAL_CRATE {
            let n = f.name.prefer_local_unconditionally().to_string();
            files.push(J::A(vec![J::s(n), J::s(format!("{}", f.src_hash))]));
        }
    }
    let mut s = String::new();
    s.push_str("{\"crate\":");
    esc(tcx.crate_name(LOCAL_CRATE).as_str(), &mut s);
    s.push_str(",\"files\":");
    J::A(files).w(&mut s);
    s.push_str(",\"impls\":");
    J::A(impls).w(&mut s);
    s.push_str(",\"adts\":{");
    for (i, (k, v)) in cx.adts.iter().enumerate() {
        if i > 0 {
            s.push(',')
        }
        esc(k, &mut s);
        s.push(':');
        v.w(&mut s);
    }
    s.push_str("},\"fns\":{");
    for (i, (k, v)) in fns.iter().enumerate() {
        if i > 0 {
            s.push_str(",\n")
        }
        esc(k, &mut s);
        s.push(':');
        v.w(&mut s);
    }
    s.push_str("}}");
    let tmp = format!("{out}.tmp{}", std::process::id());
    let mut f = std::fs::File::create(&tmp).expect("create dump");
    f.write_all(s.as_bytes()).expect("write dump");
    drop(f);
    std::fs::rename(&tmp, out).expect("rename dump");
    let _ = J::Null;
}

struct Cb {
    out: Option<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Some(o) = &self.out {
            dump(tcx, o);
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER protocol: argv[1] is rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let dir = std::env::var("MIRDUMP_OUT").ok();
    let mut cb = Cb { out: None };
    if name != "___" && args.iter().any(|a| a.ends_with(".rs")) {
        args.push("-Znext-solver=no".into());
    }
    if WS.contains(&name.as_str()) && !is_test {
        if let Some(d) = dir {
            cb.out = Some(format!("{d}/{name}.json"));
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
            args.push("-Zalways-encode-mir".into());
        }
    }
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
