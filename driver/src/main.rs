// A rustc driver that dumps, as JSON, the type-checked program of a crate:
// every MIR body (after promotion, before drop elaboration), with resolved
// callees, resolved field and variant names, constants, the type table, the
// ADT definitions reachable from those types, the trait impl table and the
// re-exports.  It decides nothing: the rules are in /verif/hooqlint.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;
use std::cell::RefCell;
use std::collections::HashMap;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: RefCell<HashMap<Ty<'tcx>, usize>>,
    ty_out: RefCell<Vec<Option<J>>>,
    adts: RefCell<HashMap<DefId, Option<J>>>,
    adt_queue: RefCell<Vec<DefId>>,
    // instances of generic functions of this crate, one body each
    mono_seen: RefCell<HashMap<String, ()>>,
    mono_queue: RefCell<Vec<(LocalDefId, GenericArgsRef<'tcx>, String)>>,
}

fn s(x: impl ToString) -> J {
    J::Str(x.to_string())
}

fn arr(v: Vec<J>) -> J {
    J::Arr(v)
}

fn tag(t: &str, mut rest: Vec<J>) -> J {
    let mut v = vec![s(t)];
    v.append(&mut rest);
    J::Arr(v)
}

fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        // unique and stable: crate name + def path with disambiguators
        let krate = self.tcx.crate_name(d.krate);
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        format!("{krate}{p}")
    }

    // the path of the instance of a generic function (or of a closure in one) for concrete type arguments
    fn instance(&self, d: DefId, args: GenericArgsRef<'tcx>) -> Option<String> {
        use rustc_middle::ty::TypeVisitableExt;
        let local = d.as_local()?;
        let root = self.tcx.typeck_root_def_id(d);
        if !matches!(self.tcx.def_kind(root), DefKind::Fn | DefKind::AssocFn) {
            return None;
        }
        let g = self.tcx.generics_of(root);
        if !g.own_params.iter().any(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })) {
            return None;
        }
        let args = self.tcx.erase_and_anonymize_regions(args);
        if args.has_param() || args.has_infer() || args.has_escaping_bound_vars() {
            return None;
        }
        let names: Vec<String> = args[g.parent_count..g.count()]
            .iter()
            .filter_map(|a| a.as_type())
            .map(|t| rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string()))
            .collect();
        let base = self.path(root);
        let whole = self.path(d);
        let key = format!("{base}<{}>{}", names.join(","), &whole[base.len()..]);
        if key.matches('<').count() > 24 || self.mono_seen.borrow().len() > 400 {
            return None;
        }
        if self.mono_seen.borrow_mut().insert(key.clone(), ()).is_none() {
            self.mono_queue.borrow_mut().push((local, args, key.clone()));
        }
        Some(key)
    }

    fn nice(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| format!("{:?}", lo.file.name)),
            other => format!("{other:?}"),
        };
        s(format!("{}:{}", name, lo.line))
    }

    fn args(&self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                ty::GenericArgKind::Type(t) => v.push(J::Num(self.ty(t) as i128)),
                ty::GenericArgKind::Lifetime(_) => {}
                _ => v.push(s(format!("{a:?}"))),
            }
        }
        arr(v)
    }

    fn adt(&self, d: DefId) {
        let mut m = self.adts.borrow_mut();
        if m.contains_key(&d) {
            return;
        }
        m.insert(d, None);
        self.adt_queue.borrow_mut().push(d);
    }

    fn drain_adts(&self) {
        loop {
            let Some(d) = self.adt_queue.borrow_mut().pop() else {
                break;
            };
            let def = self.tcx.adt_def(d);
            let kind = if def.is_enum() {
                "enum"
            } else if def.is_union() {
                "union"
            } else {
                "struct"
            };
            let krate = self.tcx.crate_name(d.krate).to_string();
            // the fields of std types are of no use, and explode
            let deep = !matches!(
                krate.as_str(),
                "std" | "alloc" | "proc_macro" | "hashbrown" | "toml" | "serde" | "serde_core"
            ) && !(krate == "core"
                && !matches!(self.tcx.item_name(d).as_str(), "Option" | "Result" | "ControlFlow" | "Ordering"))
                && !(krate == "proc_macro2" && self.tcx.item_name(d).as_str() != "TokenTree" && self.tcx.item_name(d).as_str() != "Delimiter");
            let mut variants = vec![];
            for (i, v) in def.variants().iter_enumerated() {
                let discr = if def.is_enum() {
                    J::Num(def.discriminant_for_variant(self.tcx, i).val as i128)
                } else {
                    J::Num(0)
                };
                let mut fields = vec![];
                if deep || def.is_enum() {
                    for f in v.fields.iter() {
                        let ft = self.tcx.type_of(f.did).instantiate_identity();
                        let ft = ft.skip_norm_wip();
                        fields.push(arr(vec![
                            s(f.name),
                            J::Num(self.ty(ft) as i128),
                            J::Bool(f.vis.is_public()),
                        ]));
                    }
                }
                let mut o = vec![
                    ("name", s(v.name)),
                    ("discr", discr),
                    ("fields", arr(fields)),
                ];
                if d.is_local() {
                    let mut at = vec![];
                    for f in v.fields.iter() {
                        at.push(arr(self.attrs_of(f.did)));
                    }
                    o.push(("field_attrs", arr(at)));
                }
                variants.push(obj(o));
            }
            let mut generics = vec![];
            for p in self.tcx.generics_of(d).own_params.iter() {
                if let ty::GenericParamDefKind::Type { .. } = p.kind {
                    generics.push(s(p.name));
                }
            }
            let mut o = vec![
                ("kind", s(kind)),
                ("nice", s(self.nice(d))),
                ("local", J::Bool(d.is_local())),
                ("generics", arr(generics)),
                ("variants", arr(variants)),
            ];
            if d.is_local() {
                o.push(("span", self.span(self.tcx.def_span(d))));
                o.push(("attrs", arr(self.attrs_of(d))));
            }
            self.adts.borrow_mut().insert(d, Some(obj(o)));
        }
    }

    fn attrs_of(&self, d: DefId) -> Vec<J> {
        let mut out = vec![];
        if let Some(l) = d.as_local() {
            let hid = self.tcx.local_def_id_to_hir_id(l);
            for a in self.tcx.hir_attrs(hid) {
                let txt = rustc_hir_pretty_attr(self.tcx, a);
                out.push(s(txt));
            }
        }
        out
    }

    fn ty(&self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.borrow().get(&t) {
            return *i;
        }
        let i = {
            let mut o = self.ty_out.borrow_mut();
            o.push(None);
            o.len() - 1
        };
        self.tys.borrow_mut().insert(t, i);
        let n = |t: Ty<'tcx>| J::Num(self.ty(t) as i128);
        let j = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                tag("prim", vec![s(t)])
            }
            ty::Adt(def, args) => {
                self.adt(def.did());
                tag("adt", vec![s(self.path(def.did())), self.args(args), s(self.nice(def.did()))])
            }
            ty::Array(e, len) => tag(
                "array",
                vec![
                    n(*e),
                    len.try_to_target_usize(self.tcx)
                        .map(|x| J::Num(x as i128))
                        .unwrap_or(J::Null),
                ],
            ),
            ty::Slice(e) => tag("slice", vec![n(*e)]),
            ty::RawPtr(e, m) => tag("ptr", vec![J::Bool(m.is_mut()), n(*e)]),
            ty::Ref(_, e, m) => tag("ref", vec![J::Bool(m.is_mut()), n(*e)]),
            ty::FnDef(d, args) => {
                tag("fndef", vec![s(self.path(*d)), self.args(args.skip_binder()), s(self.nice(*d))])
            }
            ty::Closure(d, args) => {
                let up = args.as_closure().upvar_tys();
                let path = self.instance(*d, args).unwrap_or_else(|| self.path(*d));
                tag("closure", vec![s(path), arr(up.iter().map(n).collect())])
            }
            ty::Tuple(l) => tag("tuple", vec![arr(l.iter().map(n).collect())]),
            ty::Param(p) => tag("param", vec![s(p.name)]),
            ty::Dynamic(..) => tag("dyn", vec![s(t)]),
            ty::FnPtr(..) => tag("fnptr", vec![s(t)]),
            _ => tag("other", vec![s(t)]),
        };
        self.ty_out.borrow_mut()[i] = Some(j);
        i
    }

    // resolve a callee in its typing environment
    fn resolve(&self, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let mut o = vec![
            ("path", s(self.path(d))),
            ("nice", s(self.nice(d))),
            ("args", self.args(args)),
            ("local", J::Bool(d.is_local())),
        ];
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.nice(tr))));
            o.push(("method", s(self.tcx.item_name(d))));
        } else if let Some(name) = self.tcx.opt_item_name(d) {
            o.push(("method", s(name)));
            if let Some(imp) = self.tcx.impl_of_assoc(d) {
                let st = self.tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                o.push(("self_ty", J::Num(self.ty(st) as i128)));
            }
        }
        let mut unsafe_ = false;
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            unsafe_ = self.tcx.fn_sig(d).skip_binder().safety().is_unsafe();
        }
        if unsafe_ {
            o.push(("unsafe", J::Bool(true)));
        }
        let args = self.tcx.erase_and_anonymize_regions(args);
        let norm = args;
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env, d, norm) {
                let rd = inst.def_id();
                let mono = match inst.def {
                    InstanceKind::Item(_) => self.instance(rd, inst.args),
                    _ => None,
                };
                if let Some(key) = mono {
                    o.push(("res", s(key)));
                    o.push(("res_nice", s(self.nice(rd))));
                    o.push(("res_local", J::Bool(true)));
                    o.push(("res_args", self.args(inst.args)));
                } else if rd != d {
                    o.push(("res", s(self.path(rd))));
                    o.push(("res_nice", s(self.nice(rd))));
                    o.push(("res_local", J::Bool(rd.is_local())));
                    o.push(("res_args", self.args(inst.args)));
                }
                if !matches!(inst.def, InstanceKind::Item(_)) {
                    o.push(("inst", s(format!("{:?}", inst.def).split('(').next().unwrap())));
                }
            }
        }
        // blanket Into/TryInto: the From/TryFrom impl behind them
        let nice = self.nice(d);
        let behind = match nice.as_str() {
            "std::convert::Into::into" => Some(("From", "from")),
            "std::convert::TryInto::try_into" => Some(("TryFrom", "try_from")),
            _ => None,
        };
        if let Some((tr, m)) = behind {
            if let Some(trd) = self.tcx.get_diagnostic_item(rustc_span::Symbol::intern(tr)) {
                for it in self.tcx.associated_items(trd).in_definition_order() {
                    if it.is_fn() && it.name().as_str() == m {
                        let from = norm.type_at(0);
                        let to = norm.type_at(1);
                        let a2 = self.tcx.mk_args(&[to.into(), from.into()]);
                        o.push(("behind", self.resolve(env, it.def_id, a2)));
                    }
                }
            }
        }
        obj(o)
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut projs = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => tag("*", vec![J::Num(self.ty(pt.ty) as i128)]),
                ProjectionElem::Field(f, fty) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = if def.is_enum() {
                                def.variant(pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0)))
                            } else {
                                def.non_enum_variant()
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    tag("f", vec![s(name), J::Num(f.as_usize() as i128), J::Num(self.ty(fty) as i128)])
                }
                ProjectionElem::Index(l) => tag("idx", vec![J::Num(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => tag(
                    "cidx",
                    vec![J::Num(offset as i128), J::Bool(from_end), J::Num(min_length as i128)],
                ),
                ProjectionElem::Subslice { from, to, from_end } => {
                    tag("sub", vec![J::Num(from as i128), J::Num(to as i128), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(_, vi) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(vi).name.to_string(),
                        _ => vi.as_usize().to_string(),
                    };
                    tag("v", vec![s(name)])
                }
                other => tag("other", vec![s(format!("{other:?}"))]),
            };
            projs.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        arr(vec![J::Num(p.local.as_usize() as i128), arr(projs), J::Num(self.ty(pt.ty) as i128)])
    }

    fn bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                Some(
                    a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len)
                        .to_vec(),
                )
            }
            _ => None,
        }
    }

    fn konst(&self, env: TypingEnv<'tcx>, c: &Const<'tcx>) -> J {
        let t = c.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return tag("fn", vec![self.resolve(env, *d, args.skip_binder())]);
        }
        let tid = J::Num(self.ty(t) as i128);
        match c {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    return tag("promoted", vec![s(self.path(u.def)), J::Num(p.as_usize() as i128), tid]);
                }
                return tag("item", vec![s(self.path(u.def)), s(self.nice(u.def)), tid]);
            }
            Const::Ty(_, ct) => {
                if let Some(v) = ct.try_to_value() {
                    if let Some(l) = v.try_to_leaf() {
                        return tag("int", vec![J::Num(l.to_bits_unchecked() as i128), tid]);
                    }
                }
                return tag("tyconst", vec![s(format!("{ct:?}")), tid]);
            }
            Const::Val(v, _) => match v {
                ConstValue::ZeroSized => tag("zst", vec![tid]),
                ConstValue::Scalar(Scalar::Int(i)) => {
                    let bits = i.to_bits_unchecked();
                    match t.kind() {
                        ty::Bool => tag("bool", vec![J::Bool(bits != 0)]),
                        ty::Char => tag("char", vec![s(char::from_u32(bits as u32).unwrap_or('\u{fffd}'))]),
                        ty::Int(_) => {
                            let size = i.size();
                            tag("int", vec![J::Num(size.sign_extend(bits)), tid])
                        }
                        _ => tag("int", vec![J::Num(bits as i128), tid]),
                    }
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    let id = prov.alloc_id();
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if let ty::Array(e, n) = inner.kind() {
                            if *e.kind() == ty::Uint(ty::UintTy::U8) {
                                if let Some(n) = n.try_to_target_usize(self.tcx) {
                                    if let Some(b) = self.bytes(id, off.bytes() as usize, n as usize) {
                                        return tag(
                                            "bytes",
                                            vec![arr(b.into_iter().map(|x| J::Num(x as i128)).collect())],
                                        );
                                    }
                                }
                            }
                        }
                    }
                    if let GlobalAlloc::Static(d) = self.tcx.global_alloc(id) {
                        return tag("static", vec![s(self.path(d)), s(self.nice(d)), tid]);
                    }
                    tag("ptr", vec![tid])
                }
                ConstValue::Slice { alloc_id, meta } => {
                    let b = self.bytes(*alloc_id, 0, *meta as usize).unwrap_or_default();
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() {
                            return tag("str", vec![s(String::from_utf8_lossy(&b))]);
                        }
                    }
                    tag("bytes", vec![arr(b.into_iter().map(|x| J::Num(x as i128)).collect())])
                }
                ConstValue::Indirect { .. } => tag("indirect", vec![tid]),
            },
        }
    }

    fn operand(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => tag("cp", vec![self.place(body, p)]),
            Operand::Move(p) => tag("mv", vec![self.place(body, p)]),
            Operand::Constant(c) => tag("k", vec![self.konst(env, &c.const_)]),
            Operand::RuntimeChecks(_) => tag("k", vec![tag("bool", vec![J::Bool(true)])]),
        }
    }

    fn rvalue(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let op = |o: &Operand<'tcx>| self.operand(env, body, o);
        match r {
            Rvalue::Use(o, ..) => tag("use", vec![op(o)]),
            Rvalue::Repeat(o, c) => tag(
                "repeat",
                vec![op(o), c.try_to_target_usize(self.tcx).map(|x| J::Num(x as i128)).unwrap_or(J::Null)],
            ),
            Rvalue::Ref(_, k, p) => tag(
                "ref",
                vec![
                    J::Bool(matches!(k, BorrowKind::Mut { .. })),
                    self.place(body, p),
                    J::Bool(matches!(k, BorrowKind::Fake(_))),
                ],
            ),
            Rvalue::ThreadLocalRef(d) => tag("tls", vec![s(self.nice(*d))]),
            Rvalue::RawPtr(k, p) => tag("rawptr", vec![s(format!("{k:?}")), self.place(body, p)]),
            Rvalue::Cast(k, o, t) => tag(
                "cast",
                vec![s(format!("{k:?}")), op(o), J::Num(self.ty(*t) as i128)],
            ),
            Rvalue::BinaryOp(b, ops) => tag("bin", vec![s(format!("{b:?}")), op(&ops.0), op(&ops.1)]),
            Rvalue::UnaryOp(u, o) => tag("un", vec![s(format!("{u:?}")), op(o)]),
            Rvalue::Discriminant(p) => tag("disc", vec![self.place(body, p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(op).collect();
                match &**k {
                    AggregateKind::Array(t) => tag("agg", vec![s("array"), J::Num(self.ty(*t) as i128), arr(ops)]),
                    AggregateKind::Tuple => tag("agg", vec![s("tuple"), J::Null, arr(ops)]),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        self.adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let v = def.variant(*vi);
                        let names: Vec<J> = v.fields.iter().map(|f| s(f.name)).collect();
                        tag(
                            "agg",
                            vec![
                                s("adt"),
                                arr(vec![
                                    s(self.path(*d)),
                                    s(v.name),
                                    arr(names),
                                    self.args(args),
                                    active.map(|f| J::Num(f.as_usize() as i128)).unwrap_or(J::Null),
                                    J::Bool(def.is_enum()),
                                ]),
                                arr(ops),
                            ],
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let path = self.instance(*d, args).unwrap_or_else(|| self.path(*d));
                        tag("agg", vec![s("closure"), s(path), arr(ops)])
                    }
                    other => tag("agg", vec![s("other"), s(format!("{other:?}")), arr(ops)]),
                }
            }
            Rvalue::CopyForDeref(p) => tag("use", vec![tag("cp", vec![self.place(body, p)])]),
            other => tag("other", vec![s(format!("{other:?}"))]),
        }
    }

    fn body(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> J {
        let mut names: HashMap<Local, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local).or_insert(v.name.to_string());
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                arr(vec![
                    J::Num(self.ty(d.ty) as i128),
                    names.get(&l).map(|n| s(n)).unwrap_or(J::Null),
                ])
            })
            .collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut stmts = vec![];
            for st in &bb.statements {
                let j = match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        tag("=", vec![self.place(body, p), self.rvalue(env, body, r)])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        tag("setdisc", vec![self.place(body, place), J::Num(variant_index.as_usize() as i128)])
                    }
                    _ => continue,
                };
                let mut j2 = match j {
                    J::Arr(v) => v,
                    _ => unreachable!(),
                };
                j2.push(self.span(st.source_info.span));
                stmts.push(J::Arr(j2));
            }
            let term = bb.terminator();
            let tgt = |b: &BasicBlock| J::Num(b.as_usize() as i128);
            let opt = |b: &Option<BasicBlock>| b.map(|b| J::Num(b.as_usize() as i128)).unwrap_or(J::Null);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => tag("goto", vec![tgt(target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| arr(vec![J::Num(v as i128), J::Num(b.as_usize() as i128)]))
                        .collect();
                    let dt = discr.ty(body, self.tcx);
                    tag(
                        "switch",
                        vec![
                            self.operand(env, body, discr),
                            arr(v),
                            J::Num(targets.otherwise().as_usize() as i128),
                            J::Num(self.ty(dt) as i128),
                        ],
                    )
                }
                TerminatorKind::Return => tag("return", vec![]),
                TerminatorKind::Unreachable => tag("unreachable", vec![]),
                TerminatorKind::Drop { place, target, .. } => tag("goto", vec![tgt(target), self.place(body, place)]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<J> = args.iter().map(|a| self.operand(env, body, &a.node)).collect();
                    tag(
                        "call",
                        vec![
                            self.operand(env, body, func),
                            arr(a),
                            self.place(body, destination),
                            opt(target),
                        ],
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = format!("{:?}", msg);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::OverflowNeg(..) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(..) => "div0".to_string(),
                        AssertKind::RemainderByZero(..) => "rem0".to_string(),
                        _ => k,
                    };
                    let ops: Vec<J> = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            vec![self.operand(env, body, len), self.operand(env, body, index)]
                        }
                        AssertKind::Overflow(_, a, b) => {
                            vec![self.operand(env, body, a), self.operand(env, body, b)]
                        }
                        AssertKind::DivisionByZero(a) | AssertKind::RemainderByZero(a) => {
                            vec![self.operand(env, body, a)]
                        }
                        _ => vec![],
                    };
                    tag(
                        "assert",
                        vec![self.operand(env, body, cond), J::Bool(*expected), s(kind), tgt(target), arr(ops)],
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => tag("goto", vec![tgt(real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => tag("goto", vec![tgt(real_target)]),
                TerminatorKind::UnwindResume => tag("resume", vec![]),
                other => tag("other", vec![s(format!("{other:?}"))]),
            };
            let mut tv = match t {
                J::Arr(v) => v,
                _ => unreachable!(),
            };
            tv.push(self.span(term.source_info.span));
            blocks.push(arr(vec![arr(stmts), J::Arr(tv), J::Bool(bb.is_cleanup)]));
        }
        obj(vec![
            ("argc", J::Num(body.arg_count as i128)),
            ("locals", arr(locals)),
            ("blocks", arr(blocks)),
        ])
    }
}

fn rustc_hir_pretty_attr(tcx: TyCtxt<'_>, a: &rustc_attr_ir::Attribute) -> String {
    match a {
        rustc_attr_ir::Attribute::Parsed(p) => format!("{p:?}").chars().take(120).collect(),
        rustc_attr_ir::Attribute::Tool(item) | rustc_attr_ir::Attribute::DeriveHelper(item) => {
            tcx.sess.source_map().span_to_snippet(item.span).unwrap_or_default()
        }
    }
}

struct Dump;

impl Callbacks for Dump {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("MIRDUMP_OUT") else {
            return Compilation::Continue;
        };
        let cx = Cx {
            tcx,
            tys: Default::default(),
            ty_out: Default::default(),
            adts: Default::default(),
            adt_queue: Default::default(),
            mono_seen: Default::default(),
            mono_queue: Default::default(),
        };
        let mut bodies = vec![];
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        for def in owners {
            let did = def.to_def_id();
            let kind = tcx.def_kind(did);
            if matches!(kind, DefKind::AnonConst) {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, did);
            let (b, proms) = tcx.mir_promoted(def);
            let b = b.borrow();
            let proms = proms.borrow();
            let main = cx.body(env, &b);
            let pv: Vec<J> = proms.iter().map(|p| cx.body(env, p)).collect();
            let mut o = vec![
                ("path", s(cx.path(did))),
                ("nice", s(cx.nice(did))),
                ("kind", s(format!("{kind:?}"))),
                ("span", cx.span(tcx.def_span(did))),
                ("parent", s(cx.path(tcx.parent(did)))),
                ("body", main),
                ("promoted", arr(pv)),
            ];
            if let Some(n) = tcx.opt_item_name(did) {
                o.push(("name", s(n)));
            }
            if let DefKind::Static { mutability, .. } = kind {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                o.push(("static_ty", J::Num(cx.ty(t) as i128)));
                o.push(("freeze", J::Bool(mutability.is_not() && t.is_freeze(tcx, env))));
                let inner: Vec<J> = t
                    .walk()
                    .filter_map(|a| a.as_type())
                    .skip(1)
                    .map(|a| J::Bool(a.is_freeze(tcx, env)))
                    .collect();
                o.push(("inner_freeze", arr(inner)));
            }
            let root = tcx.typeck_root_def_id(did);
            if let Some(imp) = tcx.impl_of_assoc(root) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                o.push(("impl_self", J::Num(cx.ty(st) as i128)));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("impl_trait", s(cx.nice(tr.def_id))));
                    o.push(("impl_trait_args", cx.args(tr.args)));
                }
                if tcx.is_automatically_derived(imp) {
                    o.push(("derived", J::Bool(true)));
                }
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                o.push(("inputs", arr(sig.inputs().iter().map(|t| J::Num(cx.ty(*t) as i128)).collect())));
                o.push(("output", J::Num(cx.ty(sig.output()) as i128)));
                o.push(("public", J::Bool(tcx.visibility(did).is_public())));
            }
            let mut gen_names = vec![];
            let g = tcx.generics_of(did);
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if let ty::GenericParamDefKind::Type { .. } = p.kind {
                    gen_names.push(s(p.name));
                }
            }
            o.push(("generics", arr(gen_names)));
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                o.push(("attrs", arr(cx.attrs_of(did))));
            }
            bodies.push(obj(o));
        }

        // instances of generic functions
        loop {
            let Some((def, args, key)) = cx.mono_queue.borrow_mut().pop() else {
                break;
            };
            let did = def.to_def_id();
            let env = TypingEnv::fully_monomorphized();
            let (b, proms) = tcx.mir_promoted(def);
            let b: Body<'tcx> = b.borrow().clone();
            let inst = |b: Body<'tcx>| {
                tcx.instantiate_and_normalize_erasing_regions(args, env, ty::EarlyBinder::bind(tcx, b))
            };
            let b = inst(b);
            let main = cx.body(env, &b);
            let pv: Vec<J> = proms.borrow().iter().map(|p| cx.body(env, &inst(p.clone()))).collect();
            bodies.push(obj(vec![
                ("path", s(&key)),
                ("nice", s(cx.nice(did))),
                ("kind", s("Instance")),
                ("span", cx.span(tcx.def_span(did))),
                ("parent", s(cx.path(tcx.parent(did)))),
                ("body", main),
                ("promoted", arr(pv)),
                ("generics", arr(vec![])),
            ]));
        }

        // trait impls of this crate
        let mut impls = vec![];
        for (tr, ids) in tcx.all_local_trait_impls(()) {
            for id in ids {
                let st = tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip();
                let tref = tcx
                    .impl_opt_trait_ref(id.to_def_id())
                    .map(|t| t.instantiate_identity().skip_norm_wip());
                let mut items = vec![];
                for it in tcx.associated_items(id.to_def_id()).in_definition_order() {
                    if it.is_fn() {
                        items.push(arr(vec![s(it.name()), s(cx.path(it.def_id))]));
                    }
                }
                impls.push(obj(vec![
                    ("trait", s(cx.nice(*tr))),
                    ("self", J::Num(cx.ty(st) as i128)),
                    (
                        "args",
                        tref.map(|t| cx.args(t.args)).unwrap_or(J::Null),
                    ),
                    ("items", arr(items)),
                    ("derived", J::Bool(tcx.is_automatically_derived(id.to_def_id()))),
                ]));
            }
        }

        // exports
        let mut exports = vec![];
        let mut mods = vec![LOCAL_CRATE.as_def_id()];
        while let Some(m) = mods.pop() {
            if let Some(l) = m.as_local() {
                for ch in tcx.module_children_local(l) {
                    if let rustc_hir::def::Res::Def(k, d) = ch.res {
                        exports.push(arr(vec![
                            s(cx.path(m)),
                            s(ch.ident),
                            s(format!("{k:?}")),
                            s(cx.path(d)),
                            J::Bool(ch.vis.is_public()),
                        ]));
                        if k == DefKind::Mod && d.is_local() && ch.reexport_chain.is_empty() {
                            mods.push(d);
                        }
                    }
                }
            }
        }
        // inherent methods, so that who-may-call rules see uncalled ones too
        cx.drain_adts();
        // draining may add types, which may add adts
        loop {
            if cx.adt_queue.borrow().is_empty() {
                break;
            }
            cx.drain_adts();
        }

        let adts: Vec<(String, J)> = cx
            .adts
            .borrow_mut()
            .drain()
            .map(|(d, j)| (cx.path(d), j.unwrap_or(J::Null)))
            .collect();
        let tys: Vec<J> = cx.ty_out.borrow_mut().drain(..).map(|x| x.unwrap_or(J::Null)).collect();
        let crate_name = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut cfgs = vec![];
        for (k, v) in tcx.sess.config.iter() {
            if k.as_str() == "feature" {
                if let Some(v) = v {
                    cfgs.push(v.to_string());
                }
            }
        }
        cfgs.sort();
        let is_test = tcx.sess.is_test_crate();
        let j = obj(vec![
            ("crate", s(&crate_name)),
            ("features", arr(cfgs.iter().map(s).collect())),
            ("test", J::Bool(is_test)),
            ("bodies", arr(bodies)),
            ("types", arr(tys)),
            ("adts", J::Obj(adts)),
            ("impls", arr(impls)),
            ("exports", arr(exports)),
        ]);
        let mut text = String::new();
        j.write(&mut text);
        let path = format!("{out}/{crate_name}.json");
        let tmp = format!("{path}.tmp{}", std::process::id());
        std::fs::write(&tmp, text).expect("write dump");
        std::fs::rename(&tmp, &path).expect("rename dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Dump);
        std::process::ExitCode::SUCCESS
    });
    let _ = mir::START_BLOCK;
    code
}
