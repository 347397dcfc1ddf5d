use crate::json::J;
use rustc_abi::VariantIdx;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::{self as hir, intravisit};
use rustc_index::IndexVec;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty,
    TyCtxt, TypeVisitableExt, TypingEnv,
};
use rustc_span::Span;
use std::collections::HashMap;

type Stash<'tcx> =
    HashMap<LocalDefId, (Body<'tcx>, IndexVec<Promoted, Body<'tcx>>)>;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Key<'tcx> {
    Inst(Instance<'tcx>),
    Prom(Instance<'tcx>, Promoted),
    Const(DefId, GenericArgsRef<'tcx>),
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    stash: Stash<'tcx>,
    types: Vec<J>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    fn_ids: HashMap<Key<'tcx>, usize>,
    fns: Vec<J>,
    work: Vec<(usize, Key<'tcx>)>,
}

/// Modules of `core` whose generic combinators are stepped into.
const CORE_STEP: &[&str] = &[
    "::option", "::result", "::ops", "::iter", "::cmp", "::convert",
    "::clone", "::bool", "::default", "::tuple", "::borrow", "::mem", "::array", "::unit",
];

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

impl<'tcx> D<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        J::S(format!("{}:{}", f, loc.line))
    }
    fn line(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        J::u(loc.line)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.ty_ids.get(&t) {
            return J::u(*i);
        }
        let id = self.types.len();
        self.ty_ids.insert(t, id);
        self.types.push(J::Null);
        let tcx = self.tcx;
        let name = with_no_trimmed_paths!(format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![("s", J::S(name))];
        match t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(i) => {
                o.push(("k", J::s("int")));
                o.push(("bits", J::u(i.bit_width().unwrap_or(64) as usize)));
                o.push(("signed", J::B(true)));
            }
            ty::Uint(i) => {
                o.push(("k", J::s("int")));
                o.push(("bits", J::u(i.bit_width().unwrap_or(64) as usize)));
                o.push(("signed", J::B(false)));
            }
            ty::Float(_) => o.push(("k", J::s("float"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Array(e, n) => {
                let e = self.ty(*e);
                o.push(("k", J::s("array")));
                o.push(("elem", e));
                o.push((
                    "len",
                    n.try_to_target_usize(tcx).map(|n| J::I(n as i128)).unwrap_or(J::Null),
                ));
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                o.push(("k", J::s("slice")));
                o.push(("elem", e));
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                o.push(("k", J::s("ref")));
                o.push(("elem", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(e, _) => {
                let e = self.ty(*e);
                o.push(("k", J::s("ptr")));
                o.push(("elem", e));
            }
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("k", J::s("tuple")));
                o.push(("elems", J::A(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("path", J::S(path(tcx, def.did()))));
                o.push((
                    "kind",
                    J::s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                o.push(("local", J::B(def.did().is_local())));
                o.push(("crate", J::s(tcx.crate_name(def.did().krate))));
                let ga: Vec<J> =
                    args.types().map(|t| self.ty(t)).collect();
                o.push(("args", J::A(ga)));
                let expand = def.did().is_local()
                    || def.is_enum()
                    || tcx.crate_name(def.did().krate).as_str() == "core";
                let mut vs = vec![];
                if expand {
                    let discrs: Vec<(VariantIdx, u128)> = if def.is_enum() {
                        def.discriminants(tcx).map(|(i, d)| (i, d.val)).collect()
                    } else {
                        vec![]
                    };
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = tcx
                                .instantiate_and_normalize_erasing_regions(
                                    args,
                                    self.env,
                                    tcx.type_of(f.did),
                                );
                            let ft = self.ty(ft);
                            fs.push(J::A(vec![J::s(f.name), ft]));
                        }
                        let d = discrs
                            .iter()
                            .find(|(i, _)| *i == vi)
                            .map(|(_, d)| J::I(*d as i128))
                            .unwrap_or(J::Null);
                        vs.push(J::O(vec![
                            ("name", J::s(v.name)),
                            ("discr", d),
                            ("fields", J::A(fs)),
                        ]));
                    }
                }
                o.push(("variants", J::A(vs)));
            }
            ty::Closure(did, args) => {
                o.push(("k", J::s("closure")));
                o.push(("path", J::S(path(tcx, *did))));
                let up: Vec<J> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.ty(t))
                    .collect();
                o.push(("elems", J::A(up)));
            }
            ty::FnDef(did, args) => {
                o.push(("k", J::s("fndef")));
                let c = self.callee(*did, args.no_bound_vars().unwrap_or(args.skip_binder()));
                o.push(("callee", c));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::Param(_) => o.push(("k", J::s("param"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.types[id] = J::O(o);
        J::u(id)
    }

    fn wants_body(&self, inst: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        if inst.args.has_param() {
            return false;
        }
        match inst.def {
            InstanceKind::Item(d) => {
                if let Some(l) = d.as_local() {
                    return self.stash.contains_key(&l) || {
                        matches!(tcx.def_kind(d), DefKind::Ctor(..))
                    };
                }
                if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                    return false;
                }
                if tcx.crate_name(d.krate).as_str() != "core" {
                    return false;
                }
                let p = tcx.def_path(d).to_string_no_crate_verbose();
                if !CORE_STEP.iter().any(|m| {
                    p.starts_with(m)
                        && matches!(p.as_bytes().get(m.len()), Some(b':') | None)
                }) {
                    return false;
                }
                tcx.is_mir_available(d)
            }
            InstanceKind::Shim(
                ShimKind::FnPtr(..) | ShimKind::ClosureOnce { .. },
            ) => true,
            _ => false,
        }
    }

    fn fn_id(&mut self, k: Key<'tcx>) -> usize {
        if let Some(i) = self.fn_ids.get(&k) {
            return *i;
        }
        let id = self.fns.len();
        self.fns.push(J::Null);
        self.fn_ids.insert(k, id);
        self.work.push((id, k));
        id
    }

    /// Library overrides of iterator methods (any, find, fold...) are written
    /// over raw pointers; the trait's own default body means the same.
    fn default_iter_method(
        &self,
        inst: Instance<'tcx>,
        did: DefId,
        args: GenericArgsRef<'tcx>,
    ) -> Instance<'tcx> {
        let tcx = self.tcx;
        let rd = inst.def.def_id();
        if rd == did || rd.is_local() {
            return inst;
        }
        let Some(tr) = tcx.trait_of_assoc(did) else { return inst };
        let tp = path(tcx, tr);
        if tp != "std::iter::Iterator" && tp != "std::iter::DoubleEndedIterator" {
            return inst;
        }
        let name = tcx.item_name(did);
        if matches!(name.as_str(), "next" | "next_back" | "size_hint") {
            return inst;
        }
        if tcx.associated_item(did).defaultness(tcx).has_value() {
            Instance::new_raw(did, args)
        } else {
            inst
        }
    }

    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let kind = tcx.def_kind(did);
        let mut o: Vec<(&'static str, J)> = vec![("path", J::S(path(tcx, did)))];
        if let DefKind::Ctor(..) = kind {
            o.push(("kind", J::s("ctor")));
            // The enum/struct type and variant built.
            let parent = tcx.parent(did);
            let (adt, vname) = if tcx.def_kind(parent) == DefKind::Variant {
                (tcx.parent(parent), tcx.item_name(parent))
            } else {
                (parent, tcx.item_name(parent))
            };
            let t = tcx.instantiate_and_normalize_erasing_regions(
                args,
                self.env,
                tcx.type_of(adt),
            );
            let t = self.ty(t);
            o.push(("adt", t));
            o.push(("variant", J::s(vname)));
            return J::O(o);
        }
        let ta: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        o.push(("targs", J::A(ta)));
        if args.has_param() {
            o.push(("kind", J::s("generic")));
            return J::O(o);
        }
        let resolved = Instance::try_resolve(tcx, self.env, did, args);
        match resolved {
            Ok(Some(inst)) => {
                let inst = self.default_iter_method(inst, did, args);
                let k = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(s) => match s {
                        ShimKind::FnPtr(..) => "fnptr_shim",
                        ShimKind::ClosureOnce { .. } => "closure_once",
                        ShimKind::Clone(..) => "clone_shim",
                        ShimKind::DropGlue(..) => "drop_glue",
                        _ => "shim",
                    },
                };
                o.push(("kind", J::s(k)));
                let rd = inst.def.def_id();
                o.push(("rpath", J::S(path(tcx, rd))));
                o.push(("krate", J::s(tcx.crate_name(rd.krate))));
                o.push(("local", J::B(rd.is_local())));
                if tcx.is_closure_like(rd) {
                    o.push(("closure", J::B(true)));
                }
                let derived = tcx.impl_of_assoc(rd).map(|i| {
                    tcx.is_automatically_derived(i)
                });
                o.push(("derived", J::B(derived.unwrap_or(false))));
                if self.wants_body(inst) {
                    let id = self.fn_id(Key::Inst(inst));
                    o.push(("id", J::u(id)));
                }
            }
            _ => o.push(("kind", J::s("unresolved"))),
        }
        J::O(o)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![J::s("f"), J::u(f.as_usize()), t])
                }
                ProjectionElem::Index(l) => {
                    J::A(vec![J::s("i"), J::u(l.as_usize())])
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![
                        J::s("ci"),
                        J::I(offset as i128),
                        J::I(min_length as i128),
                        J::B(from_end),
                    ])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    J::s("ss"),
                    J::I(from as i128),
                    J::I(to as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Downcast(_, v) => {
                    J::A(vec![J::s("d"), J::u(v.as_usize())])
                }
                _ => J::s("x"),
            });
        }
        J::A(vec![J::u(p.local.as_usize()), J::A(pr)])
    }

    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                if off + len > a.len() {
                    return None;
                }
                Some(
                    a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len)
                        .to_vec(),
                )
            }
            _ => None,
        }
    }

    fn konst(&mut self, c: &Const<'tcx>, owner: Key<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tj = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("ty", tj)];
        if let ty::FnDef(..) = t.kind() {
            return J::O(vec![("ty", o.pop().unwrap().1), ("fn", J::B(true))]);
        }
        if let Const::Unevaluated(u, _) = c {
            o.push(("name", J::S(path(tcx, u.def))));
            if let Some(p) = u.promoted {
                if let Key::Inst(i) = owner {
                    let id = self.fn_id(Key::Prom(i, p));
                    o.push(("ref", J::u(id)));
                    return J::O(o);
                }
                if let Key::Const(d, args) = owner {
                    let inst = Instance::new_raw(d, args);
                    let id = self.fn_id(Key::Prom(inst, p));
                    o.push(("ref", J::u(id)));
                    return J::O(o);
                }
            }
            let simple = t.is_integral() || t.is_bool() || t.is_char()
                || matches!(t.kind(), ty::Ref(_, e, _) if e.is_str());
            if !simple && u.promoted.is_none() && !u.args.has_param() {
                if let Some(l) = u.def.as_local() {
                    if self.stash.contains_key(&l) {
                        let id = self.fn_id(Key::Const(u.def, u.args));
                        o.push(("ref", J::u(id)));
                        return J::O(o);
                    }
                }
            }
        }
        let v = match c.eval(tcx, self.env, rustc_span::DUMMY_SP) {
            Ok(v) => v,
            Err(_) => {
                o.push(("unk", J::s("eval")));
                return J::O(o);
            }
        };
        self.konst_value(v, t, &mut o);
        J::O(o)
    }

    /// The parts of a constant of a struct, enum or tuple type.
    fn parts(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(d, _) if d.did().is_local() || tcx.crate_name(d.did().krate).as_str() == "core" => (),
            ty::Tuple(_) => (),
            _ => return None,
        }
        let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
        let fields = d
            .fields
            .iter()
            .map(|(v, t)| {
                let mut o = vec![("ty", self.ty(*t))];
                self.konst_value(*v, *t, &mut o);
                J::O(o)
            })
            .collect();
        Some(J::O(vec![
            ("variant", d.variant.map(|v| J::u(v.as_usize())).unwrap_or(J::Null)),
            ("fields", J::A(fields)),
        ]))
    }

    fn konst_value(&mut self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size();
                let mut b = i.to_bits(size) as i128;
                if let ty::Int(_) = t.kind() {
                    let bits = size.bits();
                    if bits < 128 && b >= (1i128 << (bits - 1)) {
                        b -= 1i128 << bits;
                    }
                }
                let plain = match t.kind() {
                    ty::Adt(d, _) => d.is_enum() && d.variants().iter().all(|v| v.fields.is_empty()),
                    _ => true,
                };
                if !plain {
                    if let Some(p) = self.parts(v, t) {
                        o.push(("parts", p));
                        return;
                    }
                }
                if t.is_floating_point() {
                    o.push(("float", J::S(format!("{:?}", b))));
                } else {
                    o.push(("int", J::S(b.to_string())));
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Static(d)) => {
                        o.push(("static", J::S(path(tcx, d))));
                    }
                    Some(GlobalAlloc::Memory(m)) => {
                        // e.g. &[u8; N] of format templates
                        let n = m.inner().len();
                        let offb = off.bytes() as usize;
                        if let ty::Ref(_, e, _) = t.kind() {
                            let isb = match e.kind() {
                                ty::Array(b, _) | ty::Slice(b) => *b == tcx.types.u8,
                                _ => false,
                            };
                            if isb {
                                if let Some(b) = self.alloc_bytes(prov.alloc_id(), offb, n - offb) {
                                    o.push(("bytes", J::A(b.iter().map(|x| J::u(*x as usize)).collect())));
                                }
                            } else {
                                o.push(("unk", J::s("mem")));
                            }
                        } else {
                            o.push(("unk", J::s("mem")));
                        }
                    }
                    _ => o.push(("unk", J::s("ptr"))),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let Some(b) = self.alloc_bytes(alloc_id, 0, meta as usize) {
                    match t.kind() {
                        ty::Ref(_, e, _) if e.is_str() => {
                            o.push(("str", J::S(String::from_utf8_lossy(&b).to_string())));
                        }
                        _ => o.push(("bytes", J::A(b.iter().map(|x| J::u(*x as usize)).collect()))),
                    }
                } else {
                    o.push(("unk", J::s("slice")));
                }
            }
            ConstValue::Indirect { .. } => match self.parts(v, t) {
                Some(p) => o.push(("parts", p)),
                None => o.push(("unk", J::s("indirect"))),
            },
        }
    }

    fn operand(&mut self, op: &Operand<'tcx>, owner: Key<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![J::s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![J::s("m"), self.place(p)]),
            Operand::Constant(c) => {
                let c = self.konst(&c.const_, owner);
                J::A(vec![J::s("k"), c])
            }
            Operand::RuntimeChecks(_) => J::A(vec![J::s("rc")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, ow: Key<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![J::s("use"), self.operand(o, ow)]),
            Rvalue::Repeat(o, n) => J::A(vec![
                J::s("rep"),
                self.operand(o, ow),
                n.try_to_target_usize(self.tcx).map(|n| J::I(n as i128)).unwrap_or(J::Null),
            ]),
            Rvalue::Ref(_, k, p) => J::A(vec![
                J::s("ref"),
                self.place(p),
                J::B(matches!(k, BorrowKind::Mut { .. })),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("raw"), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                J::A(vec![J::s("cast"), J::S(ks), self.operand(o, ow), self.ty(*t)])
            }
            Rvalue::BinaryOp(b, ops) => J::A(vec![
                J::s("bin"),
                J::S(format!("{:?}", b)),
                self.operand(&ops.0, ow),
                self.operand(&ops.1, ow),
            ]),
            Rvalue::UnaryOp(u, o) => J::A(vec![
                J::s("un"),
                J::S(format!("{:?}", u)),
                self.operand(o, ow),
            ]),
            Rvalue::Discriminant(p) => J::A(vec![J::s("disc"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> =
                    ops.iter().map(|o| self.operand(o, ow)).collect();
                let (ks, t, v) = match &**k {
                    AggregateKind::Array(t) => {
                        ("array", self.ty(*t), 0)
                    }
                    AggregateKind::Tuple => ("tuple", J::Null, 0),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let t = self
                            .tcx
                            .instantiate_and_normalize_erasing_regions(
                                args,
                                self.env,
                                self.tcx.type_of(*d),
                            );
                        ("adt", self.ty(t), v.as_usize())
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        if d.is_local() {
                            // The body is needed even where only a modelled
                            // library function calls it.
                            self.fn_id(Key::Inst(Instance::new_raw(*d, args)));
                        }
                        ("closure", self.ty(t), 0)
                    }
                    _ => ("other", J::Null, 0),
                };
                J::A(vec![J::s("agg"), J::s(ks), t, J::u(v), J::A(ops)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![
                J::s("use"),
                J::A(vec![J::s("c"), self.place(p)]),
            ]),
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(p)]), J::B(m.is_mut())])
            }
            _ => J::A(vec![J::s("unsupported"), J::S(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, ow: Key<'tcx>) -> Vec<(&'static str, J)> {
        let locals: Vec<J> =
            b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![J::u(p.local.as_usize()), J::s(v.name)]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0);
                        let r = self.rvalue(&x.1, ow);
                        st.push(J::A(vec![J::s("="), p, r, ln]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![J::s("setd"), p, J::u(variant_index.as_usize())]));
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(J::A(vec![J::s("live"), J::u(l.as_usize())]))
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![J::s("dead"), J::u(l.as_usize())]))
                    }
                    StatementKind::Intrinsic(i) => {
                        if !matches!(**i, NonDivergingIntrinsic::Assume(_)) {
                            st.push(J::A(vec![J::s("unsupported"), J::S(format!("{:?}", s.kind))]));
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let bbj = |x: &BasicBlock| J::u(x.as_usize());
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    J::A(vec![J::s("goto"), bbj(target)])
                }
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![J::s("goto"), bbj(real_target)])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&b.local_decls, self.tcx);
                    let signed = dty.is_signed();
                    let o = self.operand(discr, ow);
                    let bits = match dty.kind() {
                        ty::Int(i) => i.bit_width().unwrap_or(64),
                        _ => 128,
                    };
                    let vs: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| {
                            let mut v = v as i128;
                            if signed && bits < 128 && v >= (1i128 << (bits - 1)) {
                                v -= 1i128 << bits;
                            }
                            J::A(vec![J::I(v), J::u(b.as_usize())])
                        })
                        .collect();
                    J::A(vec![J::s("switch"), o, J::A(vs), bbj(&targets.otherwise()), ln])
                }
                TerminatorKind::Return => J::A(vec![J::s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![J::s("unreach"), ln]),
                TerminatorKind::UnwindResume
                | TerminatorKind::UnwindTerminate(_) => J::A(vec![J::s("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    J::A(vec![J::s("drop"), p, bbj(target)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, ow);
                    let a: Vec<J> =
                        args.iter().map(|a| self.operand(&a.node, ow)).collect();
                    let d = self.place(destination);
                    J::A(vec![
                        J::s("call"),
                        f,
                        J::A(a),
                        d,
                        target.as_ref().map(bbj).unwrap_or(J::Null),
                        ln,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, ow);
                    let m = format!("{:?}", msg);
                    let m = m.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    let (mk, ops) = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => (
                            "bounds".to_string(),
                            vec![self.operand(len, ow), self.operand(index, ow)],
                        ),
                        mir::AssertKind::Overflow(b, x, y) => (
                            format!("overflow{:?}", b),
                            vec![self.operand(x, ow), self.operand(y, ow)],
                        ),
                        mir::AssertKind::OverflowNeg(x) => {
                            ("overflowNeg".to_string(), vec![self.operand(x, ow)])
                        }
                        _ => (m, vec![]),
                    };
                    J::A(vec![
                        J::s("assert"),
                        c,
                        J::B(*expected),
                        J::S(mk),
                        J::A(ops),
                        bbj(target),
                        ln,
                    ])
                }
                k => J::A(vec![J::s("unsupported"), J::S(format!("{:?}", k))]),
            };
            blocks.push(J::A(vec![J::A(st), tj]));
        }
        let mut o = vec![
            ("argc", J::u(b.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("span", self.span(b.span)),
            ("blocks", J::A(blocks)),
        ];
        if let Some(s) = b.spread_arg {
            o.push(("spread", J::u(s.as_usize())));
        }
        o
    }

    fn run(&mut self) {
        while let Some((id, k)) = self.work.pop() {
            let tcx = self.tcx;
            let env = self.env;
            let (bodies, hdr): (Body<'tcx>, Vec<(&'static str, J)>) = match k {
                Key::Inst(inst) => {
                    let d = inst.def.def_id();
                    let raw = match inst.def {
                        InstanceKind::Item(d)
                            if d.as_local()
                                .map(|l| self.stash.contains_key(&l))
                                .unwrap_or(false) =>
                        {
                            self.stash[&d.expect_local()].0.clone()
                        }
                        _ => tcx.instance_mir(inst.def).clone(),
                    };
                    let body = inst
                        .instantiate_mir_and_normalize_erasing_regions(
                            tcx,
                            env,
                            EarlyBinder::bind(tcx, raw),
                        );
                    let ta: Vec<J> =
                        inst.args.types().map(|t| self.ty(t)).collect();
                    let kind = match inst.def {
                        InstanceKind::Item(_) => {
                            if tcx.is_closure_like(d) { "closure" } else { "fn" }
                        }
                        _ => "shim",
                    };
                    let impl_self = tcx
                        .impl_of_assoc(d)
                        .map(|i| {
                            let t = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                            J::S(with_no_trimmed_paths!(format!("{}", t)))
                        })
                        .unwrap_or(J::Null);
                    let trait_ref = tcx
                        .impl_of_assoc(d)
                        .and_then(|i| tcx.impl_opt_trait_ref(i))
                        .map(|t| J::S(path(tcx, t.skip_binder().def_id)))
                        .unwrap_or(J::Null);
                    (
                        body,
                        vec![
                            ("path", J::S(path(tcx, d))),
                            ("name", tcx.opt_item_name(d).map(J::s).unwrap_or(J::Null)),
                            ("kind", J::s(kind)),
                            ("local", J::B(d.is_local())),
                            ("impl_self", impl_self),
                            ("trait", trait_ref),
                            ("derived", J::B(tcx.impl_of_assoc(d).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false))),
                            ("targs", J::A(ta)),
                            ("macro", J::B(tcx.def_span(d).from_expansion())),
                        ],
                    )
                }
                Key::Prom(inst, p) => {
                    let d = inst.def.def_id();
                    let raw = match d.as_local() {
                        Some(l) if self.stash.contains_key(&l) => {
                            self.stash[&l].1[p].clone()
                        }
                        _ => match inst.def {
                            InstanceKind::Item(d) => tcx.promoted_mir(d)[p].clone(),
                            _ => continue,
                        },
                    };
                    let body = inst
                        .instantiate_mir_and_normalize_erasing_regions(
                            tcx,
                            env,
                            EarlyBinder::bind(tcx, raw),
                        );
                    (
                        body,
                        vec![
                            ("path", J::S(format!("{}::promoted", path(tcx, d)))),
                            ("kind", J::s("promoted")),
                            ("local", J::B(d.is_local())),
                        ],
                    )
                }
                Key::Const(d, args) => {
                    let raw = self.stash[&d.expect_local()].0.clone();
                    let inst = Instance::new_raw(d, args);
                    let body = inst
                        .instantiate_mir_and_normalize_erasing_regions(
                            tcx,
                            env,
                            EarlyBinder::bind(tcx, raw),
                        );
                    (
                        body,
                        vec![
                            ("path", J::S(path(tcx, d))),
                            ("kind", J::s("const")),
                            ("local", J::B(true)),
                        ],
                    )
                }
            };
            let mut o = hdr;
            let b = self.body(&bodies, k);
            o.extend(b);
            self.fns[id] = J::O(o);
        }
    }
}

struct UnsafeV<'a, 'tcx> {
    d: &'a D<'tcx>,
    out: Vec<J>,
}

impl<'a, 'tcx> intravisit::Visitor<'tcx> for UnsafeV<'a, 'tcx> {
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            self.out.push(J::O(vec![
                ("what", J::s("unsafe block")),
                ("span", self.d.span(b.span)),
                ("user", J::B(matches!(src, hir::UnsafeSource::UserProvided))),
                ("expansion", J::B(b.span.from_expansion())),
            ]));
        }
        intravisit::walk_block(self, b)
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut stash: Stash<'tcx> = HashMap::new();
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    let mut facts: Vec<J> = vec![];
    for &o in &owners {
        match tcx.def_kind(o) {
            DefKind::AnonConst | DefKind::GlobalAsm => continue,
            _ => {}
        }
        if tcx.is_constructor(o.to_def_id()) {
            continue;
        }
        let (b, p) = tcx.mir_promoted(o);
        if b.is_stolen() || p.is_stolen() {
            // A constant that was needed to check something else.
            if tcx.hir_body_const_context(o).is_some()
                && !matches!(tcx.def_kind(o), DefKind::Fn | DefKind::AssocFn)
            {
                let b = tcx.mir_for_ctfe(o).clone();
                let p = tcx.promoted_mir(o).clone();
                stash.insert(o, (b, p));
            }
            continue;
        }
        let b = b.borrow().clone();
        let p = p.borrow().clone();
        stash.insert(o, (b, p));
    }
    let mut d = D {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        stash,
        types: vec![],
        ty_ids: HashMap::new(),
        fn_ids: HashMap::new(),
        fns: vec![],
        work: vec![],
    };
    // Item-level facts.
    {
        let mut v = UnsafeV { d: &d, out: vec![] };
        for &o in &owners {
            if tcx.is_closure_like(o.to_def_id()) {
                continue;
            }
            if let Some(b) = tcx.hir_maybe_body_owned_by(o) {
                intravisit::Visitor::visit_body(&mut v, b);
            }
        }
        facts.extend(v.out);
    }
    let mut items = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        let k = tcx.def_kind(did);
        let mut o = vec![
            ("path", J::S(path(tcx, did))),
            ("kind", J::S(format!("{:?}", k))),
            ("span", d.span(tcx.def_span(did))),
            ("expansion", J::B(tcx.def_span(did).from_expansion())),
        ];
        match k {
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                o.push(("unsafe", J::B(!sig.safety().is_safe())));
                o.push(("hasbody", J::B(d.stash.contains_key(&id))));
                let g = tcx.generics_of(did);
                o.push(("generic", J::B(g.requires_monomorphization(tcx))));
                o.push(("vis", J::B(tcx.visibility(did).is_public())));
            }
            DefKind::Static { .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                o.push(("ty", J::S(format!("{}", t))));
                o.push(("freeze", J::B(t.is_freeze(tcx, d.env))));
                o.push(("mutable", J::B(tcx.is_mutable_static(did))));
            }
            DefKind::Impl { of_trait: true } => {
                let tr = tcx.impl_trait_ref(did).skip_binder();
                o.push(("trait", J::S(path(tcx, tr.def_id))));
                o.push(("self", J::S(with_no_trimmed_paths!(format!("{}", tr.self_ty())))));
                o.push(("derived", J::B(tcx.is_automatically_derived(did))));
                o.push((
                    "unsafe",
                    J::B(!tcx.impl_trait_header(did).safety.is_safe()),
                ));
            }
            DefKind::Struct | DefKind::Enum => {
                if !tcx.generics_of(did).requires_monomorphization(tcx) {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let t = d.ty(t);
                    o.push(("ty", t));
                }
            }
            _ => {}
        }
        items.push(J::O(o));
    }
    // Roots: every non-generic local function and constant.
    for &o in &owners {
        if !d.stash.contains_key(&o) {
            continue;
        }
        let did = o.to_def_id();
        if tcx.is_closure_like(did) || tcx.generics_of(did).requires_monomorphization(tcx) {
            continue;
        }
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => {
                let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => tcx.mk_param_from_def(p),
                });
                let inst = Instance::new_raw(did, args);
                d.fn_id(Key::Inst(inst));
            }
            _ => {}
        }
    }
    // Serialisers, with the serializer the WebAssembly entry point uses.
    if let Some(ser) = serializer_type(tcx) {
        for &o in &owners {
            let did = o.to_def_id();
            if !d.stash.contains_key(&o)
                || tcx.def_kind(did) != DefKind::AssocFn
                || tcx.item_name(did).as_str() != "serialize"
            {
                continue;
            }
            let Some(imp) = tcx.trait_impl_of_assoc(did) else { continue };
            let tr = tcx.impl_trait_ref(imp).skip_binder().def_id;
            if tcx.item_name(tr).as_str() != "Serialize"
                || !tcx.crate_name(tr.krate).as_str().starts_with("serde")
            {
                continue;
            }
            let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                ty::GenericParamDefKind::Type { .. } if tcx.parent(p.def_id) == did => {
                    ser.into()
                }
                ty::GenericParamDefKind::Type { .. } => tcx.types.bool.into(),
                _ => tcx.mk_param_from_def(p),
            });
            if args.has_param() {
                continue;
            }
            let inst = Instance::new_raw(did, args);
            d.fn_id(Key::Inst(inst));
        }
    }
    d.run();
    // Generic local functions never instantiated are listed by the items table.
    let types = std::mem::take(&mut d.types);
    let fns = std::mem::take(&mut d.fns);
    let j = J::O(vec![
        ("crate", J::s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE))),
        ("types", J::A(types)),
        ("fns", J::A(fns)),
        ("items", J::A(items)),
        ("facts", J::A(facts)),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    std::fs::write(out, s).expect("cannot write the dump");
}

/// The serializer type of the crate that makes JavaScript values.
fn serializer_type<'tcx>(tcx: TyCtxt<'tcx>) -> Option<Ty<'tcx>> {
    for &c in tcx.crates(()) {
        if tcx.crate_name(c).as_str() != "serde_wasm_bindgen" {
            continue;
        }
        for &imp in tcx.trait_impls_in_crate(c) {
            let h = tcx.impl_trait_ref(imp).skip_binder();
            if tcx.item_name(h.def_id).as_str() == "Serializer" {
                return Some(tcx.erase_and_anonymize_regions(h.self_ty()));
            }
        }
    }
    None
}
