// mirfacts: a rustc driver that dumps the resolved, typed MIR of the local crate as JSON facts.
// It decides nothing; the rules live in /verif/checker.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: RefCell<HashMap<Ty<'tcx>, usize>>,
    tyrows: RefCell<Vec<Option<J>>>,
    adts: RefCell<HashMap<DefId, ()>>,
    adt_queue: RefCell<Vec<DefId>>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}

impl<'tcx> Cx<'tcx> {
    fn ty(&self, t: Ty<'tcx>) -> J {
        J::I(self.ty_id(t) as i128)
    }
    fn ty_id(&self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.borrow().get(&t) {
            return *i;
        }
        let id = self.tyrows.borrow().len();
        self.tys.borrow_mut().insert(t, id);
        self.tyrows.borrow_mut().push(None);
        let pretty = with_no_trimmed_paths!(format!("{}", t));
        let mut o = vec![("s", s(pretty))];
        let args = |a: ty::GenericArgsRef<'tcx>| J::A(a.types().map(|t| self.ty(t)).collect());
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", s("int"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Adt(def, a) => {
                self.need_adt(def.did());
                o.push(("k", s("adt")));
                o.push(("p", s(path(self.tcx, def.did()))));
                o.push(("a", args(a)));
            }
            ty::Ref(_, t, m) => {
                o.push(("k", s("ref")));
                o.push(("t", self.ty(*t)));
                o.push(("m", J::B(m.is_mut())));
            }
            ty::RawPtr(t, m) => {
                o.push(("k", s("ptr")));
                o.push(("t", self.ty(*t)));
                o.push(("m", J::B(m.is_mut())));
            }
            ty::Slice(t) => {
                o.push(("k", s("slice")));
                o.push(("t", self.ty(*t)));
            }
            ty::Array(t, n) => {
                o.push(("k", s("array")));
                o.push(("t", self.ty(*t)));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("n", J::I(n as i128)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                o.push(("a", J::A(ts.iter().map(|t| self.ty(t)).collect())));
            }
            ty::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                o.push(("p", s(path(self.tcx, *d))));
                o.push(("a", args(a.no_bound_vars().unwrap())));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Closure(d, a) => {
                o.push(("k", s("closure")));
                o.push(("p", s(path(self.tcx, *d))));
                o.push((
                    "a",
                    J::A(a.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect()),
                ));
            }
            ty::Dynamic(preds, ..) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("p", s(path(self.tcx, p))));
                }
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("p", s(p.name.to_string())));
            }
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.tyrows.borrow_mut()[id] = Some(J::O(o));
        id
    }
    fn need_adt(&self, d: DefId) {
        if self.adts.borrow_mut().insert(d, ()).is_none() {
            self.adt_queue.borrow_mut().push(d);
        }
    }
    fn adt_json(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let disc = if def.is_enum() {
                J::S(def.discriminant_for_variant(tcx, vi).val.to_string())
            } else {
                J::Null
            };
            let fields = v
                .fields
                .iter()
                .map(|f| {
                    let t = if d.is_local() {
                        self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())
                    } else {
                        J::Null
                    };
                    J::A(vec![s(f.name.to_string()), t])
                })
                .collect();
            vs.push(J::O(vec![
                ("name", s(v.name.to_string())),
                ("disc", disc),
                ("fields", J::A(fields)),
            ]));
        }
        J::O(vec![
            ("path", s(path(tcx, d))),
            ("local", J::B(d.is_local())),
            ("enum", J::B(def.is_enum())),
            ("variants", J::A(vs)),
        ])
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let exp = sp.from_expansion();
        let sp2 = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp2.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        J::S(format!("{}:{}{}", f, lo.line, if exp { "!" } else { "" }))
    }

    fn place(&self, p: &mir::Place<'tcx>, body: &mir::Body<'tcx>) -> J {
        let mut v = vec![J::I(p.local.as_usize() as i128)];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                mir::ProjectionElem::Deref => s("*"),
                mir::ProjectionElem::Field(f, fty) => {
                    // name of the field when known
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_enum() || def.is_struct() {
                                def.variants()
                                    .get(vi)
                                    .and_then(|v| v.fields.get(f))
                                    .map(|f| f.name.to_string())
                            } else {
                                None
                            }
                        }
                        _ => None,
                    };
                    J::O(vec![
                        ("f", s(name.unwrap_or_else(|| f.as_usize().to_string()))),
                        ("i", J::I(f.as_usize() as i128)),
                        ("t", self.ty(fty)),
                    ])
                }
                mir::ProjectionElem::Index(l) => {
                    J::O(vec![("ix", J::I(l.as_usize() as i128))])
                }
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => J::O(vec![
                    ("cix", J::I(offset as i128)),
                    ("end", J::B(from_end)),
                ]),
                mir::ProjectionElem::Subslice { from, to, from_end } => J::O(vec![
                    ("sub", J::I(from as i128)),
                    ("to", J::I(to as i128)),
                    ("end", J::B(from_end)),
                ]),
                mir::ProjectionElem::Downcast(name, vi) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(vi).name.to_string(),
                        _ => name.map(|n| n.to_string()).unwrap_or_default(),
                    };
                    J::O(vec![("v", s(n)), ("vi", J::I(vi.as_usize() as i128))])
                }
                _ => s("?"),
            };
            v.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(v)
    }

    fn scalar(&self, sc: Scalar, ty: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        match sc {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                match ty.kind() {
                    ty::Bool => J::O(vec![("bool", J::B(bits != 0))]),
                    ty::Char => J::O(vec![(
                        "char",
                        s(char::from_u32(bits as u32).unwrap_or('?').to_string()),
                    )]),
                    ty::Int(_) => {
                        let size = i.size();
                        let v = size.sign_extend(bits) as i128;
                        J::O(vec![("int", J::S(v.to_string()))])
                    }
                    ty::Float(_) => J::O(vec![("float", J::S(bits.to_string()))]),
                    _ => J::O(vec![("int", J::S(bits.to_string()))]),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                let alloc_id = prov.alloc_id();
                match tcx.try_get_global_alloc(alloc_id) {
                    Some(GlobalAlloc::Static(d)) => {
                        J::O(vec![("static", s(path(tcx, d)))])
                    }
                    Some(GlobalAlloc::Memory(_)) => {
                        if let Some(inner) = ty.builtin_deref(true) {
                            if inner.is_sized(tcx, TypingEnv::fully_monomorphized()) {
                                let v = ConstValue::Indirect { alloc_id, offset: off };
                                return J::O(vec![("ref", self.cval(v, inner, depth + 1))]);
                            }
                        }
                        J::O(vec![("opaque", s("ptr"))])
                    }
                    Some(GlobalAlloc::Function { instance }) => {
                        J::O(vec![("fnptr", s(path(tcx, instance.def_id())))])
                    }
                    _ => J::O(vec![("opaque", s("ptr"))]),
                }
            }
        }
    }

    fn bytes_of(&self, b: &[u8]) -> J {
        J::A(b.iter().map(|x| J::I(*x as i128)).collect())
    }

    fn cval(&self, v: ConstValue, ty: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 8 {
            return J::O(vec![("opaque", s("depth"))]);
        }
        if ty.has_param_() {
            return J::O(vec![("opaque", s("generic"))]);
        }
        match ty.kind() {
            ty::FnDef(..) | ty::Closure(..) => return J::O(vec![("zst", self.ty(ty))]),
            _ => {}
        }
        match v {
            ConstValue::ZeroSized => return J::O(vec![("zst", self.ty(ty))]),
            ConstValue::Scalar(sc) => {
                match ty.kind() {
                    ty::Bool
                    | ty::Char
                    | ty::Int(_)
                    | ty::Uint(_)
                    | ty::Float(_)
                    | ty::Ref(..)
                    | ty::RawPtr(..)
                    | ty::FnPtr(..) => return self.scalar(sc, ty, depth),
                    _ => {}
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let Some(inner) = ty.builtin_deref(true) {
                    return self.slice_at(alloc_id, 0, meta, inner, depth);
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                // leaf types: read from memory
                if let ty::Array(et, n) = ty.kind() {
                    if *et == tcx.types.u8 {
                        if let (Some(GlobalAlloc::Memory(a)), Some(n)) =
                            (tcx.try_get_global_alloc(alloc_id), n.try_to_target_usize(tcx))
                        {
                            let o = offset.bytes_usize();
                            let b = a
                                .inner()
                                .inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                            return J::O(vec![("bytes", self.bytes_of(b))]);
                        }
                    }
                }
                let leaf = matches!(
                    ty.kind(),
                    ty::Bool
                        | ty::Char
                        | ty::Int(_)
                        | ty::Uint(_)
                        | ty::Float(_)
                        | ty::Ref(..)
                        | ty::RawPtr(..)
                        | ty::FnPtr(..)
                );
                if leaf {
                    if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                        let a = a.inner();
                        let layout = match tcx
                            .layout_of(TypingEnv::fully_monomorphized().as_query_input(ty))
                        {
                            Ok(l) => l,
                            Err(_) => return J::O(vec![("opaque", s("layout"))]),
                        };
                        let wide = ty
                            .builtin_deref(true)
                            .map(|i| !i.is_sized(tcx, TypingEnv::fully_monomorphized()))
                            .unwrap_or(false);
                        let ptr_size = tcx.data_layout.pointer_size();
                        let isptr = matches!(
                            ty.kind(),
                            ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..)
                        );
                        let sz = if isptr { ptr_size } else { layout.size };
                        let sc = a.read_scalar(
                            &tcx,
                            rustc_middle::mir::interpret::alloc_range(offset, sz),
                            isptr,
                        );
                        match sc {
                            Ok(sc) => {
                                if wide {
                                    let meta = a.read_scalar(
                                        &tcx,
                                        rustc_middle::mir::interpret::alloc_range(
                                            offset + ptr_size,
                                            ptr_size,
                                        ),
                                        false,
                                    );
                                    if let (Scalar::Ptr(p, _), Ok(Scalar::Int(m))) = (sc, meta) {
                                        let (prov, off) = p.prov_and_relative_offset();
                                        if let Some(inner) = ty.builtin_deref(true) {
                                            return self.slice_at(
                                                prov.alloc_id(),
                                                off.bytes_usize(),
                                                m.to_bits(m.size()) as u64,
                                                inner,
                                                depth,
                                            );
                                        }
                                    }
                                    return J::O(vec![("opaque", s("wide"))]);
                                }
                                return self.scalar(sc, ty, depth);
                            }
                            Err(_) => return J::O(vec![("opaque", s("read"))]),
                        }
                    }
                }
            }
        }
        // aggregates
        match ty.kind() {
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ty::Adt(d, _) = ty.kind() {
                    if d.is_union() {
                        return J::O(vec![("opaque", s("union"))]);
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, ty) {
                    Some(d) => {
                        let fields = J::A(
                            d.fields
                                .iter()
                                .map(|(fv, fty)| self.cval(*fv, *fty, depth + 1))
                                .collect(),
                        );
                        let mut o = vec![("agg", self.ty(ty)), ("fields", fields)];
                        if let (ty::Adt(def, _), Some(vi)) = (ty.kind(), d.variant) {
                            o.push(("variant", s(def.variant(vi).name.to_string())));
                        }
                        J::O(o)
                    }
                    None => J::O(vec![("opaque", s("destructure"))]),
                }
            }
            _ => J::O(vec![("opaque", s("other"))]),
        }
    }

    fn slice_at(
        &self,
        alloc_id: rustc_middle::mir::interpret::AllocId,
        off: usize,
        n: u64,
        inner: Ty<'tcx>,
        depth: usize,
    ) -> J {
        let tcx = self.tcx;
        let a = match tcx.try_get_global_alloc(alloc_id) {
            Some(GlobalAlloc::Memory(a)) => a.inner(),
            _ => return J::O(vec![("opaque", s("slice"))]),
        };
        match inner.kind() {
            ty::Str => {
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + n as usize);
                J::O(vec![("str", s(String::from_utf8_lossy(b).into_owned()))])
            }
            ty::Slice(et) if *et == tcx.types.u8 => {
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + n as usize);
                J::O(vec![("ref", J::O(vec![("bytes", self.bytes_of(b))]))])
            }
            ty::Slice(et) => {
                let layout =
                    match tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(*et)) {
                        Ok(l) => l,
                        Err(_) => return J::O(vec![("opaque", s("layout"))]),
                    };
                let mut v = vec![];
                for i in 0..n {
                    let o = off as u64 + i * layout.size.bytes();
                    v.push(self.cval(
                        ConstValue::Indirect {
                            alloc_id,
                            offset: rustc_abi::Size::from_bytes(o),
                        },
                        *et,
                        depth + 1,
                    ));
                }
                J::O(vec![("ref", J::O(vec![("agg", J::Null), ("fields", J::A(v))]))])
            }
            _ => J::O(vec![("opaque", s("slice?"))]),
        }
    }

    fn konst(&self, c: &mir::ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        let mut o = vec![("t", self.ty(ty))];
        // named constants
        if let mir::Const::Unevaluated(uv, _) = c.const_ {
            if uv.promoted.is_none() {
                o.push(("name", s(path(tcx, uv.def))));
            }
        }
        match ty.kind() {
            ty::FnDef(d, a) => {
                o.push(("fn", self.callee(*d, a.no_bound_vars().unwrap(), env)));
                return J::O(vec![("c", J::O(o))]);
            }
            _ => {}
        }
        let v = match c.const_.eval(tcx, env, c.span) {
            Ok(v) => self.cval(v, ty, 0),
            Err(_) => J::O(vec![("opaque", s("eval"))]),
        };
        o.push(("v", v));
        J::O(vec![("c", J::O(o))])
    }

    fn callee(&self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let a = tcx.erase_and_anonymize_regions(a);
        let mut o = vec![
            ("p", s(path(tcx, d))),
            ("local", J::B(d.is_local())),
            ("a", J::A(a.types().map(|t| self.ty(t)).collect())),
        ];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, tr))));
        }
        // crate-qualified name
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, a) {
            let rd = inst.def_id();
            let kind = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Virtual(..) => "virtual",
                _ => "shim",
            };
            o.push(("rk", s(kind)));
            if rd != d {
                o.push(("r", s(path(tcx, rd))));
                o.push(("rlocal", J::B(rd.is_local())));
            }
        }
        J::O(o)
    }

    fn operand(&self, x: &mir::Operand<'tcx>, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match x {
            mir::Operand::Copy(p) => J::O(vec![("cp", self.place(p, body))]),
            mir::Operand::Move(p) => J::O(vec![("mv", self.place(p, body))]),
            mir::Operand::Constant(c) => self.konst(c, env),
            _ => J::O(vec![("rt", s(format!("{:?}", x)))]),
        }
    }

    fn rvalue(&self, r: &mir::Rvalue<'tcx>, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let op = |x: &mir::Operand<'tcx>| self.operand(x, body, env);
        match r {
            mir::Rvalue::Use(x, ..) => J::O(vec![("k", s("use")), ("x", op(x))]),
            mir::Rvalue::Repeat(x, n) => J::O(vec![
                ("k", s("repeat")),
                ("x", op(x)),
                (
                    "n",
                    n.try_to_target_usize(self.tcx)
                        .map(|n| J::I(n as i128))
                        .unwrap_or(J::Null),
                ),
            ]),
            mir::Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("m", J::B(matches!(bk, mir::BorrowKind::Mut { .. }))),
                ("p", self.place(p, body)),
            ]),
            mir::Rvalue::RawPtr(_, p) => {
                J::O(vec![("k", s("ref")), ("m", J::B(true)), ("p", self.place(p, body))])
            }
            mir::Rvalue::Cast(k, x, t) => J::O(vec![
                ("k", s("cast")),
                ("ck", s(format!("{:?}", k))),
                ("x", op(x)),
                ("t", self.ty(*t)),
            ]),
            mir::Rvalue::BinaryOp(b, x) => J::O(vec![
                ("k", s("bin")),
                ("op", s(format!("{:?}", b))),
                ("x", op(&x.0)),
                ("y", op(&x.1)),
            ]),
            mir::Rvalue::UnaryOp(u, x) => J::O(vec![
                ("k", s("un")),
                ("op", s(format!("{:?}", u))),
                ("x", op(x)),
            ]),
            mir::Rvalue::Discriminant(p) => {
                J::O(vec![("k", s("discr")), ("p", self.place(p, body))])
            }
            mir::Rvalue::Aggregate(k, xs) => {
                let xs = J::A(xs.iter().map(|x| op(x)).collect());
                let mut o = vec![("k", s("agg"))];
                match &**k {
                    mir::AggregateKind::Array(_) => o.push(("ak", s("array"))),
                    mir::AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    mir::AggregateKind::Adt(d, vi, _, _, _) => {
                        self.need_adt(*d);
                        let def = self.tcx.adt_def(*d);
                        o.push(("ak", s("adt")));
                        o.push(("p", s(path(self.tcx, *d))));
                        o.push(("v", s(def.variant(*vi).name.to_string())));
                        o.push((
                            "fn",
                            J::A(
                                def.variant(*vi)
                                    .fields
                                    .iter()
                                    .map(|f| s(f.name.to_string()))
                                    .collect(),
                            ),
                        ));
                    }
                    mir::AggregateKind::Closure(d, _) => {
                        o.push(("ak", s("closure")));
                        o.push(("p", s(path(self.tcx, *d))));
                    }
                    _ => o.push(("ak", s("other"))),
                }
                o.push(("xs", xs));
                J::O(o)
            }
            mir::Rvalue::CopyForDeref(p) => J::O(vec![
                ("k", s("use")),
                ("x", J::O(vec![("cp", self.place(p, body))])),
            ]),
            _ => J::O(vec![("k", s("other")), ("d", s(format!("{:?}", r)))]),
        }
    }

    fn body(&self, did: LocalDefId, body: &mir::Body<'tcx>, kind: &str) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, did);
        let locals: Vec<J> = body.local_decls.iter().map(|d| self.ty(d.ty)).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![s(v.name.to_string()), self.place(p, body)]));
            }
        }
        let mut bbs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    mir::StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        st.push(J::A(vec![
                            self.place(p, body),
                            self.rvalue(r, body, env),
                            self.span(x.source_info.span),
                        ]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![
                            self.place(place, body),
                            J::O(vec![
                                ("k", s("setdiscr")),
                                ("vi", J::I(variant_index.as_usize() as i128)),
                            ]),
                            self.span(x.source_info.span),
                        ]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let tj = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => {
                    J::O(vec![("k", s("goto")), ("to", J::I(target.as_usize() as i128))])
                }
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&body.local_decls, tcx);
                    J::O(vec![
                    ("k", s("switch")),
                    ("x", self.operand(discr, body, env)),
                    ("t", self.ty(dty)),
                    (
                        "cs",
                        J::A(
                            targets
                                .iter()
                                .map(|(v, b)| {
                                    J::A(vec![J::S(v.to_string()), J::I(b.as_usize() as i128)])
                                })
                                .collect(),
                        ),
                    ),
                    ("else", J::I(targets.otherwise().as_usize() as i128)),
                ])},
                mir::TerminatorKind::Return => J::O(vec![("k", s("return"))]),
                mir::TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
                mir::TerminatorKind::Drop { place, target, .. } => J::O(vec![
                    ("k", s("drop")),
                    ("p", self.place(place, body)),
                    ("to", J::I(target.as_usize() as i128)),
                ]),
                mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                    J::O(vec![
                        ("k", s("call")),
                        ("f", self.operand(func, body, env)),
                        (
                            "args",
                            J::A(args.iter().map(|a| self.operand(&a.node, body, env)).collect()),
                        ),
                        ("dst", self.place(destination, body)),
                        (
                            "to",
                            target.map(|t| J::I(t.as_usize() as i128)).unwrap_or(J::Null),
                        ),
                    ])
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => J::O(vec![
                            ("k", s("bounds")),
                            ("len", self.operand(len, body, env)),
                            ("index", self.operand(index, body, env)),
                        ]),
                        mir::AssertKind::Overflow(b, x, y) => J::O(vec![
                            ("k", s("overflow")),
                            ("op", s(format!("{:?}", b))),
                            ("x", self.operand(x, body, env)),
                            ("y", self.operand(y, body, env)),
                        ]),
                        mir::AssertKind::DivisionByZero(_) => J::O(vec![("k", s("div0"))]),
                        mir::AssertKind::RemainderByZero(_) => J::O(vec![("k", s("rem0"))]),
                        other => J::O(vec![("k", s("other")), ("d", s(format!("{:?}", other)))]),
                    };
                    J::O(vec![
                        ("k", s("assert")),
                        ("x", self.operand(cond, body, env)),
                        ("e", J::B(*expected)),
                        ("m", m),
                        ("to", J::I(target.as_usize() as i128)),
                    ])
                }
                mir::TerminatorKind::FalseEdge { real_target, .. } => {
                    J::O(vec![("k", s("goto")), ("to", J::I(real_target.as_usize() as i128))])
                }
                mir::TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::O(vec![("k", s("goto")), ("to", J::I(real_target.as_usize() as i128))])
                }
                _ => J::O(vec![("k", s("resume"))]),
            };
            bbs.push(J::O(vec![
                ("cl", J::B(bb.is_cleanup)),
                ("s", J::A(st)),
                ("t", tj),
                ("sp", self.span(t.source_info.span)),
            ]));
        }
        let mut o = vec![
            ("path", s(path(tcx, did.to_def_id()))),
            ("kind", s(kind)),
            ("span", self.span(tcx.def_span(did))),
            ("argc", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("bbs", J::A(bbs)),
        ];
        if kind == "fn" {
            if let Some(ai) = tcx.opt_associated_item(did.to_def_id()) {
                let _ = ai;
                let parent = tcx.parent(did.to_def_id());
                if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                    o.push((
                        "self",
                        self.ty(tcx.type_of(parent).instantiate_identity().skip_norm_wip()),
                    ));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(parent).skip_binder();
                        o.push(("trait", s(path(tcx, tr.def_id))));
                    }
                } else if tcx.def_kind(parent) == DefKind::Trait {
                    o.push(("traitdef", s(path(tcx, parent))));
                }
                o.push(("method", s(tcx.item_name(did.to_def_id()).to_string())));
            }
            o.push(("pub", J::B(tcx.visibility(did.to_def_id()).is_public())));
        }
        if kind == "closure" {
            o.push(("parent", s(path(tcx, tcx.parent(did.to_def_id())))));
        }
        J::O(o)
    }
}

trait HasParam {
    fn has_param_(&self) -> bool;
}
impl<'tcx> HasParam for Ty<'tcx> {
    fn has_param_(&self) -> bool {
        use rustc_middle::ty::TypeVisitableExt;
        self.has_param()
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let dir = match std::env::var("VERIF_FACTS_DIR") {
            Ok(d) => d,
            Err(_) => return rustc_driver::Compilation::Continue,
        };
        let cx = Cx {
            tcx,
            tys: Default::default(),
            tyrows: Default::default(),
            adts: Default::default(),
            adt_queue: Default::default(),
        };
        let mut bodies = vec![];
        let mut statics = vec![];
        for did in tcx.hir_body_owners() {
            let dk = tcx.def_kind(did);
            match dk {
                DefKind::Fn | DefKind::AssocFn => {
                    bodies.push(cx.body(did, tcx.optimized_mir(did.to_def_id()), "fn"))
                }
                DefKind::Closure => {
                    bodies.push(cx.body(did, tcx.optimized_mir(did.to_def_id()), "closure"))
                }
                DefKind::Static { .. } => {
                    let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let v = if let Ok(a) = tcx.eval_static_initializer(did.to_def_id()) {
                        let id = tcx.reserve_and_set_memory_alloc(a);
                        cx.cval(
                            ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO },
                            ty,
                            0,
                        )
                    } else {
                        J::Null
                    };
                    statics.push(J::O(vec![
                        ("path", s(path(tcx, did.to_def_id()))),
                        ("t", cx.ty(ty)),
                        ("v", v),
                    ]));
                }
                _ => {}
            }
        }
        // impls
        let mut impls = vec![];
        for (tr, ids) in tcx.all_local_trait_impls(()).iter() {
            for id in ids {
                let selfty = tcx.type_of(*id).instantiate_identity().skip_norm_wip();
                let methods: Vec<J> = tcx
                    .associated_items(id.to_def_id())
                    .in_definition_order()
                    .filter(|i| matches!(i.kind, ty::AssocKind::Fn { .. }))
                    .map(|i| J::A(vec![s(i.name().to_string()), s(path(tcx, i.def_id))]))
                    .collect();
                impls.push(J::O(vec![
                    ("trait", s(path(tcx, *tr))),
                    ("self", cx.ty(selfty)),
                    ("methods", J::A(methods)),
                ]));
            }
        }
        let mut adts = vec![];
        // all local ADTs, used or not
        for id in tcx.hir_crate_items(()).definitions() {
            match tcx.def_kind(id) {
                DefKind::Struct | DefKind::Enum => cx.need_adt(id.to_def_id()),
                _ => {}
            }
        }
        loop {
            let d = match cx.adt_queue.borrow_mut().pop() {
                Some(d) => d,
                None => break,
            };
            adts.push(cx.adt_json(d));
        }
        let tys: Vec<J> = cx
            .tyrows
            .borrow_mut()
            .drain(..)
            .map(|x| x.unwrap_or(J::Null))
            .collect();
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let is_test = tcx.sess.is_test_crate();
        let out = J::O(vec![
            ("crate", s(name.clone())),
            ("test", J::B(is_test)),
            ("tys", J::A(tys)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("statics", J::A(statics)),
            ("bodies", J::A(bodies)),
        ]);
        let mut o = String::new();
        out.w(&mut o);
        let f = format!("{}/{}{}.json", dir, name, if is_test { "-test" } else { "" });
        std::fs::write(&f, o).unwrap();
        rustc_driver::Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let build_script = args.iter().any(|a| a.contains("build_script"));
    if build_script {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    } else {
        args.push("-Zmir-opt-level=0".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    }
}
