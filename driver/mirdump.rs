// MIR dumper: a rustc driver used as RUSTC_WORKSPACE_WRAPPER.  For the crates named in
// MIRDUMP_CRATES it writes $MIRDUMP_OUT/<crate>.json with the type-checked program: every body's
// drop-elaborated MIR (opt level 0), ADTs, traits, impls with their items, and every use of `unsafe`.
// It never runs any code of the analysed crates.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TyKind};
use rustc_span::Span;
use std::fmt::Write as _;

// ---------- tiny JSON ----------
#[derive(Clone)]
enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
    Map(Vec<(String, J)>),
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(n),
            J::Str(s) => esc(s, o),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
            J::Map(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}
fn s<T: Into<String>>(x: T) -> J {
    J::Str(x.into())
}
fn n<T: std::fmt::Display>(x: T) -> J {
    J::Num(x.to_string())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    // Unique key of a definition.
    fn key(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    // Readable path: impl blocks are replaced by the self type's path.
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let kind = tcx.def_kind(d);
        let Some(par) = tcx.opt_parent(d) else {
            return tcx.crate_name(d.krate).to_string();
        };
        match kind {
            DefKind::Impl { .. } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let base = self.ty_head(st);
                if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    format!("<{} as {}>", base, self.path(tr.def_id))
                } else {
                    base
                }
            }
            DefKind::Closure => format!("{}::{{closure}}", self.path(par)),
            _ => {
                let name = tcx
                    .opt_item_name(d)
                    .map(|x| x.to_string())
                    .unwrap_or_else(|| {
                        tcx.def_path(d)
                            .data
                            .last()
                            .map(|x| x.as_sym(true).to_string())
                            .unwrap_or_default()
                    });
                format!("{}::{}", self.path(par), name)
            }
        }
    }
    fn ty_head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Adt(a, _) => self.path(a.did()),
            TyKind::Slice(_) => "slice".into(),
            TyKind::Array(..) => "array".into(),
            TyKind::Str => "str".into(),
            TyKind::Ref(_, t, m) => {
                format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty_head(*t))
            }
            TyKind::Tuple(_) => "tuple".into(),
            TyKind::Param(p) => format!("{}", p.name),
            TyKind::Foreign(_) => "foreign".into(),
            TyKind::Dynamic(..) => "dyn".into(),
            TyKind::RawPtr(..) => "ptr".into(),
            TyKind::FnPtr(..) => "fnptr".into(),
            _ => format!("{}", t),
        }
    }
    fn args(&self, a: GenericArgsRef<'tcx>) -> J {
        self.argsl(&a[..])
    }
    fn argsl(&self, a: &[ty::GenericArg<'tcx>]) -> J {
        J::Arr(
            a.iter()
                .map(|x| match x.kind() {
                    ty::GenericArgKind::Lifetime(_) => J::Null,
                    ty::GenericArgKind::Type(t) => self.ty(t),
                    ty::GenericArgKind::Const(c) => self.cst(c),
                })
                .collect(),
        )
    }
    fn cst(&self, c: ty::Const<'tcx>) -> J {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return J::Obj(vec![("k", s("const")), ("v", n(v))]);
        }
        match c.kind() {
            ty::ConstKind::Param(p) => J::Obj(vec![
                ("k", s("param")),
                ("n", s(p.name.to_string())),
                ("i", n(p.index)),
            ]),
            _ => {
                // named constants: try evaluation
                J::Obj(vec![("k", s("constexpr")), ("d", s(format!("{:?}", c)))])
            }
        }
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        match *t.kind() {
            TyKind::Bool => s("bool"),
            TyKind::Char => s("char"),
            TyKind::Int(i) => s(i.name_str()),
            TyKind::Uint(i) => s(i.name_str()),
            TyKind::Float(f) => s(f.name_str()),
            TyKind::Str => s("str"),
            TyKind::Never => s("never"),
            TyKind::Adt(a, args) => J::Obj(vec![
                ("k", s("adt")),
                ("p", s(self.path(a.did()))),
                ("a", self.args(args)),
            ]),
            TyKind::Array(t, len) => {
                J::Obj(vec![("k", s("array")), ("t", self.ty(t)), ("len", self.cst(len))])
            }
            TyKind::Slice(t) => J::Obj(vec![("k", s("slice")), ("t", self.ty(t))]),
            TyKind::RawPtr(t, m) => J::Obj(vec![
                ("k", s("ptr")),
                ("m", J::Bool(m.is_mut())),
                ("t", self.ty(t)),
            ]),
            TyKind::Ref(_, t, m) => J::Obj(vec![
                ("k", s("ref")),
                ("m", J::Bool(m.is_mut())),
                ("t", self.ty(t)),
            ]),
            TyKind::FnDef(d, args) => self.fndef(d, args.skip_binder()),
            TyKind::FnPtr(..) => J::Obj(vec![("k", s("fnptr")), ("d", s(format!("{}", t)))]),
            TyKind::Dynamic(preds, _) => J::Obj(vec![
                ("k", s("dyn")),
                (
                    "p",
                    match preds.principal_def_id() {
                        Some(d) => s(self.path(d)),
                        None => J::Null,
                    },
                ),
                ("d", s(format!("{}", t))),
            ]),
            TyKind::Closure(d, args) => J::Obj(vec![
                ("k", s("closure")),
                ("key", s(self.key(d))),
                ("a", self.argsl(args.as_closure().parent_args())),
            ]),
            TyKind::Tuple(ts) => J::Obj(vec![
                ("k", s("tuple")),
                ("a", J::Arr(ts.iter().map(|t| self.ty(t)).collect())),
            ]),
            TyKind::Param(p) => J::Obj(vec![
                ("k", s("param")),
                ("n", s(p.name.to_string())),
                ("i", n(p.index)),
            ]),
            TyKind::Alias(_, al) => match al.kind {
                ty::AliasTyKind::Projection { def_id } => {
                    let d: DefId = def_id.into();
                    J::Obj(vec![
                        ("k", s("proj")),
                        ("p", s(self.path(d))),
                        ("n", s(self.tcx.item_name(d).to_string())),
                        ("tr", s(self.path(self.tcx.parent(d)))),
                        ("a", self.args(al.args)),
                    ])
                }
                _ => J::Obj(vec![("k", s("opaque")), ("d", s(format!("{}", t)))]),
            },
            _ => J::Obj(vec![("k", s("other")), ("d", s(format!("{}", t)))]),
        }
    }
    fn fndef(&self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![
            ("k", s("fndef")),
            ("p", s(self.path(d))),
            ("key", s(self.key(d))),
            ("a", self.args(args)),
        ];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            v.push(("tr", s(self.path(tr))));
            v.push(("n", s(tcx.item_name(d).to_string())));
            v.push(("ntr", n(tcx.generics_of(tr).count())));
            // does the trait method have a default body
            v.push(("def", J::Bool(tcx.defaultness(d).has_value())));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let vd = tcx.parent(d);
            if tcx.def_kind(vd) == DefKind::Variant {
                let adt = tcx.parent(vd);
                let ad = tcx.adt_def(adt);
                v.push(("ctor", s(self.path(adt))));
                v.push(("vi", n(ad.variant_index_with_id(vd).as_u32())));
            } else {
                v.push(("ctor", s(self.path(vd))));
                v.push(("vi", n(0)));
            }
        }
        J::Obj(v)
    }
    fn place(&self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut v = vec![n(p.local.as_u32())];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => J::Arr(vec![s("f"), n(f.as_u32())]),
                ProjectionElem::Index(l) => J::Arr(vec![s("i"), n(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    s("ci"),
                    n(offset),
                    n(min_length),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![s("sub"), n(from), n(to), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(_, vi) => J::Arr(vec![s("v"), n(vi.as_u32())]),
                _ => J::Arr(vec![s("?"), s(format!("{:?}", e))]),
            });
            pty = pty.projection_ty(self.tcx, e);
        }
        let _ = pty;
        J::Arr(v)
    }
    fn bytes_of(&self, alloc: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(alloc)? {
            rustc_middle::mir::interpret::GlobalAlloc::Memory(m) => {
                let m = m.inner();
                if m.len() < (off + len) as usize {
                    return None;
                }
                Some(
                    m.inspect_with_uninit_and_ptr_outside_interpreter(
                        off as usize..(off + len) as usize,
                    )
                    .to_vec(),
                )
            }
            _ => None,
        }
    }
    fn int_size(&self, t: Ty<'tcx>) -> Option<u64> {
        match t.kind() {
            TyKind::Uint(u) => Some(u.bit_width().unwrap_or(64) / 8),
            TyKind::Int(u) => Some(u.bit_width().unwrap_or(64) / 8),
            TyKind::Bool => Some(1),
            _ => None,
        }
    }
    fn decode(&self, b: &[u8], t: Ty<'tcx>) -> Option<J> {
        match t.kind() {
            TyKind::Array(e, len) => {
                let l = len.try_to_target_usize(self.tcx)?;
                if l == 0 {
                    return Some(J::Obj(vec![("arr", J::Arr(vec![]))]));
                }
                let sz = b.len() / l as usize;
                let mut v = vec![];
                for i in 0..l as usize {
                    v.push(self.decode(&b[i * sz..(i + 1) * sz], *e)?);
                }
                Some(J::Obj(vec![("arr", J::Arr(v))]))
            }
            _ => {
                self.int_size(t)?;
                let mut x: u128 = 0;
                for (i, y) in b.iter().enumerate() {
                    x |= (*y as u128) << (8 * i);
                }
                if matches!(t.kind(), TyKind::Bool) {
                    return Some(J::Obj(vec![("bool", J::Bool(x != 0))]));
                }
                Some(J::Obj(vec![("int", n(x)), ("t", self.ty(t))]))
            }
        }
    }
    fn ty_bytes(&self, t: Ty<'tcx>) -> Option<u64> {
        match t.kind() {
            TyKind::Array(e, len) => Some(self.ty_bytes(*e)? * len.try_to_target_usize(self.tcx)?),
            _ => self.int_size(t),
        }
    }
    fn val(&self, v: &ConstValue, t: Ty<'tcx>) -> J {
        match v {
            ConstValue::ZeroSized => match *t.kind() {
                TyKind::FnDef(d, a) => J::Obj(vec![("fn", self.fndef(d, a.skip_binder()))]),
                TyKind::Closure(..) => J::Obj(vec![("zst", self.ty(t))]),
                _ => J::Obj(vec![("zst", self.ty(t))]),
            },
            ConstValue::Scalar(sc) => match sc {
                rustc_middle::mir::interpret::Scalar::Int(i) => {
                    if t.is_bool() {
                        return J::Obj(vec![("bool", J::Bool(i.to_bits(i.size()) != 0))]);
                    }
                    J::Obj(vec![("int", n(i.to_bits(i.size()))), ("t", self.ty(t))])
                }
                rustc_middle::mir::interpret::Scalar::Ptr(p, _) => {
                    let (prov, off) = p.into_raw_parts();
                    if let TyKind::Ref(_, inner, _) = t.kind() {
                        if let Some(sz) = self.ty_bytes(*inner) {
                            if let Some(b) = self.bytes_of(prov.alloc_id(), off.bytes(), sz) {
                                if let Some(j) = self.decode(&b, *inner) {
                                    return J::Obj(vec![("ref", j)]);
                                }
                            }
                        }
                    }
                    if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) =
                        self.tcx.try_get_global_alloc(prov.alloc_id())
                    {
                        return J::Obj(vec![("static", s(self.key(d))), ("t", self.ty(t))]);
                    }
                    J::Obj(vec![("unk", s(format!("{:?}", v))), ("t", self.ty(t))])
                }
            },
            ConstValue::Slice { alloc_id, meta } => {
                if let TyKind::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        if let Some(b) = self.bytes_of(*alloc_id, 0, *meta) {
                            return J::Obj(vec![("str", s(String::from_utf8_lossy(&b).to_string()))]);
                        }
                    }
                    if let TyKind::Slice(e) = inner.kind() {
                        if let Some(sz) = self.ty_bytes(*e) {
                            if let Some(b) = self.bytes_of(*alloc_id, 0, *meta * sz) {
                                let v: Option<Vec<J>> = b
                                    .chunks(sz as usize)
                                    .map(|c| self.decode(c, *e))
                                    .collect();
                                if let Some(v) = v {
                                    return J::Obj(vec![(
                                        "ref",
                                        J::Obj(vec![("arr", J::Arr(v))]),
                                    )]);
                                }
                            }
                        }
                    }
                }
                J::Obj(vec![("unk", s(format!("{:?}", v))), ("t", self.ty(t))])
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let Some(sz) = self.ty_bytes(t) {
                    if let Some(b) = self.bytes_of(*alloc_id, offset.bytes(), sz) {
                        if let Some(j) = self.decode(&b, t) {
                            return j;
                        }
                    }
                }
                J::Obj(vec![("unk", s(format!("{:?}", v))), ("t", self.ty(t))])
            }
        }
    }
    fn konst(&self, c: &ConstOperand<'tcx>) -> J {
        match c.const_ {
            Const::Val(v, t) => self.val(&v, t),
            Const::Ty(t, ct) => {
                if let Some(v) = ct.try_to_target_usize(self.tcx) {
                    J::Obj(vec![("int", n(v)), ("t", self.ty(t))])
                } else {
                    J::Obj(vec![("cty", self.cst(ct)), ("t", self.ty(t))])
                }
            }
            Const::Unevaluated(u, t) => {
                let mut v = vec![
                    ("const", s(self.key(u.def))),
                    ("p", s(self.path(u.def))),
                    ("a", self.args(u.args)),
                    ("t", self.ty(t)),
                ];
                if let Some(p) = u.promoted {
                    v.push(("prom", n(p.as_u32())));
                }
                if let Some(tr) = self.tcx.trait_of_assoc(u.def) {
                    v.push(("tr", s(self.path(tr))));
                    v.push(("n", s(self.tcx.item_name(u.def).to_string())));
                }
                J::Obj(v)
            }
        }
    }
    fn operand(&self, o: &Operand<'tcx>, b: &Body<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![s("c"), self.place(p, b)]),
            Operand::Move(p) => J::Arr(vec![s("m"), self.place(p, b)]),
            Operand::Constant(c) => J::Arr(vec![s("k"), self.konst(c)]),
            o => J::Arr(vec![s("x"), s(format!("{:?}", o))]),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>, b: &Body<'tcx>) -> J {
        let t = |o: &Operand<'tcx>| self.ty(o.ty(b, self.tcx));
        match r {
            Rvalue::Use(o, _) => J::Arr(vec![s("use"), self.operand(o, b)]),
            Rvalue::Repeat(o, c) => J::Arr(vec![s("repeat"), self.operand(o, b), self.cst(*c)]),
            Rvalue::Ref(_, k, p) => J::Arr(vec![
                s("ref"),
                J::Bool(matches!(k, BorrowKind::Mut { .. })),
                self.place(p, b),
            ]),
            Rvalue::RawPtr(_, p) => J::Arr(vec![s("ref"), J::Bool(true), self.place(p, b)]),
            Rvalue::Reborrow(_, m, p) => {
                J::Arr(vec![s("reborrow"), J::Bool(m.is_mut()), self.place(p, b)])
            }
            Rvalue::Cast(k, o, ty) => {
                let ks = match k {
                    CastKind::PointerCoercion(c, _) => format!("ptr:{:?}", c),
                    k => format!("{:?}", k),
                };
                J::Arr(vec![s("cast"), s(ks), self.operand(o, b), self.ty(*ty), t(o)])
            }
            Rvalue::BinaryOp(op, ab) => J::Arr(vec![
                s("bin"),
                s(format!("{:?}", op)),
                self.operand(&ab.0, b),
                self.operand(&ab.1, b),
                t(&ab.0),
            ]),
            Rvalue::UnaryOp(op, o) => {
                J::Arr(vec![s("un"), s(format!("{:?}", op)), self.operand(o, b), t(o)])
            }
            Rvalue::Discriminant(p) => J::Arr(vec![s("discr"), self.place(p, b)]),
            Rvalue::CopyForDeref(p) => {
                J::Arr(vec![s("use"), J::Arr(vec![s("c"), self.place(p, b)])])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o, b)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => J::Arr(vec![s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::Arr(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, uf) => J::Arr(vec![
                        s("adt"),
                        s(self.path(*d)),
                        n(vi.as_u32()),
                        self.args(args),
                        match uf {
                            Some(f) => n(f.as_u32()),
                            None => J::Null,
                        },
                    ]),
                    AggregateKind::Closure(d, args) => J::Arr(vec![
                        s("closure"),
                        s(self.key(*d)),
                        self.argsl(args.as_closure().parent_args()),
                    ]),
                    k => J::Arr(vec![s("other"), s(format!("{:?}", k))]),
                };
                J::Arr(vec![s("agg"), kj, J::Arr(ops)])
            }
            r => J::Arr(vec![s("?"), s(format!("{:?}", r))]),
        }
    }
    fn line(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        n(l.line)
    }
    fn file(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}", l.file.name.prefer_local_unconditionally())
    }
    fn unw(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => n(b.as_u32()),
            _ => J::Null,
        }
    }
    fn body(&self, b: &Body<'tcx>) -> J {
        let locals: Vec<J> = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let ln = self.line(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(a) => st.push(J::Arr(vec![
                        s("="),
                        self.place(&a.0, b),
                        self.rvalue(&a.1, b),
                        ln,
                    ])),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::Arr(vec![
                            s("setd"),
                            self.place(place, b),
                            n(variant_index.as_u32()),
                            ln,
                        ]))
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => {}
                        o => st.push(J::Arr(vec![s("?"), s(format!("{:?}", o)), ln])),
                    },
                    StatementKind::StorageDead(l) => {
                        st.push(J::Arr(vec![s("dead"), n(l.as_u32())]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::Arr(vec![s("goto"), n(target.as_u32())]),
                TerminatorKind::SwitchInt { discr, targets } => J::Arr(vec![
                    s("switch"),
                    self.operand(discr, b),
                    J::Arr(
                        targets
                            .iter()
                            .map(|(v, t)| J::Arr(vec![n(v), n(t.as_u32())]))
                            .collect(),
                    ),
                    n(targets.otherwise().as_u32()),
                    self.ty(discr.ty(b, self.tcx)),
                    ln,
                ]),
                TerminatorKind::Return => J::Arr(vec![s("return")]),
                TerminatorKind::Unreachable => J::Arr(vec![s("unreachable")]),
                TerminatorKind::UnwindResume => J::Arr(vec![s("resume")]),
                TerminatorKind::Drop { place, target, unwind, .. } => J::Arr(vec![
                    s("drop"),
                    self.place(place, b),
                    n(target.as_u32()),
                    self.unw(unwind),
                    self.ty(place.ty(b, self.tcx).ty),
                    ln,
                ]),
                TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                    let _ = fn_span;
                    J::Arr(vec![
                        s("call"),
                        self.operand(func, b),
                        J::Arr(args.iter().map(|a| self.operand(&a.node, b)).collect()),
                        self.place(destination, b),
                        match target {
                            Some(t) => n(t.as_u32()),
                            None => J::Null,
                        },
                        self.unw(unwind),
                        ln,
                        self.ty(func.ty(b, self.tcx)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => J::Arr(vec![
                            s("bounds"),
                            self.operand(len, b),
                            self.operand(index, b),
                        ]),
                        AssertKind::Overflow(op, x, y) => J::Arr(vec![
                            s("overflow"),
                            s(format!("{:?}", op)),
                            self.operand(x, b),
                            self.operand(y, b),
                        ]),
                        o => J::Arr(vec![s("other"), s(format!("{:?}", o))]),
                    };
                    J::Arr(vec![
                        s("assert"),
                        self.operand(cond, b),
                        J::Bool(*expected),
                        m,
                        n(target.as_u32()),
                        self.unw(unwind),
                        ln,
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::Arr(vec![s("goto"), n(real_target.as_u32())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::Arr(vec![s("goto"), n(real_target.as_u32())])
                }
                k => J::Arr(vec![s("?"), s(format!("{:?}", k))]),
            };
            blocks.push(J::Obj(vec![
                ("s", J::Arr(st)),
                ("t", tj),
                ("c", J::Bool(bb.is_cleanup)),
            ]));
        }
        let names: Vec<J> = b
            .var_debug_info
            .iter()
            .filter_map(|v| match &v.value {
                VarDebugInfoContents::Place(p) => {
                    Some(J::Arr(vec![s(v.name.to_string()), self.place(p, b)]))
                }
                _ => None,
            })
            .collect();
        J::Obj(vec![
            ("argc", n(b.arg_count)),
            ("spread", match b.spread_arg { Some(l) => n(l.as_u32()), None => J::Null }),
            ("locals", J::Arr(locals)),
            ("blocks", J::Arr(blocks)),
            ("names", J::Arr(names)),
        ])
    }
    fn generics(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let g = tcx.generics_of(d);
        let mut v = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, tcx);
            let k = match p.kind {
                ty::GenericParamDefKind::Lifetime => "l",
                ty::GenericParamDefKind::Type { .. } => "t",
                ty::GenericParamDefKind::Const { .. } => "c",
            };
            v.push(J::Arr(vec![s(p.name.to_string()), s(k)]));
        }
        J::Arr(v)
    }
    fn func(&self, ld: LocalDefId) -> J {
        let tcx = self.tcx;
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let body: &Body<'tcx> = if is_fn && !matches!(kind, DefKind::Ctor(..)) {
            tcx.optimized_mir(d)
        } else {
            tcx.mir_for_ctfe(d)
        };
        let sp = tcx.def_span(d);
        let prom: Vec<J> = tcx.promoted_mir(d).iter().map(|b| self.body(b)).collect();
        let mut v = vec![
            ("key", s(self.key(d))),
            ("path", s(self.path(d))),
            ("kind", s(format!("{:?}", kind))),
            ("file", s(self.file(sp))),
            ("line", self.line(sp)),
            ("generics", self.generics(d)),
            ("pub", J::Bool(!matches!(kind, DefKind::Closure) && tcx.visibility(d).is_public())),
            ("eff", J::Bool(tcx.effective_visibilities(()).is_reachable(ld))),
            ("body", self.body(body)),
            ("prom", J::Arr(prom)),
        ];
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            v.push(("ret", self.ty(sig.output())));
            v.push(("ins", J::Arr(sig.inputs().iter().map(|t| self.ty(*t)).collect())));
            v.push(("unsafe", J::Bool(sig.safety().is_unsafe())));
        }
        if let DefKind::AssocFn = kind {
            if let Some(im) = tcx.impl_of_assoc(d) {
                v.push(("impl", s(self.key(im))));
            }
            if let Some(tr) = tcx.trait_of_assoc(d) {
                v.push(("trait", s(self.path(tr))));
            }
            v.push(("n", s(tcx.item_name(d).to_string())));
        }
        // predicates (bounds), printed
        if is_fn && !matches!(kind, DefKind::Closure) {
            let preds = tcx.clauses_of(d).clauses;
            let p: Vec<J> = preds.iter().map(|p| s(format!("{:?}", p.0))).collect();
            v.push(("preds", J::Arr(p)));
        }
        J::Obj(v)
    }
}

struct UnsafeFinder<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    out: Vec<J>,
}
impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.cx.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            self.out.push(J::Obj(vec![
                ("what", s("unsafe block")),
                ("src", s(format!("{:?}", src))),
                ("file", s(self.cx.file(b.span))),
                ("line", self.cx.line(b.span)),
                ("exp", J::Bool(b.span.from_expansion())),
                ("owner", s(self.cx.path(b.hir_id.owner.to_def_id()))),
            ]));
        }
        rustc_hir::intravisit::walk_block(self, b)
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        let d = i.owner_id.to_def_id();
        let mut push = |w: &str| {
            self.out.push(J::Obj(vec![
                ("what", s(w)),
                ("src", s("UserProvided")),
                ("file", s(self.cx.file(i.span))),
                ("line", self.cx.line(i.span)),
                ("exp", J::Bool(i.span.from_expansion())),
                ("owner", s(self.cx.path(d))),
            ]))
        };
        match &i.kind {
            rustc_hir::ItemKind::Impl(im) => {
                if let Some(tr) = im.of_trait {
                    if tr.safety.is_unsafe() {
                        push("unsafe impl")
                    }
                }
            }
            rustc_hir::ItemKind::Trait { safety, .. } if safety.is_unsafe() => push("unsafe trait"),
            rustc_hir::ItemKind::ForeignMod { .. } => push("extern block"),
            rustc_hir::ItemKind::Static(m, ..) if m.is_mut() => push("static mut"),
            _ => {}
        }
        rustc_hir::intravisit::walk_item(self, i)
    }
    fn visit_fn(
        &mut self,
        fk: rustc_hir::intravisit::FnKind<'tcx>,
        fd: &'tcx rustc_hir::FnDecl<'tcx>,
        b: rustc_hir::BodyId,
        sp: Span,
        id: LocalDefId,
    ) {
        if let Some(h) = fk.header() {
            if h.is_unsafe() {
                self.out.push(J::Obj(vec![
                    ("what", s("unsafe fn")),
                    ("src", s("UserProvided")),
                    ("file", s(self.cx.file(sp))),
                    ("line", self.cx.line(sp)),
                    ("exp", J::Bool(sp.from_expansion())),
                    ("owner", s(self.cx.path(id.to_def_id()))),
                ]));
            }
        }
        rustc_hir::intravisit::walk_fn(self, fk, fd, b, id)
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let cx = Cx { tcx };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut fns = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            if !matches!(
                kind,
                DefKind::Fn
                    | DefKind::AssocFn
                    | DefKind::Closure
                    | DefKind::Const { .. }
                    | DefKind::AssocConst { .. }
                    | DefKind::Static { .. }
            ) {
                continue;
            }
            if matches!(kind, DefKind::AssocConst { .. }) && tcx.trait_of_assoc(d).is_some() && !tcx.defaultness(d).has_value() {
                continue;
            }
            fns.push(cx.func(*ld));
        }
        let mut adts = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut add_adt = |d: DefId| {
            if !seen.insert(d) {
                return;
            }
            let a = tcx.adt_def(d);
            let vars: Vec<J> = a
                .variants()
                .iter_enumerated()
                .map(|(vi, v)| {
                    let discr = if a.is_enum() {
                        a.discriminant_for_variant(tcx, vi).val.to_string()
                    } else {
                        "0".into()
                    };
                    J::Obj(vec![
                        ("name", s(v.name.to_string())),
                        ("discr", J::Num(discr)),
                        (
                            "fields",
                            J::Arr(
                                v.fields
                                    .iter()
                                    .map(|f| {
                                        J::Arr(vec![
                                            s(f.name.to_string()),
                                            cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()),
                                        ])
                                    })
                                    .collect(),
                            ),
                        ),
                    ])
                })
                .collect();
            adts.push((
                cx.path(d),
                J::Obj(vec![
                    ("enum", J::Bool(a.is_enum())),
                    ("local", J::Bool(d.is_local())),
                    ("generics", cx.generics(d)),
                    ("variants", J::Arr(vars)),
                ]),
            ));
        };
        let mut impls = vec![];
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => add_adt(d),
                DefKind::Trait => {
                    traits.push(J::Obj(vec![
                        ("p", s(cx.path(d))),
                        ("generics", cx.generics(d)),
                        (
                            "items",
                            J::Arr(
                                tcx.associated_items(d)
                                    .in_definition_order()
                                    .filter(|i| i.is_fn())
                                    .map(|i| {
                                        J::Arr(vec![
                                            s(i.name().to_string()),
                                            s(cx.key(i.def_id)),
                                            J::Bool(tcx.defaultness(i.def_id).has_value()),
                                        ])
                                    })
                                    .collect(),
                            ),
                        ),
                    ]));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let (tp, ta) = match tcx.impl_opt_trait_ref(d) {
                        Some(t) => {
                            let t = t.instantiate_identity().skip_norm_wip();
                            (s(cx.path(t.def_id)), cx.args(t.args))
                        }
                        None => (J::Null, J::Null),
                    };
                    let mut ms = vec![];
                    let mut tys = vec![];
                    for i in tcx.associated_items(d).in_definition_order() {
                        if i.is_fn() {
                            ms.push((i.name().to_string(), s(cx.key(i.def_id))));
                        } else if i.is_type() {
                            tys.push((
                                i.name().to_string(),
                                cx.ty(tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip()),
                            ));
                        } else {
                            ms.push((i.name().to_string(), s(cx.key(i.def_id))));
                        }
                    }
                    let sp = tcx.def_span(d);
                    impls.push(J::Obj(vec![
                        ("key", s(cx.key(d))),
                        ("trait", tp),
                        ("targs", ta),
                        ("self", cx.ty(st)),
                        ("generics", cx.generics(d)),
                        ("fns", J::Map(ms)),
                        ("tys", J::Map(tys)),
                        ("derived", J::Bool(sp.from_expansion())),
                        ("line", cx.line(sp)),
                        ("file", s(cx.file(sp))),
                    ]));
                }
                _ => {}
            }
        }
        let mut uf = UnsafeFinder { cx: &cx, out: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut uf);
        let uns = uf.out;
        let j = J::Obj(vec![
            ("crate", s(krate.clone())),
            ("fns", J::Arr(fns)),
            ("adts", J::Map(adts)),
            ("impls", J::Arr(impls)),
            ("traits", J::Arr(traits)),
            ("unsafe", J::Arr(uns)),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        std::fs::write(format!("{}/{}.json", self.out, krate), o).unwrap();
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let dump = !out.is_empty() && !is_test && want.split(',').any(|c| c == name);
    if dump {
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
    }
    rustc_driver::catch_with_exit_code(move || {
        if dump {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out })
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain)
        }
    })
}
