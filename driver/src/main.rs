// mirdump: compiles one crate with the nightly compiler and writes, as JSON, the monomorphic MIR of
// every function reachable from its `root_*` functions, with resolved callees, decoded constants and
// a type table.  It only extracts; all judgement is in /verif/engine (Python).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;

use json::J;
use rustc_abi::VariantIdx;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    te: TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_list: Vec<J>,
    fns: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(usize, Instance<'tcx>)>,
    stop: Vec<String>,
    go: Vec<String>,
    redirect: HashMap<String, DefId>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: impl TryInto<i128>) -> J {
    J::N(x.try_into().ok().unwrap())
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_list.len();
        self.types.insert(t, i);
        self.type_list.push(J::Null);
        let mut o = vec![("s".into(), s(with_no_trimmed_paths!(t.to_string())))];
        let mut k = |v: &str| o.push(("k".into(), s(v)));
        match *t.kind() {
            ty::Bool => k("bool"),
            ty::Char => k("char"),
            ty::Int(_) => k("int"),
            ty::Uint(_) => k("uint"),
            ty::Float(_) => k("float"),
            ty::Str => k("str"),
            ty::Never => k("never"),
            ty::Slice(e) => {
                k("slice");
                let e = self.ty(e);
                o.push(("e".into(), n(e)));
            }
            ty::Array(e, _) => {
                k("array");
                let e = self.ty(e);
                o.push(("e".into(), n(e)));
            }
            ty::Ref(_, e, m) => {
                k("ref");
                let e = self.ty(e);
                o.push(("e".into(), n(e)));
                o.push(("mut".into(), J::B(m.is_mut())));
            }
            ty::RawPtr(e, m) => {
                k("raw");
                let e = self.ty(e);
                o.push(("e".into(), n(e)));
                o.push(("mut".into(), J::B(m.is_mut())));
            }
            ty::Tuple(ts) => {
                k("tuple");
                let v = ts.iter().map(|t| n(self.ty(t))).collect();
                o.push(("fs".into(), J::A(v)));
            }
            ty::Closure(d, args) => {
                k("closure");
                o.push(("path".into(), s(self.path(d))));
                let ups: Vec<_> = args.as_closure().upvar_tys().iter().collect();
                let v = ups.into_iter().map(|t| n(self.ty(t))).collect();
                o.push(("fs".into(), J::A(v)));
            }
            ty::FnDef(d, _) => {
                k("fndef");
                o.push(("path".into(), s(self.path(d))));
            }
            ty::Dynamic(..) => k("dyn"),
            ty::Adt(def, args) => {
                k("adt");
                o.push(("path".into(), s(self.path(def.did()))));
                o.push(("box".into(), J::B(def.is_box())));
                o.push(("enum".into(), J::B(def.is_enum())));
                let targs: Vec<_> = args.types().collect();
                let targs = targs.into_iter().map(|t| n(self.ty(t))).collect();
                o.push(("args".into(), J::A(targs)));
                // field types are only expanded for types whose values the engine destructures
                let p = self.path(def.did());
                let deep = !p.starts_with("std::") && !p.starts_with("core::") && !p.starts_with("alloc::")
                    || ["std::option::Option", "std::result::Result", "std::ops::ControlFlow", "std::borrow::Cow",
                        "std::ops::Range", "std::iter::", "std::cmp::Ordering", "std::io::Cursor", "std::slice::Iter", "std::vec::IntoIter"]
                        .iter().any(|q| p.starts_with(q));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let d = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val as i128 } else { 0 };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let mut fo = vec![("n".into(), s(f.name.as_str()))];
                        if deep {
                            let ft = f.ty(self.tcx, args);
                            let ft = self.tcx.normalize_erasing_regions(self.te, ft);
                            let ft = self.ty(ft);
                            fo.push(("t".into(), n(ft)));
                        }
                        fs.push(J::O(fo));
                    }
                    vs.push(J::O(vec![("n".into(), s(v.name.as_str())), ("d".into(), n(d)), ("fs".into(), J::A(fs))]));
                }
                o.push(("vs".into(), J::A(vs)));
            }
            _ => k("other"),
        }
        self.type_list[i] = J::O(o);
        i
    }

    fn int_of(&self, sc: Scalar, t: Ty<'tcx>) -> Option<J> {
        match sc {
            Scalar::Int(i) => Some(match *t.kind() {
                ty::Bool => J::A(vec![s("bool"), J::B(i.try_to_bool().unwrap_or(false))]),
                ty::Char => J::A(vec![s("char"), n(i.to_bits_unchecked() as i128)]),
                ty::Int(_) => {
                    let sz = i.size();
                    J::A(vec![s("int"), n(sz.sign_extend(i.to_bits_unchecked()))])
                }
                ty::Uint(_) => J::A(vec![s("int"), s(i.to_bits_unchecked().to_string())]),
                ty::Float(_) => J::A(vec![s("float"), s(i.to_bits_unchecked().to_string())]),
                _ => return None,
            }),
            _ => None,
        }
    }

    fn mem_bytes(&self, id: interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                Some(a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize).to_vec())
            }
            _ => None,
        }
    }

    fn read_ptr(&self, id: interpret::AllocId, off: u64) -> Option<(interpret::AllocId, u64)> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let r = AllocRange { start: rustc_abi::Size::from_bytes(off), size: rustc_abi::Size::from_bytes(8) };
                match a.inner().read_scalar(&self.tcx, r, true).ok()? {
                    Scalar::Ptr(p, _) => {
                        let (prov, o) = p.prov_and_relative_offset();
                        Some((prov.alloc_id(), o.bytes()))
                    }
                    _ => None,
                }
            }
            GlobalAlloc::Static(d) => {
                let a = self.tcx.eval_static_initializer(d).ok()?;
                let r = AllocRange { start: rustc_abi::Size::from_bytes(off), size: rustc_abi::Size::from_bytes(8) };
                match a.inner().read_scalar(&self.tcx, r, true).ok()? {
                    Scalar::Ptr(p, _) => {
                        let (prov, o) = p.prov_and_relative_offset();
                        Some((prov.alloc_id(), o.bytes()))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn read_usize(&self, id: interpret::AllocId, off: u64) -> Option<u64> {
        let b = self.mem_bytes(id, off, 8)?;
        Some(u64::from_le_bytes(b.try_into().ok()?))
    }

    fn str_const(&self, id: interpret::AllocId, off: u64, len: u64) -> J {
        match self.mem_bytes(id, off, len) {
            Some(b) => match String::from_utf8(b) {
                Ok(x) => J::A(vec![s("str"), s(x)]),
                Err(_) => J::A(vec![s("opq"), s("non-utf8")]),
            },
            None => J::A(vec![s("opq"), s("str")]),
        }
    }

    // pointee of type `t` located at (id, off); meta = slice length if unsized
    fn const_at(&mut self, t: Ty<'tcx>, id: interpret::AllocId, off: u64, meta: Option<u64>) -> J {
        match *t.kind() {
            ty::Str => match meta {
                Some(m) => self.str_const(id, off, m),
                None => J::A(vec![s("opq"), s("str?")]),
            },
            ty::Slice(e) => {
                let m = meta.unwrap_or(0);
                self.const_elems(e, m, id, off)
            }
            ty::Array(e, c) => {
                let m = c.try_to_target_usize(self.tcx).unwrap_or(0);
                self.const_elems(e, m, id, off)
            }
            ty::Ref(_, e, _) => match e.kind() {
                ty::Str | ty::Slice(_) => match (self.read_ptr(id, off), self.read_usize(id, off + 8)) {
                    (Some((i2, o2)), Some(m)) => self.const_at(e, i2, o2, Some(m)),
                    _ => J::A(vec![s("opq"), s("ref")]),
                },
                _ => match self.read_ptr(id, off) {
                    Some((i2, o2)) => self.const_at(e, i2, o2, None),
                    None => J::A(vec![s("opq"), s(with_no_trimmed_paths!(t.to_string()))]),
                },
            },
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let sz = match self.tcx.layout_of(self.te.as_query_input(t)) {
                    Ok(l) => l.size,
                    Err(_) => return J::A(vec![s("opq"), s("layout")]),
                };
                if let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(id) {
                    let r = AllocRange { start: rustc_abi::Size::from_bytes(off), size: sz };
                    if let Ok(sc) = a.inner().read_scalar(&self.tcx, r, false) {
                        if let Some(j) = self.int_of(sc, t) {
                            return j;
                        }
                    }
                }
                J::A(vec![s("opq"), s("scalar")])
            }
            _ => {
                let v = ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) };
                self.const_val(v, t)
            }
        }
    }

    fn const_elems(&mut self, e: Ty<'tcx>, m: u64, id: interpret::AllocId, off: u64) -> J {
        if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
            return match self.mem_bytes(id, off, m) {
                Some(b) => J::A(vec![s("bytes"), J::A(b.into_iter().map(|x| n(x)).collect())]),
                None => J::A(vec![s("opq"), s("bytes")]),
            };
        }
        let sz = match self.tcx.layout_of(self.te.as_query_input(e)) {
            Ok(l) => l.size.bytes(),
            Err(_) => return J::A(vec![s("opq"), s("layout")]),
        };
        let v = (0..m).map(|i| self.const_at(e, id, off + i * sz, None)).collect();
        J::A(vec![s("arr"), J::A(v)])
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        match *t.kind() {
            ty::FnDef(d, args) => {
                let c = self.callee(d, args.no_bound_vars().unwrap(), None);
                return J::A(vec![s("fn"), c]);
            }
            ty::Ref(_, e, _) => {
                return match v {
                    ConstValue::Slice { alloc_id, meta } => self.const_at(e, alloc_id, 0, Some(meta)),
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, o) = p.prov_and_relative_offset();
                        let id = prov.alloc_id();
                        match self.tcx.try_get_global_alloc(id) {
                            Some(GlobalAlloc::Static(d)) => J::A(vec![s("static"), s(self.path(d))]),
                            _ => self.const_at(e, id, o.bytes(), None),
                        }
                    }
                    ConstValue::Indirect { alloc_id, offset } => self.const_at(t, alloc_id, offset.bytes(), None),
                    _ => J::A(vec![s("opq"), s(with_no_trimmed_paths!(t.to_string()))]),
                };
            }
            _ => {}
        }
        if let ConstValue::Scalar(sc) = v {
            if let Some(j) = self.int_of(sc, t) {
                return j;
            }
        }
        let tid = self.ty(t);
        match *t.kind() {
            ty::Array(e, c) => {
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    let m = c.try_to_target_usize(self.tcx).unwrap_or(0);
                    return self.const_elems(e, m, alloc_id, offset.bytes());
                }
            }
            ty::Adt(d, _) if d.is_union() => return J::A(vec![s("opq"), s("union")]),
            ty::Adt(..) | ty::Tuple(_) => {
                if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let vi = d.variant.unwrap_or(VariantIdx::from_u32(0)).as_u32();
                    let fs: Vec<_> = d.fields.to_vec();
                    let fs = fs.into_iter().map(|(fv, ft)| self.const_val(fv, ft)).collect();
                    return J::A(vec![s("adt"), n(tid), n(vi), J::A(fs)]);
                }
            }
            _ => {}
        }
        if let ConstValue::Indirect { alloc_id, offset } = v {
            if matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_)) {
                return self.const_at(t, alloc_id, offset.bytes(), None);
            }
        }
        if let ConstValue::ZeroSized = v {
            return J::A(vec![s("zst"), n(tid)]);
        }
        J::A(vec![s("opq"), s(with_no_trimmed_paths!(t.to_string()))])
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        match c.const_.eval(self.tcx, self.te, c.span) {
            Ok(v) => self.const_val(v, t),
            Err(_) => J::A(vec![s("opq"), s("const-eval")]),
        }
    }

    fn want(&self, p: &str, crate_local: bool) -> bool {
        if crate_local {
            return true;
        }
        if self.go.iter().any(|q| p.contains(q.as_str())) {
            return true;
        }
        !self.stop.iter().any(|q| p.contains(q.as_str()))
    }

    fn enqueue(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&f) = self.fns.get(&i) {
            return f;
        }
        let f = self.fns.len();
        self.fns.insert(i, f);
        self.queue.push_back((f, i));
        f
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, span: Option<Span>) -> J {
        let tcx = self.tcx;
        let decl = self.path(d);
        let targs: Vec<_> = args.types().collect();
        let targs: Vec<J> = targs.into_iter().map(|t| n(self.ty(t))).collect();
        let mut o = vec![("decl".into(), s(&decl)), ("args".into(), J::A(targs))];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait".into(), s(self.path(tr))));
        }
        if let Some(sp) = span {
            o.push(("line".into(), s(self.span(sp))));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor".into(), J::B(true)));
        }
        if let Some(&m) = self.redirect.get(&decl) {
            let i = Instance::new_raw(m, args);
            let f = self.enqueue(i);
            o.push(("alt".into(), n(f)));
        }
        match Instance::try_resolve(tcx, self.te, d, args) {
            Ok(Some(i)) => {
                let (kind, did) = match i.def {
                    InstanceKind::Item(x) => ("item", x),
                    InstanceKind::Intrinsic(x) => ("intrinsic", x),
                    InstanceKind::LlvmIntrinsic(x) => ("intrinsic", x),
                    InstanceKind::Virtual(x, _) => ("virtual", x),
                    InstanceKind::Shim(_) => ("shim", i.def_id()),
                };
                o.push(("kind".into(), s(kind)));
                let p = with_no_trimmed_paths!(tcx.def_path_str_with_args(did, i.args));
                let plain = self.path(did);
                o.push(("path".into(), s(&plain)));
                o.push(("full".into(), s(&p)));
                o.push(("crate".into(), s(tcx.crate_name(did.krate).as_str())));
                let avail = match i.def {
                    InstanceKind::Item(x) => {
                        tcx.is_mir_available(x) && !matches!(tcx.def_kind(x), DefKind::Ctor(..))
                            && self.want(&plain, x.is_local())
                    }
                    InstanceKind::Shim(_) => {
                        // only call shims of closures / fn items
                        decl.starts_with("std::ops::Fn")
                    }
                    _ => false,
                };
                if avail {
                    let f = self.enqueue(i);
                    o.push(("id".into(), n(f)));
                }
            }
            _ => o.push(("kind".into(), s("unresolved"))),
        }
        J::O(o)
    }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        let mut t = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => {
                    let k = match t.ty.kind() {
                        ty::Ref(_, _, m) => if m.is_mut() { "m" } else { "s" },
                        ty::RawPtr(..) => "r",
                        _ => "b",
                    };
                    vec![s("*"), s(k)]
                }
                ProjectionElem::Field(i, _) => vec![s("f"), n(i.as_u32())],
                ProjectionElem::Downcast(_, v) => vec![s("d"), n(v.as_u32())],
                ProjectionElem::Index(l) => vec![s("i"), n(l.as_u32())],
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    vec![s("c"), n(offset), n(min_length), J::B(from_end)],
                ProjectionElem::Subslice { from, to, from_end } => vec![s("u"), n(from), n(to), J::B(from_end)],
                _ => vec![s("?")],
            };
            pr.push(J::A(j));
            t = t.projection_ty(self.tcx, e);
        }
        let tid = self.ty(t.ty);
        J::A(vec![n(p.local.as_u32()), J::A(pr), n(tid)])
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => { let p = self.place(body, p); J::A(vec![s("cp"), p]) }
            Operand::Move(p) => { let p = self.place(body, p); J::A(vec![s("mv"), p]) }
            Operand::Constant(c) => {
                let v = self.constant(c);
                let t = self.ty(c.const_.ty());
                J::A(vec![s("k"), v, n(t)])
            }
            Operand::RuntimeChecks(_) => J::A(vec![s("k"), J::A(vec![s("bool"), J::B(true)]), n(0)]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        J::A(match r {
            Rvalue::Use(o, _) => vec![s("use"), self.operand(body, o)],
            Rvalue::Repeat(o, c) => vec![s("rep"), self.operand(body, o), n(c.try_to_target_usize(self.tcx).unwrap_or(0))],
            Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    BorrowKind::Shared => "s",
                    BorrowKind::Fake(_) => "s",
                    BorrowKind::Mut { .. } => "m",
                };
                vec![s("ref"), s(k), self.place(body, p)]
            }
            Rvalue::RawPtr(k, p) => vec![s("raw"), s(format!("{:?}", k)), self.place(body, p)],
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(body, o);
                let t = self.ty(*t);
                vec![s("cast"), s(format!("{:?}", k)), o, n(t)]
            }
            Rvalue::BinaryOp(op, b) => {
                let x = self.operand(body, &b.0);
                let y = self.operand(body, &b.1);
                let t = b.0.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                vec![s("bin"), s(format!("{:?}", op)), x, y, n(t)]
            }
            Rvalue::UnaryOp(op, o) => vec![s("un"), s(format!("{:?}", op)), self.operand(body, o)],
            Rvalue::Discriminant(p) => vec![s("discr"), self.place(body, p)],
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(body, o)).collect();
                let t = r.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                let (k, v) = match **k {
                    AggregateKind::Array(_) => ("arr", 0),
                    AggregateKind::Tuple => ("tup", 0),
                    AggregateKind::Adt(_, v, _, _, _) => ("adt", v.as_u32()),
                    AggregateKind::Closure(..) => ("clo", 0),
                    _ => ("other", 0),
                };
                vec![s("agg"), s(k), n(t), n(v), J::A(ops)]
            }
            Rvalue::CopyForDeref(p) => { let p = self.place(body, p); vec![s("use"), J::A(vec![s("cp"), p])] }
            Rvalue::Reborrow(_, m, p) => vec![s("ref"), s(if m.is_mut() { "m" } else { "s" }), self.place(body, p)],
            _ => vec![s("other"), s(format!("{:?}", r))],
        })
    }

    fn body(&mut self, id: usize, i: Instance<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let b = tcx.instance_mir(i.def);
        let body: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.te, EarlyBinder::bind(tcx, b.clone()));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&body, &b.0);
                        let r = self.rvalue(&body, &b.1);
                        st.push(J::A(vec![s("="), p, r]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(&body, place);
                        st.push(J::A(vec![s("sd"), p, n(variant_index.as_u32())]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_u32())])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![s("goto"), n(target.as_u32())],
                TerminatorKind::FalseEdge { real_target, .. } => vec![s("goto"), n(real_target.as_u32())],
                TerminatorKind::FalseUnwind { real_target, .. } => vec![s("goto"), n(real_target.as_u32())],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(&body, discr);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let ts = targets.iter().map(|(v, b)| J::A(vec![s(v.to_string()), n(b.as_u32())])).collect();
                    vec![s("sw"), d, J::A(ts), n(targets.otherwise().as_u32()), n(dt)]
                }
                TerminatorKind::Return => vec![s("ret")],
                TerminatorKind::Unreachable => vec![s("unr")],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![s("resume")],
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(&body, place);
                    vec![s("drop"), p, n(target.as_u32())]
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func.ty(&body.local_decls, tcx).kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.no_bound_vars().unwrap(), Some(t.source_info.span)),
                        _ => { let o = self.operand(&body, func); J::O(vec![("ptr".into(), o)]) }
                    };
                    let a = args.iter().map(|x| self.operand(&body, &x.node)).collect();
                    let d = self.place(&body, destination);
                    vec![s("call"), f, J::A(a), d, match target { Some(t) => n(t.as_u32()), None => J::Null }, s(line)]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(&body, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::DivisionByZero(_) => "div0".into(),
                        AssertKind::RemainderByZero(_) => "rem0".into(),
                        AssertKind::MisalignedPointerDereference { .. } | AssertKind::NullPointerDereference => "pointer".into(),
                        _ => "other".into(),
                    };
                    vec![s("assert"), c, J::B(*expected), s(m), n(target.as_u32()), s(line)]
                }
                _ => vec![s("other"), s(format!("{:?}", t.kind))],
            };
            blocks.push(J::A(vec![J::A(st), J::A(tj)]));
        }
        let locals: Vec<Ty<'tcx>> = body.local_decls.iter().map(|l| l.ty).collect();
        let locals = locals.into_iter().map(|t| n(self.ty(t))).collect();
        let mut vars = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let p = self.place(&body, p);
                vars.push(J::A(vec![s(v.name.as_str()), p]));
            }
        }
        let did = i.def_id();
        Some(J::O(vec![
            ("id".into(), n(id)),
            ("path".into(), s(self.path(did))),
            ("full".into(), s(with_no_trimmed_paths!(tcx.def_path_str_with_args(did, i.args)))),
            ("crate".into(), s(tcx.crate_name(did.krate).as_str())),
            ("name".into(), s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())),
            ("shim".into(), J::B(matches!(i.def, InstanceKind::Shim(_)))),
            ("closure".into(), J::B(tcx.is_closure_like(did))),
            ("span".into(), s(self.span(tcx.def_span(did)))),
            ("argc".into(), n(body.arg_count)),
            ("spread".into(), match body.spread_arg { Some(l) => n(l.as_u32()), None => J::Null }),
            ("locals".into(), J::A(locals)),
            ("vars".into(), J::A(vars)),
            ("blocks".into(), J::A(blocks)),
        ]))
    }
}

fn walk_mods(tcx: TyCtxt<'_>, f: &mut dyn FnMut(DefId, String)) {
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Fn) {
            if let Some(nm) = tcx.opt_item_name(d) {
                f(d, nm.to_string());
            }
        }
    }
}

struct Cb {
    out: String,
    policy: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx {
            tcx,
            te: TypingEnv::fully_monomorphized(),
            types: HashMap::new(),
            type_list: vec![],
            fns: HashMap::new(),
            queue: VecDeque::new(),
            stop: vec![],
            go: vec![],
            redirect: HashMap::new(),
        };
        let u = tcx.types.unit;
        cx.ty(u);
        let mut models = HashMap::new();
        let mut roots = vec![];
        walk_mods(tcx, &mut |d, nm| {
            if let Some(x) = nm.strip_prefix("vmodel_") {
                models.insert(x.to_string(), d);
            }
            if nm.starts_with("root_") {
                roots.push((nm, d));
            }
        });
        for l in std::fs::read_to_string(&self.policy).unwrap_or_default().lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w.as_slice() {
                ["stop", p] => cx.stop.push(p.to_string()),
                ["go", p] => cx.go.push(p.to_string()),
                ["redirect", p, m] => {
                    if let Some(&d) = models.get(*m) {
                        cx.redirect.insert(p.to_string(), d);
                    }
                }
                _ => {}
            }
        }
        let mut rj = vec![];
        for (nm, d) in roots {
            let i = Instance::mono(tcx, d);
            let f = cx.enqueue(i);
            rj.push((nm, n(f)));
        }
        let mut fj = vec![];
        while let Some((id, i)) = cx.queue.pop_front() {
            if let Some(b) = cx.body(id, i) {
                fj.push(b);
            }
        }
        let j = J::O(vec![
            ("roots".into(), J::O(rj)),
            ("fns".into(), J::A(fj)),
            ("types".into(), J::A(std::mem::take(&mut cx.type_list))),
        ]);
        let mut out = String::new();
        j.write(&mut out);
        std::fs::write(&self.out, out).unwrap();
        Compilation::Stop
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let policy = std::env::var("MIRDUMP_POLICY").unwrap_or_default();
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out, policy }));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
