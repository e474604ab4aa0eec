use crate::json::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

thread_local!(static CRATE: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });
/// canonical definition path, `crate::` replaced by the crate's name
fn fix(p: String) -> String {
    CRATE.with(|c| p.replace("crate::", &format!("{}::", c.borrow())))
}
fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = fix(with_no_visible_paths!(with_crate_prefix!(with_no_trimmed_paths!(tcx.def_path_str(d)))));
    // several statics of the same name can live in the blocks of one function
    if d.is_local() && matches!(tcx.def_kind(d), DefKind::Static { .. }) {
        let n = tcx.def_key(d).disambiguated_data.disambiguator;
        if n > 0 {
            return format!("{p}#{n}");
        }
    }
    // so can types, and with them their methods
    if d.is_local() {
        let ty = match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum => Some(d),
            DefKind::AssocFn => match tcx.opt_parent(d) {
                Some(i) if matches!(tcx.def_kind(i), DefKind::Impl { .. }) => match tcx.type_of(i).instantiate_identity().skip_norm_wip().kind() {
                    ty::Adt(a, _) => Some(a.did()),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        };
        if let Some(t) = ty {
            let n = tcx.def_key(t).disambiguated_data.disambiguator;
            if t.is_local() && n > 0 {
                return format!("{p}#{n}");
            }
        }
    }
    p
}
fn tystr(t: Ty<'_>) -> String {
    fix(with_no_visible_paths!(with_crate_prefix!(with_no_trimmed_paths!(t.to_string()))))
}
fn span_loc(tcx: TyCtxt<'_>, sp: Span) -> J {
    let sp = sp.source_callsite();
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(sp.lo());
    let f = lo.file.name.prefer_local_unconditionally().to_string();
    s(format!("{}:{}", f, lo.line))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    body: &'tcx Body<'tcx>,
}

impl<'tcx> D<'tcx> {
    fn place(&self, p: &Place<'tcx>) -> J {
        let mut proj = vec![];
        for (base, elem) in p.iter_projections() {
            let bt = base.ty(self.body, self.tcx);
            proj.push(match elem {
                ProjectionElem::Deref => J::Obj(vec![("k", s("deref"))]),
                ProjectionElem::Field(f, _) => {
                    let mut name = f.index().to_string();
                    let mut adt = J::Null;
                    if let ty::Adt(def, _) = bt.ty.kind() {
                        let v = match bt.variant_index {
                            Some(v) => Some(v),
                            None if def.is_struct() || def.is_union() => Some(rustc_abi::FIRST_VARIANT),
                            None => None,
                        };
                        if let Some(v) = v {
                            if let Some(fd) = def.variant(v).fields.get(f) {
                                name = fd.name.to_string();
                            }
                        }
                        adt = s(path(self.tcx, def.did()));
                    } else if let ty::Closure(d, _) = bt.ty.kind() {
                        adt = s(path(self.tcx, *d));
                        if let Some(l) = d.as_local() {
                            let names = self.tcx.closure_saved_names_of_captured_variables(l.to_def_id());
                            if let Some(nm) = names.get(f) {
                                name = nm.to_string();
                            }
                        }
                    }
                    J::Obj(vec![("k", s("field")), ("i", n(f.index() as i128)), ("n", s(name)), ("adt", adt)])
                }
                ProjectionElem::Downcast(name, v) => J::Obj(vec![
                    ("k", s("downcast")),
                    ("v", n(v.index() as i128)),
                    ("n", s(name.map(|x| x.to_string()).unwrap_or_default())),
                ]),
                ProjectionElem::Index(l) => J::Obj(vec![("k", s("index")), ("l", n(l.index() as i128))]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::Obj(vec![
                    ("k", s("cindex")),
                    ("o", n(offset as i128)),
                    ("from_end", J::Bool(from_end)),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::Obj(vec![
                    ("k", s("subslice")),
                    ("from", n(from as i128)),
                    ("to", n(to as i128)),
                    ("from_end", J::Bool(from_end)),
                ]),
                _ => J::Obj(vec![("k", s("other"))]),
            });
        }
        J::Obj(vec![("l", n(p.local.index() as i128)), ("p", J::Arr(proj))])
    }

    fn alloc_bytes(&self, prov: rustc_middle::mir::interpret::AllocId, off: u64, len: Option<u64>) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(prov)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let size = a.size().bytes();
                let end = len.map(|l| off + l).unwrap_or(size);
                if end > size {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize).to_vec())
            }
            _ => None,
        }
    }

    /// decode a typed value living in memory at `alloc + off`
    fn mem(&self, t: Ty<'tcx>, id: rustc_middle::mir::interpret::AllocId, off: u64, depth: u32) -> J {
        let none = J::Null;
        if depth > 8 {
            return none;
        }
        let Ok(layout) = self.tcx.layout_of(self.env.as_query_input(t)) else { return none };
        let size = layout.size.bytes();
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let Some(b) = self.alloc_bytes(id, off, Some(size)) else { return none };
                let mut v: u128 = 0;
                for (i, x) in b.iter().enumerate() {
                    v |= (*x as u128) << (8 * i);
                }
                n(v as i128)
            }
            ty::Array(et, _) => {
                let Ok(el) = self.tcx.layout_of(self.env.as_query_input(*et)) else { return none };
                let es = el.size.bytes();
                if es == 0 {
                    return none;
                }
                let cnt = size / es;
                if cnt > 512 {
                    return none;
                }
                J::Arr((0..cnt).map(|i| self.mem(*et, id, off + i * es, depth + 1)).collect())
            }
            ty::Ref(_, inner, _) => {
                let Some(ga) = self.tcx.try_get_global_alloc(id) else { return none };
                let GlobalAlloc::Memory(a) = ga else { return none };
                let a = a.inner();
                let ptr_off = rustc_abi::Size::from_bytes(off);
                let Some(prov) = a.provenance().ptrs().get(&ptr_off) else { return none };
                let nid = prov.alloc_id();
                let Some(b) = self.alloc_bytes(id, off, Some(size)) else { return none };
                let rd = |r: &[u8]| {
                    let mut v: u64 = 0;
                    for (i, x) in r.iter().enumerate() {
                        v |= (*x as u64) << (8 * i);
                    }
                    v
                };
                let noff = rd(&b[0..8]);
                match inner.kind() {
                    ty::Str => {
                        let len = rd(&b[8..16]);
                        match self.alloc_bytes(nid, noff, Some(len)) {
                            Some(x) => s(String::from_utf8_lossy(&x).to_string()),
                            None => none,
                        }
                    }
                    ty::Slice(et) => {
                        let len = rd(&b[8..16]);
                        self.slice(*et, nid, noff, len, depth)
                    }
                    _ => self.mem(*inner, nid, noff, depth + 1),
                }
            }
            ty::Tuple(ts) => J::Arr(
                ts.iter()
                    .enumerate()
                    .map(|(i, et)| self.mem(et, id, off + layout.fields.offset(i).bytes(), depth + 1))
                    .collect(),
            ),
            _ => none,
        }
    }

    fn slice(&self, et: Ty<'tcx>, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64, depth: u32) -> J {
        let Ok(el) = self.tcx.layout_of(self.env.as_query_input(et)) else { return J::Null };
        let es = el.size.bytes();
        if len > 512 {
            return J::Null;
        }
        J::Arr((0..len).map(|i| self.mem(et, id, off + i * es, depth + 1)).collect())
    }

    fn constant(&self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let mut v = vec![("k", s("const")), ("ty", s(tystr(t)))];
        match t.kind() {
            ty::FnDef(d, args) => {
                v.push(("fn", self.fnref(*d, args.skip_binder())));
                return J::Obj(v);
            }
            ty::Closure(d, _) => {
                v.push(("closure", s(path(self.tcx, *d))));
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                v.push(("promoted", n(p.index() as i128)));
                v.push(("promoted_of", s(path(self.tcx, u.def))));
            } else {
                v.push(("item", s(path(self.tcx, u.def))));
            }
        }
        if let Ok(val) = c.const_.eval(self.tcx, self.env, c.span) {
            match val {
                ConstValue::Scalar(Scalar::Int(i)) => {
                    let bits = i.to_bits(i.size());
                    let signed = matches!(t.kind(), ty::Int(_));
                    let num = if signed { i.size().sign_extend(bits) } else { bits as i128 };
                    v.push(("v", J::Num(num)));
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    let id = prov.alloc_id();
                    if let Some(GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(id) {
                        v.push(("static", s(path(self.tcx, d))));
                    } else if let ty::Ref(_, inner, _) = t.kind() {
                        let m = self.mem(*inner, id, off.bytes(), 0);
                        v.push(("v", m));
                    }
                }
                ConstValue::Slice { alloc_id, meta } => {
                    if let ty::Ref(_, inner, _) = t.kind() {
                        match inner.kind() {
                            ty::Str => {
                                if let Some(b) = self.alloc_bytes(alloc_id, 0, Some(meta)) {
                                    v.push(("v", s(String::from_utf8_lossy(&b).to_string())));
                                }
                            }
                            ty::Slice(et) => v.push(("v", self.slice(*et, alloc_id, 0, meta, 0))),
                            _ => {}
                        }
                    }
                }
                ConstValue::ZeroSized => v.push(("v", s("()"))),
                ConstValue::Indirect { alloc_id, offset } => {
                    let m = self.mem(t, alloc_id, offset.bytes(), 0);
                    v.push(("v", m));
                }
            }
        }
        J::Obj(v)
    }

    fn fnref(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![("path", s(path(tcx, d)))];
        let a: Vec<J> = args
            .iter()
            .filter_map(|g| match g.kind() {
                ty::GenericArgKind::Type(t) => Some(s(tystr(t))),
                ty::GenericArgKind::Const(c) => Some(s(with_no_trimmed_paths!(c.to_string()))),
                _ => None,
            })
            .collect();
        v.push(("args", J::Arr(a)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            v.push(("trait", s(path(tcx, tr))));
        }
        let args = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
            let rd = inst.def_id();
            let dbg = format!("{:?}", inst.def);
            let k = if matches!(inst.def, ty::InstanceKind::Item(_)) || dbg.contains("ClosureOnceShim") {
                "item"
            } else if matches!(inst.def, ty::InstanceKind::Virtual(..)) {
                "virtual"
            } else if dbg.contains("CloneShim") {
                "cloneshim"
            } else if dbg.contains("FnPtrShim") {
                "fnptrshim"
            } else if dbg.contains("Intrinsic") {
                "intrinsic"
            } else {
                "shim"
            };
            v.push(("rk", s(k)));
            v.push(("res", s(path(tcx, rd))));
            let ra: Vec<J> = inst
                .args
                .iter()
                .filter_map(|g| match g.kind() {
                    ty::GenericArgKind::Type(t) => Some(s(tystr(t))),
                    _ => None,
                })
                .collect();
            v.push(("rargs", J::Arr(ra)));
        }
        // callable self type (closure / fn item passed by generic parameter)
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let tp = path(tcx, tr);
            if tp.ends_with("::FnOnce") || tp.ends_with("::FnMut") || tp.ends_with("::Fn") {
                let st = args.type_at(0);
                let st = st.peel_refs();
                match st.kind() {
                    ty::Closure(cd, _) => v.push(("callee", s(path(tcx, *cd)))),
                    ty::FnDef(fd, _) => v.push(("callee", s(path(tcx, *fd)))),
                    _ => {}
                }
            }
        }
        J::Obj(v)
    }

    fn operand(&self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Obj(vec![("k", s("copy")), ("p", self.place(p))]),
            Operand::Move(p) => J::Obj(vec![("k", s("move")), ("p", self.place(p))]),
            Operand::Constant(c) => self.constant(c),
            #[allow(unreachable_patterns)]
            _ => J::Obj(vec![("k", s("other"))]),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::Obj(vec![("k", s("use")), ("o", self.operand(o))]),
            Rvalue::Repeat(o, c) => J::Obj(vec![
                ("k", s("repeat")),
                ("o", self.operand(o)),
                ("n", s(with_no_trimmed_paths!(c.to_string()))),
            ]),
            Rvalue::Ref(_, bk, p) => J::Obj(vec![
                ("k", s("ref")),
                ("mut", J::Bool(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(p)),
            ]),
            Rvalue::RawPtr(k, p) => J::Obj(vec![
                ("k", s("ref")),
                ("raw", J::Bool(true)),
                ("mut", J::Bool(format!("{k:?}").contains("Mut"))),
                ("p", self.place(p)),
            ]),
            Rvalue::BinaryOp(op, ab) => J::Obj(vec![
                ("k", s("bin")),
                ("op", s(format!("{op:?}"))),
                ("a", self.operand(&ab.0)),
                ("b", self.operand(&ab.1)),
            ]),
            Rvalue::UnaryOp(op, a) => {
                J::Obj(vec![("k", s("un")), ("op", s(format!("{op:?}"))), ("a", self.operand(a))])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(self.body, self.tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_enum() {
                        for (i, d) in def.discriminants(self.tcx) {
                            vs.push(J::Arr(vec![J::Num(d.val as i128), s(def.variant(i).name.to_string())]));
                        }
                    }
                }
                J::Obj(vec![("k", s("discr")), ("p", self.place(p)), ("ty", s(tystr(t))), ("vs", J::Arr(vs))])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![("k", s("agg"))];
                match &**k {
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*vi);
                        v.push(("adt", s(path(self.tcx, *d))));
                        v.push(("variant", s(if def.is_enum() { var.name.to_string() } else { String::new() })));
                        let names: Vec<J> = match active {
                            Some(f) => vec![s(var.fields[*f].name.to_string())],
                            None => var.fields.iter().map(|f| s(f.name.to_string())).collect(),
                        };
                        v.push(("names", J::Arr(names)));
                    }
                    AggregateKind::Tuple => v.push(("tuple", J::Bool(true))),
                    AggregateKind::Array(_) => v.push(("array", J::Bool(true))),
                    AggregateKind::Closure(d, _) => {
                        v.push(("closure", s(path(self.tcx, *d))));
                        let names = self.tcx.closure_saved_names_of_captured_variables(*d);
                        v.push(("names", J::Arr(names.iter().map(|x| s(x.to_string())).collect())));
                    }
                    AggregateKind::RawPtr(..) => v.push(("rawptr", J::Bool(true))),
                    _ => v.push(("coroutine", J::Bool(true))),
                }
                v.push(("ops", J::Arr(ops.iter().map(|o| self.operand(o)).collect())));
                J::Obj(v)
            }
            Rvalue::Cast(k, o, t) => J::Obj(vec![
                ("k", s("cast")),
                ("ck", s(format!("{k:?}"))),
                ("o", self.operand(o)),
                ("ty", s(tystr(*t))),
                ("from", s(tystr(o.ty(self.body, self.tcx)))),
            ]),
            Rvalue::CopyForDeref(p) => {
                J::Obj(vec![("k", s("use")), ("o", J::Obj(vec![("k", s("copy")), ("p", self.place(p))]))])
            }
            #[allow(unreachable_patterns)]
            other => J::Obj(vec![("k", s("other")), ("d", s(format!("{other:?}")))]),
        }
    }

    fn dump_blocks(&self) -> J {
        let mut bbs = vec![];
        for (_bb, data) in self.body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for stmt in &data.statements {
                match &stmt.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        st.push(J::Obj(vec![
                            ("d", self.place(p)),
                            ("r", self.rvalue(r)),
                            ("s", span_loc(self.tcx, stmt.source_info.span)),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::Obj(vec![
                            ("d", self.place(place)),
                            ("setdiscr", n(variant_index.index() as i128)),
                            ("s", span_loc(self.tcx, stmt.source_info.span)),
                        ]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::Obj(vec![("dead", n(l.index() as i128))]));
                    }
                    _ => {}
                }
            }
            let term = data.terminator();
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => n(b.index() as i128),
                _ => J::Null,
            };
            let mut t = vec![("s", span_loc(self.tcx, term.source_info.span))];
            match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    t.push(("k", s("goto")));
                    t.push(("t", n(target.index() as i128)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    t.push(("k", s("switch")));
                    t.push(("o", self.operand(discr)));
                    t.push(("ty", s(tystr(discr.ty(self.body, self.tcx)))));
                    t.push((
                        "ts",
                        J::Arr(
                            targets
                                .iter()
                                .map(|(v, b)| J::Arr(vec![J::Num(v as i128), n(b.index() as i128)]))
                                .collect(),
                        ),
                    ));
                    t.push(("ow", n(targets.otherwise().index() as i128)));
                }
                TerminatorKind::Return => t.push(("k", s("return"))),
                TerminatorKind::Unreachable => t.push(("k", s("unreachable"))),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => t.push(("k", s("resume"))),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    t.push(("k", s("drop")));
                    t.push(("p", self.place(place)));
                    t.push(("pty", s(tystr(place.ty(self.body, self.tcx).ty))));
                    t.push(("t", n(target.index() as i128)));
                    t.push(("uw", uw(unwind)));
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    t.push(("k", s("call")));
                    t.push(("f", self.operand(func)));
                    t.push(("a", J::Arr(args.iter().map(|a| self.operand(&a.node)).collect())));
                    t.push(("d", self.place(destination)));
                    t.push(("t", target.map(|b| n(b.index() as i128)).unwrap_or(J::Null)));
                    t.push(("uw", uw(unwind)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    t.push(("k", s("assert")));
                    t.push(("o", self.operand(cond)));
                    t.push(("e", J::Bool(*expected)));
                    let m: &AssertMessage<'tcx> = msg;
                    let name = format!("{m:?}");
                    t.push(("m", s(name)));
                    let mo = match m {
                        AssertKind::BoundsCheck { len, index } => {
                            vec![s("bounds"), self.operand(len), self.operand(index)]
                        }
                        AssertKind::Overflow(op, a, b) => {
                            vec![s(format!("overflow{op:?}")), self.operand(a), self.operand(b)]
                        }
                        AssertKind::DivisionByZero(a) => vec![s("divzero"), self.operand(a)],
                        AssertKind::RemainderByZero(a) => vec![s("remzero"), self.operand(a)],
                        AssertKind::OverflowNeg(a) => vec![s("neg"), self.operand(a)],
                        _ => vec![s("other")],
                    };
                    t.push(("mo", J::Arr(mo)));
                    t.push(("t", n(target.index() as i128)));
                    t.push(("uw", uw(unwind)));
                }
                other => {
                    t.push(("k", s("other")));
                    t.push(("dbg", s(format!("{other:?}"))));
                    t.push((
                        "ts",
                        J::Arr(term.successors().map(|b| n(b.index() as i128)).collect()),
                    ));
                }
            }
            bbs.push(J::Obj(vec![
                ("st", J::Arr(st)),
                ("t", J::Obj(t)),
                ("cu", J::Bool(data.is_cleanup)),
            ]));
        }
        J::Arr(bbs)
    }

    fn dump_locals(&self) -> J {
        J::Arr(
            self.body
                .local_decls
                .iter()
                .map(|d| s(tystr(d.ty)))
                .collect(),
        )
    }
}

fn dump_body<'tcx>(tcx: TyCtxt<'tcx>, ld: LocalDefId, body: &'tcx Body<'tcx>, promoted: Option<usize>) -> J {
    let did = ld.to_def_id();
    let env = TypingEnv::post_analysis(tcx, did);
    let d = D { tcx, env, body };
    let kind = tcx.def_kind(did);
    let mut v = vec![
        ("path", s(path(tcx, did))),
        ("kind", s(format!("{kind:?}"))),
        ("loc", span_loc(tcx, body.span)),
        ("argc", n(body.arg_count as i128)),
        ("expn", J::Bool(body.span.from_expansion())),
    ];
    if let Some(p) = promoted {
        v.push(("promoted", n(p as i128)));
    }
    if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
        let sig = tcx.fn_sig(did).instantiate_identity();
        let sig = sig.skip_norm_wip();
        let sig = sig.skip_binder();
        v.push(("abi", s(format!("{:?}", sig.abi()))));
        v.push(("unsafe", J::Bool(format!("{:?}", sig.safety()).contains("Unsafe"))));
        v.push(("vis", s(format!("{:?}", tcx.visibility(did)))));
        v.push(("inputs", J::Arr(sig.inputs().iter().map(|t| s(tystr(*t))).collect())));
        v.push(("output", s(tystr(sig.output()))));
        v.push(("c_variadic", J::Bool(false)));
        let cg = tcx.codegen_fn_attrs(did);
        v.push((
            "no_mangle",
            J::Bool(cg.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE)),
        ));
    }
    if let Some(imp) = tcx.impl_of_assoc(did) {
        v.push(("impl_self", s(tystr(tcx.type_of(imp).instantiate_identity().skip_norm_wip()))));
        if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
            let tr = tr.instantiate_identity().skip_norm_wip();
            v.push(("impl_trait", s(path(tcx, tr.def_id))));
            v.push(("impl_trait_ref", s(fix(with_no_visible_paths!(with_crate_prefix!(with_no_trimmed_paths!(tr.to_string())))))));
        }
        v.push(("assoc", s(tcx.item_name(did).to_string())));
        v.push(("derived", J::Bool(tcx.is_automatically_derived(imp))));
    } else if let Some(tr) = tcx.trait_of_assoc(did) {
        v.push(("in_trait", s(path(tcx, tr))));
        v.push(("assoc", s(tcx.item_name(did).to_string())));
    }
    if tcx.is_closure_like(did) {
        v.push(("parent", s(path(tcx, tcx.typeck_root_def_id(did)))));
    }
    let mut names = vec![];
    for vi in &body.var_debug_info {
        if let VarDebugInfoContents::Place(p) = &vi.value {
            names.push(J::Arr(vec![s(vi.name.to_string()), d.place(p)]));
        }
    }
    v.push(("names", J::Arr(names)));
    v.push(("locals", d.dump_locals()));
    v.push(("blocks", d.dump_blocks()));
    J::Obj(v)
}

pub fn dump_crate(tcx: TyCtxt<'_>) -> String {
    CRATE.with(|c| *c.borrow_mut() = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string());
    let mut bodies = vec![];
    let mut statics = vec![];
    let mut consts = vec![];
    for ld in tcx.hir_body_owners() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_coroutine(did) {
                    continue;
                }
                let body: &Body<'_> = tcx.optimized_mir(did);
                bodies.push(dump_body(tcx, ld, body, None));
                for (i, pb) in tcx.promoted_mir(did).iter_enumerated() {
                    bodies.push(dump_body(tcx, ld, pb, Some(i.index())));
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::post_analysis(tcx, did);
                let e = vec![
                    ("path", s(path(tcx, did))),
                    ("ty", s(tystr(t))),
                    ("freeze", J::Bool(t.is_freeze(tcx, env))),
                    ("mut", J::Bool(tcx.static_mutability(did) == Some(rustc_hir::Mutability::Mut))),
                    ("tls", J::Bool(tcx.is_thread_local_static(did))),
                    ("loc", span_loc(tcx, tcx.def_span(did))),
                ];
                let body: &Body<'_> = tcx.mir_for_ctfe(did);
                bodies.push(dump_body(tcx, ld, body, None));
                for (i, pb) in tcx.promoted_mir(did).iter_enumerated() {
                    bodies.push(dump_body(tcx, ld, pb, Some(i.index())));
                }
                if matches!(kind, DefKind::Static { .. }) {
                    statics.push(J::Obj(e));
                } else {
                    consts.push(J::Obj(e));
                }
            }
            _ => {}
        }
    }
    let mut adts = vec![];
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(did);
                let mut vs = vec![];
                for (vi, var) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                    let fs = var
                        .fields
                        .iter()
                        .map(|f| {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            J::Obj(vec![
                                ("n", s(f.name.to_string())),
                                ("ty", s(tystr(ft))),
                                ("vis", s(format!("{:?}", f.vis))),
                            ])
                        })
                        .collect();
                    vs.push(J::Obj(vec![
                        ("n", s(var.name.to_string())),
                        ("discr", J::Num(discr)),
                        ("fields", J::Arr(fs)),
                    ]));
                }
                adts.push(J::Obj(vec![
                    ("path", s(path(tcx, did))),
                    ("kind", s(format!("{:?}", tcx.def_kind(did)))),
                    ("variants", J::Arr(vs)),
                    ("loc", span_loc(tcx, tcx.def_span(did))),
                ]));
            }
            DefKind::Impl { .. } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let mut e = vec![("self", s(tystr(st))), ("derived", J::Bool(tcx.is_automatically_derived(did)))];
                if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    e.push(("trait", s(path(tcx, tr.def_id))));
                    e.push(("unsafe", J::Bool(false)));
                }
                let items: Vec<J> = tcx
                    .associated_item_def_ids(did)
                    .iter()
                    .map(|d| s(path(tcx, *d)))
                    .collect();
                e.push(("items", J::Arr(items)));
                e.push(("loc", span_loc(tcx, tcx.def_span(did))));
                impls.push(J::Obj(e));
            }
            _ => {}
        }
    }
    let out = J::Obj(vec![
        ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
        ("bodies", J::Arr(bodies)),
        ("statics", J::Arr(statics)),
        ("consts", J::Arr(consts)),
        ("adts", J::Arr(adts)),
        ("impls", J::Arr(impls)),
    ]);
    let mut o = String::new();
    out.write(&mut o);
    o
}
