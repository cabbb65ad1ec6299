//! mirdump: dumps, as JSON, the monomorphic MIR of everything reachable from the functions of the crate `luafmt`.
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`; it never runs the code it dumps.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};

enum J {
    S(String),
    I(i128),
    B(bool),
    N,
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(BTreeMap<String, J>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn esc(o: &mut String, x: &str) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn put(&self, o: &mut String) {
        match self {
            J::S(x) => esc(o, x),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N => o.push_str("null"),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.put(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.put(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(",\n");
                    }
                    esc(o, k);
                    o.push(':');
                    x.put(o);
                }
                o.push('}');
            }
        }
    }
}

macro_rules! pr {
    ($e:expr) => {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!($e)))
    };
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    queue: VecDeque<(String, Job<'tcx>)>,
    seen: HashSet<String>,
    keys: HashMap<Instance<'tcx>, String>,
    fns: BTreeMap<String, J>,
    adts: BTreeMap<String, J>,
    statics: BTreeMap<String, J>,
}
enum Job<'tcx> {
    Inst(Instance<'tcx>),
    Promoted(Instance<'tcx>, Promoted),
    Static(DefId),
}

/// std items whose bodies are small enough to be interpreted rather than modelled
fn descend(path: &str) -> bool {
    const P: &[&str] = &[
        "core::option::", "core::result::", "core::cell::", "core::cmp::", "core::convert::", "core::ops::",
        "core::clone::", "core::mem::", "core::bool::", "core::default::",
        "<core::option::", "<core::result::", "<core::cell::", "<core::cmp::", "<core::ops::", "<core::convert::",
        "core::tuple::", "<core::tuple", "core::intrinsics::cold_path", "core::ptr::mut_ptr", 
    ];
    P.iter().any(|p| path.starts_with(p)) || path.starts_with('<') && {
        const Q: &[&str] = &[
            " as core::clone::Clone>", " as core::cmp::PartialEq", " as core::cmp::Ord>", " as core::cmp::PartialOrd",
            " as core::convert::", " as core::ops::Try>", " as core::ops::FromResidual", " as core::ops::function::",
            " as core::ops::try_trait::", " as core::default::Default>",
        ];
        Q.iter().any(|q| path.contains(q))
            && !path.contains("alloc::string::String")
            && !path.contains("alloc::vec::Vec")
            && !path.contains("<str as")
            && !path.contains("hashbrown")
            && !path.contains("std::collections")
    }
}

impl<'tcx> Cx<'tcx> {
    fn ty(&self, t: Ty<'tcx>) -> String {
        pr!(format!("{}", t))
    }
    fn path(&self, d: DefId) -> String {
        pr!(self.tcx.def_path_str(d))
    }
    fn key(&mut self, i: Instance<'tcx>) -> String {
        if let Some(k) = self.keys.get(&i) {
            return k.clone();
        }
        let mut k = pr!(format!("{}", i));
        // closures print alike up to their position; keep them apart
        let base = k.clone();
        let mut n = 1;
        while self.keys.values().any(|x| *x == k) {
            n += 1;
            k = format!("{}#{}", base, n);
        }
        self.keys.insert(i, k.clone());
        k
    }
    fn is_ours(&self, d: DefId) -> bool {
        d.is_local() || self.tcx.crate_name(d.krate).as_str() == "luafmt"
    }
    fn want(&mut self, i: Instance<'tcx>) -> Option<String> {
        let d = i.def_id();
        let p = self.path(d);
        let k = self.key(i);
        let ok = match i.def {
            InstanceKind::Item(_) => {
                (d.is_local() || descend(&p) || descend(&k) || self.tcx.is_closure_like(d))
                    && self.tcx.is_mir_available(d)
                    && !self.tcx.is_foreign_item(d)
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { .. })
            | InstanceKind::Shim(ShimKind::FnPtr(..))
            | InstanceKind::Shim(ShimKind::Reify(..))
            | InstanceKind::Shim(ShimKind::VTable(..)) => true,
            InstanceKind::Shim(ShimKind::Clone(..)) => true,
            _ => false,
        };
        if !ok {
            return None;
        }
        if self.seen.insert(k.clone()) {
            self.queue.push_back((k.clone(), Job::Inst(i)));
        }
        Some(k)
    }
    fn note_ty(&mut self, t: Ty<'tcx>) {
        match t.kind() {
            ty::Adt(def, args) => {
                let k = self.ty(t);
                if self.adts.contains_key(&k) {
                    return;
                }
                self.adts.insert(k.clone(), J::N);
                if def.is_union() {
                    return;
                }
                let mut vs = Vec::new();
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr: i128 =
                        if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val as i128 } else { 0 };
                    let mut fs = Vec::new();
                    for f in v.fields.iter() {
                        let ft = f.ty(self.tcx, args);
                        let ft = self.tcx.try_normalize_erasing_regions(self.env, ft);
                        let (n, tstr) = match ft {
                            Ok(ft) => {
                                if self.is_ours(def.did()) || k.starts_with("core::option::") || k.starts_with("core::result::") {
                                    self.note_ty(ft);
                                }
                                (f.name.to_string(), self.ty(ft))
                            }
                            Err(_) => (f.name.to_string(), "?".into()),
                        };
                        fs.push(J::A(vec![s(n), s(tstr)]));
                    }
                    vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", J::I(discr)), ("f", J::A(fs))]));
                }
                let j = J::O(vec![
                    ("path", s(self.path(def.did()))),
                    ("enum", J::B(def.is_enum())),
                    ("v", J::A(vs)),
                ]);
                self.adts.insert(k, j);
            }
            ty::Ref(_, t, _) | ty::RawPtr(t, _) | ty::Slice(t) | ty::Array(t, _) => self.note_ty(*t),
            ty::Tuple(ts) => {
                for t in ts.iter() {
                    self.note_ty(t)
                }
            }
            _ => {}
        }
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![];
        let opath = self.path(d);
        let gs: Vec<J> = args.iter().map(|a| s(pr!(format!("{}", a)))).collect();
        o.push(("g", J::A(gs)));
        if tcx.is_constructor(d) {
            // tuple struct / variant constructor used as a function
            let ret = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip().skip_binder().output();
            let ret = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ret));
            self.note_ty(ret);
            let vi = match tcx.def_kind(d) {
                DefKind::Ctor(rustc_hir::def::CtorOf::Variant, _) => {
                    let adt = ret.ty_adt_def().unwrap();
                    adt.variant_index_with_ctor_id(d).as_usize()
                }
                _ => 0,
            };
            o.push(("p", s(opath)));
            o.push(("ctor", J::A(vec![s(self.ty(ret)), J::I(vi as i128)])));
            return J::O(o);
        }
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(i)) => {
                let rpath = self.path(i.def_id());
                o.push(("p", s(opath)));
                o.push(("r", s(rpath)));
                match i.def {
                    InstanceKind::Virtual(vd, _) => {
                        o.push(("virt", s(self.path(vd))));
                    }
                    InstanceKind::Intrinsic(_) => o.push(("intr", J::B(true))),
                    _ => {
                        let k = self.key(i);
                        o.push(("i", s(k)));
                        if let Some(k) = self.want(i) {
                            o.push(("k", s(k)));
                        }
                    }
                }
            }
            _ => {
                o.push(("p", s(opath)));
                o.push(("unres", J::B(true)));
            }
        }
        J::O(o)
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        if p.projection.is_empty() {
            return J::I(p.local.as_usize() as i128);
        }
        let mut v = vec![J::I(p.local.as_usize() as i128)];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    self.note_ty(t);
                    J::A(vec![s("f"), J::I(f.as_usize() as i128)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("c"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), J::I(v.as_usize() as i128)]),
                ProjectionElem::OpaqueCast(_) => s("o"),
                _ => s("?"),
            });
        }
        J::A(v)
    }
    fn scalar(&mut self, sc: Scalar, t: Ty<'tcx>) -> J {
        let ts = self.ty(t);
        match sc {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Bool => J::A(vec![s("b"), J::B(bits != 0)]),
                    ty::Char => J::A(vec![s("ch"), J::I(bits as i128)]),
                    ty::Int(_) => J::A(vec![s("n"), J::I(i.size().sign_extend(bits) as i128), s(ts)]),
                    ty::Uint(_) => J::A(vec![s("n"), J::I(bits as i128), s(ts)]),
                    _ => J::A(vec![s("bits"), J::I(bits as i128), s(ts)]),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                match self.tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => {
                        let k = self.want_static(d);
                        J::A(vec![s("static"), s(k)])
                    }
                    GlobalAlloc::Memory(a) => {
                        let inner = a.inner();
                        if let ty::Ref(_, u, _) = t.kind() {
                            if let ty::Array(e, _) = u.kind() {
                                if self.ty(*e) == "u8" && inner.provenance().ptrs().is_empty() {
                                    let bytes = inner.inspect_with_uninit_and_ptr_outside_interpreter(
                                        off.bytes_usize()..inner.len(),
                                    );
                                    return J::A(vec![
                                        s("bytes"),
                                        J::A(bytes.iter().map(|b| J::I(*b as i128)).collect()),
                                    ]);
                                }
                            }
                        }
                        J::A(vec![s("ptr"), s(ts)])
                    }
                    GlobalAlloc::Function { instance } => {
                        let c = self.callee(instance.def_id(), instance.args);
                        J::A(vec![s("fn"), c])
                    }
                    _ => J::A(vec![s("ptr"), s(ts)]),
                }
            }
        }
    }
    fn want_static(&mut self, d: DefId) -> String {
        let p = self.path(d);
        let k = format!("static {}", p);
        if d.is_local() && self.seen.insert(k.clone()) {
            self.queue.push_back((k.clone(), Job::Static(d)));
        }
        k
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        self.note_ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap();
            let c = self.callee(*d, args);
            return J::A(vec![s("fn"), c]);
        }
        match v {
            ConstValue::Scalar(sc) => self.scalar(sc, t),
            ConstValue::ZeroSized => J::A(vec![s("zst"), s(self.ty(t))]),
            ConstValue::Slice { .. } => match v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                Some(b) => match std::str::from_utf8(b) {
                    Ok(x) if self.ty(t).ends_with("str") => J::A(vec![s("str"), s(x)]),
                    _ => J::A(vec![s("bytes"), J::A(b.iter().map(|b| J::I(*b as i128)).collect())]),
                },
                None => J::A(vec![s("opaque"), s(self.ty(t))]),
            },
            ConstValue::Indirect { .. } => {
                if let ty::Adt(..) | ty::Tuple(_) | ty::Array(..) = t.kind() {
                    if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let fs: Vec<J> = d.fields.iter().map(|(v, t)| self.cval(*v, *t)).collect();
                        return J::A(vec![
                            s("agg"),
                            s(self.ty(t)),
                            J::I(d.variant.map(|v| v.as_usize()).unwrap_or(0) as i128),
                            J::A(fs),
                        ]);
                    }
                }
                J::A(vec![s("opaque"), s(self.ty(t))])
            }
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, me: Instance<'tcx>) -> J {
        let t = c.const_.ty();
        match c.const_ {
            Const::Unevaluated(u, _) if u.promoted.is_some() => {
                let pi = u.promoted.unwrap();
                let i = Instance::new_raw(u.def, u.args);
                let base = self.key(i);
                let k = format!("{}::promoted[{}]", base, pi.as_usize());
                if self.seen.insert(k.clone()) {
                    self.queue.push_back((k.clone(), Job::Promoted(i, pi)));
                }
                let _ = me;
                J::A(vec![s("prom"), s(k)])
            }
            _ => {
                if let ty::FnDef(d, args) = t.kind() {
                    let args = args.no_bound_vars().unwrap();
                    let c = self.callee(*d, args);
                    return J::A(vec![s("fn"), c]);
                }
                match c.const_.eval(self.tcx, self.env, c.span) {
                    Ok(v) => self.cval(v, t),
                    Err(_) => J::A(vec![s("opaque"), s(self.ty(t))]),
                }
            }
        }
    }
    fn operand(&mut self, o: &Operand<'tcx>, me: Instance<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("p"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(c, me)]),
            _ => J::A(vec![s("k"), J::A(vec![s("b"), J::B(true)])]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, me: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o, me)]),
            Rvalue::Repeat(o, n) => {
                let c = n.try_to_target_usize(tcx).map(|x| x as i128).unwrap_or(-1);
                J::A(vec![s("rep"), self.operand(o, me), J::I(c)])
            }
            Rvalue::Ref(_, k, p) => {
                J::A(vec![s("ref"), self.place(p), J::B(matches!(k, BorrowKind::Mut { .. }))])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(p), J::B(true)]),
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(body, tcx);
                self.note_ty(*t);
                let kind = match k {
                    CastKind::PointerCoercion(PointerCoercion::Unsize, _) => "unsize",
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_), _) => "reify",
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_), _) => "closurefn",
                    CastKind::PointerCoercion(..) => "ptr",
                    CastKind::Transmute => "transmute",
                    CastKind::IntToInt => "int",
                    CastKind::PointerExposeProvenance => "expose",
                    CastKind::FloatToInt | CastKind::IntToFloat | CastKind::FloatToFloat => "float",
                    _ => "ptr",
                };
                let mut v = vec![s("cast"), s(kind), self.operand(o, me), s(self.ty(ot)), s(self.ty(*t))];
                if kind == "unsize" {
                    v.push(self.vtable(ot, *t));
                }
                if kind == "closurefn" {
                    if let ty::Closure(d, a) = ot.kind() {
                        let i = Instance::resolve_closure(tcx, *d, a, ty::ClosureKind::FnOnce);
                        if let Some(k) = self.want(i) {
                            v.push(s(k));
                        }
                    }
                }
                J::A(v)
            }
            Rvalue::BinaryOp(op, ab) => J::A(vec![
                s("bin"),
                s(format!("{:?}", op)),
                self.operand(&ab.0, me),
                self.operand(&ab.1, me),
                s(self.ty(ab.0.ty(body, tcx))),
            ]),
            Rvalue::UnaryOp(op, a) => J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(a, me)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                self.note_ty(t);
                J::A(vec![s("discr"), self.place(p), s(self.ty(t))])
            }
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<J> = fs.iter().map(|o| self.operand(o, me)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        let t = tcx.type_of(*d).instantiate(tcx, args).skip_norm_wip();
                        self.note_ty(t);
                        J::A(vec![
                            s("adt"),
                            s(self.ty(t)),
                            J::I(vi.as_usize() as i128),
                            match active {
                                Some(a) => J::I(a.as_usize() as i128),
                                None => J::N,
                            },
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let i = Instance::new_raw(*d, args);
                        let k = self.want(i).unwrap_or_default();
                        J::A(vec![s("closure"), s(k)])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(f)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("p"), self.place(p)])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(o, me)]),
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }
    fn vtable(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let (f, t) = match (from.builtin_deref(true), to.builtin_deref(true)) {
            (Some(f), Some(t)) => (f, t),
            _ => return J::N,
        };
        let (f, t) = tcx.struct_lockstep_tails_for_codegen(f, t, self.env);
        if let ty::Dynamic(preds, ..) = t.kind() {
            if let Some(p) = preds.principal() {
                let tr = tcx.instantiate_bound_regions_with_erased(p.with_self_ty(tcx, f));
                let tr = tcx.erase_and_anonymize_regions(tr);
                let mut m = BTreeMap::new();
                for e in tcx.vtable_entries(tr).iter() {
                    if let ty::VtblEntry::Method(i) = e {
                        let p = self.path(i.def_id());
                        let name = p.rsplit("::").next().unwrap_or("").to_string();
                        let k = self.want(*i).unwrap_or_default();
                        m.insert(name, J::A(vec![s(k), s(p)]));
                    }
                }
                return J::O(vec![("self", s(self.ty(f))), ("m", J::M(m))]);
            }
        }
        J::N
    }
    fn line(&self, sp: rustc_span::Span) -> i128 {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        l.line as i128
    }
    fn body(&mut self, b: &Body<'tcx>, me: Instance<'tcx>, path: String) -> J {
        let tcx = self.tcx;
        let lo = tcx.sess.source_map().lookup_char_pos(b.span.source_callsite().lo());
        let file = pr!(format!("{}", lo.file.name.prefer_local_unconditionally()));
        let mut blocks = Vec::new();
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        let pj = self.place(p);
                        let rj = self.rvalue(r, b, me);
                        st.push(J::A(vec![s("="), pj, rj, J::I(self.line(x.source_info.span))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place);
                        st.push(J::A(vec![s("sd"), pj, J::I(variant_index.as_usize() as i128)]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), J::I(l.as_usize() as i128)])),
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::CopyNonOverlapping(_) = **i {
                            st.push(J::A(vec![s("intrinsic")]));
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let bbn = |x: BasicBlock| J::I(x.as_usize() as i128);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => J::I(b.as_usize() as i128),
                _ => J::N,
            };
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bbn(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(b, tcx);
                    let signed_bits = match dt.kind() {
                        ty::Int(_) => Some(tcx.layout_of(self.env.as_query_input(dt)).unwrap().size),
                        _ => None,
                    };
                    let mut v = Vec::new();
                    for (val, tb) in targets.iter() {
                        let n = match signed_bits {
                            Some(sz) => sz.sign_extend(val) as i128,
                            None => val as i128,
                        };
                        v.push(J::A(vec![J::I(n), bbn(tb)]));
                    }
                    J::A(vec![s("sw"), self.operand(discr, me), J::A(v), bbn(targets.otherwise()), s(self.ty(dt)), J::I(ln)])
                }
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
                TerminatorKind::Return => J::A(vec![s("ret"), J::I(ln)]),
                TerminatorKind::Unreachable => J::A(vec![s("unr")]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let t = place.ty(b, tcx).ty;
                    J::A(vec![s("drop"), self.place(place), bbn(*target), uw(unwind), s(self.ty(t))])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let ft = func.ty(b, tcx);
                    let f = match ft.kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.no_bound_vars().unwrap()),
                        _ => J::O(vec![("op", self.operand(func, me)), ("ty", s(self.ty(ft)))]),
                    };
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, me)).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(b, tcx).ty;
                    self.note_ty(dt);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        d,
                        match target {
                            Some(t) => bbn(*t),
                            None => J::N,
                        },
                        uw(unwind),
                        J::I(ln),
                        s(self.ty(dt)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow {:?}", op),
                        AssertKind::OverflowNeg(..) => "overflow neg".to_string(),
                        AssertKind::DivisionByZero(..) => "div".to_string(),
                        AssertKind::RemainderByZero(..) => "rem".to_string(),
                        _ => "other".to_string(),
                    };
                    J::A(vec![
                        s("assert"),
                        self.operand(cond, me),
                        J::B(*expected),
                        s(m),
                        bbn(*target),
                        uw(unwind),
                        J::I(ln),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bbn(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bbn(*real_target)]),
                k => J::A(vec![s("other"), s(format!("{:?}", k))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("c", J::B(bb.is_cleanup))]));
        }
        let mut names = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(p);
                names.push(J::A(vec![s(v.name.to_string()), pj]));
            }
        }
        let locals: Vec<J> = b
            .local_decls
            .iter()
            .map(|l| {
                self.note_ty(l.ty);
                s(self.ty(l.ty))
            })
            .collect();
        J::O(vec![
            ("path", s(path)),
            ("file", s(file)),
            ("line", J::I(lo.line as i128)),
            ("argc", J::I(b.arg_count as i128)),
            ("spread", J::B(b.spread_arg.is_some())),
            ("closure", J::B(self.tcx.is_closure_like(me.def_id()))),
            ("ours", J::B(me.def_id().is_local())),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("bb", J::A(blocks)),
        ])
    }
    fn run(&mut self) {
        let tcx = self.tcx;
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let p = self.path(d);
            if p.contains("__parse__Chunk") && !p.contains("__action") && !p.contains("__token_to_integer") {
                // the generated LR tables and driver are not analysed, only the grammar actions are
                continue;
            }
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    let g = tcx.generics_of(d);
                    if g.own_requires_monomorphization() || g.requires_monomorphization(tcx) {
                        continue;
                    }
                    let args = ty::GenericArgs::for_item(tcx, d, |_, _| tcx.lifetimes.re_erased.into());
                    let i = Instance::new_raw(d, args);
                    self.want(i);
                }
                DefKind::Static { .. } => {
                    self.want_static(d);
                }
                _ => {}
            }
        }
        while let Some((k, job)) = self.queue.pop_front() {
            match job {
                Job::Inst(i) => {
                    let p = self.path(i.def_id());
                    if p.contains("__parse__Chunk") && !p.contains("__action") && !p.contains("__token_to_integer") {
                        continue;
                    }
                    let body = tcx.instance_mir(i.def);
                    let b = i.instantiate_mir_and_normalize_erasing_regions(
                        tcx,
                        self.env,
                        ty::EarlyBinder::bind(tcx, body.clone()),
                    );
                    let j = self.body(&b, i, p);
                    self.fns.insert(k, j);
                }
                Job::Promoted(i, pi) => {
                    let bodies = tcx.promoted_mir(i.def_id());
                    let b = i.instantiate_mir_and_normalize_erasing_regions(
                        tcx,
                        self.env,
                        ty::EarlyBinder::bind(tcx, bodies[pi].clone()),
                    );
                    let p = self.path(i.def_id());
                    let j = self.body(&b, i, p);
                    self.fns.insert(k, j);
                }
                Job::Static(d) => {
                    let body = tcx.mir_for_ctfe(d);
                    let i = Instance::new_raw(d, ty::GenericArgs::identity_for_item(tcx, d));
                    let p = self.path(d);
                    let j = self.body(body, i, p);
                    let mutbl = tcx.is_mutable_static(d);
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let freeze = t.is_freeze(tcx, self.env);
                    let ts = self.ty(t);
                    self.statics.insert(k.clone(), J::A(vec![J::B(mutbl), J::B(freeze), s(ts)]));
                    self.fns.insert(k, j);
                }
            }
        }
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.ub_checks = Some(false);
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let kind = if tcx.entry_fn(()).is_some() { "bin" } else { "lib" };
        if let Ok(dir) = std::env::var("MIRDUMP_OUT") {
            let mut cx = Cx {
                tcx,
                env: TypingEnv::fully_monomorphized(),
                queue: VecDeque::new(),
                seen: HashSet::new(),
                keys: HashMap::new(),
                fns: BTreeMap::new(),
                adts: BTreeMap::new(),
                statics: BTreeMap::new(),
            };
            cx.run();
            let mut o = String::new();
            J::O(vec![
                ("crate", s(name.clone())),
                ("kind", s(kind)),
                ("fns", J::M(cx.fns)),
                ("adts", J::M(cx.adts)),
                ("statics", J::M(cx.statics)),
            ])
            .put(&mut o);
            let path = format!("{}/{}-{}.json", dir, name, kind);
            std::fs::write(&path, o).unwrap();
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let mut is_target = false;
    for (i, a) in args.iter().enumerate() {
        if a == "--crate-name" && args.get(i + 1).map(|x| x == "luafmt").unwrap_or(false) {
            is_target = true;
        }
    }
    if is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Cdebug-assertions=on".into());
        args.push("-Coverflow-checks=on".into());
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    } else {
        struct Plain;
        impl rustc_driver::Callbacks for Plain {}
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain));
    }
}
