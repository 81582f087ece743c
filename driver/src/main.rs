//! mirdump: a rustc driver that writes the type-checked, callee-resolved MIR of the crate
//! being compiled as JSON.  It decides nothing; the rules live in /verif/sa.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

struct J;
impl J {
    fn s(x: &str) -> String {
        let mut o = String::with_capacity(x.len() + 2);
        o.push('"');
        for c in x.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                '\r' => o.push_str("\\r"),
                '\t' => o.push_str("\\t"),
                c if (c as u32) < 0x20 => {
                    let _ = write!(o, "\\u{:04x}", c as u32);
                }
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
    fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
        let v: Vec<String> = i.into_iter().collect();
        format!("[{}]", v.join(","))
    }
    fn obj(kv: &[(&str, String)]) -> String {
        let v: Vec<String> = kv.iter().map(|(k, v)| format!("{}:{}", J::s(k), v)).collect();
        format!("{{{}}}", v.join(","))
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: RefCell<(HashMap<Ty<'tcx>, usize>, Vec<Option<String>>)>,
    adts: RefCell<BTreeMap<String, String>>,
    /// printed paths are made unique: the n-th local definition printing alike gets `#n`
    keys: RefCell<(HashMap<DefId, String>, HashMap<String, usize>)>,
}

struct Cx<'a, 'tcx> {
    d: &'a Dump<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        if !d.is_local() {
            return with_no_trimmed_paths!(self.tcx.def_path_str(d));
        }
        if let Some(k) = self.keys.borrow().0.get(&d) {
            return k.clone();
        }
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        let mut b = self.keys.borrow_mut();
        let n = b.1.entry(p.clone()).or_insert(0);
        *n += 1;
        let k = if *n > 1 { format!("{p}#{n}") } else { p };
        b.0.insert(d, k.clone());
        k
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn ty(&self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.borrow().0.get(&t) {
            return *i;
        }
        let id = {
            let mut b = self.types.borrow_mut();
            let id = b.1.len();
            b.0.insert(t, id);
            b.1.push(None);
            id
        };
        let mut kv: Vec<(&str, String)> = vec![("s", J::s(&self.tystr(t)))];
        let gargs = |a: ty::GenericArgsRef<'tcx>| J::arr(a.types().map(|x| self.ty(x).to_string()));
        match t.kind() {
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                kv.push(("k", J::s("adt")));
                kv.push(("def", J::s(&p)));
                kv.push(("args", gargs(args)));
                self.adt(*def, p);
            }
            ty::Ref(_, inner, m) => {
                kv.push(("k", J::s("ref")));
                kv.push(("mut", m.is_mut().to_string()));
                kv.push(("args", format!("[{}]", self.ty(*inner))));
            }
            ty::RawPtr(inner, m) => {
                kv.push(("k", J::s("ptr")));
                kv.push(("mut", m.is_mut().to_string()));
                kv.push(("args", format!("[{}]", self.ty(*inner))));
            }
            ty::Tuple(ts) => {
                kv.push(("k", J::s("tuple")));
                kv.push(("args", J::arr(ts.iter().map(|x| self.ty(x).to_string()))));
            }
            ty::Array(inner, n) => {
                kv.push(("k", J::s("array")));
                kv.push(("args", format!("[{}]", self.ty(*inner))));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    kv.push(("n", n.to_string()));
                }
            }
            ty::Slice(inner) => {
                kv.push(("k", J::s("slice")));
                kv.push(("args", format!("[{}]", self.ty(*inner))));
            }
            ty::Closure(def, args) => {
                kv.push(("k", J::s("closure")));
                kv.push(("def", J::s(&self.path(*def))));
                kv.push((
                    "args",
                    J::arr(args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string())),
                ));
            }
            ty::Coroutine(def, args) => {
                kv.push(("k", J::s("coroutine")));
                kv.push(("def", J::s(&self.path(*def))));
                kv.push((
                    "args",
                    J::arr(args.as_coroutine().upvar_tys().iter().map(|x| self.ty(x).to_string())),
                ));
            }
            ty::FnDef(def, args) => {
                kv.push(("k", J::s("fndef")));
                kv.push(("def", J::s(&self.path(*def))));
                let _ = args;
            }
            ty::Dynamic(preds, ..) => {
                kv.push(("k", J::s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    kv.push(("def", J::s(&self.path(p))));
                }
            }
            ty::Alias(..) => {
                kv.push(("k", J::s("alias")));
            }
            ty::Param(_) => kv.push(("k", J::s("param"))),
            ty::Bool => kv.push(("k", J::s("bool"))),
            ty::Char => kv.push(("k", J::s("char"))),
            ty::Uint(_) => kv.push(("k", J::s("uint"))),
            ty::Int(_) => kv.push(("k", J::s("int"))),
            ty::Float(_) => kv.push(("k", J::s("float"))),
            ty::Str => kv.push(("k", J::s("str"))),
            ty::Never => kv.push(("k", J::s("never"))),
            ty::FnPtr(..) => kv.push(("k", J::s("fnptr"))),
            _ => kv.push(("k", J::s("other"))),
        }
        let s = J::obj(&kv);
        self.types.borrow_mut().1[id] = Some(s);
        id
    }
    fn adt(&self, def: ty::AdtDef<'tcx>, p: String) {
        if self.adts.borrow().contains_key(&p) {
            return;
        }
        self.adts.borrow_mut().insert(p.clone(), "null".into());
        let tcx = self.tcx;
        let discrs: Vec<String> = if def.is_enum() {
            def.discriminants(tcx).map(|(_, d)| d.val.to_string()).collect()
        } else {
            vec!["0".into()]
        };
        let vs = J::arr(def.variants().iter().enumerate().map(|(i, v)| {
            J::obj(&[
                ("name", J::s(v.name.as_str())),
                ("discr", discrs.get(i).cloned().unwrap_or("0".into())),
                (
                    "fields",
                    J::arr(v.fields.iter().map(|f| {
                        let t = tcx.type_of(f.did).instantiate_identity();
                        let env = TypingEnv::post_analysis(tcx, def.did());
                        let t = tcx.try_normalize_erasing_regions(env, t).unwrap_or(t.skip_norm_wip());
                        J::arr([J::s(f.name.as_str()), J::s(&self.tystr(t))])
                    })),
                ),
            ])
        }));
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let r = def.repr();
        let ty = tcx.type_of(def.did()).instantiate_identity().skip_norm_wip();
        let generic = tcx.generics_of(def.did()).count() > 0;
        let env = TypingEnv::post_analysis(tcx, def.did());
        let (size, offsets) = match (!generic).then(|| tcx.layout_of(env.as_query_input(ty)).ok()).flatten() {
            Some(l) => (
                l.size.bytes().to_string(),
                if def.is_struct() {
                    J::arr((0..l.fields.count()).map(|i| l.fields.offset(i).bytes().to_string()))
                } else {
                    "null".into()
                },
            ),
            None => ("null".into(), "null".into()),
        };
        let o = J::obj(&[
            ("size", size),
            ("offsets", offsets),
            ("kind", J::s(kind)),
            ("local", def.did().is_local().to_string()),
            ("repr_c", r.c().to_string()),
            ("transparent", r.transparent().to_string()),
            ("packed", r.packed().to_string()),
            ("variants", vs),
        ]);
        self.adts.borrow_mut().insert(p, o);
    }
    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let mac: Vec<String> = s
            .macro_backtrace()
            .filter_map(|e| match e.kind {
                rustc_span::ExpnKind::Macro(_, name) => Some(J::s(name.as_str())),
                rustc_span::ExpnKind::Desugaring(k) => Some(J::s(&format!("desugar:{}", k.descr()))),
                _ => None,
            })
            .collect();
        let root = s.source_callsite();
        let lo = sm.lookup_char_pos(root.lo());
        let hi = sm.lookup_char_pos(root.hi());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("[{},{},{},{}]", J::s(&f), lo.line, hi.line, J::arr(mac))
    }
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn place(&self, p: &Place<'tcx>) -> String {
        let tcx = self.d.tcx;
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        let mut out = vec![];
        for el in p.projection.iter() {
            let s = match el {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, fty) => {
                    let (name, variant, owner) = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let v = def.variant(vi);
                            let vn = if def.is_enum() { v.name.as_str().to_string() } else { String::new() };
                            (v.fields[f].name.as_str().to_string(), vn, self.d.path(def.did()))
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            (f.as_usize().to_string(), String::new(), self.d.path(*d))
                        }
                        _ => (f.as_usize().to_string(), String::new(), String::new()),
                    };
                    format!(
                        "[\"f\",{},{},{},{},{}]",
                        f.as_usize(),
                        J::s(&name),
                        J::s(&variant),
                        J::s(&owner),
                        self.d.ty(fty)
                    )
                }
                ProjectionElem::Index(l) => format!("[\"idx\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"cidx\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, vi) => format!(
                    "[\"dc\",{},{}]",
                    vi.as_usize(),
                    J::s(&n.map(|x| x.as_str().to_string()).unwrap_or_default())
                ),
                _ => "[\"other\"]".to_string(),
            };
            out.push(s);
            pt = pt.projection_ty(tcx, el);
        }
        format!("[{},{}]", p.local.as_usize(), J::arr(out))
    }

    fn fnref(&self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> Vec<(&'static str, String)> {
        let tcx = self.d.tcx;
        let mut kv = vec![("fn", J::s(&self.d.path(def)))];
        kv.push(("targs", J::arr(args.types().map(|t| self.d.ty(t).to_string()))));
        kv.push(("local", def.is_local().to_string()));
        let targs_no_infer = args;
        if let Some(tr) = tcx.trait_of_assoc(def) {
            kv.push(("trait", J::s(&self.d.path(tr))));
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let a = tcx.erase_and_anonymize_regions(targs_no_infer);
            Instance::try_resolve(tcx, self.env, def, a)
        }));
        if let Ok(Ok(Some(inst))) = r {
            let d = inst.def_id();
            kv.push(("res", J::s(&self.d.path(d))));
            kv.push(("reslocal", d.is_local().to_string()));
            let k = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Intrinsic(_) => "intrinsic",
                _ => "other",
            };
            kv.push(("reskind", J::s(k)));
        }
        kv
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.d.tcx;
        let ty = c.const_.ty();
        let mut kv: Vec<(&'static str, String)> = vec![("o", J::s("const")), ("ty", self.d.ty(ty).to_string())];
        if let ty::FnDef(d, a) = ty.kind() {
            kv.extend(self.fnref(*d, a.no_bound_vars().unwrap()));
            return J::obj(&kv);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            kv.push(("name", J::s(&self.d.path(u.def))));
            if let Some(p) = u.promoted {
                kv.push(("promoted", p.as_usize().to_string()));
                return J::obj(&kv);
            }
        }
        let ev = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.const_.eval(tcx, self.env, c.span)));
        if let Ok(Ok(v)) = ev {
            match v {
                ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                    let bits = i.to_bits(i.size());
                    kv.push(("v", J::s(&bits.to_string())));
                    if let ty::Int(_) = ty.kind() {
                        let sh = 128 - i.size().bits();
                        let sv = ((bits << sh) as i128) >> sh;
                        kv.push(("sv", J::s(&sv.to_string())));
                    }
                }
                ConstValue::ZeroSized => kv.push(("zst", "true".into())),
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        kv.push(("bytes", J::arr(b.iter().map(|x| x.to_string()))));
                        if let Ok(s) = std::str::from_utf8(b) {
                            kv.push(("str", J::s(s)));
                        }
                    }
                }
                ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
                    // &[u8; N] and similar
                    let (prov, off) = p.into_raw_parts();
                    if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) =
                        tcx.try_get_global_alloc(prov.alloc_id())
                    {
                        let al = a.inner();
                        if al.provenance().ptrs().is_empty() && al.len() < 4096 {
                            let b = al
                                .inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..al.len());
                            kv.push(("bytes", J::arr(b.iter().map(|x| x.to_string()))));
                        }
                    } else if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) =
                        tcx.try_get_global_alloc(prov.alloc_id())
                    {
                        kv.push(("static", J::s(&self.d.path(d))));
                    }
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                        let al = a.inner();
                        let off = offset.bytes_usize();
                        let fat = match ty.kind() {
                            ty::Ref(_, t, _) => t.is_str() || matches!(t.kind(), ty::Slice(e) if *e == tcx.types.u8),
                            _ => false,
                        };
                        if fat {
                            let p = al.provenance().ptrs().iter().find(|(o, _)| o.bytes_usize() == off).map(|(_, p)| p.alloc_id());
                            let raw = al.inspect_with_uninit_and_ptr_outside_interpreter(off..off + 16);
                            let po = u64::from_le_bytes(raw[0..8].try_into().unwrap()) as usize;
                            let n = u64::from_le_bytes(raw[8..16].try_into().unwrap()) as usize;
                            if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(t)) =
                                p.and_then(|p| tcx.try_get_global_alloc(p))
                            {
                                let b = t.inner().inspect_with_uninit_and_ptr_outside_interpreter(po..po + n);
                                kv.push(("bytes", J::arr(b.iter().map(|x| x.to_string()))));
                                if let Ok(s) = std::str::from_utf8(b) {
                                    kv.push(("str", J::s(s)));
                                }
                            }
                        } else if let ty::Array(e, _) = ty.kind() {
                            if *e == tcx.types.u8 && al.provenance().ptrs().is_empty() {
                                let b = al.inspect_with_uninit_and_ptr_outside_interpreter(off..al.len());
                                kv.push(("arr", J::arr(b.iter().map(|x| x.to_string()))));
                            }
                        }
                    }
                }
            }
        }
        J::obj(&kv)
    }

    fn op(&self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => J::obj(&[("o", J::s("copy")), ("p", self.place(p))]),
            Operand::Move(p) => J::obj(&[("o", J::s("move")), ("p", self.place(p))]),
            Operand::Constant(c) => self.konst(c),
            #[allow(unreachable_patterns)]
            other => J::obj(&[("o", J::s("other")), ("d", J::s(&format!("{other:?}")))]),
        }
    }

    fn rv(&self, r: &Rvalue<'tcx>) -> String {
        let tcx = self.d.tcx;
        match r {
            Rvalue::Use(o, ..) => J::obj(&[("r", J::s("use")), ("a", self.op(o))]),
            Rvalue::Repeat(o, n) => J::obj(&[
                ("r", J::s("repeat")),
                ("a", self.op(o)),
                ("n", n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())),
            ]),
            Rvalue::Ref(_, k, p) => J::obj(&[
                ("r", J::s("ref")),
                ("mut", matches!(k, BorrowKind::Mut { .. }).to_string()),
                ("fake", matches!(k, BorrowKind::Fake(_)).to_string()),
                ("p", self.place(p)),
            ]),
            Rvalue::RawPtr(k, p) => J::obj(&[
                ("r", J::s("rawptr")),
                ("mut", format!("{}", matches!(k, RawPtrKind::Mut))),
                ("p", self.place(p)),
            ]),
            Rvalue::Cast(k, o, t) => J::obj(&[
                ("r", J::s("cast")),
                ("kind", J::s(&format!("{k:?}"))),
                ("a", self.op(o)),
                ("ty", self.d.ty(*t).to_string()),
                ("from", self.d.ty(o.ty(&self.body.local_decls, tcx)).to_string()),
            ]),
            Rvalue::BinaryOp(k, ab) => J::obj(&[
                ("r", J::s("bin")),
                ("op", J::s(&format!("{k:?}"))),
                ("a", self.op(&ab.0)),
                ("b", self.op(&ab.1)),
                ("ty", self.d.ty(ab.0.ty(&self.body.local_decls, tcx)).to_string()),
            ]),
            Rvalue::UnaryOp(k, o) => J::obj(&[
                ("r", J::s("un")),
                ("op", J::s(&format!("{k:?}"))),
                ("a", self.op(o)),
            ]),
            Rvalue::Discriminant(p) => J::obj(&[
                ("r", J::s("discr")),
                ("p", self.place(p)),
                ("ty", self.d.ty(p.ty(&self.body.local_decls, tcx).ty).to_string()),
            ]),
            Rvalue::Aggregate(k, ops) => {
                let mut kv = vec![("r", J::s("agg"))];
                match &**k {
                    AggregateKind::Array(t) => {
                        kv.push(("k", J::s("array")));
                        kv.push(("ty", self.d.ty(*t).to_string()));
                    }
                    AggregateKind::Tuple => kv.push(("k", J::s("tuple"))),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        let def = tcx.adt_def(*d);
                        let v = def.variant(*vi);
                        kv.push(("k", J::s("adt")));
                        kv.push(("def", J::s(&self.d.path(*d))));
                        kv.push(("targs", J::arr(args.types().map(|t| self.d.ty(t).to_string()))));
                        kv.push(("variant", J::s(if def.is_enum() { v.name.as_str() } else { "" })));
                        kv.push(("vi", vi.as_usize().to_string()));
                        kv.push(("fields", J::arr(v.fields.iter().map(|f| J::s(f.name.as_str())))));
                        if active.is_some() {
                            kv.push(("union", "true".into()));
                        }
                        self.d.adt(def, self.d.path(*d));
                    }
                    AggregateKind::Closure(d, _) => {
                        kv.push(("k", J::s("closure")));
                        kv.push(("def", J::s(&self.d.path(*d))));
                    }
                    AggregateKind::Coroutine(d, _) => {
                        kv.push(("k", J::s("coroutine")));
                        kv.push(("def", J::s(&self.d.path(*d))));
                    }
                    other => {
                        kv.push(("k", J::s("other")));
                        kv.push(("d", J::s(&format!("{other:?}"))));
                    }
                }
                kv.push(("ops", J::arr(ops.iter().map(|o| self.op(o)))));
                J::obj(&kv)
            }
            Rvalue::CopyForDeref(p) => {
                J::obj(&[("r", J::s("use")), ("a", J::obj(&[("o", J::s("copy")), ("p", self.place(p))]))])
            }
            other => J::obj(&[("r", J::s("other")), ("d", J::s(&format!("{other:?}")))]),
        }
    }

    fn body(&self, key: &str, extra: Vec<(&'static str, String)>) -> String {
        let tcx = self.d.tcx;
        let b = self.body;
        let locals = J::arr(b.local_decls.iter().map(|l| self.d.ty(l.ty).to_string()));
        let mut names: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::arr([
                    J::s(v.name.as_str()),
                    self.place(p),
                    v.argument_index.map(|x| x.to_string()).unwrap_or("0".into()),
                ]));
            }
        }
        let blocks = J::arr(b.basic_blocks.iter().map(|bb| {
            let stmts = J::arr(bb.statements.iter().filter_map(|s| {
                let x = match &s.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        J::obj(&[
                            ("s", J::s("=")),
                            ("p", self.place(p)),
                            ("rv", self.rv(r)),
                            ("sp", self.d.span(s.source_info.span)),
                        ])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => J::obj(&[
                        ("s", J::s("setdiscr")),
                        ("p", self.place(place)),
                        ("vi", variant_index.as_usize().to_string()),
                        ("sp", self.d.span(s.source_info.span)),
                    ]),
                    StatementKind::StorageDead(l) => {
                        J::obj(&[("s", J::s("dead")), ("l", l.as_usize().to_string())])
                    }
                    StatementKind::StorageLive(l) => {
                        J::obj(&[("s", J::s("live")), ("l", l.as_usize().to_string())])
                    }
                    _ => return None,
                };
                Some(x)
            }));
            let t = bb.terminator();
            let bbn = |x: &BasicBlock| x.as_usize().to_string();
            let mut kv: Vec<(&str, String)> = vec![];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    kv.push(("t", J::s("goto")));
                    kv.push(("to", bbn(target)));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    kv.push(("t", J::s("goto")));
                    kv.push(("to", bbn(real_target)));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    kv.push(("t", J::s("goto")));
                    kv.push(("to", bbn(real_target)));
                    kv.push(("loophead", "true".into()));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    kv.push(("t", J::s("switch")));
                    kv.push(("a", self.op(discr)));
                    kv.push(("aty", self.d.ty(discr.ty(&b.local_decls, tcx)).to_string()));
                    kv.push((
                        "targets",
                        J::arr(targets.iter().map(|(v, t)| format!("[{},{}]", J::s(&v.to_string()), bbn(&t)))),
                    ));
                    kv.push(("otherwise", bbn(&targets.otherwise())));
                }
                TerminatorKind::Return => kv.push(("t", J::s("return"))),
                TerminatorKind::Unreachable => kv.push(("t", J::s("unreachable"))),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    kv.push(("t", J::s("unwind")))
                }
                TerminatorKind::Drop { place, target, .. } => {
                    kv.push(("t", J::s("drop")));
                    kv.push(("p", self.place(place)));
                    kv.push(("pty", self.d.ty(place.ty(&b.local_decls, tcx).ty).to_string()));
                    kv.push(("to", bbn(target)));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    kv.push(("t", J::s("call")));
                    kv.push(("f", self.op(func)));
                    kv.push(("args", J::arr(args.iter().map(|a| self.op(&a.node)))));
                    kv.push((
                        "atys",
                        J::arr(args.iter().map(|a| self.d.ty(a.node.ty(&b.local_decls, tcx)).to_string())),
                    ));
                    kv.push(("dest", self.place(destination)));
                    kv.push(("dty", self.d.ty(destination.ty(&b.local_decls, tcx).ty).to_string()));
                    if let Some(t) = target {
                        kv.push(("to", bbn(t)));
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    kv.push(("t", J::s("assert")));
                    kv.push(("cond", self.op(cond)));
                    kv.push(("expected", expected.to_string()));
                    kv.push(("to", bbn(target)));
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => J::obj(&[
                            ("k", J::s("bounds")),
                            ("len", self.op(len)),
                            ("index", self.op(index)),
                        ]),
                        AssertKind::Overflow(op, x, y) => J::obj(&[
                            ("k", J::s("overflow")),
                            ("op", J::s(&format!("{op:?}"))),
                            ("a", self.op(x)),
                            ("b", self.op(y)),
                        ]),
                        AssertKind::OverflowNeg(x) => {
                            J::obj(&[("k", J::s("overflow_neg")), ("a", self.op(x))])
                        }
                        AssertKind::DivisionByZero(x) => {
                            J::obj(&[("k", J::s("div0")), ("a", self.op(x))])
                        }
                        AssertKind::RemainderByZero(x) => {
                            J::obj(&[("k", J::s("rem0")), ("a", self.op(x))])
                        }
                        other => J::obj(&[("k", J::s("other")), ("d", J::s(&format!("{other:?}")))]),
                    };
                    kv.push(("msg", m));
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    kv.push(("t", J::s("yield")));
                    kv.push(("a", self.op(value)));
                    kv.push(("to", bbn(resume)));
                    kv.push(("dest", self.place(resume_arg)));
                }
                TerminatorKind::CoroutineDrop => kv.push(("t", J::s("unwind"))),
                other => {
                    kv.push(("t", J::s("other")));
                    kv.push(("d", J::s(&format!("{other:?}"))));
                }
            }
            kv.push(("sp", self.d.span(t.source_info.span)));
            J::obj(&[
                ("st", stmts),
                ("term", J::obj(&kv)),
                ("cleanup", bb.is_cleanup.to_string()),
            ])
        }));
        let mut kv = vec![
            ("key", J::s(key)),
            ("argc", b.arg_count.to_string()),
            ("locals", locals),
            ("names", J::arr(names)),
            ("blocks", blocks),
            ("sp", self.d.span(b.span)),
        ];
        kv.extend(extra);
        J::obj(&kv)
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let d = Dump { tcx, types: Default::default(), adts: Default::default(), keys: Default::default() };
    for &id in tcx.mir_keys(()) {
        d.path(id.to_def_id());
    }
    // clone every body before anything steals it
    let mut bodies: Vec<(LocalDefId, Body<'_>, Vec<Body<'_>>)> = vec![];
    for &id in tcx.mir_keys(()) {
        let kind = tcx.def_kind(id);
        if !matches!(
            kind,
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. }
        ) {
            continue;
        }
        let (b, p) = tcx.mir_promoted(id);
        let b = b.borrow().clone();
        let p: Vec<Body<'_>> = p.borrow().iter().cloned().collect();
        bodies.push((id, b, p));
    }
    let mut o = String::new();
    o.push_str("{\"bodies\":[\n");
    let mut first = true;
    for (id, b, ps) in &bodies {
        let env = TypingEnv::post_analysis(tcx, id.to_def_id());
        let key = d.path(id.to_def_id());
        let proms = J::arr(ps.iter().enumerate().map(|(i, pb)| {
            let cx = Cx { d: &d, body: pb, env };
            cx.body(&format!("{key}::promoted[{i}]"), vec![])
        }));
        let did = id.to_def_id();
        let mut extra = vec![("promoted", proms), ("kind", J::s(&format!("{:?}", tcx.def_kind(did))))];
        extra.push(("coroutine", tcx.coroutine_kind(did).is_some().to_string()));
        if let Some(k) = tcx.coroutine_kind(did) {
            extra.push(("coroutine_kind", J::s(&format!("{k:?}"))));
        }
        if matches!(tcx.def_kind(did), DefKind::AssocFn) {
            if let Some(imp) = tcx.impl_of_assoc(did) {
                extra.push(("impl_self", J::s(&d.tystr(tcx.type_of(imp).instantiate_identity().skip_norm_wip()))));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    extra.push((
                        "impl_trait",
                        J::s(&d.path(tr.instantiate_identity().skip_norm_wip().def_id)),
                    ));
                }
            }
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            extra.push(("is_async", tcx.asyncness(did).is_async().to_string()));
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            extra.push(("unsafe", format!("{}", !sig.safety().is_safe())));
        }
        let cx = Cx { d: &d, body: b, env };
        if !first {
            o.push_str(",\n");
        }
        first = false;
        o.push_str(&cx.body(&key, extra));
    }
    o.push_str("],\n\"types\":[");
    // types may grow while printing field types of adts, so take them last
    let tys: Vec<String> = d.types.borrow().1.iter().map(|x| x.clone().unwrap_or("null".into())).collect();
    o.push_str(&tys.join(",\n"));
    o.push_str("],\n\"adts\":{");
    let ad: Vec<String> = d.adts.borrow().iter().map(|(k, v)| format!("{}:{}", J::s(k), v)).collect();
    o.push_str(&ad.join(",\n"));
    o.push_str("},\n");
    // unsafe blocks, by enclosing body, from HIR
    let mut uns: Vec<String> = vec![];
    for id in tcx.hir_body_owners() {
        use rustc_hir::intravisit::Visitor;
        struct V<'a, 'tcx> {
            d: &'a Dump<'tcx>,
            key: String,
            out: &'a mut Vec<String>,
        }
        impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
                    if matches!(src, rustc_hir::UnsafeSource::UserProvided) {
                        self.out.push(J::arr([J::s(&self.key), self.d.span(b.span)]));
                    }
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        let body = tcx.hir_body_owned_by(id);
        let mut v = V { d: &d, key: d.path(id.to_def_id()), out: &mut uns };
        v.visit_body(body);
    }
    o.push_str("\"unsafe\":");
    o.push_str(&J::arr(uns));
    // consts
    o.push_str("}\n");
    let tmp = format!("{out}.tmp{}", std::process::id());
    std::fs::write(&tmp, o).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

struct Cb {
    out: Option<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(o) = &self.out {
            dump(tcx, o);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER protocol: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("MIRDUMP_CRATE").ok();
    let is_test = args.iter().any(|a| a == "--test");
    let out = if name.is_some() && name == want && !is_test { std::env::var("MIRDUMP_OUT").ok() } else { None };
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
