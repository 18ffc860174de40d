// MIR/type extractor for the static analysis in /verif/engine.
//
// Injected as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.  It performs no judgement of
// its own: it dumps the borrow-checked-phase MIR of every body of the crate, the resolved callees,
// evaluated constants, ADT/trait/impl tables, item visibilities, and the MIR of the small
// Option/Result combinators of `core` the crate uses, as one JSON document.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;

// ---------------------------------------------------------------- json
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(BTreeMap<String, J>),
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: usize) -> J { J::N(x as i128) }
fn esc(out: &mut String, v: &str) {
    out.push('"');
    for c in v.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => { write!(out, "\\u{:04x}", c as u32).unwrap(); }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(i) => { write!(o, "{}", i).unwrap(); }
            J::S(v) => esc(o, v),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.write(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(o, k); o.push(':'); x.write(o); }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(o, k); o.push(':'); x.write(o); }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- dumper
struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    adt_seen: HashSet<DefId>,
    ext_queue: Vec<DefId>,
    ext_seen: HashSet<DefId>,
}

impl<'tcx> D<'tcx> {
    fn key(&self, d: DefId) -> String {
        let c = self.tcx.crate_name(d.krate);
        format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn pretty(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d)))
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::S(format!("{}:{}", f, lo.line))
    }
    fn tys(&mut self, t: Ty<'tcx>) -> J { n(self.ty(t)) }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = Vec::new();
        for g in a.iter() {
            match g.kind() {
                ty::GenericArgKind::Type(t) => v.push(self.tys(t)),
                ty::GenericArgKind::Const(c) => v.push(J::O(vec![("const", s(format!("{}", c)))])),
                ty::GenericArgKind::Lifetime(_) => {}
                _ => {}
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) { return *i; }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, i);
        let tcx = self.tcx;
        let j = match *t.kind() {
            ty::Bool => J::O(vec![("k", s("bool"))]),
            ty::Char => J::O(vec![("k", s("char"))]),
            ty::Str => J::O(vec![("k", s("str"))]),
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Int(x) => J::O(vec![("k", s("int")), ("n", s(x.name_str()))]),
            ty::Uint(x) => J::O(vec![("k", s("int")), ("n", s(x.name_str()))]),
            ty::Float(_) => J::O(vec![("k", s("float"))]),
            ty::Adt(def, args) => {
                self.adt(def);
                J::O(vec![("k", s("adt")), ("def", s(self.pretty(def.did()))), ("args", self.args(args))])
            }
            ty::Array(e, len) => {
                let l = len.try_to_target_usize(tcx);
                J::O(vec![("k", s("array")), ("t", self.tys(e)), ("len", l.map(|x| J::N(x as i128)).unwrap_or(J::Null))])
            }
            ty::Slice(e) => J::O(vec![("k", s("slice")), ("t", self.tys(e))]),
            ty::RawPtr(e, m) => J::O(vec![("k", s("ptr")), ("t", self.tys(e)), ("mut", J::B(m.is_mut()))]),
            ty::Ref(_, e, m) => J::O(vec![("k", s("ref")), ("t", self.tys(e)), ("mut", J::B(m.is_mut()))]),
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let d: DefId = d.into();
                J::O(vec![("k", s("fndef")), ("def", s(self.key(d))), ("name", s(self.pretty(d))), ("args", self.args(args))])
            }
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr")), ("str", s(format!("{}", t)))]),
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.pretty(d)).unwrap_or_default();
                let mut a = J::A(vec![]);
                if let Some(pr) = preds.principal() { a = self.args(pr.skip_binder().args); }
                J::O(vec![("k", s("dyn")), ("trait", s(p)), ("args", a)])
            }
            ty::Closure(d, args) => {
                let d: DefId = d.into();
                let ca = args.as_closure();
                let parent = self.args(tcx.mk_args(ca.parent_args()));
                let ups: Vec<J> = ca.upvar_tys().iter().map(|u| self.tys(u)).collect();
                J::O(vec![("k", s("closure")), ("def", s(self.key(d))), ("args", parent), ("upvars", J::A(ups)),
                    ("kind", s(format!("{:?}", ca.kind_ty())))])
            }
            ty::Tuple(ts) => { let v = ts.iter().map(|x| self.tys(x)).collect(); J::O(vec![("k", s("tuple")), ("ts", J::A(v))]) }
            ty::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name.as_str())), ("i", n(p.index as usize))]),
            ty::Alias(..) => {
                let ty::Alias(_, a) = *t.kind() else { unreachable!() };
                let d: DefId = match a.kind {
                    ty::AliasTyKind::Projection { def_id } => def_id.into(),
                    ty::AliasTyKind::Inherent { def_id } => def_id.into(),
                    ty::AliasTyKind::Opaque { def_id } => def_id.into(),
                    ty::AliasTyKind::Free { def_id } => def_id.into(),
                };
                let name = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default();
                let parent = tcx.opt_parent(d).map(|p| self.pretty(p)).unwrap_or_default();
                J::O(vec![("k", s("alias")), ("def", s(self.pretty(d))), ("name", s(name)), ("trait", s(parent)), ("args", self.args(a.args))])
            }
            _ => J::O(vec![("k", s("other")), ("str", s(format!("{}", t)))]),
        };
        self.types[i] = j;
        i
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if !self.adt_seen.insert(def.did()) { return; }
        let tcx = self.tcx;
        let mut vs = Vec::new();
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fs = Vec::new();
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let local = def.did().is_local();
                let interesting = local || ["core::option","core::result","core::ops::control_flow"].iter().any(|p| self.pretty(def.did()).starts_with(p) || self.pretty(def.did()).replace("std::","core::").starts_with(p));
                let tj = if interesting { self.tys(t) } else { J::Null };
                fs.push(J::O(vec![("name", s(f.name.as_str())), ("ty", tj), ("vis", s(self.vis(tcx.visibility(f.did))))]));
            }
            let discr = if def.is_enum() { J::N(def.discriminant_for_variant(tcx, vi).val as i128) } else { n(0) };
            vs.push(J::O(vec![("name", s(v.name.as_str())), ("fields", J::A(fs)), ("discr", discr)]));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let gens = self.generics(def.did());
        let sp = self.span(tcx.def_span(def.did()));
        let j = J::O(vec![
            ("kind", s(kind)), ("variants", J::A(vs)), ("generics", gens), ("local", J::B(def.did().is_local())),
            ("key", s(self.key(def.did()))), ("span", sp), ("vis", s(self.vis(tcx.visibility(def.did())))),
            ("reachable", J::B(def.did().as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(true))),
            ("exported", J::B(def.did().as_local().map(|l| tcx.effective_visibilities(()).is_exported(l)).unwrap_or(true))),
        ]);
        self.adts.insert(self.pretty(def.did()), j);
    }
    fn vis(&self, v: ty::Visibility<rustc_span::def_id::ModId>) -> String {
        match v {
            ty::Visibility::Public => "pub".into(),
            ty::Visibility::Restricted(m) => { let d: DefId = m.into(); format!("in {}", self.pretty(d)) }
        }
    }
    fn generics(&mut self, d: DefId) -> J {
        let g = self.tcx.generics_of(d);
        let mut v = Vec::new();
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            match p.kind {
                ty::GenericParamDefKind::Lifetime => {}
                _ => v.push(s(p.name.as_str())),
            }
        }
        J::A(v)
    }
    fn preds(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let ps = tcx.clauses_of(d).instantiate_identity(tcx);
        let mut v = Vec::new();
        for p in ps.clauses {
            let p = p.skip_norm_wip();
            if let Some(tp) = p.as_trait_clause() {
                let tr = tp.skip_binder().trait_ref;
                v.push(J::O(vec![("trait", s(self.pretty(tr.def_id))), ("args", self.args(tr.args))]));
            } else if let Some(pp) = p.as_projection_clause() {
                let pp = pp.skip_binder();
                let t = match pp.term.kind() { ty::TermKind::Ty(t) => self.tys(t), _ => J::Null };
                let d: DefId = pp.def_id();
                v.push(J::O(vec![("proj", s(self.pretty(d))), ("args", self.args(pp.projection_term.args)), ("ty", t)]));
            }
        }
        J::A(v)
    }

    // ------------------------------------------------------------ constants
    fn read(&mut self, alloc: AllocId, off: u64, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> Option<J> {
        if depth > 8 { return None; }
        let tcx = self.tcx;
        let GlobalAlloc::Memory(mem) = tcx.global_alloc(alloc) else { return None };
        let mem = mem.inner();
        let layout = tcx.layout_of(env.as_query_input(t)).ok()?;
        let size = layout.size.bytes();
        let bytes = |o: u64, l: u64| -> Option<Vec<u8>> {
            if o + l > mem.len() as u64 { return None; }
            Some(mem.inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + l) as usize).to_vec())
        };
        let num = |o: u64, l: u64| -> Option<u128> {
            let b = bytes(o, l)?;
            let mut x: u128 = 0;
            for (i, v) in b.iter().enumerate() { x |= (*v as u128) << (8 * i); }
            Some(x)
        };
        match *t.kind() {
            ty::Bool => Some(J::B(num(off, 1)? != 0)),
            ty::Char => Some(J::O(vec![("char", J::N(num(off, 4)? as i128))])),
            ty::Uint(_) => Some(J::N(num(off, size)? as i128)),
            ty::Int(_) => { let x = num(off, size)?; let sh = 128 - 8 * size as u32; Some(J::N(((x << sh) as i128) >> sh)) }
            ty::Array(e, len) => {
                let l = len.try_to_target_usize(tcx)?;
                let es = tcx.layout_of(env.as_query_input(e)).ok()?.size.bytes();
                let mut v = Vec::new();
                for i in 0..l { v.push(self.read(alloc, off + i * es, e, env, depth + 1)?); }
                Some(J::O(vec![("array", J::A(v))]))
            }
            ty::Tuple(ts) => {
                let mut v = Vec::new();
                for (i, e) in ts.iter().enumerate() {
                    v.push(self.read(alloc, off + layout.fields.offset(i).bytes(), e, env, depth + 1)?);
                }
                Some(J::O(vec![("tuple", J::A(v))]))
            }
            ty::Adt(def, args) if def.is_struct() => {
                let mut v = Vec::new();
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    v.push(self.read(alloc, off + layout.fields.offset(i).bytes(), ft, env, depth + 1)?);
                }
                self.adt(def);
                Some(J::O(vec![("adt", s(self.pretty(def.did()))), ("variant", n(0)), ("fields", J::A(v))]))
            }
            ty::Ref(_, e, _) => {
                let prov = mem.provenance().ptrs().get(&rustc_abi::Size::from_bytes(off))?;
                let inner = prov.alloc_id();
                let o = num(off, 8)? as u64;
                match *e.kind() {
                    ty::Str => {
                        let l = num(off + 8, 8)? as u64;
                        self.read_str(inner, o, l)
                    }
                    ty::Slice(el) => {
                        let l = num(off + 8, 8)? as u64;
                        self.read_slice(inner, o, l, el, env, depth + 1)
                    }
                    _ => { let x = self.read(inner, o, e, env, depth + 1)?; Some(J::O(vec![("ref", x)])) }
                }
            }
            _ => None,
        }
    }
    fn read_str(&self, a: AllocId, o: u64, l: u64) -> Option<J> {
        let GlobalAlloc::Memory(mem) = self.tcx.global_alloc(a) else { return None };
        let b = mem.inner().inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + l) as usize);
        Some(J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))]))
    }
    fn read_slice(&mut self, a: AllocId, o: u64, l: u64, e: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> Option<J> {
        let es = self.tcx.layout_of(env.as_query_input(e)).ok()?.size.bytes();
        let mut v = Vec::new();
        for i in 0..l { v.push(self.read(a, o + i * es, e, env, depth)?); }
        Some(J::O(vec![("slice", J::A(v))]))
    }
    fn const_val(&mut self, v: mir::ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        if let ty::Adt(def, args) = *t.kind() {
            // the null niche of an optional reference
            if def.is_enum() && self.pretty(def.did()) == "std::option::Option" && matches!(args.type_at(0).kind(), ty::Ref(..)) {
                if let mir::ConstValue::Scalar(Scalar::Int(i)) = v {
                    if i.is_null() {
                        self.adt(def);
                        return Some(J::O(vec![("adt", s(self.pretty(def.did()))), ("variant", n(0)), ("fields", J::A(vec![]))]));
                    }
                }
            }
            if def.is_enum() && !rustc_middle::ty::TypeVisitableExt::has_param(&t) {
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let mut fs = Vec::new();
                for (fv, ft) in d.fields.iter() { fs.push(self.const_val(*fv, *ft, env)?); }
                self.adt(def);
                let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                return Some(J::O(vec![("adt", s(self.pretty(def.did()))), ("variant", n(vi)), ("fields", J::A(fs))]));
            }
        }
        match v {
            mir::ConstValue::ZeroSized => Some(J::O(vec![("zst", self.tys(t))])),
            mir::ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                Some(match *t.kind() {
                    ty::Bool => J::B(bits != 0),
                    ty::Char => J::O(vec![("char", J::N(bits as i128))]),
                    ty::Int(_) => { let sh = 128 - i.size().bits() as u32; J::N(((bits << sh) as i128) >> sh) }
                    ty::Uint(_) => J::N(bits as i128),
                    _ => return None,
                })
            }
            mir::ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let ty::Ref(_, e, _) = *t.kind() else { return None };
                let (prov, o) = p.into_raw_parts();
                let x = self.read(prov.alloc_id(), o.bytes(), e, env, 0)?;
                Some(J::O(vec![("ref", x)]))
            }
            mir::ConstValue::Slice { alloc_id, meta } => {
                let ty::Ref(_, e, _) = *t.kind() else { return None };
                match *e.kind() {
                    ty::Str => self.read_str(alloc_id, 0, meta),
                    ty::Slice(el) => self.read_slice(alloc_id, 0, meta, el, env, 0),
                    _ => None,
                }
            }
            mir::ConstValue::Indirect { alloc_id, offset } => { let _ = tcx; self.read(alloc_id, offset.bytes(), t, env, 0) }
        }
    }
    fn constant(&mut self, c: &mir::ConstOperand<'tcx>, env: TypingEnv<'tcx>, owner: DefId) -> J {
        let t = c.const_.ty();
        let mut o = vec![("ty", self.tys(t))];
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            let f = self.callee(d.into(), args, env);
            o.push(("fn", f));
            return J::O(o);
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", s(format!("{}#promoted{}", self.key(u.def), p.as_usize()))));
            } else {
                o.push(("constdef", s(self.key(u.def))));
            }
            let _ = owner;
        }
        if let Ok(v) = c.const_.eval(self.tcx, env, c.span) {
            if let Some(j) = self.const_val(v, t, env) { o.push(("val", j)); }
        }
        J::O(o)
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("def", s(self.key(d))), ("name", s(self.pretty(d))), ("args", self.args(args))];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.pretty(tr))));
            o.push(("method", s(tcx.item_name(d).as_str())));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let v = tcx.parent(d);
            let (adt, vi) = if matches!(tcx.def_kind(v), DefKind::Variant) {
                let a = tcx.parent(v);
                (a, tcx.adt_def(a).variant_index_with_id(v).as_usize())
            } else { (v, 0) };
            self.adt(tcx.adt_def(adt));
            o.push(("ctor", J::A(vec![s(self.pretty(adt)), n(vi)])));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
                match inst.def {
                    ty::InstanceKind::Item(rd) => {
                        if rd != d || tcx.trait_of_assoc(d).is_none() {
                            o.push(("rdef", s(self.key(rd))));
                            o.push(("rname", s(self.pretty(rd))));
                            o.push(("rargs", self.args(inst.args)));
                            self.want(rd);
                        } else if tcx.trait_of_assoc(d).is_some() {
                            // default method body of the trait
                            o.push(("rdef", s(self.key(rd))));
                            o.push(("rname", s(self.pretty(rd))));
                            o.push(("rargs", self.args(inst.args)));
                        }
                    }
                    other => { o.push(("rkind", s(format!("{:?}", other).split('(').next().unwrap_or("").to_string()))); }
                }
            }
            self.want(d);
        }
        J::O(o)
    }
    fn want(&mut self, d: DefId) {
        if d.is_local() { return; }
        let p = self.key(d);
        let ok = ["core::option::", "core::result::", "core::ops::control_flow::", "core::bool::", "core::convert::", "core::ops::try_trait::"].iter().any(|x| p.starts_with(x));
        if !ok || self.ext_seen.contains(&d) { return; }
        if !self.tcx.is_mir_available(d) || self.tcx.is_intrinsic(d, rustc_span::Symbol::intern("x")) { return; }
        self.ext_seen.insert(d);
        self.ext_queue.push(d);
    }

    // ------------------------------------------------------------ bodies
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), n(f.as_usize()), self.tys(t)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s("ci"), J::N(offset as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), J::N(from as i128), J::N(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), n(v.as_usize())]),
                ProjectionElem::OpaqueCast(_) => continue,
                ProjectionElem::UnwrapUnsafeBinder(_) => continue,
                ProjectionElem::PhantomDeref => continue,
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(v)])
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>, owner: DefId) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(c, env, owner)]),
            _ => J::A(vec![s("k"), J::O(vec![("val", J::B(false)), ("rtcheck", J::B(true))])]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, owner: DefId) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o, env, owner)]),
            Rvalue::Repeat(o, c) => J::A(vec![s("repeat"), self.operand(o, env, owner), s(format!("{}", c))]),
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), J::B(matches!(bk, mir::BorrowKind::Mut { .. })), self.place(p)]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(p)]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), J::B(m.is_mut()), self.place(p)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.key(*d))]),
            Rvalue::Cast(k, o, t) => J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(o, env, owner), self.tys(*t)]),
            Rvalue::BinaryOp(b, x) => J::A(vec![s("bin"), s(format!("{:?}", b)), self.operand(&x.0, env, owner), self.operand(&x.1, env, owner)]),
            Rvalue::UnaryOp(u, x) => J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(x, env, owner)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::CopyForDeref(p) => { let p = self.place(p); J::A(vec![s("use"), J::A(vec![s("c"), p])]) }
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(o, env, owner)]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o, env, owner)).collect();
                let h = match **k {
                    mir::AggregateKind::Array(t) => J::A(vec![s("array"), self.tys(t)]),
                    mir::AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    mir::AggregateKind::Adt(d, v, a, _, f) => {
                        self.adt(self.tcx.adt_def(d));
                        J::A(vec![s("adt"), s(self.pretty(d)), n(v.as_usize()), self.args(a), f.map(|x| n(x.as_usize())).unwrap_or(J::Null)])
                    }
                    mir::AggregateKind::Closure(d, a) => {
                        let ca = a.as_closure();
                        let parent = self.args(self.tcx.mk_args(ca.parent_args()));
                        J::A(vec![s("closure"), s(self.key(d)), parent])
                    }
                    mir::AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), h, J::A(ops)])
            }
        }
    }
    fn body(&mut self, key: String, name: String, owner: DefId, b: &mir::Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut locals = Vec::new();
        for l in b.local_decls.iter() { locals.push(self.tys(l.ty)); }
        let mut names: BTreeMap<String, J> = BTreeMap::new();
        for v in b.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.insert(p.local.as_usize().to_string(), s(v.name.as_str())); }
            }
        }
        let mut blocks = Vec::new();
        for bb in b.basic_blocks.iter() {
            let mut st = Vec::new();
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, env, owner);
                        st.push(J::A(vec![s("="), p, r, self.span(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("setd"), p, n(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => { st.push(J::A(vec![s("dead"), n(l.as_usize())])); }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let bbn = |x: mir::BasicBlock| n(x.as_usize());
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bbn(*target)]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bbn(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bbn(*real_target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, env, owner);
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dt = self.tys(dt);
                    let v: Vec<J> = targets.iter().map(|(v, t)| J::A(vec![J::N(v as i128), bbn(t)])).collect();
                    J::A(vec![s("switch"), d, J::A(v), bbn(targets.otherwise()), dt])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); J::A(vec![s("drop"), p, bbn(*target)]) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, env, owner);
                    let a: Vec<J> = args.iter().map(|a| self.operand(&a.node, env, owner)).collect();
                    let d = self.place(destination);
                    J::A(vec![s("call"), f, J::A(a), d, target.map(bbn).unwrap_or(J::Null), sp.clone()])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, env, owner);
                    let m = format!("{:?}", msg);
                    let k = m.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string();
                    let full = match &**msg { mir::AssertKind::Overflow(op, ..) => format!("Overflow{:?}", op), _ => k };
                    J::A(vec![s("assert"), c, J::B(*expected), s(full), bbn(*target), sp.clone()])
                }
                other => J::A(vec![s("other"), s(format!("{:?}", other).chars().take(60).collect::<String>())]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("cleanup", J::B(bb.is_cleanup)), ("sp", sp)]));
        }
        let root = tcx.typeck_root_def_id(owner);
        J::O(vec![
            ("key", s(key)), ("name", s(name)), ("argc", n(b.arg_count)), ("locals", J::A(locals)), ("names", J::M(names)),
            ("blocks", J::A(blocks)), ("span", self.span(b.span)), ("generics", self.generics(root)),
            ("local", J::B(owner.is_local())), ("root", s(self.key(root))),
        ])
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut d = D { tcx, types: vec![], tymap: HashMap::new(), adts: BTreeMap::new(), adt_seen: HashSet::new(), ext_queue: vec![], ext_seen: HashSet::new() };
    // phase 1: clone bodies before anything steals them
    let mut bodies = Vec::new();
    for def in tcx.hir_body_owners() {
        let did = def.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
            _ => continue,
        }
        let (b, p) = tcx.mir_promoted(def);
        if b.is_stolen() { continue; }
        let body = b.borrow().clone();
        let proms: Vec<mir::Body<'tcx>> = if p.is_stolen() { vec![] } else { p.borrow().iter().cloned().collect() };
        bodies.push((did, body, proms));
    }
    let mut fns: BTreeMap<String, J> = BTreeMap::new();
    for (did, body, proms) in &bodies {
        let env = TypingEnv::post_analysis(tcx, *did);
        let key = d.key(*did);
        let name = d.pretty(*did);
        for (i, p) in proms.iter().enumerate() {
            let k = format!("{}#promoted{}", key, i);
            let j = d.body(k.clone(), name.clone(), *did, p, env);
            fns.insert(k, j);
        }
        let mut j = d.body(key.clone(), name, *did, body, env);
        let root = tcx.typeck_root_def_id(*did);
        if let J::O(ref mut v) = j {
            let mut impl_of = J::Null;
            let mut trait_of = J::Null;
            if let Some(im) = tcx.impl_of_assoc(root) { impl_of = s(d.key(im)); }
            if let Some(tr) = tcx.trait_of_assoc(root) { trait_of = s(d.pretty(tr)); }
            v.push(("impl", impl_of));
            v.push(("trait", trait_of));
            v.push(("closure", J::B(matches!(tcx.def_kind(*did), DefKind::Closure))));
            v.push(("mod", s(d.pretty(tcx.parent_module_from_def_id(did.expect_local()).to_def_id()))));
            let isfn = matches!(tcx.def_kind(*did), DefKind::Fn | DefKind::AssocFn);
            if isfn {
                v.push(("vis", s(d.vis(tcx.visibility(*did)))));
                v.push(("exported", J::B(tcx.effective_visibilities(()).is_exported(did.expect_local()))));
                v.push(("reachable", J::B(tcx.effective_visibilities(()).is_reachable(did.expect_local()))));
                let sig = tcx.fn_sig(*did).instantiate_identity().skip_norm_wip().skip_binder();
                v.push(("unsafe", J::B(!sig.safety().is_safe())));
                v.push(("item", s(tcx.item_name(*did).as_str())));
            }
            let pr = d.preds(root);
            v.push(("preds", pr));
        }
        fns.insert(key, j);
    }
    // phase 2: impls and traits
    let mut impls = Vec::new();
    let mut traits: BTreeMap<String, J> = BTreeMap::new();
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Impl { of_trait } => {
                let mut o = vec![("key", s(d.key(did))), ("span", d.span(tcx.def_span(did)))];
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(d.pretty(tr.def_id))));
                    o.push(("args", d.args(tr.args)));
                }
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                o.push(("self", d.tys(st)));
                o.push(("generics", d.generics(did)));
                o.push(("preds", d.preds(did)));
                o.push(("derived", J::B(tcx.is_builtin_derived(did))));
                let mut items: BTreeMap<String, J> = BTreeMap::new();
                let mut tys: BTreeMap<String, J> = BTreeMap::new();
                for it in tcx.associated_items(did).in_definition_order() {
                    let nm = tcx.item_name(it.def_id).to_string();
                    match tcx.def_kind(it.def_id) {
                        DefKind::AssocFn => { items.insert(nm, s(d.key(it.def_id))); }
                        DefKind::AssocTy => { let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip(); tys.insert(nm, d.tys(t)); }
                        _ => {}
                    }
                }
                o.push(("items", J::M(items)));
                o.push(("types", J::M(tys)));
                impls.push(J::O(o));
            }
            DefKind::Trait => {
                let mut items: BTreeMap<String, J> = BTreeMap::new();
                for it in tcx.associated_items(did).in_definition_order() {
                    let nm = tcx.item_name(it.def_id).to_string();
                    items.insert(nm, J::O(vec![("key", s(d.key(it.def_id))), ("default", J::B(it.defaultness(tcx).has_value()))]));
                }
                let ps = d.preds(did);
                traits.insert(d.pretty(did), J::O(vec![("items", J::M(items)), ("preds", ps), ("generics", d.generics(did)),
                    ("exported", J::B(tcx.effective_visibilities(()).is_exported(id)))]));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => { d.adt(tcx.adt_def(did)); }
            _ => {}
        }
    }
    // statics / consts
    let mut statics = Vec::new();
    let mut unsafes = Vec::new();
    let mut consts: BTreeMap<String, J> = BTreeMap::new();
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tj = d.tys(t);
                statics.push(J::O(vec![("name", s(d.pretty(did))), ("mut", J::B(mutability.is_mut())), ("ty", tj), ("span", d.span(tcx.def_span(did)))]));
            }
            DefKind::Const { .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                if let Ok(v) = tcx.const_eval_poly(did) {
                    let env = TypingEnv::post_analysis(tcx, did);
                    if let Some(j) = d.const_val(v, t, env) { consts.insert(d.key(did), j); }
                }
            }
            _ => {}
        }
    }
    // unsafe code: unsafe blocks and unsafe impls
    {
        use rustc_hir as hir;
        use rustc_hir::intravisit::{self, Visitor};
        struct V<'a, 'tcx> { d: &'a D<'tcx>, out: &'a mut Vec<J> }
        impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.d.tcx }
            fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
                if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
                    self.out.push(self.d.span(b.span));
                }
                intravisit::walk_block(self, b);
            }
        }
        let mut v = V { d: &d, out: &mut unsafes };
        tcx.hir_visit_all_item_likes_in_crate(&mut v);
    }
    // std bodies
    let mut i = 0;
    while i < d.ext_queue.len() {
        let did = d.ext_queue[i];
        i += 1;
        let b = tcx.optimized_mir(did);
        let env = TypingEnv::post_analysis(tcx, did);
        let key = d.key(did);
        let name = d.pretty(did);
        let j = d.body(key.clone(), name, did, b, env);
        fns.insert(key, j);
    }
    let top = J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).as_str())),
        ("fns", J::M(fns)), ("adts", J::M(d.adts.clone())), ("impls", J::A(impls)), ("traits", J::M(traits)),
        ("statics", J::A(statics)), ("consts", J::M(consts)), ("unsafe_blocks", J::A(unsafes)), ("types", J::A(d.types.clone())),
    ]);
    let mut o = String::new();
    top.write(&mut o);
    o
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let j = dump(tcx);
        std::fs::write(&self.out, j).expect("write dump");
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let want = std::env::var("FUSER_DUMP_CRATE").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    if is {
        let out = std::env::var("FUSER_DUMP_OUT").expect("FUSER_DUMP_OUT");
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
