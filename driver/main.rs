// MIR fact extractor: a rustc driver that dumps the monomorphised MIR of the
// crate under analysis (plus the MIR of "transparent" library adaptors) as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_ast_pretty;
extern crate rustc_attr_ir;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv, GenericArgsRef};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_crate_prefix};
use std::collections::{HashMap, VecDeque, BTreeMap};
use std::fmt::Write;

#[derive(Clone)]
enum J { N, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
impl J {
    fn out(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{}", i); }
            J::S(s) => { esc(s, o) }
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.out(o) } o.push(']') }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } esc(k, o); o.push(':'); x.out(o) } o.push('}') }
        }
    }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: impl TryInto<i128>) -> J { J::I(x.try_into().ok().unwrap()) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_list: Vec<Ty<'tcx>>,
    type_json: Vec<J>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_list: Vec<Instance<'tcx>>,
    queue: VecDeque<Instance<'tcx>>,
    statics: BTreeMap<String, DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { with_no_visible_paths!(with_no_trimmed_paths!(with_crate_prefix!(self.tcx.def_path_str(d)))) }
    fn krate(&self, d: DefId) -> String { self.tcx.crate_name(d.krate).to_string() }
    fn tystr(&self, t: Ty<'tcx>) -> String { with_no_visible_paths!(with_no_trimmed_paths!(with_crate_prefix!(format!("{}", t)))) }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let t = self.tcx.try_normalize_erasing_regions(self.env, rustc_middle::ty::Unnormalized::new_wip(t)).unwrap_or(t);
        if let Some(&i) = self.types.get(&t) { return i; }
        let i = self.type_list.len();
        if i > 20000 { panic!("type explosion {}", self.tystr(t)); }
        if std::env::var("FACTS_DEBUG").is_ok() { eprintln!("TY {} {}", i, self.tystr(t)); }
        self.types.insert(t, i); self.type_list.push(t); self.type_json.push(J::N);
        let j = self.ty_json(t);
        self.type_json[i] = j;
        i
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let v: Vec<_> = a.iter().filter_map(|x| x.as_type()).collect();
        J::A(v.into_iter().map(|t| { let i = self.ty(t); n(i) }).collect())
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let name = s(self.tystr(t));
        let mut o: Vec<(&'static str, J)> = vec![("s", name)];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) | ty::Uint(_) => {
                o.push(("k", s("int")));
                let signed = matches!(t.kind(), ty::Int(_));
                let bits = t.primitive_size(tcx).bits();
                o.push(("signed", J::B(signed))); o.push(("bits", n(bits)));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Ref(_, x, m) => { o.push(("k", s("ref"))); let i = self.ty(x); o.push(("ty", n(i))); o.push(("mut", J::B(m.is_mut()))); }
            ty::RawPtr(x, m) => { o.push(("k", s("ptr"))); let i = self.ty(x); o.push(("ty", n(i))); o.push(("mut", J::B(m.is_mut()))); }
            ty::Slice(x) => { o.push(("k", s("slice"))); let i = self.ty(x); o.push(("ty", n(i))); }
            ty::Array(x, len) => { o.push(("k", s("array"))); let i = self.ty(x); o.push(("ty", n(i)));
                o.push(("len", len.try_to_target_usize(tcx).map(|v| n(v)).unwrap_or(J::N))); }
            ty::Tuple(ts) => { o.push(("k", s("tuple"))); let v: Vec<_> = ts.iter().map(|x| { let i = self.ty(x); n(i) }).collect(); o.push(("tys", J::A(v))); }
            ty::Adt(def, args) => {
                o.push(("k", s("adt"))); o.push(("path", s(self.path(def.did())))); o.push(("krate", s(self.krate(def.did()))));
                let a = self.args(args); o.push(("args", a));
                o.push(("akind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                o.push(("local", J::B(def.did().is_local())));
                let expand = def.did().is_local() || (def.is_enum() && { let p = self.path(def.did()); ["core::option::Option", "core::result::Result", "core::ops::control_flow", "alloc::borrow::Cow", "either::Either", "nom::internal::Err", "quick_xml::events::Event", "core::cmp::Ordering", "core::ops::range::Bound"].iter().any(|x| p.starts_with(x)) });
                let mut vs = vec![];
                if !def.is_union() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val } else { 0 };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ti = if expand { let ft = f.ty(tcx, args).skip_norm_wip(); let ti = self.ty(ft); n(ti) } else { J::N };
                            fs.push(J::A(vec![s(f.name.to_string()), ti, J::B(f.vis.is_public())]));
                        }
                        vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", J::I(discr as i128)), ("fields", J::A(fs))]));
                    }
                }
                o.push(("variants", J::A(vs)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let args = args.no_bound_vars().unwrap_or(self.tcx.mk_args(&[]));
                let f = self.callee(d, args);
                o.push(("fn", f));
            }
            ty::Closure(_, args) if { use rustc_middle::ty::TypeVisitableExt; args.has_escaping_bound_vars() } => o.push(("k", s("dyn"))),
            ty::Closure(d, args) => {
                o.push(("k", s("closure"))); o.push(("path", s(self.path(d))));
                let ca = args.as_closure();
                let kind = format!("{:?}", ca.kind());
                o.push(("ckind", s(kind)));
                let ups: Vec<_> = ca.upvar_tys().iter().map(|x| { let i = self.ty(x); n(i) }).collect();
                o.push(("upvars", J::A(ups)));
                let i = self.inst(Instance::new_raw(d, args));
                o.push(("inst", n(i)));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        J::O(o)
    }
    fn transparent(&self, d: DefId) -> bool {
        if d.is_local() { return true; }
        let p = self.path(d);
        let k = self.krate(d);
        match k.as_str() {
            "either" => true,
            "core" | "alloc" | "std" => {
                let deny = ["core::mem::", "core::fmt", "core::str", "core::slice", "core::iter", "core::panicking", "core::intrinsics", "alloc::string", "alloc::vec","alloc::fmt","std::io"];
                if deny.iter().any(|x| p.starts_with(x)) { return false; }
                ["core::option", "core::result", "core::ops::function", "core::ops::try_trait", "core::ops::control_flow", "core::convert", "core::borrow", "alloc::borrow", "core::bool", "core::ops::deref","core::default"]
                    .iter().any(|x| p.contains(x))
            }
            _ => false,
        }
    }
    fn inst_dumpable(&self, i: Instance<'tcx>) -> bool {
        match i.def {
            InstanceKind::Item(d) => self.transparent(d) && self.tcx.is_mir_available(d)
                && matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)),
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ShimKind::FnPtr(..)) => true,
            InstanceKind::Shim(ShimKind::Clone(..)) => true,
            _ => false,
        }
    }
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        let i = self.tcx.erase_and_anonymize_regions(i);
        if let Some(&x) = self.insts.get(&i) { return x; }
        let x = self.inst_list.len();
        self.insts.insert(i, x); self.inst_list.push(i); self.queue.push_back(i);
        x
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("decl", s(self.path(d)))];
        let a = self.args(args); o.push(("args", a));
        if let Some(tr) = tcx.trait_of_assoc(d) { o.push(("trait", s(self.path(tr)))); }
        else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            let i = self.ty(st); o.push(("self_ty", n(i)));
        }
        o.push(("name", s(tcx.item_name(d).to_string())));
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let parent = tcx.parent(d);
            let isv = matches!(tcx.def_kind(parent), DefKind::Variant);
            let adt = if isv { tcx.parent(parent) } else { parent };
            let vi = if isv { tcx.adt_def(adt).variant_index_with_id(parent).as_usize() } else { 0 };
            o.push(("ctor", n(vi)));
            let out = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip()).output();
            let oi = self.ty(out); o.push(("ctor_ty", n(oi)));
            return J::O(o);
        }
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(inst)) => {
                o.push(("path", s(self.path(inst.def_id()))));
                o.push(("krate", s(self.krate(inst.def_id()))));
                if let Some(im) = tcx.impl_of_assoc(inst.def_id()) {
                    if tcx.trait_of_assoc(d).is_some() {
                        let st = tcx.type_of(im).instantiate(tcx, inst.args).skip_norm_wip();
                        let i = self.ty(st); o.push(("impl_ty", n(i)));
                    }
                }
                let kind = match inst.def { InstanceKind::Item(_) => "item", InstanceKind::Intrinsic(_) => "intrinsic", InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ShimKind::ClosureOnce{..}) => "closure_once", InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr_shim",
                    InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim", InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop", _ => "other" };
                o.push(("kind", s(kind)));
                let ia = self.args(inst.args); o.push(("iargs", ia));
                if self.inst_dumpable(inst) { let i = self.inst(inst); o.push(("inst", n(i))); }
            }
            _ => { o.push(("kind", s("unresolved"))); o.push(("path", s(self.path(d)))); o.push(("krate", s(self.krate(d)))); }
        }
        J::O(o)
    }
    fn place(&mut self, p: Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("D"),
                ProjectionElem::Field(f, t) => { let i = self.ty(t); J::A(vec![s("F"), n(f.as_usize()), n(i)]) }
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("V"), n(vi.as_usize())]),
                ProjectionElem::Index(l) => J::A(vec![s("I"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("C"), n(offset), n(min_length), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("S"), n(from), n(to), J::B(from_end)]),
                _ => s("O"),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(v)])
    }
    fn scalar(&mut self, sc: Scalar, t: Ty<'tcx>, depth: usize) -> J {
        match sc {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                let v: i128 = match t.kind() { ty::Int(_) => { let sz = i.size(); sz.sign_extend(bits) } _ => bits as i128 };
                match t.kind() {
                    ty::Bool => J::O(vec![("c", s("bool")), ("v", J::B(v != 0))]),
                    ty::Char => J::O(vec![("c", s("char")), ("v", J::I(v))]),
                    ty::Int(_) | ty::Uint(_) => J::O(vec![("c", s("int")), ("v", J::I(v))]),
                    ty::Adt(..) => J::O(vec![("c", s("bits")), ("v", J::I(v))]),
                    _ => J::O(vec![("c", s("bits")), ("v", J::I(v))]),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                self.global(prov.alloc_id(), off.bytes(), t, depth)
            }
        }
    }
    fn global(&mut self, id: rustc_middle::mir::interpret::AllocId, off: u64, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        match tcx.global_alloc(id) {
            GlobalAlloc::Static(d) => { let p = self.path(d); self.statics.insert(p.clone(), d); J::O(vec![("c", s("static")), ("v", s(p))]) }
            GlobalAlloc::Function { instance, .. } => { let f = self.callee(instance.def_id(), instance.args); J::O(vec![("c", s("fn")), ("v", f)]) }
            GlobalAlloc::Memory(_) => {
                let inner = match t.kind() { ty::Ref(_, x, _) | ty::RawPtr(x, _) => *x, _ => return J::O(vec![("c", s("ptr?"))]) };
                if depth == 0 { return J::O(vec![("c", s("deep"))]); }
                let v = self.mem(id, off, inner, depth - 1);
                J::O(vec![("c", s("ref")), ("v", v)])
            }
            _ => J::O(vec![("c", s("ptr?"))]),
        }
    }
    fn mem(&mut self, id: rustc_middle::mir::interpret::AllocId, off: u64, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let alloc = match tcx.global_alloc(id) { GlobalAlloc::Memory(a) => a, _ => return J::O(vec![("c", s("?"))]) };
        let alloc = alloc.inner();
        let unk = J::O(vec![("c", s("?"))]);
        let layout = match tcx.layout_of(self.env.as_query_input(t)) { Ok(l) => l, Err(_) => return unk };
        let cx = rustc_middle::ty::layout::LayoutCx::new(tcx, self.env);
        let read = |o: u64, size: u64| -> Option<Scalar> {
            let r = AllocRange { start: rustc_abi::Size::from_bytes(o), size: rustc_abi::Size::from_bytes(size) };
            alloc.read_scalar(&tcx, r, false).ok().or_else(|| alloc.read_scalar(&tcx, r, true).ok())
        };
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                match read(off, layout.size.bytes()) { Some(sc) => self.scalar(sc, t, depth), None => unk }
            }
            ty::Ref(_, inner, _) => {
                let psz = 8;
                let sc = match read_ptr(tcx, alloc, off) { Some(x) => x, None => return unk };
                let meta = match inner.kind() { ty::Str | ty::Slice(_) => { match read(off + psz, 8) { Some(Scalar::Int(i)) => Some(i.to_bits(i.size()) as u64), _ => return unk } } _ => None };
                match sc {
                    Scalar::Ptr(p, _) => {
                        let (prov, o2) = p.prov_and_relative_offset();
                        if let Some(len) = meta { return self.slice(prov.alloc_id(), o2.bytes(), len, inner, depth); }
                        self.global(prov.alloc_id(), o2.bytes(), t, depth)
                    }
                    _ => { if meta == Some(0) { return self.slice_empty(inner) } unk }
                }
            }
            ty::Array(inner, len) => {
                let Some(len) = len.try_to_target_usize(tcx) else { return unk };
                self.elems(id, off, len, inner, depth)
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() { let o = layout.fields.offset(i).bytes(); v.push(self.mem(id, off + o, ft, depth)); }
                J::O(vec![("c", s("tuple")), ("v", J::A(v))])
            }
            ty::Adt(def, args) if def.is_struct() || def.is_enum() => {
                if def.is_enum() && def.variants().is_empty() { return unk; }
                let vi = if def.is_enum() {
                    match &layout.variants {
                        rustc_abi::Variants::Single { index } => *index,
                        rustc_abi::Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                            let to = layout.fields.offset(tag_field.as_usize()).bytes();
                            let tsz = tag.size(&cx).bytes();
                            let raw: Option<u128> = match read(off + to, tsz) { Some(Scalar::Int(i)) => Some(i.to_bits(i.size())), Some(Scalar::Ptr(..)) => None, None => return unk };
                            match tag_encoding {
                                rustc_abi::TagEncoding::Direct => {
                                    let Some(raw) = raw else { return unk };
                                    let mut f = None;
                                    for v in def.variants().indices() { let d = def.discriminant_for_variant(tcx, v).val; let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 }; if d & m == raw { f = Some(v); } }
                                    match f { Some(v) => v, None => return unk }
                                }
                                rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    match raw {
                                        None => *untagged_variant,
                                        Some(raw) => {
                                            let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                            let rel = raw.wrapping_sub(*niche_start) & m;
                                            let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                            if rel <= cnt { rustc_abi::VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32) } else { *untagged_variant }
                                        }
                                    }
                                }
                            }
                        }
                        _ => return unk,
                    }
                } else { rustc_abi::VariantIdx::from_u32(0) };
                let vl = layout.for_variant(&cx, vi);
                let mut v = vec![];
                if !(def.is_struct() && !def.did().is_local() && def.variants()[vi].fields.len() > 6) {
                    for (i, f) in def.variants()[vi].fields.iter().enumerate() {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ft = tcx.try_normalize_erasing_regions(self.env, rustc_middle::ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                        let o = vl.fields.offset(i).bytes();
                        v.push(self.mem(id, off + o, ft, depth));
                    }
                }
                let ti = self.ty(t);
                J::O(vec![("c", s("adt")), ("ty", n(ti)), ("var", n(vi.as_usize())), ("v", J::A(v))])
            }
            ty::FnDef(..) | ty::Closure(..) => { let ti = self.ty(t); J::O(vec![("c", s("zst")), ("ty", n(ti))]) }
            ty::FnPtr(..) => match read_ptr(tcx, alloc, off) { Some(sc) => self.scalar(sc, t, depth), None => unk },
            _ => unk,
        }
    }
    fn slice_empty(&mut self, inner: Ty<'tcx>) -> J {
        match inner.kind() { ty::Str => J::O(vec![("c", s("str")), ("v", s(""))]), ty::Slice(t) if matches!(t.kind(), ty::Uint(ty::UintTy::U8)) => J::O(vec![("c", s("ref")), ("v", J::O(vec![("c", s("bytes")), ("v", J::A(vec![]))]))]),
            _ => J::O(vec![("c", s("ref")), ("v", J::O(vec![("c", s("array")), ("v", J::A(vec![]))]))]) }
    }
    fn slice(&mut self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64, inner: Ty<'tcx>, depth: usize) -> J {
        match *inner.kind() {
            ty::Str => {
                let alloc = match self.tcx.global_alloc(id) { GlobalAlloc::Memory(a) => a, _ => return J::O(vec![("c", s("?"))]) };
                let b = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                match std::str::from_utf8(b) { Ok(x) => J::O(vec![("c", s("str")), ("v", s(x))]), _ => J::O(vec![("c", s("?"))]) }
            }
            ty::Slice(t) => { if depth == 0 { return J::O(vec![("c", s("deep"))]); } let v = self.elems(id, off, len, t, depth - 1); J::O(vec![("c", s("ref")), ("v", v)]) }
            _ => J::O(vec![("c", s("?"))]),
        }
    }
    fn elems(&mut self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64, t: Ty<'tcx>, depth: usize) -> J {
        if matches!(t.kind(), ty::Uint(ty::UintTy::U8)) {
            let alloc = match self.tcx.global_alloc(id) { GlobalAlloc::Memory(a) => a, _ => return J::O(vec![("c", s("?"))]) };
            if len > 4096 { return J::O(vec![("c", s("bigbytes")), ("len", n(len))]); }
            let b = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
            return J::O(vec![("c", s("bytes")), ("v", J::A(b.iter().map(|x| n(*x)).collect()))]);
        }
        let sz = match self.tcx.layout_of(self.env.as_query_input(t)) { Ok(l) => l.size.bytes(), _ => return J::O(vec![("c", s("?"))]) };
        let mut v = vec![];
        if len <= 4096 { for i in 0..len { v.push(self.mem(id, off + i * sz, t, depth)); } }
        J::O(vec![("c", s("array")), ("v", J::A(v))])
    }
    fn constant(&mut self, c: &mir::ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let v = match c.const_.eval(self.tcx, self.env, c.span) { Ok(v) => v, Err(_) => return J::O(vec![("ty", n(ti)), ("c", s("?"))]) };
        let j = match v {
            ConstValue::ZeroSized => match t.kind() {
                ty::Adt(def, _) if def.is_struct() => J::O(vec![("c", s("adt")), ("ty", n(ti)), ("var", n(0)), ("v", J::A(vec![]))]),
                ty::Tuple(_) => J::O(vec![("c", s("tuple")), ("v", J::A(vec![]))]),
                ty::Array(..) => J::O(vec![("c", s("array")), ("v", J::A(vec![]))]),
                _ => J::O(vec![("c", s("zst")), ("ty", n(ti))]),
            },
            ConstValue::Slice { alloc_id, meta } => { let inner = match t.kind() { ty::Ref(_, x, _) => *x, _ => t }; self.slice(alloc_id, 0, meta, inner, 4) }
            ConstValue::Indirect { alloc_id, offset } => self.mem(alloc_id, offset.bytes(), t, 5),
            ConstValue::Scalar(sc) => match t.kind() {
                ty::Adt(def, args) => self.adt_scalar(sc, *def, args, t),
                _ => self.scalar(sc, t, 5),
            },
        };
        match j { J::O(mut o) => { o.push(("cty", n(ti))); J::O(o) } x => x }
    }
    fn adt_scalar(&mut self, sc: Scalar, def: ty::AdtDef<'tcx>, args: GenericArgsRef<'tcx>, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let ti = self.ty(t);
        if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(ConstValue::Scalar(sc), t) {
            let vi = d.variant.map(|v| v.as_usize()).unwrap_or(0);
            let mut v = vec![];
            for (cv, ft) in d.fields.iter() {
                v.push(match cv { ConstValue::Scalar(sc) => match ft.kind() { ty::Adt(d2, a2) => self.adt_scalar(*sc, *d2, a2, *ft), _ => self.scalar(*sc, *ft, 4) },
                    ConstValue::ZeroSized => { let x = self.ty(*ft); J::O(vec![("c", s("zst")), ("ty", n(x))]) }
                    ConstValue::Indirect { alloc_id, offset } => self.mem(*alloc_id, offset.bytes(), *ft, 4),
                    ConstValue::Slice { alloc_id, meta } => { let inner = match ft.kind() { ty::Ref(_, x, _) => *x, _ => *ft }; self.slice(*alloc_id, 0, *meta, inner, 4) } });
            }
            let _ = (def, args);
            return J::O(vec![("c", s("adt")), ("ty", n(ti)), ("var", n(vi)), ("v", J::A(v))]);
        }
        self.scalar(sc, t, 4)
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(*p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(*p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(c)]),
            _ => J::A(vec![s("rt")]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o)]),
            Rvalue::Repeat(o, c) => J::A(vec![s("repeat"), self.operand(o), c.try_to_target_usize(self.tcx).map(|v| n(v)).unwrap_or(J::N)]),
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), J::B(matches!(k, mir::BorrowKind::Mut { .. })), self.place(*p)]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), J::B(true), self.place(*p)]),
            Rvalue::Cast(k, o, t) => { let ti = self.ty(*t); let ks = format!("{:?}", k); J::A(vec![s("cast"), s(ks), self.operand(o), n(ti)]) }
            Rvalue::BinaryOp(op, b) => J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(&b.0), self.operand(&b.1)]),
            Rvalue::UnaryOp(op, o) => J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(o)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(*p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<_> = ops.iter().map(|o| self.operand(o)).collect();
                let kj = match &**k {
                    mir::AggregateKind::Array(_) => J::A(vec![s("array")]),
                    mir::AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    mir::AggregateKind::Adt(d, vi, args, _, active) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip(); let ti = self.ty(t);
                        J::A(vec![s("adt"), n(ti), n(vi.as_usize()), active.map(|a| n(a.as_usize())).unwrap_or(J::N)])
                    }
                    mir::AggregateKind::Closure(d, args) => { let t = Ty::new_closure(self.tcx, *d, args); let ti = self.ty(t); J::A(vec![s("closure"), n(ti)]) }
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(ops)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(*p)])]),
            Rvalue::ThreadLocalRef(_) => J::A(vec![s("tls")]),
            _ => J::A(vec![s("other")]),
        }
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        J::A(vec![s(f), n(lo.line), n(lo.col.0)])
    }
    fn body(&mut self, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let raw = tcx.instance_mir(inst.def);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, raw.clone()));
        self.mirbody(&body)
    }
    fn mirbody(&mut self, body: &mir::Body<'tcx>) -> J {
        let locals: Vec<_> = body.local_decls.iter().map(|l| { let i = self.ty(l.ty); n(i) }).collect();
        let mut names = vec![];
        for v in &body.var_debug_info { if let mir::VarDebugInfoContents::Place(p) = v.value { let pj = self.place(p); names.push(J::A(vec![s(v.name.to_string()), pj])); } }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => { let p = self.place(b.0); let r = self.rvalue(&b.1); let sp = self.span(x.source_info.span); st.push(J::A(vec![s("="), p, r, sp])); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(**place); st.push(J::A(vec![s("sd"), p, n(variant_index.as_usize())])); }
                    StatementKind::Intrinsic(i) => { if let mir::NonDivergingIntrinsic::Assume(o) = &**i { let oj = self.operand(o); st.push(J::A(vec![s("assume"), oj])); } }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dt = discr.ty(&body.local_decls, self.tcx); let dti = self.ty(dt);
                    let vs: Vec<_> = targets.iter().map(|(v, b)| J::A(vec![J::I(sext(v, dt, self.tcx)), n(b.as_usize())])).collect();
                    J::A(vec![s("switch"), d, J::A(vs), n(targets.otherwise().as_usize()), n(dti)])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("unwind")]),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(*place); J::A(vec![s("drop"), p, n(target.as_usize())]) }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() { ty::FnDef(d, a) => { let a = a.no_bound_vars().unwrap(); let f = self.callee(*d, a); J::A(vec![s("fn"), f]) } _ => J::A(vec![s("op"), self.operand(func)]) },
                        _ => J::A(vec![s("op"), self.operand(func)]),
                    };
                    let a: Vec<_> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let d = self.place(*destination);
                    let dt = destination.ty(&body.local_decls, self.tcx).ty; let dti = self.ty(dt);
                    let fs = self.span(*fn_span);
                    J::A(vec![s("call"), f, J::A(a), d, target.map(|t| n(t.as_usize())).unwrap_or(J::N), n(dti), fs])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let k = match &**msg { mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(), mir::AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op), mir::AssertKind::OverflowNeg(_) => "overflow:Neg".into(), mir::AssertKind::DivisionByZero(_) => "div0".into(), mir::AssertKind::RemainderByZero(_) => "rem0".into(), m => format!("{:?}", m) };
                    J::A(vec![s("assert"), c, J::B(*expected), s(k), n(target.as_usize())])
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                o => J::A(vec![s("other"), s(format!("{:?}", std::mem::discriminant(o)))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("sp", sp), ("cleanup", J::B(bb.is_cleanup))]));
        }
        J::O(vec![("argc", n(body.arg_count)), ("locals", J::A(locals)), ("names", J::A(names)), ("blocks", J::A(blocks)), ("spread", body.spread_arg.map(|l| n(l.as_usize())).unwrap_or(J::N))])
    }
}
fn sext<'tcx>(v: u128, t: Ty<'tcx>, tcx: TyCtxt<'tcx>) -> i128 { match t.kind() { ty::Int(_) => t.primitive_size(tcx).sign_extend(v), _ => v as i128 } }
fn read_ptr<'tcx>(tcx: TyCtxt<'tcx>, alloc: &rustc_middle::mir::interpret::Allocation, off: u64) -> Option<Scalar> {
    let r = AllocRange { start: rustc_abi::Size::from_bytes(off), size: rustc_abi::Size::from_bytes(8) };
    alloc.read_scalar(&tcx, r, true).ok()
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if let Ok(out) = std::env::var("FACTS_OUT") {
            let j = dump(tcx);
            let mut o = String::new();
            j.out(&mut o);
            std::fs::write(&out, o).expect("write facts");
        }
        rustc_driver::Compilation::Continue
    }
}

fn concretise<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> Option<GenericArgsRef<'tcx>> {
    let generics = tcx.generics_of(d);
    let re = tcx.lifetimes.re_erased;
    let str_ref = Ty::new_imm_ref(tcx, re, tcx.types.str_);
    let mut cands: Vec<Ty<'tcx>> = vec![str_ref, tcx.types.str_, tcx.types.u16, tcx.types.char];
    let find = |name: &str, krate: &str| -> Option<DefId> {
        for c in tcx.crates(()).iter().copied() {
            if tcx.crate_name(c).as_str() == krate {
                // search the module tree breadth first
                let mut q = VecDeque::new(); q.push_back((c.as_def_id(), 0));
                let segs: Vec<&str> = name.split("::").collect();
                while let Some((m, i)) = q.pop_front() {
                    for ch in tcx.module_children(m) {
                        if ch.ident.name.as_str() == segs[i] { if let Some(r) = ch.res.opt_def_id() { if i + 1 == segs.len() { return Some(r); } q.push_back((r, i + 1)); } }
                    }
                }
            }
        }
        None
    };
    if let Some(h) = find("FnvHasher", "fnv") { cands.push(Ty::new_adt(tcx, tcx.adt_def(h), tcx.mk_args(&[]))); }
    if let (Some(b), Some(f)) = (find("io::BufReader", "std"), find("fs::File", "std")) {
        let ft = Ty::new_adt(tcx, tcx.adt_def(f), tcx.mk_args(&[]));
        cands.push(Ty::new_adt(tcx, tcx.adt_def(b), tcx.mk_args(&[ft.into()])));
    }
    let tps: Vec<u32> = (0..generics.count() as u32).filter(|&i| matches!(generics.param_at(i as usize, tcx).kind, ty::GenericParamDefKind::Type { .. })).collect();
    if (0..generics.count()).any(|i| matches!(generics.param_at(i, tcx).kind, ty::GenericParamDefKind::Const { .. })) { return None; }
    let total = cands.len().pow(tps.len() as u32);
    if total > 5000 { return None; }
    for k in 0..total {
        let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => re.into(),
            ty::GenericParamDefKind::Type { .. } => { let pos = tps.iter().position(|&x| x == p.index).unwrap(); cands[(k / cands.len().pow(pos as u32)) % cands.len()].into() }
            _ => unreachable!(),
        });
        if !tcx.instantiate_and_check_impossible_clauses((d, args)) { return Some(args); }
    }
    None
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let env = TypingEnv::fully_monomorphized();
    let mut cx = Cx { tcx, env, types: HashMap::new(), type_list: vec![], type_json: vec![], insts: HashMap::new(), inst_list: vec![], queue: VecDeque::new(), statics: BTreeMap::new() };
    let mut fns = vec![];
    let mut skipped = vec![];
    let defs: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
    for ld in &defs {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                if !tcx.is_mir_available(d) { continue; }
                let path = cx.path(d);
                let file = cx.span(tcx.def_span(d));
                let effective_pub = tcx.effective_visibilities(()).is_reachable(*ld);
                let mut o = vec![("path", s(path.clone())), ("span", file), ("reachable", J::B(effective_pub)), ("name", s(tcx.item_name(d).to_string()))];
                if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    o.push(("self_str", s(cx.tystr(st))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) { let tr = tr.instantiate_identity().skip_norm_wip(); o.push(("trait", s(cx.path(tr.def_id)))); }
                    o.push(("derived", J::B(tcx.is_automatically_derived(im))));
                }
                o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
                match concretise(tcx, d) {
                    Some(args) => {
                        let st = if let Some(im) = tcx.impl_of_assoc(d) { let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip(); Some(st) } else { None };
                        if let Some(st) = st { let i = cx.ty(st); o.push(("self_ty", n(i))); }
                        let inst = match Instance::try_resolve(tcx, env, d, args) { Ok(Some(i)) => i, _ => { skipped.push(s(path)); continue } };
                        let i = cx.inst(inst); o.push(("inst", n(i)));
                        let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip());
                        let ins: Vec<_> = sig.inputs().iter().map(|t| { let i = cx.ty(*t); n(i) }).collect();
                        let oi = cx.ty(sig.output()); o.push(("inputs", J::A(ins))); o.push(("output", n(oi)));
                    }
                    None => { skipped.push(s(path.clone())); }
                }
                fns.push(J::O(o));
            }
            DefKind::Static { .. } => { let p = cx.path(d); cx.statics.insert(p, d); }
            DefKind::Struct | DefKind::Enum => {
                if tcx.generics_of(d).own_params.iter().all(|p| matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip(); cx.ty(t);
                }
            }
            _ => {}
        }
    }
    let mut bodies: Vec<Option<J>> = vec![];
    loop {
        // statics first so that closures they mention are dumped too
        while let Some(inst) = cx.queue.pop_front() {
            let i = cx.insts[&inst];
            while bodies.len() <= i { bodies.push(None); }
            let d = inst.def_id();
            let mut o = vec![("path", s(cx.path(d))), ("krate", s(cx.krate(d))), ("local", J::B(d.is_local()))];
            let kind = match inst.def { InstanceKind::Item(_) => "item", InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once", InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim", InstanceKind::Shim(_) => "shim", _ => "other" };
            o.push(("kind", s(kind)));
            let a = cx.args(inst.args); o.push(("args", a));
            o.push(("span", cx.span(tcx.def_span(d))));
            if d.is_local() { if let Some(im) = tcx.impl_of_assoc(d) { o.push(("derived", J::B(tcx.is_automatically_derived(im)))); } }
            if !matches!(inst.def, InstanceKind::Item(x) if !cx.transparent(x)) {
                let b = cx.body(inst); o.push(("mir", b));
            }
            bodies[i] = Some(J::O(o));
        }
        break;
    }
    // trait impl table for every type seen
    let mut vt = vec![];
    let traits: Vec<(&str, DefId)> = {
        let mut v = vec![];
        for t in tcx.all_traits_including_private() {
            let p = cx.path(t);
            for (w, nm) in [("core::fmt::Display", "Display"), ("core::cmp::PartialEq", "PartialEq"), ("core::clone::Clone", "Clone"), ("core::default::Default", "Default"), ("core::str::traits::FromStr", "FromStr"), ("core::iter::traits::iterator::Iterator", "Iterator"), ("core::hash::Hash", "Hash"), ("core::ops::deref::Deref", "Deref"), ("core::ops::drop::Drop", "Drop")] {
                if p == w { v.push((nm, t)); }
            }
        }
        v
    };
    let mut ti = 0;
    let limit = cx.type_list.len();
    while ti < cx.type_list.len() {
        if ti >= limit && !matches!(cx.type_list[ti].kind(), ty::Adt(d, _) if d.did().is_local()) && ti + 1 < cx.type_list.len() { ti += 1; continue; }
        if cx.type_list.len() > 20000 { panic!("type table explosion"); }
        let t = cx.type_list[ti];
        use rustc_middle::ty::TypeVisitableExt;
        let mut row = vec![n(ti)];
        for (nm, tr) in &traits {
            if t.has_escaping_bound_vars() || matches!(t.kind(), ty::Ref(..) | ty::RawPtr(..)) { continue; }
            if matches!(t.kind(), ty::Str | ty::Slice(_) | ty::Dynamic(..) | ty::Param(_) | ty::Alias(..)) && *nm != "Display" && *nm != "PartialEq" { continue; }
            let g = tcx.generics_of(*tr);
            let args = tcx.mk_args_from_iter((0..g.count()).map(|_| ty::GenericArg::from(t)));
            let obl = rustc_middle::ty::TraitRef::new_from_args(tcx, *tr, args);
            let holds = { use rustc_trait_selection::infer::TyCtxtInferExt; use rustc_trait_selection::traits::query::evaluate_obligation::InferCtxtExt;
                let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(env);
                infcx.predicate_must_hold_modulo_regions(&rustc_trait_selection::traits::Obligation::new(tcx, rustc_trait_selection::traits::ObligationCause::dummy(), pe, obl)) };
            if !holds { continue; }
            if *nm == "Drop" { row.push(J::A(vec![s(*nm), J::O(vec![])])); continue; }
            let m = tcx.associated_items(*tr).in_definition_order().find(|a| a.is_fn()).map(|a| a.def_id);
            if let Some(m) = m { if tcx.generics_of(m).own_params.iter().all(|p| matches!(p.kind, ty::GenericParamDefKind::Lifetime)) { let f = cx.callee(m, args); row.push(J::A(vec![s(*nm), f])); } }
        }
        if row.len() > 1 { vt.push(J::A(row)); }
        ti += 1;
        if ti == cx.type_list.len() {
            while let Some(inst) = cx.queue.pop_front() {
                let i = cx.insts[&inst];
                while bodies.len() <= i { bodies.push(None); }
                let d = inst.def_id();
                let mut o = vec![("path", s(cx.path(d))), ("krate", s(cx.krate(d))), ("local", J::B(d.is_local()))];
                let kind = match inst.def { InstanceKind::Item(_) => "item", InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once", InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim", InstanceKind::Shim(_) => "shim", _ => "other" };
                o.push(("kind", s(kind)));
                let a = cx.args(inst.args); o.push(("args", a));
                o.push(("span", cx.span(tcx.def_span(d))));
                if d.is_local() { if let Some(im) = tcx.impl_of_assoc(d) { o.push(("derived", J::B(tcx.is_automatically_derived(im)))); } }
                let b = cx.body(inst); o.push(("mir", b));
                bodies[i] = Some(J::O(o));
            }
            // static initialisers
            let sts: Vec<_> = cx.statics.clone().into_iter().collect();
            for (p, d) in sts { if STATICS.with(|x| x.borrow().iter().any(|(q, _)| *q == p)) { continue; }
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip(); let tyi = cx.ty(t);
                let mut o = vec![("path", s(p.clone())), ("ty", n(tyi)), ("local", J::B(d.is_local())), ("mut", J::B(tcx.is_mutable_static(d))), ("tls", J::B(tcx.is_thread_local_static(d))), ("span", cx.span(tcx.def_span(d)))];
                if d.is_local() { let b = tcx.mir_for_ctfe(d).clone(); let bj = cx.mirbody(&b); o.push(("mir", bj)); }
                STATICS.with(|x| x.borrow_mut().push((p, J::O(o))));
            }
            while let Some(inst) = cx.queue.pop_front() {
                let i = cx.insts[&inst];
                while bodies.len() <= i { bodies.push(None); }
                let d = inst.def_id();
                let mut o = vec![("path", s(cx.path(d))), ("krate", s(cx.krate(d))), ("local", J::B(d.is_local())), ("kind", s("item"))];
                let a = cx.args(inst.args); o.push(("args", a));
                o.push(("span", cx.span(tcx.def_span(d))));
                let b = cx.body(inst); o.push(("mir", b));
                bodies[i] = Some(J::O(o));
            }
        }
    }
    // attributes and unsafe blocks (source-level facts)
    let mut attrs = vec![];
    let mut adefs: Vec<LocalDefId> = vec![];
    for ld in &defs {
        adefs.push(*ld);
        if matches!(tcx.def_kind(*ld), DefKind::Struct | DefKind::Enum) {
            for v in tcx.adt_def(ld.to_def_id()).variants() {
                if v.def_id.expect_local() != *ld { adefs.push(v.def_id.expect_local()); }
                for f in &v.fields { adefs.push(f.did.expect_local()); }
            }
        }
    }
    adefs.sort_by_key(|d| d.local_def_index.as_u32()); adefs.dedup();
    for ld in &adefs {
        let d = ld.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Field | DefKind::Variant) {
            let hid = tcx.local_def_id_to_hir_id(*ld);
            for a in tcx.hir_attrs(hid) {
                if let rustc_attr_ir::Attribute::DeriveHelper(it) = a { 
                    let p: Vec<String> = it.path.segments.iter().map(|x| x.to_string()).collect();
                    let txt = format!("{:?}", it.args);
                    let toks = match &it.args { rustc_attr_ir::AttrArgs::Delimited(d) => rustc_ast_pretty_tts(d), _ => txt };
                    attrs.push(J::O(vec![("on", s(cx.path(d))), ("attr", s(p.join("::"))), ("args", s(toks))]));
                }
            }
        }
    }
    let mut unsafes = vec![];
    {
        struct V<'a, 'tcx> { tcx: TyCtxt<'tcx>, out: &'a mut Vec<J>, cx: &'a Cx<'tcx> }
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(_)) && !b.span.from_expansion() { let sp = self.cx.span(b.span); self.out.push(sp); }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        let mut v = V { tcx, out: &mut unsafes, cx: &cx };
        tcx.hir_visit_all_item_likes_in_crate(&mut v);
    }
    // Send/Sync/Freeze of local ADTs
    let mut autos = vec![];
    for ld in &defs {
        let d = ld.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let env = TypingEnv::post_analysis(tcx, d);
            let t = tcx.erase_and_anonymize_regions(t);
            use rustc_trait_selection::infer::TyCtxtInferExt; use rustc_trait_selection::infer::InferCtxtExt;
            let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(env);
            let chk = |nm: rustc_span::Symbol| { tcx.get_diagnostic_item(nm).map(|x| infcx.type_implements_trait(x, [t], pe).must_apply_modulo_regions()).unwrap_or(false) };
            let send = chk(rustc_span::Symbol::intern("Send"));
            let sync = tcx.lang_items().sync_trait().map(|x| infcx.type_implements_trait(x, [t], pe).must_apply_modulo_regions()).unwrap_or(false) || chk(rustc_span::Symbol::intern("Sync"));
            let freeze = t.is_freeze(tcx, env);
            autos.push(J::O(vec![("path", s(cx.path(d))), ("send", J::B(send)), ("sync", J::B(sync)), ("freeze", J::B(freeze)), ("reachable", J::B(tcx.effective_visibilities(()).is_reachable(*ld)))]));
        }
    }
    let impls: Vec<J> = defs.iter().filter_map(|ld| { let d = ld.to_def_id(); if !matches!(tcx.def_kind(d), DefKind::Impl { .. }) { return None; }
        let st = tcx.type_of(d).instantiate_identity().skip_norm_wip(); let tr = tcx.impl_opt_trait_ref(d).map(|t| cx.path(t.skip_binder().def_id));
        Some(J::O(vec![("self", s(cx.tystr(st))), ("trait", tr.map(|x| s(x)).unwrap_or(J::N)), ("derived", J::B(tcx.is_automatically_derived(d))), ("unsafe", J::B(tcx.impl_opt_trait_ref(d).is_some() && tcx.impl_trait_header(d).safety.is_unsafe())), ("span", cx.span(tcx.def_span(d)))])) }).collect();
    let statics = STATICS.with(|x| x.borrow().iter().map(|(_, j)| j.clone()).collect());
    let consts: Vec<J> = defs.iter().filter_map(|ld| { let d = ld.to_def_id(); if !matches!(tcx.def_kind(d), DefKind::Const { .. }) { return None; } 
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let v = tcx.const_eval_poly(d).ok()?;
        let j = match v { ConstValue::Scalar(sc) => cx.scalar(sc, t, 4), ConstValue::Slice { alloc_id, meta } => { let inner = match t.kind() { ty::Ref(_, x, _) => *x, _ => t }; match inner.kind() { ty::Slice(_) if meta > 4096 => J::O(vec![("c", s("bigbytes")), ("len", n(meta))]), _ => cx.slice(alloc_id, 0, meta, inner, 3) } } _ => J::O(vec![("c", s("?"))]) };
        Some(J::O(vec![("path", s(cx.path(d))), ("v", j)])) }).collect();
    J::O(vec![
        ("types", J::A(cx.type_json.clone())),
        ("insts", J::A(bodies.into_iter().map(|b| b.unwrap_or(J::N)).collect())),
        ("fns", J::A(fns)), ("skipped", J::A(skipped)), ("statics", J::A(statics)), ("impltab", J::A(vt)),
        ("attrs", J::A(attrs)), ("unsafe_blocks", J::A(unsafes)), ("autos", J::A(autos)), ("impls", J::A(impls)), ("consts", J::A(consts)),
    ])
}
thread_local! { static STATICS: std::cell::RefCell<Vec<(String, J)>> = std::cell::RefCell::new(vec![]); }
fn rustc_ast_pretty_tts(d: &rustc_ast::DelimArgs) -> String { rustc_ast_pretty::pprust::tts_to_string(&d.tokens) }

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let primary = std::env::var("CARGO_PRIMARY_PACKAGE").is_ok();
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let want = std::env::var("FACTS_CRATE").unwrap_or_else(|_| "phonenumber".into());
    if primary && crate_name == want {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Coverflow-checks=on".into());
        args.push("--cap-lints=allow".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct Nop; impl rustc_driver::Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
