//! Dumps the monomorphised MIR reachable from the harness' root functions as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER. For every crate but the one named in MIRDUMP_CRATE it acts as
//! plain rustc.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, TypeVisitableExt, Instance, InstanceKind, ShimKind, Ty, TyCtxt};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(usize, Instance<'tcx>)>,
    fns: BTreeMap<usize, String>,
    allocs: BTreeMap<u64, String>,
    stop: Vec<String>,
    stop_exact: Vec<String>,
    allow: Vec<String>,
    replace: HashMap<String, DefId>,
    decls: rustc_index::IndexVec<Local, LocalDecl<'tcx>>,
    vtables: BTreeMap<String, String>,
}

impl<'tcx> Dump<'tcx> {
    fn env(&self) -> ty::TypingEnv<'tcx> {
        ty::TypingEnv::fully_monomorphized()
    }

    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", name, lo.line)
    }

    // span inside the macro definition, too
    fn span_def(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", name, lo.line)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.type_ids.get(&t) {
            return i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.type_ids.insert(t, id);
        let s = self.ty_str(t);
        self.types[id] = s;
        id
    }

    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<_> = args.types().collect();
        list(v.into_iter().map(|t| self.ty(t).to_string()).collect())
    }

    fn ty_str(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let name = esc(&with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())));
        let (size, align) = match tcx.layout_of(self.env().as_query_input(t)) {
            Ok(l) if l.is_sized() => (l.size.bytes() as i64, l.align.abi.bytes() as i64),
            _ => (-1, -1),
        };
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(_) => format!("\"k\":\"int\",\"bits\":{}", size * 8),
            ty::Uint(_) => format!("\"k\":\"uint\",\"bits\":{}", size * 8),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(u64::MAX);
                format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(e), n)
            }
            ty::Ref(_, e, m) => format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", self.ty(e), m.is_mut()),
            ty::RawPtr(e, m) => format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", self.ty(e), m.is_mut()),
            ty::Tuple(ts) => {
                format!("\"k\":\"tuple\",\"f\":{}", list(ts.iter().map(|t| self.ty(t).to_string()).collect()))
            }
            ty::Adt(def, args) => {
                let p = esc(&self.path(def.did()));
                let a = self.args(args);
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = Vec::new();
                for (vi, v) in def.variants().iter_enumerated() {
                    let d = if def.is_enum() {
                        let d = def.discriminant_for_variant(tcx, vi);
                        if d.ty.is_signed() {
                            let size = tcx.layout_of(self.env().as_query_input(d.ty)).map(|l| l.size).ok();
                            size.map_or(d.val as i128, |s| s.sign_extend(d.val))
                        } else {
                            d.val as i128
                        }
                    } else {
                        0
                    };
                    let mut fs = Vec::new();
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = tcx
                            .try_normalize_erasing_regions(self.env(), ft)
                            .unwrap_or_else(|_| ft.skip_norm_wip());
                        fs.push(format!("[{},{}]", esc(f.name.as_str()), self.ty(ft)));
                    }
                    vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":{}}}", esc(v.name.as_str()), d, list(fs)));
                }
                // what dropping a value inside of a container has to run
                let krate = tcx.crate_name(def.did().krate).to_string();
                let own = krate == "flatdata" || krate == std::env::var("MIRDUMP_CRATE").unwrap_or_default();
                let glue = if own && size >= 0 && tcx.adt_destructor(def.did()).is_some() {
                    let g = Instance::resolve_drop_glue(tcx, t);
                    format!(",\"glue\":{}", self.inst(g))
                } else {
                    String::new()
                };
                format!("\"k\":\"adt\",\"ak\":\"{}\",\"p\":{},\"a\":{},\"v\":{}{}", kind, p, a, list(vs), glue)
            }
            ty::Closure(d, args) => {
                let up: Vec<_> = args.as_closure().upvar_tys().iter().collect();
                let up = list(up.into_iter().map(|t| self.ty(t).to_string()).collect());
                format!("\"k\":\"closure\",\"p\":{},\"f\":{}", esc(&self.path(d)), up)
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                let i = self.callee(d, args);
                format!("\"k\":\"fndef\",\"p\":{},\"i\":{}", esc(&self.path(d)), i)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(ps, _) => {
                let p = ps.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("\"k\":\"dyn\",\"p\":{}", esc(&p))
            }
            ty::Foreign(_) => "\"k\":\"foreign\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        let nd = t.needs_drop(tcx, self.env());
        let lay = self.layout(t);
        format!("{{{},\"name\":{},\"size\":{},\"align\":{},\"nd\":{}{}}}", body, name, size, align, nd, lay)
    }

    // where the fields of a structured type are, and how the variants of an enum are told apart
    fn layout(&mut self, t: Ty<'tcx>) -> String {
        if !matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Closure(..)) {
            return String::new();
        }
        let l = match self.tcx.layout_of(self.env().as_query_input(t)) {
            Ok(l) if l.is_sized() => l,
            _ => return String::new(),
        };
        let offs = |l: &rustc_abi::LayoutData<rustc_abi::FieldIdx, rustc_abi::VariantIdx>| match l.fields {
            rustc_abi::FieldsShape::Arbitrary { ref offsets, .. } => {
                list(offsets.iter().map(|o| o.bytes().to_string()).collect())
            }
            _ => "[]".to_string(),
        };
        match l.variants {
            rustc_abi::Variants::Single { index } => {
                format!(",\"lay\":{{\"single\":{},\"o\":{}}}", index.as_usize(), offs(&l.layout))
            }
            rustc_abi::Variants::Multiple { tag, ref tag_encoding, tag_field, ref variants } => {
                let vs = list(
                    variants
                        .iter()
                        .map(|v| list(v.field_offsets.iter().map(|o| o.bytes().to_string()).collect()))
                        .collect(),
                );
                let at = l.fields.offset(tag_field.as_usize()).bytes();
                let n = tag.size(&self.tcx).bytes();
                let enc = match tag_encoding {
                    rustc_abi::TagEncoding::Direct => String::new(),
                    rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        ",\"niche\":[{},{},{},\"{}\"]",
                        untagged_variant.as_usize(),
                        niche_variants.start.as_usize(),
                        niche_variants.last.as_usize(),
                        niche_start
                    ),
                };
                format!(",\"lay\":{{\"at\":{},\"n\":{},\"vo\":{}{}}}", at, n, vs, enc)
            }
            _ => String::new(),
        }
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&k) = self.insts.get(&i) {
            return k;
        }
        let k = self.insts.len();
        self.insts.insert(i, k);
        self.queue.push_back((k, i));
        k
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        // constructor / ordinary function / trait method
        match Instance::try_resolve(self.tcx, self.env(), d, args) {
            Ok(Some(i)) => self.inst(i).to_string(),
            _ => "null".to_string(),
        }
    }

    fn memory(&mut self, a: &rustc_middle::mir::interpret::Allocation) -> String {
        let n = a.len();
        let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
        let mut hex = String::new();
        for b in bytes {
            let _ = write!(hex, "{:02x}", b);
        }
        let ptrs: Vec<_> = a.provenance().ptrs().iter().map(|(o, p)| (o.bytes(), p.alloc_id())).collect();
        let ps: Vec<String> =
            ptrs.into_iter().map(|(o, p)| format!("[{},{}]", o, self.alloc(p))).collect();
        format!("{{\"k\":\"mem\",\"b\":\"{}\",\"p\":{}}}", hex, list(ps))
    }

    fn alloc(&mut self, id: AllocId) -> String {
        let key = id.0.get();
        if self.allocs.contains_key(&key) {
            return key.to_string();
        }
        self.allocs.insert(key, String::new());
        let s = match self.tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Memory(a)) => self.memory(a.inner()),
            Some(GlobalAlloc::Static(d))
                if !self.tcx.is_mutable_static(d)
                    && !self.tcx.is_foreign_item(d)
                    && !self.tcx.is_thread_local_static(d)
                    && self.tcx.type_of(d).instantiate_identity().skip_norm_wip().is_freeze(self.tcx, self.env()) =>
            {
                match self.tcx.eval_static_initializer(d) {
                    Ok(a) => self.memory(a.inner()),
                    Err(_) => "{\"k\":\"none\"}".to_string(),
                }
            }

            Some(GlobalAlloc::Function { instance }) => {
                format!("{{\"k\":\"fn\",\"i\":{}}}", self.inst(instance))
            }
            Some(GlobalAlloc::VTable(t, _)) => format!("{{\"k\":\"vtable\",\"t\":{}}}", self.ty(t)),
            Some(GlobalAlloc::Static(d)) => {
                let local = self.tcx.is_thread_local_static(d);
                format!(
                    "{{\"k\":\"static\",\"p\":{},\"mut\":{},\"tl\":{}}}",
                    esc(&self.path(d)),
                    self.tcx.is_mutable_static(d),
                    local
                )
            }
            Some(GlobalAlloc::TypeId { ty }) => format!("{{\"k\":\"typeid\",\"t\":{}}}", self.ty(ty)),
            _ => "{\"k\":\"none\"}".to_string(),
        };
        self.allocs.insert(key, s);
        key.to_string()
    }

    fn sym_const(&self, c: &mir::Const<'tcx>) -> Option<String> {
        if let mir::Const::Unevaluated(uv, _) = *c {
            if uv.promoted.is_some() {
                return None;
            }
            let tcx = self.tcx;
            if tcx.opt_item_name(uv.def).map_or(true, |n| n.as_str() != "SIZE_IN_BYTES") {
                return None;
            }
            let self_ty = if let Some(imp) = tcx.impl_of_assoc(uv.def) {
                tcx.type_of(imp).instantiate(tcx, uv.args).skip_norm_wip()
            } else {
                uv.args.types().next()?
            };
            if let ty::Adt(d, _) = self_ty.kind() {
                let n = tcx.item_name(d.did());
                if d.did().is_local() && n.as_str().starts_with("Abs") {
                    return Some(n.to_string());
                }
            }
        }
        None
    }

    fn constant(&mut self, c: mir::Const<'tcx>, span: rustc_span::Span) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        if let Some(s) = self.sym_const(&c) {
            return format!("{{\"t\":{},\"v\":[\"sym\",{}]}}", tid, esc(&s));
        }
        if let ty::FnDef(..) = t.kind() {
            return format!("{{\"t\":{},\"v\":[\"zst\"]}}", tid);
        }
        let v = match c.eval(self.tcx, self.env(), span) {
            Ok(v) => self.const_value(v, t, 0),
            Err(_) => "[\"err\"]".to_string(),
        };
        format!("{{\"t\":{},\"v\":{}}}", tid, v)
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        if depth < 6 {
            let data = match t.kind() {
                ty::Adt(d, _) => !d.is_union(),
                ty::Tuple(fs) => !fs.is_empty(),
                _ => false,
            };
            if data && !matches!(v, ConstValue::ZeroSized) {
                if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let var = d.variant.map(|v| v.as_usize()).unwrap_or(0);
                    let fs: Vec<String> = d
                        .fields
                        .iter()
                        .map(|(fv, ft)| {
                            let id = self.ty(*ft);
                            format!("{{\"t\":{},\"v\":{}}}", id, self.const_value(*fv, *ft, depth + 1))
                        })
                        .collect();
                    return format!("[\"dc\",{},{}]", var, list(fs));
                }
            }
        }
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => format!("[\"int\",\"{}\"]", i.to_bits_unchecked()),
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                format!("[\"ptr\",{},{}]", self.alloc(prov.alloc_id()), off.bytes())
            }
            ConstValue::ZeroSized => "[\"zst\"]".to_string(),
            ConstValue::Slice { alloc_id, meta } => {
                format!("[\"slice\",{},{}]", self.alloc(alloc_id), meta)
            }
            ConstValue::Indirect { alloc_id, offset } => {
                format!("[\"mem\",{},{}]", self.alloc(alloc_id), offset.bytes())
            }
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut ps = Vec::new();
        for e in p.projection.iter() {
            ps.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\".\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                ProjectionElem::OpaqueCast(t) | ProjectionElem::UnwrapUnsafeBinder(t) => {
                    format!("[\"o\",{}]", self.ty(t))
                }
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), list(ps))
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c.const_, c.span)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }

    // the functions behind a trait object made by an unsizing coercion
    fn unsize(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) {
        let pointee = |t: Ty<'tcx>| match *t.kind() {
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => Some(e),
            ty::Adt(_, args) => args.types().next(),
            _ => None,
        };
        let (Some(a), Some(b)) = (pointee(from), pointee(to)) else { return };
        let (a, b) = self.tcx.struct_lockstep_tails_for_codegen(a, b, self.env());
        let ty::Dynamic(ps, _) = *b.kind() else { return };
        if matches!(a.kind(), ty::Dynamic(..)) {
            return;
        }
        let Some(pr) = ps.principal() else { return };
        let tr = self.tcx.instantiate_bound_regions_with_erased(pr.with_self_ty(self.tcx, a));
        let tr = self.tcx.erase_and_anonymize_regions(tr);
        let a = self.tcx.erase_and_anonymize_regions(a);
        let key = format!("\"{},{}\"", self.ty(a), self.ty(b));
        if self.vtables.contains_key(&key) {
            return;
        }
        self.vtables.insert(key.clone(), String::new());
        let es: Vec<_> = self.tcx.vtable_entries(tr).iter().copied().collect();
        let v = list(
            es.into_iter()
                .map(|e| match e {
                    ty::VtblEntry::Method(i) => self.inst(i).to_string(),
                    _ => "null".to_string(),
                })
                .collect(),
        );
        self.vtables.insert(key, v);
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o), n)
            }
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. }))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", self.place(p), m.is_mut()),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(pc, _) => format!("coerce:{:?}", pc),
                    k => format!("{:?}", k),
                };
                let from = self.operand(o);
                if ks.starts_with("coerce:Unsize") {
                    let ft = o.ty(&self.decls, self.tcx);
                    self.unsize(ft, *t);
                }
                if ks.starts_with("coerce:ClosureFnPointer") {
                    if let ty::Closure(d, args) = *o.ty(&self.decls, self.tcx).kind() {
                        let i = self.inst(Instance::new_raw(d, args));
                        return format!("[\"cast\",{},{},{},{}]", esc(&ks), from, self.ty(*t), i);
                    }
                }
                format!("[\"cast\",{},{},{}]", esc(&ks), from, self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(&b.0), self.operand(&b.1))
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os = list(ops.iter().map(|o| self.operand(o)).collect());
                let ks = match **k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, args).skip_norm_wip();
                        let a = active.map(|a| a.as_usize().to_string()).unwrap_or("null".into());
                        format!("[\"adt\",{},{},{}]", self.ty(t), v.as_usize(), a)
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, d, args);
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(t)),
                    _ => "[\"?\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", ks, os)
            }
            other => format!("[\"?\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                if !tcx.is_mir_available(d) || tcx.is_foreign_item(d) {
                    return None;
                }
                if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                    return None;
                }
            }
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) | InstanceKind::Virtual(..) => return None,
            InstanceKind::Shim(_) => {}
        }
        let b = tcx.instance_mir(inst.def);
        let b = inst
            .try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), ty::EarlyBinder::bind(tcx, b.clone()))
            .ok()?;
        self.decls = b.local_decls.clone();
        let mut locals = Vec::new();
        for l in b.local_decls.iter() {
            locals.push(self.ty(l.ty).to_string());
        }
        let mut blocks = Vec::new();
        for bb in b.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in &bb.statements {
                let sp = esc(&self.span_def(s.source_info.span));
                match &s.kind {
                    StatementKind::Assign(a) => {
                        st.push(format!("[\"=\",{},{},{}]", self.place(&a.0), self.rvalue(&a.1), sp))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setd\",{},{},{}]", self.place(place), variant_index.as_usize(), sp))
                    }
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.as_usize())),
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => {}
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => st.push(format!(
                            "[\"copy\",{},{},{},{}]",
                            self.operand(&c.src),
                            self.operand(&c.dst),
                            self.operand(&c.count),
                            sp
                        )),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = esc(&self.span_def(t.source_info.span));
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> =
                        targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize())).collect();
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr), list(v), targets.otherwise().as_usize(), sp)
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&b.local_decls, tcx).ty;
                    let i = if t.needs_drop(tcx, self.env()) {
                        let g = Instance::resolve_drop_glue(tcx, t);
                        self.inst(g).to_string()
                    } else {
                        "null".to_string()
                    };
                    format!("[\"drop\",{},{},{},{},{}]", self.place(place), target.as_usize(), self.ty(t), i, sp)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&b.local_decls, tcx);
                    let f = if let ty::FnDef(d, ga) = *ft.kind() {
                        let _ = self.ty(ft);
                        format!("[\"fn\",{}]", self.callee(d, ga.no_bound_vars().unwrap()))
                    } else {
                        format!("[\"op\",{}]", self.operand(func))
                    };
                    let a = list(args.iter().map(|a| self.operand(&a.node)).collect());
                    let tg = target.map(|t| t.as_usize().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{}]", f, a, self.place(destination), tg, sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds", vec![self.operand(len), self.operand(index)])
                        }
                        AssertKind::Overflow(op, l, r) => {
                            let _ = op;
                            ("overflow", vec![self.operand(l), self.operand(r)])
                        }
                        AssertKind::OverflowNeg(l) => ("overflow", vec![self.operand(l)]),
                        AssertKind::DivisionByZero(l) => ("div0", vec![self.operand(l)]),
                        AssertKind::RemainderByZero(l) => ("div0", vec![self.operand(l)]),
                        AssertKind::MisalignedPointerDereference { .. }
                        | AssertKind::NullPointerDereference
                        | AssertKind::InvalidEnumConstruction(_) => ("ub", vec![]),
                        _ => ("other", vec![]),
                    };
                    format!(
                        "[\"assert\",{},{},\"{}\",{},{},{}]",
                        self.operand(cond),
                        expected,
                        k,
                        list(ops),
                        target.as_usize(),
                        sp
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                other => format!("[\"?\",{}]", esc(&format!("{:?}", other))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", list(st), ts, bb.is_cleanup));
        }
        let spread = b.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into());
        Some(format!(
            "\"locals\":{},\"nargs\":{},\"spread\":{},\"blocks\":{}",
            list(locals),
            b.arg_count,
            spread,
            list(blocks)
        ))
    }

    fn fun(&mut self, k: usize, i: Instance<'tcx>) {
        let tcx = self.tcx;
        let d = i.def_id();
        let path = self.path(d);
        let krate = tcx.crate_name(d.krate).to_string();
        let mut extra = String::new();
        let kind = match i.def {
            InstanceKind::Item(_) => match tcx.def_kind(d) {
                DefKind::Ctor(..) => {
                    let sig = tcx.fn_sig(d).instantiate(tcx, i.args).skip_norm_wip().skip_binder();
                    let out = sig.output();
                    let out = tcx.try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(out)).unwrap_or(out);
                    let ot = self.ty(out);
                    let v = match out.kind() {
                        ty::Adt(def, _) if def.is_enum() => {
                            def.variant_index_with_ctor_id(d).as_usize()
                        }
                        _ => 0,
                    };
                    extra = format!(",\"ctor\":[{},{}]", ot, v);
                    "ctor"
                }
                _ => "item",
            },
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
            InstanceKind::Virtual(vd, slot) => {
                // the body of a provided method, with Self = dyn Trait
                let has_default = tcx.is_mir_available(vd);
                let mut overriders = Vec::new();
                let mut impls = Vec::new();
                let mut targets = Vec::new();
                if let Some(tr) = tcx.trait_of_assoc(vd) {
                    let ids: Vec<DefId> = tcx.all_impls(tr).collect();
                    for im in ids {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        if tcx.crate_name(tr.krate).as_str() == "flatdata" && !st.has_param() && !matches!(st.kind(), ty::Dynamic(..)) {
                            // the body which this implementation has
                            let st = tcx.erase_and_anonymize_regions(st);
                            let args = tcx.mk_args_from_iter(std::iter::once(st.into()).chain(i.args.iter().skip(1)));
                            if let Ok(Some(r)) = Instance::try_resolve(tcx, self.env(), vd, args) {
                                let k = self.inst(r);
                                targets.push(format!("[{},{}]", self.ty(st), k));
                            }
                        }
                        impls.push(esc(&with_no_visible_paths!(with_no_trimmed_paths!(tcx
                            .type_of(im)
                            .instantiate_identity()
                            .skip_norm_wip()
                            .to_string()))));
                        for it in tcx.associated_items(im).in_definition_order() {
                            if it.trait_item_def_id() == Some(vd) {
                                overriders.push(esc(&self.path(it.def_id)));
                            }
                        }
                    }
                }
                extra = format!(",\"slot\":{},\"impls\":{},\"overriders\":{},\"targets\":{}", slot, list(impls), list(overriders), list(targets));
                if has_default {
                    let j = Instance { def: InstanceKind::Item(vd), args: i.args };
                    // prevent resolving again to Virtual: dumped as an item of its own
                    let jk = self.inst(j);
                    extra += &format!(",\"default\":{}", jk);
                }
                "virtual"
            }
            InstanceKind::Shim(s) => match s {
                ShimKind::DropGlue(_, t) => {
                    if let Some(t) = t {
                        extra = format!(",\"dropty\":{}", self.ty(t));
                    }
                    "dropglue"
                }
                ShimKind::Clone(..) => "cloneshim",
                ShimKind::FnPtr(..) => "fnptrshim",
                ShimKind::ClosureOnce { .. } => "closureonce",
                ShimKind::VTable(_) => "vtableshim",
                ShimKind::Reify(..) => "reify",
                _ => "shim",
            },
        };
        let stopped = kind != "virtual"
            && krate != "flatdata"
            && krate != std::env::var("MIRDUMP_CRATE").unwrap_or_default()
            && !self.allow.iter().any(|s| path.starts_with(s.as_str()))
            && (self.stop_exact.iter().any(|s| path == *s) || self.stop.iter().any(|s| path.starts_with(s.as_str())));
        let body = if stopped { None } else { self.body(i) };
        if let Some(&r) = self.replace.get(&path) {
            // the harness has a body for it, with the same type parameters
            let mut tys = i.args.types();
            let args = ty::GenericArgs::for_item(tcx, r, |param, _| match param.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => tys.next().expect("type parameter of a model").into(),
            });
            let k = self.inst(Instance::new_raw(r, args));
            extra += &format!(",\"model\":{}", k);
        }
        let args = i.args;
        let targs = self.args(args);
        let sp = esc(&self.span(tcx.def_span(d)));
        let name = esc(&with_no_visible_paths!(with_no_trimmed_paths!(i.to_string())));
        let s = format!(
            "{{\"p\":{},\"name\":{},\"crate\":{},\"kind\":\"{}\",\"targs\":{},\"span\":{}{}{}}}",
            esc(&path),
            name,
            esc(&krate),
            kind,
            targs,
            sp,
            extra,
            body.map(|b| format!(",{}", b)).unwrap_or_default()
        );
        self.fns.insert(k, s);
    }
}

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let stop_file = std::env::var("MIRDUMP_STOP").unwrap_or_default();
        let mut stop = Vec::new();
        let mut stop_exact = Vec::new();
        let mut allow = Vec::new();
        let mut replaced = HashMap::new();
        for l in std::fs::read_to_string(stop_file).unwrap_or_default().lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            if let Some((a, b)) = l.split_once(" => ") {
                replaced.entry(b.to_string()).or_insert_with(Vec::new).push(a.to_string());
            } else if let Some(e) = l.strip_prefix('=') {
                stop_exact.push(e.to_string());
            } else if let Some(e) = l.strip_prefix('+') {
                allow.push(e.to_string());
            } else {
                stop.push(l.to_string());
            }
        }
        let mut d = Dump {
            tcx,
            types: vec![],
            type_ids: HashMap::new(),
            insts: HashMap::new(),
            queue: VecDeque::new(),
            fns: BTreeMap::new(),
            allocs: BTreeMap::new(),
            stop,
            stop_exact,
            allow,
            replace: HashMap::new(),
            decls: Default::default(),
            vtables: BTreeMap::new(),
        };
        for ld in tcx.hir_body_owners() {
            let def = ld.to_def_id();
            let path = d.path(def);
            if let Some(a) = replaced.get(path.split_once("::").map(|x| x.1).unwrap_or(&path)).or(replaced.get(&path)) {
                for a in a {
                    d.replace.insert(a.clone(), def);
                }
            }
        }
        let mut roots = Vec::new();
        for ld in tcx.hir_body_owners() {
            let def = ld.to_def_id();
            if !matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let n = tcx.item_name(def);
            if !(n.as_str().starts_with("root_") || n.as_str().starts_with("r_")) {
                continue;
            }
            if tcx.generics_of(def).requires_monomorphization(tcx) {
                continue;
            }
            let i = Instance::mono(tcx, def);
            let k = d.inst(i);
            roots.push(format!("[{},{}]", esc(n.as_str()), k));
        }
        while let Some((k, i)) = d.queue.pop_front() {
            d.fun(k, i);
        }
        let fns: Vec<String> = d.fns.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
        let allocs: Vec<String> = d.allocs.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
        let out = format!(
            "{{\"roots\":{},\n\"types\":[\n{}\n],\n\"fns\":{{\n{}\n}},\n\"vtables\":{{{}}},\n\"allocs\":{{{}}}}}",
            list(roots),
            d.types.join(",\n"),
            fns.join(",\n"),
            d.vtables.iter().map(|(k, v)| format!("{}:{}", k, v)).collect::<Vec<_>>().join(","),
            allocs.join(",\n")
        );
        std::fs::write(std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT"), out).expect("write dump");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the path of rustc first
    args.remove(0);
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    if is {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
    } else {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Plain);
    }
}
