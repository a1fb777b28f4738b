//! mirdump: a rustc driver that compiles the crate under analysis up to MIR and dumps, as JSON,
//! the monomorphised MIR of every function instance reachable from the crate's public entry
//! points, together with the types, layouts, constants and source spans it mentions.
//! It never generates or runs code of the analysed crate.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate serde_json;

use rustc_middle::ty::TyCtxt;
use rustc_public::crate_def::CrateDefType;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, MonoItem};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use rustc_public_bridge::IndexedVal;

struct Loader;
impl rustc_span::source_map::FileLoader for Loader {
    fn file_exists(&self, path: &Path) -> bool {
        path.exists()
    }
    fn read_file(&self, path: &Path) -> std::io::Result<String> {
        let s = std::fs::read_to_string(path)?;
        // `extern "stdcall"` exists on 32-bit x86 only.  Map it to another non-default ABI of
        // the same textual width class, so that the bodies can be type-checked here while the
        // ABI stays distinguishable from "C".
        Ok(s.replace("extern \"stdcall\"", "extern \"win64\""))
    }
    fn read_binary_file(&self, path: &Path) -> std::io::Result<Arc<[u8]>> {
        std::fs::read(path).map(|v| v.into())
    }
    fn current_directory(&self) -> std::io::Result<PathBuf> {
        std::env::current_dir()
    }
}

#[derive(Default)]
struct Ctx {
    types: BTreeMap<usize, Ty>,
    tqueue: VecDeque<Ty>,
    spans: BTreeMap<usize, Span>,
    allocs: BTreeMap<usize, AllocId>,
    aqueue: VecDeque<AllocId>,
    insts: HashMap<Instance, usize>,
    iqueue: VecDeque<Instance>,
    ilist: Vec<Instance>,
}

fn idx<T: serde_like::Idx>(t: &T) -> usize {
    t.idx()
}
mod serde_like {
    use rustc_public_bridge::IndexedVal;
    pub trait Idx {
        fn idx(&self) -> usize;
    }
    impl<T: IndexedVal> Idx for T {
        fn idx(&self) -> usize {
            self.to_index()
        }
    }
}

impl Ctx {
    fn ty(&mut self, t: Ty) {
        if self.types.insert(idx(&t), t).is_none() {
            self.tqueue.push_back(t);
        }
    }
    fn alloc(&mut self, a: AllocId) {
        if self.allocs.insert(idx(&a), a).is_none() {
            self.aqueue.push_back(a);
        }
    }
    fn allocation(&mut self, a: &Allocation) {
        for (_, p) in &a.provenance.ptrs {
            self.alloc(p.0);
        }
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(k) = self.insts.get(&i) {
            return *k;
        }
        let k = self.ilist.len();
        self.insts.insert(i, k);
        self.ilist.push(i);
        self.iqueue.push_back(i);
        k
    }
    fn args(&mut self, a: &GenericArgs) {
        for k in &a.0 {
            match k {
                GenericArgKind::Type(t) => self.ty(*t),
                GenericArgKind::Const(c) => self.tyconst(c),
                _ => {}
            }
        }
    }
    fn tyconst(&mut self, c: &TyConst) {
        match c.kind() {
            TyConstKind::Value(t, a) => {
                self.ty(*t);
                self.allocation(a)
            }
            TyConstKind::ZSTValue(t) => self.ty(*t),
            _ => {}
        }
    }
}

impl MirVisitor for Ctx {
    fn visit_span(&mut self, s: &Span) {
        self.spans.insert(idx(s), *s);
    }
    fn visit_ty(&mut self, t: &Ty, _: Location) {
        self.ty(*t);
    }
    fn visit_mir_const(&mut self, c: &MirConst, l: Location) {
        self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => self.allocation(a),
            ConstantKind::Ty(tc) => self.tyconst(tc),
            _ => {}
        }
        self.super_mir_const(c, l);
    }
    fn visit_ty_const(&mut self, c: &TyConst, _: Location) {
        self.tyconst(c);
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        if let Rvalue::Aggregate(AggregateKind::Adt(d, _, args, _, _), _) = r {
            let t = d.ty_with_args(args);
            self.ty(t);
        }
        if let Rvalue::Aggregate(AggregateKind::Closure(d, args), _) = r {
            let t = Ty::new_closure(*d, args.clone());
            self.ty(t);
        }
        self.super_rvalue(r, l);
    }
}

fn dump(tcx: TyCtxt<'_>) -> std::ops::ControlFlow<(), ()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut cx = Ctx::default();
    let krate = rustc_public::local_crate();
    let mut items = vec![];
    let mut roots: Vec<Value> = vec![];
    let mut seen = HashSet::new();
    for f in krate.fn_defs() {
        if !seen.insert(f.def_id()) {
            continue;
        }
        let did = rustc_internal::internal(tcx, f.def_id());
        let generics = tcx.generics_of(did);
        let ntypes = (0..generics.count())
            .filter(|i| {
                !matches!(
                    generics.param_at(*i, tcx).kind,
                    rustc_middle::ty::GenericParamDefKind::Lifetime
                )
            })
            .count();
        let public = tcx.visibility(did).is_public();
        let kind = format!("{:?}", tcx.def_kind(did));
        let name = f.name();
        let span = f.span();
        let lines = span.get_lines();
        let is_item = matches!(tcx.def_kind(did), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn);
        let mut inst_ids = vec![];
        if is_item && !tcx.is_foreign_item(did) {
            if ntypes == 0 {
                if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = f.ty().kind() {
                    if let Ok(i) = Instance::resolve(d, &args) {
                        if i.has_body() {
                            inst_ids.push(json!([[], cx.inst(i)]));
                        }
                    }
                }
            } else if ntypes == 1
                && generics.count() == 1
                && tcx.def_kind(did) == rustc_hir::def::DefKind::Fn
                && matches!(generics.param_at(0, tcx).kind, rustc_middle::ty::GenericParamDefKind::Type { .. })
            {
                // the property functions are generic in how (output id, region) is passed
                let i32t = Ty::signed_ty(IntTy::I32);
                let tup = Ty::new_tuple(&[i32t, i32t]);
                for (tag, t) in [("i32", i32t), ("(i32,i32)", tup)] {
                    let args = GenericArgs(vec![GenericArgKind::Type(t)]);
                    let ok = {
                        let rt = rustc_internal::internal(tcx, t);
                        let ga = tcx.mk_args(&[rt.into()]);
                        !tcx.instantiate_and_check_impossible_clauses((did, ga))
                    };
                    if !ok {
                        continue;
                    }
                    if let Ok(i) = Instance::resolve(f, &args) {
                        if i.has_body() {
                            inst_ids.push(json!([[tag], cx.inst(i)]));
                        }
                    }
                }
            }
        }
        let (sig_in, sig_out, abi) = match f.ty().kind().fn_sig() {
            Some(s) => {
                let s = s.skip_binder();
                (
                    s.inputs().iter().map(|t| format!("{}", t)).collect::<Vec<_>>(),
                    format!("{}", s.output()),
                    format!("{:?}", s.abi),
                )
            }
            None => (vec![], String::new(), String::new()),
        };
        items.push(json!({
            "name": name.to_string(), "public": public, "kind": kind, "ntypes": ntypes,
            "insts": inst_ids, "inputs": sig_in, "output": sig_out, "abi": abi,
            "file": span.get_filename(), "line": lines.start_line, "end_line": lines.end_line,
        }));
        roots.extend(inst_ids.iter().cloned());
    }
    let mut statics = vec![];
    for s in krate.statics() {
        let did = rustc_internal::internal(tcx, s.def_id());
        let t = s.ty();
        cx.ty(t);
        let init = s.eval_initializer().ok();
        if let Some(a) = &init {
            cx.allocation(a);
        }
        let lines = s.span().get_lines();
        statics.push(json!({"name": s.name().to_string(), "ty": idx(&t),
            "mutbl": tcx.is_mutable_static(did),
            "tls": tcx.is_thread_local_static(did),
            "freeze": rustc_internal::internal(tcx, t).is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized()),
            "file": s.span().get_filename(), "line": lines.start_line}));
    }
    let mut consts = vec![];
    for did in tcx.hir_crate_items(()).definitions() {
        let d = did.to_def_id();
        if !matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Const { .. } | rustc_hir::def::DefKind::AssocConst { .. }) {
            continue;
        }
        if tcx.generics_of(d).count() != 0 {
            continue;
        }
        let t = tcx.type_of(d).instantiate_identity();
        let val = match tcx.const_eval_poly(d) {
            Ok(v) => v.try_to_scalar_int().map(|s| s.to_bits(s.size()).to_string()),
            Err(_) => None,
        };
        let sp = tcx.def_span(d);
        let lo = tcx.sess.source_map().lookup_char_pos(sp.lo());
        consts.push(json!({"name": tcx.def_path_str(d), "ty": format!("{:?}", t), "bits": val,
            "public": tcx.visibility(d).is_public(), "reexported": tcx.effective_visibilities(()).is_reachable(did),
            "file": format!("{}", lo.file.name.prefer_local_unconditionally()), "line": lo.line}));
    }
    // worklist over instances, types and allocations
    let mut fns: BTreeMap<usize, Value> = BTreeMap::new();
    let mut tyinfo: BTreeMap<usize, Value> = BTreeMap::new();
    let mut alloc_out: BTreeMap<usize, Value> = BTreeMap::new();
    loop {
        if let Some(t) = cx.tqueue.pop_front() {
            let id = idx(&t);
            let kind = t.kind();
            let mut extra = json!({});
            match &kind {
                TyKind::RigidTy(r) => match r {
                    RigidTy::Adt(d, args) => {
                        cx.args(args);
                        let mut vs = vec![];
                        for (vi, v) in d.variants_iter().enumerate() {
                            let discr = if d.kind() == AdtKind::Enum {
                                let x = d.discriminant_for_variant(rustc_public::ty::VariantIdx::to_val(vi));
                                Some(match x.ty.kind() {
                                    TyKind::RigidTy(RigidTy::Int(it)) => {
                                        let sh = 128 - 8 * it.num_bytes() as u32;
                                        (((x.val << sh) as i128) >> sh) as i64
                                    }
                                    _ => x.val as i64,
                                })
                            } else {
                                None
                            };
                            let mut fs = vec![];
                            for fd in v.fields() {
                                let ft = fd.ty_with_args(args);
                                cx.ty(ft);
                                fs.push(json!([fd.name.to_string(), idx(&ft)]));
                            }
                            vs.push(json!({"name": v.name().to_string(), "fields": fs, "discr": discr}));
                        }
                        extra = json!({"adt": d.name().to_string(), "adtkind": format!("{:?}", d.kind()), "variants": vs,
                            "args": args.0.iter().filter_map(|a| a.ty().map(|t| idx(t))).collect::<Vec<_>>()});
                    }
                    RigidTy::Array(e, n) => {
                        cx.ty(*e);
                        extra = json!({"elem": idx(e), "len": n.eval_target_usize().ok()});
                    }
                    RigidTy::Slice(e) => {
                        cx.ty(*e);
                        extra = json!({"elem": idx(e)});
                    }
                    RigidTy::Pat(e, _) => {
                        cx.ty(*e);
                        extra = json!({"elem": idx(e)});
                    }
                    RigidTy::RawPtr(e, m) | RigidTy::Ref(_, e, m) => {
                        cx.ty(*e);
                        extra = json!({"elem": idx(e), "mut": format!("{:?}", m)});
                    }
                    RigidTy::Tuple(ts) => {
                        for e in ts {
                            cx.ty(*e);
                        }
                        extra = json!({"elems": ts.iter().map(|t| idx(t)).collect::<Vec<_>>()});
                    }
                    RigidTy::FnDef(d, args) => {
                        cx.args(args);
                        let i = Instance::resolve(*d, args);
                        extra = match i {
                            Ok(i) => json!({"inst": cx.inst(i)}),
                            Err(_) => json!({}),
                        };
                    }
                    RigidTy::Closure(d, args) => {
                        // upvars: last generic arg is the tuple of upvar types
                        let kind = ClosureKind::FnOnce;
                        let i = Instance::resolve_closure(*d, args, kind);
                        if let Some(GenericArgKind::Type(ut)) = args.0.last() {
                            cx.ty(*ut);
                            extra["upvars"] = json!(idx(ut));
                        }
                        if let Ok(i) = i {
                            extra["inst_once"] = json!(cx.inst(i));
                        }
                    }
                    RigidTy::FnPtr(sig) => {
                        extra = json!({"abi": format!("{:?}", sig.value.abi)});
                    }
                    _ => {}
                },
                _ => {}
            }
            let k = match &kind {
                TyKind::RigidTy(r) => format!("{:?}", r).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string(),
                _ => "Other".into(),
            };
            let prim = match &kind {
                TyKind::RigidTy(RigidTy::Int(x)) => format!("{:?}", x),
                TyKind::RigidTy(RigidTy::Uint(x)) => format!("{:?}", x),
                TyKind::RigidTy(RigidTy::Float(x)) => format!("{:?}", x),
                _ => String::new(),
            };
            let layout = match t.layout() {
                Ok(l) => {
                    let s = l.shape();
                    json!({"size": s.size.bytes(), "fields": serde_json::to_value(&s.fields).unwrap(), "variants": serde_json::to_value(&s.variants).unwrap()})
                }
                Err(_) => Value::Null,
            };
            tyinfo.insert(id, json!({"k": k, "prim": prim, "name": format!("{}", t), "x": extra, "layout": layout}));
            continue;
        }
        if let Some(a) = cx.aqueue.pop_front() {
            let id = idx(&a);
            let v = match GlobalAlloc::from(a) {
                GlobalAlloc::Function(i) => json!({"k": "fn", "inst": cx.inst(i)}),
                GlobalAlloc::Static(s) => {
                    let t = s.ty();
                    cx.ty(t);
                    let did = rustc_internal::internal(tcx, s.def_id());
                    let init = s.eval_initializer();
                    let freeze = rustc_internal::internal(tcx, t).is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized());
                    let tls = tcx.is_thread_local_static(did);
                    match init {
                        Ok(al) => {
                            cx.allocation(&al);
                            json!({"k": "static", "name": s.name().to_string(), "ty": idx(&t), "mutbl": tcx.is_mutable_static(did), "tls": tls, "freeze": freeze, "a": serde_json::to_value(&al).unwrap()})
                        }
                        Err(_) => json!({"k": "static", "name": s.name().to_string(), "ty": idx(&t), "mutbl": tcx.is_mutable_static(did), "tls": tls, "freeze": freeze}),
                    }
                }
                GlobalAlloc::Memory(al) => {
                    cx.allocation(&al);
                    json!({"k": "mem", "a": serde_json::to_value(&al).unwrap()})
                }
                _ => json!({"k": "other"}),
            };
            alloc_out.insert(id, v);
            continue;
        }
        if let Some(i) = cx.iqueue.pop_front() {
            let id = cx.insts[&i];
            let name = i.name().to_string();
            let is_local = i.def.krate().is_local;
            let mut v = json!({
                "name": name, "mangled": i.mangled_name().to_string(), "kind": format!("{:?}", i.kind),
                "local": is_local, "crate": i.def.krate().name.to_string(),
            });
            if i.kind == InstanceKind::Intrinsic {
                v["intrinsic"] = json!(i.intrinsic_name().map(|s| s.to_string()));
            }
            // bodies of panic machinery and formatting are never needed
            let skip = name.starts_with("core::fmt::")
                || name.starts_with("std::fmt::")
                || name.starts_with("std::rt::")
                || name.starts_with("core::panicking")
                || name.starts_with("std::panicking")
                || name.starts_with("std::io::")
                || name.starts_with("alloc::")
                || name.starts_with("std::sys")
                || name.starts_with("pyo3::");
            if !skip && (i.has_body() || i.kind == InstanceKind::Shim) {
                if let Some(b) = i.body() {
                    cx.visit_body(&b);
                    v["body"] = serde_json::to_value(&b).unwrap();
                    let mut drops = vec![];
                    let mut dropat = vec![];
                    for (bi, bl) in b.blocks.iter().enumerate() {
                        if let TerminatorKind::Drop { place, .. } = &bl.terminator.kind {
                            if let Ok(t) = place.ty(b.locals()) {
                                let g = Instance::resolve_drop_in_place(t);
                                if !g.is_empty_shim() {
                                    let gi = cx.inst(g);
                                    drops.push(gi);
                                    dropat.push(json!([bi, gi]));
                                }
                            }
                        }
                    }
                    v["drops"] = json!(drops);
                    v["dropat"] = json!(dropat);
                    for l in b.locals() {
                        cx.ty(l.ty);
                    }
                }
            }
            fns.insert(id, v);
            continue;
        }
        break;
    }
    let mut spans: BTreeMap<usize, Value> = BTreeMap::new();
    for (k, s) in &cx.spans {
        let l = s.get_lines();
        spans.insert(*k, json!([s.get_filename(), l.start_line, l.start_col]));
    }
    let _ = MonoItem::GlobalAsm;
    let v = json!({"crate": krate.name.to_string(), "items": items, "statics": statics, "consts": consts, "fns": fns, "types": tyinfo,
        "allocs": alloc_out, "spans": spans, "roots": roots});
    let f = std::fs::File::create(out).expect("output");
    serde_json::to_writer(std::io::BufWriter::new(f), &v).unwrap();
    std::ops::ControlFlow::Continue(())
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.file_loader = Some(Box::new(Loader));
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "seuif97".into());
        if tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str() == want {
            let _ = rustc_internal::run(tcx, || dump(tcx));
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER / RUSTC_WORKSPACE_WRAPPER mode: argv[1] is the real rustc
    if args.len() > 1 && Path::new(&args[1]).file_stem().map_or(false, |s| s == "rustc") {
        args.remove(1);
    }
    let _ = rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut Cb)).map_err(|_| std::process::exit(1));
}
