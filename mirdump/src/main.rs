//! Dumps the MIR of the crate being compiled as JSON, with callees resolved,
//! constants evaluated and places annotated with field and variant names.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate rustc_infer;

mod json;
use json::J;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::BTreeMap;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Ok(dir) = std::env::var("MIRDUMP_OUT") {
            with_no_trimmed_paths!(dump(tcx, &dir));
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    // the analysis wants the unoptimised program, without overflow checks
    if args.iter().any(|a| a == "--crate-name") {
        for a in ["-Zmir-opt-level=0", "-Coverflow-checks=off", "-Cdebug-assertions=off", "-Awarnings"] {
            args.push(a.to_string());
        }
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}

/// Looks for unsafe blocks written in the source (not by a macro).
struct Blocks<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: bool,
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Blocks<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided))
            && !b.span.from_expansion()
        {
            self.found = true;
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, J>,
}

fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    // crate-name based rather than hash based: readable and stable between the
    // host and target builds of the same crate
    let mut s = tcx.crate_name(d.krate).to_string();
    s.push_str(&tcx.def_path(d).to_string_no_crate_verbose());
    s
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, dir: &str) {
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    if krate == "___" {
        return;
    }
    let mut cx = Cx { tcx, adts: BTreeMap::new() };
    let mut fns = Vec::new();
    let mut items = Vec::new();
    let mut impls = Vec::new();
    let ids: Vec<_> = tcx.hir_crate_items(()).definitions().collect();
    for ldid in ids {
        let did = ldid.to_def_id();
        let kind = tcx.def_kind(did);
        match kind {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                cx.ty(t);
                let mut o = J::obj();
                o.set("kind", J::s(format!("{:?}", kind)));
                o.set("key", J::s(key(tcx, did)));
                o.set("path", J::s(tcx.def_path_str(did)));
                o.set("pub", J::Bool(tcx.visibility(did).is_public()));
                o.set("ngen", J::Int(tcx.generics_of(did).own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).count() as i128));
                if tcx.generics_of(did).own_params.iter().all(|p| matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
                    let env = TypingEnv::post_analysis(tcx, did);
                    o.set("freeze", J::Bool(t.is_freeze(tcx, env)));
                    o.set("send", J::Bool(auto(tcx, env, t, "Send")));
                    o.set("sync", J::Bool(auto(tcx, env, t, "Sync")));
                }
                items.push(o);
            }
            DefKind::Impl { .. } => {
                let mut o = J::obj();
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                o.set("self", cx.ty(st));
                if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.set("trait", J::s(tcx.def_path_str(tr.def_id)));
                    o.set("trait_full", J::s(format!("{}", tr)));
                    o.set("unsafe", J::Bool(tcx.impl_trait_header(did).safety.is_unsafe()));
                }
                o.set("key", J::s(key(tcx, did)));
                let mut its = Vec::new();
                for it in tcx.associated_items(did).in_definition_order() {
                    let mut io = J::obj();
                    io.set("name", J::s(it.name().to_string()));
                    io.set("key", J::s(key(tcx, it.def_id)));
                    if let Some(t) = it.trait_item_def_id() {
                        io.set("trait_item", J::s(key(tcx, t)));
                    }
                    its.push(io);
                }
                o.set("items", J::Arr(its));
                impls.push(o);
            }
            DefKind::Static { .. } => {
                let mut o = J::obj();
                o.set("kind", J::s("Static"));
                o.set("key", J::s(key(tcx, did)));
                o.set("path", J::s(tcx.def_path_str(did)));
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                o.set("ty", cx.ty(t));
                o.set("mutable", J::Bool(tcx.is_mutable_static(did)));
                o.set("freeze", J::Bool(t.is_freeze(tcx, TypingEnv::fully_monomorphized())));
                items.push(o);
            }
            _ => {}
        }
    }
    for ldid in tcx.hir_body_owners() {
        let did = ldid.to_def_id();
        let kind = tcx.def_kind(did);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if !tcx.is_mir_available(did) {
                    continue;
                }
                let body = tcx.optimized_mir(did);
                fns.push(cx.body(did, body, None));
                for (i, p) in tcx.promoted_mir(did).iter_enumerated() {
                    fns.push(cx.body(did, p, Some(i.as_usize())));
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                let g = tcx.generics_of(did);
                let _ = g;
                let body = tcx.mir_for_ctfe(ldid);
                fns.push(cx.body(did, body, None));
                for (i, p) in tcx.promoted_mir(did).iter_enumerated() {
                    fns.push(cx.body(did, p, Some(i.as_usize())));
                }
            }
            _ => {}
        }
    }
    let mut root = J::obj();
    root.set("crate", J::s(krate.clone()));
    root.set("out_dir", J::s(std::env::var("OUT_DIR").unwrap_or_default()));
    root.set("pkg", J::s(std::env::var("CARGO_PKG_NAME").unwrap_or_default()));
    root.set(
        "crate_type",
        J::s(format!("{:?}", tcx.crate_types())),
    );
    let av: Vec<String> = std::env::args().collect();
    let mut cfgs: Vec<String> = av
        .windows(2)
        .filter(|w| w[0] == "--cfg" && w[1].starts_with("feature"))
        .map(|w| w[1].clone())
        .collect();
    cfgs.sort();
    root.set("cfg", J::Arr(cfgs.into_iter().map(J::s).collect()));
    root.set("adts", J::Obj(cx.adts.into_iter().collect()));
    root.set("items", J::Arr(items));
    root.set("impls", J::Arr(impls));
    root.set("fns", J::Arr(fns));
    let mut out = String::new();
    root.write(&mut out);
    let h = {
        use std::hash::{Hash, Hasher};
        let mut s = std::collections::hash_map::DefaultHasher::new();
        std::env::args().collect::<Vec<_>>().hash(&mut s);
        s.finish()
    };
    let path = format!("{}/{}-{:016x}.json", dir, krate, h);
    let tmp = format!("{}.tmp{}", path, std::process::id());
    std::fs::write(&tmp, out).expect("write dump");
    std::fs::rename(&tmp, &path).expect("rename dump");
}

fn auto<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, t: Ty<'tcx>, name: &str) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let did = match name {
        "Send" => tcx.get_diagnostic_item(rustc_span::sym::Send),
        _ => tcx.lang_items().sync_trait(),
    };
    let Some(did) = did else { return false };
    let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
    let t = tcx.erase_and_anonymize_regions(t);
    infcx.type_implements_trait(did, [t], penv).must_apply_modulo_regions()
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        self.note_adt(t);
        J::s(format!("{}", t))
    }

    fn note_adt(&mut self, t: Ty<'tcx>) {
        match t.kind() {
            ty::Ref(_, t, _) | ty::RawPtr(t, _) | ty::Slice(t) => self.note_adt(*t),
            ty::Array(t, _) => self.note_adt(*t),
            ty::Tuple(ts) => ts.iter().for_each(|t| self.note_adt(t)),
            ty::Adt(def, args) => {
                let path = self.tcx.def_path_str(def.did());
                if !self.adts.contains_key(&path) {
                    self.adts.insert(path.clone(), J::Null);
                    let mut o = J::obj();
                    o.set("key", J::s(key(self.tcx, def.did())));
                    o.set("kind", J::s(if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" }));
                    o.set("local", J::Bool(def.did().is_local()));
                    let mut vs = Vec::new();
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut vo = J::obj();
                        vo.set("name", J::s(v.name.to_string()));
                        if def.is_enum() {
                            let d = def.discriminant_for_variant(self.tcx, vi);
                            vo.set("discr", J::Int(d.val as i128));
                        }
                        let mut fs = Vec::new();
                        for f in v.fields.iter() {
                            let mut fo = J::obj();
                            fo.set("name", J::s(f.name.to_string()));
                            let ft = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            fo.set("ty", J::s(format!("{}", ft)));
                            fs.push(fo);
                        }
                        vo.set("fields", J::Arr(fs));
                        vs.push(vo);
                    }
                    o.set("variants", J::Arr(vs));
                    self.adts.insert(path, o);
                }
                for a in args.types() {
                    self.note_adt(a);
                }
            }
            _ => {}
        }
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        J::s(format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line))
    }

    fn body(&mut self, did: DefId, body: &mir::Body<'tcx>, promoted: Option<usize>) -> J {
        let tcx = self.tcx;
        let mut o = J::obj();
        let k = key(tcx, did);
        o.set(
            "key",
            J::s(match promoted {
                Some(i) => format!("{}::promoted[{}]", k, i),
                None => k,
            }),
        );
        o.set("path", J::s(tcx.def_path_str(did)));
        o.set("kind", J::s(format!("{:?}", tcx.def_kind(did))));
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            o.set("pub", J::Bool(tcx.visibility(did).is_public()));
            o.set("unsafe", J::Bool(!tcx.fn_sig(did).skip_binder().safety().is_safe()));
            o.set("name", J::s(tcx.item_name(did).to_string()));
        }
        let from_exp = tcx.def_span(did).from_expansion();
        o.set("exp", J::Bool(from_exp));
        o.set("span", self.span(tcx.def_span(did)));
        if let Some(p) = tcx.opt_parent(did) {
            if let DefKind::Impl { .. } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                o.set("impl_self", J::s(format!("{}", st)));
                if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                    o.set("impl_trait", J::s(tcx.def_path_str(tr.skip_binder().def_id)));
                }
            }
        }
        if let Some(l) = did.as_local() {
            let root = tcx.typeck_root_def_id_local(l);
            if let Some(b) = tcx.hir_maybe_body_owned_by(root) {
                let mut v = Blocks { tcx, found: false };
                rustc_hir::intravisit::Visitor::visit_body(&mut v, b);
                if v.found {
                    o.set("unsafe_block", J::Bool(true));
                }
            }
        }
        let g = tcx.generics_of(did);
        let mut gn = Vec::new();
        for i in 0..g.count() {
            gn.push(J::s(g.param_at(i, tcx).name.to_string()));
        }
        o.set("generics", J::Arr(gn));
        o.set("args", J::Int(body.arg_count as i128));
        let env = body.typing_env(tcx);
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upv = Vec::new();
        for vdi in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &vdi.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(vdi.name.to_string());
                } else {
                    let mut u = J::obj();
                    u.set("name", J::s(vdi.name.to_string()));
                    u.set("place", self.place(body, *p));
                    upv.push(u);
                }
            }
        }
        o.set("upvars", J::Arr(upv));
        let mut locals = Vec::new();
        for (l, d) in body.local_decls.iter_enumerated() {
            let mut lo = J::obj();
            lo.set("ty", self.ty(d.ty));
            if let Some(n) = names.get(&l.as_usize()) {
                lo.set("name", J::s(n.clone()));
            }
            locals.push(lo);
        }
        o.set("locals", J::Arr(locals));
        let mut blocks = Vec::new();
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut bo = J::obj();
            if data.is_cleanup {
                bo.set("cleanup", J::Bool(true));
            }
            let mut ss = Vec::new();
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(bx) => {
                        let (p, rv) = &**bx;
                        ss.push(J::Arr(vec![
                            J::s("="),
                            self.place(body, *p),
                            self.rvalue(body, env, rv),
                            self.span(s.source_info.span),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(J::Arr(vec![
                            J::s("setdiscr"),
                            self.place(body, **place),
                            J::Int(variant_index.as_usize() as i128),
                        ]));
                    }
                    _ => {}
                }
            }
            bo.set("s", J::Arr(ss));
            let t = data.terminator();
            bo.set("t", self.term(body, env, t));
            blocks.push(bo);
        }
        o.set("blocks", J::Arr(blocks));
        o
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![J::Int(p.local.as_usize() as i128)];
        for (base, elem) in p.iter_projections() {
            let bt = base.ty(body, tcx);
            let e = match elem {
                ProjectionElem::Deref => J::Arr(vec![J::s("*")]),
                ProjectionElem::Field(f, _) => {
                    let name = match bt.ty.kind() {
                        ty::Adt(def, _) => {
                            self.note_adt(bt.ty);
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(vi).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    J::Arr(vec![J::s("f"), J::Int(f.as_usize() as i128), J::s(name)])
                }
                ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), J::Int(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::Arr(vec![
                    J::s("ci"),
                    J::Int(offset as i128),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![
                    J::s("ss"),
                    J::Int(from as i128),
                    J::Int(to as i128),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Downcast(name, vi) => {
                    let n = name.map(|n| n.to_string()).unwrap_or_else(|| vi.as_usize().to_string());
                    J::Arr(vec![J::s("v"), J::Int(vi.as_usize() as i128), J::s(n)])
                }
                _ => J::Arr(vec![J::s("?")]),
            };
            v.push(e);
        }
        J::Arr(v)
    }

    fn operand(&mut self, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::Arr(vec![J::s("c"), self.place(body, *p)]),
            Operand::Move(p) => J::Arr(vec![J::s("m"), self.place(body, *p)]),
            Operand::Constant(c) => {
                let mut j = self.constant(env, &c.const_);
                {
                    if let Ok(sn) = self.tcx.sess.source_map().span_to_snippet(c.span.source_callsite()) {
                        if sn.trim_start().starts_with("include_") {
                            j.set("incl", J::s(sn));
                        }
                    }
                }
                J::Arr(vec![J::s("k"), j])
            }
            #[allow(unreachable_patterns)]
            _ => J::Arr(vec![J::s("k"), J::obj1("opaque", J::s(format!("{:?}", op)))]),
        }
    }

    fn fn_ref(&mut self, env: TypingEnv<'tcx>, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = J::obj();
        o.set("path", J::s(tcx.def_path_str(did)));
        o.set("key", J::s(key(tcx, did)));
        o.set("gargs", J::Arr(args.iter().map(|a| J::s(format!("{}", a))).collect()));
        for a in args.types() {
            self.note_adt(a);
        }
        if let Some(t) = tcx.trait_of_assoc(did) {
            o.set("trait", J::s(tcx.def_path_str(t)));
        }
        if !tcx.fn_sig(did).skip_binder().safety().is_safe() {
            o.set("unsafe", J::Bool(true));
        }
        let eargs = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, did, eargs) {
            let rd = inst.def_id();
            let k = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                _ => {
                    let d = format!("{:?}", inst.def);
                    if d.contains("ClosureOnce") {
                        "closure_once"
                    } else if d.contains("FnPtr") {
                        "fnptr"
                    } else {
                        "shim"
                    }
                }
            };
            let mut r = J::obj();
            r.set("kind", J::s(k));
            r.set("key", J::s(key(tcx, rd)));
            r.set("path", J::s(tcx.def_path_str(rd)));
            r.set("gargs", J::Arr(inst.args.iter().map(|a| J::s(format!("{}", a))).collect()));
            if let Some(p) = tcx.opt_parent(rd) {
                if let DefKind::Impl { .. } = tcx.def_kind(p) {
                    r.set("impl_self", J::s(format!("{}", tcx.type_of(p).instantiate_identity().skip_norm_wip())));
                }
            }
            o.set("res", r);
        }
        o
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, c: &mir::Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o = J::obj();
        o.set("ty", self.ty(t));
        if let ty::FnDef(did, args) = t.kind() {
            o.set("fn", self.fn_ref(env, *did, args.skip_binder()));
            return o;
        }
        if let mir::Const::Unevaluated(u, _) = c {
            match u.promoted {
                Some(p) => o.set("promoted", J::s(format!("{}::promoted[{}]", key(tcx, u.def), p.as_usize()))),
                None => {
                    o.set("named", J::s(key(tcx, u.def)));
                    if let Some(p) = tcx.opt_parent(u.def) {
                        let _ = p;
                    }
                }
            }
        }
        let stat = match c {
            mir::Const::Val(mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), _) => {
                match tcx.global_alloc(p.prov_and_relative_offset().0.alloc_id()) {
                    mir::interpret::GlobalAlloc::Static(d) => Some(d),
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(d) = stat {
            o.set("static", J::s(key(tcx, d)));
            return o;
        }
        let mut tystr = false;
        if let ty::Ref(_, inner, _) = t.kind() {
            tystr = inner.is_str();
        }
        match c.eval(tcx, env, rustc_span::DUMMY_SP) {
            Ok(val) => {
                if t.is_integral() || t.is_bool() || t.is_char() {
                    if let Some(si) = val.try_to_scalar_int() {
                        let size = si.size();
                        let v: i128 = if t.is_signed() { si.to_int(size) } else { si.to_uint(size) as i128 };
                        if t.is_bool() {
                            o.set("bool", J::Bool(v != 0));
                        } else {
                            o.set("int", J::Int(v));
                        }
                        return o;
                    }
                }
                if tystr {
                    if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                        o.set("str", J::s(String::from_utf8_lossy(b).to_string()));
                        return o;
                    }
                }
                if let ty::Ref(_, inner, _) = t.kind() {
                    // &[u8; N] and &[u8]
                    let bytes: Option<Vec<u8>> = match inner.kind() {
                        ty::Slice(e) if e.is_integral() && format!("{}", e) == "u8" => {
                            val.try_get_slice_bytes_for_diagnostics(tcx).map(|b| b.to_vec())
                        }
                        ty::Array(e, n) if format!("{}", e) == "u8" => {
                            let n = n.try_to_target_usize(tcx);
                            match (n, val) {
                                (Some(n), mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _))) => {
                                    let (prov, off) = p.prov_and_relative_offset();
                                    match tcx.global_alloc(prov.alloc_id()) {
                                        mir::interpret::GlobalAlloc::Memory(a) => {
                                            let r = off.bytes_usize()..off.bytes_usize() + n as usize;
                                            Some(a.inner().inspect_with_uninit_and_ptr_outside_interpreter(r).to_vec())
                                        }
                                        _ => None,
                                    }
                                }
                                _ => None,
                            }
                        }
                        _ => None,
                    };
                    if let Some(b) = bytes {
                        o.set("blen", J::Int(b.len() as i128));
                        o.set("bhash", J::s(format!("{:016x}", fnv(&b))));
                        if b.len() <= 4096 {
                            o.set("bytes", J::Arr(b.iter().map(|x| J::Int(*x as i128)).collect()));
                        }
                        return o;
                    }
                }
                if let mir::ConstValue::ZeroSized = val {
                    o.set("zst", J::Bool(true));
                    return o;
                }
                o.set("text", J::s(trunc(format!("{}", c))));
            }
            Err(_) => {
                o.set("text", J::s(trunc(format!("{:?}", c))));
            }
        }
        o
    }

    fn rvalue(&mut self, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>, rv: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(op, ..) => J::Arr(vec![J::s("use"), self.operand(body, env, op)]),
            Rvalue::Repeat(op, n) => J::Arr(vec![
                J::s("repeat"),
                self.operand(body, env, op),
                J::s(format!("{}", n)),
            ]),
            Rvalue::Ref(_, bk, p) => J::Arr(vec![
                J::s("ref"),
                J::s(if matches!(bk, mir::BorrowKind::Mut { .. }) { "mut" } else { "shared" }),
                self.place(body, *p),
            ]),
            Rvalue::RawPtr(_, p) => J::Arr(vec![J::s("ref"), J::s("raw"), self.place(body, *p)]),
            Rvalue::Cast(k, op, t) => {
                let ft = op.ty(body, tcx);
                J::Arr(vec![
                    J::s("cast"),
                    J::s(format!("{:?}", k)),
                    self.operand(body, env, op),
                    self.ty(*t),
                    self.ty(ft),
                ])
            }
            Rvalue::BinaryOp(op, ab) => J::Arr(vec![
                J::s("bin"),
                J::s(format!("{:?}", op)),
                self.operand(body, env, &ab.0),
                self.operand(body, env, &ab.1),
                J::s(format!("{}", ab.0.ty(body, tcx))),
            ]),
            Rvalue::UnaryOp(op, a) => J::Arr(vec![
                J::s("un"),
                J::s(format!("{:?}", op)),
                self.operand(body, env, a),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                J::Arr(vec![J::s("discr"), self.place(body, *p), self.ty(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o = J::obj();
                match &**k {
                    mir::AggregateKind::Tuple => o.set("k", J::s("tuple")),
                    mir::AggregateKind::Array(_) => o.set("k", J::s("array")),
                    mir::AggregateKind::Adt(did, vi, _args, _, _) => {
                        let def = tcx.adt_def(*did);
                        o.set("k", J::s("adt"));
                        o.set("path", J::s(tcx.def_path_str(*did)));
                        o.set("variant", J::s(def.variant(*vi).name.to_string()));
                        o.set("vi", J::Int(vi.as_usize() as i128));
                        o.set("enum", J::Bool(def.is_enum()));
                        o.set(
                            "fields",
                            J::Arr(def.variant(*vi).fields.iter().map(|f| J::s(f.name.to_string())).collect()),
                        );
                    }
                    mir::AggregateKind::Closure(did, _) => {
                        o.set("k", J::s("closure"));
                        o.set("key", J::s(key(tcx, *did)));
                    }
                    other => {
                        o.set("k", J::s("other"));
                        o.set("text", J::s(format!("{:?}", other)));
                    }
                }
                let v = ops.iter().map(|x| self.operand(body, env, x)).collect();
                J::Arr(vec![J::s("agg"), o, J::Arr(v)])
            }
            Rvalue::CopyForDeref(p) => J::Arr(vec![J::s("use"), J::Arr(vec![J::s("c"), self.place(body, *p)])]),
            #[allow(unreachable_patterns)]
            other => J::Arr(vec![J::s("other"), J::s(format!("{:?}", other))]),
        }
    }

    fn term(&mut self, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>, t: &mir::Terminator<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = J::obj();
        let bb = |b: mir::BasicBlock| J::Int(b.as_usize() as i128);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.set("k", J::s("goto"));
                o.set("to", bb(*target));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.set("k", J::s("switch"));
                o.set("on", self.operand(body, env, discr));
                o.set("ty", J::s(format!("{}", discr.ty(body, tcx))));
                let dt = discr.ty(body, tcx);
                let signed = dt.is_signed();
                let mut arms = Vec::new();
                for (v, b) in targets.iter() {
                    let v = if signed {
                        // sign-extend according to the type's size
                        let size = tcx.layout_of(env.as_query_input(dt)).map(|l| l.size).ok();
                        match size {
                            Some(s) => s.sign_extend(v) as i128,
                            None => v as i128,
                        }
                    } else {
                        v as i128
                    };
                    arms.push(J::Arr(vec![J::Int(v), bb(b)]));
                }
                o.set("arms", J::Arr(arms));
                o.set("else", bb(targets.otherwise()));
            }
            TerminatorKind::Return => o.set("k", J::s("return")),
            TerminatorKind::Unreachable => o.set("k", J::s("unreachable")),
            TerminatorKind::Drop { place, target, .. } => {
                o.set("k", J::s("drop"));
                o.set("place", self.place(body, *place));
                o.set("ty", J::s(format!("{}", place.ty(body, tcx).ty)));
                o.set("to", bb(*target));
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                o.set("k", J::s("call"));
                o.set("f", self.operand(body, env, func));
                let mut v = Vec::new();
                let mut tys = Vec::new();
                for a in args.iter() {
                    v.push(self.operand(body, env, &a.node));
                    tys.push(J::s(format!("{}", a.node.ty(body, tcx))));
                }
                o.set("args", J::Arr(v));
                o.set("argtys", J::Arr(tys));
                o.set("dest", self.place(body, *destination));
                o.set("destty", J::s(format!("{}", destination.ty(body, tcx).ty)));
                if let Some(t) = target {
                    o.set("to", bb(*t));
                }
                o.set("span", self.span(*fn_span));
                o.set("exp", J::Bool(fn_span.from_expansion()));
                if fn_span.from_expansion() {
                    let mut names = Vec::new();
                    for e in fn_span.macro_backtrace() {
                        names.push(J::s(format!("{}", e.kind.descr())));
                    }
                    o.set("macros", J::Arr(names));
                }
            }
            TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                o.set("k", J::s("assert"));
                o.set("cond", self.operand(body, env, cond));
                o.set("expected", J::Bool(*expected));
                o.set("to", bb(*target));
                let m = match &**msg {
                    mir::AssertKind::BoundsCheck { len, index } => {
                        o.set("len", self.operand(body, env, len));
                        o.set("index", self.operand(body, env, index));
                        "bounds".to_string()
                    }
                    mir::AssertKind::Overflow(op, ..) => format!("overflow {:?}", op),
                    other => format!("{:?}", std::mem::discriminant(other)),
                };
                o.set("msg", J::s(m));
                o.set("span", self.span(t.source_info.span));
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                o.set("k", J::s("goto"));
                o.set("to", bb(*real_target));
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                o.set("k", J::s("goto"));
                o.set("to", bb(*real_target));
            }
            other => {
                o.set("k", J::s("other"));
                o.set("text", J::s(format!("{:?}", other)));
            }
        }
        o
    }
}

fn trunc(s: String) -> String {
    if s.len() > 2000 {
        s.chars().take(2000).collect()
    } else {
        s
    }
}

fn fnv(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
