//! Effect rule (L02): nothing the crate's bodies can call allocates, and without `std` nothing links an allocator.

use crate::interp::*;
use crate::types::mentions;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::visit::Visitor;
use rustc_middle::mir::{self, Location};
use rustc_middle::ty::{self, Ty, TyCtxt};

/// every function a body can call, with the span that mentions it
struct Calls<'tcx> {
    tcx: TyCtxt<'tcx>,
    span: rustc_span::Span,
    found: Vec<(DefId, ty::GenericArgsRef<'tcx>, rustc_span::Span)>,
    asm: Vec<rustc_span::Span>,
}
impl<'tcx> Calls<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) {
        for x in mentions(t) {
            if let ty::FnDef(d, a) = x.kind() {
                self.found.push((*d, a.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(self.tcx, *d)), self.span));
            }
        }
    }
}
impl<'tcx> Visitor<'tcx> for Calls<'tcx> {
    fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, l: Location) {
        self.span = c.span;
        self.ty(c.const_.ty());
        self.super_const_operand(c, l)
    }
    fn visit_terminator(&mut self, t: &mir::Terminator<'tcx>, l: Location) {
        self.span = t.source_info.span;
        if let mir::TerminatorKind::InlineAsm { .. } = t.kind {
            self.asm.push(t.source_info.span)
        }
        self.super_terminator(t, l)
    }
}

/// methods of `alloc` and `std` that look at an existing value
const LOOKS: &[&str] = &["as_str", "as_bytes", "as_slice", "as_ref", "as_mut_str", "as_mut_slice", "deref", "deref_mut", "borrow", "len", "is_empty", "as_ptr", "capacity", "fmt", "drop", "eq", "ne", "cmp", "partial_cmp", "hash", "source", "description", "cause"];
/// traits whose implementations for types of `alloc` and `std` do not allocate
const LOOK_TRAITS: &[&str] = &[
    "Sized", "MetaSized", "PointeeSized", "Deref", "DerefMut", "AsRef", "AsMut", "Borrow", "BorrowMut", "Debug", "Display", "Destruct", "Drop", "Try", "FromResidual", "Residual", "Send", "Sync", "Unpin", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash",
    "Error", "Freeze", "Copy", "Any", "Receiver",
];

impl<'tcx> Cx<'tcx> {
    fn heap_ty(&self, t: Ty<'tcx>) -> bool {
        mentions(t).into_iter().any(|x| matches!(x.kind(), ty::Adt(d, _) if self.heap_crate(d.did())))
    }
    fn heap_crate(&self, d: DefId) -> bool {
        matches!(self.tcx.crate_name(d.krate).as_str(), "alloc" | "std") && d.krate != LOCAL_CRATE
    }

    /// why a call may allocate
    fn may_allocate(&self, d: DefId, args: ty::GenericArgsRef<'tcx>, integrated: &[String]) -> Option<String> {
        let tcx = self.tcx;
        let name = tcx.crate_name(d.krate).to_string();
        let item = tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default();
        if tcx.is_foreign_item(d) {
            return (!item.contains("trigger")).then(|| "a foreign function".into());
        }
        if d.krate == LOCAL_CRATE {
            return None;
        }
        if integrated.contains(&name) {
            return None;
        }
        match name.as_str() {
            "core" => {
                for (c, _) in tcx.clauses_of(d).instantiate(tcx, args) {
                    if let Some(t) = c.skip_norm_wip().as_trait_clause() {
                        let r = t.skip_binder().trait_ref;
                        // conversion of a value to its own type
                        let tn = tcx.item_name(r.def_id).to_string();
                        if matches!(tn.as_str(), "From" | "Into") && r.args.len() == 2 && r.args.type_at(0) == r.args.type_at(1) {
                            continue;
                        }
                        if integrated.contains(&tcx.crate_name(r.def_id.krate).to_string()) {
                            continue;
                        }
                        if let ty::Adt(a, _) = r.self_ty().peel_refs().kind() {
                            if self.heap_crate(a.did()) && !LOOK_TRAITS.contains(&tn.as_str()) {
                                return Some(format!("uses {} of the heap type {}", tn, r.self_ty()));
                            }
                        }
                        if r.args.types().skip(1).any(|x| matches!(x.kind(), ty::Adt(a, _) if self.heap_crate(a.did()))) && matches!(tn.as_str(), "Into" | "TryInto" | "ToOwned" | "Sum" | "Product") {
                            return Some(format!("converts to a heap type with {}", tn));
                        }
                    }
                }
                None
            }
            "alloc" | "std" => (!LOOKS.contains(&item.as_str())).then(|| format!("belongs to the crate {}", name)),
            "compiler_builtins" => None,
            x => Some(format!("belongs to the crate {}", x)),
        }
    }

    pub fn effect_rules(&mut self) {
        let tcx = self.tcx;
        let feats: Vec<String> = tcx.sess.config.iter().filter(|(k, _)| k.as_str() == "feature").filter_map(|(_, v)| v.map(|v| v.to_string())).collect();
        let has = |f: &str| feats.iter().any(|x| x == f);
        let mut integrated: Vec<String> = vec![];
        for (f, c) in [("logs", &["log"][..]), ("serde-traits", &["serde", "serde_core"]), ("diesel-traits", &["diesel"]), ("no-panic", &["no_panic"])] {
            if has(f) {
                integrated.extend(c.iter().map(|x| x.to_string()));
            }
        }
        let mut bodies = 0;
        for l in tcx.mir_keys(()) {
            let d = l.to_def_id();
            let body: &mir::Body<'tcx> = match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(d),
                DefKind::Ctor(..) => continue,
                _ => tcx.mir_for_ctfe(d),
            };
            bodies += 1;
            let mut v = Calls { tcx, span: body.span, found: vec![], asm: vec![] };
            v.visit_body(body);
            for p in tcx.promoted_mir(d).iter() {
                v.visit_body(p);
            }
            for i in 0..body.local_decls.len() {
                v.span = body.local_decls[mir::Local::from_usize(i)].source_info.span;
                v.ty(body.local_decls[mir::Local::from_usize(i)].ty);
            }
            for s in std::mem::take(&mut v.asm) {
                let p = self.path(d);
                self.bad("L02", "allocation", &p, self.site(s), "contains assembly".into());
            }
            let mut seen = std::collections::HashSet::new();
            for (c, a, s) in v.found {
                if !seen.insert((c, a)) {
                    continue;
                }
                self.count("L02 callees classified", 1);
                if let Some(why) = self.may_allocate(c, a, &integrated) {
                    let p = self.path(d);
                    let m = format!("calls {}, which {} and may allocate", tcx.def_path_str_with_args(c, a), why);
                    self.bad("L02", "allocation", &p, self.site(s), m);
                }
            }
        }
        self.count("L02 bodies inspected", bodies);
        // what an instance without the standard library links
        if !has("std") {
            let mut ok: Vec<String> = vec!["core".into(), "compiler_builtins".into()];
            ok.extend(integrated.iter().cloned());
            let feature_deps = ["serde-traits", "diesel-traits", "logs", "no-panic"].iter().any(|f| has(f));
            for c in tcx.crates(()) {
                let n = tcx.crate_name(*c).to_string();
                self.count("L02 linked crates inspected", 1);
                // an integrated crate brings its own dependencies
                if !ok.contains(&n) && !feature_deps {
                    self.bad("L02", "links the standard library", &n, String::new(), format!("the crate {} is linked although the default feature is off", n));
                }
            }
            if !feature_deps && !tcx.crates(()).iter().any(|c| tcx.crate_name(*c).as_str() == "core") {
                self.bad("L02", "missing", "core", String::new(), "the library core is not linked".into());
            }
        }
    }
}
