//! Type-level rules (L01, L03): layouts, usable capacities, auto traits, reachability of the representation.

use crate::interp::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::ty::{self, GenericArgs, Ty, TypeSuperVisitable, TypeVisitable, TypeVisitor, TypingEnv};
use rustc_trait_selection::infer::InferCtxtExt;

/// the types mentioned in a type, not entering the definitions of structs
struct Mentions<'tcx> {
    found: Vec<Ty<'tcx>>,
}
impl<'tcx> TypeVisitor<ty::TyCtxt<'tcx>> for Mentions<'tcx> {
    type Result = ();
    fn visit_ty(&mut self, t: Ty<'tcx>) {
        self.found.push(t);
        t.super_visit_with(self)
    }
}
pub fn mentions<'tcx>(t: impl TypeVisitable<ty::TyCtxt<'tcx>>) -> Vec<Ty<'tcx>> {
    let mut m = Mentions { found: vec![] };
    t.visit_with(&mut m);
    m.found
}

impl<'tcx> Cx<'tcx> {
    pub fn bad(&mut self, prop: &'static str, rule: &str, entry: &str, site: String, msg: String) {
        self.sink.push(Viol { prop, rule: rule.into(), msg, entry: entry.into(), site, trace: vec![], unknown: false });
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_default() += n;
    }

    fn usize_const(&self, k: u64) -> ty::GenericArg<'tcx> {
        match Ty::new_array(self.tcx, self.tcx.types.u8, k).kind() {
            ty::Array(_, c) => (*c).into(),
            _ => unreachable!(),
        }
    }
    /// the arguments of an item with its (only) usize parameter set to k
    fn args_at(&self, def: DefId, k: u64) -> &'tcx ty::List<ty::GenericArg<'tcx>> {
        let c = self.usize_const(k);
        GenericArgs::for_item(self.tcx, def, |p, _| match p.kind {
            ty::GenericParamDefKind::Const { .. } => c,
            _ => self.tcx.mk_param_from_def(p),
        })
    }
    fn consts_of(&self, def: DefId) -> usize {
        let g = self.tcx.generics_of(def);
        let mut n = g.own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Const { .. })).count();
        if let Some(p) = g.parent {
            n += self.consts_of(p);
        }
        n
    }
    fn local_adt(&self, name: &str) -> Option<DefId> {
        let tcx = self.tcx;
        tcx.hir_crate_items(()).definitions().map(|d| d.to_def_id()).find(|d| tcx.def_kind(*d) == DefKind::Struct && tcx.item_name(*d).as_str() == name)
    }
    fn layout(&self, t: Ty<'tcx>) -> Option<(u64, u64)> {
        let l = self.tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)).ok()?;
        Some((l.size.bytes(), l.align.abi.bytes()))
    }
    /// can the types an item is instantiated with satisfy its bounds?
    fn usable(&self, def: DefId, k: u64) -> bool {
        !self.tcx.instantiate_and_check_impossible_clauses((def, self.args_at(def, k)))
    }
    /// structs of this crate that hold a string (directly or inside another one), any number of levels
    fn holds_string(&self, t: Ty<'tcx>, depth: usize) -> bool {
        mentions(t).into_iter().any(|t| match t.kind() {
            ty::Adt(d, a) if d.did().is_local() && depth < 6 => {
                self.is_array_string(t) || d.all_fields().any(|f| self.holds_string(f.ty(self.tcx, a).skip_norm_wip(), depth + 1))
            }
            _ => false,
        })
    }

    pub fn type_rules(&mut self) {
        self.capacities();
        self.layouts();
        self.plain_values();
        self.sealed_representation();
    }

    // ------------------------------------------------------------------------------------------ L01

    fn capacities(&mut self) {
        let outside: Vec<u64> = vec![0, 256, 257, 258, 260, 300, 383, 384, 500, 511, 512, 513, 640, 767, 768, 1000, 1024, 4096, 65535, 65536, 65537, 1 << 20, 1 << 32, u64::MAX];
        let mut makers = 0;
        for e in self.entries() {
            if e.derived || self.consts_of(e.def) != 1 || !(e.self_name == "ArrayString" || e.self_name == "Drain") {
                continue;
            }
            let no: Vec<u64> = (1..=255).filter(|k| !self.usable(e.def, *k)).collect();
            self.count("L01 operations usable at a capacity of 1 to 255", 255);
            if !no.is_empty() {
                let m = format!("cannot be used with capacity {} ({} of the capacities 1 to 255 are refused)", no[0], no.len());
                self.bad("L01", "capacity refused", &e.label, e.site.clone(), m);
            }
            // an operation that produces a string without being given one decides which capacities exist
            let out: Vec<Ty<'tcx>> = mentions(e.output);
            let makes = out.iter().any(|t| self.holds_string(*t, 0));
            let given = e.inputs.iter().any(|t| self.holds_string(*t, 0));
            if makes && !given {
                makers += 1;
                let yes: Vec<u64> = outside.iter().copied().filter(|k| self.usable(e.def, *k)).collect();
                self.count("L01 constructors refused at a capacity outside 1 to 255", outside.len() as u64);
                if !yes.is_empty() {
                    self.bad("L01", "capacity accepted", &e.label, e.site.clone(), format!("creates strings of capacity {}, which is not between 1 and 255", yes[0]));
                }
            }
        }
        if makers == 0 {
            self.bad("L01", "missing", "ArrayString", String::new(), "no constructor of ArrayString found".into());
        }
    }

    fn layouts(&mut self) {
        let tcx = self.tcx;
        match self.local_adt("ArrayString") {
            Some(d) => {
                let site = self.site(tcx.def_span(d));
                for k in 1..=255u64 {
                    let t = Ty::new_adt(tcx, tcx.adt_def(d), self.args_at(d, k));
                    self.count("L01 layouts computed", 1);
                    match self.layout(t) {
                        Some((s, a)) if s == k + 1 && a == 1 => {}
                        x => {
                            self.bad("L01", "layout", "ArrayString", site.clone(), format!("capacity {}: (size, alignment) is {:?} instead of ({}, 1)", k, x, k + 1));
                            break;
                        }
                    }
                }
            }
            None => self.bad("L01", "missing", "ArrayString", String::new(), "the type is gone".into()),
        }
        match self.local_adt("CacheString") {
            Some(d) => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let site = self.site(tcx.def_span(d));
                self.count("L01 layouts computed", 1);
                match self.layout(t) {
                    Some((64, 64)) => {}
                    x => self.bad("L01", "layout", "CacheString", site.clone(), format!("(size, alignment) is {:?} instead of (64, 64)", x)),
                }
                // the string inside has capacity 63
                let ok = tcx.adt_def(d).all_fields().any(|f| match f.ty(tcx, GenericArgs::identity_for_item(tcx, d)).skip_norm_wip().kind() {
                    ty::Adt(a, args) if tcx.item_name(a.did()).as_str() == "ArrayString" => {
                        args.consts().next().and_then(|c| tcx.normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(c)).try_to_target_usize(tcx)) == Some(63)
                    }
                    _ => false,
                });
                if !ok {
                    self.bad("L01", "capacity", "CacheString", site, "does not hold a string of capacity 63".into());
                }
            }
            None => self.bad("L01", "missing", "CacheString", String::new(), "the type is gone".into()),
        }
        let ptr = tcx.data_layout.pointer_size().bytes();
        for (name, want) in [("SmallString", 3 * ptr + 1), ("MaxString", 256)] {
            let alias = tcx.hir_crate_items(()).definitions().map(|d| d.to_def_id()).find(|d| tcx.def_kind(*d) == DefKind::TyAlias && tcx.item_name(*d).as_str() == name);
            let Some(d) = alias else {
                self.bad("L01", "missing", name, String::new(), "the type is gone".into());
                continue;
            };
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let t = tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(t)).unwrap_or(t);
            self.count("L01 layouts computed", 1);
            let l = self.layout(t);
            if l != Some((want, 1)) || !self.is_array_string(t) {
                self.bad("L01", "layout", name, self.site(tcx.def_span(d)), format!("(size, alignment) is {:?} instead of ({}, 1)", l, want));
            }
        }
    }

    // ------------------------------------------------------------------------------------------ L03

    fn implements(&self, t: Ty<'tcx>, tr: DefId) -> bool {
        let infcx = self.tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
        infcx.type_implements_trait(tr, [t], ty::ParamEnv::empty()).must_apply_modulo_regions()
    }

    fn plain_values(&mut self) {
        let tcx = self.tcx;
        let env = TypingEnv::fully_monomorphized();
        let diag = |n: &str| tcx.get_diagnostic_item(rustc_span::Symbol::intern(n));
        let lang = tcx.lang_items();
        let auto: Vec<(&str, Option<DefId>)> =
            vec![("Copy", lang.copy_trait()), ("Clone", lang.clone_trait()), ("Send", diag("Send")), ("Sync", lang.sync_trait()), ("Unpin", lang.unpin_trait())];
        for name in ["ArrayString", "CacheString", "Drain"] {
            let Some(d) = self.local_adt(name) else {
                self.bad("L03", "missing", name, String::new(), "the type is gone".into());
                continue;
            };
            let site = self.site(tcx.def_span(d));
            let ks: Vec<u64> = if self.consts_of(d) == 1 { (1..=255).collect() } else { vec![0] };
            'k: for k in ks {
                let t = if k == 0 { tcx.type_of(d).instantiate_identity().skip_norm_wip() } else { Ty::new_adt(tcx, tcx.adt_def(d), self.args_at(d, k)) };
                for (n, tr) in &auto {
                    self.count("L03 auto traits and copyability resolved", 1);
                    let Some(tr) = tr else { continue };
                    if !self.implements(t, *tr) {
                        self.bad("L03", "not plain", name, site.clone(), format!("{} is not {}", t, n));
                        break 'k;
                    }
                }
                self.count("L03 drop and interior mutability", 2);
                if t.needs_drop(tcx, env) {
                    self.bad("L03", "not plain", name, site.clone(), format!("{} has a destructor", t));
                    break 'k;
                }
                if !t.is_freeze(tcx, env) {
                    self.bad("L03", "not plain", name, site.clone(), format!("{} has interior mutability", t));
                    break 'k;
                }
            }
            // no references or pointers inside: copies cannot share anything
            let mut seen = std::collections::HashSet::new();
            let mut work = vec![tcx.type_of(d).instantiate_identity().skip_norm_wip()];
            while let Some(t) = work.pop() {
                for x in mentions(t) {
                    match x.kind() {
                        ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..) | ty::Dynamic(..) => {
                            self.bad("L03", "not plain", name, site.clone(), format!("holds a {}", x));
                        }
                        ty::Adt(a, args) if seen.insert(a.did()) => {
                            for f in a.all_fields() {
                                self.count("L03 fields inspected", 1);
                                work.push(f.ty(tcx, args).skip_norm_wip());
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        // shared state behind the strings' back
        for d in tcx.hir_body_owners() {
            if let DefKind::Static { mutability, .. } = tcx.def_kind(d) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                self.count("L03 statics inspected", 1);
                if mutability.is_mut() || !t.is_freeze(tcx, env) {
                    let m = format!("a static holds mutable state of type {}", t);
                    self.bad("L03", "shared state", &self.path(d.to_def_id()), self.site(tcx.def_span(d)), m);
                }
            }
        }
    }

    fn raw_bytes(&self, t: Ty<'tcx>) -> bool {
        let u8s = |x: Ty<'tcx>| match x.kind() {
            ty::Uint(ty::UintTy::U8) => true,
            ty::Adt(d, a) if matches!(self.tcx.item_name(d.did()).as_str(), "MaybeUninit" | "Cell" | "UnsafeCell" | "ManuallyDrop") => a.types().next() == Some(self.tcx.types.u8),
            _ => false,
        };
        let bytes = |x: Ty<'tcx>| match x.kind() {
            ty::Slice(e) | ty::Array(e, _) => u8s(*e),
            _ => u8s(x),
        };
        match t.kind() {
            ty::Ref(_, x, m) => m.is_mut() && bytes(*x),
            ty::RawPtr(x, m) => m.is_mut() && (bytes(*x) || x.is_str() || self.holds_string(*x, 0)),
            ty::Adt(d, a) => {
                let n = self.tcx.item_name(d.did());
                match n.as_str() {
                    "NonNull" | "AtomicPtr" => a.types().any(|x| bytes(x) || x.is_str() || self.holds_string(x, 0)),
                    "IterMut" | "ChunksMut" | "ChunksExactMut" | "SplitMut" | "RChunksMut" => !d.did().is_local() && a.types().any(bytes),
                    _ => false,
                }
            }
            _ => false,
        }
    }

    fn sealed_representation(&mut self) {
        let tcx = self.tcx;
        let vis = tcx.effective_visibilities(());
        // fields
        for d in tcx.hir_crate_items(()).definitions() {
            if !matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Union | DefKind::Enum) {
                continue;
            }
            let adt = tcx.adt_def(d);
            let me = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            if !self.holds_string(me, 0) {
                continue;
            }
            for f in adt.all_fields() {
                self.count("L03 fields inspected", 1);
                let t = f.ty(tcx, GenericArgs::identity_for_item(tcx, d.to_def_id())).skip_norm_wip();
                let open = match f.did.as_local() {
                    Some(l) => vis.is_reachable(l) && f.vis.is_public(),
                    None => false,
                };
                if open && !self.holds_string(t, 0) {
                    let m = format!("field `{}` of type {} can be written from outside the crate", f.name, t);
                    self.bad("L03", "open representation", &self.path(d.to_def_id()), self.site(tcx.def_span(f.did)), m);
                }
            }
        }
        // signatures of everything safe that can be reached from outside
        let mut todo: Vec<(DefId, bool)> = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let def = d.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn => todo.push((def, vis.is_reachable(d))),
                DefKind::AssocFn => {
                    let p = tcx.parent(def);
                    let r = match tcx.def_kind(p) {
                        DefKind::Impl { of_trait: true } => true,
                        _ => vis.is_reachable(d) && tcx.visibility(def).is_public(),
                    };
                    todo.push((def, r));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    if vis.is_reachable(d) {
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        if mentions(t).into_iter().any(|x| self.raw_bytes(x)) {
                            self.bad("L03", "open representation", &self.path(def), self.site(tcx.def_span(d)), format!("exposes {}", t));
                        }
                    }
                }
                _ => {}
            }
        }
        for (def, open) in todo {
            if !open {
                continue;
            }
            let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
            if !sig.safety().is_safe() {
                continue;
            }
            self.count("L03 reachable signatures inspected", 1);
            let sig = sig.skip_binder();
            let given: Vec<Ty<'tcx>> = sig.inputs().iter().flat_map(|t| mentions(*t)).collect();
            // only a string (or what borrows one) can lead to its bytes
            let env = TypingEnv::post_analysis(tcx, def);
            let out = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(sig.output())).unwrap_or(sig.output());
            let strings = sig.inputs().iter().any(|t| self.holds_string(*t, 0));
            let mut exposed: Vec<Ty<'tcx>> = if strings { mentions(out).into_iter().filter(|x| self.raw_bytes(*x) && !given.contains(x)).collect() } else { vec![] };
            // closures that are handed something
            if strings {
                for (c, _) in tcx.clauses_of(def).instantiate_identity(tcx) {
                    let c = c.skip_norm_wip();
                    if let Some(t) = c.as_trait_clause() {
                        let tr = t.skip_binder().trait_ref;
                        if tcx.fn_trait_kind_from_def_id(tr.def_id).is_some() {
                            exposed.extend(tr.args.types().skip(1).flat_map(|a| mentions(a)).filter(|x| self.raw_bytes(*x)));
                        }
                    }
                }
                for t in sig.inputs() {
                    for x in mentions(*t) {
                        if let ty::FnPtr(s, _) = x.kind() {
                            exposed.extend(s.skip_binder().inputs().iter().flat_map(|a| mentions(*a)).filter(|x| self.raw_bytes(*x)));
                        }
                    }
                }
            }
            if let Some(x) = exposed.first() {
                let m = format!("safe code outside the crate gets a {} into the string", x);
                self.bad("L03", "open representation", &self.path(def), self.site(tcx.def_span(def)), m);
            }
        }
    }
}
