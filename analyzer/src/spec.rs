//! What every public operation has to do: contracts over the abstract states at entry and exit.

use crate::dom::*;
use crate::interp::*;
use crate::lin::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, GenericArgs, Instance, Ty, TypingEnv};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Kind {
    Str,
    Cache,
    Drain,
    Err,
    Other,
}

#[derive(Clone)]
pub struct Entry<'tcx> {
    pub def: DefId,
    pub kind: Kind,
    pub self_name: String,
    /// trait with its type arguments, empty for inherent functions
    pub tr: String,
    pub name: String,
    pub label: String,
    pub site: String,
    pub self_ty: Option<Ty<'tcx>>,
    pub inputs: Vec<Ty<'tcx>>,
    pub output: Ty<'tcx>,
    pub params: Vec<String>,
    pub contract: Option<Contract>,
    pub derived: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Contract {
    Empty,
    Capacity,
    Len,
    IsEmpty,
    View,
    ViewMut,
    Inner,
    CloneOf,
    CloneFrom,
    WrapOf,
    StrictNew,
    TruncNew,
    StrictPush,
    TruncPush,
    TruncAdd,
    IterStrict,
    IterTrunc,
    IterExtend,
    Utf16Strict,
    Utf16Trunc,
    Utf16Lossy,
    Insert,
    InsertTrunc,
    Replace,
    Remove,
    Truncate,
    SplitOff,
    Drain,
    Pop,
    First,
    Trim,
    Retain,
    Clear,
    Eq(bool),
    Cmp,
    PartialCmp,
    Rel(&'static str),
    Hash,
    Display,
    Debug,
    Index,
    SizeHint,
    Last,
    Serialize,
    Deserialize,
    FromSql,
    ToSql,
    ErrFrom,
    ErrEq(bool),
    ErrHash,
    ErrPrint,
}

use Contract::*;

pub fn contract_of(kind: Kind, tr: &str, name: &str) -> Option<Contract> {
    let t = tr.split('<').next().unwrap();
    Some(match (kind, t, name) {
        (Kind::Str | Kind::Cache, "", n) => match n {
            "new" => Empty,
            "capacity" => Capacity,
            "len" => Len,
            "is_empty" => IsEmpty,
            "as_str" | "as_bytes" => View,
            "as_mut_str" => ViewMut,
            "try_from_str" => StrictNew,
            "from_str_truncate" => TruncNew,
            "try_from_iterator" | "try_from_chars" => IterStrict,
            "from_iterator_truncate" | "from_chars_truncate" => IterTrunc,
            "try_from_utf16" => Utf16Strict,
            "from_utf16_truncate" => Utf16Trunc,
            "from_utf16_lossy_truncate" => Utf16Lossy,
            "try_push_str" | "try_push" => StrictPush,
            "push_str_truncate" => TruncPush,
            "truncate" => Truncate,
            "pop" => Pop,
            "trim" => Trim,
            "remove" => Remove,
            "retain" => Retain,
            "try_insert" | "try_insert_str" => Insert,
            "insert_str_truncate" => InsertTrunc,
            "split_off" => SplitOff,
            "clear" => Clear,
            "drain" => Drain,
            "replace_range" => Replace,
            _ => return None,
        },
        (Kind::Drain, "", "as_str") => View,
        (Kind::Str | Kind::Cache | Kind::Drain, _, n) => match (t, n) {
            ("Default", "default") => Empty,
            ("Clone", "clone") => CloneOf,
            ("Clone", "clone_from") => CloneFrom,
            ("AsRef", "as_ref") | ("Borrow", "borrow") => View,
            ("AsMut", "as_mut") | ("BorrowMut", "borrow_mut") => ViewMut,
            ("Deref", "deref") => {
                if kind == Kind::Cache {
                    Inner
                } else {
                    View
                }
            }
            ("DerefMut", "deref_mut") => {
                if kind == Kind::Cache {
                    Inner
                } else {
                    ViewMut
                }
            }
            ("From", "from") if tr == "From<&str>" => TruncNew,
            ("From", "from") => WrapOf,
            ("FromStr", "from_str") => StrictNew,
            ("Write", "write_str") | ("Write", "write_char") => StrictPush,
            ("Add", "add") => TruncAdd,
            ("AddAssign", "add_assign") => TruncPush,
            ("FromIterator", "from_iter") => IterTrunc,
            ("Extend", "extend") => IterExtend,
            ("PartialEq", "eq") => Eq(true),
            ("PartialEq", "ne") => Eq(false),
            ("Ord", "cmp") => Cmp,
            ("PartialOrd", "partial_cmp") => PartialCmp,
            ("PartialOrd", "lt") => Rel("lt"),
            ("PartialOrd", "le") => Rel("le"),
            ("PartialOrd", "gt") => Rel("gt"),
            ("PartialOrd", "ge") => Rel("ge"),
            ("Hash", "hash") => Hash,
            ("Display", "fmt") => Display,
            ("Debug", "fmt") => Debug,
            ("Index", "index") | ("IndexMut", "index_mut") => Index,
            ("Iterator", "next") if kind == Kind::Drain => First,
            ("Iterator", "last") if kind == Kind::Drain => Last,
            ("Iterator", "size_hint") if kind == Kind::Drain => SizeHint,
            ("DoubleEndedIterator", "next_back") if kind == Kind::Drain => Pop,
            ("Serialize", "serialize") => Serialize,
            ("Deserialize", "deserialize") => Deserialize,
            ("FromSql", "from_sql") => FromSql,
            ("ToSql", "to_sql") => ToSql,
            _ => return None,
        },
        (Kind::Err, "From", "from") => ErrFrom,
        (Kind::Err, "PartialEq", "eq") => ErrEq(true),
        (Kind::Err, "PartialEq", "ne") => ErrEq(false),
        (Kind::Err, "Hash", "hash") => ErrHash,
        (Kind::Err, "Display", "fmt") | (Kind::Err, "Debug", "fmt") => ErrPrint,
        _ => return None,
    })
}

/// the properties a contract decides (besides S01..S05)
pub fn props_of(k: Kind, c: Contract) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = match c {
        Empty | Capacity | Len | IsEmpty | View | ViewMut | CloneOf | CloneFrom | Inner | WrapOf => vec!["V01"],
        StrictNew | IterStrict => vec!["A02"],
        StrictPush => vec!["A02", "A01"],
        TruncNew | TruncPush | TruncAdd => vec!["A03"],
        IterTrunc | IterExtend => vec!["A08"],
        Utf16Strict | Utf16Trunc | Utf16Lossy => vec!["A07"],
        Insert | Replace | Remove | Truncate | SplitOff => vec!["A04", "A05", "A01"],
        Drain => vec!["A04", "A05", "A01", "D01"],
        InsertTrunc => vec!["A03", "A04", "A05", "A01"],
        Pop if k == Kind::Drain => vec!["D01"],
        Pop => vec!["A06", "A01"],
        First | Last | SizeHint => vec!["D01"],
        Trim | Retain | Clear => vec!["A06"],
        Eq(_) | Cmp | PartialCmp | Rel(_) | Hash => vec!["V02"],
        Display | Debug => vec!["V03"],
        Index => vec!["V04"],
        Serialize | Deserialize => vec!["I01"],
        FromSql | ToSql => vec!["I02"],
        ErrFrom | ErrEq(_) | ErrHash | ErrPrint => vec!["E01"],
    };
    match k {
        Kind::Cache => v.push("C01"),
        Kind::Drain if !v.contains(&"D01") => v.push("D01"),
        _ => {}
    }
    v
}

/// operations that have to exist: (kind, trait, name, feature)
pub const REQUIRED: &[(&str, &str, &[&str])] = &[
    (
        "ArrayString",
        "",
        &[
            "new", "capacity", "len", "as_str", "as_mut_str", "try_from_str", "from_str_truncate", "try_from_iterator", "try_from_chars",
            "from_iterator_truncate", "from_chars_truncate", "try_from_utf16", "from_utf16_truncate", "from_utf16_lossy_truncate", "try_push_str",
            "try_push", "push_str_truncate", "truncate", "pop", "trim", "remove", "retain", "try_insert", "try_insert_str", "insert_str_truncate",
            "split_off", "clear", "drain", "replace_range",
        ],
    ),
    (
        "CacheString",
        "",
        &[
            "new", "capacity", "try_from_str", "from_str_truncate", "try_from_iterator", "try_from_chars", "from_iterator_truncate",
            "from_chars_truncate", "try_from_utf16", "from_utf16_truncate", "from_utf16_lossy_truncate", "split_off",
        ],
    ),
];

#[derive(Clone, Debug)]
pub struct Fail {
    pub prop: &'static str,
    pub rule: &'static str,
    pub msg: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Errk {
    Oob,
    Utf8,
    Utf16,
    Other,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum OutK {
    Ret,
    Unwind,
    Panic,
}

pub struct EntryReport {
    pub label: String,
    pub site: String,
    pub props: Vec<&'static str>,
    pub mode: Mode,
    pub paths: usize,
    pub rets: usize,
    pub unwinds: usize,
    pub panics: usize,
    pub checks: u64,
    /// not an override of a provided trait method, and decided by a contract
    pub required: bool,
    pub gave_up: Option<String>,
    pub ms: u128,
}

fn whole_str(t: &Text) -> Option<StrId> {
    match t.first().map(|p| p.src) {
        Some(Src::Str(s)) => Some(s),
        _ => None,
    }
}

impl<'tcx> Cx<'tcx> {
    // ------------------------------------------------------------------------------------------ entries

    fn ty_label(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty_label(*t)),
            ty::Slice(t) => format!("[{}]", self.ty_label(*t)),
            _ => self.ty_short(t),
        }
    }

    pub fn entries(&self) -> Vec<Entry<'tcx>> {
        let tcx = self.tcx;
        let mut v = vec![];
        for d in tcx.hir_body_owners() {
            let def = d.to_def_id();
            let dk = tcx.def_kind(def);
            if !matches!(dk, DefKind::AssocFn | DefKind::Fn) {
                continue;
            }
            let parent = tcx.parent(def);
            let mut tr = String::new();
            let mut self_ty = None;
            let mut kind = Kind::Other;
            let mut derived = false;
            let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
            if !sig.safety().is_safe() {
                continue;
            }
            let public;
            match tcx.def_kind(parent) {
                DefKind::Impl { of_trait } => {
                    let t = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                    let ty::Adt(a, _) = t.kind() else { continue };
                    if !a.did().is_local() {
                        continue;
                    }
                    self_ty = Some(t);
                    kind = match tcx.item_name(a.did()).as_str() {
                        "ArrayString" => Kind::Str,
                        "CacheString" => Kind::Cache,
                        "Drain" => Kind::Drain,
                        "Error" | "Utf8" | "Utf16" | "OutOfBounds" => Kind::Err,
                        _ => Kind::Other,
                    };
                    if kind == Kind::Other && !tcx.visibility(a.did()).is_public() {
                        continue;
                    }
                    if of_trait {
                        let r = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                        let kr = self.crate_of(r.def_id);
                        derived = tcx.def_span(parent).from_expansion() || tcx.is_automatically_derived(parent);
                        // code generated by diesel's derives only names the type for the query builder
                        if kr == "diesel" && derived {
                            continue;
                        }
                        let args: Vec<String> = r.args.types().skip(1).filter(|x| *x != t).map(|x| self.ty_label(x)).collect();
                        tr = tcx.item_name(r.def_id).to_string();
                        let generic = matches!(tr.as_str(), "FromSql" | "ToSql");
                        if !args.is_empty() && !generic {
                            tr = format!("{}<{}>", tr, args.join(","));
                        }
                        if tr == "StructuralPartialEq" || tr == "Eq" {
                            continue;
                        }
                        public = true;
                    } else {
                        public = tcx.visibility(def).is_public();
                    }
                }
                DefKind::Trait => continue,
                _ => {
                    public = tcx.effective_visibilities(()).is_reachable(d);
                }
            }
            if !public {
                continue;
            }
            let name = tcx.item_name(def).to_string();
            let sig = tcx.liberate_late_bound_regions(def, sig);
            let env = TypingEnv::post_analysis(tcx, def);
            let norm = |t: Ty<'tcx>| tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)).unwrap_or(t);
            let inputs: Vec<Ty<'tcx>> = sig.inputs().iter().map(|t| norm(*t)).collect();
            let output = norm(sig.output());
            let self_name = self_ty.map(|t| self.ty_short(t)).unwrap_or_default();
            let label = match (self_ty, tr.is_empty()) {
                (Some(_), true) => format!("{}::{}", self_name, name),
                (Some(_), false) => format!("<{} as {}>::{}", self_name, tr, name),
                (None, _) => name.clone(),
            };
            let params: Vec<String> = tcx.fn_arg_idents(def).iter().map(|i| i.map(|x| x.to_string()).unwrap_or_default()).collect();
            let contract = contract_of(kind, &tr, &name);
            v.push(Entry { def, kind, self_name, tr, name, label, site: self.site(tcx.def_span(def)), self_ty, inputs, output, params, contract, derived });
        }
        v.sort_by(|a, b| (a.kind, &a.label).cmp(&(b.kind, &b.label)));
        v
    }

    pub fn entry_props(&self, e: &Entry<'tcx>) -> Vec<&'static str> {
        let mut v = vec!["S01", "S02", "S03", "S04", "S05"];
        if let Some(c) = e.contract {
            v.extend(props_of(e.kind, c));
        } else if e.kind == Kind::Cache {
            v.push("C01");
        }
        v
    }

    // ------------------------------------------------------------------------------------------ initial states

    /// names of the traits (with arguments) a type parameter is bound by
    fn bounds(&self, def: DefId, t: Ty<'tcx>) -> Vec<(String, Vec<Ty<'tcx>>)> {
        let preds = self.tcx.clauses_of(def).instantiate_identity(self.tcx);
        let mut v = vec![];
        for (c, _) in preds {
            let c = c.skip_norm_wip();
            if let Some(tp) = c.as_trait_clause() {
                let tr = tp.skip_binder().trait_ref;
                if tr.self_ty() == t {
                    v.push((self.tcx.item_name(tr.def_id).to_string(), tr.args.types().skip(1).collect()));
                }
            }
        }
        v
    }

    pub fn is_stringish(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Adt(d, a) if d.did().is_local() && d.is_struct() => {
                self.is_array_string(t)
                    || (d.non_enum_variant().fields.len() == 1 && self.is_stringish(self.norm_ty(d.non_enum_variant().fields.iter().next().unwrap().ty(self.tcx, a).skip_norm_wip())))
            }
            _ => false,
        }
    }
    /// path from an object of a string-like type to its fields (bytes, size)
    pub fn role_paths(&self, t: Ty<'tcx>) -> Option<(Vec<Proj>, Vec<Proj>)> {
        if self.is_array_string(t) {
            let (b, z) = self.roles(t)?;
            return Some((vec![Proj::Field(b as u32)], vec![Proj::Field(z as u32)]));
        }
        let ty::Adt(d, a) = t.kind() else { return None };
        if !d.is_struct() {
            return None;
        }
        let f = d.non_enum_variant().fields.iter().next()?;
        let (b, z) = self.role_paths(self.norm_ty(f.ty(self.tcx, a).skip_norm_wip()))?;
        let pre = |v: Vec<Proj>| std::iter::once(Proj::Field(0)).chain(v).collect();
        Some((pre(b), pre(z)))
    }
    fn inner_string_ty(&self, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        if self.is_array_string(t) {
            return Some(t);
        }
        let ty::Adt(d, a) = t.kind() else { return None };
        if !d.is_struct() {
            return None;
        }
        let f = d.non_enum_variant().fields.iter().next()?;
        self.inner_string_ty(self.norm_ty(f.ty(self.tcx, a).skip_norm_wip()))
    }
    pub fn cap_of(&mut self, st: &State, t: Ty<'tcx>) -> Option<Lin> {
        let s = self.inner_string_ty(t)?;
        let (b, _) = self.roles(s)?;
        let ty::Adt(d, a) = s.kind() else { return None };
        let f = d.non_enum_variant().fields.iter().nth(b)?;
        let ty::Array(_, n) = self.norm_ty(f.ty(self.tcx, a).skip_norm_wip()).kind() else { return None };
        self.ct_lin(st, *n).ok()
    }

    fn init(&mut self, e: &Entry<'tcx>) -> Vec<(State, Vec<Val>)> {
        let tcx = self.tcx;
        let mut st = State::new();
        let mut g = Some(tcx.generics_of(e.def));
        while let Some(x) = g {
            for p in &x.own_params {
                if let ty::GenericParamDefKind::Const { .. } = p.kind {
                    let n = st.fresh_int(p.name.as_str(), 1, 255);
                    st.ghost.insert(p.name.as_str().into(), Val::Int(n));
                }
            }
            g = x.parent.map(|p| tcx.generics_of(p));
        }
        if let Some(t) = e.self_ty {
            if let Some(c) = self.cap_of(&st, t) {
                st.ghost.insert("cap".into(), Val::Int(c));
            }
        }
        let mut states = vec![(st, vec![])];
        for (i, t) in e.inputs.clone().into_iter().enumerate() {
            let name = e.params.get(i).cloned().unwrap_or_else(|| format!("arg{}", i));
            let mut next = vec![];
            for (st, vals) in states {
                for (mut s, v) in self.init_arg(e, st, t, i, &name) {
                    s.ghost.insert(format!("arg{}", i).as_str().into(), v.clone());
                    let mut vs: Vec<Val> = vals.clone();
                    vs.push(v);
                    next.push((s, vs));
                }
            }
            states = next;
        }
        states
    }
    fn init_arg(&mut self, e: &Entry<'tcx>, mut st: State, t: Ty<'tcx>, i: usize, name: &str) -> Vec<(State, Val)> {
        // strings, by value or reference
        let base = match t.kind() {
            ty::Ref(_, x, _) => *x,
            _ => t,
        };
        if self.is_stringish(base) {
            let v = self.havoc(&mut st, base, name, 0);
            let o = st.new_obj(v.clone());
            if let Some((b, z)) = self.role_paths(base) {
                let lb = Loc { obj: o, path: b };
                let lz = Loc { obj: o, path: z };
                if let (Some(Val::Bytes(t)), Some(Val::Int(n))) = (st.load(&lb).cloned(), st.load(&lz).cloned()) {
                    st.ghost.insert(format!("P{}", i).as_str().into(), Val::Bytes(vec![t[0].clone()]));
                    st.ghost.insert(format!("p{}", i).as_str().into(), Val::Int(n));
                }
            }
            return if let ty::Ref(..) = t.kind() {
                vec![(st, Val::Ref(Loc::obj(o)))]
            } else {
                st.objs.remove(&o);
                vec![(st, v)]
            };
        }
        // enumerations of this crate: one state per variant
        if let ty::Adt(d, _) = base.kind() {
            if d.did().is_local() && d.is_enum() && d.variants().iter().all(|v| v.fields.is_empty()) {
                let mut out = vec![];
                for k in 0..d.variants().len() as u32 {
                    let mut s = st.clone();
                    let v = Val::Enum(k, vec![]);
                    s.ghost.insert(format!("variant{}", i).as_str().into(), Val::int(k as i128));
                    s.note(format!("{} is {}", name, d.variants().iter().nth(k as usize).unwrap().name));
                    let v = if let ty::Ref(..) = t.kind() {
                        let o = s.new_obj(v);
                        Val::Ref(Loc::obj(o))
                    } else {
                        v
                    };
                    out.push((s, v));
                }
                return out;
            }
        }
        // caller-supplied conversions and ranges
        if let ty::Param(_) = t.kind() {
            let bounds = self.bounds(e.def, t);
            let kind = if bounds.iter().any(|b| matches!(b.0.as_str(), "IntoIterator" | "Iterator")) {
                UKind::Iter
            } else if bounds.iter().any(|b| b.0.starts_with("Fn")) {
                UKind::Pred
            } else {
                UKind::Plain
            };
            let id = self.new_user(&mut st, name, kind);
            let mut states = vec![st];
            if self.mode == Mode::Pure {
                for (tr, args) in &bounds {
                    if tr == "AsRef" {
                        for s in states.iter_mut() {
                            let v = self.havoc_ref(s, args[0], name);
                            let k = if args[0].is_str() { "as_ref" } else { "as_ref:slice" };
                            s.users.get_mut(&id).unwrap().memo.insert(k.into(), v);
                        }
                    }
                    if tr == "RangeBounds" {
                        for end in ["start_bound", "end_bound"] {
                            let mut next = vec![];
                            for s in states {
                                for k in 0..3u32 {
                                    let mut s = s.clone();
                                    s.note(format!("{} {} is {}", name, end, ["Included", "Excluded", "Unbounded"][k as usize]));
                                    let v = if k == 2 {
                                        Val::Enum(2, vec![])
                                    } else {
                                        let i = s.fresh_int(&format!("{}.{}", name, if end == "start_bound" { "start" } else { "end" }), 0, USIZE_MAX);
                                        let o = s.new_obj(Val::Int(i));
                                        Val::Enum(k, vec![Val::Ref(Loc::obj(o))])
                                    };
                                    s.users.get_mut(&id).unwrap().memo.insert(end.into(), v);
                                    next.push(s);
                                }
                            }
                            states = next;
                        }
                    }
                }
            }
            return states.into_iter().map(|s| (s, Val::User(id))).collect();
        }
        let mut v = self.havoc(&mut st, t, name, 0);
        if let (ty::Adt(d, _), Val::Agg(f)) = (t.kind(), &mut v) {
            // an exhausted inclusive range has no specified bounds
            if self.tcx.item_name(d.did()).as_str() == "RangeInclusive" && f.len() == 3 {
                f[2] = Val::b(false);
            }
        }
        vec![(st, v)]
    }

    // ------------------------------------------------------------------------------------------ running an entry

    pub fn has_user_code(&self, e: &Entry<'tcx>) -> bool {
        e.inputs.iter().any(|t| {
            matches!(t.kind(), ty::Param(_))
                && self.bounds(e.def, *t).iter().any(|b| matches!(b.0.as_str(), "AsRef" | "RangeBounds" | "Borrow" | "Deref" | "IntoIterator" | "Iterator" | "ToString" | "Into"))
        })
    }

    fn required(&self, e: &Entry<'tcx>) -> bool {
        let tcx = self.tcx;
        if e.contract.is_none() {
            return false;
        }
        match tcx.trait_item_of(e.def) {
            Some(t) => !tcx.defaultness(t).has_value(),
            None => true,
        }
    }

    pub fn crashed(&mut self, e: &Entry<'tcx>, mode: Mode) -> EntryReport {
        let st = State::new();
        self.entry = e.label.clone();
        self.unknown(&st, "the analyser failed on this function".into(), &e.site);
        EntryReport {
            label: e.label.clone(),
            site: e.site.clone(),
            props: self.entry_props(e),
            mode,
            paths: 0,
            rets: 0,
            unwinds: 0,
            panics: 0,
            checks: 0,
            required: self.required(e),
            gave_up: Some("crashed".into()),
            ms: 0,
        }
    }
    /// Each of the ways below is sound: what one of them proves holds.
    pub fn run_entry(&mut self, e: &Entry<'tcx>, mode: Mode) -> EntryReport {
        if let Some(r) = self.done.remove(&(e.def, mode)) {
            return r;
        }
        let first = self.sink.len();
        crate::au::SECOND.with(|s| s.set(false));
        self.use_sums = false;
        let secs = self.entry_secs;
        self.entry_secs = secs.min(if self.sums.is_empty() { 20 } else { 6 });
        let rep = self.run_entry_once(e, mode);
        self.entry_secs = secs;
        if self.sink.len() == first || self.second_ms > 180_000 {
            return rep;
        }
        let found: Vec<Viol> = self.sink.drain(first..).collect();
        let t = std::time::Instant::now();
        self.use_sums = true;
        self.prove_callees();
        self.use_sums = false;
        self.second_ms += t.elapsed().as_millis();
        if let Some(r) = self.done.remove(&(e.def, mode)) {
            return r;
        }
        // the contracts of called operations instead of their bodies; other ways to guess loop invariants; more time
        for (second, sums, freeze) in
            [(false, true, false), (true, false, true), (true, true, false), (true, false, false), (true, true, true), (false, false, false), (false, false, true), (false, true, true)]
        {
            // the last two ways: loops of a few rounds one round after another
            let unroll = !second && freeze;
            if sums && self.sums.is_empty() || !second && !sums && !unroll && (rep.gave_up.is_none()) {
                continue;
            }
            let freeze = freeze && !unroll;
            crate::au::UNROLL.with(|s| s.set(unroll));
            self.entry_secs = if second || sums || unroll { secs.min(30) } else { secs };
            crate::au::SECOND.with(|s| s.set(second));
            FREEZE.with(|s| s.set(freeze));
            self.use_sums = sums;
            if self.verbose {
                eprintln!("ATTEMPT second {second} sums {sums} freeze {freeze} unroll {unroll}");
            }
            let again = self.run_entry_once(e, mode);
            crate::au::UNROLL.with(|s| s.set(false));
            FREEZE.with(|s| s.set(false));
            self.use_sums = false;
            crate::au::SECOND.with(|s| s.set(false));
            self.entry_secs = secs;
            self.second_ms += again.ms;
            if self.sink.len() == first {
                return again;
            }
            self.sink.truncate(first);
            if self.second_ms > 180_000 {
                break;
            }
        }
        self.sink.extend(found);
        rep
    }
    pub fn run_entry_once(&mut self, e: &Entry<'tcx>, mode: Mode) -> EntryReport {
        let t0 = std::time::Instant::now();
        reset_ids();
        reset_syms();
        FROZEN.with(|f| f.set(0));
        self.mode = mode;
        self.env = TypingEnv::post_analysis(self.tcx, e.def);
        self.entry = e.label.clone();
        self.fuel = std::env::var("AS_FUEL").ok().and_then(|x| x.parse().ok()).unwrap_or(600_000);
        self.deadline = t0 + std::time::Duration::from_secs(self.entry_secs);
        DEADLINE.with(|d| d.set(Some(self.deadline)));
        self.gave_up = None;
        self.stack.clear();
        let first = self.sink.len();
        let props = self.entry_props(e);
        let mut rep =
            EntryReport { label: e.label.clone(), site: e.site.clone(), props, mode, paths: 0, rets: 0, unwinds: 0, panics: 0, checks: 0, required: self.required(e), gave_up: None, ms: 0 };
        let inst = Instance::new_raw(e.def, GenericArgs::identity_for_item(self.tcx, e.def));
        let inits = self.init(e);
        for (st, vals) in inits {
            let outs = self.exec_fn(st, inst, vals, &e.site);
            if self.gave_up.is_some() {
                break;
            }
            for (st, o) in outs {
                if std::time::Instant::now() > self.deadline {
                    self.gave_up = Some("out of time".into());
                    break;
                }
                rep.paths += 1;
                match &o {
                    Out::Ret(_) => rep.rets += 1,
                    Out::Unwind => rep.unwinds += 1,
                    Out::Panic { .. } => rep.panics += 1,
                }
                self.check_out(e, st, o, &mut rep);
            }
        }
        if let Some(g) = self.gave_up.take() {
            rep.gave_up = Some(g.clone());
            let st = State::new();
            self.unknown(&st, g, &e.site);
        }
        DEADLINE.with(|d| d.set(None));
        if rep.paths == 0 && self.sink.len() == first {
            let st = State::new();
            self.unknown(&st, "no path through the function could be analysed".into(), &e.site);
        }
        // remove duplicates
        let mut seen = BTreeSet::new();
        let tail: Vec<Viol> = self.sink.drain(first..).collect();
        for v in tail {
            if seen.insert((v.prop, v.rule.clone(), v.site.clone(), v.msg.chars().take(60).collect::<String>())) {
                self.sink.push(v);
            }
        }
        rep.ms = t0.elapsed().as_millis();
        rep
    }

    fn check_out(&mut self, e: &Entry<'tcx>, st: State, o: Out, rep: &mut EntryReport) {
        let (kind, info) = match &o {
            Out::Ret(_) => (OutK::Ret, None),
            Out::Unwind => (OutK::Unwind, None),
            Out::Panic { msg, site } => (OutK::Panic, Some((msg.clone(), site.clone()))),
        };
        let mut st = st;
        if let Out::Ret(v) = o {
            st.ghost.insert("ret".into(), v);
        }
        if kind == OutK::Panic && e.contract != Some(Contract::Index) {
            let (m, site) = info.clone().unwrap();
            self.viol(&st, "S03", "panic", format!("may panic: {}", m), &site, false);
        }
        let mut work = vec![st];
        let mut n = 0;
        while let Some(st) = work.pop() {
            n += 1;
            if n > 600 || std::time::Instant::now() > self.deadline {
                self.unknown(&st, "too many cases in a contract".into(), &e.site);
                return;
            }
            let mut s = st.clone();
            match self.contract_check(e, &mut s, kind) {
                Ok(fails) => {
                    rep.checks += 1;
                    for f in fails {
                        if self.mode == Mode::Hostile && !f.prop.starts_with('S') {
                            continue;
                        }
                        let mut msg = f.msg;
                        if !s.taint.is_empty() {
                            msg = format!("{} [library calls without a summary on this path: {}]", msg, s.taint.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("; "));
                        }
                        if self.verbose {
                            eprintln!("  FAIL {} {} {}: {} ({:?})", e.label, f.prop, f.rule, msg, kind);
                            dump(&s, &[]);
                            for t in s.trace_vec() {
                                eprintln!("      | {}", t);
                            }
                        }
                        let site = info.as_ref().map(|x| x.1.clone()).unwrap_or_else(|| e.site.clone());
                        self.viol(&s, f.prop, f.rule, msg, &site, false);
                    }
                }
                Err(Need::Split(c)) => {
                    work.extend(st.clone().assume(&c, true));
                    work.extend(st.assume(&c, false));
                }
                Err(Need::Cases(cs)) => {
                    for (l, v, c) in cs {
                        let mut s = st.clone();
                        s.store(&l, v);
                        work.extend(s.assume(&c, true));
                    }
                }
                Err(Need::Unsup(m)) | Err(Need::Ub(m)) => {
                    if self.verbose {
                        eprintln!("  UNKNOWN in contract {}: {}", e.label, m);
                        dump(&st, &[]);
                    }
                    self.unknown(&st, format!("contract: {}", m), &e.site);
                }
            }
        }
    }

    // ------------------------------------------------------------------------------------------ accessors

    fn cap(&self, st: &State) -> R<Lin> {
        match st.ghost.get("cap") {
            Some(Val::Int(l)) => Ok(l.clone()),
            _ => Err(Need::Unsup("capacity".into())),
        }
    }
    fn pre(&self, st: &State, i: usize) -> R<(Text, Lin)> {
        match (st.ghost.get(format!("P{}", i).as_str()), st.ghost.get(format!("p{}", i).as_str())) {
            (Some(Val::Bytes(t)), Some(Val::Int(n))) => Ok((t.clone(), n.clone())),
            _ => Err(Need::Unsup(format!("argument {} is not a string object", i))),
        }
    }
    fn arg(&self, st: &State, i: usize) -> R<Val> {
        st.ghost.get(format!("arg{}", i).as_str()).cloned().ok_or_else(|| Need::Unsup("argument".into()))
    }
    /// full bytes and length of a string-like value
    fn parts(&self, st: &State, v: &Val, t: Ty<'tcx>) -> R<(Text, Val)> {
        let (b, z) = self.role_paths(t).ok_or_else(|| Need::Unsup("string layout".into()))?;
        let get = |p: &[Proj]| {
            let mut v = v;
            for q in p {
                let Proj::Field(i) = q else { return None };
                let Val::Agg(f) = v else { return None };
                v = f.get(*i as usize)?;
            }
            Some(v.clone())
        };
        let _ = st;
        match (get(&b), get(&z)) {
            (Some(Val::Bytes(t)), Some(n)) => Ok((t, n)),
            (x, y) => Err(Need::Unsup(format!("string fields {:?} {:?}", x, y))),
        }
    }
    /// visible text of a string-like value; None: not a valid string
    pub fn visible(&mut self, st: &mut State, v: &Val, t: Ty<'tcx>) -> R<Result<(Text, Lin), String>> {
        let (b, n) = self.parts(st, v, t)?;
        let n = self.as_int(st, &n)?;
        let cap = text_len(&b);
        if !st.decide(&Cond::ge(&cap, &n))? {
            return Ok(Err(format!("length {:?} exceeds the capacity {:?}", n, cap)));
        }
        if !st.decide(&Cond::ge(&n, &Lin::k(0)))? {
            return Ok(Err(format!("length {:?} is negative", n)));
        }
        let t = st.text_slice(&b, &Lin::k(0), &n)?;
        if let Some(why) = st.text_valid(&t)? {
            return Ok(Err(why));
        }
        Ok(Ok((t, n)))
    }
    fn now(&mut self, st: &mut State, e: &Entry<'tcx>, i: usize) -> R<Result<(Text, Lin), String>> {
        let v = match self.arg(st, i)? {
            Val::Ref(l) => st.load(&l).cloned().ok_or_else(|| Need::Unsup("string object".into()))?,
            v => v,
        };
        let t = self.pointee_of(e.inputs[i]);
        self.visible(st, &v, t)
    }
    fn pointee_of(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        match t.kind() {
            ty::Ref(_, x, _) => *x,
            _ => t,
        }
    }
    /// the text an argument stands for
    fn input_text(&mut self, st: &mut State, e: &Entry<'tcx>, i: usize) -> R<Text> {
        let v = self.arg(st, i)?;
        match &v {
            Val::Char(c) => Ok(st.char_text(*c)),
            Val::User(u) => {
                let m = st.users[u].memo.get("as_ref").or_else(|| st.users[u].memo.get("as_ref:slice")).cloned();
                match m {
                    Some(Val::Slice { base, off, len }) => st.slice_text(&base, &off, &len),
                    _ => Err(Need::Unsup("caller-supplied text".into())),
                }
            }
            Val::Slice { base, off, len } => st.slice_text(base, off, len),
            Val::Ref(l) => match st.load(l).cloned() {
                Some(Val::Char(c)) => Ok(st.char_text(c)),
                Some(Val::Slice { base, off, len }) => st.slice_text(&base, &off, &len),
                _ => {
                    let (t, _) = self.pre(st, i)?;
                    Ok(t)
                }
            },
            _ => {
                let _ = e;
                let (t, _) = self.pre(st, i)?;
                Ok(t)
            }
        }
    }
    fn user_arg(&self, st: &State, i: usize) -> R<UserId> {
        match self.arg(st, i)? {
            Val::User(u) => Ok(u),
            _ => Err(Need::Unsup("caller-supplied value".into())),
        }
    }
    fn errk(&self, v: &Val, t: Ty<'tcx>) -> Errk {
        let ty::Adt(d, _) = t.kind() else { return Errk::Other };
        let n = if d.is_enum() {
            match v {
                Val::Enum(k, _) => d.variants().iter().nth(*k as usize).map(|v| v.name.to_string()).unwrap_or_default(),
                _ => String::new(),
            }
        } else if self.crate_of(d.did()) == "core" && self.key(d.did()) == "core:fmt::Error" {
            "OutOfBounds".into()
        } else {
            self.tcx.item_name(d.did()).to_string()
        };
        match n.as_str() {
            "OutOfBounds" => Errk::Oob,
            "Utf8" => Errk::Utf8,
            "Utf16" => Errk::Utf16,
            _ => Errk::Other,
        }
    }
    /// Ok(payload) / Err(kind) of a returned Result
    fn result(&self, st: &State, e: &Entry<'tcx>) -> R<Result<Val, Errk>> {
        let v = st.ghost.get("ret").cloned().unwrap_or(Val::Top);
        let te = match e.output.kind() {
            ty::Adt(_, a) if a.types().count() >= 2 => a.type_at(1),
            _ => return Err(Need::Unsup("result type".into())),
        };
        match v {
            Val::Enum(0, f) => Ok(Ok(f.into_iter().next().unwrap_or(Val::unit()))),
            Val::Enum(1, f) => Ok(Err(self.errk(f.get(0).unwrap_or(&Val::Top), te))),
            v => Err(Need::Unsup(format!("returned {:?}", v))),
        }
    }
    fn ok_ty(&self, e: &Entry<'tcx>) -> Ty<'tcx> {
        match e.output.kind() {
            ty::Adt(_, a) if a.types().count() >= 1 && !self.is_stringish(e.output) => a.type_at(0),
            _ => e.output,
        }
    }

    /// all string-like values inside a value
    fn strings_in(&self, st: &State, v: &Val, t: Ty<'tcx>, out: &mut Vec<(Val, Ty<'tcx>)>, depth: u32) {
        if depth > 6 {
            return;
        }
        if self.is_stringish(t) {
            out.push((v.clone(), t));
            return;
        }
        match (t.kind(), v) {
            (ty::Ref(_, x, _), Val::Ref(l)) => {
                if let Some(v) = st.load(l) {
                    self.strings_in(st, v, *x, out, depth + 1);
                }
            }
            (ty::Tuple(ts), Val::Agg(f)) => {
                for (t, v) in ts.iter().zip(f) {
                    self.strings_in(st, v, t, out, depth + 1);
                }
            }
            (ty::Adt(d, a), Val::Enum(k, f)) if d.is_enum() => {
                if let Some(vd) = d.variants().iter().nth(*k as usize) {
                    for (fd, v) in vd.fields.iter().zip(f) {
                        self.strings_in(st, v, self.norm_ty(fd.ty(self.tcx, a).skip_norm_wip()), out, depth + 1);
                    }
                }
            }
            _ => {}
        }
    }

    // ------------------------------------------------------------------------------------------ contracts

    fn contract_check(&mut self, e: &Entry<'tcx>, st: &mut State, kind: OutK) -> R<Vec<Fail>> {
        let mut fails = vec![];
        // every string is valid again, however the operation ends
        let vprop = if kind == OutK::Ret { "S01" } else { "S04" };
        let mut objs = vec![];
        for i in 0..e.inputs.len() {
            if let (ty::Ref(..), Ok(Val::Ref(l))) = (e.inputs[i].kind(), self.arg(st, i)) {
                if let Some(v) = st.load(&l).cloned() {
                    self.strings_in(st, &v, self.pointee_of(e.inputs[i]), &mut objs, 0);
                }
            }
        }
        if kind == OutK::Ret {
            let v = st.ghost.get("ret").cloned().unwrap_or(Val::Top);
            self.strings_in(st, &v, e.output, &mut objs, 0);
        }
        for (v, t) in objs {
            if let Err(why) = self.visible(st, &v, t)? {
                fails.push(Fail { prop: vprop, rule: "invalid content", msg: format!("the string is left invalid: {}", why) });
                // what the operation promises about its content is broken as well
                if let (OutK::Ret, Some(c), Mode::Pure) = (kind, e.contract, self.mode) {
                    let failed = matches!(st.ghost.get("ret"), Some(Val::Enum(k, _)) if (*k == 1) == !matches!(c, Contract::Pop));
                    for p in props_of(e.kind, c) {
                        if (p == "A01") == failed && p != "C01" {
                            fails.push(Fail { prop: p, rule: "invalid content", msg: format!("the string is left invalid: {}", why) });
                        }
                    }
                }
            }
        }
        if kind == OutK::Ret {
            // returned slices are valid text
            let mut slices = vec![];
            let v = st.ghost.get("ret").cloned().unwrap_or(Val::Top);
            slices_in(&v, e.output, &mut slices);
            for (v, is_str) in slices {
                if let Val::Slice { base, off, len } = &v {
                    let t = st.slice_text(base, off, len)?;
                    if is_str {
                        if let Some(why) = st.text_valid(&t)? {
                            fails.push(Fail { prop: "S01", rule: "invalid view", msg: format!("returned text is not valid: {}", why) });
                        }
                    }
                }
            }
        }
        if kind == OutK::Panic && e.contract != Some(Contract::Index) {
            return Ok(fails);
        }
        if !fails.is_empty() {
            return Ok(fails);
        }
        let Some(c) = e.contract else { return Ok(fails) };
        if self.mode == Mode::Hostile {
            return Ok(fails);
        }
        match kind {
            OutK::Unwind => {
                if c == Contract::Retain && !st.ghost.contains_key("drop_unwind") {
                    let (p, _) = self.pre(st, 0)?;
                    let (t, _) = self.now(st, e, 0)?.unwrap();
                    if !st.text_eq(&p, &t)? {
                        fails.push(Fail { prop: "S04", rule: "retain", msg: format!("a panicking predicate leaves {:?} instead of {:?}", t, p) });
                    }
                }
                Ok(fails)
            }
            OutK::Panic => {
                let f = self.index_contract(e, st, true)?;
                fails.extend(f);
                Ok(fails)
            }
            OutK::Ret => {
                let f = self.ret_contract(e, c, st)?;
                fails.extend(f);
                Ok(fails)
            }
        }
    }

    /// text kept is the longest whole-character prefix of `input` that fits in `room` bytes: None if so
    fn maximal(&self, st: &State, input: &Text, kept: &Text, room: &Lin) -> R<Option<String>> {
        let Some(rest) = st.text_strip_prefix(input, kept)? else {
            return Ok(Some(format!("kept {:?} is not a prefix of {:?}", kept, input)));
        };
        self.maximal_rest(st, &rest, &room.sub(&text_len(kept)))
    }
    fn maximal_rest(&self, st: &State, rest: &Text, left: &Lin) -> R<Option<String>> {
        let rest = st.norm(rest);
        if !st.decide(&Cond::ge(&text_len(&rest), &Lin::k(1)))? {
            return Ok(None);
        }
        if !st.decide(&Cond::ge(left, &Lin::k(1)))? {
            return Ok(None);
        }
        for p in &rest {
            if !st.decide(&Cond::ge(&p.len(), &Lin::k(1)))? {
                continue;
            }
            return match p.src {
                Src::Str(s) => {
                    let hi = p.from.add(left);
                    // the piece may end before the room does
                    if st.known_nb(s, &p.from.addk(1), &hi) {
                        Ok(None)
                    } else {
                        // three more bytes suffice to see the next boundary
                        for k in 1..=4 {
                            let o = p.from.addk(k);
                            if !st.decide(&Cond::ge(left, &Lin::k(k)))? {
                                return Ok(None);
                            }
                            if st.known_bnd(s, &o) == Some(false) {
                                continue;
                            }
                            break;
                        }
                        Ok(Some(format!("another character of {:?} may fit in the remaining {:?} bytes", p, left)))
                    }
                }
                _ => Ok(Some("unknown rest".into())),
            };
        }
        Ok(None)
    }

    fn bnd(&self, st: &State, p: &Text, at: &Lin, plen: &Lin) -> R<bool> {
        // boundary of the initial content (at <= plen is known)
        if !st.decide(&Cond::ge(&Lin::k(-1), &at.sub(plen)))? {
            return Ok(true); // at == len
        }
        if !st.decide(&Cond::ge(at, &Lin::k(1)))? {
            return Ok(true);
        }
        match p.first() {
            Some(Piece { src: Src::Str(s), .. }) => st.decide(&Cond::Bnd(*s, at.clone())),
            _ => Ok(true),
        }
    }

    fn range_math(&mut self, st: &mut State, i: usize, plen: &Lin) -> R<(Lin, Lin)> {
        let u = self.user_arg(st, i)?;
        let mut r = vec![];
        for end in ["start_bound", "end_bound"] {
            let v = st.users[&u].memo.get(end).cloned();
            let incl = |st: &State, f: &Vec<Val>| -> R<Lin> {
                match f.get(0) {
                    Some(Val::Ref(l)) => match st.load(l) {
                        Some(Val::Int(x)) => Ok(x.clone()),
                        _ => Err(Need::Unsup("bound".into())),
                    },
                    _ => Err(Need::Unsup("bound".into())),
                }
            };
            r.push(match (v, end) {
                (Some(Val::Enum(0, f)), "start_bound") | (Some(Val::Enum(1, f)), "end_bound") => incl(st, &f)?,
                (Some(Val::Enum(0, f)), _) | (Some(Val::Enum(1, f)), _) => incl(st, &f)?.addk(1),
                (Some(Val::Enum(2, _)), "start_bound") => Lin::k(0),
                (Some(Val::Enum(2, _)), _) => plen.clone(),
                _ => return Err(Need::Unsup("bound".into())),
            });
        }
        Ok((r[0].clone(), r[1].clone()))
    }

    fn ret_contract(&mut self, e: &Entry<'tcx>, c: Contract, st: &mut State) -> R<Vec<Fail>> {
        let mut f: Vec<Fail> = vec![];
        let ret = st.ghost.get("ret").cloned().unwrap_or(Val::Top);
        macro_rules! fail {
            ($p:expr, $r:expr, $($a:tt)*) => { f.push(Fail { prop: $p, rule: $r, msg: format!($($a)*) }) };
        }
        match c {
            Empty => {
                let (t, _) = self.ret_text(st, e, &ret)?;
                if !st.text_eq(&t, &vec![])? {
                    fail!("V01", "empty", "a new string shows {:?}", t);
                }
            }
            Capacity => {
                let n = self.as_int(st, &ret)?;
                let cap = self.cap(st)?;
                if !st.decide(&Cond::eq(&n, &cap))? {
                    fail!("V01", "capacity", "reports {:?} for capacity {:?}", n, cap);
                    fail!("L01", "capacity", "reports {:?} for capacity {:?}", n, cap);
                }
            }
            Len => {
                let n = self.as_int(st, &ret)?;
                let (_, p) = self.pre(st, 0)?;
                if !st.decide(&Cond::eq(&n, &p))? {
                    fail!("V01", "len", "reports {:?} for length {:?}", n, p);
                }
            }
            IsEmpty => {
                let c = self.as_cond(st, &ret)?;
                let (_, p) = self.pre(st, 0)?;
                if st.decide(&c)? != st.decide(&Cond::ge(&Lin::k(0), &p))? {
                    fail!("V01", "is_empty", "wrong for length {:?}", p);
                }
            }
            View | ViewMut => {
                let (p, n) = self.pre(st, 0)?;
                let (base, off, len) = self.as_slice(st, &ret, e.output)?;
                let t = st.slice_text(&base, &off, &len)?;
                if !st.text_eq(&t, &p)? {
                    fail!("V01", "view", "shows {:?} instead of {:?}", t, p);
                }
                if c == ViewMut {
                    let (t, _) = self.now(st, e, 0)?.unwrap();
                    if !st.text_eq(&t, &p)? {
                        fail!("V01", "view", "taking the view changes the content to {:?}", t);
                    }
                    if st.decide(&Cond::ge(&n, &Lin::k(1)))? {
                        let own = match self.arg(st, 0)? {
                            Val::Ref(l) => {
                                let (b, _) = self.role_paths(self.pointee_of(e.inputs[0])).unwrap();
                                let mut l = l;
                                l.path.extend(b);
                                Base::Place(l)
                            }
                            _ => Base::Null,
                        };
                        if base != own || !st.decide(&Cond::eq(&off, &Lin::k(0)))? {
                            fail!("V01", "view", "the mutable view is not the string's own content");
                        }
                    }
                }
            }
            Inner => {
                let (p, _) = self.pre(st, 0)?;
                match &ret {
                    Val::Ref(l) => {
                        let v = st.load(l).cloned().ok_or_else(|| Need::Unsup("inner string".into()))?;
                        let own = matches!(self.arg(st, 0)?, Val::Ref(m) if m.obj == l.obj);
                        let t = self.pointee_of(e.output);
                        match self.visible(st, &v, t)? {
                            Ok((t, _)) if own && st.text_eq(&t, &p)? => {}
                            _ => fail!("V01", "inner", "does not give access to the string's own content"),
                        }
                    }
                    _ => fail!("V01", "inner", "does not give access to the string's own content"),
                }
            }
            CloneOf | WrapOf => {
                let (p, _) = self.pre(st, 0)?;
                let (t, _) = self.ret_text(st, e, &ret)?;
                if !st.text_eq(&t, &p)? {
                    fail!("V01", "copy", "the copy shows {:?} instead of {:?}", t, p);
                }
            }
            CloneFrom => {
                let (p, _) = self.pre(st, 1)?;
                let (t, _) = self.now(st, e, 0)?.unwrap();
                if !st.text_eq(&t, &p)? {
                    fail!("V01", "copy", "the copy shows {:?} instead of {:?}", t, p);
                }
            }
            StrictNew | StrictPush => {
                let (p, n) = if c == StrictNew { (vec![], Lin::k(0)) } else { self.pre(st, 0)? };
                let x = self.input_text(st, e, if c == StrictNew { 0 } else { 1 })?;
                let cap = self.cap(st)?;
                let total = n.add(&text_len(&x));
                match self.result(st, e)? {
                    Ok(v) => {
                        let (t, _) = if c == StrictNew { self.val_text(st, &v, self.ok_ty(e))? } else { self.now(st, e, 0)?.unwrap() };
                        let want: Text = p.iter().chain(&x).cloned().collect();
                        if !st.text_eq(&t, &want)? {
                            fail!("A02", "content", "success leaves {:?} instead of {:?}", t, want);
                        }
                    }
                    Err(k) => {
                        if k != Errk::Oob {
                            fail!("A02", "error", "reports {:?}", k);
                        }
                        if st.decide(&Cond::ge(&cap, &total))? {
                            fail!("A02", "spurious error", "fails although {:?} bytes fit in {:?}", total, cap);
                        }
                        if c == StrictPush {
                            self.unchanged(st, e, &p, &mut f)?;
                        }
                    }
                }
            }
            TruncNew | TruncPush | TruncAdd => {
                let (p, n) = if c == TruncNew { (vec![], Lin::k(0)) } else { self.pre(st, 0)? };
                let x = self.input_text(st, e, if c == TruncNew { 0 } else { 1 })?;
                let cap = self.cap(st)?;
                let (t, _) = if c == TruncPush { self.now(st, e, 0)?.unwrap() } else { self.ret_text(st, e, &ret)? };
                match st.text_strip_prefix(&t, &p)? {
                    None => fail!("A03", "existing content", "{:?} does not start with the previous content {:?}", t, p),
                    Some(k) => {
                        if let Some(why) = self.maximal(st, &x, &k, &cap.sub(&n))? {
                            fail!("A03", "longest prefix", "{}", why);
                        }
                    }
                }
            }
            IterStrict => {
                let u = self.user_arg(st, 0)?;
                let i = st.users[&u].clone();
                let cap = self.cap(st)?;
                if i.err && i.exhausted {
                    return Ok(f);
                }
                match self.result(st, e)? {
                    Ok(v) => {
                        let (t, _) = self.val_text(st, &v, self.ok_ty(e))?;
                        if !i.exhausted {
                            fail!("A02", "input", "success before the input was read to its end");
                        }
                        if i.err || !st.text_eq(&t, &i.taken)? {
                            fail!("A02", "content", "success leaves {:?} instead of {:?}", t, i.taken);
                        }
                    }
                    Err(k) => {
                        if k != Errk::Oob {
                            fail!("A02", "error", "reports {:?}", k);
                        }
                        if st.decide(&Cond::ge(&cap, &text_len(&i.taken)))? {
                            fail!("A02", "spurious error", "fails although {:?} bytes fit in {:?}", text_len(&i.taken), cap);
                        }
                    }
                }
            }
            IterTrunc | IterExtend => {
                let ai = if c == IterTrunc { 0 } else { 1 };
                let u = self.user_arg(st, ai)?;
                let i = st.users[&u].clone();
                if i.err && i.exhausted {
                    return Ok(f);
                }
                let (p, n) = if c == IterTrunc { (vec![], Lin::k(0)) } else { self.pre(st, 0)? };
                let (t, _) = if c == IterTrunc { self.ret_text(st, e, &ret)? } else { self.now(st, e, 0)?.unwrap() };
                let cap = self.cap(st)?;
                self.iter_trunc(st, &i, &i.taken.clone(), &p, &n, &t, &cap, "A08", &mut f)?;
            }
            Utf16Strict | Utf16Trunc | Utf16Lossy => {
                let cap = self.cap(st)?;
                let src = self.input_text(st, e, 0)?;
                let ids: Vec<UserId> = st.users.iter().filter(|(_, u)| u.kind == UKind::Decode).map(|x| *x.0).collect();
                let res = if c == Utf16Lossy { Ok(ret.clone()) } else { self.result(st, e)? };
                let okty = if c == Utf16Lossy { e.output } else { self.ok_ty(e) };
                if ids.is_empty() {
                    // nothing decoded: right only for the empty input
                    let empty = st.decide(&Cond::ge(&Lin::k(0), &text_len(&src)))?;
                    let ok = match res {
                        Ok(v) => {
                            let (t, _) = self.val_text(st, &v, okty)?;
                            st.text_eq(&t, &vec![])?
                        }
                        Err(_) => false,
                    };
                    if !(ok && empty) {
                        fail!("A07", "decoding", "the result does not come from decoding the input");
                    }
                    return Ok(f);
                }
                if ids.len() > 1 {
                    return Err(Need::Unsup("several decoders".into()));
                }
                let d = st.users[&ids[0]].clone();
                let right_src = match d.memo.get("src") {
                    Some(Val::Agg(v)) => matches!((&v[0], &v[1]), (Val::Opaque(s), Val::Bool(Cond::T)) if whole_str(&src).map_or(true, |w| w == *s)),
                    _ => false,
                };
                if !right_src {
                    fail!("A07", "decoding", "what is decoded is not the whole input");
                    return Ok(f);
                }
                let fits = st.decide(&Cond::ge(&cap, &text_len(&d.taken)))?;
                match (c, res) {
                    (Utf16Strict, Ok(v)) => {
                        let (t, _) = self.val_text(st, &v, okty)?;
                        if !d.exhausted || d.err || !st.text_eq(&t, &d.taken)? {
                            fail!("A07", "decoding", "success (end seen: {}, unpaired surrogate: {}) with {:?} for {:?}", d.exhausted, d.err, t, d.taken);
                        }
                    }
                    (Utf16Trunc, Ok(v)) => {
                        let (t, _) = self.val_text(st, &v, okty)?;
                        if d.err {
                            fail!("A07", "unpaired surrogate", "an unpaired surrogate met before the end is not reported");
                        } else {
                            self.iter_trunc(st, &d, &d.taken.clone(), &vec![], &Lin::k(0), &t, &cap, "A07", &mut f)?;
                        }
                    }
                    (Utf16Lossy, Ok(v)) => {
                        let (t, _) = self.val_text(st, &v, okty)?;
                        self.iter_trunc(st, &d, &d.kept.clone(), &vec![], &Lin::k(0), &t, &cap, "A07", &mut f)?;
                    }
                    (_, Err(Errk::Utf16)) => {
                        if !d.err || !fits {
                            fail!("A07", "wrong error", "reports invalid UTF-16 (unpaired surrogate: {}, text before it fits: {})", d.err, fits);
                        }
                    }
                    (Utf16Strict, Err(Errk::Oob)) => {
                        if d.err || fits {
                            fail!("A07", "wrong error", "reports out of bounds (unpaired surrogate: {}, text fits: {})", d.err, fits);
                        }
                    }
                    (_, Err(k)) => fail!("A07", "wrong error", "reports {:?}", k),
                    (_, Ok(_)) => {}
                }
            }
            Insert | InsertTrunc => {
                let (p, n) = self.pre(st, 0)?;
                let idx = self.arg(st, 1)?;
                let idx = self.as_int(st, &idx)?;
                let x = self.input_text(st, e, 2)?;
                let cap = self.cap(st)?;
                let inside = st.decide(&Cond::ge(&n, &idx))?;
                let onb = if inside { self.bnd(st, &p, &idx, &n)? } else { false };
                match self.result(st, e)? {
                    Ok(_) => {
                        if !inside || !onb {
                            fail!("A05", "accepted", "accepts position {:?} of {:?} bytes (inside: {}, on a boundary: {})", idx, n, inside, onb);
                            return Ok(f);
                        }
                        let (t, m) = self.now(st, e, 0)?.unwrap();
                        let y = m.sub(&n);
                        if !st.decide(&Cond::ge(&y, &Lin::k(0)))? {
                            fail!("A04", "content", "inserting shortens the string");
                            return Ok(f);
                        }
                        let head = st.text_slice(&p, &Lin::k(0), &idx)?;
                        let tail = st.text_slice(&p, &idx, &n)?;
                        if c == Insert {
                            let want: Text = head.iter().chain(&x).chain(&tail).cloned().collect();
                            if !st.text_eq(&t, &want)? {
                                fail!("A04", "content", "gives {:?} instead of {:?}", t, want);
                            }
                        } else {
                            let a = st.text_slice(&t, &Lin::k(0), &idx)?;
                            let b = st.text_slice(&t, &idx, &idx.add(&y))?;
                            let d = st.text_slice(&t, &idx.add(&y), &m)?;
                            if !st.text_eq(&a, &head)? || !st.text_eq(&d, &tail)? {
                                fail!("A03", "existing content", "content around the position changes: {:?}", t);
                                fail!("A04", "content", "content around the position changes: {:?}", t);
                            } else if let Some(why) = self.maximal(st, &x, &b, &cap.sub(&n))? {
                                fail!("A03", "longest prefix", "{}", why);
                            }
                        }
                    }
                    Err(k) => {
                        let fits = c == InsertTrunc || st.decide(&Cond::ge(&cap, &n.add(&text_len(&x))))?;
                        let ok = match k {
                            Errk::Oob => !inside || !fits,
                            Errk::Utf8 => inside && !onb,
                            _ => false,
                        };
                        if !ok {
                            fail!("A05", "wrong error", "reports {:?} for position {:?} of {:?} bytes (inside: {}, on a boundary: {}, fits: {})", k, idx, n, inside, onb, fits);
                        }
                        self.unchanged(st, e, &p, &mut f)?;
                    }
                }
            }
            Replace | Drain | SplitOff | Remove | Truncate => {
                let (p, n) = self.pre(st, 0)?;
                let cap = self.cap(st)?;
                let mut need_len = None;
                let (a, b) = match c {
                    Replace | Drain => self.range_math(st, 1, &n)?,
                    SplitOff | Truncate => {
                        let v = self.arg(st, 1)?;
                        (self.as_int(st, &v)?, n.clone())
                    }
                    _ => {
                        let v = self.arg(st, 1)?;
                        let i = self.as_int(st, &v)?;
                        need_len = Some(());
                        (i.clone(), i)
                    }
                };
                let a = if c == Truncate {
                    if st.decide(&Cond::ge(&a, &n))? {
                        n.clone()
                    } else {
                        a
                    }
                } else {
                    a
                };
                let x = if c == Replace { self.input_text(st, e, 2)? } else { vec![] };
                let ordered = st.decide(&Cond::ge(&b, &a))?;
                let inside = st.decide(&Cond::ge(&n, &b))? && ordered && (need_len.is_none() || st.decide(&Cond::ge(&n, &a.addk(1)))?);
                // an endpoint inside the string but inside a character
                let a_in = st.decide(&Cond::ge(&n, &a))?;
                let b_in = st.decide(&Cond::ge(&n, &b))?;
                let a_bad = a_in && !self.bnd(st, &p, &a, &n)?;
                let b_bad = b_in && !self.bnd(st, &p, &b, &n)?;
                let result = match e.output.kind() {
                    ty::Adt(..) => self.result(st, e)?,
                    _ => Ok(ret.clone()),
                };
                match result {
                    Ok(v) => {
                        if !inside || a_bad || b_bad {
                            fail!("A05", "accepted", "accepts {:?}..{:?} of {:?} bytes (inside: {}, on boundaries: {})", a, b, n, inside, !a_bad && !b_bad);
                            return Ok(f);
                        }
                        let (t, _) = self.now(st, e, 0)?.unwrap();
                        let mut b = b;
                        let mut gone: Option<Text> = None;
                        match c {
                            Remove => {
                                let Val::Char(ch) = &v else { return Err(Need::Unsup(format!("returned {:?}", v))) };
                                let ct = st.char_text(*ch);
                                b = a.add(&text_len(&ct));
                                if !st.decide(&Cond::ge(&n, &b))? {
                                    fail!("A04", "returned", "returns a character that is not at the position");
                                    return Ok(f);
                                }
                                gone = Some(ct);
                            }
                            SplitOff | Drain => gone = Some(self.val_text(st, &v, self.ok_ty(e))?.0),
                            _ => {}
                        }
                        let cut = st.text_slice(&p, &a, &b)?;
                        if let Some(g) = gone {
                            if !st.text_eq(&g, &cut)? {
                                fail!("A04", "returned", "returns {:?} instead of {:?}", g, cut);
                                if c == Drain {
                                    fail!("D01", "returned", "returns {:?} instead of {:?}", g, cut);
                                }
                            }
                        }
                        let head = st.text_slice(&p, &Lin::k(0), &a)?;
                        let tail = st.text_slice(&p, &b, &n)?;
                        let want: Text = head.iter().chain(&x).chain(&tail).cloned().collect();
                        if !st.text_eq(&t, &want)? {
                            fail!("A04", "content", "leaves {:?} instead of {:?}", t, want);
                            if c == Drain {
                                fail!("D01", "content", "leaves {:?} instead of {:?}", t, want);
                            }
                        }
                    }
                    Err(k) => {
                        let fits = if ordered && b_in { st.decide(&Cond::ge(&cap, &n.add(&text_len(&x)).add(&a).sub(&b)))? } else { true };
                        let ok = match k {
                            Errk::Oob => !inside || !fits,
                            Errk::Utf8 => inside && (a_bad || b_bad),
                            _ => false,
                        };
                        if !ok {
                            fail!("A05", "wrong error", "reports {:?} for {:?}..{:?} of {:?} bytes (inside: {}, on boundaries: {}, fits: {})", k, a, b, n, inside, !a_bad && !b_bad, fits);
                        }
                        self.unchanged(st, e, &p, &mut f)?;
                    }
                }
            }
            Pop | First | Last => {
                let prop = if e.kind == Kind::Drain { "D01" } else { "A06" };
                let (p, n) = self.pre(st, 0)?;
                let (t, _) = if c == Last { (vec![], Lin::k(0)) } else { self.now(st, e, 0)?.unwrap() };
                let some = st.decide(&Cond::ge(&n, &Lin::k(1)))?;
                match &ret {
                    Val::Enum(0, _) => {
                        if some {
                            fail!(prop, "nothing", "reports nothing although characters are left");
                        }
                        if c != Last && !st.text_eq(&t, &p)? {
                            fail!("A01", "unchanged", "content becomes {:?}", t);
                            fail!(prop, "content", "content becomes {:?}", t);
                        }
                    }
                    Val::Enum(1, v) => {
                        let Val::Char(ch) = &v[0] else { return Err(Need::Unsup(format!("returned {:?}", v))) };
                        let ct = st.char_text(*ch);
                        let l = text_len(&ct);
                        if !some || !st.decide(&Cond::ge(&n, &l))? {
                            fail!(prop, "returned", "returns a character from an empty string");
                            return Ok(f);
                        }
                        let (a, b) = if c == First { (Lin::k(0), l.clone()) } else { (n.sub(&l), n.clone()) };
                        let cut = st.text_slice(&p, &a, &b)?;
                        if !st.text_eq(&ct, &cut)? {
                            fail!(prop, "returned", "returns {:?} instead of {:?}", ct, cut);
                        }
                        if c != Last {
                            let rest = if c == First { st.text_slice(&p, &l, &n)? } else { st.text_slice(&p, &Lin::k(0), &n.sub(&l))? };
                            if !st.text_eq(&t, &rest)? {
                                fail!(prop, "content", "leaves {:?} instead of {:?}", t, rest);
                            }
                        }
                    }
                    v => return Err(Need::Unsup(format!("returned {:?}", v))),
                }
            }
            SizeHint => {
                let (_, n) = self.pre(st, 0)?;
                let Val::Agg(v) = &ret else { return Err(Need::Unsup("size hint".into())) };
                let lo = self.as_int(st, &v[0])?;
                // at least one character per four bytes, at most one per byte
                if !st.decide(&Cond::ge(&n.addk(3), &lo.scale(4)))? {
                    fail!("D01", "size hint", "promises at least {:?} characters for {:?} bytes", lo, n);
                }
                if let Val::Enum(1, h) = &v[1] {
                    let hi = self.as_int(st, &h[0])?;
                    if !st.decide(&Cond::ge(&hi, &n))? {
                        fail!("D01", "size hint", "promises at most {:?} characters for {:?} bytes", hi, n);
                    }
                }
            }
            Trim => {
                let (p, n) = self.pre(st, 0)?;
                let (t, m) = self.now(st, e, 0)?.unwrap();
                let w = "is_whitespace";
                if !st.decide(&Cond::ge(&n, &Lin::k(1)))? {
                    return Ok(f);
                }
                let s = whole_str(&p).unwrap();
                if !st.decide(&Cond::ge(&m, &Lin::k(1)))? {
                    if !st.known_range_pred(w, true, s, &Lin::k(0), &n) {
                        fail!("A06", "trim", "everything is removed although not everything is whitespace");
                    }
                    return Ok(f);
                }
                let t = st.norm(&t);
                let (a, b) = match &t[..] {
                    [Piece { src: Src::Str(x), from, to }] if *x == s => (from.clone(), to.clone()),
                    _ => {
                        fail!("A06", "trim", "leaves {:?}, which is not a part of the content", t);
                        return Ok(f);
                    }
                };
                if !st.known_range_pred(w, true, s, &Lin::k(0), &a) || !st.known_range_pred(w, true, s, &b, &n) {
                    fail!("A06", "trim", "{:?} is kept: something that may not be whitespace is removed", t);
                }
                let first = st.char_at(s, &a);
                let last = st.char_before(s, &b);
                if st.known_pred(w, first) != Some(false) {
                    fail!("A06", "trim", "{:?} is kept: it may start with whitespace", t);
                }
                if st.known_pred(w, last) != Some(false) {
                    fail!("A06", "trim", "{:?} is kept: it may end with whitespace", t);
                }
            }
            Retain => {
                let (p, _) = self.pre(st, 0)?;
                let u = self.user_arg(st, 1)?;
                let i = st.users[&u].clone();
                let (t, _) = self.now(st, e, 0)?.unwrap();
                if i.err || !st.text_eq(&i.taken, &p)? {
                    fail!("A06", "retain", "the predicate is asked about {:?} instead of {:?}", i.taken, p);
                }
                if !st.text_eq(&i.kept, &t)? {
                    fail!("A06", "retain", "keeps {:?} instead of {:?}", t, i.kept);
                }
            }
            Clear => {
                let (t, _) = self.now(st, e, 0)?.unwrap();
                if !st.text_eq(&t, &vec![])? {
                    fail!("A06", "clear", "leaves {:?}", t);
                }
            }
            Eq(pos) => {
                let (p, q) = (self.input_text(st, e, 0)?, self.other_text(st, e)?);
                let c = self.as_cond(st, &ret)?;
                let b = st.decide(&c)? == pos;
                if st.known_teq(&p, &q) != Some(b) {
                    fail!("V02", "equality", "says {} for {:?} and {:?}", b, p, q);
                }
            }
            Cmp | PartialCmp => {
                let (p, q) = (self.input_text(st, e, 0)?, self.other_text(st, e)?);
                let v = if c == PartialCmp {
                    match &ret {
                        Val::Enum(1, v) => v[0].clone(),
                        _ => {
                            fail!("V02", "order", "says the texts cannot be compared");
                            return Ok(f);
                        }
                    }
                } else {
                    ret.clone()
                };
                let ok = match &v {
                    Val::SymOrd(a, b, rev) => {
                        let (x, y) = if *rev { (b, a) } else { (a, b) };
                        st.same_text(x, &p) && st.same_text(y, &q)
                    }
                    Val::Enum(k, _) => st.known_ord(&p, &q) == Some(*k as i8 - 1),
                    Val::Int(l) => l.is_const().map_or(false, |k| st.known_ord(&p, &q) == Some(k as i8)),
                    _ => false,
                };
                if !ok {
                    fail!("V02", "order", "orders {:?} and {:?} as {:?}", p, q, v);
                }
            }
            Rel(op) => {
                let (p, q) = (self.input_text(st, e, 0)?, self.other_text(st, e)?);
                let c = self.as_cond(st, &ret)?;
                let b = st.decide(&c)?;
                let mut o = 0;
                for k in [-1i8, 1, 0] {
                    if st.decide(&Cond::OrdIs(p.clone(), q.clone(), k))? {
                        o = k;
                        break;
                    }
                }
                let want = match op {
                    "lt" => o < 0,
                    "le" => o <= 0,
                    "gt" => o > 0,
                    _ => o >= 0,
                };
                if b != want {
                    fail!("V02", "order", "{} says {} for {:?} and {:?}", op, b, p, q);
                }
            }
            Hash => {
                let (p, _) = self.pre(st, 0)?;
                let fx = st.effects.clone();
                let ok = match &fx[..] {
                    [x] if &*x.what == "Hasher::write_str" => matches!(&x.args[..], [Val::Bytes(t), ..] if st.text_eq(t, &p)?),
                    [x, y] if &*x.what == "Hasher::write" && &*y.what == "Hasher::write_u8" => {
                        matches!(&x.args[..], [Val::Bytes(t), ..] if st.text_eq(t, &p)?) && matches!(&y.args[..], [Val::Int(l), ..] if l.is_const() == Some(255))
                    }
                    _ => false,
                };
                if !ok {
                    fail!("V02", "hash", "hashes {:?} instead of the text {:?}", fx.iter().map(|x| (&x.what, &x.args)).collect::<Vec<_>>(), p);
                }
            }
            Display => {
                let (p, _) = self.pre(st, 0)?;
                let fx = st.effects.clone();
                let ok = match &fx[..] {
                    [x] if &*x.what == "fmt::pad" => matches!(&x.args[..], [Val::Bytes(t), ..] if st.text_eq(t, &p)?) && x.ret.as_ref() == Some(&ret),
                    _ => false,
                };
                if !ok {
                    fail!("V03", "display", "prints {:?} instead of the padded text {:?}", fx.iter().map(|x| (&x.what, &x.args)).collect::<Vec<_>>(), p);
                }
            }
            Debug => {
                let (p, n) = self.pre(st, 0)?;
                let fx = st.effects.clone();
                let failed = fx.iter().any(|x| matches!(&x.ret, Some(Val::Enum(1, _))));
                let mut text = false;
                let mut len = false;
                let mut bad = None;
                for x in &fx {
                    for a in &x.args {
                        self.shown(st, a, &p, &n, &mut text, &mut len, &mut bad)?;
                    }
                }
                if let Some(b) = bad {
                    fail!("V03", "debug", "shows {}", b);
                }
                if !failed && (!text || !len) {
                    fail!("V03", "debug", "shows {:?}: text {}, length {}", fx.iter().map(|x| (&x.what, &x.args)).collect::<Vec<_>>(), text, len);
                }
                let last = fx.iter().rev().find_map(|x| x.ret.clone());
                if let Some(l) = last {
                    let is_err = matches!(ret, Val::Enum(1, _));
                    let eff_err = matches!(l, Val::Enum(1, _));
                    if is_err != eff_err {
                        fail!("V03", "debug", "the formatter's result is not passed on");
                    }
                }
            }
            Index => f.extend(self.index_contract(e, st, false)?),
            Serialize | ToSql => {
                let prop = if c == Serialize { "I01" } else { "I02" };
                let (p, _) = self.pre(st, 0)?;
                let fx = st.effects.clone();
                let ok = match &fx[..] {
                    [x] => {
                        let name = matches!((&*x.what, c), ("Serializer::serialize_str", Serialize) | ("Serializer::collect_str", Serialize) | ("ToSql::to_sql", ToSql));
                        let text = match x.args.get(0) {
                            Some(Val::Bytes(t)) => st.text_eq(t, &p)?,
                            Some(Val::Agg(_)) => &*x.what == "Serializer::collect_str",
                            _ => false,
                        };
                        name && text && x.ret.as_ref() == Some(&ret)
                    }
                    _ => false,
                };
                if !ok {
                    fail!(prop, "writing", "writes {:?} instead of the text {:?}", fx.iter().map(|x| (&x.what, &x.args, &x.ret)).collect::<Vec<_>>(), p);
                }
            }
            Deserialize | FromSql => {
                let prop = if c == Deserialize { "I01" } else { "I02" };
                let given = match st.ghost.get("delivered").cloned() {
                    Some(Val::Slice { base, off, len }) => Some(st.slice_text(&base, &off, &len)?),
                    _ => None,
                };
                let how = match st.ghost.get("delivered_as") {
                    Some(Val::Int(l)) => l.is_const().unwrap_or(99),
                    _ => 0,
                };
                let uerr = st.ghost.get("user_err").cloned();
                if c == Deserialize && matches!(st.ghost.get("requested"), Some(Val::Bool(Cond::F))) {
                    fail!(prop, "request", "does not ask the format for a string");
                }
                match &ret {
                    Val::Enum(0, v) => {
                        let (t, _) = self.val_text(st, &v[0], self.ok_ty(e))?;
                        let cap = self.cap(st)?;
                        match given {
                            Some(x) if how < 20 => {
                                if let Some(why) = self.maximal(st, &x, &t, &cap)? {
                                    fail!(prop, "longest prefix", "{}", why);
                                }
                            }
                            // a format may deliver a one-character string as a character
                            _ if how == 23 => {}
                            _ => fail!(prop, "reading", "accepts something that is not a string as {:?}", t),
                        }
                    }
                    Val::Enum(1, v) => {
                        if (1..=3).contains(&how) && given.is_some() {
                            let form = ["", "transient", "borrowed", "owned"][how as usize];
                            fail!(prop, "refused", "refuses a {} string", form);
                        } else if how == 0 && c == Deserialize && uerr.as_ref() != v.get(0) {
                            fail!(prop, "error", "an error of the format is not passed on as it is");
                        } else if how == 0 && c == FromSql && uerr.is_none() {
                            fail!(prop, "error", "fails although the conversion succeeded");
                        }
                    }
                    v => return Err(Need::Unsup(format!("returned {:?}", v))),
                }
            }
            ErrFrom => {
                // kind of the source type
                let src = self.ty_short(self.pointee_of(e.inputs[0]));
                let want = match src.as_str() {
                    "Utf8Error" | "Utf8" | "FromUtf8Error" => Errk::Utf8,
                    "DecodeUtf16Error" | "EncodeUtf16" | "Utf16" => Errk::Utf16,
                    "OutOfBounds" => Errk::Oob,
                    _ => return Ok(f),
                };
                let got = self.errk(&ret, e.output);
                if got != want {
                    fail!("E01", "conversion", "{} becomes {:?}", src, got);
                }
            }
            ErrEq(pos) => {
                let c = self.as_cond(st, &ret)?;
                let b = st.decide(&c)? == pos;
                let g = |st: &State, k: &str| match st.ghost.get(k) {
                    Some(Val::Int(l)) => l.is_const(),
                    _ => None,
                };
                let want = match (g(st, "variant0"), g(st, "variant1")) {
                    (Some(a), Some(b)) => a == b,
                    (None, None) => true,
                    _ => return Err(Need::Unsup("comparison with another type".into())),
                };
                if b != want {
                    fail!("E01", "equality", "says {} for kinds that are {}", b, if want { "the same" } else { "different" });
                }
            }
            ErrHash => {
                for x in &st.effects {
                    for a in &x.args {
                        if !concrete(st, a) {
                            fail!("E01", "hash", "hashes {:?}, which is not determined by the kind", a);
                        }
                    }
                }
            }
            ErrPrint => {
                let me = e.inputs.get(0).map(|t| self.pointee_of(*t)).unwrap();
                let own = match me.kind() {
                    ty::Adt(d, _) if d.is_enum() => match st.ghost.get("variant0") {
                        Some(Val::Int(l)) => d.variants().iter().nth(l.is_const().unwrap_or(0) as usize).unwrap().name.to_string(),
                        _ => return Err(Need::Unsup("variant".into())),
                    },
                    _ => self.ty_short(me),
                };
                let mut s = String::new();
                let mut failed = false;
                for x in &st.effects {
                    for a in &x.args {
                        lits_in(st, a, &mut s);
                    }
                    s.push(' ');
                    failed |= matches!(&x.ret, Some(Val::Enum(1, _)));
                }
                if !failed && !s.contains(&own) {
                    fail!("E01", "printing", "{} prints {:?}", own, s.trim());
                }
                for o in ["Utf8", "Utf16", "OutOfBounds"] {
                    if o != own && s.contains(o) {
                        fail!("E01", "printing", "{} prints {:?}", own, s.trim());
                    }
                }
            }
        }
        Ok(f)
    }

    fn other_text(&mut self, st: &mut State, e: &Entry<'tcx>) -> R<Text> {
        // `&&str` and friends
        let v = self.arg(st, 1)?;
        if let Val::Ref(l) = &v {
            if let Some(Val::Ref(m)) = st.load(l).cloned() {
                if let Some(v) = st.load(&m).cloned() {
                    let mut t = e.inputs[1];
                    while let ty::Ref(_, x, _) = t.kind() {
                        t = *x;
                    }
                    return match self.visible(st, &v, t)? {
                        Ok((t, _)) => Ok(t),
                        Err(m) => Err(Need::Unsup(m)),
                    };
                }
            }
        }
        self.input_text(st, e, 1)
    }
    fn ret_text(&mut self, st: &mut State, e: &Entry<'tcx>, v: &Val) -> R<(Text, Lin)> {
        self.val_text(st, v, e.output)
    }
    fn val_text(&mut self, st: &mut State, v: &Val, t: Ty<'tcx>) -> R<(Text, Lin)> {
        match self.visible(st, v, t)? {
            Ok(x) => Ok(x),
            Err(m) => Err(Need::Unsup(m)),
        }
    }
    fn unchanged(&mut self, st: &mut State, e: &Entry<'tcx>, p: &Text, f: &mut Vec<Fail>) -> R<()> {
        let (t, _) = self.now(st, e, 0)?.unwrap();
        if !st.text_eq(&t, p)? {
            f.push(Fail { prop: "A01", rule: "unchanged", msg: format!("failure leaves {:?} instead of {:?}", t, p) });
        }
        Ok(())
    }
    fn iter_trunc(&mut self, st: &mut State, i: &UserInfo, input: &Text, p: &Text, n: &Lin, t: &Text, cap: &Lin, prop: &'static str, f: &mut Vec<Fail>) -> R<()> {
        let room = cap.sub(n);
        let Some(kept) = st.text_strip_prefix(t, p)? else {
            f.push(Fail { prop, rule: "existing content", msg: format!("{:?} does not start with the previous content {:?}", t, p) });
            return Ok(());
        };
        let Some(rest) = st.text_strip_prefix(input, &kept)? else {
            f.push(Fail { prop, rule: "longest prefix", msg: format!("adds {:?}, which is not a prefix of the input {:?}", kept, input) });
            return Ok(());
        };
        let left = room.sub(&text_len(&kept));
        if st.decide(&Cond::ge(&text_len(&rest), &Lin::k(1)))? {
            if let Some(why) = self.maximal_rest(st, &rest, &left)? {
                f.push(Fail { prop, rule: "longest prefix", msg: why });
            }
        } else if !i.exhausted && st.decide(&Cond::ge(&left, &Lin::k(1)))? {
            f.push(Fail { prop, rule: "longest prefix", msg: format!("stops although the input may go on and {:?} bytes are free", left) });
        }
        Ok(())
    }
    fn shown(&mut self, st: &mut State, a: &Val, p: &Text, n: &Lin, text: &mut bool, len: &mut bool, bad: &mut Option<String>) -> R<()> {
        match a {
            Val::Bytes(t) => {
                if st.text_lit(t).is_some() && st.text_lit(p).is_none() {
                    // field names and the like; an empty literal cannot be told from empty content
                    return Ok(());
                }
                if st.text_eq(t, p)? {
                    *text = true;
                } else if let Some(why) = st.text_valid(t)? {
                    *bad = Some(format!("{:?}: {}", t, why));
                } else if t.iter().any(|x| matches!(x.src, Src::Zero | Src::Junk(_))) {
                    *bad = Some(format!("{:?}, which is not the visible text", t));
                }
            }
            Val::Int(l) => {
                if st.decide(&Cond::eq(l, n))? {
                    *len = true;
                }
            }
            Val::Agg(f) => {
                if let [Val::Bytes(t), Val::Int(m)] | [Val::Int(m), Val::Bytes(t)] = &f[..] {
                    if st.decide(&Cond::ge(&text_len(t), m))? {
                        let v = st.text_slice(t, &Lin::k(0), m)?;
                        if st.text_eq(&v, p)? {
                            *text = true;
                            *len = true;
                            return Ok(());
                        }
                    }
                }
                for x in f {
                    self.shown(st, x, p, n, text, len, bad)?;
                }
            }
            Val::Enum(_, f) => {
                for x in f {
                    self.shown(st, x, p, n, text, len, bad)?;
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn index_contract(&mut self, e: &Entry<'tcx>, st: &mut State, panicked: bool) -> R<Vec<Fail>> {
        let mut f = vec![];
        let (p, n) = self.pre(st, 0)?;
        let r = self.arg(st, 1)?;
        let name = self.ty_short(e.inputs[1]);
        let fields = match &r {
            Val::Agg(f) => f.clone(),
            _ => vec![],
        };
        let mut ints = vec![];
        for v in &fields {
            if let Val::Int(l) = v {
                ints.push(l.clone());
            }
        }
        let (a, b) = match (name.as_str(), &ints[..]) {
            ("Range", [a, b]) => (a.clone(), b.clone()),
            ("RangeFrom", [a]) => (a.clone(), n.clone()),
            ("RangeTo", [b]) => (Lin::k(0), b.clone()),
            ("RangeFull", []) => (Lin::k(0), n.clone()),
            ("RangeInclusive", [a, b]) => (a.clone(), b.addk(1)),
            ("RangeToInclusive", [b]) => (Lin::k(0), b.addk(1)),
            _ => return Err(Need::Unsup(format!("indexing by {}", name))),
        };
        let ok = st.decide(&Cond::ge(&b, &a))? && st.decide(&Cond::ge(&n, &b))? && self.bnd(st, &p, &a, &n)? && self.bnd(st, &p, &b, &n)?;
        if panicked {
            if ok {
                f.push(Fail { prop: "V04", rule: "spurious panic", msg: format!("panics for the valid range {:?}..{:?} of {:?} bytes", a, b, n) });
                f.push(Fail { prop: "S03", rule: "panic", msg: format!("panics for the valid range {:?}..{:?} of {:?} bytes", a, b, n) });
            }
            return Ok(f);
        }
        if !ok {
            f.push(Fail { prop: "V04", rule: "accepted", msg: format!("accepts the invalid range {:?}..{:?} of {:?} bytes", a, b, n) });
            return Ok(f);
        }
        let ret = st.ghost.get("ret").cloned().unwrap_or(Val::Top);
        let (base, off, len) = self.as_slice(st, &ret, e.output)?;
        let t = st.slice_text(&base, &off, &len)?;
        let want = st.text_slice(&p, &a, &b)?;
        if !st.text_eq(&t, &want)? {
            f.push(Fail { prop: "V04", rule: "selection", msg: format!("selects {:?} instead of {:?}", t, want) });
        }
        if let ty::Ref(_, _, m) = e.output.kind() {
            if m.is_mut() && st.decide(&Cond::ge(&text_len(&want), &Lin::k(1)))? {
                let obj = match self.arg(st, 0)? {
                    Val::Ref(l) => Some(l.obj),
                    _ => None,
                };
                if !matches!(&base, Base::Place(l) if Some(l.obj) == obj) {
                    f.push(Fail { prop: "V04", rule: "selection", msg: "the mutable part is not the string's own content".into() });
                }
                let (now, _) = self.now(st, e, 0)?.unwrap();
                if !st.text_eq(&now, &p)? {
                    f.push(Fail { prop: "V04", rule: "selection", msg: format!("indexing changes the content to {:?}", now) });
                }
            }
        }
        Ok(f)
    }
}

fn slices_in(v: &Val, t: Ty<'_>, out: &mut Vec<(Val, bool)>) {
    match (t.kind(), v) {
        (ty::Ref(_, x, _), Val::Slice { .. }) => out.push((v.clone(), x.is_str())),
        (ty::Tuple(ts), Val::Agg(f)) => {
            for (t, v) in ts.iter().zip(f) {
                slices_in(v, t, out);
            }
        }
        (ty::Adt(d, a), Val::Enum(_, f)) if d.is_enum() && f.len() == 1 && a.types().count() >= 1 => slices_in(&f[0], a.type_at(0), out),
        _ => {}
    }
}
fn concrete(st: &State, v: &Val) -> bool {
    match v {
        Val::Bytes(t) => st.text_lit(t).is_some() || text_len(t).is_const() == Some(0),
        Val::Int(l) => l.is_const().is_some(),
        Val::Bool(c) => matches!(c, Cond::T | Cond::F),
        Val::Agg(f) | Val::Enum(_, f) => f.iter().all(|x| concrete(st, x)),
        _ => false,
    }
}
fn lits_in(st: &State, v: &Val, s: &mut String) {
    match v {
        Val::Bytes(t) => {
            if let Some(l) = st.text_lit(t) {
                s.push_str(&l);
            }
        }
        Val::Agg(f) | Val::Enum(_, f) => f.iter().for_each(|x| lits_in(st, x, s)),
        _ => {}
    }
}

pub type Stats = BTreeMap<String, u64>;
