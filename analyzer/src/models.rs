//! Transfer functions of the primitives everything else is built from: string slices, characters, raw memory,
//! integer helpers, formatting and hashing sinks, and caller-supplied code.  Everything not listed here is
//! interpreted from its own MIR.

use crate::dom::*;
use crate::interp::*;
use crate::lin::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty};

pub type Outs = Vec<(State, Out)>;

fn one(st: &State, v: Val) -> R<Option<Outs>> {
    Ok(Some(vec![(st.clone(), Out::Ret(v))]))
}
pub fn none_v() -> Val {
    Val::Enum(0, vec![])
}
pub fn some_v(v: Val) -> Val {
    Val::Enum(1, vec![v])
}
pub fn ok_v(v: Val) -> Val {
    Val::Enum(0, vec![v])
}
pub fn err_v(v: Val) -> Val {
    Val::Enum(1, vec![v])
}
fn lits(v: &[&str], s: &str) -> bool {
    v.contains(&s)
}

impl<'tcx> Cx<'tcx> {
    /// an obligation whose failure is reported but does not end the path
    pub fn soft(&mut self, st: &mut State, c: Cond, rule: &str, m: impl Fn() -> String, site: &str) -> R<()> {
        self.stat("S02 preconditions of unchecked operations");
        match st.eval(&c) {
            Some(true) => Ok(()),
            None => Err(Need::Split(c)),
            Some(false) => {
                self.viol(st, "S02", rule, m(), site, false);
                Ok(())
            }
        }
    }
    pub fn panic(&self, st: &State, m: &str, site: &str) -> Outs {
        vec![(st.clone(), Out::Panic { msg: m.to_string(), site: self.local_site(site) })]
    }
    pub fn pointee(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        match t.kind() {
            ty::Ref(_, t, _) | ty::RawPtr(t, _) => *t,
            ty::Adt(d, a) if d.is_box() || self.tcx.item_name(d.did()).as_str() == "NonNull" => a.type_at(0),
            _ => t,
        }
    }
    /// a reference or pointer to a str / slice / byte array
    pub fn as_slice(&mut self, st: &mut State, v: &Val, ty: Ty<'tcx>) -> R<(Base, Lin, Lin)> {
        match v {
            Val::Slice { base, off, len } => Ok((base.clone(), off.clone(), len.clone())),
            Val::Ref(l) => match st.load(l).cloned() {
                Some(Val::Bytes(t)) => Ok((Base::Place(l.clone()), Lin::k(0), text_len(&t))),
                Some(Val::Agg(f)) => Ok((Base::Place(l.clone()), Lin::k(0), Lin::k(f.len() as i128))),
                v => Err(Need::Unsup(format!("slice view of {:?}", v))),
            },
            Val::BPtr { base: Base::Null, .. } => Ok((Base::Null, Lin::k(0), Lin::k(0))),
            Val::Agg(f) if f.len() == 1 => {
                let x = f[0].clone();
                self.as_slice(st, &x, ty)
            }
            Val::Opaque(_) | Val::Top => {
                let p = self.pointee(ty);
                match self.havoc_ref(st, p, "slice") {
                    Val::Slice { base, off, len } => Ok((base, off, len)),
                    _ => Err(Need::Unsup("slice".into())),
                }
            }
            v => Err(Need::Unsup(format!("slice view of {:?}", v))),
        }
    }
    pub fn text_of(&mut self, st: &mut State, v: &Val, ty: Ty<'tcx>) -> R<Text> {
        let (b, o, l) = self.as_slice(st, v, ty)?;
        st.slice_text(&b, &o, &l)
    }
    fn mk(base: &Base, off: Lin, len: Lin) -> Val {
        Val::Slice { base: base.clone(), off, len }
    }

    /// is `idx` a character boundary of the str at base[off..off+len)
    pub fn str_bnd(&mut self, st: &mut State, base: &Base, off: &Lin, len: &Lin, idx: &Lin) -> R<Cond> {
        if idx.is_const() == Some(0) || idx == len {
            return Ok(Cond::T);
        }
        if !st.decide(&Cond::ge(len, idx))? {
            return Ok(Cond::F);
        }
        if let Base::Ext(s) = base {
            return Ok(Cond::Bnd(*s, off.add(idx)));
        }
        if st.decide(&Cond::ge(idx, len))? {
            return Ok(Cond::T);
        }
        let t = st.slice_text(base, &Lin::k(0), &off.add(len))?;
        match st.locate(&t, &off.add(idx))? {
            Some((_, Src::Str(s), o)) => Ok(Cond::Bnd(s, o)),
            Some((_, Src::Zero, _)) => Ok(Cond::T),
            Some((_, Src::Junk(_), _)) => Ok(Cond::Opaque(fresh_id())),
            None => Ok(Cond::T),
        }
    }

    /// start and end of a range value applied to something of length `len`
    pub fn range_of(&mut self, st: &mut State, r: &Val, name: &str, len: &Lin) -> R<(Lin, Lin)> {
        let f: Vec<Val> = match r {
            Val::Agg(f) => f.clone(),
            v => return Err(Need::Unsup(format!("range {:?}", v))),
        };
        Ok(match name {
            "Range" => (self.as_int(st, &f[0])?, self.as_int(st, &f[1])?),
            "RangeFrom" => (self.as_int(st, &f[0])?, len.clone()),
            "RangeTo" => (Lin::k(0), self.as_int(st, &f[0])?),
            "RangeFull" => (Lin::k(0), len.clone()),
            "RangeToInclusive" => (Lin::k(0), self.as_int(st, &f[0])?.addk(1)),
            "RangeInclusive" => {
                let a = self.as_int(st, &f[0])?;
                let b = self.as_int(st, &f[1])?.addk(1);
                let x = match f.get(2) {
                    Some(v) => {
                        let c = self.as_cond(st, v)?;
                        st.decide(&c)?
                    }
                    None => false,
                };
                if x {
                    (b.clone(), b)
                } else {
                    (a, b)
                }
            }
            _ => return Err(Need::Unsup(format!("range type {}", name))),
        })
    }

    fn slice_index(&mut self, st: &mut State, rname: &str, meth: &str, args: &[Val], tys: &[Ty<'tcx>], site: &str) -> R<Option<Outs>> {
        let is_str = self.pointee(tys[1]).is_str();
        let (base, off, len) = self.as_slice(st, &args[1], tys[1])?;
        let unchecked = meth.contains("unchecked");
        let get = meth.starts_with("get") && !unchecked;
        if rname == "usize" {
            let i = self.as_int(st, &args[0])?;
            let inb = st.eval(&Cond::lt(&i, &len));
            if unchecked {
                self.soft(st, Cond::lt(&i, &len), "get_unchecked", || format!("index {:?} of {:?} elements", i, len), site)?;
            } else {
                match inb {
                    None => return Err(Need::Split(Cond::lt(&i, &len))),
                    Some(false) if get => return one(st, none_v()),
                    Some(false) => return Ok(Some(self.panic(st, "index out of bounds", site))),
                    _ => {}
                }
            }
            let pv = self.index(st, Pv::Un { base, off, len }, i)?;
            let v = match pv {
                Pv::Loc(l) => Val::Ref(l),
                Pv::El { base, off } => Val::BPtr { base, off },
                _ => return Err(Need::Unsup("index".into())),
            };
            return one(st, if get { some_v(v) } else { v });
        }
        let (a, b) = self.range_of(st, &args[0], rname, &len)?;
        let res = Self::mk(&base, off.add(&a), b.sub(&a));
        if unchecked {
            self.soft(st, Cond::ge(&b, &a), "get_unchecked", || format!("range {:?}..{:?} is inverted", a, b), site)?;
            self.soft(st, Cond::ge(&len, &b), "get_unchecked", || format!("range {:?}..{:?} of {:?} bytes", a, b, len), site)?;
            if is_str {
                for x in [&a, &b] {
                    let c = self.str_bnd(st, &base, &off, &len, x)?;
                    self.soft(st, c, "get_unchecked", || format!("{:?} is not a character boundary", x), site)?;
                }
            }
            return one(st, res);
        }
        let mut ok = st.decide(&Cond::ge(&b, &a))? && st.decide(&Cond::ge(&len, &b))?;
        if ok && is_str {
            for x in [&a, &b] {
                let c = self.str_bnd(st, &base, &off, &len, x)?;
                if !st.decide(&c)? {
                    ok = false;
                    break;
                }
            }
        }
        match (ok, get) {
            (true, true) => one(st, some_v(res)),
            (true, false) => one(st, res),
            (false, true) => one(st, none_v()),
            (false, false) => Ok(Some(self.panic(st, "range out of bounds or not on character boundaries", site))),
        }
    }

    // ------------------------------------------------------------------------------------------ iterators

    fn place_of(&self, v: &Val) -> Option<Loc> {
        match v {
            Val::Ref(l) => Some(l.clone()),
            Val::Agg(f) if f.len() == 1 => self.place_of(&f[0]),
            _ => None,
        }
    }
    /// the innermost iterator state kept at a place
    fn iter_at(&mut self, st: &State, v: &Val) -> R<(Loc, Val)> {
        let mut l = self.place_of(v).ok_or_else(|| Need::Unsup(format!("iterator {:?}", v)))?;
        for _ in 0..6 {
            match st.load(&l) {
                Some(x @ (Val::Chars { .. } | Val::BIter { .. } | Val::Decode(_) | Val::User(_))) => return Ok((l.clone(), x.clone())),
                Some(Val::Ref(m)) => l = m.clone(),
                Some(Val::Agg(f)) if f.len() == 1 => l = l.push(Proj::Field(0)),
                // a CharIndices built from its fields
                Some(Val::Agg(f)) if matches!(&f[..], [Val::Int(_), Val::Chars { indices: false, .. }]) => {
                    if let (Val::Int(o), Val::Chars { base, front, back, .. }) = (&f[0], &f[1]) {
                        let start = front.sub(o);
                        return Ok((l.clone(), Val::Chars { base: base.clone(), front: front.clone(), back: back.clone(), start, indices: true }));
                    }
                }
                x => return Err(Need::Unsup(format!("iterator state {:?}", x))),
            }
        }
        Err(Need::Unsup("iterator state".into()))
    }
    fn chars_next(&mut self, st: &mut State, loc: &Loc, it: &Val, back: bool) -> R<Option<Outs>> {
        let Val::Chars { base, front, back: end, start, indices } = it.clone() else { return Err(Need::Unsup("chars".into())) };
        if st.decide(&Cond::ge(&front, &end))? {
            return one(st, none_v());
        }
        let t = st.slice_text(&base, &Lin::k(0), &end)?;
        let mut s = st.clone();
        let at = if back { end.addk(-1) } else { front.clone() };
        let (src, o) = match st.locate(&t, &at)? {
            Some((_, src, o)) => (src, o),
            None => return Err(Need::Unsup("character position".into())),
        };
        let c = match src {
            Src::Zero => s.const_char('\0'),
            Src::Str(x) => {
                if back {
                    s.char_before(x, &o.addk(1))
                } else {
                    s.char_at(x, &o)
                }
            }
            Src::Junk(_) => return Err(Need::Unsup("iteration over bytes that are not known to be text".into())),
        };
        let len = s.chars[&c].len.clone();
        // the slice is valid UTF-8: the character does not extend past it
        s.cons.add_ge(end.sub(&front).sub(&len));
        s.saturate();
        if s.dead || !s.cons.feasible_with(&[]) {
            return Ok(Some(vec![]));
        }
        let (nf, nb, pos) = if back {
            (front, end.sub(&len), end.sub(&len).sub(&start))
        } else {
            let p = front.sub(&start);
            (front.add(&len), end, p)
        };
        s.store(loc, Val::Chars { base, front: nf, back: nb, start, indices });
        let v = if indices { Val::Agg(vec![Val::Int(pos), Val::Char(c)]) } else { Val::Char(c) };
        one(&s, some_v(v))
    }
    fn elem(&mut self, st: &mut State, base: &Base, off: &Lin, kind: u8, ety: Ty<'tcx>) -> R<Val> {
        if kind == 1 {
            return self.read_byte(st, base, off, ety);
        }
        let pv = self.index(st, Pv::Un { base: base.clone(), off: Lin::k(0), len: Lin::k(0) }, off.clone())?;
        Ok(match pv {
            Pv::Loc(l) => Val::Ref(l),
            Pv::El { base, off } => Val::BPtr { base, off },
            _ => return Err(Need::Unsup("element".into())),
        })
    }
    fn biter_next(&mut self, st: &mut State, loc: &Loc, it: &Val, back_end: bool, rty: Ty<'tcx>) -> R<Option<Outs>> {
        let Val::BIter { base, front, back, kind } = it.clone() else { return Err(Need::Unsup("slice iterator".into())) };
        if st.decide(&Cond::ge(&front, &back))? {
            return one(st, none_v());
        }
        let mut s = st.clone();
        let (at, nf, nb) =
            if back_end { (back.addk(-1), front, back.addk(-1)) } else { (front.clone(), front.addk(1), back) };
        let ety = match rty.kind() {
            ty::Adt(_, a) if a.len() > 0 => a.type_at(0),
            _ => self.tcx.types.u8,
        };
        let v = self.elem(&mut s, &base, &at, kind, ety)?;
        s.store(loc, Val::BIter { base, front: nf, back: nb, kind });
        one(&s, some_v(v))
    }

    /// execute the provided body of a trait method even though the type overrides it
    fn default_body(&mut self, st: &mut State, tr: &str, name: &str, gargs: GenericArgsRef<'tcx>, def: DefId, args: &[Val], tys: &[Ty<'tcx>], site: &str) -> R<Option<Outs>> {
        let tcx = self.tcx;
        // def may be the trait method itself or an implementation of it
        let tm = match tcx.trait_of_assoc(def) {
            Some(_) => Some(def),
            None => tcx.trait_item_of(def),
        };
        let Some(tm) = tm else { return Ok(None) };
        if tcx.item_name(tm).as_str() != name || !tcx.defaultness(tm).has_value() {
            return Ok(None);
        }
        let _ = tr;
        let targs = if tm == def {
            gargs
        } else {
            // Self is the receiver's pointee; trailing own generics follow the impl's
            let n_impl = tcx.generics_of(def).parent_count;
            let own: Vec<_> = gargs.iter().skip(n_impl).collect();
            let mut selfty = tys[0];
            if !tcx.fn_sig(tm).instantiate_identity().skip_norm_wip().skip_binder().inputs()[0].is_param(0) {
                selfty = self.pointee(selfty);
            }
            let ntr = tcx.generics_of(tcx.parent(tm)).own_params.len();
            let mut v: Vec<ty::GenericArg<'tcx>> = vec![selfty.into()];
            if ntr != 1 {
                return Ok(None);
            }
            v.extend(own);
            tcx.mk_args(&v)
        };
        let inst = Instance::new_raw(tm, targs);
        if self.body_info(inst, None).is_none() {
            return Ok(None);
        }
        Ok(Some(self.exec_fn(st.clone(), inst, args.to_vec(), site)))
    }

    // ------------------------------------------------------------------------------------------ effects

    /// copy of everything a value shows at this moment
    pub fn snap(&self, st: &State, v: &Val, depth: u32) -> Val {
        if depth > 8 {
            return Val::Top;
        }
        match v {
            Val::Slice { base, off, len } => match st.slice_text(base, off, len) {
                Ok(t) => Val::Bytes(t),
                Err(_) => match base {
                    Base::Place(l) => st.load(l).map(|x| self.snap(st, x, depth + 1)).unwrap_or(Val::Top),
                    _ => Val::Top,
                },
            },
            Val::Ref(l) => match st.load(l) {
                Some(x) => self.snap(st, x, depth + 1),
                None => Val::Top,
            },
            Val::Agg(f) => Val::Agg(f.iter().map(|x| self.snap(st, x, depth + 1)).collect()),
            Val::Enum(k, f) => Val::Enum(*k, f.iter().map(|x| self.snap(st, x, depth + 1)).collect()),
            Val::BPtr { .. } => Val::Top,
            v => v.clone(),
        }
    }
    pub fn effect(&mut self, st: &mut State, what: &str, args: &[Val], ret: Option<Val>) {
        let a = args.iter().map(|v| self.snap(st, v, 0)).collect();
        st.effects.push(Effect { what: what.into(), args: a, ret });
    }
    fn is_fmt_result(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Adt(d, a) if self.tcx.item_name(d.did()).as_str() == "Result" => {
                matches!(a.type_at(0).kind(), ty::Tuple(x) if x.is_empty())
                    && matches!(a.type_at(1).kind(), ty::Adt(e, _) if self.key(e.did()) == "core:fmt::Error")
            }
            _ => false,
        }
    }
    /// an observable call on a formatter / hasher / serializer: all results are possible and are recorded
    fn effect_call(&mut self, st: &mut State, what: &str, args: &[Val], rty: Ty<'tcx>, may_unwind: bool) -> R<Option<Outs>> {
        let mut outs = vec![];
        if self.is_fmt_result(rty) {
            for v in [ok_v(Val::unit()), err_v(Val::unit())] {
                let mut s = st.clone();
                self.effect(&mut s, what, args, Some(v.clone()));
                outs.push((s, Out::Ret(v)));
            }
        } else {
            let mut s = st.clone();
            let v = if matches!(rty.kind(), ty::Tuple(x) if x.is_empty()) { Val::unit() } else { self.havoc(&mut s, rty, what, 0) };
            self.effect(&mut s, what, args, Some(v.clone()));
            outs.push((s, Out::Ret(v)));
        }
        if may_unwind {
            let mut s = st.clone();
            self.effect(&mut s, what, args, None);
            outs.push((s, Out::Unwind));
        }
        Ok(Some(outs))
    }

    // ------------------------------------------------------------------------------------------ whitespace trimming

    /// s[a..b) with leading characters satisfying p removed
    fn trim_start_of(&mut self, st: State, s: StrId, a: &Lin, b: &Lin, p: &str) -> Vec<(State, Lin)> {
        let mut out = vec![];
        // nothing left
        {
            let mut x = st.clone();
            x.facts.rp.push((p.into(), true, s, a.clone(), b.clone()));
            out.push((x, b.clone()));
        }
        let mut x = st;
        let k = x.fresh_int("trimmed", 0, MAXLEN);
        let at = a.add(&k);
        x.cons.add_ge(b.sub(&at).addk(-1));
        x.add_bnd(s, at.clone());
        x.facts.rp.push((p.into(), true, s, a.clone(), at.clone()));
        let c = x.char_at(s, &at);
        let l = x.chars[&c].len.clone();
        x.cons.add_ge(b.sub(&at).sub(&l));
        for y in x.assume(&Cond::Pred(p.into(), c), false) {
            out.push((y, at.clone()));
        }
        out
    }
    fn trim_end_of(&mut self, st: State, s: StrId, a: &Lin, b: &Lin, p: &str) -> Vec<(State, Lin)> {
        let mut out = vec![];
        {
            let mut x = st.clone();
            x.facts.rp.push((p.into(), true, s, a.clone(), b.clone()));
            out.push((x, a.clone()));
        }
        let mut x = st;
        let k = x.fresh_int("kept", 1, MAXLEN);
        let at = a.add(&k);
        x.cons.add_ge(b.sub(&at));
        x.add_bnd(s, at.clone());
        x.facts.rp.push((p.into(), true, s, at.clone(), b.clone()));
        let c = x.char_before(s, &at);
        let l = x.chars[&c].len.clone();
        x.cons.add_ge(k.sub(&l));
        for y in x.assume(&Cond::Pred(p.into(), c), false) {
            out.push((y, at.clone()));
        }
        out
    }

    // ------------------------------------------------------------------------------------------ the table

    pub fn model(
        &mut self,
        st: &mut State,
        key: &str,
        def: DefId,
        gargs: GenericArgsRef<'tcx>,
        args: &[Val],
        tys: &[Ty<'tcx>],
        rty: Ty<'tcx>,
        site: &str,
    ) -> R<Option<Outs>> {
        if (key.starts_with("log:") || key.starts_with("log::")) && !log_compare(key) {
            return self.log_call(st, key, args, tys, rty, site);
        }
        if log_compare(key) && key.starts_with("log:") && args.len() == 2 {
            let mut ds = vec![];
            for (a, t) in args.iter().zip(tys) {
                let t = self.pointee(*t);
                let (Val::Ref(l), ty::Adt(d, _)) = (a, t.kind()) else { return Ok(None) };
                let Some(Val::Enum(k, _)) = st.load(l) else { return Ok(None) };
                if !d.is_enum() {
                    return Ok(None);
                }
                ds.push(t.discriminant_for_variant(self.tcx, rustc_abi::VariantIdx::from_u32(*k)).unwrap().val as i128);
            }
            let c = |b: bool| Val::Bool(Cond::b(b));
            let o = Val::Enum((ds[0].cmp(&ds[1]) as i8 + 1) as u32, vec![]);
            let v = match key.rsplit("::").next().unwrap() {
                "partial_cmp" => Val::Enum(1, vec![o]),
                "cmp" => o,
                "eq" => c(ds[0] == ds[1]),
                "ne" => c(ds[0] != ds[1]),
                "lt" => c(ds[0] < ds[1]),
                "le" => c(ds[0] <= ds[1]),
                "gt" => c(ds[0] > ds[1]),
                "ge" => c(ds[0] >= ds[1]),
                _ => return Ok(None),
            };
            return one(st, v);
        }
        let Some(rest) = key.strip_prefix("core:") else { return Ok(None) };
        let (owner, name) = match rest.rfind("::") {
            Some(i) => (&rest[..i], &rest[i + 2..]),
            None => ("", rest),
        };
        let int_self = tys.get(0).map_or(false, |t| int_range(*t).is_some());

        if let Some(r) = owner.strip_prefix('<').and_then(|o| o.strip_suffix(" as SliceIndex>")) {
            if lits(&["get", "get_mut", "get_unchecked", "get_unchecked_mut", "index", "index_mut"], name) {
                let r = r.to_string();
                return self.slice_index(st, &r, name, args, tys, site);
            }
        }
        match (owner, name) {
            // -------------------------------------------------------------------- diverging
            ("intrinsics", "unreachable") | ("hint", "unreachable_unchecked") | ("panicking", "panic_nounwind") | ("panicking", "panic_nounwind_fmt") => {
                return Err(Need::Ub("code declared unreachable can be reached".into()));
            }
            ("intrinsics", "abort") | ("process", "abort") | ("process", "exit") => {
                return Ok(Some(self.panic(st, "the process is ended", site)));
            }
            ("hint", "assert_unchecked") | ("intrinsics", "assume") => {
                let c = self.as_cond(st, &args[0])?;
                self.soft(st, c, "assert_unchecked", || "an assumption given to the compiler may be false".into(), site)?;
                return one(st, Val::unit());
            }
            ("intrinsics", "likely") | ("intrinsics", "unlikely") | ("hint", "likely") | ("hint", "unlikely") | ("hint", "black_box") | ("intrinsics", "black_box") => {
                return one(st, args[0].clone());
            }
            ("intrinsics", "cold_path") | ("hint", "cold_path") | ("mem", "forget") | ("intrinsics", "forget") => return one(st, Val::unit()),
            ("intrinsics", "ub_checks") | ("intrinsics", "contract_checks") => return one(st, Val::b(false)),
            ("intrinsics", "overflow_checks") => return one(st, Val::b(self.overflow_checks)),
            ("intrinsics", "is_val_statically_known") => return one(st, Val::b(false)),
            ("intrinsics", "const_eval_select") => {
                let f = gargs.type_at(2);
                let (vals, vtys) = match (&args[0], tys[0].kind()) {
                    (Val::Agg(f), ty::Tuple(t)) => (f.clone(), t.iter().collect::<Vec<_>>()),
                    _ => return Err(Need::Unsup("const_eval_select".into())),
                };
                if let ty::FnDef(d, a) = *f.kind() {
                    let a = a.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(self.tcx, d));
                    return Ok(Some(self.call_def(st, d, a, vals, vtys, rty, site)?));
                }
                return Err(Need::Unsup("const_eval_select".into()));
            }

            // -------------------------------------------------------------------- integers
            (_, "saturating_add") | (_, "saturating_sub") if int_self => {
                let (a, b) = (self.as_int(st, &args[0])?, self.as_int(st, &args[1])?);
                let (lo, hi, _) = int_range(tys[0]).unwrap();
                let r = if name == "saturating_add" { a.add(&b) } else { a.sub(&b) };
                if !st.decide(&Cond::ge(&r, &Lin::k(lo)))? {
                    return one(st, Val::int(lo));
                }
                if !st.decide(&Cond::ge(&Lin::k(hi), &r))? {
                    return one(st, Val::int(hi));
                }
                return one(st, Val::Int(r));
            }
            (_, "checked_add") | (_, "checked_sub") | (_, "overflowing_add") | (_, "overflowing_sub") | (_, "add_with_overflow") | (_, "sub_with_overflow")
                if int_self && int_range(tys[1]).is_some() && tys[0] == tys[1] =>
            {
                let (a, b) = (self.as_int(st, &args[0])?, self.as_int(st, &args[1])?);
                let (lo, hi, _) = int_range(tys[0]).unwrap();
                let r = if name.contains("add") { a.add(&b) } else { a.sub(&b) };
                let ok = st.decide(&Cond::ge(&r, &Lin::k(lo)))? && st.decide(&Cond::ge(&Lin::k(hi), &r))?;
                if name.starts_with("checked") {
                    return one(st, if ok { some_v(Val::Int(r)) } else { none_v() });
                }
                let w = self.wrap(st, r, tys[0])?;
                return one(st, Val::Agg(vec![Val::Int(w), Val::b(!ok)]));
            }
            (_, "wrapping_add") | (_, "wrapping_sub") if int_self && tys.get(1) == tys.get(0) => {
                let (a, b) = (self.as_int(st, &args[0])?, self.as_int(st, &args[1])?);
                let r = if name == "wrapping_add" { a.add(&b) } else { a.sub(&b) };
                let w = self.wrap(st, r, tys[0])?;
                return one(st, Val::Int(w));
            }
            (_, "unchecked_add") | (_, "unchecked_sub") if int_self && tys.get(1) == tys.get(0) => {
                let (a, b) = (self.as_int(st, &args[0])?, self.as_int(st, &args[1])?);
                let (lo, hi, _) = int_range(tys[0]).unwrap();
                let r = if name == "unchecked_add" { a.add(&b) } else { a.sub(&b) };
                self.soft(st, Cond::ge(&r, &Lin::k(lo)), "unchecked arithmetic", || "unchecked arithmetic overflows".into(), site)?;
                self.soft(st, Cond::ge(&Lin::k(hi), &r), "unchecked arithmetic", || "unchecked arithmetic overflows".into(), site)?;
                return one(st, Val::Int(r));
            }
            (_, "abs_diff") if int_self => {
                let (a, b) = (self.as_int(st, &args[0])?, self.as_int(st, &args[1])?);
                let r = if st.decide(&Cond::ge(&a, &b))? { a.sub(&b) } else { b.sub(&a) };
                return one(st, Val::Int(r));
            }
            (_, "min") | (_, "max") if int_self && args.len() == 2 => {
                let (a, b) = (self.as_int(st, &args[0])?, self.as_int(st, &args[1])?);
                let ge = st.decide(&Cond::ge(&a, &b))?;
                return one(st, Val::Int(if ge == (name == "max") { a } else { b }));
            }
            (_, "clamp") if int_self && args.len() == 3 => {
                let (x, lo, hi) = (self.as_int(st, &args[0])?, self.as_int(st, &args[1])?, self.as_int(st, &args[2])?);
                if !st.decide(&Cond::ge(&hi, &lo))? {
                    return Ok(Some(self.panic(st, "clamp with an empty range", site)));
                }
                if !st.decide(&Cond::ge(&x, &lo))? {
                    return one(st, Val::Int(lo));
                }
                if !st.decide(&Cond::ge(&hi, &x))? {
                    return one(st, Val::Int(hi));
                }
                return one(st, Val::Int(x));
            }
            ("intrinsics", "three_way_compare") => return Ok(Some(vec![(st.clone(), Out::Ret(self.binop(st, rustc_middle::mir::BinOp::Cmp, args[0].clone(), args[1].clone(), tys[0], tys[1])?))])),

            // -------------------------------------------------------------------- sizes and memory
            ("mem", "size_of") | ("intrinsics", "size_of") | ("SizedTypeProperties", "SIZE") | ("mem", "align_of") | ("intrinsics", "align_of") | ("intrinsics", "min_align_of") => {
                let t = gargs.type_at(0);
                if !has_params_ty(t) {
                    if let Ok(l) = self.tcx.layout_of(self.env.as_query_input(t)) {
                        let k = if name.contains("align") { l.align.abi.bytes() } else { l.size.bytes() };
                        return one(st, Val::int(k as i128));
                    }
                }
                if name.contains("align") {
                    if self.is_array_string(t) {
                        return one(st, Val::int(1));
                    }
                } else if let ty::Array(e, n) = t.kind() {
                    if *e == self.tcx.types.u8 {
                        let n = self.ct_lin(st, *n)?;
                        return one(st, Val::Int(n));
                    }
                } else if self.is_array_string(t) {
                    if let ty::Adt(_, a) = t.kind() {
                        if let Some(c) = a.consts().next() {
                            let n = self.ct_lin(st, c)?;
                            return one(st, Val::Int(n.addk(1)));
                        }
                    }
                }
                let l = st.fresh_int("size", 0, MAXLEN);
                return one(st, Val::Int(l));
            }
            ("mem", "size_of_val") | ("intrinsics", "size_of_val") => {
                let inner = self.pointee(tys[0]);
                let bytes = inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == self.tcx.types.u8);
                match &args[0] {
                    Val::Slice { len, .. } if bytes => return one(st, Val::Int(len.clone())),
                    _ => {}
                }
                if !has_params_ty(inner) {
                    if let Ok(l) = self.tcx.layout_of(self.env.as_query_input(inner)) {
                        if l.is_sized() {
                            return one(st, Val::int(l.size.bytes() as i128));
                        }
                    }
                }
                let l = st.fresh_int("size", 0, MAXLEN);
                return one(st, Val::Int(l));
            }
            ("mem", "swap") => {
                if let (Some(a), Some(b)) = (self.place_of(&args[0]), self.place_of(&args[1])) {
                    if let (Some(x), Some(y)) = (st.load(&a).cloned(), st.load(&b).cloned()) {
                        let mut s = st.clone();
                        s.store(&a, y);
                        s.store(&b, x);
                        return one(&s, Val::unit());
                    }
                }
            }
            ("ptr", "read") | ("*const", "read") | ("*mut", "read") | ("ptr", "read_unaligned") | ("intrinsics", "read_via_copy") | ("ptr", "read_volatile") | ("*const", "read_unaligned") | ("*mut", "read_unaligned") => {
                let inner = self.pointee(tys[0]);
                let pv = self.deref(st, &Pv::Loc(Loc::obj(u32::MAX)), &args[0], tys[0])?;
                let v = self.read_pv(st, &pv, inner)?;
                return one(st, v);
            }
            ("ptr", "write") | ("*mut", "write") | ("ptr", "write_unaligned") | ("intrinsics", "write_via_move") | ("*mut", "write_unaligned") => {
                let pv = self.deref(st, &Pv::Loc(Loc::obj(u32::MAX)), &args[0], tys[0])?;
                let mut s = st.clone();
                self.write_pv(&mut s, &pv, args[1].clone())?;
                return one(&s, Val::unit());
            }
            ("ptr", "copy") | ("intrinsics", "copy") | ("ptr", "copy_nonoverlapping") | ("intrinsics", "copy_nonoverlapping") => {
                let mut s = st.clone();
                self.elem_u8(&s, tys[0])?;
                self.mem_copy(&mut s, &args[0], &args[1], &args[2], name == "copy_nonoverlapping")?;
                return one(&s, Val::unit());
            }
            ("*const", "copy_to") | ("*mut", "copy_to") | ("*const", "copy_to_nonoverlapping") | ("*mut", "copy_to_nonoverlapping") => {
                let mut s = st.clone();
                self.elem_u8(&s, tys[0])?;
                self.mem_copy(&mut s, &args[0], &args[1], &args[2], name.ends_with("overlapping"))?;
                return one(&s, Val::unit());
            }
            ("*mut", "copy_from") | ("*mut", "copy_from_nonoverlapping") => {
                let mut s = st.clone();
                self.elem_u8(&s, tys[0])?;
                self.mem_copy(&mut s, &args[1], &args[0], &args[2], name.ends_with("overlapping"))?;
                return one(&s, Val::unit());
            }
            ("ptr", "write_bytes") | ("intrinsics", "write_bytes") | ("*mut", "write_bytes") => {
                let mut s = st.clone();
                let n = self.as_int(&mut s, &args[2])?;
                let z = matches!(&args[1], Val::Int(l) if l.is_const() == Some(0));
                let src = if z { Src::Zero } else { Src::Junk(fresh_id()) };
                let (b, o) = self.ptr_parts(&args[0]).ok_or_else(|| Need::Unsup("write_bytes".into()))?;
                self.write_bytes(&mut s, &b, &o, vec![Piece { src, from: Lin::k(0), to: n }])?;
                return one(&s, Val::unit());
            }
            ("*const", "add") | ("*mut", "add") | ("*const", "offset") | ("*mut", "offset") | ("*const", "wrapping_add") | ("*mut", "wrapping_add") | ("intrinsics", "offset") | ("intrinsics", "arith_offset")
            | ("*const", "byte_add") | ("*mut", "byte_add") => {
                self.elem_u8(st, tys[0])?;
                let n = self.as_int(st, &args[1])?;
                if name.contains("wrapping") || name == "arith_offset" {
                    return match self.ptr_parts(&args[0]) {
                        Some((base, off)) => one(st, Val::BPtr { base, off: off.add(&n) }),
                        None => Err(Need::Unsup("pointer".into())),
                    };
                }
                let v = self.ptr_offset(st, &args[0], &n, name)?;
                return one(st, v);
            }
            ("*const", "sub") | ("*mut", "sub") | ("*const", "wrapping_sub") | ("*mut", "wrapping_sub") | ("*const", "byte_sub") | ("*mut", "byte_sub") => {
                self.elem_u8(st, tys[0])?;
                let n = self.as_int(st, &args[1])?.neg();
                if name.contains("wrapping") {
                    return match self.ptr_parts(&args[0]) {
                        Some((base, off)) => one(st, Val::BPtr { base, off: off.add(&n) }),
                        None => Err(Need::Unsup("pointer".into())),
                    };
                }
                let v = self.ptr_offset(st, &args[0], &n, name)?;
                return one(st, v);
            }
            (_, "offset_from") | (_, "offset_from_unsigned") | (_, "sub_ptr") | (_, "byte_offset_from") | ("intrinsics", "ptr_offset_from") | ("intrinsics", "ptr_offset_from_unsigned")
                if args.len() == 2 =>
            {
                if let (Some((b1, o1)), Some((b2, o2))) = (self.ptr_parts(&args[0]), self.ptr_parts(&args[1])) {
                    if b1 == b2 {
                        let d = o1.sub(&o2);
                        if name.contains("unsigned") || name == "sub_ptr" {
                            self.soft(st, Cond::ge(&d, &Lin::k(0)), "offset_from", || "pointers in the wrong order".into(), site)?;
                        }
                        return one(st, Val::Int(d));
                    }
                }
                return Err(Need::Unsup("pointer difference".into()));
            }
            ("*const", "is_null") | ("*mut", "is_null") => match &args[0] {
                Val::Ref(_) | Val::Slice { .. } | Val::BPtr { .. } => return one(st, Val::b(false)),
                _ => return one(st, Val::Bool(Cond::Opaque(fresh_id()))),
            },
            ("*const", "cast") | ("*mut", "cast") | ("*const", "cast_mut") | ("*mut", "cast_const") | ("*const", "cast_const") => {
                return Ok(Some(vec![(st.clone(), Out::Ret(self.cast(st, rustc_middle::mir::CastKind::PtrToPtr, args[0].clone(), tys[0], rty)?))]));
            }
            ("raw", "from_raw_parts") | ("raw", "from_raw_parts_mut") | ("ptr", "slice_from_raw_parts") | ("ptr", "slice_from_raw_parts_mut") | ("traits", "from_raw_parts") | ("metadata", "from_raw_parts") | ("converts", "from_raw_parts")
            | ("converts", "from_raw_parts_mut")
                if args.len() == 2 && (self.pointee(rty).is_str() || self.pointee(rty).is_slice()) =>
            {
                let n = self.as_int(st, &args[1])?;
                let (base, off) = self.ptr_parts(&args[0]).ok_or_else(|| Need::Unsup(format!("raw slice of {:?}", args[0])))?;
                if !name.starts_with("slice_") {
                    let cap = st.base_cap(&base).ok_or_else(|| Need::Unsup("raw slice".into()))?;
                    self.soft(st, Cond::ge(&off, &Lin::k(0)), "from_raw_parts", || "slice starts before its data".into(), site)?;
                    self.soft(st, Cond::ge(&cap, &off.add(&n)), "from_raw_parts", || format!("slice of {:?}+{:?} of {:?} bytes", off, n, cap), site)?;
                }
                let v = Self::mk(&base, off, n);
                if self.pointee(rty).is_str() {
                    let t = self.text_of(st, &v, rty)?;
                    self.check_utf8(st, &t, "from_raw_parts", site)?;
                }
                return one(st, v);
            }

            // -------------------------------------------------------------------- str
            ("str", "len") | ("[T]", "len") | ("[u8]", "len") | ("*const", "len") | ("*mut", "len") | ("NonNull", "len") if args.len() == 1 => {
                let (_, _, l) = self.as_slice(st, &args[0], tys[0])?;
                return one(st, Val::Int(l));
            }
            ("str", "is_empty") | ("[T]", "is_empty") | ("[u8]", "is_empty") => {
                let (_, _, l) = self.as_slice(st, &args[0], tys[0])?;
                return one(st, Val::Bool(Cond::eq(&l, &Lin::k(0))));
            }
            ("str", "as_bytes") | ("str", "as_bytes_mut") | ("[T]", "as_slice") | ("[T;N]", "as_slice") | ("[T;N]", "as_mut_slice") | ("[T]", "as_mut_slice") | ("str", "as_str") => {
                let (b, o, l) = self.as_slice(st, &args[0], tys[0])?;
                return one(st, Self::mk(&b, o, l));
            }
            ("str", "as_ptr") | ("str", "as_mut_ptr") | ("[T]", "as_ptr") | ("[T]", "as_mut_ptr") | ("[T;N]", "as_ptr") | ("[T;N]", "as_mut_ptr") | ("[T]", "as_non_null") => {
                let (b, o, _) = self.as_slice(st, &args[0], tys[0])?;
                return one(st, Val::BPtr { base: b, off: o });
            }
            ("[T]", "as_ptr_range") | ("[T]", "as_mut_ptr_range") => {
                let (b, o, l) = self.as_slice(st, &args[0], tys[0])?;
                return one(st, Val::Agg(vec![Val::BPtr { base: b.clone(), off: o.clone() }, Val::BPtr { base: b, off: o.add(&l) }]));
            }
            ("str", "is_char_boundary") => {
                let (b, o, l) = self.as_slice(st, &args[0], tys[0])?;
                let i = self.as_int(st, &args[1])?;
                let c = self.str_bnd(st, &b, &o, &l, &i)?;
                return one(st, Val::Bool(c));
            }
            ("str", "floor_char_boundary") | ("str", "ceil_char_boundary") => {
                let (b, o, l) = self.as_slice(st, &args[0], tys[0])?;
                let i = self.as_int(st, &args[1])?;
                if st.decide(&Cond::ge(&i, &l))? {
                    return one(st, Val::Int(l));
                }
                let up = name.starts_with("ceil");
                let mut cur = i;
                for _ in 0..4 {
                    let c = self.str_bnd(st, &b, &o, &l, &cur)?;
                    if st.decide(&c)? {
                        return one(st, Val::Int(cur));
                    }
                    cur = cur.addk(if up { 1 } else { -1 });
                }
                return Err(Need::Unsup("boundary search".into()));
            }
            ("str", "split_at") | ("str", "split_at_mut") | ("str", "split_at_checked") | ("str", "split_at_mut_checked") | ("str", "split_at_unchecked") | ("str", "split_at_mut_unchecked")
            | ("[T]", "split_at") | ("[T]", "split_at_mut") | ("[T]", "split_at_checked") | ("[T]", "split_at_mut_checked") | ("[T]", "split_at_unchecked") | ("[T]", "split_at_mut_unchecked") => {
                let (b, o, l) = self.as_slice(st, &args[0], tys[0])?;
                let i = self.as_int(st, &args[1])?;
                let mut ok = st.decide(&Cond::ge(&l, &i))?;
                if ok && owner == "str" {
                    let c = self.str_bnd(st, &b, &o, &l, &i)?;
                    ok = st.decide(&c)?;
                }
                let v = Val::Agg(vec![Self::mk(&b, o.clone(), i.clone()), Self::mk(&b, o.add(&i), l.sub(&i))]);
                if name.ends_with("unchecked") {
                    self.soft(st, Cond::b(ok), "split_at_unchecked", || format!("position {:?} of {:?} bytes", i, l), site)?;
                    return one(st, v);
                }
                if name.ends_with("checked") {
                    return one(st, if ok { some_v(v) } else { none_v() });
                }
                if !ok {
                    return Ok(Some(self.panic(st, "split position", site)));
                }
                return one(st, v);
            }
            ("str", "chars") | ("str", "char_indices") => {
                let (b, o, l) = self.as_slice(st, &args[0], tys[0])?;
                return one(st, Val::Chars { base: b, front: o.clone(), back: o.add(&l), start: o, indices: name == "char_indices" });
            }
            ("str", "bytes") => {
                let (b, o, l) = self.as_slice(st, &args[0], tys[0])?;
                return one(st, Val::BIter { base: b, front: o.clone(), back: o.add(&l), kind: 1 });
            }
            ("[T]", "iter") | ("[T]", "iter_mut") | ("<&[T] as IntoIterator>", "into_iter") | ("<&mut [T] as IntoIterator>", "into_iter") | ("<&[T;N] as IntoIterator>", "into_iter") | ("<&mut [T;N] as IntoIterator>", "into_iter") => {
                let (b, o, l) = self.as_slice(st, &args[0], tys[0])?;
                return one(st, Val::BIter { base: b, front: o.clone(), back: o.add(&l), kind: 0 });
            }
            ("str", "trim") | ("str", "trim_start") | ("str", "trim_end") | ("str", "trim_left") | ("str", "trim_right") => {
                let (b, o, l) = self.as_slice(st, &args[0], tys[0])?;
                let t = st.slice_text(&b, &o, &l)?;
                if t.is_empty() {
                    return one(st, Self::mk(&b, o, Lin::k(0)));
                }
                let (Src::Str(s), 1) = (t[0].src, t.len()) else { return Err(Need::Unsup("trimming of a composed text".into())) };
                let (fa, fb) = (t[0].from.clone(), t[0].to.clone());
                let p = "is_whitespace";
                let mut res = vec![];
                let starts = if name != "trim_end" && name != "trim_right" { self.trim_start_of(st.clone(), s, &fa, &fb, p) } else { vec![(st.clone(), fa.clone())] };
                for (x, a) in starts {
                    let ends = if name == "trim_start" || name == "trim_left" || a == fb { vec![(x, fb.clone())] } else { self.trim_end_of(x, s, &a, &fb, p) };
                    for (y, e) in ends {
                        if y.dead || !y.cons.feasible_with(&[]) {
                            continue;
                        }
                        let v = Self::mk(&b, o.add(&a.sub(&fa)), e.sub(&a));
                        res.push((y, Out::Ret(v)));
                    }
                }
                return Ok(Some(res));
            }
            ("converts", "from_utf8_unchecked") | ("converts", "from_utf8_unchecked_mut") | ("str", "from_utf8_unchecked") | ("str", "from_utf8_unchecked_mut") => {
                let (b, o, l) = self.as_slice(st, &args[0], tys[0])?;
                let t = st.slice_text(&b, &o, &l)?;
                self.check_utf8(st, &t, "from_utf8_unchecked", site)?;
                return one(st, Self::mk(&b, o, l));
            }
            ("converts", "from_utf8") | ("converts", "from_utf8_mut") | ("str", "from_utf8") | ("str", "from_utf8_mut") => {
                let (b, o, l) = self.as_slice(st, &args[0], tys[0])?;
                let t = st.slice_text(&b, &o, &l)?;
                if let None = st.text_valid(&t)? {
                    return one(st, ok_v(Self::mk(&b, o, l)));
                }
                let mut outs = vec![];
                {
                    let mut s = st.clone();
                    if let (Base::Ext(r), 1) = (&b, t.len()) {
                        let r = *r;
                        if o.is_const() == Some(0) && l == st.str_len(r) {
                            s.strs.get_mut(&r).unwrap().kind = SKind::Item;
                            outs.push((s, Out::Ret(ok_v(Self::mk(&b, o.clone(), l.clone())))));
                        } else {
                            let n = s.new_str(SKind::Item, "validated");
                            let nl = s.str_len(n);
                            s.add_equality(&nl.sub(&l));
                            outs.push((s, Out::Ret(ok_v(Self::mk(&Base::Ext(n), Lin::k(0), l.clone())))));
                        }
                    } else {
                        let n = s.new_str(SKind::Item, "validated");
                        let nl = s.str_len(n);
                        s.add_equality(&nl.sub(&l));
                        outs.push((s, Out::Ret(ok_v(Self::mk(&Base::Ext(n), Lin::k(0), l.clone())))));
                    }
                }
                let mut s = st.clone();
                let up = s.fresh_int("valid_up_to", 0, MAXLEN);
                s.cons.add_ge(l.sub(&up));
                outs.push((s, Out::Ret(err_v(Val::Agg(vec![Val::Int(up), Val::Top])))));
                return Ok(Some(outs));
            }
            ("<str as PartialEq>", "eq") | ("<[T] as PartialEq>", "eq") | ("<str as PartialEq>", "ne") if args.len() == 2 => {
                if owner != "<str as PartialEq>" && !self.byte_slice(tys[0]) {
                    return Ok(None);
                }
                let (a, b) = (self.text_of(st, &args[0], tys[0])?, self.text_of(st, &args[1], tys[1])?);
                let c = Cond::TextEq(a, b);
                return one(st, Val::Bool(if name == "ne" { c.not() } else { c }));
            }
            ("<[T] as SlicePartialEq>", "equal") | ("<[A] as SlicePartialEq>", "equal") | ("<[A] as SlicePartialEq>", "equal_same_length") if self.byte_slice(tys[0]) => {
                let (a, b) = (self.text_of(st, &args[0], tys[0])?, self.text_of(st, &args[1], tys[1])?);
                return one(st, Val::Bool(Cond::TextEq(a, b)));
            }
            ("<[T;N] as PartialEq>", "eq") if self.pointee(tys[0]).is_array() => {
                if let (Ok(a), Ok(b)) = (self.text_of(st, &args[0], tys[0]), self.text_of(st, &args[1], tys[1])) {
                    return one(st, Val::Bool(Cond::TextEq(a, b)));
                }
            }
            ("<str as Ord>", "cmp") | ("<[T] as Ord>", "cmp") | ("<str as PartialOrd>", "partial_cmp") | ("<[T] as PartialOrd>", "partial_cmp") => {
                if owner.starts_with("<[T]") && !self.byte_slice(tys[0]) {
                    return Ok(None);
                }
                let (a, b) = (self.text_of(st, &args[0], tys[0])?, self.text_of(st, &args[1], tys[1])?);
                let v = Val::SymOrd(a, b, false);
                return one(st, if name == "cmp" { v } else { some_v(v) });
            }
            // comparing two sequences of bytes, or of characters, compares the texts (UTF-8 keeps the order)
            ("Iterator", "eq") | ("Iterator", "ne") | ("Iterator", "cmp") | ("Iterator", "partial_cmp") if args.len() == 2 => {
                let mut ts = vec![];
                let mut chars = vec![];
                for a in args {
                    let (base, front, back) = match a {
                        Val::BIter { base, front, back, .. } => {
                            chars.push(false);
                            (base, front, back)
                        }
                        Val::Chars { base, front, back, indices: false, .. } => {
                            chars.push(true);
                            (base, front, back)
                        }
                        _ => return Ok(None),
                    };
                    if matches!(base, Base::Ext(s) if st.strs.get(s).map_or(false, |i| i.kind == SKind::Wide)) {
                        return Ok(None);
                    }
                    match st.slice_text(base, front, &back.sub(front)) {
                        Ok(t) => ts.push(t),
                        Err(Need::Unsup(_)) => return Ok(None),
                        Err(e) => return Err(e),
                    }
                }
                if chars[0] != chars[1] {
                    return Ok(None);
                }
                let (a, b) = (ts.remove(0), ts.remove(0));
                let v = match name {
                    "eq" => Val::Bool(Cond::TextEq(a, b)),
                    "ne" => Val::Bool(Cond::TextEq(a, b).not()),
                    "cmp" => Val::SymOrd(a, b, false),
                    _ => some_v(Val::SymOrd(a, b, false)),
                };
                return one(st, v);
            }
            ("Ordering", "reverse") => {
                if let Val::SymOrd(a, b, r) = &args[0] {
                    return one(st, Val::SymOrd(a.clone(), b.clone(), !r));
                }
            }
            ("<str as Hash>", "hash") => return self.effect_call(st, "Hasher::write_str", &[args[0].clone()], rty, true),
            ("<str as Display>", "fmt") => return self.effect_call(st, "fmt::pad", &[args[0].clone()], rty, true),
            ("<str as Debug>", "fmt") => return self.effect_call(st, "fmt::str_debug", &[args[0].clone()], rty, true),
            ("Formatter", "pad") => return self.effect_call(st, "fmt::pad", &args[1..], rty, true),
            ("Formatter", _) | ("DebugStruct", _) | ("DebugTuple", _) | ("DebugList", _) | ("DebugSet", _) | ("DebugMap", _) | ("<Formatter as Write>", _) | ("builders", _) => {
                return self.fmt_call(st, name, args, tys, rty);
            }
            ("Write", "write_str") | ("Write", "write_char") | ("Write", "write_fmt") if self.fmt_dyn(tys[0]) => {
                return self.fmt_call(st, name, args, tys, rty);
            }
            ("fmt", "write") => return self.effect_call(st, "fmt::write", args, rty, true),
            ("Arguments", "as_str") => {
                let v = self.havoc(st, rty, "as_str", 0);
                return one(st, v);
            }
            ("Arguments", _) => {
                // the pieces and the arguments; the template is a literal
                return one(st, Val::Agg(vec![Val::Opaque(fresh_id()), Val::Agg(args.to_vec())]));
            }
            ("Argument", n) => return one(st, Val::Agg(vec![Val::Opaque(fresh_id()), if n == "none" { Val::unit() } else { args[0].clone() }])),

            // -------------------------------------------------------------------- char
            ("char", "len_utf8") | ("methods", "len_utf8") => {
                if let Val::Char(c) = &args[0] {
                    let l = st.chars[c].len.clone();
                    return one(st, Val::Int(l));
                }
                let x = self.as_int(st, &args[0])?;
                let c = self.char_from_code(st, x)?;
                let l = st.chars[&c].len.clone();
                return one(st, Val::Int(l));
            }
            ("char", "encode_utf8") | ("char", "encode_utf8_unchecked") => {
                if let Val::Char(c) = &args[0] {
                    let (b, o, l) = self.as_slice(st, &args[1], tys[1])?;
                    let t = st.char_text(*c);
                    let n = st.chars[c].len.clone();
                    if !st.decide(&Cond::ge(&l, &n))? {
                        return Ok(Some(self.panic(st, "buffer too small for the character", site)));
                    }
                    let mut s = st.clone();
                    self.write_bytes(&mut s, &b, &o, t)?;
                    return one(&s, Self::mk(&b, o, n));
                }
            }
            ("char", "is_ascii") => {
                let v = match &args[0] {
                    Val::Ref(l) => st.load(l).cloned().unwrap_or(Val::Top),
                    v => v.clone(),
                };
                if let Val::Char(c) = &v {
                    let l = st.chars[c].len.clone();
                    return one(st, Val::Bool(Cond::eq(&l, &Lin::k(1))));
                }
            }
            ("char", n) if n.starts_with("is_") && args.len() == 1 => {
                let v = match &args[0] {
                    Val::Ref(l) => st.load(l).cloned().unwrap_or(Val::Top),
                    v => v.clone(),
                };
                if let Val::Char(c) = &v {
                    return one(st, Val::Bool(Cond::Pred(n.into(), *c)));
                }
            }
            ("char", "to_ascii_uppercase") | ("char", "to_ascii_lowercase") => {
                let v = self.havoc(st, rty, name, 0);
                return one(st, v);
            }

            // -------------------------------------------------------------------- slices
            ("[T]", "copy_within") => {
                let (b, o, l) = self.as_slice(st, &args[0], tys[0])?;
                let rname = self.ty_short(tys[1]);
                let (x, y) = self.range_of(st, &args[1], &rname, &l)?;
                let d = self.as_int(st, &args[2])?;
                let n = y.sub(&x);
                let ok = st.decide(&Cond::ge(&y, &x))? && st.decide(&Cond::ge(&l, &y))? && st.decide(&Cond::ge(&l.sub(&n), &d))?;
                if !ok {
                    return Ok(Some(self.panic(st, "copy_within range", site)));
                }
                let mut s = st.clone();
                let t = s.slice_text(&b, &o.add(&x), &n)?;
                self.write_bytes(&mut s, &b, &o.add(&d), t)?;
                return one(&s, Val::unit());
            }
            ("[T]", "copy_from_slice") | ("[T]", "clone_from_slice") => {
                let (b, o, l) = self.as_slice(st, &args[0], tys[0])?;
                let (b2, o2, l2) = self.as_slice(st, &args[1], tys[1])?;
                if !st.decide(&Cond::eq(&l, &l2))? {
                    return Ok(Some(self.panic(st, "slice lengths differ", site)));
                }
                let mut s = st.clone();
                let t = s.slice_text(&b2, &o2, &l2)?;
                self.write_bytes(&mut s, &b, &o, t)?;
                return one(&s, Val::unit());
            }
            ("[T]", "fill") => {
                let (b, o, l) = self.as_slice(st, &args[0], tys[0])?;
                let mut s = st.clone();
                let z = matches!(&args[1], Val::Int(l) if l.is_const() == Some(0));
                let src = if z { Src::Zero } else { Src::Junk(fresh_id()) };
                self.write_bytes(&mut s, &b, &o, vec![Piece { src, from: Lin::k(0), to: l }])?;
                return one(&s, Val::unit());
            }
            ("[T]", "rotate_left") | ("[T]", "rotate_right") => {
                let (b, o, l) = self.as_slice(st, &args[0], tys[0])?;
                let k = self.as_int(st, &args[1])?;
                if !st.decide(&Cond::ge(&l, &k))? {
                    return Ok(Some(self.panic(st, "rotation amount", site)));
                }
                let m = if name == "rotate_left" { k } else { l.sub(&k) };
                let mut s = st.clone();
                let mut t = s.slice_text(&b, &o.add(&m), &l.sub(&m))?;
                t.extend(s.slice_text(&b, &o, &m)?);
                self.write_bytes(&mut s, &b, &o, t)?;
                return one(&s, Val::unit());
            }
            ("[T]", "starts_with") | ("[T]", "ends_with") | ("str", "starts_with") | ("str", "ends_with") if tys.len() == 2 && (owner == "str" && self.pointee(tys[1]).is_str() || self.byte_slice(tys[0])) => {
                let (a, b) = (self.text_of(st, &args[0], tys[0])?, self.text_of(st, &args[1], tys[1])?);
                let (la, lb) = (text_len(&a), text_len(&b));
                if !st.decide(&Cond::ge(&la, &lb))? {
                    return one(st, Val::b(false));
                }
                let part = if name == "starts_with" { st.text_slice(&a, &Lin::k(0), &lb)? } else { st.text_slice(&a, &la.sub(&lb), &la)? };
                return one(st, Val::Bool(Cond::TextEq(part, b)));
            }

            // -------------------------------------------------------------------- iterators
            ("<Chars as Iterator>", "next") | ("<CharIndices as Iterator>", "next") => {
                let (l, it) = self.iter_at(st, &args[0])?;
                return self.chars_next(st, &l, &it, false);
            }
            ("<Chars as DoubleEndedIterator>", "next_back") | ("<CharIndices as DoubleEndedIterator>", "next_back") => {
                let (l, it) = self.iter_at(st, &args[0])?;
                return self.chars_next(st, &l, &it, true);
            }
            ("<Chars as Iterator>", "last") | ("<CharIndices as Iterator>", "last") => {
                let o = st.new_obj(args[0].clone());
                return self.chars_next(st, &Loc::obj(o), &args[0].clone(), true);
            }
            ("Chars", "as_str") | ("CharIndices", "as_str") => {
                let (_, it) = self.iter_at(st, &args[0])?;
                if let Val::Chars { base, front, back, .. } = it {
                    return one(st, Self::mk(&base, front.clone(), back.sub(&front)));
                }
            }
            ("CharIndices", "offset") => {
                let (_, it) = self.iter_at(st, &args[0])?;
                if let Val::Chars { front, start, .. } = it {
                    return one(st, Val::Int(front.sub(&start)));
                }
            }
            ("<Iter as Iterator>", "next") | ("<IterMut as Iterator>", "next") | ("<Bytes as Iterator>", "next") => {
                let (l, it) = self.iter_at(st, &args[0])?;
                return self.biter_next(st, &l, &it, false, rty);
            }
            ("<Iter as DoubleEndedIterator>", "next_back") | ("<IterMut as DoubleEndedIterator>", "next_back") | ("<Bytes as DoubleEndedIterator>", "next_back") => {
                let (l, it) = self.iter_at(st, &args[0])?;
                return self.biter_next(st, &l, &it, true, rty);
            }
            ("<Iter as ExactSizeIterator>", "len") | ("<Bytes as ExactSizeIterator>", "len") | ("<IterMut as ExactSizeIterator>", "len") => {
                let (_, it) = self.iter_at(st, &args[0])?;
                if let Val::BIter { front, back, .. } | Val::Chars { front, back, .. } = it {
                    return one(st, Val::Int(back.sub(&front)));
                }
            }
            ("Iter", "as_slice") | ("IterMut", "as_slice") => {
                let (_, it) = self.iter_at(st, &args[0])?;
                if let Val::BIter { base, front, back, .. } = it {
                    return one(st, Self::mk(&base, front.clone(), back.sub(&front)));
                }
            }
            ("<Iter as Iterator>", "size_hint") | ("<Bytes as Iterator>", "size_hint") | ("<IterMut as Iterator>", "size_hint") => {
                let (_, it) = self.iter_at(st, &args[0])?;
                if let Val::BIter { front, back, .. } = it {
                    let n = back.sub(&front);
                    return one(st, Val::Agg(vec![Val::Int(n.clone()), some_v(Val::Int(n))]));
                }
            }
            ("<Chars as Iterator>", "size_hint") | ("<CharIndices as Iterator>", "size_hint") => {
                let (_, it) = self.iter_at(st, &args[0])?;
                if let Val::Chars { front, back, .. } = it {
                    let n = back.sub(&front);
                    let lo = st.fresh_int("lower", 0, MAXLEN);
                    st.cons.add_ge(n.addk(3).sub(&lo.scale(4)));
                    st.cons.add_ge(lo.scale(4).sub(&n));
                    return one(st, Val::Agg(vec![Val::Int(lo), some_v(Val::Int(n))]));
                }
            }
            ("<Chars as Iterator>", "count") | ("<CharIndices as Iterator>", "count") => {
                if let Val::Chars { front, back, .. } = &args[0] {
                    let n = back.sub(front);
                    let c = st.fresh_int("chars", 0, MAXLEN);
                    st.cons.add_ge(n.sub(&c));
                    st.cons.add_ge(c.scale(4).sub(&n));
                    return one(st, Val::Int(c));
                }
            }
            ("<Iter as Iterator>", n) | ("<IterMut as Iterator>", n) | ("<Bytes as Iterator>", n) | ("<Chars as Iterator>", n) | ("<CharIndices as Iterator>", n)
            | ("<Iter as DoubleEndedIterator>", n) | ("<IterMut as DoubleEndedIterator>", n) | ("<Bytes as DoubleEndedIterator>", n)
            | ("<Chars as DoubleEndedIterator>", n) | ("<CharIndices as DoubleEndedIterator>", n) => {
                let n = n.to_string();
                return self.default_body(st, "Iterator", &n, gargs, def, args, tys, site);
            }
            ("<Range as Iterator>", "next") | ("<Range as DoubleEndedIterator>", "next_back") => {
                if let Some(l) = self.place_of(&args[0]) {
                    if let Some(Val::Agg(f)) = st.load(&l).cloned() {
                        let ity = match rty.kind() {
                            ty::Adt(_, a) => a.type_at(0),
                            _ => rty,
                        };
                        if int_range(ity).is_some() {
                            let (a, b) = (self.as_int(st, &f[0])?, self.as_int(st, &f[1])?);
                            if !st.decide(&Cond::lt(&a, &b))? {
                                return one(st, none_v());
                            }
                            let mut s = st.clone();
                            return if name == "next" {
                                s.store(&l.push(Proj::Field(0)), Val::Int(a.addk(1)));
                                one(&s, some_v(Val::Int(a)))
                            } else {
                                s.store(&l.push(Proj::Field(1)), Val::Int(b.addk(-1)));
                                one(&s, some_v(Val::Int(b.addk(-1))))
                            };
                        }
                    }
                }
            }
            ("<RangeInclusive as Iterator>", "next") | ("<RangeInclusive as DoubleEndedIterator>", "next_back") => {
                if let Some(l) = self.place_of(&args[0]) {
                    if let Some(Val::Agg(f)) = st.load(&l).cloned() {
                        let (a, b) = (self.as_int(st, &f[0])?, self.as_int(st, &f[1])?);
                        let ex = self.as_cond(st, &f[2])?;
                        if st.decide(&ex)? || !st.decide(&Cond::ge(&b, &a))? {
                            return one(st, none_v());
                        }
                        let mut s = st.clone();
                        if st.decide(&Cond::ge(&a, &b))? {
                            s.store(&l.push(Proj::Field(2)), Val::b(true));
                            return one(&s, some_v(Val::Int(a)));
                        }
                        return if name == "next" {
                            s.store(&l.push(Proj::Field(0)), Val::Int(a.addk(1)));
                            one(&s, some_v(Val::Int(a)))
                        } else {
                            s.store(&l.push(Proj::Field(1)), Val::Int(b.addk(-1)));
                            one(&s, some_v(Val::Int(b)))
                        };
                    }
                }
            }
            ("<Range as Iterator>", n) | ("<Range as DoubleEndedIterator>", n) | ("<RangeInclusive as Iterator>", n) | ("<RangeInclusive as DoubleEndedIterator>", n)
                if !lits(&["size_hint", "count"], n) =>
            {
                let n = n.to_string();
                return self.default_body(st, "Iterator", &n, gargs, def, args, tys, site);
            }
            ("<Zip as Iterator>", "next") => return self.zip_next(st, args, tys, rty, site),
            ("Zip", "new") => return one(st, Val::Agg(vec![args[0].clone(), args[1].clone(), Val::int(0), Val::int(0)])),
            ("<Zip as Iterator>", n) => {
                let n = n.to_string();
                return self.default_body(st, "Iterator", &n, gargs, def, args, tys, site);
            }
            ("<DecodeUtf16 as Iterator>", "next") => {
                let (_, it) = self.iter_at(st, &args[0])?;
                if let Val::Decode(u) = it {
                    return self.decode_next(st, u);
                }
            }
            ("decode", "decode_utf16") | ("char", "decode_utf16") | ("methods", "decode_utf16") => return self.decode_start(st, &args[0]),
            ("DecodeUtf16Error", "unpaired_surrogate") => {
                let v = self.havoc(st, rty, "surrogate", 0);
                return one(st, v);
            }

            // -------------------------------------------------------------------- copies
            ("Clone", "clone") => {
                if let Val::Ref(l) = &args[0] {
                    match st.load(l) {
                        Some(v @ (Val::Chars { .. } | Val::BIter { .. } | Val::Int(_) | Val::Char(_) | Val::Bool(_) | Val::Slice { .. } | Val::BPtr { .. } | Val::Byte(..))) => {
                            let v = v.clone();
                            return one(st, v);
                        }
                        _ => {}
                    }
                }
                if let Val::BPtr { .. } = &args[0] {
                    if int_range(rty).is_some() {
                        let pv = self.deref(st, &Pv::Loc(Loc::obj(u32::MAX)), &args[0], tys[0])?;
                        let v = self.read_pv(st, &pv, rty)?;
                        return one(st, v);
                    }
                }
            }
            ("str", "to_owned") | ("<str as ToOwned>", "to_owned") | ("<str as ToString>", "to_string") | ("<String as From>", "from") => {
                let (b, o, l) = self.as_slice(st, &args[0], tys[0])?;
                return one(st, Val::Agg(vec![Self::mk(&b, o, l)]));
            }
            ("<String as Deref>", "deref") | ("String", "as_str") | ("<String as AsRef>", "as_ref") | ("<String as Borrow>", "borrow") | ("<Box as Deref>", "deref") | ("String", "as_bytes") => {
                if let Some(l) = self.place_of(&args[0]) {
                    if let Some(Val::Agg(f)) = st.load(&l) {
                        if let Some(v @ Val::Slice { .. }) = f.first() {
                            let v = v.clone();
                            return one(st, v);
                        }
                    }
                }
            }
            _ => {}
        }
        if rty.is_never() && !self.tcx.is_closure_like(def) && self.body_is_panic(owner, name) {
            return Ok(Some(self.panic(st, &format!("{}::{}", owner, name), site)));
        }
        Ok(None)
    }
    fn body_is_panic(&self, owner: &str, name: &str) -> bool {
        let _ = name;
        matches!(owner, "panicking" | "option" | "result" | "rt" | "slice" | "str" | "cell" | "index" | "begin_panic" | "traits")
            || name.starts_with("panic")
            || name.ends_with("_failed")
            || name.ends_with("_fail")
    }
    fn byte_slice(&self, t: Ty<'tcx>) -> bool {
        match self.pointee(t).kind() {
            ty::Slice(e) => *e == self.tcx.types.u8,
            ty::Str => true,
            _ => false,
        }
    }
    fn elem_u8(&self, st: &State, t: Ty<'tcx>) -> R<()> {
        let _ = st;
        let e = self.pointee(t);
        if e == self.tcx.types.u8 || matches!(e.kind(), ty::Int(ty::IntTy::I8)) || self.is_byte_like(e) {
            Ok(())
        } else {
            Err(Need::Unsup(format!("pointer operation on {}", t)))
        }
    }
    fn is_byte_like(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Adt(d, a) if self.tcx.item_name(d.did()).as_str() == "MaybeUninit" => a.type_at(0) == self.tcx.types.u8,
            _ => false,
        }
    }
    pub fn check_utf8(&mut self, st: &mut State, t: &Text, what: &str, site: &str) -> R<()> {
        self.stat("S02 preconditions of unchecked operations");
        if let Some(why) = st.text_valid(t)? {
            self.viol(st, "S02", what, format!("{}: {}", what, why), site, false);
        }
        Ok(())
    }
    fn fmt_dyn(&self, t: Ty<'tcx>) -> bool {
        matches!(self.pointee(t).kind(), ty::Dynamic(..)) || matches!(self.pointee(t).kind(), ty::Adt(d, _) if self.tcx.item_name(d.did()).as_str() == "Formatter")
    }
    fn fmt_call(&mut self, st: &mut State, name: &str, args: &[Val], tys: &[Ty<'tcx>], rty: Ty<'tcx>) -> R<Option<Outs>> {
        // builder methods hand back their receiver
        let name = name.to_string();
        if self.is_fmt_result(rty) {
            let what = if name == "write_str" || name == "write_char" || name == "write_fmt" { format!("fmt::{}", name) } else { format!("fmt::builder:{}", name) };
            return self.effect_call(st, &what, &args[1..], rty, true);
        }
        if let (Some(Val::Ref(l)), ty::Ref(_, t, _)) = (args.get(0), rty.kind()) {
            if tys.get(0).map(|x| self.pointee(*x)) == Some(*t) {
                let l = l.clone();
                let mut s = st.clone();
                self.effect(&mut s, &format!("fmt::builder:{}", name), &args[1..], None);
                let mut u = st.clone();
                self.effect(&mut u, &format!("fmt::builder:{}", name), &args[1..], None);
                return Ok(Some(vec![(s, Out::Ret(Val::Ref(l))), (u, Out::Unwind)]));
            }
        }
        if name.starts_with("debug_") {
            let mut s = st.clone();
            self.effect(&mut s, &format!("fmt::builder:{}", name), &args[1..], None);
            return one(&s, Val::Opaque(fresh_id()));
        }
        // width, fill, precision, alternate ...: observers
        let mut s = st.clone();
        let v = self.havoc(&mut s, rty, &name, 0);
        one(&s, v)
    }
    fn log_call(&mut self, st: &mut State, key: &str, args: &[Val], tys: &[Ty<'tcx>], rty: Ty<'tcx>, site: &str) -> R<Option<Outs>> {
        let _ = tys;
        // the level is a global setting: off, everything but trace messages, or everything (one choice per run)
        if key.ends_with("::max_level") {
            if let Some(v) = st.ghost.get("log level") {
                let v = v.clone();
                return one(st, v);
            }
            let ty::Adt(d, _) = rty.kind() else { return Ok(None) };
            let n = d.variants().len() as u32;
            let mut outs = vec![];
            for k in [0, n - 2, n - 1] {
                let mut s = st.clone();
                s.note(format!("log level is {}", d.variants().iter().nth(k as usize).unwrap().name));
                s.ghost.insert("log level".into(), Val::Enum(k, vec![]));
                outs.push((s, Out::Ret(Val::Enum(k, vec![]))));
            }
            return Ok(Some(outs));
        }
        // the record shows the string to user code: it has to be intact at this point
        if !matches!(rty.kind(), ty::Bool) {
            for a in args {
                let v = self.snap(st, a, 0);
                self.logged(st, &v, site)?;
            }
        }
        let mut s = st.clone();
        let v = if matches!(rty.kind(), ty::Tuple(x) if x.is_empty()) { Val::unit() } else { self.havoc(&mut s, rty, "log", 0) };
        let mut outs = vec![(s, Out::Ret(v))];
        if self.log_panics && (key.contains("log_impl") || key.ends_with("::log") || key.ends_with("log_enabled")) {
            outs.push((st.clone(), Out::Unwind));
        }
        Ok(Some(outs))
    }
    fn logged(&mut self, st: &mut State, v: &Val, site: &str) -> R<()> {
        match v {
            Val::Bytes(_) => {}
            Val::Agg(f) => {
                if let [Val::Bytes(t), Val::Int(n)] | [Val::Int(n), Val::Bytes(t)] = &f[..] {
                    let cap = text_len(t);
                    let bad = if !st.decide(&Cond::ge(&cap, n))? {
                        Some("length beyond the capacity".to_string())
                    } else {
                        let vis = st.text_slice(t, &Lin::k(0), n)?;
                        st.text_valid(&vis)?
                    };
                    if let Some(why) = bad {
                        self.viol(st, "S01", "invalid string logged", format!("a string is shown to the logger while invalid: {}", why), site, false);
                    }
                    return Ok(());
                }
                for x in f {
                    self.logged(st, x, site)?;
                }
            }
            Val::Enum(_, f) => {
                for x in f {
                    self.logged(st, x, site)?;
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn zip_next(&mut self, st: &mut State, args: &[Val], tys: &[Ty<'tcx>], rty: Ty<'tcx>, site: &str) -> R<Option<Outs>> {
        let Some(l) = self.place_of(&args[0]) else { return Ok(None) };
        let ty::Adt(_, zargs) = self.pointee(tys[0]).kind() else { return Ok(None) };
        let (ta, tb) = (zargs.type_at(0), zargs.type_at(1));
        let (ia, ib) = match rty.kind() {
            ty::Adt(_, a) => match a.type_at(0).kind() {
                ty::Tuple(t) if t.len() == 2 => (t[0], t[1]),
                _ => return Ok(None),
            },
            _ => return Ok(None),
        };
        let Some(next) = self.tcx.lang_items().next_fn() else { return Ok(None) };
        let opt = |cx: &Self, t: Ty<'tcx>| {
            let ty::Adt(d, _) = rty.kind() else { unreachable!() };
            Ty::new_adt(cx.tcx, *d, cx.tcx.mk_args(&[t.into()]))
        };
        let mut outs = vec![];
        let (oa, ob) = (opt(self, ia), opt(self, ib));
        for (mut s, o) in self.call_def(st, next, self.tcx.mk_args(&[ta.into()]), vec![Val::Ref(l.push(Proj::Field(0)))], vec![tys[0]], oa, site)? {
            match o {
                Out::Ret(Val::Enum(1, f)) => {
                    for (s2, o2) in self.call_def(&mut s, next, self.tcx.mk_args(&[tb.into()]), vec![Val::Ref(l.push(Proj::Field(1)))], vec![tys[0]], ob, site)? {
                        match o2 {
                            Out::Ret(Val::Enum(1, g)) => outs.push((s2, Out::Ret(some_v(Val::Agg(vec![f[0].clone(), g[0].clone()]))))),
                            o => outs.push((s2, o)),
                        }
                    }
                }
                o => outs.push((s, o)),
            }
        }
        Ok(Some(outs))
    }

    // ------------------------------------------------------------------------------------------ UTF-16

    fn find_wide(&self, st: &State, v: &Val) -> Option<Val> {
        match v {
            Val::BIter { base: Base::Ext(s), front, back, .. } if st.strs.get(s).map_or(false, |i| i.kind == SKind::Wide) => {
                let whole = front.is_const() == Some(0) && *back == st.str_len(*s);
                Some(Val::Agg(vec![Val::Opaque(*s), Val::b(whole)]))
            }
            Val::Agg(f) => {
                // adapters with functions inside may change the units
                let r: Vec<Val> = f.iter().filter_map(|x| self.find_wide(st, x)).collect();
                if r.len() == 1 && f.len() == 1 {
                    Some(r[0].clone())
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn decode_start(&mut self, st: &mut State, it: &Val) -> R<Option<Outs>> {
        let mut s = st.clone();
        let id = self.new_user(&mut s, "decoded UTF-16", UKind::Decode);
        let src = self.find_wide(st, it).unwrap_or(Val::Top);
        s.users.get_mut(&id).unwrap().memo.insert("src".into(), src);
        one(&s, Val::Decode(id))
    }
    fn decode_next(&mut self, st: &mut State, u: UserId) -> R<Option<Outs>> {
        let mut outs = vec![];
        let info = st.users[&u].clone();
        if !info.exhausted {
            // a character
            let mut s = st.clone();
            s.consumed = true;
            let c = s.fresh_char("decoded");
            let t = s.char_text(c);
            {
                let x = s.users.get_mut(&u).unwrap();
                x.taken.extend(t.clone());
                x.kept.extend(t);
            }
            self.norm_user(&mut s, u);
            outs.push((s, Out::Ret(some_v(ok_v(Val::Char(c))))));
            // an unpaired surrogate
            let mut s = st.clone();
            s.consumed = true;
            let r = s.const_char('\u{FFFD}');
            let t = s.char_text(r);
            {
                let x = s.users.get_mut(&u).unwrap();
                x.err = true;
                x.kept.extend(t);
            }
            self.norm_user(&mut s, u);
            let code = s.fresh_int("surrogate", 0xD800, 0xDFFF);
            outs.push((s, Out::Ret(some_v(err_v(Val::Agg(vec![Val::Int(code)]))))));
        }
        let mut s = st.clone();
        s.users.get_mut(&u).unwrap().exhausted = true;
        outs.push((s, Out::Ret(none_v())));
        Ok(Some(outs))
    }
    fn norm_user(&self, s: &mut State, u: UserId) {
        let (t, k) = {
            let x = &s.users[&u];
            (s.norm(&x.taken), s.norm(&x.kept))
        };
        let x = s.users.get_mut(&u).unwrap();
        x.taken = t;
        x.kept = k;
    }

    // ------------------------------------------------------------------------------------------ caller-supplied code

    pub fn user_of(&mut self, st: &mut State, v: &Val, ty: Ty<'tcx>) -> Option<UserId> {
        match v {
            Val::User(u) => Some(*u),
            Val::Ref(l) => match st.load(l).cloned() {
                Some(Val::Top) | Some(Val::Opaque(_)) | Some(Val::Uninit) => {
                    let p = self.pointee(ty);
                    if self.is_user_ty(p) {
                        let id = self.new_user(st, "value", UKind::Plain);
                        st.store(l, Val::User(id));
                        return Some(id);
                    }
                    None
                }
                Some(x) => {
                    let p = self.pointee(ty);
                    self.user_of(st, &x, p)
                }
                None => None,
            },
            Val::Agg(f) if f.len() == 1 => {
                let x = f[0].clone();
                self.user_of(st, &x, ty)
            }
            _ => None,
        }
    }
    fn item(&mut self, st: &mut State, t: Ty<'tcx>) -> (Val, Option<Text>) {
        match t.kind() {
            ty::Char => {
                let c = st.fresh_char("item");
                (Val::Char(c), Some(st.char_text(c)))
            }
            ty::Ref(_, i, _) if i.is_char() => {
                let c = st.fresh_char("item");
                let o = st.new_obj(Val::Char(c));
                (Val::Ref(Loc::obj(o)), Some(st.char_text(c)))
            }
            ty::Ref(_, i, _) if i.is_str() => {
                let s = st.new_str(SKind::Item, "item");
                let l = st.str_len(s);
                let t = vec![st.whole(s)];
                (Val::Slice { base: Base::Ext(s), off: Lin::k(0), len: l }, Some(t))
            }
            ty::Param(_) | ty::Alias(..) => {
                let id = self.new_user(st, "item", UKind::Plain);
                let s = st.new_str(SKind::Item, "item");
                let l = st.str_len(s);
                let t = vec![st.whole(s)];
                st.users.get_mut(&id).unwrap().memo.insert("as_ref".into(), Val::Slice { base: Base::Ext(s), off: Lin::k(0), len: l });
                (Val::User(id), Some(t))
            }
            _ => (self.havoc(st, t, "item", 0), None),
        }
    }

    pub fn user_call(
        &mut self,
        st: &mut State,
        key: &str,
        def: DefId,
        gargs: GenericArgsRef<'tcx>,
        args: Vec<Val>,
        tys: Vec<Ty<'tcx>>,
        rty: Ty<'tcx>,
        site: &str,
    ) -> R<Outs> {
        self.stat("S04 calls of caller-supplied code that may panic");
        let name = key.rsplit("::").next().unwrap_or("").to_string();
        let tr = key.strip_prefix("core:").and_then(|r| r.rsplit_once("::")).map(|x| x.0.to_string()).unwrap_or_default();
        let this = args.get(0).and_then(|v| self.user_of(st, v, tys[0]));
        let unwind = (st.clone(), Out::Unwind);
        match (tr.as_str(), name.as_str()) {
            ("IntoIterator", "into_iter") => {
                let id = match this {
                    Some(u) => u,
                    None => self.new_user(st, "iterator", UKind::Iter),
                };
                let u = st.users.get_mut(&id).unwrap();
                u.kind = UKind::Iter;
                return Ok(vec![(st.clone(), Out::Ret(Val::User(id))), unwind]);
            }
            ("Iterator", "next") | ("DoubleEndedIterator", "next_back") => {
                let id = this.ok_or_else(|| Need::Unsup("iterator".into()))?;
                let ity = match rty.kind() {
                    ty::Adt(_, a) => a.type_at(0),
                    _ => return Err(Need::Unsup("next".into())),
                };
                let mut outs = vec![];
                let mut s = st.clone();
                let (v, t) = self.item(&mut s, ity);
                let after = s.users[&id].exhausted;
                let reusable = name == "next";
                // an endless iterator of non-empty items must be left when the string is full
                let solid = t.as_ref().is_some_and(|t| s.cons.entails_ge(&text_len(t).addk(-1)));
                s.consumed |= !after && !solid;
                {
                    let x = s.users.get_mut(&id).unwrap();
                    match (t, after, reusable) {
                        (Some(t), false, true) => x.taken.extend(t),
                        _ => x.err = true,
                    }
                }
                self.norm_user(&mut s, id);
                outs.push((s, Out::Ret(some_v(v))));
                let mut s = st.clone();
                s.users.get_mut(&id).unwrap().exhausted = true;
                outs.push((s, Out::Ret(none_v())));
                outs.push(unwind);
                return Ok(outs);
            }
            ("Iterator", "size_hint") => {
                let mut s = st.clone();
                let lo = s.fresh_int("hint", 0, USIZE_MAX);
                let hi = s.fresh_int("hint", 0, USIZE_MAX);
                let a = (s.clone(), Out::Ret(Val::Agg(vec![Val::Int(lo.clone()), none_v()])));
                let b = (s, Out::Ret(Val::Agg(vec![Val::Int(lo), some_v(Val::Int(hi))])));
                return Ok(vec![a, b, unwind]);
            }
            ("FnMut", "call_mut") | ("FnOnce", "call_once") | ("Fn", "call") => {
                let id = this;
                let arg = match args.get(1) {
                    Some(Val::Agg(f)) if f.len() == 1 => f[0].clone(),
                    Some(v) => v.clone(),
                    None => Val::unit(),
                };
                let arg = match arg {
                    Val::Ref(l) => st.load(&l).cloned().unwrap_or(Val::Top),
                    v => v,
                };
                let mut outs = vec![];
                let text = match &arg {
                    Val::Char(c) => Some(st.char_text(*c)),
                    _ => None,
                };
                if rty.is_bool() {
                    for b in [true, false] {
                        let mut s = st.clone();
                        if let Some(id) = id {
                            let x = s.users.get_mut(&id).unwrap();
                            x.kind = UKind::Pred;
                            match &text {
                                Some(t) => {
                                    x.taken.extend(t.clone());
                                    if b {
                                        x.kept.extend(t.clone());
                                    }
                                }
                                None => x.err = true,
                            }
                            self.norm_user(&mut s, id);
                        }
                        outs.push((s, Out::Ret(Val::b(b))));
                    }
                } else {
                    let mut s = st.clone();
                    let v = self.havoc(&mut s, rty, "result", 0);
                    outs.push((s, Out::Ret(v)));
                }
                outs.push(unwind);
                return Ok(outs);
            }
            ("AsRef", "as_ref") | ("Borrow", "borrow") | ("Deref", "deref") => {
                let inner = self.pointee(rty);
                if let (Mode::Pure, Some(id)) = (self.mode, this) {
                    let k = format!("{}{}", name, if inner.is_str() { "" } else { ":slice" });
                    if let Some(v) = st.users[&id].memo.get(k.as_str()).cloned() {
                        return Ok(vec![(st.clone(), Out::Ret(v)), unwind]);
                    }
                    let v = self.havoc_ref(st, inner, "arg");
                    st.users.get_mut(&id).unwrap().memo.insert(k.as_str().into(), v.clone());
                    return Ok(vec![(st.clone(), Out::Ret(v)), unwind]);
                }
                let v = self.havoc_ref(st, inner, "arg");
                return Ok(vec![(st.clone(), Out::Ret(v)), unwind]);
            }
            ("RangeBounds", "start_bound") | ("RangeBounds", "end_bound") => {
                let pure = self.mode == Mode::Pure;
                if let (true, Some(id)) = (pure, this) {
                    if let Some(v) = st.users[&id].memo.get(name.as_str()).cloned() {
                        return Ok(vec![(st.clone(), Out::Ret(v)), unwind]);
                    }
                }
                let mut outs = vec![unwind.clone()];
                for k in 0..3u32 {
                    let mut s = st.clone();
                    let v = if k == 2 {
                        Val::Enum(2, vec![])
                    } else {
                        let i = s.fresh_int(&name, 0, USIZE_MAX);
                        let o = s.new_obj(Val::Int(i));
                        Val::Enum(k, vec![Val::Ref(Loc::obj(o))])
                    };
                    if let (true, Some(id)) = (pure, this) {
                        s.users.get_mut(&id).unwrap().memo.insert(name.as_str().into(), v.clone());
                    }
                    outs.push((s, Out::Ret(v)));
                }
                return Ok(outs);
            }
            ("Hasher", _) => {
                return Ok(self.effect_call(st, &format!("Hasher::{}", name), &args[1..], rty, true)?.unwrap());
            }
            ("Write", "write_str") | ("Write", "write_char") | ("Write", "write_fmt") => {
                return Ok(self.effect_call(st, &format!("fmt::{}", name), &args[1..], rty, true)?.unwrap());
            }
            ("Clone", "clone") => {
                let mut s = st.clone();
                let v = self.havoc(&mut s, rty, "clone", 0);
                return Ok(vec![(s, Out::Ret(v)), unwind]);
            }
            _ => {}
        }
        let krate = key.split(':').next().unwrap_or("").to_string();
        if krate.starts_with("serde") && name.starts_with("deserialize") && args.len() >= 2 {
            return self.deserialize(st, def, &name, gargs, &args, &tys, rty, site);
        }
        if krate.starts_with("serde") && (name.starts_with("serialize_") || name == "collect_str") {
            return Ok(self.effect_call(st, &format!("Serializer::{}", name), &args[1..], rty, true)?.unwrap());
        }
        if krate == "diesel" && name == "to_sql" {
            return Ok(self.effect_call(st, "ToSql::to_sql", &args[..1], rty, true)?.unwrap());
        }
        if krate == "diesel" && (name == "from_sql" || name == "from_nullable_sql") {
            let mut outs = vec![unwind.clone()];
            if let ty::Adt(_, a) = rty.kind() {
                let t = a.type_at(0);
                if let ty::RawPtr(i, _) = t.kind() {
                    if i.is_str() {
                        let mut s = st.clone();
                        let v = self.havoc_ref(&mut s, *i, "stored");
                        s.ghost.insert("delivered".into(), v.clone());
                        s.ghost.insert("delivered_as".into(), Val::int(1));
                        outs.push((s, Out::Ret(ok_v(v))));
                        let mut s = st.clone();
                        let e = Val::Opaque(fresh_id());
                        s.ghost.insert("user_err".into(), e.clone());
                        outs.push((s, Out::Ret(err_v(e))));
                        return Ok(outs);
                    }
                }
            }
        }
        // a provided method of a format may be replaced by the caller's format
        if (krate.starts_with("serde") || krate == "diesel") && rty.is_bool() {
            let o = Cond::Opaque(fresh_id());
            return Ok(vec![(st.clone(), Out::Ret(Val::Bool(o))), unwind]);
        }
        // provided trait methods are interpreted from their provided bodies
        if self.tcx.trait_of_assoc(def).is_some() && self.tcx.defaultness(def).has_value() && self.tcx.def_kind(def) == DefKind::AssocFn {
            let inst = Instance::new_raw(def, gargs);
            if self.body_info(inst, None).is_some() {
                return Ok(self.exec_fn(st.clone(), inst, args, site));
            }
        }
        let mut outs = self.opaque_call(st, key, args, tys, rty, site)?;
        outs.push(unwind);
        Ok(outs)
    }

    fn deserialize(
        &mut self,
        st: &mut State,
        def: DefId,
        name: &str,
        gargs: GenericArgsRef<'tcx>,
        args: &[Val],
        tys: &[Ty<'tcx>],
        rty: Ty<'tcx>,
        site: &str,
    ) -> R<Outs> {
        let _ = (def, gargs);
        let tcx = self.tcx;
        let vty = *tys.last().unwrap();
        let vval = args.last().unwrap().clone();
        let mut outs = vec![(st.clone(), Out::Unwind)];
        let ety = match rty.kind() {
            ty::Adt(_, a) => a.type_at(1),
            _ => return Err(Need::Unsup("deserialize".into())),
        };
        {
            let mut s = st.clone();
            let e = self.havoc(&mut s, ety, "format error", 0);
            s.ghost.insert("user_err".into(), e.clone());
            outs.push((s, Out::Ret(err_v(e))));
        }
        // the visitor trait
        let Some(vtrait) = tcx.all_traits_including_private().find(|t| tcx.item_name(*t).as_str() == "Visitor" && self.crate_of(*t).starts_with("serde")) else {
            return Err(Need::Unsup("Visitor".into()));
        };
        let life: ty::GenericArg<'tcx> = tcx.lifetimes.re_erased.into();
        let wants_str = lits(&["deserialize_str", "deserialize_string", "deserialize_any"], name);
        for (s, _) in outs.iter_mut() {
            s.ghost.insert("requested".into(), Val::b(wants_str));
        }
        st.ghost.insert("requested".into(), Val::b(wants_str));
        let methods: &[(&str, i128)] = if lits(&["deserialize_str", "deserialize_string", "deserialize_any", "deserialize_identifier"], name) {
            &[("visit_str", 1), ("visit_borrowed_str", 2), ("visit_string", 3), ("visit_bytes", 10), ("visit_unit", 20), ("visit_none", 20), ("visit_bool", 21), ("visit_u64", 22), ("visit_char", 23)]
        } else {
            // another form was requested from the format
            &[("visit_bytes", 10), ("visit_borrowed_bytes", 10), ("visit_byte_buf", 10), ("visit_unit", 20)]
        };
        for (m, k) in methods {
            let Some(md) = tcx.associated_items(vtrait).in_definition_order().find(|i| i.name().as_str() == *m).map(|i| i.def_id) else { continue };
            let mut s = st.clone();
            let mut v = vec![vval.clone()];
            let sig = tcx.fn_sig(md).instantiate_identity().skip_norm_wip().skip_binder();
            let mut at = vec![vty];
            if sig.inputs().len() > 1 {
                let t = sig.inputs()[1];
                let x = match t.kind() {
                    ty::Ref(_, i, _) => self.havoc_ref(&mut s, *i, "delivered"),
                    ty::Adt(d, _) if matches!(tcx.item_name(d.did()).as_str(), "String" | "Vec") => {
                        let is_str = tcx.item_name(d.did()).as_str() == "String";
                        let r = self.havoc_ref(&mut s, if is_str { tcx.types.str_ } else { Ty::new_slice(tcx, tcx.types.u8) }, "delivered");
                        s.ghost.insert("delivered".into(), r.clone());
                        Val::Agg(vec![r])
                    }
                    _ => self.havoc(&mut s, t, "delivered", 0),
                };
                if let Val::Slice { .. } = &x {
                    s.ghost.insert("delivered".into(), x.clone());
                }
                v.push(x);
                at.push(t);
            }
            s.ghost.insert("delivered_as".into(), Val::int(*k));
            let margs = tcx.mk_args(&[vty.into(), life, ety.into()]);
            match self.call_def(&mut s, md, margs, v, at, rty, site) {
                Ok(o) => outs.extend(o),
                Err(Need::Split(c)) => return Err(Need::Split(c)),
                Err(e) => return Err(e),
            }
        }
        Ok(outs)
    }
}

/// comparisons of log levels are interpreted like any other code
pub fn log_compare(key: &str) -> bool {
    [" as PartialOrd", " as PartialEq", " as Ord", " as Eq", " as Clone"].iter().any(|x| key.contains(x))
}
