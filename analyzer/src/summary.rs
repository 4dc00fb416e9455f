//! Calls decided against the contract of the called operation instead of its body.
//!
//! An operation that has itself been proved to keep its contract may stand for its body: this keeps the
//! loops of one operation out of the analysis of another one that calls it. Only used for operations
//! that could not be decided with everything inlined.

use crate::dom::*;
use crate::interp::*;
use crate::lin::*;
use crate::spec::*;
use rustc_hir::def_id::DefId;
use rustc_middle::mir;
use rustc_middle::ty::{self, Ty, TyCtxt};

type Outs = Vec<(State, Out)>;

fn ret(s: State, v: Val) -> (State, Out) {
    (s, Out::Ret(v))
}
fn alive(mut s: State) -> Option<State> {
    s.saturate();
    if s.dead || !s.cons.feasible_with(&[]) {
        return None;
    }
    s.propagate_eq();
    Some(s)
}

impl<'tcx> Cx<'tcx> {
    pub fn summarisable(e: &Entry<'tcx>) -> bool {
        use Contract::*;
        matches!(e.kind, Kind::Str | Kind::Cache)
            && matches!(
                e.contract,
                Some(StrictNew | TruncNew | StrictPush | TruncPush | TruncAdd | Insert | InsertTrunc | Replace | Remove | Truncate | SplitOff | Pop | Clear)
            )
    }

    /// functions of the crate that a function may call
    fn reached(&self, d: DefId, seen: &mut std::collections::HashSet<DefId>) {
        if !d.is_local() || !seen.insert(d) || !self.tcx.is_mir_available(d) {
            return;
        }
        let body = self.tcx.optimized_mir(d);
        for b in body.basic_blocks.iter() {
            if let mir::TerminatorKind::Call { func, .. } = &b.terminator().kind {
                if let ty::FnDef(x, _) = func.ty(&body.local_decls, self.tcx).kind() {
                    self.reached(*x, seen);
                }
            }
        }
    }
    /// proves what can be proved of the operations that may stand for their bodies
    pub fn prove_callees(&mut self) {
        if self.proved {
            return;
        }
        self.proved = true;
        let mut es: Vec<Entry<'tcx>> = self.entries().into_iter().filter(|e| Self::summarisable(e)).collect();
        // called ones first
        es.sort_by_cached_key(|e| {
            let mut seen = Default::default();
            self.reached(e.def, &mut seen);
            seen.len()
        });
        let t0 = std::time::Instant::now();
        let secs = self.entry_secs;
        let verbose = std::mem::replace(&mut self.verbose, false);
        let mut again = true;
        for round in 0..3 {
            if !std::mem::take(&mut again) {
                break;
            }
            for e in &es {
                let modes: &[Mode] = if self.has_user_code(e) { &[Mode::Pure, Mode::Hostile] } else { &[Mode::Pure] };
                for m in modes {
                    for (second, freeze, cap) in [(false, false, 6), (true, true, 30), (true, false, 20)] {
                        if self.done.contains_key(&(e.def, *m)) || t0.elapsed().as_secs() > 120 {
                            break;
                        }
                        let first = self.sink.len();
                        self.entry_secs = secs.min(cap);
                        FREEZE.with(|s| s.set(freeze));
                        crate::au::SECOND.with(|s| s.set(second));
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.run_entry_once(e, *m)));
                        crate::au::SECOND.with(|s| s.set(false));
                        FREEZE.with(|s| s.set(false));
                        let clean = r.is_ok() && self.sink.len() == first;
                        self.sink.truncate(first);
                        if let (true, Ok(r)) = (clean, r) {
                            self.done.insert((e.def, *m), r);
                        }
                    }
                    if !self.done.contains_key(&(e.def, *m)) {
                        break;
                    }
                }
                if !self.sums.contains_key(&e.def) && modes.iter().all(|m| self.done.contains_key(&(e.def, *m))) {
                    self.sums.insert(e.def, e.clone());
                    again = round == 0;
                }
            }
        }
        self.entry_secs = secs;
        self.verbose = verbose;
        if verbose {
            eprintln!("proved: {:?}", self.sums.values().map(|e| e.label.clone()).collect::<Vec<_>>());
        }
    }

    /// the text of an argument taken as text
    fn sum_text(&mut self, s: State, v: &Val, t: Ty<'tcx>, site: &str) -> R<Option<Vec<(State, Option<Text>)>>> {
        let mut s = s;
        let (mut v, mut t) = (v.clone(), t);
        loop {
            match (t.kind(), &v) {
                (ty::Char, Val::Char(c)) => {
                    let x = s.char_text(*c);
                    return Ok(Some(vec![(s, Some(x))]));
                }
                (ty::Ref(_, x, _), Val::Slice { .. }) if x.is_str() => {
                    let x = self.text_of(&mut s, &v, t)?;
                    return Ok(if s.text_valid(&x)?.is_none() { Some(vec![(s, Some(x))]) } else { None });
                }
                (ty::Ref(_, x, _), Val::Ref(l)) if matches!(x.kind(), ty::Ref(..)) => {
                    let Some(w) = s.load(l).cloned() else { return Ok(None) };
                    (v, t) = (w, *x);
                }
                (ty::Ref(_, x, _), Val::Ref(_)) if self.is_stringish(*x) => return self.own_text(s, v.clone(), *x, site),
                (ty::Ref(_, x, _), Val::Ref(_)) if self.is_user_ty(*x) => return self.own_text(s, v.clone(), *x, site),
                _ if self.is_stringish(t) || self.is_user_ty(t) => {
                    let o = s.new_obj(v.clone());
                    return self.own_text(s, Val::Ref(Loc::obj(o)), t, site);
                }
                _ => return Ok(None),
            }
        }
    }
    fn own_text(&mut self, s: State, r: Val, t: Ty<'tcx>, site: &str) -> R<Option<Vec<(State, Option<Text>)>>> {
        let tcx: TyCtxt<'tcx> = self.tcx;
        let Some(tr) = tcx.get_diagnostic_item(rustc_span::sym::AsRef) else { return Ok(None) };
        let Some(m) = tcx.associated_item_def_ids(tr).first().copied() else { return Ok(None) };
        let a = tcx.mk_args(&[t.into(), tcx.types.str_.into()]);
        let re = tcx.lifetimes.re_erased;
        let (ti, to) = (Ty::new_imm_ref(tcx, re, t), Ty::new_imm_ref(tcx, re, tcx.types.str_));
        let mut st = s;
        let outs = self.call_def(&mut st, m, a, vec![r], vec![ti], to, site)?;
        let mut v = vec![];
        for (mut s, o) in outs {
            let x = match o {
                Out::Ret(x) => self.text_of(&mut s, &x, to)?,
                Out::Unwind => {
                    v.push((s, None));
                    continue;
                }
                _ => return Ok(None),
            };
            if s.text_valid(&x)?.is_some() {
                return Ok(None);
            }
            v.push((s, Some(x)));
        }
        Ok(Some(v))
    }

    fn mk_string(&mut self, s: &mut State, t: Ty<'tcx>, text: &Text, n: &Lin, cap: &Lin) -> Option<Val> {
        let ty::Adt(d, a) = t.kind() else { return None };
        let own = self.is_array_string(t);
        let roles = if own { Some(self.roles(t)?) } else { None };
        let mut f = vec![];
        for (i, fd) in d.non_enum_variant().fields.iter().enumerate() {
            let ft = self.norm_ty(fd.ty(self.tcx, a).skip_norm_wip());
            f.push(match roles {
                Some((b, _)) if i == b => Val::Bytes(self.full(s, text, n, cap)),
                Some((_, z)) if i == z => Val::Int(n.clone()),
                None if i == 0 => self.mk_string(s, ft, text, n, cap)?,
                _ => self.havoc(s, ft, "field", 1),
            });
        }
        Some(Val::Agg(f))
    }
    /// the whole buffer: what lies behind the text is unknown
    fn full(&self, s: &State, text: &Text, n: &Lin, cap: &Lin) -> Text {
        let mut t = text.clone();
        if !s.cons.entails_eq(&cap.sub(n)) {
            t.push(Piece { src: Src::Junk(fresh_id()), from: n.clone(), to: cap.clone() });
        }
        s.norm(&t)
    }
    fn put(&mut self, s: &mut State, l: &Loc, t: Ty<'tcx>, text: &Text, cap: &Lin) -> R<()> {
        let (b, z) = self.role_paths(t).ok_or_else(|| Need::Unsup("string layout".into()))?;
        let n = text_len(text);
        let bytes = self.full(s, text, &n, cap);
        let at = |p: &[Proj]| {
            let mut l = l.clone();
            l.path.extend(p.iter().cloned());
            l
        };
        if !s.store(&at(&b), Val::Bytes(bytes)) || !s.store(&at(&z), Val::Int(n)) {
            return Err(Need::Unsup("string object".into()));
        }
        Ok(())
    }
    fn mk_err(&self, rty: Ty<'tcx>, what: &str) -> R<Val> {
        let ty::Adt(_, a) = rty.kind() else { return Err(Need::Unsup("result type".into())) };
        let ty::Adt(d, _) = a.type_at(1).kind() else { return Err(Need::Unsup("error type".into())) };
        if d.is_enum() {
            let i = d.variants().iter().position(|v| v.name.as_str() == what).ok_or_else(|| Need::Unsup("error variant".into()))?;
            let k = d.variants().iter().nth(i).map_or(0, |v| v.fields.len());
            if k > 0 {
                return Err(Need::Unsup("error variant".into()));
            }
            return Ok(Val::Enum(1, vec![Val::Enum(i as u32, vec![])]));
        }
        let v = self.zst(a.type_at(1)).ok_or_else(|| Need::Unsup("error value".into()))?;
        Ok(Val::Enum(1, vec![v]))
    }
    /// position `at` (at most the length `n`) of a text is between characters
    fn on_boundary(&self, s: &State, t: &Text, n: &Lin, at: &Lin) -> R<bool> {
        if s.decide(&Cond::ge(at, n))? || !s.decide(&Cond::ge(at, &Lin::k(1)))? {
            return Ok(true);
        }
        match s.locate(t, at)? {
            Some((_, Src::Str(x), o)) => s.decide(&Cond::Bnd(x, o)),
            Some((_, Src::Zero, _)) => Ok(true),
            _ => Err(Need::Unsup("boundary".into())),
        }
    }
    /// the longest part of `x` that fits in `room`
    fn cut(&self, s: &State, x: &Text, room: &Lin) -> R<Text> {
        let mut room = room.clone();
        let mut out: Text = vec![];
        for p in x {
            if s.decide(&Cond::ge(&room, &p.len()))? {
                room = room.sub(&p.len());
                out.push(p.clone());
                continue;
            }
            let Src::Str(id) = p.src else {
                out.push(Piece { src: p.src, from: p.from.clone(), to: p.from.add(&room) });
                break;
            };
            for k in 0..4 {
                let to = p.from.add(&room).addk(-k);
                if !s.decide(&Cond::ge(&to.sub(&p.from), &Lin::k(1)))? {
                    return Ok(s.norm(&out));
                }
                if s.decide(&Cond::Bnd(id, to.clone()))? {
                    out.push(Piece { src: p.src, from: p.from.clone(), to });
                    return Ok(s.norm(&out));
                }
            }
            return Err(Need::Unsup("boundary search".into()));
        }
        Ok(s.norm(&out))
    }
    /// `f` on a state and, where it asks for a distinction, on each of the cases
    fn cases<T>(&mut self, s: State, f: &mut dyn FnMut(&mut Self, &mut State) -> R<T>) -> R<Vec<(State, T)>> {
        let mut work = vec![s];
        let mut out = vec![];
        let mut n = 0;
        while let Some(s) = work.pop() {
            n += 1;
            if n > 100 {
                return Err(Need::Unsup("too many cases in a summary".into()));
            }
            let mut x = s.clone();
            match f(self, &mut x) {
                Ok(v) => out.push((x, v)),
                Err(Need::Split(c)) => {
                    work.extend(s.clone().assume(&c, true));
                    work.extend(s.assume(&c, false));
                }
                Err(e) => return Err(e),
            }
        }
        Ok(out)
    }
    fn char_in(&self, s: &mut State, t: &Text, at: &Lin, back: bool) -> R<(CharId, Lin)> {
        match s.locate(t, at)? {
            Some((i, Src::Str(x), o)) => {
                let c = if back { s.char_before(x, &o.addk(1)) } else { s.char_at(x, &o) };
                let len = s.chars[&c].len.clone();
                // the text is valid: its parts hold whole characters
                if back {
                    s.cons.add_ge(o.addk(1).sub(&len).sub(&t[i].from));
                } else {
                    s.cons.add_ge(t[i].to.sub(&o).sub(&len));
                }
                Ok((c, len))
            }
            Some((_, Src::Zero, _)) => {
                let c = s.const_char('\0');
                Ok((c, Lin::k(1)))
            }
            _ => Err(Need::Unsup("character position".into())),
        }
    }

    pub fn summary(&mut self, st: &State, e: &Entry<'tcx>, args: &[Val], tys: &[Ty<'tcx>], rty: Ty<'tcx>, site: &str) -> R<Option<Outs>> {
        use Contract::*;
        let Some(c) = e.contract else { return Ok(None) };
        let mut s = st.clone();
        // the string itself
        let fresh = matches!(c, StrictNew | TruncNew);
        let okty = match rty.kind() {
            ty::Adt(_, a) if a.types().count() >= 1 && !self.is_stringish(rty) => a.type_at(0),
            _ => rty,
        };
        let (own, t, p) = if fresh {
            (None, okty, vec![])
        } else {
            let (l, t, v) = match (&args[0], tys[0].kind()) {
                (Val::Ref(l), ty::Ref(_, t, _)) => match s.load(l).cloned() {
                    Some(v) => (Some(l.clone()), *t, v),
                    None => return Ok(None),
                },
                (v, _) if c == TruncAdd => (None, tys[0], v.clone()),
                _ => return Ok(None),
            };
            if !self.is_stringish(t) {
                return Ok(None);
            }
            match self.visible(&mut s, &v, t)? {
                Ok((p, _)) => (l, t, p),
                Err(_) => return Ok(None),
            }
        };
        let n = text_len(&p);
        let Some(cap) = self.cap_of(&s, t) else { return Ok(None) };
        // the text that is added
        let ti = match c {
            StrictNew | TruncNew => Some(0),
            StrictPush | TruncPush | TruncAdd => Some(1),
            Insert | InsertTrunc | Replace => Some(2),
            _ => None,
        };
        let by_user = ti.is_some_and(|i| self.is_user_ty(tys[i]) || matches!(tys[i].kind(), ty::Ref(_, x, _) if self.is_user_ty(*x)));
        if by_user && self.mode == Mode::Hostile {
            // nothing is promised about the content when the text changes while it is looked at
            let mut s = s;
            let mut any = |cx: &mut Self, s: &mut State| -> Option<Val> {
                let id = s.new_str(SKind::Input, "text");
                let n = s.str_len(id);
                s.cons.add_ge(cap.sub(&n));
                let text = vec![s.whole(id)];
                cx.mk_string(s, t, &text, &n, &cap)
            };
            let mut gone = s.clone();
            if let Some(l) = &own {
                let (Some(v), Some(w)) = (any(self, &mut s), any(self, &mut gone)) else { return Ok(None) };
                if !s.store(l, v) || !gone.store(l, w) {
                    return Ok(None);
                }
            }
            let mut outs: Outs = vec![(gone, Out::Unwind)];
            match c {
                TruncPush => outs.push(ret(s, Val::unit())),
                TruncNew | TruncAdd => {
                    let Some(v) = any(self, &mut s) else { return Ok(None) };
                    outs.push(ret(s, v));
                }
                _ => {
                    for k in ["OutOfBounds", "Utf8", "Utf16"] {
                        if let Ok(v) = self.mk_err(rty, k) {
                            outs.push(ret(s.clone(), v));
                        }
                    }
                    let v = match fresh {
                        true => match any(self, &mut s) {
                            Some(v) => v,
                            None => return Ok(None),
                        },
                        false => Val::unit(),
                    };
                    outs.push(ret(s, Val::Enum(0, vec![v])));
                }
            }
            self.stat("calls decided against a proved contract");
            return Ok(Some(outs));
        }
        let texts = match ti {
            Some(i) => match self.sum_text(s, &args[i], tys[i], site)? {
                Some(v) => v,
                None => return Ok(None),
            },
            None => vec![(s, Some(vec![]))],
        };
        let ok = |v: Val| Val::Enum(0, vec![v]);
        let mut outs: Outs = vec![];
        for (mut s, x) in texts {
            let Some(x) = x else {
                // left by a panic of the caller's own code: the string is valid, nothing more is used
                if let Some(l) = &own {
                    let id = s.new_str(SKind::Input, "text");
                    let n = s.str_len(id);
                    s.cons.add_ge(cap.sub(&n));
                    let text = vec![s.whole(id)];
                    self.put(&mut s, l, t, &text, &cap)?;
                }
                outs.push((s, Out::Unwind));
                continue;
            };
            match c {
                Clear => {
                    self.put(&mut s, own.as_ref().unwrap(), t, &vec![], &cap)?;
                    outs.push(ret(s, Val::unit()));
                }
                StrictNew | StrictPush => {
                    if s.decide(&Cond::ge(&cap, &n.add(&text_len(&x))))? {
                        let all: Text = s.norm(&p.iter().chain(&x).cloned().collect::<Text>());
                        if let Some(l) = &own {
                            self.put(&mut s, l, t, &all, &cap)?;
                            outs.push(ret(s, ok(Val::unit())));
                        } else {
                            let Some(v) = self.mk_string(&mut s, t, &all, &text_len(&all), &cap) else { return Ok(None) };
                            outs.push(ret(s, ok(v)));
                        }
                    } else {
                        if let Some(l) = &own {
                            self.put(&mut s, l, t, &p, &cap)?;
                        }
                        let v = self.mk_err(rty, "OutOfBounds")?;
                        outs.push(ret(s, v));
                    }
                }
                TruncNew | TruncPush | TruncAdd => {
                    let k = self.cut(&s, &x, &cap.sub(&n))?;
                    let all: Text = s.norm(&p.iter().chain(&k).cloned().collect::<Text>());
                    if let Some(l) = &own {
                        self.put(&mut s, l, t, &all, &cap)?;
                        outs.push(ret(s, Val::unit()));
                    } else {
                        let Some(v) = self.mk_string(&mut s, t, &all, &text_len(&all), &cap) else { return Ok(None) };
                        outs.push(ret(s, v));
                    }
                }
                Insert | InsertTrunc | Replace | Truncate | SplitOff | Remove => {
                    let l = own.as_ref().unwrap();
                    let (mut a, b) = match c {
                        Replace => match tys[1].kind() {
                            ty::Adt(d, _) => {
                                let name = self.tcx.item_name(d.did()).to_string();
                                if !matches!(name.as_str(), "Range" | "RangeFrom" | "RangeTo" | "RangeFull") {
                                    return Ok(None);
                                }
                                self.range_of(&mut s, &args[1], &name, &n)?
                            }
                            _ => return Ok(None),
                        },
                        _ => {
                            let i = self.as_int(&mut s, &args[1])?;
                            match c {
                                SplitOff | Truncate => (i, n.clone()),
                                _ => (i.clone(), i),
                            }
                        }
                    };
                    if c == Truncate && s.decide(&Cond::ge(&a, &n))? {
                        a = n.clone();
                    }
                    let inside = s.decide(&Cond::ge(&n, &b))? && s.decide(&Cond::ge(&b, &a))? && (c != Remove || s.decide(&Cond::ge(&n, &a.addk(1)))?);
                    if !inside {
                        self.put(&mut s, l, t, &p, &cap)?;
                        let v = self.mk_err(rty, "OutOfBounds")?;
                        outs.push(ret(s, v));
                        continue;
                    }
                    let good = self.on_boundary(&s, &p, &n, &a)? && self.on_boundary(&s, &p, &n, &b)?;
                    let fits = match c {
                        Insert | Replace => s.decide(&Cond::ge(&cap, &n.add(&text_len(&x)).add(&a).sub(&b)))?,
                        _ => true,
                    };
                    if !good || !fits {
                        self.put(&mut s, l, t, &p, &cap)?;
                        if !good {
                            outs.push(ret(s.clone(), self.mk_err(rty, "Utf8")?));
                        }
                        if !fits {
                            outs.push(ret(s, self.mk_err(rty, "OutOfBounds")?));
                        }
                        continue;
                    }
                    let mut v = Val::unit();
                    if c == Remove {
                        let (ch, len) = self.char_in(&mut s, &p, &a, false)?;
                        let Some(z) = alive(s) else { continue };
                        let b = a.add(&len);
                        let parts = self.cases(z, &mut |cx, s| {
                            let head = s.text_slice(&p, &Lin::k(0), &a)?;
                            let tail = s.text_slice(&p, &b, &n)?;
                            let all: Text = s.norm(&head.iter().chain(&tail).cloned().collect::<Text>());
                            cx.put(s, l, t, &all, &cap)
                        })?;
                        outs.extend(parts.into_iter().map(|(s, _)| ret(s, ok(Val::Char(ch)))));
                        continue;
                    }
                    let head = s.text_slice(&p, &Lin::k(0), &a)?;
                    let tail = if matches!(c, Truncate | SplitOff) { vec![] } else { s.text_slice(&p, &b, &n)? };
                    let x = if c == InsertTrunc { self.cut(&s, &x, &cap.sub(&n))? } else { x };
                    if c == SplitOff {
                        let gone = s.text_slice(&p, &a, &n)?;
                        let Some(w) = self.mk_string(&mut s, okty, &gone, &text_len(&gone), &cap) else { return Ok(None) };
                        v = w;
                    }
                    let all: Text = s.norm(&head.iter().chain(&x).chain(&tail).cloned().collect::<Text>());
                    self.put(&mut s, l, t, &all, &cap)?;
                    outs.push(ret(s, ok(v)));
                }
                Pop => {
                    let l = own.as_ref().unwrap();
                    if !s.decide(&Cond::ge(&n, &Lin::k(1)))? {
                        self.put(&mut s, l, t, &p, &cap)?;
                        outs.push(ret(s, Val::Enum(0, vec![])));
                        continue;
                    }
                    let (ch, len) = self.char_in(&mut s, &p, &n.addk(-1), true)?;
                    let Some(z) = alive(s) else { continue };
                    let parts = self.cases(z, &mut |cx, s| {
                        let left = s.text_slice(&p, &Lin::k(0), &n.sub(&len))?;
                        cx.put(s, l, t, &left, &cap)
                    })?;
                    outs.extend(parts.into_iter().map(|(s, _)| ret(s, Val::Enum(1, vec![Val::Char(ch)]))));
                }
                _ => return Ok(None),
            }
        }
        self.stat("calls decided against a proved contract");
        Ok(Some(outs))
    }
}
