//! Abstract domain: values, texts (segmented byte arrays), numeric constraints and string facts.

use crate::lin::*;
use crate::share::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub type ObjId = u32;
pub type StrId = u32;
pub type CharId = u32;
pub type UserId = u32;

pub const MAXLEN: i128 = (1i128 << 63) - 1; // no object is larger than isize::MAX

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Src {
    Str(StrId),
    Zero,
    Junk(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Piece {
    pub src: Src,
    pub from: Lin,
    pub to: Lin,
}
impl std::fmt::Debug for Piece {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.src {
            Src::Str(s) => write!(f, "s{}[{:?}..{:?}]", s, self.from, self.to),
            Src::Zero => write!(f, "zero[{:?}]", self.to.sub(&self.from)),
            Src::Junk(j) => write!(f, "stale{}[{:?}..{:?}]", j, self.from, self.to),
        }
    }
}
impl Piece {
    pub fn len(&self) -> Lin {
        self.to.sub(&self.from)
    }
}
pub type Text = Vec<Piece>;

pub fn text_len(t: &[Piece]) -> Lin {
    let mut l = Lin::k(0);
    for p in t {
        l = l.add(&p.len());
    }
    l
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Proj {
    Field(u32),
    Variant(u32),
    Index(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Loc {
    pub obj: ObjId,
    pub path: Vec<Proj>,
}
impl std::fmt::Debug for Loc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "o{}", self.obj)?;
        for p in &self.path {
            match p {
                Proj::Field(i) => write!(f, ".{}", i)?,
                Proj::Variant(i) => write!(f, "@{}", i)?,
                Proj::Index(i) => write!(f, "[{}]", i)?,
            }
        }
        Ok(())
    }
}
impl Loc {
    pub fn obj(o: ObjId) -> Loc {
        Loc { obj: o, path: vec![] }
    }
    pub fn push(&self, p: Proj) -> Loc {
        let mut l = self.clone();
        l.path.push(p);
        l
    }
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Base {
    Place(Loc),
    Ext(StrId),
    /// dangling but valid for zero bytes
    Null,
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Cond {
    T,
    F,
    Ge(Lin),
    Eq(Lin),
    Bnd(StrId, Lin),
    Pred(Rc<str>, CharId),
    TextEq(Text, Text),
    /// ordering of two texts is the given one (-1,0,1)
    OrdIs(Text, Text, i8),
    Opaque(u32),
    Not(Box<Cond>),
    And(Box<Cond>, Box<Cond>),
    Or(Box<Cond>, Box<Cond>),
}
impl Cond {
    pub fn not(self) -> Cond {
        match self {
            Cond::T => Cond::F,
            Cond::F => Cond::T,
            Cond::Not(c) => *c,
            Cond::Ge(l) => Cond::Ge(l.neg().addk(-1)),
            c => Cond::Not(Box::new(c)),
        }
    }
    pub fn b(b: bool) -> Cond {
        if b {
            Cond::T
        } else {
            Cond::F
        }
    }
    pub fn ge(a: &Lin, b: &Lin) -> Cond {
        let l = a.sub(b);
        match l.is_const() {
            Some(k) => Cond::b(k >= 0),
            None => Cond::Ge(l),
        }
    }
    pub fn lt(a: &Lin, b: &Lin) -> Cond {
        Cond::ge(b, &a.addk(1))
    }
    pub fn eq(a: &Lin, b: &Lin) -> Cond {
        let mut l = a.sub(b);
        match l.is_const() {
            Some(k) => Cond::b(k == 0),
            None => {
                if l.t[0].1 < 0 {
                    l = l.neg();
                }
                Cond::Eq(l)
            }
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Val {
    Uninit,
    Top,
    Int(Lin),
    /// a byte of a string, known only by position
    Byte(Src, Lin),
    /// a byte of a string masked / reinterpreted: (src, off, op)
    ByteOp(Src, Lin, ByteOp),
    Bool(Cond),
    Char(CharId),
    Agg(Vec<Val>),
    Enum(u32, Vec<Val>),
    Ref(Loc),
    Slice { base: Base, off: Lin, len: Lin },
    BPtr { base: Base, off: Lin },
    Bytes(Text),
    User(UserId),
    Opaque(u32),
    /// core::cmp::Ordering of two texts, not yet known; true = reversed
    SymOrd(Text, Text, bool),
    Chars { base: Base, front: Lin, back: Lin, start: Lin, indices: bool },
    /// iterator over the bytes (elements) of a slice; by_ref: yields references
    BIter { base: Base, front: Lin, back: Lin, kind: u8 },
    /// decode_utf16 over the given user iterator ghost
    Decode(UserId),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum ByteOp {
    AndC0,
    I8,
}

impl Val {
    pub fn unit() -> Val {
        Val::Agg(vec![])
    }
    pub fn int(k: i128) -> Val {
        Val::Int(Lin::k(k))
    }
    pub fn b(b: bool) -> Val {
        Val::Bool(Cond::b(b))
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SKind {
    Input,
    Item,
    Lit(Rc<str>),
    Char,
    Joined,
    /// bytes that may not be UTF-8
    Raw,
    /// sequence of u16
    Wide,
}
#[derive(Clone, Debug)]
pub struct StrInfo {
    pub kind: SKind,
    pub len: Lin,
    pub name: Rc<str>,
}
#[derive(Clone, Debug)]
pub struct CharInfo {
    pub s: StrId,
    pub off: Lin,
    pub len: Lin,
    pub code: Lin,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum UKind {
    Plain,
    Iter,
    Pred,
    Decode,
}
#[derive(Clone, Debug)]
pub struct UserInfo {
    pub kind: UKind,
    pub name: Rc<str>,
    /// text handed out by an iterator so far / asked so far
    pub taken: Text,
    /// accepted text (predicates)
    pub kept: Text,
    pub exhausted: bool,
    pub err: bool,
    /// the last item handed out / last char asked was completely (none yet: false)
    pub calls: bool,
    pub memo: BTreeMap<Rc<str>, Val>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Effect {
    pub what: Rc<str>,
    pub args: Vec<Val>,
    pub ret: Option<Val>,
}

thread_local! {
    /// symbols below this one keep their names
    pub static FROZEN: std::cell::Cell<Sym> = const { std::cell::Cell::new(0) };
    /// whether loops freeze the symbols from before them
    pub static FREEZE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

#[derive(Clone, Default, Debug)]
pub struct Facts {
    pub bnd: Vec<(StrId, Lin)>,
    /// no boundary at any offset in [a, b]
    pub nb: Vec<(StrId, Lin, Lin)>,
    pub pred: Vec<(Rc<str>, CharId, bool)>,
    /// every character of s[a..b) has pred == v
    pub rp: Vec<(Rc<str>, bool, StrId, Lin, Lin)>,
    pub ob: BTreeMap<u32, bool>,
    pub teq: Vec<(Text, Text, bool)>,
    pub ord: Vec<(Text, Text, i8)>,
    /// numeric value of the byte of a source at an offset
    pub bytes: Vec<(Src, Lin, Lin)>,
}

#[derive(Clone)]
pub struct TraceNode {
    pub note: String,
    pub prev: Option<Rc<TraceNode>>,
}

#[derive(Clone)]
pub struct State {
    pub objs: IdMap<Val>,
    pub strs: Sh<BTreeMap<StrId, StrInfo>>,
    pub chars: Sh<BTreeMap<CharId, CharInfo>>,
    pub users: Sh<BTreeMap<UserId, UserInfo>>,
    pub cons: Sh<Cons>,
    /// quantities that turned out to equal an expression and were replaced by it
    pub elim: Sh<BTreeMap<Sym, Lin>>,
    pub facts: Sh<Facts>,
    /// values of interest to the contract, named
    pub ghost: Sh<BTreeMap<Rc<str>, Val>>,
    pub effects: Sh<Vec<Effect>>,
    pub trace: Option<Rc<TraceNode>>,
    pub taint: Vec<Rc<str>>,
    pub dead: bool,
    /// case splits since the last finished step
    pub splits: u32,
    /// the caller's iterator gave an item since the innermost loop's head was passed
    pub consumed: bool,
}

#[derive(Debug, Clone)]
pub enum Need {
    Split(Cond),
    /// replace the (lazily unknown) value at a place; handled by the interpreter
    Cases(Vec<(Loc, Val, Cond)>),
    Unsup(String),
    /// undefined behaviour obligation failed
    Ub(String),
}
pub type R<T> = Result<T, Need>;

use std::cell::Cell;
thread_local! {
    static NEXT: Cell<u32> = Cell::new(1);
}
pub fn fresh_id() -> u32 {
    NEXT.with(|n| {
        let v = n.get();
        n.set(v + 1);
        v
    })
}
pub fn reset_ids() {
    NEXT.with(|n| n.set(1));
}

impl State {
    pub fn new() -> State {
        State {
            objs: IdMap::new(),
            strs: Default::default(),
            chars: Default::default(),
            users: Default::default(),
            cons: Default::default(),
            elim: Default::default(),
            facts: Default::default(),
            ghost: Default::default(),
            effects: Default::default(),
            trace: None,
            taint: vec![],
            dead: false,
            splits: 0,
            consumed: false,
        }
    }
    pub fn note(&mut self, s: String) {
        self.trace = Some(Rc::new(TraceNode { note: s, prev: self.trace.take() }));
    }
    pub fn trace_vec(&self) -> Vec<String> {
        let mut v = vec![];
        let mut c = self.trace.as_ref();
        while let Some(n) = c {
            v.push(n.note.clone());
            c = n.prev.as_ref();
        }
        v.reverse();
        v
    }
    pub fn new_obj(&mut self, v: Val) -> ObjId {
        let o = fresh_id();
        self.objs.insert(o, v);
        o
    }
    pub fn fresh_int(&mut self, name: &str, lo: i128, hi: i128) -> Lin {
        let s = Lin::s(new_sym(name));
        self.cons.add_ge(s.addk(-lo));
        self.cons.add_ge(s.neg().addk(hi));
        s
    }
    pub fn new_str(&mut self, kind: SKind, name: &str) -> StrId {
        let id = fresh_id();
        let len = match &kind {
            SKind::Lit(l) => Lin::k(l.len() as i128),
            SKind::Char => self.fresh_int(&format!("utf8len({})", name), 1, 4),
            _ => self.fresh_int(&format!("len({})", name), 0, MAXLEN),
        };
        self.strs.insert(id, StrInfo { kind, len, name: name.into() });
        id
    }
    pub fn lit(&mut self, l: &str) -> StrId {
        for (id, s) in &self.strs {
            if let SKind::Lit(x) = &s.kind {
                if &**x == l {
                    return *id;
                }
            }
        }
        self.new_str(SKind::Lit(l.into()), &format!("{:?}", l))
    }
    pub fn str_valid(&self, s: StrId) -> bool {
        match self.strs.get(&s) {
            Some(i) => !matches!(i.kind, SKind::Raw | SKind::Wide),
            None => false,
        }
    }
    pub fn str_len(&self, s: StrId) -> Lin {
        self.strs[&s].len.clone()
    }
    pub fn whole(&self, s: StrId) -> Piece {
        Piece { src: Src::Str(s), from: Lin::k(0), to: self.str_len(s) }
    }
    /// a fresh character that is not known to be part of anything
    pub fn fresh_char(&mut self, name: &str) -> CharId {
        let s = self.new_str(SKind::Char, name);
        let len = self.str_len(s);
        self.add_char(s, Lin::k(0), len)
    }
    pub fn const_char(&mut self, c: char) -> CharId {
        let mut b = [0; 4];
        let s = self.lit(c.encode_utf8(&mut b));
        for (id, ci) in &self.chars {
            if ci.s == s {
                return *id;
            }
        }
        let id = fresh_id();
        self.chars
            .insert(id, CharInfo { s, off: Lin::k(0), len: Lin::k(c.len_utf8() as i128), code: Lin::k(c as u32 as i128) });
        id
    }
    fn add_char(&mut self, s: StrId, off: Lin, len: Lin) -> CharId {
        let id = fresh_id();
        let code = self.fresh_int("code", 0, 0x10FFFF);
        self.chars.insert(id, CharInfo { s, off, len, code });
        id
    }
    pub fn char_text(&self, c: CharId) -> Text {
        let ci = &self.chars[&c];
        vec![Piece { src: Src::Str(ci.s), from: ci.off.clone(), to: ci.off.add(&ci.len) }]
    }
    /// the character starting at the boundary `off` (< len) of s
    pub fn char_at(&mut self, s: StrId, off: &Lin) -> CharId {
        let cands: Vec<CharId> = self.chars.iter().filter(|(_, c)| c.s == s).map(|x| *x.0).collect();
        for c in cands {
            let o = self.chars[&c].off.clone();
            if self.cons.entails_eq(&o.sub(off)) {
                return c;
            }
        }
        if let SKind::Lit(l) = &self.strs[&s].kind.clone() {
            if let Some(k) = off.is_const() {
                if let Some(ch) = l.get(k as usize..).and_then(|x| x.chars().next()) {
                    let id = fresh_id();
                    self.chars.insert(
                        id,
                        CharInfo { s, off: off.clone(), len: Lin::k(ch.len_utf8() as i128), code: Lin::k(ch as u32 as i128) },
                    );
                    return id;
                }
            }
        }
        let len = self.fresh_int("utf8len", 1, 4);
        let c = self.add_char(s, off.clone(), len.clone());
        let sl = self.str_len(s);
        self.cons.add_ge(sl.sub(off).sub(&len));
        self.add_bnd(s, off.clone());
        self.add_bnd(s, off.add(&len));
        self.saturate();
        c
    }
    /// the character ending at the boundary `end` (> 0) of s
    pub fn char_before(&mut self, s: StrId, end: &Lin) -> CharId {
        let cands: Vec<CharId> = self.chars.iter().filter(|(_, c)| c.s == s).map(|x| *x.0).collect();
        for c in cands {
            let o = self.chars[&c].off.add(&self.chars[&c].len);
            if self.cons.entails_eq(&o.sub(end)) {
                return c;
            }
        }
        let len = self.fresh_int("utf8len", 1, 4);
        let off = end.sub(&len);
        self.cons.add_ge(off.clone());
        let c = self.add_char(s, off.clone(), len.clone());
        self.add_bnd(s, off);
        self.add_bnd(s, end.clone());
        self.saturate();
        c
    }

    pub fn add_bnd(&mut self, s: StrId, o: Lin) {
        if o.is_const() == Some(0) || o == self.strs[&s].len {
            return;
        }
        let f = (s, o);
        if !self.facts.bnd.contains(&f) {
            self.facts.bnd.push(f);
        }
    }

    /// does `[a,b]` of s provably contain no character boundary?
    pub fn known_nb(&self, s: StrId, a: &Lin, b: &Lin) -> bool {
        if self.cons.entails_ge(&a.sub(b).addk(-1)) {
            return true;
        }
        if let SKind::Lit(l) = &self.strs[&s].kind {
            if let (Some(x), Some(y)) = (a.is_const(), b.is_const()) {
                return (x..=y).all(|k| k < 0 || k > l.len() as i128 || !l.is_char_boundary(k as usize));
            }
        }
        // greedy coverage from a upwards
        let mut ivs: Vec<(Lin, Lin)> = vec![];
        for (t, x, y) in &self.facts.nb {
            if *t == s {
                ivs.push((x.clone(), y.clone()));
            }
        }
        for c in self.chars.values() {
            if c.s == s {
                ivs.push((c.off.addk(1), c.off.add(&c.len).addk(-1)));
            }
        }
        ivs.push((self.strs[&s].len.addk(1), self.strs[&s].len.addk(1 << 70)));
        ivs.push((Lin::k(-(1 << 70)), Lin::k(-1)));
        let mut cur = a.clone();
        let mut used = vec![false; ivs.len()];
        loop {
            if self.cons.entails_ge(&cur.sub(b).addk(-1)) {
                return true;
            }
            let mut adv = false;
            for (i, (x, y)) in ivs.iter().enumerate() {
                if used[i] {
                    continue;
                }
                if self.cons.entails_ge(&cur.sub(x)) && self.cons.entails_ge(&y.sub(&cur).addk(1)) {
                    used[i] = true;
                    cur = y.addk(1);
                    adv = true;
                    break;
                }
            }
            if !adv {
                return false;
            }
        }
    }

    pub fn known_bnd(&self, s: StrId, o: &Lin) -> Option<bool> {
        if !self.str_valid(s) {
            return None;
        }
        let info = &self.strs[&s];
        let len = &info.len;
        if o.is_const() == Some(0) || o == len {
            return Some(true);
        }
        if let (SKind::Lit(l), Some(k)) = (&info.kind, o.is_const()) {
            return Some(k >= 0 && k <= l.len() as i128 && l.is_char_boundary(k as usize));
        }
        for (t, x) in &self.facts.bnd {
            if *t == s && x == o {
                return Some(true);
            }
        }
        if self.cons.entails_eq(o) || self.cons.entails_eq(&o.sub(len)) {
            return Some(true);
        }
        for (t, x) in &self.facts.bnd {
            if *t == s && self.cons.entails_eq(&x.sub(o)) {
                return Some(true);
            }
        }
        for c in self.chars.values() {
            if c.s == s && (self.cons.entails_eq(&c.off.sub(o)) || self.cons.entails_eq(&c.off.add(&c.len).sub(o))) {
                return Some(true);
            }
        }
        if self.known_nb(s, o, o) {
            return Some(false);
        }
        // a character has at most four bytes
        if !self.facts.nb.is_empty() {
            if self.cons.entails_ge(o) && self.cons.entails_ge(&len.sub(o).addk(-3)) && self.known_nb(s, &o.addk(1), &o.addk(3)) {
                return Some(true);
            }
            if self.cons.entails_ge(&o.addk(-3)) && self.cons.entails_ge(&len.sub(o)) && self.known_nb(s, &o.addk(-3), &o.addk(-1)) {
                return Some(true);
            }
        }
        None
    }

    /// derive arithmetic consequences of the boundary facts
    pub fn saturate(&mut self) {
        if self.facts.nb.is_empty() && self.chars.is_empty() {
            return;
        }
        for _ in 0..4 {
            let mut changed = false;
            let mut pts: Vec<(StrId, Lin)> = self.facts.bnd.clone();
            let mut strs: BTreeSet<StrId> = BTreeSet::new();
            for (s, _, _) in &self.facts.nb {
                strs.insert(*s);
            }
            for c in self.chars.values() {
                strs.insert(c.s);
            }
            for s in &strs {
                if !self.strs.contains_key(s) {
                    continue;
                }
                pts.push((*s, Lin::k(0)));
                pts.push((*s, self.strs[s].len.clone()));
            }
            let mut ivs: Vec<(StrId, Lin, Lin)> = self.facts.nb.clone();
            for c in self.chars.values() {
                if c.len.is_const() == Some(1) || matches!(self.strs[&c.s].kind, SKind::Lit(_) | SKind::Char) {
                    continue;
                }
                ivs.push((c.s, c.off.addk(1), c.off.add(&c.len).addk(-1)));
                pts.push((c.s, c.off.clone()));
                pts.push((c.s, c.off.add(&c.len)));
            }
            pts.sort();
            pts.dedup();
            for (s, p) in &pts {
                for (t, a, b) in &ivs {
                    if s != t {
                        continue;
                    }
                    // p < a or p > b   (if a <= b)
                    let below = a.sub(p).addk(-1); // >= 0 : p < a
                    let above = p.sub(b).addk(-1); // >= 0 : p > b
                    if below.is_const().map_or(false, |k| k >= 0) || above.is_const().map_or(false, |k| k >= 0) {
                        continue;
                    }
                    if self.cons.entails_ge(&below) || self.cons.entails_ge(&above) {
                        continue;
                    }
                    // p >= a  =>  p > b
                    if !self.cons.feasible_with(&[below.clone()]) {
                        self.cons.add_ge(above.clone());
                        changed = true;
                    } else if !self.cons.feasible_with(&[above.clone()]) {
                        // p <= b => p < a ; valid also for empty intervals only if a<=b
                        if self.cons.entails_ge(&b.sub(a)) {
                            self.cons.add_ge(below.clone());
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
            if !self.cons.feasible_with(&[]) {
                self.dead = true;
                return;
            }
        }
    }

    // ---------------------------------------------------------------- conditions

    pub fn eval(&self, c: &Cond) -> Option<bool> {
        match c {
            Cond::T => Some(true),
            Cond::F => Some(false),
            Cond::Ge(l) => {
                if self.cons.entails_ge(l) {
                    Some(true)
                } else if !self.cons.feasible_with(&[l.clone()]) {
                    Some(false)
                } else {
                    None
                }
            }
            Cond::Eq(l) => {
                if let Some(k) = l.is_const() {
                    return Some(k == 0);
                }
                let ge = self.cons.entails_ge(l);
                let le = self.cons.entails_ge(&l.neg());
                if ge && le {
                    return Some(true);
                }
                if !self.cons.feasible_with(&[l.clone(), l.neg()]) {
                    return Some(false);
                }
                None
            }
            Cond::Bnd(s, o) => self.known_bnd(*s, o),
            Cond::Pred(p, c) => self.known_pred(p, *c),
            Cond::TextEq(a, b) => self.known_teq(a, b),
            Cond::OrdIs(a, b, k) => self.known_ord(a, b).map(|x| x == *k).or_else(|| {
                // the known inequality excludes "equal"
                if *k == 0 {
                    self.known_teq(a, b)
                } else if self.known_teq(a, b) == Some(true) {
                    Some(false)
                } else {
                    None
                }
            }),
            Cond::Opaque(i) => self.facts.ob.get(i).copied(),
            Cond::Not(c) => self.eval(c).map(|b| !b),
            Cond::And(a, b) => match (self.eval(a), self.eval(b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Cond::Or(a, b) => match (self.eval(a), self.eval(b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
        }
    }
    pub fn decide(&self, c: &Cond) -> R<bool> {
        match self.eval(c) {
            Some(b) => Ok(b),
            None => Err(Need::Split(c.clone())),
        }
    }
    pub fn known_pred(&self, p: &str, c: CharId) -> Option<bool> {
        for (q, d, v) in &self.facts.pred {
            if *d == c && &**q == p {
                return Some(*v);
            }
        }
        let ci = self.chars.get(&c)?;
        if let Some(k) = ci.code.is_const() {
            let ch = char::from_u32(k as u32)?;
            match p {
                "is_whitespace" => return Some(ch.is_whitespace()),
                "is_ascii_whitespace" => return Some(ch.is_ascii_whitespace()),
                "is_alphanumeric" => return Some(ch.is_alphanumeric()),
                "is_alphabetic" => return Some(ch.is_alphabetic()),
                "is_numeric" => return Some(ch.is_numeric()),
                "is_control" => return Some(ch.is_control()),
                _ => {}
            }
        }
        for (q, v, s, a, b) in &self.facts.rp {
            if &**q == p && *s == ci.s && self.cons.entails_ge(&ci.off.sub(a)) && self.cons.entails_ge(&b.sub(&ci.off).addk(-1)) {
                return Some(*v);
            }
        }
        None
    }
    /// every character of s[a..b) has pred p == v
    pub fn known_range_pred(&self, p: &str, v: bool, s: StrId, a: &Lin, b: &Lin) -> bool {
        let mut ivs: Vec<(Lin, Lin)> = vec![];
        for (q, w, t, x, y) in &self.facts.rp {
            if &**q == p && *w == v && *t == s {
                ivs.push((x.clone(), y.clone()));
            }
        }
        for (id, c) in &self.chars {
            if c.s == s && self.known_pred(p, *id) == Some(v) {
                ivs.push((c.off.clone(), c.off.add(&c.len)));
            }
        }
        let mut cur = a.clone();
        let mut used = vec![false; ivs.len()];
        loop {
            if self.cons.entails_ge(&cur.sub(b)) {
                return true;
            }
            let mut adv = false;
            for (i, (x, y)) in ivs.iter().enumerate() {
                if !used[i] && self.cons.entails_ge(&cur.sub(x)) && self.cons.entails_ge(&y.sub(&cur)) {
                    used[i] = true;
                    cur = y.clone();
                    adv = true;
                    break;
                }
            }
            if !adv {
                return false;
            }
        }
    }
    pub fn known_teq(&self, a: &Text, b: &Text) -> Option<bool> {
        if let Ok(true) = self.text_eq(a, b) {
            return Some(true);
        }
        let d = text_len(a).sub(&text_len(b));
        if !self.cons.feasible_with(&[d.clone(), d.neg()]) {
            return Some(false);
        }
        for (x, y, v) in &self.facts.teq {
            if (self.same_text(x, a) && self.same_text(y, b)) || (self.same_text(x, b) && self.same_text(y, a)) {
                return Some(*v);
            }
        }
        for (x, y, v) in &self.facts.ord {
            if (self.same_text(x, a) && self.same_text(y, b)) || (self.same_text(x, b) && self.same_text(y, a)) {
                return Some(*v == 0);
            }
        }
        None
    }
    pub fn known_ord(&self, a: &Text, b: &Text) -> Option<i8> {
        if self.known_teq(a, b) == Some(true) {
            return Some(0);
        }
        for (x, y, v) in &self.facts.ord {
            if self.same_text(x, a) && self.same_text(y, b) {
                return Some(*v);
            }
            if self.same_text(x, b) && self.same_text(y, a) {
                return Some(-*v);
            }
        }
        None
    }
    pub fn same_text(&self, a: &Text, b: &Text) -> bool {
        a == b || matches!(self.text_eq(a, b), Ok(true))
    }

    /// conjoin a condition; the result is the list of feasible refinements
    pub fn assume(mut self, c: &Cond, v: bool) -> Vec<State> {
        if let Some(b) = self.eval(c) {
            return if b == v { vec![self] } else { vec![] };
        }
        match (c, v) {
            (Cond::T, _) | (Cond::F, _) => unreachable!(),
            (Cond::Not(c), v) => self.assume(c, !v),
            (Cond::Ge(l), v) => {
                let l = if v { l.clone() } else { l.neg().addk(-1) };
                self.cons.add_ge(l.clone());
                if self.cons.entails_ge(&l.neg()) {
                    self.add_equality(&l);
                }
                self.finish()
            }
            (Cond::Eq(l), true) => {
                self.add_equality(l);
                self.finish()
            }
            (Cond::Eq(l), false) => {
                let mut a = self.clone();
                a.cons.add_ge(l.addk(-1));
                self.cons.add_ge(l.neg().addk(-1));
                let mut r = a.finish();
                r.extend(self.finish());
                r
            }
            (Cond::Bnd(s, o), true) => {
                let len = self.str_len(*s);
                self.cons.add_ge(o.clone());
                self.cons.add_ge(len.sub(o));
                self.add_bnd(*s, o.clone());
                self.finish()
            }
            (Cond::Bnd(s, o), false) => {
                self.facts.nb.push((*s, o.clone(), o.clone()));
                self.finish()
            }
            (Cond::Pred(p, c), v) => {
                self.facts.pred.push((p.clone(), *c, v));
                self.finish()
            }
            (Cond::TextEq(a, b), v) => {
                self.facts.teq.push((a.clone(), b.clone(), v));
                if v {
                    let d = text_len(a).sub(&text_len(b));
                    self.add_equality(&d);
                }
                self.finish()
            }
            (Cond::OrdIs(a, b, k), true) => {
                self.facts.ord.push((a.clone(), b.clone(), *k));
                self.finish()
            }
            (Cond::OrdIs(a, b, k), false) => {
                let mut out = vec![];
                for j in [-1i8, 0, 1] {
                    if j != *k {
                        out.extend(self.clone().assume(&Cond::OrdIs(a.clone(), b.clone(), j), true));
                    }
                }
                out
            }
            (Cond::Opaque(i), v) => {
                self.facts.ob.insert(*i, v);
                vec![self]
            }
            (Cond::And(a, b), true) | (Cond::Or(a, b), false) => {
                let mut out = vec![];
                for s in self.assume(a, v) {
                    out.extend(s.assume(b, v));
                }
                out
            }
            (Cond::And(a, b), false) | (Cond::Or(a, b), true) => {
                let mut out = vec![];
                out.extend(self.clone().assume(a, v));
                for s in self.assume(a, !v) {
                    out.extend(s.assume(b, v));
                }
                out
            }
        }
    }
    fn finish(mut self) -> Vec<State> {
        if !self.cons.feasible_with(&[]) || self.dead {
            return vec![];
        }
        self.saturate();
        if self.dead || !self.cons.feasible_with(&[]) {
            return vec![];
        }
        self.propagate_eq();
        if self.contradiction() {
            return vec![];
        }
        vec![self]
    }
    /// cheap consistency test of the string facts
    fn contradiction(&self) -> bool {
        for (s, a, b) in &self.facts.nb {
            if !self.cons.entails_ge(&b.sub(a)) {
                continue;
            }
            let len = &self.strs[s].len;
            let pts: Vec<Lin> = self
                .facts
                .bnd
                .iter()
                .filter(|x| x.0 == *s)
                .map(|x| x.1.clone())
                .chain([Lin::k(0), len.clone()])
                .chain(self.chars.values().filter(|c| c.s == *s).flat_map(|c| [c.off.clone(), c.off.add(&c.len)]))
                .collect();
            for p in pts {
                if self.cons.entails_ge(&p.sub(a)) && self.cons.entails_ge(&b.sub(&p)) {
                    return true;
                }
            }
            // four consecutive in-range offsets without a boundary
            if self.cons.entails_ge(a) && self.cons.entails_ge(&len.sub(&a.addk(3))) && self.known_nb(*s, a, &a.addk(3)) {
                return true;
            }
            if self.cons.entails_ge(&b.addk(-3)) && self.cons.entails_ge(&len.sub(b)) && self.known_nb(*s, &b.addk(-3), b) {
                return true;
            }
        }
        for (x, y, v) in &self.facts.teq {
            if !*v {
                if let Ok(true) = self.text_eq(x, y) {
                    return true;
                }
            }
        }
        for (p, c, v) in &self.facts.pred {
            let ci = match self.chars.get(c) {
                Some(c) => c,
                None => continue,
            };
            for (q, w, s, a, b) in &self.facts.rp {
                if q == p && *w != *v && *s == ci.s && self.cons.entails_ge(&ci.off.sub(a)) && self.cons.entails_ge(&b.sub(&ci.off).addk(-1)) {
                    return true;
                }
            }
            for (q, d, w) in &self.facts.pred {
                if q == p && w != v && d != c {
                    if let Some(di) = self.chars.get(d) {
                        if di.s == ci.s && self.cons.entails_eq(&di.off.sub(&ci.off)) {
                            return true;
                        }
                    }
                }
            }
        }
        false
    }
    /// constraints that have become equalities are substituted away
    pub fn propagate_eq(&mut self) {
        let frozen = FROZEN.with(|f| f.get());
        for _ in 0..6 {
            let cands: Vec<Lin> = self.cons.ge.iter().filter(|l| l.t.len() <= 3 && !l.t.is_empty()).cloned().collect();
            let mut did = false;
            for l in cands {
                if l.t.iter().all(|x| x.1.abs() != 1) {
                    continue;
                }
                if l.t.iter().all(|x| x.0 < frozen) && self.cons.eqs_only().entails_eq(&l) {
                    continue;
                }
                if self.cons.ge.iter().any(|g| g.t.len() == l.t.len() && *g == l.neg()) || self.cons.entails_ge(&l.neg()) {
                    self.add_equality(&l);
                    did = true;
                    break;
                }
            }
            if !did {
                break;
            }
        }
    }
    /// equations kept as such inside a loop are substituted after it
    pub fn thaw(&mut self) {
        for _ in 0..40 {
            let Some(l) = self.cons.eq.pop() else { return };
            let n = self.cons.eq.len();
            self.add_equality(&l);
            if self.cons.eq.len() > n {
                return;
            }
        }
    }
    pub fn add_equality(&mut self, l: &Lin) {
        if let Some(k) = l.is_const() {
            if k != 0 {
                self.dead = true;
            }
            return;
        }
        // eliminate the newest symbol with unit coefficient; inside a loop, quantities from before it keep their names
        let frozen = FROZEN.with(|f| f.get());
        if let Some(&(s, k)) = l.t.iter().rev().find(|x| x.1.abs() == 1 && x.0 >= frozen) {
            let mut rest = l.clone();
            rest.t.retain(|x| x.0 != s);
            let val = rest.scale(-k);
            let mut m = BTreeMap::new();
            m.insert(s, val.clone());
            self.subst(&m);
            self.elim.insert(s, val);
        } else {
            self.cons.add_eq(l.clone());
        }
    }
    /// the replaced quantities that `keep` selects, as equations again
    pub fn revive(&self, keep: &dyn Fn(Sym) -> bool) -> Option<State> {
        let back: Vec<Lin> = self.elim.iter().filter(|x| keep(*x.0)).map(|(s, l)| Lin::s(*s).sub(l)).collect();
        if back.is_empty() {
            return None;
        }
        let mut s = self.clone();
        for l in back {
            s.cons.add_eq(l);
        }
        Some(s)
    }
    pub fn subst(&mut self, m: &BTreeMap<Sym, Lin>) {
        let f = |l: &Lin| l.subst(m);
        self.map_lins(&f);
    }
    pub fn map_lins(&mut self, f: &dyn Fn(&Lin) -> Lin) {
        for v in self.objs.values_mut() {
            *v = map_val(v, f);
        }
        for s in self.strs.values_mut() {
            s.len = f(&s.len);
        }
        for c in self.chars.values_mut() {
            c.off = f(&c.off);
            c.len = f(&c.len);
            c.code = f(&c.code);
        }
        for u in self.users.values_mut() {
            u.taken = map_text(&u.taken, f);
            u.kept = map_text(&u.kept, f);
            for v in u.memo.values_mut() {
                *v = map_val(v, f);
            }
        }
        for l in self.elim.values_mut() {
            *l = f(l);
        }
        let old = std::mem::take(&mut self.cons);
        for l in old.ge.clone() {
            let l = f(&l);
            if let Some(k) = l.is_const() {
                if k < 0 {
                    self.dead = true;
                }
                continue;
            }
            self.cons.add_ge(l);
        }
        for l in old.eq.clone() {
            let l = f(&l);
            if let Some(k) = l.is_const() {
                if k != 0 {
                    self.dead = true;
                }
                continue;
            }
            self.cons.add_eq(l);
        }
        let fa = &mut self.facts;
        for x in fa.bnd.iter_mut() {
            x.1 = f(&x.1);
        }
        for x in fa.nb.iter_mut() {
            x.1 = f(&x.1);
            x.2 = f(&x.2);
        }
        for x in fa.rp.iter_mut() {
            x.3 = f(&x.3);
            x.4 = f(&x.4);
        }
        for x in fa.teq.iter_mut() {
            x.0 = map_text(&x.0, f);
            x.1 = map_text(&x.1, f);
        }
        for x in fa.ord.iter_mut() {
            x.0 = map_text(&x.0, f);
            x.1 = map_text(&x.1, f);
        }
        for x in fa.bytes.iter_mut() {
            x.1 = f(&x.1);
            x.2 = f(&x.2);
        }
        for v in self.ghost.values_mut() {
            *v = map_val(v, f);
        }
        for e in self.effects.iter_mut() {
            for v in e.args.iter_mut() {
                *v = map_val(v, f);
            }
            if let Some(v) = e.ret.as_mut() {
                *v = map_val(v, f);
            }
        }
    }

    // ---------------------------------------------------------------- texts

    /// drop pieces known to be empty, merge adjacent ones
    pub fn norm(&self, t: &[Piece]) -> Text {
        let mut out: Text = vec![];
        for p in t {
            let l = p.len();
            if l.is_const() == Some(0) || (l.is_const().is_none() && self.cons.entails_ge(&l.neg())) {
                continue;
            }
            if let Some(q) = out.last_mut() {
                if q.src == p.src {
                    if q.src == Src::Zero {
                        q.to = q.to.add(&p.len());
                        continue;
                    }
                    if q.to == p.from || self.cons.entails_eq(&q.to.sub(&p.from)) {
                        q.to = p.to.clone();
                        continue;
                    }
                }
            }
            out.push(p.clone());
        }
        out
    }

    /// bytes [from, to) of the text
    pub fn text_slice(&self, t: &[Piece], from: &Lin, to: &Lin) -> R<Text> {
        if self.cons.entails_ge(&from.sub(to)) {
            return Ok(vec![]);
        }
        let mut out = vec![];
        let mut pos = Lin::k(0);
        for p in t {
            let end = pos.add(&p.len());
            let start_in = if self.eval(&Cond::ge(&pos, from)) == Some(true) {
                p.from.clone()
            } else if self.decide(&Cond::ge(from, &end))? {
                pos = end;
                continue;
            } else if self.decide(&Cond::ge(&pos, from))? {
                p.from.clone()
            } else {
                p.from.add(&from.sub(&pos))
            };
            let end_in = if self.eval(&Cond::ge(to, &end)) == Some(true) {
                p.to.clone()
            } else if self.decide(&Cond::ge(&pos, to))? {
                break;
            } else if self.decide(&Cond::ge(to, &end))? {
                p.to.clone()
            } else {
                p.from.add(&to.sub(&pos))
            };
            out.push(Piece { src: p.src, from: start_in, to: end_in });
            pos = end;
        }
        Ok(self.norm(&out))
    }

    /// byte position -> (source, offset)
    pub fn locate(&self, t: &[Piece], at: &Lin) -> R<Option<(usize, Src, Lin)>> {
        let mut pos = Lin::k(0);
        for (i, p) in t.iter().enumerate() {
            let end = pos.add(&p.len());
            if self.decide(&Cond::ge(at, &end))? {
                pos = end;
                continue;
            }
            return Ok(Some((i, p.src, p.from.add(&at.sub(&pos)))));
        }
        Ok(None)
    }

    /// like text_eq but true = provably equal; asks for case splits where these would help
    pub fn text_eq(&self, a: &[Piece], b: &[Piece]) -> R<bool> {
        let mut a = std::collections::VecDeque::from(self.norm(a));
        let mut b = std::collections::VecDeque::from(self.norm(b));
        loop {
            match (a.front().cloned(), b.front().cloned()) {
                (None, None) => return Ok(true),
                (Some(p), None) | (None, Some(p)) => {
                    // equal only if everything left is empty
                    if self.decide(&Cond::ge(&Lin::k(0), &p.len()))? {
                        a.pop_front();
                        b.pop_front();
                        continue;
                    }
                    return Ok(false);
                }
                (Some(p), Some(q)) => {
                    let same = p.src == q.src
                        && (p.src == Src::Zero || p.from == q.from || self.cons.entails_eq(&p.from.sub(&q.from)));
                    if same {
                        let (lp, lq) = (p.len(), q.len());
                        if lp == lq || self.cons.entails_eq(&lp.sub(&lq)) {
                            a.pop_front();
                            b.pop_front();
                        } else if self.decide(&Cond::ge(&lp, &lq))? {
                            b.pop_front();
                            let f = a.front_mut().unwrap();
                            f.from = f.from.add(&lq);
                        } else {
                            a.pop_front();
                            let f = b.front_mut().unwrap();
                            f.from = f.from.add(&lp);
                        }
                        a = self.norm(a.make_contiguous()).into();
                        b = self.norm(b.make_contiguous()).into();
                        continue;
                    }
                    if let (Src::Str(s1), Src::Str(s2)) = (p.src, q.src) {
                        if let (Some(x), Some(y)) = (self.lit_bytes(s1, &p), self.lit_bytes(s2, &q)) {
                            let n = x.len().min(y.len());
                            if x[..n] == y[..n] && n > 0 {
                                let k = Lin::k(n as i128);
                                a.front_mut().unwrap().from = p.from.add(&k);
                                b.front_mut().unwrap().from = q.from.add(&k);
                                a = self.norm(a.make_contiguous()).into();
                                b = self.norm(b.make_contiguous()).into();
                                continue;
                            }
                            return Ok(false);
                        }
                    }
                    // one of them may still be empty
                    if self.decide(&Cond::ge(&Lin::k(0), &p.len()))? {
                        a.pop_front();
                        continue;
                    }
                    if self.decide(&Cond::ge(&Lin::k(0), &q.len()))? {
                        b.pop_front();
                        continue;
                    }
                    return Ok(false);
                }
            }
        }
    }
    fn lit_bytes(&self, s: StrId, p: &Piece) -> Option<Vec<u8>> {
        if let SKind::Lit(l) = &self.strs.get(&s)?.kind {
            let (x, y) = (p.from.is_const()? as usize, p.to.is_const()? as usize);
            return l.as_bytes().get(x..y).map(|v| v.to_vec());
        }
        None
    }
    pub fn text_lit(&self, t: &[Piece]) -> Option<String> {
        let mut v = vec![];
        for p in t {
            if let Src::Str(s) = p.src {
                v.extend(self.lit_bytes(s, p)?);
            } else {
                return None;
            }
        }
        String::from_utf8(v).ok()
    }
    /// if `pre` is provably a prefix of `t`: the rest
    pub fn text_strip_prefix(&self, t: &[Piece], pre: &[Piece]) -> R<Option<Text>> {
        let lp = text_len(pre);
        let lt = text_len(t);
        if !self.decide(&Cond::ge(&lt, &lp))? {
            return Ok(None);
        }
        let head = self.text_slice(t, &Lin::k(0), &lp)?;
        if !self.text_eq(&head, pre)? {
            return Ok(None);
        }
        Ok(Some(self.text_slice(t, &lp, &lt)?))
    }
    /// is the text valid UTF-8: Ok(None) yes, Ok(Some(why)) not provable
    pub fn text_valid(&self, t: &[Piece]) -> R<Option<String>> {
        for p in self.norm(t) {
            match p.src {
                Src::Zero => {}
                Src::Junk(_) => {
                    if self.decide(&Cond::ge(&p.from, &p.to))? {
                        continue;
                    }
                    return Ok(Some(format!("stale bytes {:?}", p)));
                }
                Src::Str(s) => {
                    if !self.str_valid(s) {
                        if self.decide(&Cond::ge(&p.from, &p.to))? {
                            continue;
                        }
                        return Ok(Some(format!("bytes of {} that were not validated", self.strs[&s].name)));
                    }
                    for o in [&p.from, &p.to] {
                        if self.known_bnd(s, o) != Some(true) {
                            if self.decide(&Cond::ge(&p.from, &p.to))? {
                                break;
                            }
                            return Ok(Some(format!("{:?} of {} may be inside a character", o, self.strs[&s].name)));
                        }
                    }
                }
            }
        }
        Ok(None)
    }

    // ---------------------------------------------------------------- memory

    pub fn load(&self, loc: &Loc) -> Option<&Val> {
        let mut v = self.objs.get(&loc.obj)?;
        for p in &loc.path {
            v = match (v, p) {
                (Val::Agg(f), Proj::Field(i)) | (Val::Agg(f), Proj::Index(i)) => f.get(*i as usize)?,
                (Val::Enum(k, f), Proj::Field(i)) => {
                    let _ = k;
                    f.get(*i as usize)?
                }
                (Val::Enum(k, _), Proj::Variant(j)) if k == j => v,
                (Val::Agg(_), Proj::Variant(_)) => v,
                (Val::Top, _) => &Val::Top,
                _ => return None,
            };
        }
        Some(v)
    }
    pub fn store(&mut self, loc: &Loc, val: Val) -> bool {
        let v = match self.objs.get_mut(&loc.obj) {
            Some(v) => v,
            None => {
                if loc.path.is_empty() {
                    self.objs.insert(loc.obj, val);
                    return true;
                }
                return false;
            }
        };
        store_in(v, &loc.path, val)
    }
    pub fn slice_text(&self, base: &Base, off: &Lin, len: &Lin) -> R<Text> {
        match base {
            Base::Ext(s) => {
                Ok(self.norm(&[Piece { src: Src::Str(*s), from: off.clone(), to: off.add(len) }]))
            }
            Base::Null => Ok(vec![]),
            Base::Place(l) => match self.load(l) {
                Some(Val::Bytes(t)) => self.text_slice(t, off, &off.add(len)),
                v => Err(Need::Unsup(format!("byte view of {:?} = {:?}", l, v))),
            },
        }
    }
    pub fn base_cap(&self, base: &Base) -> Option<Lin> {
        match base {
            Base::Ext(s) => Some(self.str_len(*s)),
            Base::Null => Some(Lin::k(0)),
            Base::Place(l) => match self.load(l) {
                Some(Val::Bytes(t)) => Some(text_len(t)),
                Some(Val::Agg(v)) => Some(Lin::k(v.len() as i128)),
                _ => None,
            },
        }
    }
    pub fn taint(&mut self, s: &str) {
        if !self.taint.iter().any(|x| &**x == s) {
            self.taint.push(s.into());
        }
    }
}

fn store_in(v: &mut Val, path: &[Proj], val: Val) -> bool {
    if path.is_empty() {
        *v = val;
        return true;
    }
    match (&mut *v, path[0]) {
        (Val::Agg(f), Proj::Field(i)) | (Val::Agg(f), Proj::Index(i)) => {
            let i = i as usize;
            while f.len() <= i && f.len() < 64 {
                f.push(Val::Uninit);
            }
            store_in(&mut f[i], &path[1..], val)
        }
        (Val::Enum(_, f), Proj::Field(i)) => {
            let i = i as usize;
            while f.len() <= i && f.len() < 64 {
                f.push(Val::Uninit);
            }
            store_in(&mut f[i], &path[1..], val)
        }
        (Val::Enum(k, _), Proj::Variant(j)) if *k == j => store_in(v, &path[1..], val),
        (Val::Agg(_), Proj::Variant(_)) => store_in(v, &path[1..], val),
        (Val::Uninit, Proj::Field(_)) => {
            *v = Val::Agg(vec![]);
            store_in(v, path, val)
        }
        (Val::Uninit, Proj::Variant(j)) | (Val::Enum(_, _), Proj::Variant(j)) => {
            *v = Val::Enum(j, vec![]);
            store_in(v, &path[1..], val)
        }
        _ => false,
    }
}

pub fn map_text(t: &Text, f: &dyn Fn(&Lin) -> Lin) -> Text {
    t.iter().map(|p| Piece { src: p.src, from: f(&p.from), to: f(&p.to) }).collect()
}
pub fn map_cond(c: &Cond, f: &dyn Fn(&Lin) -> Lin) -> Cond {
    match c {
        Cond::Ge(l) => {
            let l = f(l);
            match l.is_const() {
                Some(k) => Cond::b(k >= 0),
                None => Cond::Ge(l),
            }
        }
        Cond::Eq(l) => {
            let l = f(l);
            match l.is_const() {
                Some(k) => Cond::b(k == 0),
                None => Cond::Eq(l),
            }
        }
        Cond::Bnd(s, l) => Cond::Bnd(*s, f(l)),
        Cond::TextEq(a, b) => Cond::TextEq(map_text(a, f), map_text(b, f)),
        Cond::OrdIs(a, b, k) => Cond::OrdIs(map_text(a, f), map_text(b, f), *k),
        Cond::Not(c) => map_cond(c, f).not(),
        Cond::And(a, b) => Cond::And(Box::new(map_cond(a, f)), Box::new(map_cond(b, f))),
        Cond::Or(a, b) => Cond::Or(Box::new(map_cond(a, f)), Box::new(map_cond(b, f))),
        c => c.clone(),
    }
}
pub fn map_val(v: &Val, f: &dyn Fn(&Lin) -> Lin) -> Val {
    match v {
        Val::Int(l) => Val::Int(f(l)),
        Val::Byte(s, l) => Val::Byte(*s, f(l)),
        Val::ByteOp(s, l, o) => Val::ByteOp(*s, f(l), *o),
        Val::Bool(c) => Val::Bool(map_cond(c, f)),
        Val::Agg(x) => Val::Agg(x.iter().map(|v| map_val(v, f)).collect()),
        Val::Enum(k, x) => Val::Enum(*k, x.iter().map(|v| map_val(v, f)).collect()),
        Val::Slice { base, off, len } => Val::Slice { base: base.clone(), off: f(off), len: f(len) },
        Val::BPtr { base, off } => Val::BPtr { base: base.clone(), off: f(off) },
        Val::Bytes(t) => Val::Bytes(map_text(t, f)),
        Val::SymOrd(a, b, r) => Val::SymOrd(map_text(a, f), map_text(b, f), *r),
        Val::Chars { base, front, back, start, indices } => {
            Val::Chars { base: base.clone(), front: f(front), back: f(back), start: f(start), indices: *indices }
        }
        Val::BIter { base, front, back, kind } => {
            Val::BIter { base: base.clone(), front: f(front), back: f(back), kind: *kind }
        }
        v => v.clone(),
    }
}
