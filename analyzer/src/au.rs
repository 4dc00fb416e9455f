//! Join (anti-unification with affine relations and template constraints) and inclusion test of abstract
//! states at loop heads.

use crate::dom::*;
use crate::lin::*;
use std::collections::{BTreeMap, BTreeSet};

/// A loop invariant candidate: a state plus the set of its symbols that may be instantiated.
#[derive(Clone)]
pub struct Inv {
    pub st: State,
    pub vars: BTreeSet<Sym>,
    pub svars: BTreeSet<StrId>,
    pub ovars: BTreeSet<ObjId>,
    pub uvars: BTreeSet<UserId>,
    pub pvars: BTreeSet<u32>,
    pub cvars: BTreeSet<CharId>,
    pub level: u32,
}
impl Inv {
    pub fn new(st: State) -> Inv {
        Inv {
            st,
            vars: Default::default(),
            svars: Default::default(),
            ovars: Default::default(),
            uvars: Default::default(),
            pvars: Default::default(),
            cvars: Default::default(),
            level: 0,
        }
    }
}

/// discrete part of a state: states with different shapes are kept apart
pub fn shape(st: &State, roots: &[ObjId]) -> String {
    let mut s = String::new();
    for o in roots {
        if let Some(v) = st.objs.get(o) {
            sh(v, &mut s);
        }
        s.push(';');
    }
    for u in st.users.values() {
        s.push(if u.exhausted { 'x' } else { '-' });
        s.push(if u.err { 'e' } else { '-' });
    }
    for (k, v) in &st.ghost {
        s.push_str(k);
        sh(v, &mut s);
    }
    s.push_str(&format!("#{}", st.effects.len()));
    s
}
fn sh(v: &Val, s: &mut String) {
    match v {
        Val::Uninit => s.push('_'),
        Val::Top => s.push('T'),
        Val::Int(_) | Val::Byte(..) | Val::ByteOp(..) => s.push('i'),
        Val::Bool(Cond::T) => s.push('1'),
        Val::Bool(Cond::F) => s.push('0'),
        Val::Bool(_) => s.push('b'),
        Val::Char(_) => s.push('c'),
        Val::Agg(f) => {
            s.push('(');
            for x in f {
                sh(x, s);
            }
            s.push(')');
        }
        Val::Enum(k, f) => {
            s.push_str(&format!("{{{}:", k));
            for x in f {
                sh(x, s);
            }
            s.push('}');
        }
        Val::Ref(_) => s.push('&'),
        Val::Slice { base, .. } => {
            s.push('S');
            bs(base, s)
        }
        Val::BPtr { base, .. } => {
            s.push('p');
            bs(base, s)
        }
        Val::Bytes(_) => s.push('B'),
        Val::User(_) => s.push('U'),
        Val::Opaque(_) => s.push('O'),
        Val::SymOrd(..) => s.push('o'),
        Val::Chars { .. } => s.push('C'),
        Val::BIter { .. } => s.push('I'),
        Val::Decode(_) => s.push('D'),
    }
}
fn bs(b: &Base, s: &mut String) {
    s.push(match b {
        Base::Place(_) => 'P',
        Base::Ext(_) => 'E',
        Base::Null => 'N',
    })
}

struct Au<'a> {
    a: &'a State,
    b: &'a State,
    inv: &'a Inv,
    g: State,
    ints: Vec<(Lin, Lin, Lin)>,
    texts: Vec<(Text, Text, Text)>,
    /// lengths of arrays
    /// sizes of parts of texts
    lens: Vec<Lin>,
    totals: Vec<(Lin, Lin, Lin)>,
    objs: BTreeMap<(ObjId, ObjId), ObjId>,
    users: BTreeMap<(UserId, UserId), UserId>,
    chars: BTreeMap<(CharId, CharId), CharId>,
    strs: BTreeMap<(StrId, StrId), StrId>,
    opq: BTreeMap<(u32, u32), u32>,
    vars: BTreeSet<Sym>,
    svars: BTreeSet<StrId>,
    ovars: BTreeSet<ObjId>,
    uvars: BTreeSet<UserId>,
    pvars: BTreeSet<u32>,
    cvars: BTreeSet<CharId>,
    level: u32,
}

thread_local! {
    /// a second way to guess invariants, for functions where the first finds none
    pub static SECOND: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// bounded loops are analysed round by round, without an invariant
    pub static UNROLL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn second() -> bool {
    SECOND.with(|s| s.get())
}

fn known_syms(st: &State) -> BTreeSet<Sym> {
    let mut u: BTreeSet<Sym> = BTreeSet::new();
    let c = std::cell::RefCell::new(&mut u);
    let f = |l: &Lin| {
        c.borrow_mut().extend(l.syms());
        l.clone()
    };
    let mut g = st.clone();
    g.elim = Default::default();
    g.map_lins(&f);
    u
}

pub fn join(inv: &Inv, b: &State) -> Inv {
    let (mut ra, mut rb) = (None, None);
    if second() {
        let (ka, kb) = (known_syms(&inv.st), known_syms(b));
        ra = inv.st.revive(&|s| kb.contains(&s));
        rb = b.revive(&|s| ka.contains(&s));
    }
    let a = ra.as_ref().unwrap_or(&inv.st);
    let b = rb.as_ref().unwrap_or(b);
    let mut g = State::new();
    g.trace = a.trace.clone();
    g.taint = a.taint.clone();
    for t in &b.taint {
        g.taint(t);
    }
    let mut au = Au {
        a,
        b,
        inv,
        g,
        ints: vec![],
        texts: vec![],
        totals: vec![],
        lens: vec![],
        objs: Default::default(),
        users: Default::default(),
        chars: Default::default(),
        strs: Default::default(),
        opq: Default::default(),
        vars: Default::default(),
        svars: Default::default(),
        ovars: Default::default(),
        uvars: Default::default(),
        pvars: Default::default(),
        cvars: Default::default(),
        level: inv.level,
    };
    // strings present in both keep their identity
    for (id, s) in &a.strs {
        if inv.svars.contains(id) {
            continue;
        }
        if let Some(t) = b.strs.get(id) {
            let len = if s.len == t.len { s.len.clone() } else { au.int(&s.len, &t.len) };
            au.g.strs.insert(*id, StrInfo { kind: s.kind.clone(), len, name: s.name.clone() });
        }
    }
    for (k, v) in &a.ghost {
        if let Some(w) = b.ghost.get(k) {
            let x = au.val(v, w);
            au.g.ghost.insert(k.clone(), x);
        }
    }
    for (k, u) in &a.users {
        if inv.uvars.contains(k) {
            continue;
        }
        if let Some(w) = b.users.get(k) {
            let x = au.user(u, w);
            au.g.users.insert(*k, x);
        }
    }
    for (o, v) in &a.objs {
        let o = &o;
        if inv.ovars.contains(o) {
            continue;
        }
        if let Some(w) = b.objs.get(o) {
            let x = au.val(v, w);
            au.g.objs.insert(*o, x);
        }
    }
    if a.effects.len() == b.effects.len() {
        for (x, y) in a.effects.iter().zip(&b.effects) {
            let mut e = x.clone();
            if x.what != y.what || x.args.len() != y.args.len() {
                e.what = "?".into();
                e.args.clear();
            } else {
                e.args = x.args.iter().zip(&y.args).map(|(p, q)| au.val(p, q)).collect();
                e.ret = match (&x.ret, &y.ret) {
                    (Some(p), Some(q)) => Some(au.val(p, q)),
                    _ => None,
                };
            }
            au.g.effects.push(e);
        }
    } else {
        au.g.effects.push(Effect { what: "?".into(), args: vec![], ret: None });
    }
    au.constraints();
    au.facts();
    Inv {
        vars: au.vars,
        svars: au.svars,
        ovars: au.ovars,
        uvars: au.uvars,
        pvars: au.pvars,
        cvars: au.cvars,
        level: inv.level + 1,
        st: au.g,
    }
}

impl<'a> Au<'a> {
    fn is_var(&self, l: &Lin) -> bool {
        l.syms().any(|s| self.inv.vars.contains(&s))
    }
    fn int(&mut self, a: &Lin, b: &Lin) -> Lin {
        if a == b && !self.is_var(a) {
            return a.clone();
        }
        for (x, y, g) in &self.ints {
            if x == a && y == b {
                return g.clone();
            }
        }
        // the same quantity under the name it has in one of the two
        if a != b && second() {
            if !self.is_var(a) && a.syms().any(|s| self.b.elim.contains_key(&s)) && self.b.cons.entails_eq(&a.sub(b)) {
                return a.clone();
            }
            if !self.is_var(b) && b.syms().any(|s| self.a.elim.contains_key(&s)) && self.a.cons.entails_eq(&a.sub(b)) {
                return b.clone();
            }
        }
        if a == b {
            // mentions generalised symbols but is unchanged so far: expressible only if every symbol is
            // mapped to itself; treat like any other pair, with a zero difference.
        }
        // affine relation to existing pairs
        let d = b.sub(a);
        let mut found: Option<Lin> = None;
        'o: for (x, y, g) in &self.ints {
            let e = y.sub(x);
            for k in [1i128, -1] {
                if d == e.scale(k) && (k == 1 || e.is_const() != Some(0)) {
                    let off = a.sub(&x.scale(k));
                    if let Some(off) = self.reexpress(&off) {
                        found = Some(g.scale(k).add(&off));
                        break 'o;
                    }
                }
            }
        }
        if found.is_none() {
            let n = self.ints.len();
            'p: for i in 0..n {
                for j in i + 1..n {
                    let (x1, y1, g1) = &self.ints[i];
                    let (x2, y2, g2) = &self.ints[j];
                    let (e1, e2) = (y1.sub(x1), y2.sub(x2));
                    if e1.is_const() == Some(0) || e2.is_const() == Some(0) {
                        continue;
                    }
                    for (k1, k2) in [(1i128, 1i128), (1, -1), (-1, 1)] {
                        if d == e1.scale(k1).add(&e2.scale(k2)) {
                            let off = a.sub(&x1.scale(k1)).sub(&x2.scale(k2));
                            if let Some(off) = self.reexpress(&off) {
                                found = Some(g1.scale(k1).add(&g2.scale(k2)).add(&off));
                                break 'p;
                            }
                        }
                    }
                }
            }
        }
        if found.is_none() && a == b {
            found = self.reexpress(a);
        }
        if found.is_none() && FREEZE.with(|f| f.get()) {
            // an affine relation that needs an equation that holds in one of the two
            'q: for (x, y, g) in &self.ints {
                if g.as_sym().is_none_or(|s| !self.vars.contains(&s)) {
                    continue;
                }
                for k in [1i128, -1] {
                    let (oa, ob) = (a.sub(&x.scale(k)), b.sub(&y.scale(k)));
                    let eq = |st: &State, l: &Lin| st.cons.entails_eq(l);
                    let off = if self.rigid(&oa) && self.known_in_both(&oa) && eq(self.b, &ob.sub(&oa)) {
                        oa
                    } else if self.rigid(&ob) && self.known_in_both(&ob) && eq(self.a, &oa.sub(&ob)) {
                        ob
                    } else {
                        continue;
                    };
                    found = Some(g.scale(k).add(&off));
                    break 'q;
                }
            }
        }
        let g = match found {
            Some(g) => g,
            None => {
                let s = new_sym("inv");
                self.vars.insert(s);
                Lin::s(s)
            }
        };
        self.ints.push((a.clone(), b.clone(), g.clone()));
        g
    }
    /// the same quantity in a and b, in terms of g's symbols
    fn reexpress(&self, l: &Lin) -> Option<Lin> {
        let mut m = BTreeMap::new();
        for s in l.syms() {
            if self.inv.vars.contains(&s) {
                let me = Lin::s(s);
                let t = self.ints.iter().find(|t| t.0 == me && t.1 == me)?;
                m.insert(s, t.2.clone());
            }
        }
        Some(l.subst(&m))
    }
    /// only symbols with the same meaning in a, b and g
    fn rigid(&self, l: &Lin) -> bool {
        !self.is_var(l)
    }
    fn valid_text(&self, st: &State, t: &Text) -> bool {
        matches!(st.text_valid(t), Ok(None))
    }
    fn text(&mut self, a: &Text, b: &Text) -> Text {
        let mut a = self.a.norm(a);
        let mut b = self.b.norm(b);
        for (x, y, g) in &self.texts {
            if *x == a && *y == b {
                return g.clone();
            }
        }
        let (a0, b0) = (a.clone(), b.clone());
        let mut ra: Text = a.clone();
        let mut rb: Text = b.clone();
        // a buffer that is full has no zeros or old bytes left at its end
        let rest = |t: &Text| {
            let p = t.last().filter(|p| match p.src {
                Src::Zero => true,
                Src::Junk(x) => !self.inv.pvars.contains(&x) && self.rigid(&p.to) && self.known_in_both(&p.to),
                _ => false,
            });
            p.cloned()
        };
        match (rest(&a), rest(&b)) {
            (Some(z), None) if a.len() == b.len() + 1 => rb.push(Piece { from: z.to.clone(), ..z }),
            (None, Some(z)) if b.len() == a.len() + 1 => ra.push(Piece { from: z.to.clone(), ..z }),
            _ => {}
        }
        let mut pre: Text = vec![];
        let mut suf: Text = vec![];
        let (mut suf_a, mut suf_b): (Text, Text) = (vec![], vec![]);
        let (mut cut_a, mut cut_b): (Text, Text) = (vec![], vec![]);
        // the end of a buffer that does not change
        if second() && a.len() != b.len() && a.iter().chain(&b).any(|p| matches!(p.src, Src::Junk(_))) {
            while let (Some(p), Some(q)) = (ra.last().cloned(), rb.last().cloned()) {
                if p.src == q.src && self.fixed(p.src) && self.same(&p.from, &q.from) && self.same(&p.to, &q.to) {
                    suf.push(p.clone());
                    suf_a.push(p);
                    suf_b.push(q);
                    ra.pop();
                    rb.pop();
                } else {
                    break;
                }
            }
        }
        if second() {
            self.align(&mut ra, &mut rb);
        }
        let rigid_ok = self.level < 3 || ra.len() == rb.len();
        let buffer = second() && ra.iter().chain(&rb).any(|p| matches!(p.src, Src::Junk(_)));
        while !rigid_ok && buffer {
            let (Some(p), Some(q)) = (ra.first().cloned(), rb.first().cloned()) else { break };
            if p.src != q.src || !self.fixed(p.src) || !self.same(&p.from, &q.from) {
                break;
            }
            let whole = self.same(&p.to, &q.to);
            let to = if whole { p.to.clone() } else { self.int(&p.to, &q.to) };
            pre.push(Piece { src: p.src, from: p.from, to });
            cut_a.push(ra.remove(0));
            cut_b.push(rb.remove(0));
            if !whole {
                break;
            }
        }
        a = cut_a.iter().chain(&ra).chain(suf_a.iter().rev()).cloned().collect();
        b = cut_b.iter().chain(&rb).chain(suf_b.iter().rev()).cloned().collect();
        let rig = |s: &Self, p: &Piece| match p.src {
            Src::Str(x) => !s.inv.svars.contains(&x) && s.g.strs.contains_key(&x),
            Src::Zero => true,
            Src::Junk(x) => !s.inv.pvars.contains(&x),
        };
        loop {
            if ra.is_empty() && rb.is_empty() {
                break;
            }
            if let Some(t) = self.texts.iter().find(|t| t.0 == ra && t.1 == rb) {
                pre.extend(t.2.clone());
                ra.clear();
                rb.clear();
                break;
            }
            // common rigid pieces at the front
            if let (Some(p), Some(q)) = (ra.first().cloned(), rb.first().cloned()) {
                if rigid_ok && p.src == q.src && rig(self, &p) && !(p.src == Src::Zero && ra.len() != rb.len()) {
                    let g = self.rigid_pair(&p, &q);
                    pre.push(g);
                    ra.remove(0);
                    rb.remove(0);
                    continue;
                }
            }
            // a text already generalised as the next part
            let mut best: Option<(usize, Text, Text, Text)> = None;
            let buffer = ra.iter().chain(&rb).any(|p| !matches!(p.src, Src::Str(_)));
            for (x, y, g) in &self.texts {
                if !buffer {
                    break;
                }
                if x.is_empty() && y.is_empty() || x.iter().chain(y).any(|p| matches!(p.src, Src::Junk(_))) {
                    continue;
                }
                if let (Ok(Some(xr)), Ok(Some(yr))) = (self.a.text_strip_prefix(&ra, x), self.b.text_strip_prefix(&rb, y)) {
                    let n = x.len() + y.len();
                    if best.as_ref().map_or(true, |b| b.0 < n) {
                        best = Some((n, g.clone(), xr, yr));
                    }
                }
            }
            if let Some((_, g, xr, yr)) = best {
                pre.extend(g);
                ra = self.a.norm(&xr);
                rb = self.b.norm(&yr);
                continue;
            }
            // common rigid pieces at the back
            if let (Some(p), Some(q)) = (ra.last().cloned(), rb.last().cloned()) {
                if rigid_ok && p.src == q.src && rig(self, &p) {
                    let g = self.rigid_pair(&p, &q);
                    suf.push(g);
                    suf_a.push(p);
                    suf_b.push(q);
                    ra.pop();
                    rb.pop();
                    continue;
                }
            }
            break;
        }
        let used = (text_len(&a).sub(&text_len(&ra)).sub(&text_len(&suf_a)), text_len(&b).sub(&text_len(&rb)).sub(&text_len(&suf_b)));
        let mid = self.middle(ra, rb, rigid_ok, Some(used));
        suf.reverse();
        let mut g = pre;
        g.extend(mid);
        g.extend(suf);
        if FREEZE.with(|f| f.get()) {
            self.lens.extend(g.iter().map(|p| p.len()));
        }
        self.texts.push((a0, b0, g.clone()));
        g
    }
    fn fixed(&self, s: Src) -> bool {
        match s {
            Src::Str(x) => !self.inv.svars.contains(&x) && self.g.strs.contains_key(&x),
            Src::Zero => false,
            Src::Junk(x) => !self.inv.pvars.contains(&x),
        }
    }
    /// an unchanging quantity
    fn same(&self, l: &Lin, m: &Lin) -> bool {
        self.rigid(l) && (l == m || self.b.cons.entails_eq(&l.sub(m)))
    }
    /// the same quantity in terms of quantities from before the loop, where a's equations say so
    fn unchanging(&self, l: &Lin) -> Lin {
        let mut l = l.clone();
        for e in &self.a.cons.eq {
            let vars: Vec<Sym> = e.syms().filter(|s| self.inv.vars.contains(s)).collect();
            if let [s] = vars[..] {
                let (k, m) = (e.coef(s), l.coef(s));
                if k.abs() == 1 && m != 0 {
                    l = l.sub(&e.scale(k * m));
                }
            }
        }
        l
    }
    /// a part that one of the two lacks is there, empty
    fn align(&self, a: &mut Text, b: &mut Text) {
        if FREEZE.with(|f| f.get()) {
            // parts that are in the same place in both
            let (mut na, mut nb): (Text, Text) = (vec![], vec![]);
            let (mut i0, mut j0) = (0, 0);
            let mut oa = Lin::k(0);
            for i in 0..a.len() {
                let mut ob = Lin::k(0);
                for j in 0..b.len() {
                    let (p, q) = (&a[i], &b[j]);
                    if j >= j0 && p.src == q.src && self.fixed(p.src) && self.same(&p.from, &q.from) && self.same(&p.to, &q.to) && self.same(&self.unchanging(&oa), &ob) {
                        let (mut sa, mut sb) = (a[i0..i].to_vec(), b[j0..j].to_vec());
                        self.align_part(&mut sa, &mut sb);
                        na.extend(sa);
                        nb.extend(sb);
                        na.push(p.clone());
                        nb.push(q.clone());
                        (i0, j0) = (i + 1, j + 1);
                        break;
                    }
                    ob = ob.add(&q.len());
                }
                oa = oa.add(&a[i].len());
            }
            let (mut sa, mut sb) = (a[i0..].to_vec(), b[j0..].to_vec());
            self.align_part(&mut sa, &mut sb);
            na.extend(sa);
            nb.extend(sb);
            (*a, *b) = (na, nb);
            return;
        }
        self.align_part(a, b);
    }
    fn align_part(&self, a: &mut Text, b: &mut Text) {
        if a.len() < b.len() {
            return self.align_in(b, a, true);
        }
        if b.len() < a.len() {
            self.align_in(a, b, false);
        }
    }
    fn align_in(&self, long: &Text, result: &mut Text, swapped: bool) {
        if result.is_empty() {
            return;
        }
        let mut short = result.clone();
        let mut out: Text = vec![];
        let mut i = 0;
        let st = if swapped { self.a } else { self.b };
        for (j, p) in long.iter().enumerate() {
            if short.get(i).is_some_and(|q| q.src == p.src) {
                let count = |t: &[Piece]| t.iter().filter(|q| q.src == p.src).count();
                let q = short[i].clone();
                if !matches!(p.src, Src::Zero)
                    && count(&long[j..]) > count(&short[i..])
                    && q.from == p.from
                    && self.rigid(&p.to)
                    && self.known_in_both(&p.to)
                    && st.cons.entails_ge(&p.to.sub(&q.from))
                    && st.cons.entails_ge(&q.to.sub(&p.to))
                    && !st.cons.entails_eq(&q.to.sub(&p.to))
                {
                    // interrupted in the longer one
                    out.push(Piece { src: q.src, from: q.from, to: p.to.clone() });
                    short[i].from = p.to.clone();
                    continue;
                }
                let meets = |p: &Piece| self.same(&p.from, &q.from) || self.same(&p.to, &q.to);
                let later = count(&long[j..]) > count(&short[i..]) && !meets(p) && long[j + 1..].iter().any(|r| r.src == p.src && meets(r));
                if !later {
                    out.push(q);
                    i += 1;
                    continue;
                }
            }
            if !self.fixed(p.src) {
                return;
            }
            let ok = |l: &Lin| self.rigid(l) && self.known_in_both(l);
            if FREEZE.with(|f| f.get()) && ok(&p.from) && ok(&p.to) && st.cons.entails_eq(&p.len()) {
                out.push(p.clone());
                continue;
            }
            let paired = |l: &Lin, m: &Lin| self.ints.iter().any(|t| if swapped { t.0 == *m && t.1 == *l } else { t.0 == *l && t.1 == *m });
            let at = if ok(&p.from) && paired(&p.to, &p.from) {
                &p.from
            } else if ok(&p.to) && paired(&p.from, &p.to) {
                &p.to
            } else if ok(&p.to) && !matches!(p.src, Src::Str(_)) {
                &p.to
            } else if ok(&p.from) {
                &p.from
            } else if ok(&p.to) {
                &p.to
            } else {
                return;
            };
            out.push(Piece { src: p.src, from: at.clone(), to: at.clone() });
        }
        if i == short.len() {
            *result = out;
        }
    }
    fn rigid_pair(&mut self, p: &Piece, q: &Piece) -> Piece {
        let from = if p.src == Src::Zero { p.from.clone() } else { self.int(&p.from, &q.from) };
        let to = if p.src == Src::Zero { from.add(&self.int(&p.len(), &q.len())) } else { self.int(&p.to, &q.to) };
        Piece { src: p.src, from, to }
    }
    fn middle(&mut self, ma: Text, mb: Text, rigid_ok: bool, used: Option<(Lin, Lin)>) -> Text {
        if ma.is_empty() && mb.is_empty() {
            return vec![];
        }
        for (x, y, g) in &self.texts {
            if *x == ma && *y == mb {
                return g.clone();
            }
        }
        // a string mapped as a whole
        if ma.len() == 1 && mb.len() == 1 {
            if let (Src::Str(x), Src::Str(y)) = (ma[0].src, mb[0].src) {
                if let Some(f) = self.strs.get(&(x, y)).copied() {
                    let g = vec![Piece {
                        src: Src::Str(f),
                        from: self.int(&ma[0].from, &mb[0].from),
                        to: self.int(&ma[0].to, &mb[0].to),
                    }];
                    return g;
                }
            }
        }
        // nothing so far, a part of an older string now (or the other way round)
        if rigid_ok && (ma.is_empty() && mb.len() == 1 || mb.is_empty() && ma.len() == 1) {
            let p = if ma.is_empty() { mb[0].clone() } else { ma[0].clone() };
            let shared = match p.src {
                Src::Str(s) => self.g.strs.contains_key(&s) && self.a.strs.contains_key(&s) && !self.inv.svars.contains(&s),
                Src::Zero => true,
                Src::Junk(_) => false,
            };
            if shared && self.rigid(&p.from) && self.known_in_both(&p.from) {
                let to = if ma.is_empty() { self.int(&p.from, &p.to) } else { self.int(&p.to, &p.from) };
                let g = vec![Piece { src: p.src, from: p.from.clone(), to }];
                self.texts.push((ma, mb, g.clone()));
                return g;
            }
        }
        if ma.iter().chain(&mb).all(|p| p.src == Src::Zero) {
            let len = self.int(&text_len(&ma), &text_len(&mb));
            let g = vec![Piece { src: Src::Zero, from: Lin::k(0), to: len }];
            self.texts.push((ma, mb, g.clone()));
            return g;
        }
        if ma.iter().chain(&mb).any(|p| p.src == Src::Zero) || !(self.valid_text(self.a, &ma) && self.valid_text(self.b, &mb)) {
            // valid text followed by stale bytes: cut where a known quantity says so
            let mut pairs: Vec<(Lin, Lin)> = self.ints.iter().map(|t| (t.0.clone(), t.1.clone())).collect();
            if let Some((ua, ub)) = &used {
                // quantities may count from the start of the whole text
                let more: Vec<(Lin, Lin)> = pairs.iter().map(|(x, y)| (x.sub(ua), y.sub(ub))).collect();
                pairs.extend(more);
            }
            let (la, lb) = (text_len(&ma), text_len(&mb));
            for (x, y) in pairs {
                if x.is_const() == Some(0) && y.is_const() == Some(0) {
                    continue;
                }
                let (Ok(xa), Ok(yb)) = (self.a.text_slice(&ma, &Lin::k(0), &x), self.b.text_slice(&mb, &Lin::k(0), &y)) else {
                    continue;
                };
                if !self.valid_text(self.a, &xa) || !self.valid_text(self.b, &yb) {
                    continue;
                }
                let (Ok(xr), Ok(yr)) = (self.a.text_slice(&ma, &x, &la), self.b.text_slice(&mb, &y, &lb)) else {
                    continue;
                };
                let (xn, yn) = (self.a.norm(&xr), self.b.norm(&yr));
                if xn.is_empty() && yn.is_empty() || self.a.norm(&xa).is_empty() && self.b.norm(&yb).is_empty() {
                    continue;
                }
                let mut g = self.text(&xa, &yb);
                g.extend(self.text(&xr, &yr));
                self.texts.push((ma, mb, g.clone()));
                return g;
            }
        }
        let (la, lb) = (text_len(&ma), text_len(&mb));
        let len = self.int(&la, &lb);
        let g = if self.valid_text(self.a, &ma) && self.valid_text(self.b, &mb) {
            let id = fresh_id();
            self.g.strs.insert(id, StrInfo { kind: SKind::Joined, len: len.clone(), name: "joined".into() });
            self.svars.insert(id);
            vec![Piece { src: Src::Str(id), from: Lin::k(0), to: len }]
        } else {
            let id = fresh_id();
            self.pvars.insert(id);
            vec![Piece { src: Src::Junk(id), from: Lin::k(0), to: len }]
        };
        self.texts.push((ma, mb, g.clone()));
        g
    }
    fn known_in_both(&self, l: &Lin) -> bool {
        // every symbol exists before the loop (occurs in a's constraints or strings)
        let eq = |st: &State, s: Sym| second() && st.cons.eq.iter().any(|c| c.coef(s) != 0);
        let has = |st: &State, s: Sym| st.cons.ge.iter().any(|c| c.coef(s) != 0) || eq(st, s);
        l.syms().all(|s| has(self.a, s) && has(self.b, s))
    }
    fn opaque(&mut self, a: u32, b: u32) -> u32 {
        if a == b && !self.inv.pvars.contains(&a) {
            if let (Some(x), Some(y)) = (self.a.facts.ob.get(&a), self.b.facts.ob.get(&a)) {
                if x == y {
                    self.g.facts.ob.insert(a, *x);
                }
            }
            return a;
        }
        if let Some(x) = self.opq.get(&(a, b)) {
            return *x;
        }
        let id = fresh_id();
        self.pvars.insert(id);
        self.opq.insert((a, b), id);
        if let (Some(x), Some(y)) = (self.a.facts.ob.get(&a), self.b.facts.ob.get(&b)) {
            if x == y {
                self.g.facts.ob.insert(id, *x);
            }
        }
        id
    }
    fn base(&mut self, a: &Base, b: &Base) -> Option<Base> {
        match (a, b) {
            (Base::Place(x), Base::Place(y)) => Some(Base::Place(self.loc(x, y)?)),
            (Base::Ext(x), Base::Ext(y)) => Some(Base::Ext(self.str(*x, *y))),
            (Base::Null, Base::Null) => Some(Base::Null),
            _ => None,
        }
    }
    fn str(&mut self, x: StrId, y: StrId) -> StrId {
        if x == y && !self.inv.svars.contains(&x) {
            return x;
        }
        if let Some(f) = self.strs.get(&(x, y)) {
            return *f;
        }
        let len = self.int(&self.a.strs[&x].len.clone(), &self.b.strs[&y].len.clone());
        let (kx, ky) = (self.a.strs[&x].kind.clone(), self.b.strs[&y].kind.clone());
        let kind = if kx == ky {
            kx
        } else if self.a.str_valid(x) && self.b.str_valid(y) {
            SKind::Item
        } else {
            SKind::Raw
        };
        let id = fresh_id();
        let name = self.a.strs[&x].name.clone();
        self.g.strs.insert(id, StrInfo { kind, len, name });
        self.svars.insert(id);
        self.strs.insert((x, y), id);
        id
    }
    fn loc(&mut self, x: &Loc, y: &Loc) -> Option<Loc> {
        if x.path != y.path {
            return None;
        }
        if x.obj == y.obj && !self.inv.ovars.contains(&x.obj) {
            return Some(x.clone());
        }
        if let Some(o) = self.objs.get(&(x.obj, y.obj)) {
            return Some(Loc { obj: *o, path: x.path.clone() });
        }
        let id = fresh_id();
        self.ovars.insert(id);
        self.objs.insert((x.obj, y.obj), id);
        let v = match (self.a.objs.get(&x.obj), self.b.objs.get(&y.obj)) {
            (Some(p), Some(q)) => {
                let (p, q) = (p.clone(), q.clone());
                self.val(&p, &q)
            }
            _ => Val::Top,
        };
        self.g.objs.insert(id, v);
        Some(Loc { obj: id, path: x.path.clone() })
    }
    fn user_id(&mut self, x: UserId, y: UserId) -> UserId {
        if x == y && !self.inv.uvars.contains(&x) {
            return x;
        }
        if let Some(u) = self.users.get(&(x, y)) {
            return *u;
        }
        let id = fresh_id();
        self.uvars.insert(id);
        self.users.insert((x, y), id);
        if let (Some(p), Some(q)) = (self.a.users.get(&x).cloned(), self.b.users.get(&y).cloned()) {
            let u = self.user(&p, &q);
            self.g.users.insert(id, u);
        }
        id
    }
    fn user(&mut self, p: &UserInfo, q: &UserInfo) -> UserInfo {
        let mut memo = BTreeMap::new();
        for (k, v) in &p.memo {
            if let Some(w) = q.memo.get(k) {
                let x = self.val(v, w);
                memo.insert(k.clone(), x);
            }
        }
        UserInfo {
            kind: p.kind.clone(),
            name: p.name.clone(),
            taken: self.text(&p.taken, &q.taken),
            kept: self.text(&p.kept, &q.kept),
            exhausted: p.exhausted && q.exhausted,
            err: p.err || q.err,
            calls: p.calls || q.calls,
            memo,
        }
    }
    fn chr(&mut self, x: CharId, y: CharId) -> CharId {
        let (Some(p), Some(q)) = (self.a.chars.get(&x).cloned(), self.b.chars.get(&y).cloned()) else {
            return x;
        };
        if let Some(c) = self.chars.get(&(x, y)) {
            return *c;
        }
        if x == y && !self.inv.cvars.contains(&x) && p.s == q.s && !self.inv.svars.contains(&p.s) {
            let info =
                CharInfo { s: p.s, off: self.int(&p.off, &q.off), len: self.int(&p.len, &q.len), code: self.int(&p.code, &q.code) };
            if !self.g.strs.contains_key(&p.s) {
                self.g.strs.insert(p.s, self.a.strs[&p.s].clone());
            }
            self.g.chars.insert(x, info);
            self.chars.insert((x, y), x);
            return x;
        }
        let id = fresh_id();
        self.cvars.insert(id);
        let info = if p.s == q.s && !self.inv.svars.contains(&p.s) && self.g.strs.contains_key(&p.s) {
            CharInfo { s: p.s, off: self.int(&p.off, &q.off), len: self.int(&p.len, &q.len), code: self.int(&p.code, &q.code) }
        } else {
            let (ta, tb) = (self.a.char_text(x), self.b.char_text(y));
            let t = self.middle(ta, tb, false, None);
            match t[0].src {
                Src::Str(s) => CharInfo {
                    s,
                    off: t[0].from.clone(),
                    len: t[0].len(),
                    code: self.int(&p.code, &q.code),
                },
                _ => return x,
            }
        };
        self.g.chars.insert(id, info);
        self.chars.insert((x, y), id);
        id
    }
    fn val(&mut self, v: &Val, w: &Val) -> Val {
        match (v, w) {
            (Val::Int(a), Val::Int(b)) => Val::Int(self.int(a, b)),
            (Val::Byte(s, a), Val::Byte(t, b)) if s == t => Val::Byte(*s, self.int(a, b)),
            (Val::Bool(a), Val::Bool(b)) => {
                if a == b && !cond_has_var(a, self.inv) {
                    Val::Bool(a.clone())
                } else {
                    let id = fresh_id();
                    self.pvars.insert(id);
                    Val::Bool(Cond::Opaque(id))
                }
            }
            (Val::Char(a), Val::Char(b)) => Val::Char(self.chr(*a, *b)),
            (Val::Agg(f), Val::Agg(h)) if f.len() == h.len() => {
                // lengths before contents
                for (x, y) in f.iter().zip(h) {
                    if let (Val::Int(_), Val::Int(_)) = (x, y) {
                        self.val(x, y);
                    }
                }
                Val::Agg(f.iter().zip(h).map(|(x, y)| self.val(x, y)).collect())
            }
            (Val::Enum(k, f), Val::Enum(l, h)) if k == l && f.len() == h.len() => {
                Val::Enum(*k, f.iter().zip(h).map(|(x, y)| self.val(x, y)).collect())
            }
            (Val::Ref(a), Val::Ref(b)) => match self.loc(a, b) {
                Some(l) => Val::Ref(l),
                None => Val::Top,
            },
            (Val::Slice { base, off, len }, Val::Slice { base: b2, off: o2, len: l2 }) => match self.base(base, b2) {
                Some(b) => Val::Slice { base: b, off: self.int(off, o2), len: self.int(len, l2) },
                None => Val::Top,
            },
            (Val::BPtr { base, off }, Val::BPtr { base: b2, off: o2 }) => match self.base(base, b2) {
                Some(b) => Val::BPtr { base: b, off: self.int(off, o2) },
                None => Val::Top,
            },
            (Val::Bytes(a), Val::Bytes(b)) => {
                let g = self.text(a, b);
                self.totals.push((text_len(a), text_len(b), text_len(&g)));
                Val::Bytes(g)
            }
            (Val::User(a), Val::User(b)) => Val::User(self.user_id(*a, *b)),
            (Val::Decode(a), Val::Decode(b)) => Val::Decode(self.user_id(*a, *b)),
            (Val::Opaque(a), Val::Opaque(b)) => Val::Opaque(self.opaque(*a, *b)),
            (Val::SymOrd(a, b, r), Val::SymOrd(c, d, s)) if r == s => Val::SymOrd(self.text(a, c), self.text(b, d), *r),
            (
                Val::Chars { base, front, back, start, indices },
                Val::Chars { base: b2, front: f2, back: k2, start: s2, indices: i2 },
            ) if indices == i2 => match self.base(base, b2) {
                Some(b) => Val::Chars {
                    base: b,
                    front: self.int(front, f2),
                    back: self.int(back, k2),
                    start: self.int(start, s2),
                    indices: *indices,
                },
                None => Val::Top,
            },
            (Val::BIter { base, front, back, kind }, Val::BIter { base: b2, front: f2, back: k2, kind: i2 }) if kind == i2 => {
                match self.base(base, b2) {
                    Some(b) => Val::BIter { base: b, front: self.int(front, f2), back: self.int(back, k2), kind: *kind },
                    None => Val::Top,
                }
            }
            (Val::Uninit, _) | (_, Val::Uninit) => Val::Uninit,
            _ => Val::Top,
        }
    }

    fn sig_a(&self) -> BTreeMap<Sym, Lin> {
        self.sig(|t| t.0.clone())
    }
    fn sig_b(&self) -> BTreeMap<Sym, Lin> {
        self.sig(|t| t.1.clone())
    }
    fn sig(&self, f: impl Fn(&(Lin, Lin, Lin)) -> Lin) -> BTreeMap<Sym, Lin> {
        let mut m = BTreeMap::new();
        for t in &self.ints {
            if let Some(s) = t.2.as_sym() {
                if self.vars.contains(&s) {
                    m.insert(s, f(t));
                }
            }
        }
        m
    }
    fn terms(&self) -> Vec<Lin> {
        let mut u: BTreeSet<Lin> = BTreeSet::new();
        let c = std::cell::RefCell::new(&mut u);
        let f = |l: &Lin| {
            if l.t.len() <= 3 {
                c.borrow_mut().insert(l.clone());
            }
            l.clone()
        };
        let mut g = self.g.clone();
        g.map_lins(&f);
        u.into_iter().collect()
    }
    fn constraints(&mut self) {
        let (sa, sb) = (self.sig_a(), self.sig_b());
        let mut used: BTreeSet<Sym> = BTreeSet::new();
        let mut terms = self.terms();
        for t in &terms {
            used.extend(t.syms());
        }
        // where the characters are about which something is known
        for (_, c, _) in &self.a.facts.pred {
            if let (Some(x), Some(y)) = (self.a.chars.get(c), self.b.chars.get(c)) {
                if x.s == y.s && x.off == y.off && x.len == y.len && self.rigid(&x.off) && self.rigid(&x.len) {
                    used.extend(x.off.syms().chain(x.len.syms()));
                }
            }
        }
        // constraints of a over symbols that keep their meaning
        for c in &self.a.cons.ge {
            if self.rigid(c) && c.syms().all(|s| used.contains(&s)) && self.b.cons.entails_ge(c) {
                self.g.cons.add_ge(c.clone());
            }
        }
        for c in self.b.cons.ge.iter().filter(|_| second()) {
            if c.syms().any(|s| self.a.elim.contains_key(&s)) && self.rigid(c) && c.syms().all(|s| used.contains(&s)) && self.a.cons.entails_ge(c) {
                self.g.cons.add_ge(c.clone());
            }
        }
        for c in &self.a.cons.eq {
            if self.rigid(c) && c.syms().all(|s| used.contains(&s)) && self.b.cons.entails_eq(c) {
                self.g.cons.add_eq(c.clone());
            }
        }
        // the size of an array does not depend on what it holds
        for (x, y, g) in std::mem::take(&mut self.totals) {
            let mut cand: Vec<Lin> = vec![x.clone(), y.clone()];
            cand.extend(self.a.ghost.values().filter_map(|v| match v {
                Val::Int(l) => Some(l.clone()),
                _ => None,
            }));
            let mut t = self.ints.iter().find(|i| i.0 == x && i.1 == y).map(|i| i.2.clone());
            for c in cand {
                if t.is_none() && self.rigid(&c) && self.a.cons.entails_eq(&x.sub(&c)) && self.b.cons.entails_eq(&y.sub(&c)) {
                    t = Some(c);
                }
            }
            if let Some(c) = t.map(|t| g.sub(&t)) {
                if !c.is_const().is_some() && self.a.cons.entails_eq(&c.subst(&sa)) && self.b.cons.entails_eq(&c.subst(&sb)) {
                    self.g.cons.add_eq(c);
                }
            }
        }
        for k in [0, 1, 4, 255] {
            let l = Lin::k(k);
            if !terms.contains(&l) {
                terms.push(l);
            }
        }
        // constraints of a that mention generalised symbols: re-express through the pairs
        let mut inva: BTreeMap<Sym, Lin> = BTreeMap::new();
        for (x, _, g) in &self.ints {
            if let Some(s) = x.as_sym() {
                inva.entry(s).or_insert(g.clone());
            }
        }
        let mut cands: Vec<Lin> = vec![];
        for c in &self.a.cons.ge {
            if c.syms().any(|s| inva.contains_key(&s)) {
                cands.push(c.subst(&inva));
            }
        }
        cands.append(&mut self.lens);
        let n = terms.len();
        for i in 0..n {
            for j in 0..n {
                if i == j {
                    continue;
                }
                let d = terms[i].sub(&terms[j]);
                if d.t.is_empty() || d.t.len() > 4 || !d.syms().any(|s| self.vars.contains(&s)) {
                    continue;
                }
                cands.push(d.clone());
                if !second() || self.level < 2 || terms[i].is_const().is_none() && terms[j].is_const().is_none() {
                    cands.push(d.addk(-1));
                }
            }
        }
        cands.sort();
        cands.dedup();
        // strongest first: smaller constants
        let mut done: BTreeSet<Vec<(Sym, i128)>> = BTreeSet::new();
        for c in cands {
            if done.contains(&c.t) {
                continue;
            }
            if !c.syms().all(|s| used.contains(&s) || self.vars.contains(&s)) {
                continue;
            }
            let ca = c.subst(&sa);
            if self.a.cons.entails_ge(&ca) && self.b.cons.entails_ge(&c.subst(&sb)) {
                done.insert(c.t.clone());
                self.g.cons.add_ge(c);
            }
        }
    }
    fn facts(&mut self) {
        let (sa, sb) = (self.sig_a(), self.sig_b());
        let terms = self.terms();
        let shared: Vec<StrId> = self.g.strs.keys().copied().filter(|s| self.a.str_valid(*s) && self.b.str_valid(*s)).collect();
        // characters with the same meaning in both
        for (id, c) in &self.a.chars {
            if self.g.chars.contains_key(id) || self.inv.cvars.contains(id) {
                continue;
            }
            if let Some(d) = self.b.chars.get(id) {
                if c.s == d.s
                    && self.g.strs.contains_key(&c.s)
                    && c.off == d.off
                    && c.len == d.len
                    && c.code == d.code
                    && self.rigid(&c.off)
                    && self.rigid(&c.len)
                    && self.rigid(&c.code)
                {
                    self.g.chars.insert(*id, c.clone());
                }
            }
        }
        for (p, c, v) in &self.a.facts.pred {
            if self.g.chars.contains_key(c) && !self.inv.cvars.contains(c) && self.b.known_pred(p, *c) == Some(*v) {
                self.g.facts.pred.push((p.clone(), *c, *v));
            }
        }
        for ((x, y), c) in &self.chars {
            if x == c {
                continue;
            }
            for (p, d, v) in &self.a.facts.pred {
                if d == x && self.b.known_pred(p, *y) == Some(*v) {
                    self.g.facts.pred.push((p.clone(), *c, *v));
                }
            }
        }
        // boundaries
        for (s, o) in &self.a.facts.bnd {
            if shared.contains(s) && self.rigid(o) && self.b.known_bnd(*s, o) == Some(true) {
                self.g.add_bnd(*s, o.clone());
            }
        }
        for s in &shared {
            for t in &terms {
                if t.is_const().is_some() || !t.syms().any(|x| self.vars.contains(&x)) {
                    continue;
                }
                if self.b.known_bnd(*s, &t.subst(&sb)) == Some(true) && self.a.known_bnd(*s, &t.subst(&sa)) == Some(true) {
                    self.g.add_bnd(*s, t.clone());
                }
            }
        }
        // boundary-free ranges
        for (s, x, y) in &self.a.facts.nb {
            if shared.contains(s) && self.rigid(x) && self.rigid(y) && self.b.known_nb(*s, x, y) {
                self.g.facts.nb.push((*s, x.clone(), y.clone()));
            }
        }
        // the ends of the ranges of either state, seen as following a quantity that changes
        let moving: Vec<(Lin, Lin, Lin)> =
            self.ints.iter().filter(|p| p.0 != p.1 && p.2.syms().any(|v| self.vars.contains(&v))).cloned().collect();
        // a position of one text lies in one of its pieces: the same position counts from the start of each
        let mut shifts: Vec<(StrId, StrId, Lin)> = vec![];
        for (_, _, g) in &self.texts {
            for w in g.windows(2) {
                if let (Src::Str(p), Src::Str(q)) = (w[0].src, w[1].src) {
                    if p != q && shared.contains(&p) && shared.contains(&q) {
                        let d = w[1].from.sub(&w[0].to);
                        shifts.push((p, q, d.clone()));
                        shifts.push((q, p, d.neg()));
                    }
                }
            }
        }
        let mut ends: BTreeMap<StrId, (BTreeSet<Lin>, BTreeSet<Lin>)> = Default::default();
        for s in &shared {
            let (mut xs, mut ys): (BTreeSet<Lin>, BTreeSet<Lin>) = Default::default();
            for (st, left) in [(self.a, true), (self.b, false)] {
                for (_, x, y) in st.facts.nb.iter().filter(|n| n.0 == *s) {
                    for (e, set) in [(x, &mut xs), (y, &mut ys)] {
                        if self.rigid(e) {
                            set.insert(e.clone());
                        }
                        for (pa, pb, g) in &moving {
                            let d = e.sub(if left { pa } else { pb });
                            if let Some(d) = self.reexpress(&d) {
                                if d.t.len() <= 3 {
                                    set.insert(g.add(&d));
                                }
                            }
                            // a distance that grows while the position falls
                            let d = e.add(if left { pa } else { pb });
                            if let Some(d) = self.reexpress(&d) {
                                if d.t.len() <= 3 {
                                    set.insert(d.sub(g));
                                }
                            }
                        }
                    }
                }
            }
            ends.insert(*s, (xs, ys));
        }
        let own = ends.clone();
        for (p, q, d) in &shifts {
            let e = ends.get_mut(q).unwrap();
            e.0.extend(own[p].0.iter().map(|l| l.add(d)));
            e.1.extend(own[p].1.iter().map(|l| l.add(d)));
        }
        for s in &shared {
            let (xs, ys) = &ends[s];
            let vars = &self.vars;
            let var = |l: &Lin| l.syms().any(|v| vars.contains(&v));
            for x in xs {
                for y in ys {
                    if !var(x) && !var(y) || y.sub(x).is_const().is_some() {
                        continue;
                    }
                    let (xb, yb) = (x.subst(&sb), y.subst(&sb));
                    // must say something in b
                    if !self.b.cons.entails_ge(&yb.sub(&xb)) {
                        continue;
                    }
                    if self.b.known_nb(*s, &xb, &yb) && self.a.known_nb(*s, &x.subst(&sa), &y.subst(&sa)) {
                        self.g.facts.nb.push((*s, x.clone(), y.clone()));
                    }
                }
            }
        }
        // range predicates
        let mut preds: BTreeSet<(std::rc::Rc<str>, bool)> = BTreeSet::new();
        for st in [self.a, self.b] {
            for (p, _, v) in &st.facts.pred {
                preds.insert((p.clone(), *v));
            }
            for (p, v, ..) in &st.facts.rp {
                preds.insert((p.clone(), *v));
            }
        }
        for (p, v, s, x, y) in &self.a.facts.rp {
            if shared.contains(s) && self.rigid(x) && self.rigid(y) && self.b.known_range_pred(p, *v, *s, x, y) {
                self.g.facts.rp.push((p.clone(), *v, *s, x.clone(), y.clone()));
            }
        }
        let mut rterms = terms.clone();
        rterms.push(Lin::k(0));
        for (p, v) in &preds {
            for s in &shared {
                let has = |st: &State| {
                    st.facts.rp.iter().any(|r| r.2 == *s && r.0 == *p && r.1 == *v)
                        || st.facts.pred.iter().any(|r| r.0 == *p && r.2 == *v && st.chars.get(&r.1).map_or(false, |c| c.s == *s))
                };
                if !has(self.b) {
                    continue;
                }
                for x in &rterms {
                    for y in &rterms {
                        if x == y || !(x.syms().chain(y.syms())).any(|k| self.vars.contains(&k)) {
                            continue;
                        }
                        let (xb, yb) = (x.subst(&sb), y.subst(&sb));
                        if self.b.cons.entails_ge(&xb.sub(&yb)) {
                            continue;
                        }
                        if self.b.known_range_pred(p, *v, *s, &xb, &yb)
                            && self.a.known_range_pred(p, *v, *s, &x.subst(&sa), &y.subst(&sa))
                        {
                            self.g.facts.rp.push((p.clone(), *v, *s, x.clone(), y.clone()));
                        }
                    }
                }
            }
        }
        for f in &self.a.facts.teq {
            if self.b.facts.teq.contains(f) && f.0.iter().chain(&f.1).all(|p| self.rigid_piece(p)) {
                self.g.facts.teq.push(f.clone());
            }
        }
        for f in &self.a.facts.ord {
            if self.b.facts.ord.contains(f) && f.0.iter().chain(&f.1).all(|p| self.rigid_piece(p)) {
                self.g.facts.ord.push(f.clone());
            }
        }
        for (k, v) in &self.a.facts.ob {
            if !self.inv.pvars.contains(k) && self.b.facts.ob.get(k) == Some(v) {
                self.g.facts.ob.insert(*k, *v);
            }
        }
    }
    fn rigid_piece(&self, p: &Piece) -> bool {
        self.rigid(&p.from)
            && self.rigid(&p.to)
            && match p.src {
                Src::Str(s) => self.g.strs.contains_key(&s) && !self.inv.svars.contains(&s),
                _ => true,
            }
    }
}

fn cond_has_var(c: &Cond, inv: &Inv) -> bool {
    let lv = |l: &Lin| l.syms().any(|s| inv.vars.contains(&s));
    match c {
        Cond::T | Cond::F => false,
        Cond::Ge(l) | Cond::Eq(l) => lv(l),
        Cond::Bnd(s, l) => inv.svars.contains(s) || lv(l),
        Cond::Pred(_, c) => inv.cvars.contains(c),
        Cond::TextEq(..) | Cond::OrdIs(..) => !inv.vars.is_empty() || !inv.svars.is_empty(),
        Cond::Opaque(i) => inv.pvars.contains(i),
        Cond::Not(c) => cond_has_var(c, inv),
        Cond::And(a, b) | Cond::Or(a, b) => cond_has_var(a, inv) || cond_has_var(b, inv),
    }
}

// ------------------------------------------------------------------------------------------------ inclusion

struct Mt<'a> {
    inv: &'a Inv,
    b: &'a State,
    sig: BTreeMap<Sym, Lin>,
    eqs: Vec<(Lin, Lin)>,
    texts: Vec<(Text, Text)>,
    strs: BTreeMap<StrId, Text>,
    objs: BTreeMap<ObjId, ObjId>,
    users: BTreeMap<UserId, UserId>,
    opq: BTreeMap<u32, u32>,
    chars: BTreeMap<CharId, CharId>,
}

/// is every concrete state of `b` described by `inv`?
pub fn included(inv: &Inv, b: &State) -> Result<(), String> {
    let rb = match second() {
        true => {
            let ka = known_syms(&inv.st);
            b.revive(&|s| ka.contains(&s))
        }
        false => None,
    };
    let b = rb.as_ref().unwrap_or(b);
    let mut m = Mt {
        inv,
        b,
        sig: Default::default(),
        eqs: vec![],
        texts: vec![],
        strs: Default::default(),
        objs: Default::default(),
        users: Default::default(),
        opq: Default::default(),
        chars: Default::default(),
    };
    let a = &inv.st;
    for (k, v) in &a.ghost {
        let w = b.ghost.get(k).ok_or("ghost")?;
        m.val(v, w).map_err(|e| format!("ghost {}: {}", k, e))?;
    }
    for (k, v) in &a.objs {
        let k = &k;
        if inv.ovars.contains(k) {
            continue;
        }
        let w = b.objs.get(k).ok_or_else(|| format!("object o{} is gone", k))?;
        m.val(v, w).map_err(|e| format!("o{}: {}", k, e))?;
    }
    for (k, u) in &a.users {
        if inv.uvars.contains(k) {
            continue;
        }
        let w = b.users.get(k).ok_or("user")?;
        m.user(u, w).map_err(|e| format!("user: {}", e))?;
    }
    if a.effects.len() != b.effects.len() {
        return Err("effects".into());
    }
    for (x, y) in a.effects.iter().zip(&b.effects) {
        if x.what != y.what || x.args.len() != y.args.len() {
            return Err("effects".into());
        }
        for (p, q) in x.args.iter().zip(&y.args) {
            m.val(p, q)?;
        }
        if let (Some(p), Some(q)) = (&x.ret, &y.ret) {
            m.val(p, q)?;
        }
    }
    m.solve()?;
    for (k, s) in &a.strs {
        if inv.svars.contains(k) {
            if let Some(t) = m.strs.get(k).cloned() {
                let l = text_len(&t);
                m.int(&s.len, &l)?;
                if !matches!(s.kind, SKind::Raw | SKind::Wide) && !matches!(b.text_valid(&t), Ok(None)) {
                    return Err("text validity".into());
                }
            }
        } else {
            let t = b.strs.get(k).ok_or("str")?;
            m.int(&s.len, &t.len)?;
        }
    }
    for (c, d) in m.chars.clone() {
        let (x, y) = (&a.chars[&c], &b.chars[&d]);
        m.int(&x.len, &y.len)?;
        m.int(&x.code, &y.code)?;
    }
    // deferred equations
    for (x, y) in m.eqs.clone() {
        let x = x.subst(&m.sig);
        if x != y && !b.cons.entails_eq(&x.sub(&y)) {
            return Err(format!("{:?} vs {:?}", x, y));
        }
    }
    // constraints
    for c in &a.cons.ge {
        if !b.cons.entails_ge(&c.subst(&m.sig)) {
            return Err(format!("constraint {:?} >= 0", c));
        }
    }
    for c in &a.cons.eq {
        if !b.cons.entails_eq(&c.subst(&m.sig)) {
            return Err(format!("constraint {:?} == 0", c));
        }
    }
    let st = |s: StrId| -> Option<StrId> {
        if inv.svars.contains(&s) {
            None
        } else {
            Some(s)
        }
    };
    for (s, o) in &a.facts.bnd {
        let t = st(*s).ok_or("bnd on joined")?;
        if b.known_bnd(t, &o.subst(&m.sig)) != Some(true) {
            return Err(format!("boundary {:?}", o));
        }
    }
    for (s, x, y) in &a.facts.nb {
        let t = st(*s).ok_or("nb on joined")?;
        if !b.known_nb(t, &x.subst(&m.sig), &y.subst(&m.sig)) {
            return Err(format!("no boundary in {:?}..={:?}", x, y));
        }
    }
    for (p, v, s, x, y) in &a.facts.rp {
        let t = st(*s).ok_or("rp on joined")?;
        if !b.known_range_pred(p, *v, t, &x.subst(&m.sig), &y.subst(&m.sig)) {
            return Err(format!("range pred {}", p));
        }
    }
    for (id, c) in &a.chars {
        if m.chars.contains_key(id) {
            continue;
        }
        if inv.cvars.contains(id) {
            continue;
        }
        match b.chars.get(id) {
            Some(d) if d.s == c.s && d.off == c.off.subst(&m.sig) && d.len == c.len.subst(&m.sig) => {}
            _ => return Err(format!("char {}", id)),
        }
    }
    for (p, c, v) in &a.facts.pred {
        let d = m.chars.get(c).copied().unwrap_or(*c);
        if b.known_pred(p, d) != Some(*v) {
            return Err(format!("pred {}", p));
        }
    }
    for (i, v) in &a.facts.ob {
        let j = m.opq.get(i).copied().unwrap_or(*i);
        if b.facts.ob.get(&j) != Some(v) {
            return Err("bool".into());
        }
    }
    for f in &a.facts.teq {
        if !b.facts.teq.contains(f) {
            return Err("teq".into());
        }
    }
    for f in &a.facts.ord {
        if !b.facts.ord.contains(f) {
            return Err("ord".into());
        }
    }
    Ok(())
}

impl<'a> Mt<'a> {
    fn int(&mut self, a: &Lin, b: &Lin) -> Result<(), String> {
        if let Some(s) = a.as_sym() {
            if self.inv.vars.contains(&s) {
                if let Some(x) = self.sig.get(&s) {
                    if x == b || self.b.cons.entails_eq(&x.sub(b)) {
                        return Ok(());
                    }
                    return Err(format!("{:?} is {:?} and {:?}", a, x, b));
                }
                self.sig.insert(s, b.clone());
                return Ok(());
            }
        }
        if a.syms().any(|s| self.inv.vars.contains(&s)) {
            // solve for the only unknown symbol
            let rest = a.subst(&self.sig);
            let open: Vec<Sym> = a.syms().filter(|s| self.inv.vars.contains(s) && !self.sig.contains_key(s)).collect();
            match open.as_slice() {
                [] => {
                    return if rest == *b || self.b.cons.entails_eq(&rest.sub(b)) {
                        Ok(())
                    } else {
                        Err(format!("{:?} is {:?} and {:?}", a, rest, b))
                    };
                }
                [s] if a.coef(*s).abs() == 1 => {
                    let k = a.coef(*s);
                    let mut m = self.sig.clone();
                    m.insert(*s, Lin::k(0));
                    let v = b.sub(&a.subst(&m)).scale(k);
                    self.sig.insert(*s, v);
                    return Ok(());
                }
                _ => {}
            }
            self.eqs.push((a.clone(), b.clone()));
            return Ok(());
        }
        if a == b || self.b.cons.entails_eq(&a.sub(b)) {
            Ok(())
        } else {
            Err(format!("{:?} vs {:?}", a, b))
        }
    }
    fn text(&mut self, a: &Text, b: &Text) -> Result<(), String> {
        let b: Text = self.b.norm(b);
        let a: Text = a.iter().filter(|p| p.len().is_const() != Some(0)).cloned().collect();
        self.texts.push((a, b));
        Ok(())
    }
    /// solve the collected text equations: lengths become known one after the other
    fn solve(&mut self) -> Result<(), String> {
        loop {
            let work = std::mem::take(&mut self.texts);
            if work.is_empty() {
                return Ok(());
            }
            let n = work.len();
            let before = (self.sig.len(), self.strs.len());
            for (a, b) in work {
                if !self.try_text(&a, &b)? {
                    self.texts.push((a, b));
                }
            }
            if self.texts.len() == n && (self.sig.len(), self.strs.len()) == before {
                return Err(format!("texts {:?}", self.texts));
            }
        }
    }
    fn known(&self, l: &Lin) -> Option<Lin> {
        if l.syms().all(|s| !self.inv.vars.contains(&s) || self.sig.contains_key(&s)) {
            Some(l.subst(&self.sig))
        } else {
            None
        }
    }
    /// p, which is completely known, is q
    fn is_piece(&self, p: &Piece, q: &Piece) -> bool {
        if self.flex(p) || p.src != q.src || p.src == Src::Zero {
            return false;
        }
        let eq = |l: &Lin, m: &Lin| self.known(l).is_some_and(|l| l == *m || self.b.cons.entails_eq(&l.sub(m)));
        eq(&p.from, &q.from) && eq(&p.to, &q.to)
    }
    fn try_text(&mut self, a: &Text, b: &Text) -> Result<bool, String> {
        let (mut a, mut b) = (&a[..], &b[..]);
        if second() && a.len() != b.len() {
            while let (Some(p), Some(q)) = (a.last(), b.last()) {
                if !self.is_piece(p, q) {
                    break;
                }
                (a, b) = (&a[..a.len() - 1], &b[..b.len() - 1]);
            }
            while let (Some(p), Some(q)) = (a.first(), b.first()) {
                if !self.is_piece(p, q) {
                    break;
                }
                (a, b) = (&a[1..], &b[1..]);
            }
        }
        let total = text_len(b);
        if b.is_empty() || self.b.cons.entails_eq(&total) {
            for p in a {
                if self.whole_var(p) {
                    self.bind(p, vec![])?;
                }
                self.int(&p.len(), &Lin::k(0))?;
            }
            return Ok(true);
        }
        // bound strings have known lengths
        for p in a {
            if let Src::Str(s) = p.src {
                if self.whole_var(p) && self.known(&p.len()).is_none() {
                    if let Some(t) = self.strs.get(&s).cloned() {
                        self.int(&p.len(), &text_len(&t))?;
                    }
                }
            }
        }
        let unknown: Vec<usize> = (0..a.len()).filter(|k| self.known(&a[*k].len()).is_none()).collect();
        if unknown.len() > 1 {
            // fix the leading and trailing pieces with a common source
            let before = self.sig.len();
            for (p, q) in a.iter().zip(b.iter()) {
                if self.flex(p) || p.src != q.src || p.src == Src::Zero {
                    break;
                }
                self.int(&p.from, &q.from)?;
                self.int(&p.to, &q.to)?;
            }
            if self.sig.len() == before {
                for (p, q) in a.iter().rev().zip(b.iter().rev()) {
                    if self.flex(p) || p.src != q.src || p.src == Src::Zero {
                        break;
                    }
                    self.int(&p.from, &q.from)?;
                    self.int(&p.to, &q.to)?;
                }
            }
            if second() && self.sig.len() == before && b.len() < a.len() && !a.iter().any(|p| self.flex(p)) {
                // parts without a counterpart are empty
                let mut fwd: Vec<Option<usize>> = vec![];
                let mut i = 0;
                for p in a {
                    if b.get(i).is_some_and(|q| q.src == p.src) {
                        fwd.push(Some(i));
                        i += 1;
                    } else {
                        fwd.push(None);
                    }
                }
                let mut bwd: Vec<Option<usize>> = vec![];
                let mut j = b.len();
                for p in a.iter().rev() {
                    if j > 0 && b[j - 1].src == p.src {
                        j -= 1;
                        bwd.push(Some(j));
                    } else {
                        bwd.push(None);
                    }
                }
                bwd.reverse();
                if i == b.len() && fwd == bwd {
                    for (p, m) in a.iter().zip(&fwd) {
                        match m {
                            Some(k) => {
                                self.int(&p.from, &b[*k].from)?;
                                self.int(&p.to, &b[*k].to)?;
                            }
                            None => self.int(&p.len(), &Lin::k(0))?,
                        }
                    }
                }
            }
            return Ok(false);
        }
        let mut lens: Vec<Lin> = vec![];
        let mut sum = Lin::k(0);
        for (k, p) in a.iter().enumerate() {
            let l = if unknown.contains(&k) { Lin::k(0) } else { self.known(&p.len()).unwrap() };
            sum = sum.add(&l);
            lens.push(l);
        }
        if let Some(k) = unknown.first() {
            lens[*k] = total.sub(&sum);
            self.int(&a[*k].len(), &lens[*k].clone())?;
        } else if !self.b.cons.entails_eq(&total.sub(&sum)) {
            return Err(format!("length of {:?} vs {:?}", a, b));
        }
        let mut at = Lin::k(0);
        for (k, p) in a.iter().enumerate() {
            let to = at.add(&lens[k]);
            let Ok(part) = self.b.text_slice(b, &at, &to) else {
                return Err(format!("cannot cut {:?} at {:?}..{:?} for {:?}", b, at, to, p));
            };
            let part = self.b.norm(&part);
            at = to;
            match p.src {
                Src::Junk(j) if self.inv.pvars.contains(&j) => {}
                Src::Str(s) if self.inv.svars.contains(&s) => {
                    if self.whole_var(p) {
                        self.bind(p, part)?;
                    } else if let Some(t) = self.strs.get(&s).cloned() {
                        let (Some(f), Some(g)) = (self.known(&p.from), self.known(&p.to)) else { return Ok(false) };
                        match self.b.text_slice(&t, &f, &g) {
                            Ok(x) if self.b.same_text(&x, &part) => {}
                            _ => return Err("part of a joined text".into()),
                        }
                    } else {
                        return Ok(false);
                    }
                }
                Src::Zero => {
                    if !part.iter().all(|q| q.src == Src::Zero) {
                        return Err(format!("piece {:?} vs {:?}", p, part));
                    }
                }
                _ => {
                    if part.is_empty() {
                        self.int(&p.len(), &Lin::k(0))?;
                    } else if part.len() == 1 && part[0].src == p.src {
                        self.int(&p.from, &part[0].from)?;
                        self.int(&p.to, &part[0].to)?;
                    } else {
                        let (Some(f), Some(g)) = (self.known(&p.from), self.known(&p.to)) else {
                            return Err(format!("piece {:?} vs {:?}", p, part));
                        };
                        let x = vec![Piece { src: p.src, from: f, to: g }];
                        if !self.b.same_text(&x, &part) {
                            return Err(format!("piece {:?} vs {:?}", p, part));
                        }
                    }
                }
            }
        }
        Ok(true)
    }
    fn bind(&mut self, p: &Piece, t: Text) -> Result<(), String> {
        if let Src::Str(s) = p.src {
            if let Some(u) = self.strs.get(&s) {
                if !self.b.same_text(u, &t) {
                    return Err(format!("text {:?} vs {:?}", u, t));
                }
            } else {
                self.strs.insert(s, t);
            }
        }
        Ok(())
    }
    fn whole_var(&self, p: &Piece) -> bool {
        matches!(p.src, Src::Str(s) if self.inv.svars.contains(&s) && p.from.is_const() == Some(0) && p.to == self.inv.st.strs[&s].len)
    }
    fn mapped(&self, p: &Piece) -> bool {
        matches!(p.src, Src::Str(s) if self.inv.svars.contains(&s))
    }
    /// whole of a generalised string / generalised stale bytes
    fn flex(&self, p: &Piece) -> bool {
        match p.src {
            Src::Str(s) => self.inv.svars.contains(&s),
            Src::Junk(j) => self.inv.pvars.contains(&j),
            Src::Zero => false,
        }
    }
    fn loc(&mut self, x: &Loc, y: &Loc) -> Result<(), String> {
        if x.path != y.path {
            return Err("path".into());
        }
        if !self.inv.ovars.contains(&x.obj) {
            return if x.obj == y.obj { Ok(()) } else { Err("object".into()) };
        }
        if let Some(o) = self.objs.get(&x.obj) {
            return if *o == y.obj { Ok(()) } else { Err("object".into()) };
        }
        self.objs.insert(x.obj, y.obj);
        match (self.inv.st.objs.get(&x.obj), self.b.objs.get(&y.obj)) {
            (Some(p), Some(q)) => self.val(&p.clone(), &q.clone()),
            _ => Err("object".into()),
        }
    }
    fn base(&mut self, a: &Base, b: &Base) -> Result<(), String> {
        match (a, b) {
            (Base::Place(x), Base::Place(y)) => self.loc(x, y),
            (Base::Ext(x), Base::Ext(y)) => {
                if !self.inv.svars.contains(x) {
                    return if x == y { Ok(()) } else { Err("string".into()) };
                }
                let w = vec![self.b.whole(*y)];
                if let Some(t) = self.strs.get(x) {
                    if !self.b.same_text(t, &w) {
                        return Err("string".into());
                    }
                } else {
                    self.strs.insert(*x, w);
                }
                Ok(())
            }
            (Base::Null, Base::Null) => Ok(()),
            _ => Err("base".into()),
        }
    }
    fn user_id(&mut self, x: UserId, y: UserId) -> Result<(), String> {
        if !self.inv.uvars.contains(&x) {
            return if x == y { Ok(()) } else { Err("user id".into()) };
        }
        if let Some(u) = self.users.get(&x) {
            return if *u == y { Ok(()) } else { Err("user id".into()) };
        }
        self.users.insert(x, y);
        match (self.inv.st.users.get(&x).cloned(), self.b.users.get(&y).cloned()) {
            (Some(p), Some(q)) => self.user(&p, &q),
            _ => Ok(()),
        }
    }
    fn user(&mut self, p: &UserInfo, q: &UserInfo) -> Result<(), String> {
        if p.exhausted != q.exhausted || p.err != q.err {
            return Err("flags".into());
        }
        self.text(&p.taken, &q.taken)?;
        self.text(&p.kept, &q.kept)?;
        for (k, v) in &p.memo {
            match q.memo.get(k) {
                Some(w) => self.val(v, w)?,
                None => return Err("memo".into()),
            }
        }
        Ok(())
    }
    fn val(&mut self, v: &Val, w: &Val) -> Result<(), String> {
        match (v, w) {
            (Val::Top, _) | (Val::Uninit, _) => Ok(()),
            (Val::Int(a), Val::Int(b)) => self.int(a, b),
            (Val::Byte(s, a), Val::Byte(t, b)) if s == t => self.int(a, b),
            (Val::Bool(Cond::Opaque(i)), Val::Bool(c)) if self.inv.pvars.contains(i) => {
                if let Cond::Opaque(j) = c {
                    self.opq.insert(*i, *j);
                }
                if self.inv.st.facts.ob.contains_key(i) {
                    return Err("opaque bool".into());
                }
                Ok(())
            }
            (Val::Bool(a), Val::Bool(b)) => {
                if a == b {
                    Ok(())
                } else {
                    Err("bool".into())
                }
            }
            (Val::Char(a), Val::Char(b)) => {
                if let Some(c) = self.chars.get(a) {
                    return if c == b { Ok(()) } else { Err("char".into()) };
                }
                let (x, y) = match (self.inv.st.chars.get(a), self.b.chars.get(b)) {
                    (Some(x), Some(y)) => (x.clone(), y.clone()),
                    _ => return Err("char".into()),
                };
                if self.inv.cvars.contains(a) {
                    self.chars.insert(*a, *b);
                    if self.inv.svars.contains(&x.s) {
                        let t = self.b.char_text(*b);
                        if let Some(u) = self.strs.get(&x.s) {
                            if !self.b.same_text(u, &t) {
                                return Err("char text".into());
                            }
                        } else {
                            self.strs.insert(x.s, t);
                        }
                        return Ok(());
                    }
                    if x.s != y.s {
                        return Err("char source".into());
                    }
                    return self.int(&x.off, &y.off);
                }
                if a == b {
                    self.chars.insert(*a, *b);
                    self.int(&x.off, &y.off)
                } else {
                    Err("char".into())
                }
            }
            (Val::Agg(f), Val::Agg(h)) if f.len() == h.len() => {
                for (x, y) in f.iter().zip(h) {
                    self.val(x, y)?;
                }
                Ok(())
            }
            (Val::Enum(k, f), Val::Enum(l, h)) if k == l && f.len() == h.len() => {
                for (x, y) in f.iter().zip(h) {
                    self.val(x, y)?;
                }
                Ok(())
            }
            (Val::Ref(a), Val::Ref(b)) => self.loc(a, b),
            (Val::Slice { base, off, len }, Val::Slice { base: b2, off: o2, len: l2 }) => {
                self.base(base, b2)?;
                self.int(off, o2)?;
                self.int(len, l2)
            }
            (Val::BPtr { base, off }, Val::BPtr { base: b2, off: o2 }) => {
                self.base(base, b2)?;
                self.int(off, o2)
            }
            (Val::Bytes(a), Val::Bytes(b)) => self.text(a, b),
            (Val::User(a), Val::User(b)) | (Val::Decode(a), Val::Decode(b)) => self.user_id(*a, *b),
            (Val::Opaque(a), Val::Opaque(b)) => {
                if self.inv.pvars.contains(a) {
                    if let Some(x) = self.opq.get(a) {
                        return if x == b { Ok(()) } else { Err("opaque".into()) };
                    }
                    self.opq.insert(*a, *b);
                    Ok(())
                } else if a == b {
                    Ok(())
                } else {
                    Err("opaque".into())
                }
            }
            (Val::SymOrd(a, b, r), Val::SymOrd(c, d, s)) if r == s => {
                self.text(a, c)?;
                self.text(b, d)
            }
            (
                Val::Chars { base, front, back, start, indices },
                Val::Chars { base: b2, front: f2, back: k2, start: s2, indices: i2 },
            ) if indices == i2 => {
                self.base(base, b2)?;
                self.int(front, f2)?;
                self.int(back, k2)?;
                self.int(start, s2)
            }
            (Val::BIter { base, front, back, kind }, Val::BIter { base: b2, front: f2, back: k2, kind: i2 }) if kind == i2 => {
                self.base(base, b2)?;
                self.int(front, f2)?;
                self.int(back, k2)
            }
            _ => Err(format!("{:?} vs {:?}", v, w)),
        }
    }
}
