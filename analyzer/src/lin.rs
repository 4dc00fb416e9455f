//! Numeric domain: conjunctions of linear inequalities over integer unknowns.
//! Emptiness is decided by Gaussian elimination of equalities and Fourier-Motzkin elimination with integer
//! tightening (sound: "empty" is only answered when the conjunction has no integer point).

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Sym = u32;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Lin {
    pub t: Vec<(Sym, i128)>,
    pub c: i128,
}

impl std::fmt::Debug for Lin {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut first = true;
        for (s, k) in &self.t {
            let name = sym_name(*s);
            if *k == 1 {
                write!(f, "{}{}", if first { "" } else { "+" }, name)?;
            } else if *k == -1 {
                write!(f, "-{}", name)?;
            } else {
                write!(f, "{}{}*{}", if first || *k < 0 { "" } else { "+" }, k, name)?;
            }
            first = false;
        }
        if self.c != 0 || first {
            if self.c >= 0 && !first {
                write!(f, "+")?;
            }
            write!(f, "{}", self.c)?;
        }
        Ok(())
    }
}

thread_local! {
    static NAMES: RefCell<Vec<String>> = RefCell::new(Vec::new());
    static MEMO: RefCell<HashMap<(Vec<Lin>, Vec<Lin>), bool>> = RefCell::new(HashMap::new());
    pub static FM_QUERIES: RefCell<u64> = RefCell::new(0);
    pub static FM_GIVEUP: RefCell<u64> = RefCell::new(0);
}

thread_local! {
    pub static DEADLINE: std::cell::Cell<Option<std::time::Instant>> = const { std::cell::Cell::new(None) };
}
pub fn new_sym(name: &str) -> Sym {
    NAMES.with(|n| {
        let mut n = n.borrow_mut();
        let id = n.len() as Sym;
        n.push(format!("{}#{}", name, id));
        id
    })
}
pub fn sym_count() -> Sym {
    NAMES.with(|n| n.borrow().len() as Sym)
}
pub fn sym_name(s: Sym) -> String {
    NAMES.with(|n| n.borrow().get(s as usize).cloned().unwrap_or(format!("?{}", s)))
}
pub fn reset_syms() {
    NAMES.with(|n| n.borrow_mut().clear());
    MEMO.with(|m| m.borrow_mut().clear());
}

impl Lin {
    pub fn k(c: i128) -> Lin {
        Lin { t: vec![], c }
    }
    pub fn s(s: Sym) -> Lin {
        Lin { t: vec![(s, 1)], c: 0 }
    }
    pub fn is_const(&self) -> Option<i128> {
        if self.t.is_empty() {
            Some(self.c)
        } else {
            None
        }
    }
    pub fn as_sym(&self) -> Option<Sym> {
        if self.c == 0 && self.t.len() == 1 && self.t[0].1 == 1 {
            Some(self.t[0].0)
        } else {
            None
        }
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.comb(1, o, 1)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.comb(1, o, -1)
    }
    pub fn addk(&self, k: i128) -> Lin {
        Lin { t: self.t.clone(), c: self.c + k }
    }
    pub fn neg(&self) -> Lin {
        self.scale(-1)
    }
    pub fn scale(&self, k: i128) -> Lin {
        if k == 0 {
            return Lin::k(0);
        }
        Lin { t: self.t.iter().map(|(s, c)| (*s, c * k)).collect(), c: self.c * k }
    }
    pub fn comb(&self, a: i128, o: &Lin, b: i128) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push((self.t[i].0, self.t[i].1 * a));
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, o.t[j].1 * b));
                j += 1;
            } else {
                let k = self.t[i].1 * a + o.t[j].1 * b;
                if k != 0 {
                    t.push((self.t[i].0, k));
                }
                i += 1;
                j += 1;
            }
        }
        t.retain(|x| x.1 != 0);
        Lin { t, c: self.c * a + o.c * b }
    }
    pub fn coef(&self, s: Sym) -> i128 {
        match self.t.binary_search_by_key(&s, |x| x.0) {
            Ok(i) => self.t[i].1,
            Err(_) => 0,
        }
    }
    pub fn subst(&self, m: &BTreeMap<Sym, Lin>) -> Lin {
        let mut r = Lin::k(self.c);
        for (s, k) in &self.t {
            match m.get(s) {
                Some(l) => r = r.comb(1, l, *k),
                None => r = r.comb(1, &Lin::s(*s), *k),
            }
        }
        r
    }
    pub fn syms(&self) -> impl Iterator<Item = Sym> + '_ {
        self.t.iter().map(|x| x.0)
    }
    /// normalise `self >= 0` (divide by gcd, tighten constant)
    fn tighten(mut self) -> Lin {
        if self.t.is_empty() {
            return self;
        }
        let mut g: i128 = 0;
        for (_, k) in &self.t {
            g = gcd(g, k.abs());
        }
        if g > 1 {
            for x in self.t.iter_mut() {
                x.1 /= g;
            }
            self.c = self.c.div_euclid(g);
        }
        self
    }
}
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// Conjunction of `ge[i] >= 0` and `eq[i] == 0`.
#[derive(Clone, Default, Debug)]
pub struct Cons {
    pub ge: Vec<Lin>,
    pub eq: Vec<Lin>,
}

impl Cons {
    pub fn add_ge(&mut self, l: Lin) {
        let l = l.tighten();
        if let Some(k) = l.is_const() {
            if k >= 0 {
                return;
            }
        }
        for x in self.ge.iter_mut() {
            if x.t == l.t {
                if l.c < x.c {
                    x.c = l.c;
                }
                return;
            }
        }
        self.ge.push(l);
    }
    pub fn eqs_only(&self) -> Cons {
        Cons { ge: vec![], eq: self.eq.clone() }
    }
    pub fn add_eq(&mut self, l: Lin) {
        if l.is_const() == Some(0) {
            return;
        }
        if !self.eq.contains(&l) {
            self.eq.push(l);
        }
    }

    /// constraints in the connected components touched by `seed`
    fn relevant(&self, seed: &[Lin]) -> (Vec<Lin>, Vec<Lin>) {
        let mut syms: BTreeSet<Sym> = BTreeSet::new();
        for l in seed {
            syms.extend(l.syms());
        }
        let mut used_ge = vec![false; self.ge.len()];
        let mut used_eq = vec![false; self.eq.len()];
        loop {
            let mut ch = false;
            for (i, l) in self.ge.iter().enumerate() {
                if !used_ge[i] && (l.t.is_empty() || l.syms().any(|s| syms.contains(&s))) {
                    used_ge[i] = true;
                    // single-variable bounds do not connect anything
                    for s in l.syms() {
                        ch |= syms.insert(s);
                    }
                }
            }
            for (i, l) in self.eq.iter().enumerate() {
                if !used_eq[i] && (l.t.is_empty() || l.syms().any(|s| syms.contains(&s))) {
                    used_eq[i] = true;
                    for s in l.syms() {
                        ch |= syms.insert(s);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut g: Vec<Lin> = self.ge.iter().enumerate().filter(|(i, _)| used_ge[*i]).map(|x| x.1.clone()).collect();
        let mut e: Vec<Lin> = self.eq.iter().enumerate().filter(|(i, _)| used_eq[*i]).map(|x| x.1.clone()).collect();
        g.sort();
        e.sort();
        (g, e)
    }

    /// false only if `self /\ extra>=0` has no integer solution
    pub fn feasible_with(&self, extra: &[Lin]) -> bool {
        // out of time: nothing is proved any more
        if DEADLINE.with(|d| d.get()).is_some_and(|d| std::time::Instant::now() > d) {
            return true;
        }
        let (mut g, e) = self.relevant(extra);
        for x in extra {
            g.push(x.clone());
        }
        g.sort();
        g.dedup();
        let key = (g, e);
        if let Some(r) = MEMO.with(|m| m.borrow().get(&key).copied()) {
            return r;
        }
        FM_QUERIES.with(|q| *q.borrow_mut() += 1);
        let r = !infeasible(key.0.clone(), key.1.clone());
        MEMO.with(|m| m.borrow_mut().insert(key, r));
        r
    }
    /// self |= l >= 0
    pub fn entails_ge(&self, l: &Lin) -> bool {
        if let Some(k) = l.is_const() {
            return k >= 0;
        }
        for x in &self.ge {
            if x.t == l.t && x.c <= l.c {
                return true;
            }
        }
        !self.feasible_with(&[l.neg().addk(-1)])
    }
    pub fn entails_eq(&self, l: &Lin) -> bool {
        if let Some(k) = l.is_const() {
            return k == 0;
        }
        self.entails_ge(l) && self.entails_ge(&l.neg())
    }
}

fn infeasible(ge: Vec<Lin>, mut eq: Vec<Lin>) -> bool {
    let mut ge: Vec<Lin> = ge;
    // promote pairs l>=0, -l>=0 to equalities
    {
        let set: BTreeSet<Lin> = ge.iter().cloned().collect();
        for l in ge.iter() {
            if !l.t.is_empty() && l.t[0].1 > 0 && set.contains(&l.neg()) {
                eq.push(l.clone());
            }
        }
    }
    // Gaussian elimination with unit coefficients
    let mut i = 0;
    while i < eq.len() {
        let e = eq[i].clone();
        if e.t.is_empty() {
            if e.c != 0 {
                return true;
            }
            i += 1;
            continue;
        }
        if let Some(&(s, k)) = e.t.iter().find(|x| x.1 == 1 || x.1 == -1) {
            // k*s + rest = 0  =>  s = -rest/k
            let mut rest = e.clone();
            rest.t.retain(|x| x.0 != s);
            let val = rest.scale(-k);
            let mut m = BTreeMap::new();
            m.insert(s, val);
            for (j, x) in eq.iter_mut().enumerate() {
                if j != i {
                    *x = x.subst(&m);
                }
            }
            eq.remove(i);
            for x in ge.iter_mut() {
                if x.coef(s) != 0 {
                    *x = x.subst(&m).tighten();
                }
            }
            i = 0;
            continue;
        } else {
            let mut g = 0;
            for x in &e.t {
                g = gcd(g, x.1.abs());
            }
            if e.c % g != 0 {
                return true;
            }
            ge.push(e.clone().tighten());
            ge.push(e.neg().tighten());
            i += 1;
        }
    }
    // Fourier-Motzkin
    let mut cur: HashMap<Vec<(Sym, i128)>, i128> = HashMap::new();
    let put = |cur: &mut HashMap<Vec<(Sym, i128)>, i128>, l: Lin| -> bool {
        let l = l.tighten();
        if l.t.is_empty() {
            return l.c < 0;
        }
        let e = cur.entry(l.t).or_insert(l.c);
        if l.c < *e {
            *e = l.c;
        }
        false
    };
    for l in ge {
        if put(&mut cur, l) {
            return true;
        }
    }
    let all: Vec<Lin> = cur.iter().map(|(t, c)| Lin { t: t.clone(), c: *c }).collect();
    let give_up = || {
        let r = crate::simplex::infeasible(&all);
        if r.is_none() {
            FM_GIVEUP.with(|g| *g.borrow_mut() += 1);
        }
        r == Some(true)
    };
    let mut steps = 0;
    loop {
        // choose the variable with the least product of occurrences
        let mut occ: BTreeMap<Sym, (usize, usize)> = BTreeMap::new();
        for t in cur.keys() {
            for (s, k) in t {
                let e = occ.entry(*s).or_default();
                if *k > 0 {
                    e.0 += 1
                } else {
                    e.1 += 1
                }
            }
        }
        if occ.is_empty() {
            return false;
        }
        let (&v, &(p, n)) = occ.iter().min_by_key(|(_, (p, n))| (p * n) as i64 - (p + n) as i64).unwrap();
        steps += 1;
        if steps > 200 || (p * n > 1000) || cur.len() > 800 {
            return give_up();
        }
        let mut pos = vec![];
        let mut neg = vec![];
        let mut rest: HashMap<Vec<(Sym, i128)>, i128> = HashMap::new();
        for (t, c) in cur.drain() {
            let l = Lin { t, c };
            let k = l.coef(v);
            if k > 0 {
                pos.push(l)
            } else if k < 0 {
                neg.push(l)
            } else {
                rest.insert(l.t, l.c);
            }
        }
        cur = rest;
        for a in &pos {
            for b in &neg {
                let ka = a.coef(v);
                let kb = -b.coef(v);
                if ka.checked_mul(1 << 20).is_none() || kb.abs() > (1 << 40) || ka.abs() > (1 << 40) {
                    return give_up();
                }
                let l = a.comb(kb, b, ka);
                if put(&mut cur, l) {
                    return true;
                }
            }
        }
    }
}
