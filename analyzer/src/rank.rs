//! Termination of loops.
//!
//! A loop ends when every way around it makes progress. Progress is an item given by the caller's
//! iterator (which is taken to end), or a machine integer of the state that only ever moves in one
//! direction and moves on this way around; machine integers are bounded. Measures are combined
//! lexicographically: a way around that is known to make progress by a measure on which no other way
//! goes back is left out, and the rest must make progress by another measure.

use crate::au::Inv;
use crate::dom::*;
use crate::lin::*;
use std::collections::BTreeMap;

type Slot = (ObjId, String);

fn leaves(v: &Val, o: ObjId, path: &str, out: &mut BTreeMap<Slot, Lin>) {
    let mut put = |k: &str, l: &Lin| {
        out.insert((o, format!("{path}{k}")), l.clone());
    };
    match v {
        Val::Int(l) => put("", l),
        Val::Slice { off, len, .. } => {
            put(".off", off);
            put(".len", len);
            put(".end", &off.add(len));
        }
        Val::BPtr { off, .. } => put(".off", off),
        Val::Chars { front, back, .. } | Val::BIter { front, back, .. } => {
            put(".front", front);
            put(".back", back);
        }
        Val::Agg(f) => {
            for (i, x) in f.iter().enumerate() {
                leaves(x, o, &format!("{path}.{i}"), out);
            }
        }
        Val::Enum(k, f) => {
            put(".variant", &Lin::k(*k as i128));
            for (i, x) in f.iter().enumerate() {
                leaves(x, o, &format!("{path}@{k}.{i}"), out);
            }
        }
        Val::Bool(Cond::T) => put(".bool", &Lin::k(1)),
        Val::Bool(Cond::F) => put(".bool", &Lin::k(0)),
        _ => {}
    }
}
fn slots(s: &State, keep: &dyn Fn(ObjId) -> bool) -> BTreeMap<Slot, Lin> {
    let mut out = BTreeMap::new();
    for (o, v) in s.objs.iter() {
        if keep(o) {
            leaves(v, o, "", &mut out);
        }
    }
    out
}

struct Edge<'a> {
    from: usize,
    to: usize,
    st: &'a State,
    /// change of every measure that exists before and after
    delta: BTreeMap<Slot, Lin>,
}

/// components of the graph on which a cycle is possible
fn cyclic(n: usize, edges: &[Edge<'_>]) -> Vec<Vec<usize>> {
    let mut reach = vec![vec![false; n]; n];
    for e in edges {
        reach[e.from][e.to] = true;
    }
    for k in 0..n {
        for i in 0..n {
            if reach[i][k] {
                for j in 0..n {
                    if reach[k][j] {
                        reach[i][j] = true;
                    }
                }
            }
        }
    }
    let mut out: Vec<Vec<usize>> = vec![];
    let mut seen = vec![false; n];
    for i in 0..n {
        if seen[i] || !reach[i][i] {
            continue;
        }
        let c: Vec<usize> = (0..n).filter(|j| reach[i][*j] && reach[*j][i]).collect();
        for j in &c {
            seen[*j] = true;
        }
        out.push(c);
    }
    out
}

/// a way around the loop for which no measure was found
pub fn endless<'a>(invs: &[&Inv], edges: &[(usize, usize, &'a State)]) -> Option<&'a State> {
    let mut work = vec![];
    for (from, to, st) in edges {
        if st.consumed || st.dead || !st.cons.feasible_with(&[]) {
            continue;
        }
        let fixed = |o: ObjId| !invs[*from].ovars.contains(&o) && !invs[*to].ovars.contains(&o);
        let pre = slots(&invs[*from].st, &fixed);
        let post = slots(st, &fixed);
        let mut delta = BTreeMap::new();
        for (k, a) in &pre {
            if let Some(b) = post.get(k) {
                delta.insert(k.clone(), b.sub(&a.subst(&st.elim)));
            }
        }
        work.push(Edge { from: *from, to: *to, st, delta });
    }
    decide(invs.len(), work)
}

fn decide<'a>(n: usize, mut edges: Vec<Edge<'a>>) -> Option<&'a State> {
    let comps = cyclic(n, &edges);
    edges.retain(|e| comps.iter().any(|c| c.contains(&e.from) && c.contains(&e.to)));
    for c in comps {
        let (mut mine, rest): (Vec<_>, Vec<_>) = edges.into_iter().partition(|e| c.contains(&e.from) && c.contains(&e.to));
        edges = rest;
        if mine.is_empty() {
            continue;
        }
        let names: Vec<Slot> = mine[0].delta.keys().cloned().collect();
        let mut found = false;
        'slot: for k in names {
            for up in [true, false] {
                let d: Option<Vec<Lin>> = mine.iter().map(|e| e.delta.get(&k).map(|l| if up { l.clone() } else { l.neg() })).collect();
                let Some(d) = d else { continue 'slot };
                let weak = |e: &Edge<'_>, l: &Lin| match l.is_const() {
                    Some(k) => k >= 0,
                    None => e.st.cons.entails_ge(l),
                };
                if !mine.iter().zip(&d).all(|(e, l)| weak(e, l)) {
                    continue;
                }
                let strict: Vec<bool> = mine.iter().zip(&d).map(|(e, l)| weak(e, &l.addk(-1))).collect();
                if strict.iter().any(|x| *x) {
                    let mut it = strict.iter();
                    mine.retain(|_| !*it.next().unwrap());
                    found = true;
                    break 'slot;
                }
            }
        }
        if !found {
            return Some(mine[0].st);
        }
        if let Some(s) = decide(n, mine) {
            return Some(s);
        }
    }
    None
}
