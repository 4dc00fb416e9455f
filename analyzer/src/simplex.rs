//! Rational feasibility of `l[i] >= 0`: the general simplex with lower bounds only and the smallest-index rule.
use crate::lin::{Lin, Sym};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
struct Q {
    n: i128,
    d: i128,
}
fn gcd(mut a: i128, mut b: i128) -> i128 {
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a.abs()
}
impl Q {
    const ZERO: Q = Q { n: 0, d: 1 };
    fn int(n: i128) -> Q {
        Q { n, d: 1 }
    }
    fn new(n: i128, d: i128) -> Option<Q> {
        let g = gcd(n, d);
        if g == 0 {
            return None;
        }
        let (n, d) = (n / g, d / g);
        if d < 0 {
            Some(Q { n: n.checked_neg()?, d: d.checked_neg()? })
        } else {
            Some(Q { n, d })
        }
    }
    fn add(self, o: Q) -> Option<Q> {
        Q::new(self.n.checked_mul(o.d)?.checked_add(o.n.checked_mul(self.d)?)?, self.d.checked_mul(o.d)?)
    }
    fn sub(self, o: Q) -> Option<Q> {
        self.add(Q { n: o.n.checked_neg()?, d: o.d })
    }
    fn mul(self, o: Q) -> Option<Q> {
        Q::new(self.n.checked_mul(o.n)?, self.d.checked_mul(o.d)?)
    }
    fn div(self, o: Q) -> Option<Q> {
        Q::new(self.n.checked_mul(o.d)?, self.d.checked_mul(o.n)?)
    }
    fn zero(self) -> bool {
        self.n == 0
    }
    fn lt(self, o: Q) -> Option<bool> {
        Some(self.sub(o)?.n < 0)
    }
}

/// Some(true): no rational solution; Some(false): there is one; None: too large to tell
pub fn infeasible(ge: &[Lin]) -> Option<bool> {
    let mut idx: BTreeMap<Sym, usize> = BTreeMap::new();
    for l in ge {
        for s in l.syms() {
            let k = idx.len();
            idx.entry(s).or_insert(k);
        }
    }
    let n = idx.len();
    let m = ge.len();
    // variables 0..n free, n..n+m slacks with a lower bound
    let mut rows: Vec<Vec<Q>> = vec![];
    let low = |v: usize| if v < n { None } else { Some(Q::int(-ge[v - n].c)) };
    for l in ge {
        let mut r = vec![Q::ZERO; n];
        for (s, k) in &l.t {
            r[idx[s]] = Q::int(*k);
        }
        rows.push(r);
    }
    let mut basic: Vec<usize> = (n..n + m).collect();
    let mut nonb: Vec<usize> = (0..n).collect();
    let mut val: Vec<Q> = vec![Q::ZERO; n + m];
    for _ in 0..2000 {
        // the violated basic variable with the smallest index
        let mut row: Option<usize> = None;
        for (i, &b) in basic.iter().enumerate() {
            if let Some(l) = low(b) {
                if val[b].lt(l)? && row.map_or(true, |r| b < basic[r]) {
                    row = Some(i);
                }
            }
        }
        let Some(i) = row else { return Some(false) };
        let b = basic[i];
        let need = low(b)?.sub(val[b])?;
        let mut col: Option<usize> = None;
        for (j, &x) in nonb.iter().enumerate() {
            let a = rows[i][j];
            let can = a.n > 0
                || a.n < 0
                    && match low(x) {
                        None => true,
                        Some(l) => l.lt(val[x])?,
                    };
            if can && col.map_or(true, |c| x < nonb[c]) {
                col = Some(j);
            }
        }
        let Some(j) = col else { return Some(true) };
        let x = nonb[j];
        let a = rows[i][j];
        let step = need.div(a)?;
        val[x] = val[x].add(step)?;
        val[b] = low(b)?;
        for k in 0..m {
            if k != i && !rows[k][j].zero() {
                val[basic[k]] = val[basic[k]].add(rows[k][j].mul(step)?)?;
            }
        }
        // pivot: x = (b - sum of the others) / a
        let inv = Q::int(1).div(a)?;
        let mut new = vec![Q::ZERO; n];
        for c in 0..n {
            new[c] = if c == j { inv } else { Q::ZERO.sub(rows[i][c])?.mul(inv)? };
        }
        for k in 0..m {
            if k == i {
                continue;
            }
            let f = rows[k][j];
            if f.zero() {
                continue;
            }
            for c in 0..n {
                let add = f.mul(new[c])?;
                rows[k][c] = if c == j { add } else { rows[k][c].add(add)? };
            }
        }
        rows[i] = new;
        basic[i] = x;
        nonb[j] = b;
    }
    None
}

