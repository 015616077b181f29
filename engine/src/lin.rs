//! Linear integer expressions over symbols and a rational feasibility test (general simplex)
//! used as the entailment procedure of the relational numeric domain.
use std::collections::HashMap;

pub type Sym = u32;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Lin {
    pub k: i128,
    pub t: Vec<(Sym, i128)>,
}

impl Lin {
    pub fn c(k: i128) -> Lin {
        Lin { k, t: vec![] }
    }
    pub fn s(s: Sym) -> Lin {
        Lin { k: 0, t: vec![(s, 1)] }
    }
    pub fn is_const(&self) -> bool {
        self.t.is_empty()
    }
    pub fn as_const(&self) -> Option<i128> {
        if self.t.is_empty() {
            Some(self.k)
        } else {
            None
        }
    }
    pub fn single(&self) -> Option<Sym> {
        if self.k == 0 && self.t.len() == 1 && self.t[0].1 == 1 {
            Some(self.t[0].0)
        } else {
            None
        }
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.axpy(1, o)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.axpy(-1, o)
    }
    pub fn neg(&self) -> Lin {
        self.scale(-1)
    }
    pub fn addc(&self, k: i128) -> Lin {
        Lin { k: self.k + k, t: self.t.clone() }
    }
    pub fn scale(&self, m: i128) -> Lin {
        if m == 0 {
            return Lin::c(0);
        }
        Lin { k: self.k * m, t: self.t.iter().map(|(s, c)| (*s, c * m)).collect() }
    }
    /// self + m*o
    pub fn axpy(&self, m: i128, o: &Lin) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, o.t[j].1 * m));
                j += 1;
            } else {
                let c = self.t[i].1 + o.t[j].1 * m;
                if c != 0 {
                    t.push((self.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Lin { k: self.k + o.k * m, t }
    }
    pub fn coef(&self, s: Sym) -> i128 {
        self.t.binary_search_by_key(&s, |x| x.0).map(|i| self.t[i].1).unwrap_or(0)
    }
    pub fn subst(&self, s: Sym, l: &Lin) -> Lin {
        let c = self.coef(s);
        if c == 0 {
            return self.clone();
        }
        let mut r = Lin { k: self.k, t: self.t.iter().filter(|x| x.0 != s).cloned().collect() };
        r = r.axpy(c, l);
        r
    }
    /// lin >= 0, tightened over the integers by the gcd of the coefficients
    pub fn tighten(&self) -> Lin {
        let mut g: i128 = 0;
        for (_, c) in &self.t {
            g = gcd(g, *c);
        }
        if g <= 1 {
            return self.clone();
        }
        Lin { k: self.k.div_euclid(g), t: self.t.iter().map(|(s, c)| (*s, c / g)).collect() }
    }
}

pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    if a <= u64::MAX as i128 && b <= u64::MAX as i128 {
        let (mut x, mut y) = (a as u64, b as u64);
        while y != 0 {
            let t = x % y;
            x = y;
            y = t;
        }
        return x as i128;
    }
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct R {
    pub n: i128,
    pub d: i128,
}
struct Ovf;
type RR = Result<R, Ovf>;
const LIM: i128 = 1 << 120;
impl R {
    fn i(n: i128) -> R {
        R { n, d: 1 }
    }
    fn norm(n: i128, d: i128) -> RR {
        if d == 1 {
            return if n.abs() > LIM { Err(Ovf) } else { Ok(R { n, d }) };
        }
        let g = gcd(n, d);
        let (mut n, mut d) = (n / g, d / g);
        if d < 0 {
            n = -n;
            d = -d;
        }
        if n.abs() > LIM || d > LIM {
            return Err(Ovf);
        }
        Ok(R { n, d })
    }
    fn add(self, o: R) -> RR {
        if self.d == 1 && o.d == 1 {
            return R::norm(self.n.checked_add(o.n).ok_or(Ovf)?, 1);
        }
        let a = self.n.checked_mul(o.d).ok_or(Ovf)?;
        let b = o.n.checked_mul(self.d).ok_or(Ovf)?;
        R::norm(a.checked_add(b).ok_or(Ovf)?, self.d.checked_mul(o.d).ok_or(Ovf)?)
    }
    fn neg(self) -> R {
        R { n: -self.n, d: self.d }
    }
    fn sub(self, o: R) -> RR {
        self.add(o.neg())
    }
    fn mul(self, o: R) -> RR {
        if self.n == 0 || o.n == 0 {
            return Ok(R::i(0));
        }
        R::norm(self.n.checked_mul(o.n).ok_or(Ovf)?, self.d.checked_mul(o.d).ok_or(Ovf)?)
    }
    fn div(self, o: R) -> RR {
        R::norm(self.n.checked_mul(o.d).ok_or(Ovf)?, self.d.checked_mul(o.n).ok_or(Ovf)?)
    }
    fn lt(self, o: R) -> Result<bool, Ovf> {
        if self.d == 1 && o.d == 1 {
            return Ok(self.n < o.n);
        }
        Ok(self.n.checked_mul(o.d).ok_or(Ovf)? < o.n.checked_mul(self.d).ok_or(Ovf)?)
    }
}

pub struct Bounds<'a> {
    pub f: &'a dyn Fn(Sym) -> (Option<i128>, Option<i128>),
}

/// Is {ge >= 0, eq == 0, symbol bounds} infeasible over the rationals?  `None`: could not tell.
/// On feasibility a rational model is returned.
pub fn infeasible(ge: &[Lin], eq: &[Lin], b: &Bounds) -> (bool, Option<HashMap<Sym, R>>) {
    match simplex(ge, eq, b) {
        Ok(None) => (true, None),
        Ok(Some(m)) => match tighten(ge, eq, b) {
            Tight::Empty => (true, None),
            Tight::Same => (false, Some(m)),
            Tight::Bounds(t) => {
                let f = |s: Sym| t.get(&s).cloned().unwrap_or_else(|| (b.f)(s));
                match simplex(ge, eq, &Bounds { f: &f }) {
                    Ok(None) => (true, None),
                    Ok(Some(m)) => (false, Some(m)),
                    Err(_) => (false, None),
                }
            }
        },
        Err(_) => (false, None),
    }
}

enum Tight {
    Empty,
    Same,
    Bounds(HashMap<Sym, (Option<i128>, Option<i128>)>),
}

/// Bounds that follow since the symbols are integers, and do not over the rationals.
fn tighten(ge: &[Lin], eq: &[Lin], b: &Bounds) -> Tight {
    // rounding only matters if some coefficient is not a unit
    if !ge.iter().chain(eq.iter()).any(|l| l.t.len() > 1 && l.t.iter().any(|t| t.1.abs() > 1)) {
        return Tight::Same;
    }
    const BIG: i128 = 1 << 100;
    let mut bd: HashMap<Sym, (Option<i128>, Option<i128>)> = HashMap::new();
    for l in ge.iter().chain(eq.iter()) {
        for (s, _) in &l.t {
            bd.entry(*s).or_insert_with(|| (b.f)(*s));
        }
    }
    let mut rounded = false;
    for _ in 0..4 {
        let mut changed = false;
        for (l, is_eq) in ge.iter().map(|x| (x, false)).chain(eq.iter().map(|x| (x, true))) {
            if l.k.abs() > BIG || l.t.iter().any(|t| t.1.abs() > BIG) {
                continue;
            }
            for up in [true, false] {
                if !up && !is_eq {
                    continue;
                }
                // the greatest value of (+-)l, and how many of its terms are not bounded
                let sg = if up { 1 } else { -1 };
                let mut max: i128 = sg * l.k;
                let mut open = 0;
                let mut bad = false;
                let term = |s: &Sym, c: i128| -> Option<i128> {
                    let (lo, hi) = bd[s];
                    let v = if c > 0 { hi? } else { lo? };
                    v.checked_mul(c)
                };
                for (s, c) in &l.t {
                    match term(s, sg * c) {
                        Some(v) => match max.checked_add(v) {
                            Some(m) if m.abs() < BIG => max = m,
                            _ => bad = true,
                        },
                        None => open += 1,
                    }
                }
                if bad || open > 1 {
                    continue;
                }
                let mut new = vec![];
                for (s, c) in &l.t {
                    let c = sg * c;
                    let own = term(s, c);
                    if open == 1 && own.is_some() {
                        continue;
                    }
                    // c*s >= -rest
                    let rest = max - own.unwrap_or(0);
                    let (lo, hi) = bd[s];
                    if c > 0 {
                        let v = (-rest).div_euclid(c) + ((-rest).rem_euclid(c) != 0) as i128;
                        if lo.map_or(true, |l| l < v) {
                            new.push((*s, (Some(v), hi), (-rest).rem_euclid(c) != 0));
                        }
                    } else {
                        let v = rest.div_euclid(-c);
                        if hi.map_or(true, |h| h > v) {
                            new.push((*s, (lo, Some(v)), rest.rem_euclid(-c) != 0));
                        }
                    }
                }
                for (s, (lo, hi), r) in new {
                    if let (Some(l), Some(h)) = (lo, hi) {
                        if h < l {
                            return Tight::Empty;
                        }
                    }
                    bd.insert(s, (lo, hi));
                    rounded |= r;
                    changed = true;
                }
            }
        }
        if !changed {
            break;
        }
    }
    if rounded {
        Tight::Bounds(bd)
    } else {
        Tight::Same
    }
}

fn simplex(ge: &[Lin], eq: &[Lin], b: &Bounds) -> Result<Option<HashMap<Sym, R>>, Ovf> {
    let mut idx: HashMap<Sym, usize> = HashMap::new();
    let mut syms = vec![];
    for l in ge.iter().chain(eq.iter()) {
        for (s, _) in &l.t {
            idx.entry(*s).or_insert_with(|| {
                syms.push(*s);
                syms.len() - 1
            });
        }
    }
    let n = syms.len();
    let mut lo: Vec<Option<R>> = vec![];
    let mut hi: Vec<Option<R>> = vec![];
    for s in &syms {
        let (l, h) = (b.f)(*s);
        lo.push(l.map(R::i));
        hi.push(h.map(R::i));
    }
    // unit rows become bounds
    let mut rows: Vec<(&Lin, bool)> = vec![];
    for (l, is_eq) in ge.iter().map(|x| (x, false)).chain(eq.iter().map(|x| (x, true))) {
        if l.t.is_empty() {
            if l.k < 0 || (is_eq && l.k != 0) {
                return Ok(None);
            }
            continue;
        }
        if l.t.len() == 1 {
            let (s, c) = l.t[0];
            let j = idx[&s];
            // c*x + k >= 0
            if c > 0 || is_eq {
                let v = if is_eq {
                    if l.k % c != 0 {
                        return Ok(None);
                    }
                    -l.k / c
                } else {
                    -(l.k.div_euclid(c))
                };
                let v = R::i(v);
                if lo[j].is_none() || lo[j].unwrap().lt(v)? {
                    lo[j] = Some(v);
                }
            }
            if c < 0 || is_eq {
                let v = if is_eq { -l.k / c } else { l.k.div_euclid(-c) };
                let v = R::i(v);
                if hi[j].is_none() || v.lt(hi[j].unwrap())? {
                    hi[j] = Some(v);
                }
            }
            continue;
        }
        rows.push((l, is_eq));
    }
    for j in 0..n {
        if let (Some(l), Some(h)) = (lo[j], hi[j]) {
            if h.lt(l)? {
                return Ok(None);
            }
        }
    }
    let m = rows.len();
    for (l, is_eq) in &rows {
        lo.push(Some(R::i(-l.k)));
        hi.push(if *is_eq { Some(R::i(-l.k)) } else { None });
    }
    // tableau: basic[i] = sum_j a[i][j] * nonbasic[j]
    let mut a: Vec<Vec<R>> = vec![vec![R::i(0); n]; m];
    for (i, (l, _)) in rows.iter().enumerate() {
        for (s, c) in &l.t {
            a[i][idx[s]] = R::i(*c);
        }
    }
    let mut nb: Vec<usize> = (0..n).collect();
    let mut bs: Vec<usize> = (n..n + m).collect();
    let mut v: Vec<R> = vec![R::i(0); n + m];
    for j in 0..n {
        v[j] = match (lo[j], hi[j]) {
            (Some(l), _) if l.n > 0 => l,
            (_, Some(h)) if h.n < 0 => h,
            _ => R::i(0),
        };
    }
    for i in 0..m {
        let mut x = R::i(0);
        for j in 0..n {
            if a[i][j].n != 0 {
                x = x.add(a[i][j].mul(v[nb[j]])?)?;
            }
        }
        v[bs[i]] = x;
    }
    for _iter in 0..2000 {
        // Bland: smallest variable index violating a bound
        let mut pick: Option<(usize, bool)> = None;
        for i in 0..m {
            let x = bs[i];
            let low = matches!(lo[x], Some(l) if v[x].lt(l)?);
            let high = matches!(hi[x], Some(h) if h.lt(v[x])?);
            if low || high {
                if pick.is_none() || bs[pick.unwrap().0] > x {
                    pick = Some((i, low));
                }
            }
        }
        let (i, low) = match pick {
            None => {
                let mut model = HashMap::new();
                for j in 0..n {
                    model.insert(syms[j], v[j]);
                }
                return Ok(Some(model));
            }
            Some(p) => p,
        };
        let mut col: Option<usize> = None;
        for j in 0..n {
            let c = a[i][j];
            if c.n == 0 {
                continue;
            }
            let y = nb[j];
            let up = (c.n > 0) == low; // does increasing y help?
            let ok = if up {
                hi[y].is_none() || v[y].lt(hi[y].unwrap())?
            } else {
                lo[y].is_none() || lo[y].unwrap().lt(v[y])?
            };
            if ok && (col.is_none() || nb[col.unwrap()] > y) {
                col = Some(j);
            }
        }
        let j = match col {
            None => return Ok(None),
            Some(j) => j,
        };
        let x = bs[i];
        let target = if low { lo[x].unwrap() } else { hi[x].unwrap() };
        let theta = target.sub(v[x])?.div(a[i][j])?;
        let y = nb[j];
        v[x] = target;
        v[y] = v[y].add(theta)?;
        for r in 0..m {
            if r != i && a[r][j].n != 0 {
                v[bs[r]] = v[bs[r]].add(a[r][j].mul(theta)?)?;
            }
        }
        // pivot
        let p = a[i][j];
        let mut newrow = vec![R::i(0); n];
        for c in 0..n {
            newrow[c] = if c == j { R::i(1).div(p)? } else { a[i][c].neg().div(p)? };
        }
        for r in 0..m {
            if r == i {
                continue;
            }
            let f = a[r][j];
            if f.n == 0 {
                continue;
            }
            for c in 0..n {
                if c == j {
                    a[r][c] = f.mul(newrow[c])?;
                } else if newrow[c].n != 0 {
                    a[r][c] = a[r][c].add(f.mul(newrow[c])?)?;
                }
            }
        }
        a[i] = newrow;
        bs[i] = y;
        nb[j] = x;
    }
    Err(Ovf)
}
