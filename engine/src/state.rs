//! The abstract state: symbolic memory, linear facts, uninterpreted facts, and their theory.
use crate::ir::*;
use crate::lin::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type Obj = u32;
pub type Buf = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum TArg {
    L(Lin),
    N(u64),
    B(Vec<u8>),
}

/// An uninterpreted (or theory-interpreted) term or atom.
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Def {
    pub op: &'static str,
    pub a: Vec<TArg>,
}

pub struct SymInfo {
    pub name: String,
    pub lo: Option<i128>,
    pub hi: Option<i128>,
    pub def: Option<Rc<Def>>,
}

pub enum BufK {
    /// immutable input of symbolic length
    Input,
    Const(Vec<u8>),
    /// bytes given as linear expressions (an in-memory value viewed as bytes)
    Vals(Vec<Lin>),
    /// contents may change between loads: every load is a fresh value
    Volatile,
}

pub struct BufInfo {
    pub k: BufK,
    pub len: Lin,
    pub name: String,
}

/// Boolean expressions.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum BE {
    C(bool),
    Ge(Lin),
    Eq(Lin),
    Atom(Rc<Def>),
    Not(Rc<BE>),
    And(Rc<BE>, Rc<BE>),
    Or(Rc<BE>, Rc<BE>),
}

impl BE {
    pub fn not(self) -> BE {
        match self {
            BE::C(b) => BE::C(!b),
            BE::Not(x) => (*x).clone(),
            x => BE::Not(Rc::new(x)),
        }
    }
    pub fn and(a: BE, b: BE) -> BE {
        match (&a, &b) {
            (BE::C(false), _) | (_, BE::C(false)) => BE::C(false),
            (BE::C(true), _) => b,
            (_, BE::C(true)) => a,
            _ => BE::And(Rc::new(a), Rc::new(b)),
        }
    }
    pub fn or(a: BE, b: BE) -> BE {
        match (&a, &b) {
            (BE::C(true), _) | (_, BE::C(true)) => BE::C(true),
            (BE::C(false), _) => b,
            (_, BE::C(false)) => a,
            _ => BE::Or(Rc::new(a), Rc::new(b)),
        }
    }
    pub fn ge(l: Lin) -> BE {
        match l.as_const() {
            Some(k) => BE::C(k >= 0),
            None => BE::Ge(l),
        }
    }
    pub fn eq(l: Lin) -> BE {
        match l.as_const() {
            Some(k) => BE::C(k == 0),
            None => BE::Eq(l),
        }
    }
    pub fn lt(a: &Lin, b: &Lin) -> BE {
        BE::ge(b.sub(a).addc(-1))
    }
    pub fn le(a: &Lin, b: &Lin) -> BE {
        BE::ge(b.sub(a))
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Pr {
    F(usize),
    D(usize),
    I(Lin),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum PB {
    Obj(Obj, Vec<Pr>),
    Buf(Buf, Lin),
    /// a dangling or integer address
    Addr(Lin),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct PtrV {
    pub b: PB,
    pub meta: Option<Lin>,
    /// type of the pointed-to object at the end of the path (for Obj bases)
    pub ty: Ty,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Val {
    Int(Lin),
    Bool(BE),
    Agg(Rc<Vec<Val>>),
    Enum(usize, Rc<Vec<Val>>),
    Ptr(Rc<PtrV>),
    Fn(InstId),
    Top(Ty),
    M(Rc<Model>),
}

/// Opaque standard-library / dependency values.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Model {
    pub kind: &'static str,
    pub ty: Ty,
    pub v: Vec<Val>,
}

impl Val {
    pub fn c(k: i128) -> Val {
        Val::Int(Lin::c(k))
    }
    pub fn b(b: bool) -> Val {
        Val::Bool(BE::C(b))
    }
    pub fn unit() -> Val {
        Val::Agg(Rc::new(vec![]))
    }
    pub fn agg(v: Vec<Val>) -> Val {
        Val::Agg(Rc::new(v))
    }
    pub fn en(i: usize, v: Vec<Val>) -> Val {
        Val::Enum(i, Rc::new(v))
    }
    pub fn m(kind: &'static str, ty: Ty, v: Vec<Val>) -> Val {
        Val::M(Rc::new(Model { kind, ty, v }))
    }
    pub fn ptr(b: PB, meta: Option<Lin>, ty: Ty) -> Val {
        Val::Ptr(Rc::new(PtrV { b, meta, ty }))
    }
}

/// On [a,b) of the buffer the predicate `tag` is false everywhere.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct IFact {
    pub tag: Rc<str>,
    pub buf: Buf,
    pub a: Lin,
    pub b: Lin,
}

/// A tuple of related values known to stand in relation `tag` (e.g. a regex match).
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RFact {
    pub tag: Rc<str>,
    pub buf: Buf,
    pub v: Vec<Lin>,
}

pub struct TraceNode {
    pub text: String,
    pub prev: Option<Rc<TraceNode>>,
}

#[derive(Clone)]
pub struct State {
    pub mem: Rc<BTreeMap<Obj, Rc<Val>>>,
    pub next_obj: Obj,
    pub cons: Rc<Vec<Lin>>,
    pub ne: Rc<Vec<Lin>>,
    pub subst: Rc<HashMap<Sym, Lin>>,
    pub atoms: Rc<BTreeMap<Rc<Def>, bool>>,
    pub ifacts: Rc<Vec<IFact>>,
    pub rfacts: Rc<Vec<RFact>>,
    pub taint: Option<Rc<str>>,
    /// What a collection holds at a key that is not the focus takes part in what happens. A failure is judged where
    /// the key is the focus (which is arbitrary), and where more is known about the value.
    pub foreign: bool,
    /// id of the numeric part, for the entailment cache
    pub stamp: u64,
    pub trace: Option<Rc<TraceNode>>,
    /// a loop was abstracted on the way here
    pub abstracted: bool,
}

impl State {
    pub fn new() -> State {
        State {
            mem: Rc::new(BTreeMap::new()),
            next_obj: 1,
            cons: Rc::new(vec![]),
            ne: Rc::new(vec![]),
            subst: Rc::new(HashMap::new()),
            atoms: Rc::new(BTreeMap::new()),
            ifacts: Rc::new(vec![]),
            rfacts: Rc::new(vec![]),
            taint: None,
            foreign: false,
            stamp: 0,
            trace: None,
            abstracted: false,
        }
    }
    pub fn note(&mut self, s: String) {
        self.trace = Some(Rc::new(TraceNode { text: s, prev: self.trace.clone() }));
    }
    pub fn set_taint(&mut self, s: &str) {
        if self.taint.is_none() {
            self.taint = Some(s.into());
        }
    }
    pub fn new_obj(&mut self, v: Val) -> Obj {
        let o = self.next_obj;
        self.next_obj += 1;
        Rc::make_mut(&mut self.mem).insert(o, Rc::new(v));
        o
    }
}

/// Symbol and buffer tables plus the theory procedures.
pub struct Ctx {
    pub syms: Vec<SymInfo>,
    pub interned: HashMap<Rc<Def>, Sym>,
    pub axioms: HashMap<Sym, Vec<(Lin, bool)>>,
    pub bufs: Vec<BufInfo>,
    pub stamp: u64,
    cache: HashMap<(u64, Lin), bool>,
    pub lp_calls: u64,
    pub const_bufs: HashMap<Vec<u8>, Buf>,
    /// the pseudo-domain "self-overlap free" needles etc. live with the models
    pub deadline: std::time::Instant,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            syms: vec![],
            interned: HashMap::new(),
            axioms: HashMap::new(),
            bufs: vec![],
            stamp: 1,
            cache: HashMap::new(),
            lp_calls: 0,
            const_bufs: HashMap::new(),
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600),
        }
    }
    pub fn fresh(&mut self, name: &str, lo: Option<i128>, hi: Option<i128>) -> Sym {
        self.syms.push(SymInfo { name: format!("{}#{}", name, self.syms.len()), lo, hi, def: None });
        (self.syms.len() - 1) as Sym
    }
    pub fn fresh_lin(&mut self, name: &str, lo: i128, hi: i128) -> Lin {
        Lin::s(self.fresh(name, Some(lo), Some(hi)))
    }
    pub fn const_buf(&mut self, b: &[u8]) -> Buf {
        if let Some(x) = self.const_bufs.get(b) {
            return *x;
        }
        let id = self.add_buf(BufK::Const(b.to_vec()), Lin::c(b.len() as i128), "const");
        self.const_bufs.insert(b.to_vec(), id);
        id
    }
    pub fn add_buf(&mut self, k: BufK, len: Lin, name: &str) -> Buf {
        self.bufs.push(BufInfo { k, len, name: format!("{}{}", name, self.bufs.len()) });
        (self.bufs.len() - 1) as Buf
    }
    pub fn intern(&mut self, d: Def, lo: Option<i128>, hi: Option<i128>) -> Sym {
        if let Some(s) = self.interned.get(&d) {
            return *s;
        }
        let d = Rc::new(d);
        let name = self.show_def(&d);
        self.syms.push(SymInfo { name, lo, hi, def: Some(d.clone()) });
        let s = (self.syms.len() - 1) as Sym;
        self.interned.insert(d.clone(), s);
        self.define(s, &d);
        s
    }
    pub fn show_lin(&self, l: &Lin) -> String {
        let mut o = String::new();
        for (s, c) in &l.t {
            if !o.is_empty() {
                o.push_str(" + ");
            }
            if *c != 1 {
                o.push_str(&format!("{}*", c));
            }
            o.push_str(&self.syms[*s as usize].name);
        }
        if l.k != 0 || o.is_empty() {
            if !o.is_empty() {
                o.push_str(if l.k < 0 { " - " } else { " + " });
                o.push_str(&l.k.abs().to_string());
            } else {
                o.push_str(&l.k.to_string());
            }
        }
        o
    }
    pub fn show_def(&self, d: &Def) -> String {
        let a: Vec<String> = d
            .a
            .iter()
            .enumerate()
            .map(|(i, x)| match x {
                TArg::L(l) => self.show_lin(l),
                TArg::N(n) => {
                    if i == 0 && (d.op == "load" || d.op == "beq" || d.op == "V" || d.op == "L") {
                        self.bufs.get(*n as usize).map(|b| b.name.clone()).unwrap_or(n.to_string())
                    } else {
                        n.to_string()
                    }
                }
                TArg::B(b) => format!("{:?}", String::from_utf8_lossy(b)),
            })
            .collect();
        if d.op == "load" {
            return format!("{}[{}]", a[0], a[1]);
        }
        format!("{}({})", d.op, a.join(","))
    }
    pub fn show_be(&self, b: &BE) -> String {
        match b {
            BE::C(x) => x.to_string(),
            BE::Ge(l) => format!("{} >= 0", self.show_lin(l)),
            BE::Eq(l) => format!("{} == 0", self.show_lin(l)),
            BE::Atom(d) => self.show_def(d),
            BE::Not(x) => format!("!({})", self.show_be(x)),
            BE::And(x, y) => format!("({} && {})", self.show_be(x), self.show_be(y)),
            BE::Or(x, y) => format!("({} || {})", self.show_be(x), self.show_be(y)),
        }
    }

    /// Axioms that define a freshly interned term.
    fn define(&mut self, s: Sym, d: &Rc<Def>) {
        let me = Lin::s(s);
        match d.op {
            "quot" => {
                // q = floor(x / c), x >= 0
                if let (TArg::L(x), TArg::N(c)) = (&d.a[0], &d.a[1]) {
                    let c = *c as i128;
                    let lo = x.axpy(-c, &me);
                    let ax = vec![(lo.clone(), false), (lo.neg().addc(c - 1), false)];
                    self.axioms.insert(s, ax);
                }
            }
            "bor" => {
                if let (TArg::L(x), TArg::L(y)) = (&d.a[0], &d.a[1]) {
                    let ax = vec![(me.sub(x), false), (me.sub(y), false), (x.add(y).sub(&me), false)];
                    self.axioms.insert(s, ax);
                }
            }
            "band" => {
                if let (TArg::L(x), TArg::L(y)) = (&d.a[0], &d.a[1]) {
                    let ax = vec![(x.sub(&me), false), (y.sub(&me), false)];
                    self.axioms.insert(s, ax);
                }
            }
            "udiv" => {
                // x / y with y >= 1, x >= 0: result <= x
                if let TArg::L(x) = &d.a[0] {
                    self.axioms.insert(s, vec![(x.sub(&me), false)]);
                }
            }
            "urem" => {
                if let (TArg::L(x), TArg::L(y)) = (&d.a[0], &d.a[1]) {
                    self.axioms.insert(s, vec![(x.sub(&me), false), (y.sub(&me).addc(-1), false)]);
                }
            }
            _ => {}
        }
    }

    pub fn range(&self, l: &Lin) -> (Option<i128>, Option<i128>) {
        let mut lo = Some(l.k);
        let mut hi = Some(l.k);
        for (s, c) in &l.t {
            let i = &self.syms[*s as usize];
            let (a, b) = if *c > 0 { (i.lo, i.hi) } else { (i.hi, i.lo) };
            lo = match (lo, a) {
                (Some(x), Some(y)) => x.checked_add(y * c),
                _ => None,
            };
            hi = match (hi, b) {
                (Some(x), Some(y)) => x.checked_add(y * c),
                _ => None,
            };
        }
        (lo, hi)
    }

    /// A load of one byte.
    pub fn load(&mut self, buf: Buf, off: &Lin) -> Lin {
        let volatile = matches!(self.bufs[buf as usize].k, BufK::Volatile);
        if volatile {
            return self.fresh_lin("vol", 0, 255);
        }
        if let Some(k) = off.as_const() {
            match &self.bufs[buf as usize].k {
                BufK::Const(b) if k >= 0 && (k as usize) < b.len() => return Lin::c(b[k as usize] as i128),
                BufK::Vals(v) if k >= 0 && (k as usize) < v.len() => return v[k as usize].clone(),
                _ => {}
            }
        }
        Lin::s(self.intern(
            Def { op: "load", a: vec![TArg::N(buf as u64), TArg::L(off.clone())] },
            Some(0),
            Some(255),
        ))
    }

    /// The i-th base-2^r digit of x, 0 <= x < 2^(r*n).
    pub fn digits(&mut self, x: &Lin, r: u32, n: u32) -> Vec<Lin> {
        let base = 1i128 << r;
        if let Some(k) = x.as_const() {
            let m = if r * n >= 127 { k } else { k.rem_euclid(1i128 << (r * n)) };
            return (0..n).map(|i| Lin::c((m >> (r * i)) & (base - 1))).collect();
        }
        // try to see x as a concatenation of fields
        if let Some(v) = self.concat_digits(x, r, n) {
            return v;
        }
        self.raw_digits(x, r, n)
    }

    fn raw_digits(&mut self, x: &Lin, r: u32, n: u32) -> Vec<Lin> {
        let base = 1i128 << r;
        let mut out = vec![];
        let mut syms = vec![];
        let mut fresh = false;
        for i in 0..n {
            let d = Def { op: "digit", a: vec![TArg::L(x.clone()), TArg::N(r as u64), TArg::N(i as u64)] };
            if !self.interned.contains_key(&d) {
                fresh = true;
            }
            let s = self.intern(d, Some(0), Some(base - 1));
            syms.push(s);
            out.push(Lin::s(s));
        }
        if fresh {
            let mut e = x.clone();
            for i in 0..n {
                e = e.axpy(-(1i128 << (r * i)), &out[i as usize]);
            }
            for s in &syms {
                let v = self.axioms.entry(*s).or_default();
                v.push((e.clone(), true));
            }
        }
        out
    }

    fn concat_digits(&mut self, x: &Lin, r: u32, n: u32) -> Option<Vec<Lin>> {
        let base = 1i128 << r;
        if x.k < 0 || x.t.iter().any(|t| t.1 <= 0) {
            return None;
        }
        if x.t.len() == 1 && x.k == 0 && x.t[0].1 == 1 {
            let hi = self.syms[x.t[0].0 as usize].hi?;
            if hi < base && self.syms[x.t[0].0 as usize].lo? >= 0 {
                let mut v = vec![Lin::c(0); n as usize];
                v[0] = x.clone();
                return Some(v);
            }
            return None;
        }
        let mut v = vec![Lin::c(0); n as usize];
        let mut used = vec![0u32; (r * n) as usize]; // bit occupancy
        let total = (r * n) as usize;
        let mut parts: Vec<(Lin, i128, u32)> = vec![]; // symbol, weight exponent, width
        for (s, c) in &x.t {
            if c.count_ones() != 1 {
                return None;
            }
            let e = c.trailing_zeros();
            let i = &self.syms[*s as usize];
            if i.lo? < 0 {
                return None;
            }
            let w = 128 - i.hi?.leading_zeros();
            for b in e..e + w {
                if b as usize >= total || used[b as usize] != 0 {
                    return None;
                }
                used[b as usize] = 1;
            }
            parts.push((Lin::s(*s), e as i128, w));
        }
        for b in 0..127u32 {
            if (x.k >> b) & 1 == 1 {
                if b as usize >= total || used[b as usize] != 0 {
                    return None;
                }
                used[b as usize] = 1;
                v[(b / r) as usize] = v[(b / r) as usize].addc(1i128 << (b % r));
            }
        }
        for (s, e, w) in parts {
            let e = e as u32;
            if e / r == (e + w.max(1) - 1) / r {
                let d = (e / r) as usize;
                v[d] = v[d].axpy(1i128 << (e % r), &s);
            } else if e % r == 0 {
                let nn = (w + r - 1) / r;
                let ds = self.raw_digits(&s, r, nn);
                for (j, x) in ds.iter().enumerate() {
                    let d = (e / r) as usize + j;
                    v[d] = v[d].add(x);
                }
            } else {
                // split into bits and regroup
                let bits = self.raw_digits(&s, 1, w);
                for (j, x) in bits.iter().enumerate() {
                    let p = e + j as u32;
                    let d = (p / r) as usize;
                    v[d] = v[d].axpy(1i128 << (p % r), x);
                }
            }
        }
        Some(v)
    }

    // ---------------------------------------------------------------- canonical forms

    pub fn canon(&mut self, st: &State, l: &Lin) -> Lin {
        if l.t.is_empty() {
            return l.clone();
        }
        let mut r = Lin::c(l.k);
        let mut same = true;
        for (s, c) in &l.t {
            let x = self.canon_sym(st, *s);
            if x.single() != Some(*s) {
                same = false;
            }
            r = r.axpy(*c, &x);
        }
        if same {
            return l.clone();
        }
        r
    }

    fn canon_sym(&mut self, st: &State, s: Sym) -> Lin {
        if let Some(l) = st.subst.get(&s) {
            let l = l.clone();
            // entries are kept reduced except for terms with arguments
            if l.t.iter().all(|(x, _)| !st.subst.contains_key(x) && self.syms[*x as usize].def.is_none()) {
                return l;
            }
            return self.canon(st, &l);
        }
        let d = match &self.syms[s as usize].def {
            Some(d) => d.clone(),
            None => return Lin::s(s),
        };
        if !d.a.iter().any(|a| matches!(a, TArg::L(l) if !l.is_const())) {
            return Lin::s(s);
        }
        let mut ch = false;
        let a: Vec<TArg> = d
            .a
            .iter()
            .map(|a| match a {
                TArg::L(l) => {
                    let x = self.canon(st, l);
                    if x != *l {
                        ch = true;
                    }
                    TArg::L(x)
                }
                a => a.clone(),
            })
            .collect();
        if !ch {
            return Lin::s(s);
        }
        let (lo, hi) = (self.syms[s as usize].lo, self.syms[s as usize].hi);
        let r = self.remake(d.op, a, lo, hi);
        if r.single() == Some(s) {
            return r;
        }
        self.canon(st, &r)
    }

    pub fn remake_pub(&mut self, op: &'static str, a: Vec<TArg>, lo: Option<i128>, hi: Option<i128>) -> Lin {
        self.remake(op, a, lo, hi)
    }
    fn remake(&mut self, op: &'static str, a: Vec<TArg>, lo: Option<i128>, hi: Option<i128>) -> Lin {
        match (op, &a[..]) {
            ("load", [TArg::N(b), TArg::L(o)]) => {
                let (b, o) = (*b as Buf, o.clone());
                self.load(b, &o)
            }
            ("digit", [TArg::L(x), TArg::N(r), TArg::N(i)]) => {
                if let Some(k) = x.as_const() {
                    return Lin::c((k >> (r * i)) & ((1i128 << r) - 1));
                }
                // digits of the same parent, to keep the defining axiom
                let (x, r, i) = (x.clone(), *r as u32, *i as u32);
                let h = self.range(&x).1.unwrap_or(i128::MAX);
                let n = ((128 - h.leading_zeros() + r - 1) / r).max(i + 1);
                if self.range(&x).0.map_or(true, |l| l < 0) {
                    return Lin::s(self.intern(Def { op, a }, lo, hi));
                }
                self.digits(&x, r, n)[i as usize].clone()
            }
            ("quot", [TArg::L(x), TArg::N(c)]) if x.is_const() => Lin::c(x.k.div_euclid(*c as i128)),
            ("wrap", [TArg::L(x), TArg::N(bits), TArg::N(signed)]) if x.is_const() && *bits < 127 => {
                let m = 1i128 << bits;
                let r = x.k.rem_euclid(m);
                Lin::c(if *signed != 0 && r >= m / 2 { r - m } else { r })
            }
            ("udiv", [TArg::L(x), TArg::L(y)]) if x.is_const() && y.is_const() && y.k != 0 => Lin::c(x.k / y.k),
            ("urem", [TArg::L(x), TArg::L(y)]) if x.is_const() && y.is_const() && y.k != 0 => Lin::c(x.k % y.k),
            ("mul", [TArg::L(x), TArg::L(y)]) if x.is_const() => y.scale(x.k),
            ("mul", [TArg::L(x), TArg::L(y)]) if y.is_const() => x.scale(y.k),
            _ => Lin::s(self.intern(Def { op, a }, lo, hi)),
        }
    }

    pub fn canon_def(&mut self, st: &State, d: &Def) -> Def {
        Def {
            op: d.op,
            a: d.a
                .iter()
                .map(|a| match a {
                    TArg::L(l) => TArg::L(self.canon(st, l)),
                    a => a.clone(),
                })
                .collect(),
        }
    }

    // ---------------------------------------------------------------- linear facts

    fn touch(&mut self, st: &mut State) {
        self.stamp += 1;
        st.stamp = self.stamp;
    }

    fn cone(&mut self, st: &State, goal: &Lin) -> (Vec<Lin>, Vec<Lin>) {
        let mut seen: BTreeSet<Sym> = goal.t.iter().map(|x| x.0).collect();
        let mut done_ax: BTreeSet<Sym> = BTreeSet::new();
        let mut ge = vec![];
        let mut eq = vec![];
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.cons.iter().enumerate() {
                if !used[i] && c.t.iter().any(|x| seen.contains(&x.0)) {
                    used[i] = true;
                    ch = true;
                    for x in &c.t {
                        seen.insert(x.0);
                    }
                    ge.push(c.clone());
                }
            }
            let todo: Vec<Sym> = seen.iter().filter(|s| !done_ax.contains(s)).cloned().collect();
            for s in todo {
                done_ax.insert(s);
                if let Some(ax) = self.axioms.get(&s).cloned() {
                    for (l, e) in ax {
                        let l = self.canon(st, &l);
                        if l.is_const() {
                            continue;
                        }
                        for x in &l.t {
                            if seen.insert(x.0) {
                                ch = true;
                            }
                        }
                        if e {
                            if !eq.contains(&l) {
                                eq.push(l);
                            }
                        } else if !ge.contains(&l) {
                            ge.push(l);
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        (ge, eq)
    }

    /// Does the state entail l >= 0 ?
    pub fn entails(&mut self, st: &State, l: &Lin) -> bool {
        let l = self.canon(st, l).tighten();
        if let Some(k) = l.as_const() {
            return k >= 0;
        }
        if let (Some(lo), _) = self.range(&l) {
            if lo >= 0 {
                return true;
            }
        }
        for c in st.cons.iter() {
            if c.t == l.t && c.k <= l.k {
                return true;
            }
        }
        if let Some(r) = self.cache.get(&(st.stamp, l.clone())) {
            return *r;
        }
        let (mut ge, eq) = self.cone(st, &l);
        ge.push(l.neg().addc(-1));
        self.lp_calls += 1;
        let r = {
            let syms = &self.syms;
            let f = |s: Sym| (syms[s as usize].lo, syms[s as usize].hi);
            infeasible(&ge, &eq, &Bounds { f: &f }).0
        };
        let r = r || self.bits_infeasible(&ge, &eq);
        if self.cache.len() > 400_000 {
            self.cache.clear();
        }
        self.cache.insert((st.stamp, l), r);
        r
    }

    /// Small integer enumeration for constraints over few 0/1 symbols.
    fn bits_infeasible(&self, ge: &[Lin], eq: &[Lin]) -> bool {
        let mut bs: BTreeSet<Sym> = BTreeSet::new();
        let isbit = |s: Sym| {
            let i = &self.syms[s as usize];
            i.lo == Some(0) && i.hi == Some(1)
        };
        let g: Vec<&Lin> = ge.iter().filter(|l| l.t.iter().all(|x| isbit(x.0))).collect();
        let e: Vec<&Lin> = eq.iter().filter(|l| l.t.iter().all(|x| isbit(x.0))).collect();
        for l in g.iter().chain(e.iter()) {
            for x in &l.t {
                bs.insert(x.0);
            }
        }
        if bs.is_empty() || bs.len() > 10 {
            return false;
        }
        let v: Vec<Sym> = bs.into_iter().collect();
        for m in 0u32..(1 << v.len()) {
            let ev = |l: &Lin| -> i128 {
                l.k + l
                    .t
                    .iter()
                    .map(|(s, c)| if (m >> v.iter().position(|x| x == s).unwrap()) & 1 == 1 { *c } else { 0 })
                    .sum::<i128>()
            };
            if g.iter().all(|l| ev(l) >= 0) && e.iter().all(|l| ev(l) == 0) {
                return false;
            }
        }
        true
    }

    /// Adds l >= 0; false if the state becomes infeasible.
    pub fn add_ge(&mut self, st: &mut State, l: &Lin) -> bool {
        let l = self.canon(st, l).tighten();
        if let Some(k) = l.as_const() {
            return k >= 0;
        }
        if self.entails(st, &l) {
            return true;
        }
        if self.entails(st, &l.neg().addc(-1)) {
            return false;
        }
        if self.entails(st, &l.neg()) {
            return self.add_eq(st, &l);
        }
        // drop weaker copies
        {
            let cons = Rc::make_mut(&mut st.cons);
            cons.retain(|c| c.t != l.t);
            cons.push(l.clone());
        }
        self.touch(st);
        self.recheck_ne(st)
    }

    fn recheck_ne(&mut self, st: &mut State) -> bool {
        let ne = st.ne.clone();
        for n in ne.iter() {
            let c = self.canon(st, n);
            if let Some(k) = c.as_const() {
                if k == 0 {
                    return false;
                }
                Rc::make_mut(&mut st.ne).retain(|x| x != n);
                continue;
            }
            if self.entails(st, &c) {
                Rc::make_mut(&mut st.ne).retain(|x| x != n);
                return self.add_ge(st, &c.addc(-1)) && self.recheck_ne(st);
            }
            if self.entails(st, &c.neg()) {
                Rc::make_mut(&mut st.ne).retain(|x| x != n);
                return self.add_ge(st, &c.neg().addc(-1)) && self.recheck_ne(st);
            }
        }
        true
    }

    pub fn add_ne(&mut self, st: &mut State, l: &Lin) -> bool {
        let l = self.canon(st, l);
        if let Some(k) = l.as_const() {
            return k != 0;
        }
        if self.entails(st, &l.addc(-1)) || self.entails(st, &l.neg().addc(-1)) {
            return true;
        }
        if self.entails(st, &l) {
            return self.add_ge(st, &l.addc(-1));
        }
        if self.entails(st, &l.neg()) {
            return self.add_ge(st, &l.neg().addc(-1));
        }
        if !st.ne.contains(&l) && !st.ne.contains(&l.neg()) {
            Rc::make_mut(&mut st.ne).push(l);
            self.touch(st);
        }
        true
    }

    fn occurs(&self, s: Sym, l: &Lin) -> bool {
        l.t.iter().any(|(x, _)| {
            *x == s
                || match &self.syms[*x as usize].def {
                    Some(d) => d.a.iter().any(|a| matches!(a, TArg::L(y) if self.occurs(s, y))),
                    None => false,
                }
        })
    }

    pub fn add_eq(&mut self, st: &mut State, l: &Lin) -> bool {
        let l = self.canon(st, l);
        if let Some(k) = l.as_const() {
            return k == 0;
        }
        let mut g = 0;
        for (_, c) in &l.t {
            g = gcd(g, *c);
        }
        if l.k % g != 0 {
            return false;
        }
        let l = Lin { k: l.k / g, t: l.t.iter().map(|(s, c)| (*s, c / g)).collect() };
        if self.entails(st, &l.addc(-1)) || self.entails(st, &l.neg().addc(-1)) {
            return false;
        }
        // unique decoding of a superincreasing sum of bounded fields
        if let Some(v) = self.decode(&l) {
            match v {
                None => return false,
                Some(asg) => {
                    if l.t.len() > 1 {
                        for (s, x) in asg {
                            if !self.add_eq(st, &Lin::s(s).addc(-x)) {
                                return false;
                            }
                        }
                        return true;
                    }
                }
            }
        }
        // choose a symbol to eliminate: +-1 coefficient, highest id, no circularity
        let mut best: Option<(Sym, Lin)> = None;
        for (s, c) in l.t.iter().rev() {
            if c.abs() != 1 {
                continue;
            }
            let rest = Lin { k: l.k, t: l.t.iter().filter(|x| x.0 != *s).cloned().collect() };
            let rhs = rest.scale(-c);
            if self.occurs(*s, &rhs) {
                continue;
            }
            best = Some((*s, rhs));
            break;
        }
        let (s, rhs) = match best {
            None => {
                let c = Rc::make_mut(&mut st.cons);
                c.push(l.clone());
                c.push(l.neg());
                self.touch(st);
                return self.recheck_ne(st);
            }
            Some(b) => b,
        };
        let (lo, hi) = (self.syms[s as usize].lo, self.syms[s as usize].hi);
        let mut extra: Vec<(Lin, bool)> = vec![];
        if let Some(x) = lo {
            extra.push((rhs.addc(-x), false));
        }
        if let Some(x) = hi {
            extra.push((rhs.neg().addc(x), false));
        }
        if let Some(ax) = self.axioms.get(&s) {
            extra.extend(ax.iter().cloned());
        }
        {
            let sub = Rc::make_mut(&mut st.subst);
            for (_, v) in sub.iter_mut() {
                if v.coef(s) != 0 {
                    *v = v.subst(s, &rhs);
                }
            }
            sub.insert(s, rhs.clone());
        }
        self.touch(st);
        // recanonicalise everything
        let old = st.cons.clone();
        let mut nc: Vec<Lin> = vec![];
        for c in old.iter() {
            let c = self.canon(st, c).tighten();
            match c.as_const() {
                Some(k) if k < 0 => return false,
                Some(_) => {}
                None => {
                    if !nc.contains(&c) {
                        nc.push(c)
                    }
                }
            }
        }
        st.cons = Rc::new(nc);
        let atoms = st.atoms.clone();
        let mut na: BTreeMap<Rc<Def>, bool> = BTreeMap::new();
        for (d, v) in atoms.iter() {
            let d2 = Rc::new(self.canon_def(st, d));
            if let Some(o) = na.get(&d2) {
                if o != v {
                    return false;
                }
            }
            na.insert(d2, *v);
        }
        st.atoms = Rc::new(na);
        self.touch(st);
        for (e, iseq) in extra {
            let ok = if iseq {
                let c = self.canon(st, &e);
                match c.as_const() {
                    Some(k) => k == 0,
                    None => self.add_eq(st, &c),
                }
            } else {
                self.add_ge(st, &e)
            };
            if !ok {
                return false;
            }
        }
        if !self.recheck_ne(st) {
            return false;
        }
        // atoms whose theory is now decided
        let atoms = st.atoms.clone();
        for (d, v) in atoms.iter() {
            if d.op == "beq" {
                if let Some(x) = self.beq_loads(st, d) {
                    if x != *v {
                        return false;
                    }
                }
            }
        }
        self.link_loads(st)
    }

    /// Loads at offsets that became equal are unified by canonicalisation; nothing else to do here.
    fn link_loads(&mut self, _st: &mut State) -> bool {
        true
    }

    /// l == 0 where l = k +- sum 2^i * field: Some(None) = no solution, Some(Some(assignment)) = unique.
    fn decode(&self, l: &Lin) -> Option<Option<Vec<(Sym, i128)>>> {
        if l.t.iter().all(|x| x.1 < 0) {
            return self.decode(&l.neg());
        }
        if l.t.iter().any(|x| x.1 < 0) {
            return None;
        }
        let mut t: Vec<(Sym, i128)> = l.t.clone();
        t.sort_by_key(|x| -x.1);
        let mut rest = -l.k;
        let mut out = vec![];
        for (i, (s, c)) in t.iter().enumerate() {
            let inf = &self.syms[*s as usize];
            if inf.lo != Some(0) || inf.hi.is_none() {
                return None;
            }
            let mut low: i128 = 0;
            for (s2, c2) in &t[i + 1..] {
                low = low.checked_add(self.syms[*s2 as usize].hi?.checked_mul(*c2)?)?;
            }
            if low >= *c {
                return None;
            }
            let x = rest.div_euclid(*c);
            if x < 0 || x > inf.hi? {
                return Some(None);
            }
            rest -= x * c;
            out.push((*s, x));
        }
        if rest != 0 {
            return Some(None);
        }
        Some(Some(out))
    }

    pub fn equal(&mut self, st: &State, a: &Lin, b: &Lin) -> bool {
        let d = self.canon(st, &a.sub(b));
        match d.as_const() {
            Some(k) => k == 0,
            None => self.entails(st, &d) && self.entails(st, &d.neg()),
        }
    }

    // ---------------------------------------------------------------- booleans

    fn beq_loads(&mut self, st: &State, d: &Def) -> Option<bool> {
        if let [TArg::N(b), TArg::L(o), TArg::B(bs)] = &d.a[..] {
            let mut all = true;
            for (i, x) in bs.iter().enumerate() {
                let l = self.load(*b as Buf, &o.addc(i as i128));
                let l = self.canon(st, &l);
                match l.as_const() {
                    Some(k) if k != *x as i128 => return Some(false),
                    Some(_) => {}
                    None => {
                        let e = l.addc(-(*x as i128));
                        if self.entails(st, &e.addc(-1)) || self.entails(st, &e.neg().addc(-1)) {
                            return Some(false);
                        }
                        if st.ne.iter().any(|n| *n == e || *n == e.neg()) {
                            return Some(false);
                        }
                        all = false;
                    }
                }
            }
            if all {
                return Some(true);
            }
        }
        None
    }

    pub fn eval_atom(&mut self, st: &State, d: &Def) -> Option<bool> {
        let d = self.canon_def(st, d);
        if let Some(v) = st.atoms.get(&d) {
            return Some(*v);
        }
        if d.op == "beq" {
            if let Some(v) = self.beq_loads(st, &d) {
                return Some(v);
            }
            if let [TArg::N(b), TArg::L(o), TArg::B(bs)] = &d.a[..] {
                let tag = needle_tag(bs);
                if self.covered(st, &[&tag], *b as Buf, o, &o.addc(1)) {
                    return Some(false);
                }
                // same bytes at a provably equal offset
                let cand: Vec<(Lin, bool)> = st
                    .atoms
                    .iter()
                    .filter(|(k, _)| k.op == "beq" && k.a[0] == d.a[0] && k.a[2] == d.a[2])
                    .filter_map(|(k, v)| if let TArg::L(l) = &k.a[1] { Some((l.clone(), *v)) } else { None })
                    .collect();
                for (l, v) in cand {
                    if self.equal(st, &l, o) {
                        return Some(v);
                    }
                }
            }
        }
        None
    }

    pub fn set_atom(&mut self, st: &mut State, d: &Def, v: bool) -> bool {
        if let Some(x) = self.eval_atom(st, d) {
            return x == v;
        }
        let d = self.canon_def(st, d);
        if d.op == "beq" && v {
            if let [TArg::N(b), TArg::L(o), TArg::B(bs)] = &d.a[..] {
                for (i, x) in bs.iter().enumerate() {
                    let l = self.load(*b as Buf, &o.addc(i as i128)).addc(-(*x as i128));
                    if !self.add_eq(st, &l) {
                        return false;
                    }
                }
            }
        }
        let d = self.canon_def(st, &d);
        Rc::make_mut(&mut st.atoms).insert(Rc::new(d), v);
        self.touch(st);
        true
    }

    /// All feasible refinements of `st` in which `b` has truth value `pol`.
    pub fn assume(&mut self, mut st: State, b: &BE, pol: bool) -> Vec<State> {
        match b {
            BE::C(x) => {
                if *x == pol {
                    vec![st]
                } else {
                    vec![]
                }
            }
            BE::Ge(l) => {
                let ok = if pol { self.add_ge(&mut st, l) } else { self.add_ge(&mut st, &l.neg().addc(-1)) };
                if ok {
                    vec![st]
                } else {
                    vec![]
                }
            }
            BE::Eq(l) => {
                let ok = if pol { self.add_eq(&mut st, l) } else { self.add_ne(&mut st, l) };
                if ok {
                    vec![st]
                } else {
                    vec![]
                }
            }
            BE::Atom(d) => {
                if self.set_atom(&mut st, d, pol) {
                    vec![st]
                } else {
                    vec![]
                }
            }
            BE::Not(x) => self.assume(st, x, !pol),
            BE::And(x, y) => {
                if pol {
                    let mut out = vec![];
                    for s in self.assume(st, x, true) {
                        out.extend(self.assume(s, y, true));
                    }
                    out
                } else {
                    let mut out = self.assume(st.clone(), x, false);
                    for s in self.assume(st, x, true) {
                        out.extend(self.assume(s, y, false));
                    }
                    out
                }
            }
            BE::Or(x, y) => {
                let n = BE::And(Rc::new((**x).clone().not()), Rc::new((**y).clone().not()));
                self.assume(st, &n, !pol)
            }
        }
    }

    pub fn holds(&mut self, st: &State, b: &BE) -> bool {
        self.assume(st.clone(), b, false).is_empty()
    }

    // ---------------------------------------------------------------- interval facts

    /// Is the predicate known to be false (by any of `tags`) on all of [a,b)?
    pub fn covered(&mut self, st: &State, tags: &[&str], buf: Buf, a: &Lin, b: &Lin) -> bool {
        let mut cur = self.canon(st, a);
        let mut left = st.ifacts.len() + 8;
        let mut used = vec![false; st.ifacts.len()];
        loop {
            if self.entails(st, &cur.sub(b)) {
                return true;
            }
            if left == 0 {
                return false;
            }
            left -= 1;
            let mut next: Option<Lin> = None;
            let facts = st.ifacts.clone();
            for (i, f) in facts.iter().enumerate() {
                if used[i] || f.buf != buf || !tags.iter().any(|t| **t == *f.tag) {
                    continue;
                }
                if self.entails(st, &cur.sub(&f.a)) && self.entails(st, &f.b.sub(&cur)) {
                    let nb = self.canon(st, &f.b);
                    used[i] = true;
                    if nb != cur {
                        next = Some(nb);
                        break;
                    }
                }
            }
            match next {
                Some(n) => cur = n,
                None => return false,
            }
        }
    }

    /// As `covered` for one tag, also using what is known about the single positions.
    pub fn covered_at(&mut self, st: &State, tag: &str, needle: &[u8], buf: Buf, a: &Lin, b: &Lin) -> bool {
        let mut cur = self.canon(st, a);
        let mut left = st.ifacts.len() + 40;
        let mut used = vec![false; st.ifacts.len()];
        let tags = [tag];
        loop {
            if self.entails(st, &cur.sub(b)) {
                return true;
            }
            if left == 0 {
                return false;
            }
            left -= 1;
            let mut next: Option<Lin> = None;
            let facts = st.ifacts.clone();
            for (i, f) in facts.iter().enumerate() {
                if used[i] || f.buf != buf || !tags.iter().any(|t| **t == *f.tag) {
                    continue;
                }
                if self.entails(st, &cur.sub(&f.a)) && self.entails(st, &f.b.sub(&cur)) {
                    let nb = self.canon(st, &f.b);
                    used[i] = true;
                    if nb != cur {
                        next = Some(nb);
                        break;
                    }
                }
            }
            if next.is_none() {
                let mut hit = false;
                if !needle.is_empty() {
                    let d = Def { op: "beq", a: vec![TArg::N(buf as u64), TArg::L(cur.clone()), TArg::B(needle.to_vec())] };
                    hit = self.eval_atom(st, &d) == Some(false);
                }
                if !hit && tag == "nv" {
                    let d = Def { op: "V", a: vec![TArg::N(buf as u64), TArg::L(cur.clone())] };
                    hit = self.eval_atom(st, &d) == Some(false);
                }
                if hit {
                    next = Some(cur.addc(1));
                }
            }
            match next {
                Some(n) => cur = n,
                None => return false,
            }
        }
    }

    /// Known occurrences (tag, buffer, position).
    fn occurrences(&self, st: &State) -> Vec<(String, Buf, Lin)> {
        let mut v = vec![];
        for (d, t) in st.atoms.iter() {
            if !*t {
                continue;
            }
            match (d.op, &d.a[..]) {
                ("beq", [TArg::N(b), TArg::L(o), TArg::B(bs)]) => v.push((needle_tag(bs), *b as Buf, o.clone())),
                ("V", [TArg::N(b), TArg::L(o)]) => v.push(("nv".to_string(), *b as Buf, o.clone())),
                _ => {}
            }
        }
        v
    }

    /// Draws the consequences of "occurs at p" and "does not occur in [a,b)"; false if they clash.
    pub fn saturate(&mut self, st: &mut State) -> bool {
        for _ in 0..6 {
            let mut ch = false;
            let occ = self.occurrences(st);
            let facts = st.ifacts.clone();
            for (tag, buf, p) in &occ {
                for f in facts.iter() {
                    if f.buf != *buf || *f.tag != **tag {
                        continue;
                    }
                    let below = f.a.sub(p).addc(-1);
                    let above = p.sub(&f.b);
                    if self.entails(st, &above) || self.entails(st, &below) {
                        continue;
                    }
                    if self.entails(st, &below.neg().addc(-1)) {
                        if !self.add_ge(st, &above) {
                            return false;
                        }
                        ch = true;
                    } else if self.entails(st, &above.neg().addc(-1)) {
                        if !self.add_ge(st, &below) {
                            return false;
                        }
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        true
    }

    /// Positions of occurrences that cannot coincide are different.
    pub fn separate(&mut self, st: &mut State) -> bool {
        for _ in 0..3 {
            let mut pos: Vec<(Buf, Lin)> = vec![];
            for (d, _) in st.atoms.iter() {
                if let ("beq" | "V", [TArg::N(b), TArg::L(o), ..]) = (d.op, &d.a[..]) {
                    let k = (*b as Buf, o.clone());
                    if !pos.contains(&k) {
                        pos.push(k);
                    }
                }
            }
            if pos.len() > 12 {
                break;
            }
            let mut ch = false;
            for i in 0..pos.len() {
                for j in 0..pos.len() {
                    if i == j || pos[i].0 != pos[j].0 {
                        continue;
                    }
                    let d = pos[i].1.sub(&pos[j].1);
                    if d.is_const() || !self.entails(st, &d) || self.entails(st, &d.addc(-1)) {
                        continue;
                    }
                    let mut t = st.clone();
                    if !self.add_eq(&mut t, &d) || self.contradictory(&t) {
                        if !self.add_ge(st, &d.addc(-1)) {
                            return false;
                        }
                        ch = true;
                    }
                }
            }
            if !self.saturate(st) {
                return false;
            }
            if !ch {
                break;
            }
        }
        true
    }

    /// Are the linear facts as a whole contradictory?
    pub fn contradictory(&mut self, st: &State) -> bool {
        let mut g = Lin::c(0);
        for c in st.cons.iter() {
            for (s, _) in &c.t {
                if g.coef(*s) == 0 {
                    g = g.add(&Lin::s(*s));
                }
            }
        }
        let (ge, eq) = self.cone(st, &g);
        let syms = &self.syms;
        let f = |s: Sym| (syms[s as usize].lo, syms[s as usize].hi);
        infeasible(&ge, &eq, &Bounds { f: &f }).0
    }

    /// Is the state infeasible, taking the disjunctive facts into account (a few case splits deep)?
    pub fn refute(&mut self, st: &State, depth: usize) -> bool {
        let mut st = st.clone();
        if !self.saturate(&mut st) || self.contradictory(&st) {
            return true;
        }
        if depth == 0 || std::time::Instant::now() > self.deadline {
            return false;
        }
        let mut splits: Vec<(Lin, Lin)> = vec![];
        let occ = self.occurrences(&st);
        let facts = st.ifacts.clone();
        for (tag, buf, p) in &occ {
            for f in facts.iter() {
                if f.buf == *buf && *f.tag == **tag {
                    let below = f.a.sub(p).addc(-1);
                    let above = p.sub(&f.b);
                    if self.entails(&st, &above) || self.entails(&st, &below) {
                        continue;
                    }
                    if !splits.iter().any(|s| s.0 == below && s.1 == above) {
                        splits.push((below, above));
                    }
                }
            }
        }
        for l in st.ne.iter() {
            splits.push((l.addc(-1), l.neg().addc(-1)));
        }
        splits.truncate(12);
        for (x, y) in splits {
            let mut all = true;
            for l in [x, y] {
                let mut s = st.clone();
                if self.add_ge(&mut s, &l) && !self.refute(&s, depth - 1) {
                    all = false;
                    break;
                }
            }
            if all {
                return true;
            }
        }
        false
    }

    pub fn add_ifact(&mut self, st: &mut State, tag: &str, buf: Buf, a: &Lin, b: &Lin) {
        let a = self.canon(st, a);
        let b = self.canon(st, b);
        let f = IFact { tag: tag.into(), buf, a, b };
        if !st.ifacts.contains(&f) {
            Rc::make_mut(&mut st.ifacts).push(f);
            self.touch(st);
        }
    }
    pub fn add_rfact(&mut self, st: &mut State, tag: &str, buf: Buf, v: Vec<Lin>) {
        let f = RFact { tag: tag.into(), buf, v };
        if !st.rfacts.contains(&f) {
            Rc::make_mut(&mut st.rfacts).push(f);
        }
    }
}

pub fn needle_tag(b: &[u8]) -> String {
    let mut s = String::from("no:");
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
