//! Abstract interpretation of monomorphic MIR: places, values, statements, terminators, calls.
use crate::cfg::{self, Cfg};
use crate::ir::*;
use crate::lin::*;
use crate::state::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub const LOCAL_CRATES: [&str; 4] = ["matchit", "rapiddlt", "ripdlt", "dd_dlt"];
pub const FIRST_OBJ: Obj = 64;
pub const STATIC_OBJ: Obj = 1 << 30;

#[derive(Clone, Debug)]
pub struct Obl {
    pub kind: &'static str,
    pub label: String,
    pub func: String,
    pub span: Span,
    pub harness: String,
    pub ok: bool,
    pub abstracted: bool,
    pub taint: Option<String>,
    pub trace: Vec<String>,
    pub detail: String,
    /// values of a loop variable for which the condition does not hold, whatever the others are
    pub witness: Vec<(crate::lin::Sym, i128)>,
}

pub struct FrameInfo {
    pub inst: InstId,
    pub base: Obj,
    pub n: usize,
    pub span: Span,
}

#[derive(Clone)]
pub struct Fr<'p> {
    pub inst: InstId,
    pub base: Obj,
    pub body: &'p Body,
    pub cfg: Rc<Cfg>,
}

#[derive(Clone, Debug)]
pub enum Lv {
    O(Obj, Vec<Pr>, Ty),
    B(Buf, Lin, Ty),
    T(Ty),
}

pub type Out = Vec<(State, Val)>;

pub struct Eng<'p> {
    pub p: &'p Program,
    pub c: Ctx,
    pub obls: Vec<Obl>,
    pub cfgs: HashMap<InstId, Rc<Cfg>>,
    pub stack: Vec<FrameInfo>,
    pub statics: HashMap<Obj, (Val, Ty)>,
    pub static_ids: HashMap<(usize, Ty), Obj>,
    /// loops are unrolled that many times instead of being abstracted
    pub unroll: Option<usize>,
    /// arbitrary maps hold nothing but the focus key (a smaller search space when unrolling)
    pub small: bool,
    pub arbitrary_maps: bool,
    /// how many more failed conditions are searched for witnesses
    pub witnesses: usize,
    pub harness: String,
    pub steps: u64,
    pub visited: BTreeSet<InstId>,
    pub havocked: BTreeMap<String, usize>,
    pub loops_seen: BTreeMap<(String, usize), usize>,
    pub ty_by_disp: HashMap<String, Ty>,
    pub dbg: bool,
    pub callhist: HashMap<String, u64>,
    pub flat: HashMap<Ty, bool>,
    pub max_steps: u64,
    pub gave_up: Option<String>,
    pub rec_limit: usize,
    pub nondet: u64,
    /// where the states keep their focus keys of types with several shapes
    pub focus_objs: HashMap<Ty, Obj>,
    /// Methods beside the point: name, beginning of the self type, only in foreign states?
    /// The part of the root: which shape of the first focus key with several; and how many there are.
    pub part: usize,
    pub parts: usize,
    pub entered: Option<InstId>,
    pub besides: Vec<(String, String, bool)>,
    pub focus_keys: HashMap<Ty, Option<Val>>,
    /// buffers that exist once
    pub named: HashMap<String, (Buf, crate::lin::Lin)>,
    /// Literals arguments have been compared with.
    pub literals: Vec<Vec<u8>>,
    hnames: HashMap<String, Option<InstId>>,
    hlists: HashMap<String, Rc<Vec<InstId>>>,
}

pub fn range_of(bits: u32, signed: bool) -> (i128, i128) {
    if bits >= 128 {
        return if signed { (i128::MIN, i128::MAX) } else { (0, i128::MAX) };
    }
    if signed {
        (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1)
    } else {
        (0, (1i128 << bits) - 1)
    }
}

impl<'p> Eng<'p> {
    pub fn new(p: &'p Program) -> Eng<'p> {
        let mut ty_by_disp = HashMap::new();
        for (i, t) in p.types.iter().enumerate() {
            ty_by_disp.entry(t.disp.clone()).or_insert(i);
        }
        Eng {
            p,
            c: Ctx::new(),
            obls: vec![],
            cfgs: HashMap::new(),
            stack: vec![],
            statics: HashMap::new(),
            static_ids: HashMap::new(),
            unroll: None,
            small: false,
            arbitrary_maps: false,
            witnesses: 400,
            harness: String::new(),
            steps: 0,
            visited: BTreeSet::new(),
            havocked: BTreeMap::new(),
            loops_seen: BTreeMap::new(),
            ty_by_disp,
            dbg: std::env::var("ABSINT_DEBUG").is_ok(),
            callhist: HashMap::new(),
            flat: HashMap::new(),
            max_steps: 40_000_000,
            gave_up: None,
            rec_limit: 6,
            nondet: 0,
            focus_objs: HashMap::new(),
            part: 0,
            parts: 1,
            entered: None,
            besides: vec![],
            focus_keys: HashMap::new(),
            named: HashMap::new(),
            literals: vec![],
            hnames: HashMap::new(),
            hlists: HashMap::new(),
        }
    }

    /// The harness function of that name.
    pub fn harness_fn(&mut self, name: &str) -> Option<InstId> {
        if let Some(r) = self.hnames.get(name) {
            return *r;
        }
        let r = self.p.insts.iter().position(|x| x.krate == "harness" && x.body.is_some() && crate::models::last(&x.path) == name);
        self.hnames.insert(name.to_string(), r);
        r
    }
    /// The harness functions called `name`, or `name__` and anything.
    pub fn harness_fns(&mut self, name: &str) -> Rc<Vec<InstId>> {
        if let Some(r) = self.hlists.get(name) {
            return r.clone();
        }
        let r: Vec<InstId> = (0..self.p.insts.len())
            .filter(|i| {
                let x = &self.p.insts[*i];
                let l = crate::models::last(&x.path);
                x.krate == "harness" && x.body.is_some() && (l == name || (l.starts_with(name) && l[name.len()..].starts_with("__")))
            })
            .collect();
        let r = Rc::new(r);
        self.hlists.insert(name.to_string(), r.clone());
        r
    }
    pub fn k(&self, t: Ty) -> &'p TyK {
        &self.p.types[t].k
    }
    pub fn is_unit(&self, t: Ty) -> bool {
        self.p.types[t].size == Some(0)
    }
    pub fn bits(&self, t: Ty) -> Option<(u32, bool)> {
        match self.k(t) {
            TyK::Int { bits, signed } => Some((*bits, *signed)),
            TyK::Char => Some((32, false)),
            TyK::Bool => Some((8, false)),
            _ => None,
        }
    }

    // ------------------------------------------------------------ attribution and obligations

    pub fn local_frame(&self) -> (String, Span) {
        for f in self.stack.iter().rev() {
            let i = &self.p.insts[f.inst];
            if LOCAL_CRATES.contains(&i.krate.as_str()) && !f.span.0.contains("/verif/") {
                return (i.path.clone(), f.span.clone());
            }
        }
        match self.stack.last() {
            Some(f) => (self.p.insts[f.inst].path.clone(), f.span.clone()),
            None => (String::new(), (String::new(), 0)),
        }
    }
    fn repo_frame(&self, f: &FrameInfo) -> bool {
        LOCAL_CRATES.contains(&self.p.insts[f.inst].krate.as_str()) || self.p.insts[f.inst].path.contains("::program::")
    }
    /// Is this code of /repo, or an unsafe function it calls directly?
    pub fn unsafe_here(&self) -> bool {
        for (j, f) in self.stack.iter().enumerate().rev() {
            if self.p.insts[f.inst].krate.starts_with("harness") && !self.repo_frame(f) {
                return false;
            }
            if self.repo_frame(f) {
                return match self.stack.get(j + 1) {
                    None => true,
                    Some(g) => self.p.insts[g.inst].uns,
                };
            }
        }
        false
    }
    /// What is read or referred to through a raw pointer has to lie inside of its buffer.
    pub fn inside(&mut self, st: &State, v: &Val, to: Ty) {
        let p = match v {
            Val::Ptr(p) => p.clone(),
            _ => return,
        };
        let (b, off) = match &p.b {
            PB::Buf(b, off) => (*b, off.clone()),
            _ => return,
        };
        let n = match (self.k(to), &p.meta) {
            (TyK::Slice(e), Some(m)) => {
                let s = self.p.size(*e) as i128;
                Lin::c(0).axpy(s, m)
            }
            (TyK::Str, Some(m)) => m.clone(),
            (TyK::Slice(_), None) | (TyK::Str, None) => return,
            _ => Lin::c(self.p.size(to) as i128),
        };
        let len = self.c.bufs[b as usize].len.clone();
        let room = len.sub(&off).sub(&n);
        let ok = self.c.entails(st, &off) && self.c.entails(st, &room);
        if ok {
            self.obl("bounds", "inside of the buffer".into(), None, true, String::new());
        } else {
            // the paths on which it is not
            let be = BE::Ge(room);
            let bad = self.c.assume(st.clone(), &be, false);
            for s in bad {
                self.obl("bounds", "inside of the buffer".into(), Some(&s), false, format!("{} bytes at {} of {}", self.c.show_lin(&n), self.c.show_lin(&off), self.c.show_lin(&len)));
            }
        }
    }
    pub fn in_local(&self) -> bool {
        self.stack.last().map_or(false, |f| LOCAL_CRATES.contains(&self.p.insts[f.inst].krate.as_str()))
    }
    pub fn has_local(&self) -> bool {
        self.stack.iter().any(|f| LOCAL_CRATES.contains(&self.p.insts[f.inst].krate.as_str()))
    }
    pub fn obl(&mut self, kind: &'static str, label: String, st: Option<&State>, ok: bool, detail: String) {
        let (func, span) = self.local_frame();
        // whatever is computed once the budget is exhausted means nothing
        if self.gave_up.is_some() && !ok {
            return;
        }
        if !ok && st.map_or(false, |s| s.foreign) {
            return;
        }
        let ok = ok || st.map_or(false, |s| self.c.refute(s, 2));
        let mut trace = vec![];
        if let (Some(s), false) = (st, ok) {
            let mut t = s.trace.clone();
            while let Some(n) = t {
                trace.push(n.text.clone());
                if trace.len() > 60 {
                    break;
                }
                t = n.prev.clone();
            }
            trace.reverse();
        }
        if self.dbg && !ok {
            eprintln!("OBL {} {} @ {} {}:{} {}", kind, label, func, span.0, span.1, detail);
            let at: Vec<String> = self.stack.iter().rev().take(6).map(|f| format!("{}:{}", crate::models::last(&self.p.insts[f.inst].path), f.span.1)).collect();
            eprintln!("  in {}", at.join(" < "));
            for t in &trace {
                eprintln!("    {}", t);
            }
            if let Some(s) = st {
                for (o, v) in s.mem.range(..FIRST_OBJ) {
                    eprintln!("     ghost {} = {}", o, self.c.show_lin(&match &**v { Val::Int(l) => l.clone(), _ => Lin::c(-1) }));
                }
                self.dump_facts(s);
            }
        }
        self.obls.push(Obl {
            kind,
            label,
            func,
            span,
            harness: self.harness.clone(),
            ok,
            abstracted: st.map_or(true, |s| s.abstracted),
            taint: st.and_then(|s| s.taint.as_ref().map(|t| t.to_string())),
            trace,
            detail,
            witness: vec![],
        });
    }
    pub fn dump_facts(&self, s: &State) {
        eprintln!("   taint={:?} abstracted={}", s.taint, s.abstracted);
        for (k, v) in s.subst.iter() {
            eprintln!("   subst {} = {}", self.c.syms[*k as usize].name, self.c.show_lin(v));
        }
        for c in s.cons.iter() {
            eprintln!("   {} >= 0", self.c.show_lin(c));
        }
        for c in s.ne.iter() {
            eprintln!("   {} != 0", self.c.show_lin(c));
        }
        for (d, v) in s.atoms.iter() {
            eprintln!("   {} = {}", self.c.show_def(d), v);
        }
        for f in s.ifacts.iter() {
            eprintln!("   {} on {}[{} .. {})", f.tag, self.c.bufs[f.buf as usize].name, self.c.show_lin(&f.a), self.c.show_lin(&f.b));
        }
        for f in s.rfacts.iter() {
            eprintln!("   {} {} {:?}", f.tag, self.c.bufs[f.buf as usize].name, f.v.iter().map(|l| self.c.show_lin(l)).collect::<Vec<_>>());
        }
    }

    // ------------------------------------------------------------ fresh values

    pub fn fresh_int(&mut self, t: Ty, name: &str) -> Lin {
        let (lo, hi) = self.p.int_range(t).unwrap_or((i128::MIN >> 4, i128::MAX >> 4));
        self.c.fresh_lin(name, lo, hi)
    }
    pub fn fresh_bool(&mut self, name: &str) -> Val {
        let s = self.c.fresh_lin(name, 0, 1);
        Val::Bool(BE::Eq(s.addc(-1)))
    }

    /// One level of structure for an unknown value; `None` when it has to stay opaque.
    pub fn expand(&mut self, st: &mut State, t: Ty) -> Option<Val> {
        Some(match self.k(t) {
            TyK::Int { .. } | TyK::Char => Val::Int(self.fresh_int(t, "u")),
            TyK::Bool => self.fresh_bool("b"),
            TyK::Struct { path, fields, .. } => {
                if crate::models::opaque_type(path) {
                    return None;
                }
                Val::agg(fields.iter().map(|f| Val::Top(f.1)).collect())
            }
            TyK::Tuple(f) => Val::agg(f.iter().map(|f| Val::Top(*f)).collect()),
            TyK::Closure { fields, .. } => Val::agg(fields.iter().map(|f| Val::Top(*f)).collect()),
            TyK::Array(e, Some(n)) if *n <= 256 => Val::agg(vec![Val::Top(*e); *n]),
            TyK::FnDef { .. } => Val::unit(),
            TyK::Ref(to, _) => match self.k(*to) {
                TyK::Slice(e) if self.p.types[*e].size == Some(1) => {
                    let len = self.c.fresh_lin("len", 0, i64::MAX as i128);
                    let b = self.c.add_buf(BufK::Input, len.clone(), "unk");
                    Val::ptr(PB::Buf(b, Lin::c(0)), Some(len), *e)
                }
                TyK::Str => {
                    let len = self.c.fresh_lin("len", 0, i64::MAX as i128);
                    let b = self.c.add_buf(BufK::Input, len.clone(), "unk");
                    Val::ptr(PB::Buf(b, Lin::c(0)), Some(len), *to)
                }
                TyK::Slice(_) | TyK::Dyn => return None,
                _ => {
                    let o = st.new_obj(Val::Top(*to));
                    Val::ptr(PB::Obj(o, vec![]), None, *to)
                }
            },
            _ => return None,
        })
    }

    /// A single-variant inhabited default for zero-sized values.
    pub fn zst(&self, t: Ty) -> Val {
        match self.k(t) {
            TyK::Struct { fields, .. } => Val::agg(fields.iter().map(|f| self.zst(f.1)).collect()),
            TyK::Tuple(f) => Val::agg(f.iter().map(|f| self.zst(*f)).collect()),
            TyK::Closure { fields, .. } => Val::agg(fields.iter().map(|f| self.zst(*f)).collect()),
            TyK::Array(e, Some(n)) if *n < 4096 => Val::agg((0..*n).map(|_| self.zst(*e)).collect()),
            TyK::FnDef { .. } => Val::unit(),
            _ => Val::Top(t),
        }
    }

    // ------------------------------------------------------------ value trees

    fn child(&mut self, st: &mut State, v: &mut Val, e: &Pr) -> Option<(usize, bool)> {
        // makes sure `v` has structure; returns the index of the child
        if let Val::Top(t) = v {
            let t = *t;
            match e {
                Pr::D(i) => {
                    if let TyK::Enum { vars, .. } = self.k(t) {
                        let f: Vec<Val> = vars[*i].fields.iter().map(|f| Val::Top(f.1)).collect();
                        *v = Val::en(*i, f);
                    } else {
                        return None;
                    }
                }
                _ => match self.expand(st, t) {
                    Some(x) => *v = x,
                    None => return None,
                },
            }
        }
        match (e, &*v) {
            (Pr::F(i), Val::Agg(f)) if *i < f.len() => Some((*i, false)),
            (Pr::F(i), Val::Enum(_, f)) if *i < f.len() => Some((*i, false)),
            (Pr::I(l), Val::Agg(f)) => {
                let l = self.c.canon(st, l);
                let k = l.as_const()?;
                if k >= 0 && (k as usize) < f.len() {
                    Some((k as usize, false))
                } else {
                    None
                }
            }
            (Pr::I(l), _) if l.as_const() == Some(0) => Some((0, true)),
            (Pr::D(_), Val::Enum(..)) => Some((0, true)),
            _ => None,
        }
    }

    /// The value at `path`; Tops on the way are given structure (and stay so in `root`).
    fn get_in(&mut self, st: &mut State, root: &mut Val, path: &[Pr]) -> Option<Val> {
        if path.is_empty() {
            if let Val::Top(t) = root {
                let t = *t;
                if let Some(x) = self.expand(st, t) {
                    *root = x;
                }
            }
            self.deepen(st, root, 0);
            return Some(root.clone());
        }
        let (i, same) = self.child(st, root, &path[0])?;
        if same {
            return self.get_in(st, root, &path[1..]);
        }
        match root {
            Val::Agg(f) | Val::Enum(_, f) => {
                let f = Rc::make_mut(f);
                self.get_in(st, &mut f[i], &path[1..])
            }
            _ => None,
        }
    }
    /// Gives structure to the unknown parts of an aggregate, so that copies of it agree.
    fn deepen(&mut self, st: &mut State, v: &mut Val, d: usize) {
        match v {
            Val::Top(t) if d > 0 => {
                let t = *t;
                if let Some(x) = self.expand(st, t) {
                    *v = x;
                    self.deepen(st, v, d + 1);
                }
            }
            Val::Agg(f) | Val::Enum(_, f) if d < 8 && f.iter().any(has_top) => {
                for x in Rc::make_mut(f).iter_mut() {
                    self.deepen(st, x, d + 1);
                }
            }
            _ => {}
        }
    }
    /// Paths of the unknown enums inside a value.
    fn top_enum(&self, v: &Val, path: &mut Vec<usize>) -> Option<Ty> {
        match v {
            Val::Top(t) if matches!(self.k(*t), TyK::Enum { .. }) => Some(*t),
            Val::Agg(f) | Val::Enum(_, f) => {
                for (i, x) in f.iter().enumerate() {
                    path.push(i);
                    if let Some(t) = self.top_enum(x, path) {
                        return Some(t);
                    }
                    path.pop();
                }
                None
            }
            _ => None,
        }
    }
    fn peek(&self, root: &Val, path: &[Pr]) -> Option<Val> {
        let mut v = root;
        for e in path {
            v = match (e, v) {
                (Pr::F(i), Val::Agg(f)) | (Pr::F(i), Val::Enum(_, f)) => f.get(*i)?,
                (Pr::I(l), Val::Agg(f)) => f.get(l.as_const()? as usize)?,
                (Pr::D(_), Val::Enum(..)) => v,
                _ => return None,
            };
        }
        match v {
            Val::Top(_) => None,
            Val::Agg(f) | Val::Enum(_, f) if f.iter().any(has_top) => None,
            v => Some(v.clone()),
        }
    }
    fn set_in(&mut self, st: &mut State, root: &mut Val, path: &[Pr], new: Val) -> bool {
        if path.is_empty() {
            *root = new;
            return true;
        }
        if let (Pr::D(i), Val::Enum(j, _)) = (&path[0], &*root) {
            if i != j {
                return true;
            }
        }
        match self.child(st, root, &path[0]) {
            None => false,
            Some((_, true)) => self.set_in(st, root, &path[1..], new),
            Some((i, false)) => match root {
                Val::Agg(f) | Val::Enum(_, f) => {
                    let f = Rc::make_mut(f);
                    self.set_in(st, &mut f[i], &path[1..], new)
                }
                _ => false,
            },
        }
    }

    pub fn obj_ty(&self, o: Obj) -> Option<Ty> {
        if o >= STATIC_OBJ {
            return self.statics.get(&o).map(|x| x.1);
        }
        for f in self.stack.iter().rev() {
            if o >= f.base && o < f.base + f.n as Obj {
                return self.p.insts[f.inst].body.as_ref().map(|b| b.locals[(o - f.base) as usize]);
            }
        }
        None
    }

    pub fn read_obj(&mut self, st: &mut State, o: Obj, path: &[Pr], ty: Ty) -> Val {
        if o >= STATIC_OBJ {
            if let Some((v, _)) = self.statics.get(&o) {
                let mut v = v.clone();
                return match self.get_in(st, &mut v, path) { Some(x) => x, None => self.top(st, "read of a static", ty) };
            }
            return self.top(st, "read of a dead object", ty);
        }
        let root = match st.mem.get(&o) {
            Some(r) => r.clone(),
            None => match self.obj_ty(o) {
                Some(t) => Rc::new(Val::Top(t)),
                None => return self.top(st, "read of a dead object", ty),
            },
        };
        if let Some(v) = self.peek(&root, path) {
            return v;
        }
        let mut r = (*root).clone();
        match self.get_in(st, &mut r, path) {
            Some(v) => {
                Rc::make_mut(&mut st.mem).insert(o, Rc::new(r));
                match v {
                    Val::Top(t) if self.p.types[t].disp != self.p.types[ty].disp => {
                        // e.g. a union field read at another type
                        self.top(st, "imprecise read", ty)
                    }
                    v => v,
                }
            }
            None => {
                if let Some(Pr::I(l)) = path.iter().find(|p| matches!(p, Pr::I(l) if !l.is_const())) {
                    let _ = l;
                    return self.top(st, "imprecise read", ty);
                }
                self.top(st, "imprecise read", ty)
            }
        }
    }
    /// An unknown value standing for a known one: nothing that follows can be reported.
    pub fn top(&mut self, st: &mut State, why: &str, ty: Ty) -> Val {
        if self.is_unit(ty) {
            return self.zst(ty);
        }
        if self.dbg && st.taint.is_none() {
            let (f, sp) = (self.stack.last().map(|f| self.p.insts[f.inst].path.clone()), self.stack.last().map(|f| f.span.clone()));
            eprintln!("IMPRECISE {} : {} in {:?} {:?}", why, self.p.types[ty].disp, f, sp);
        }
        st.set_taint(&format!("imprecise {}", why));
        self.fresh_of(st, ty)
    }
    pub fn fresh_of(&mut self, st: &mut State, ty: Ty) -> Val {
        self.expand(st, ty).unwrap_or(Val::Top(ty))
    }

    pub fn write_obj(&mut self, st: &mut State, o: Obj, path: &[Pr], v: Val) {
        if o >= STATIC_OBJ {
            st.set_taint("write to a static");
            return;
        }
        if path.is_empty() {
            Rc::make_mut(&mut st.mem).insert(o, Rc::new(v));
            return;
        }
        let root = st.mem.get(&o).cloned().unwrap_or_else(|| match self.obj_ty(o) {
            Some(t) => Rc::new(Val::Top(t)),
            None => Rc::new(Val::unit()),
        });
        let mut r = (*root).clone();
        drop(root);
        if !self.set_in(st, &mut r, path, v) {
            // unknown position: forget everything below the longest resolvable prefix
            let mut cut = path.len() - 1;
            loop {
                let t = self.peek(&r, &path[..cut]).map(|x| self.widen_val(&x));
                if let Some(x) = t {
                    if self.set_in(st, &mut r, &path[..cut], x) {
                        break;
                    }
                }
                if cut == 0 {
                    if let Some(t) = self.obj_ty(o) {
                        r = Val::Top(t);
                    }
                    break;
                }
                cut -= 1;
            }
            st.set_taint("write at an unresolved position");
        }
        Rc::make_mut(&mut st.mem).insert(o, Rc::new(r));
    }
    /// Forgets array contents (a write at an unknown index).
    fn widen_val(&mut self, v: &Val) -> Val {
        match v {
            Val::Agg(f) => Val::agg(f.iter().map(|x| self.widen_val(x)).collect()),
            Val::Int(_) => Val::Int(self.c.fresh_lin("w", i64::MIN as i128, u64::MAX as i128)),
            Val::Bool(_) => self.fresh_bool("w"),
            x => x.clone(),
        }
    }

    // ------------------------------------------------------------ typed views of byte buffers

    pub fn is_flat(&mut self, t: Ty) -> bool {
        if let Some(b) = self.flat.get(&t) {
            return *b;
        }
        self.flat.insert(t, false);
        let r = match self.k(t) {
            TyK::Int { .. } | TyK::Bool | TyK::Char | TyK::Float => true,
            TyK::Tuple(f) => f.iter().all(|x| self.is_flat(*x)),
            TyK::Struct { fields, .. } => fields.iter().all(|x| self.is_flat(x.1)),
            TyK::Enum { vars, .. } => vars.iter().all(|v| v.fields.iter().all(|x| self.is_flat(x.1))),
            TyK::Array(e, _) | TyK::Slice(e) => self.is_flat(*e),
            TyK::Str => true,
            TyK::FnDef { .. } => true,
            _ => false,
        };
        self.flat.insert(t, r);
        r
    }

    pub fn load_typed(&mut self, st: &mut State, buf: Buf, off: &Lin, t: Ty) -> Val {
        let off = self.c.canon(st, off);
        match self.k(t).clone() {
            TyK::Int { .. } | TyK::Char => {
                let n = self.p.size(t);
                let bs: Vec<Lin> = (0..n).map(|i| self.c.load(buf, &off.addc(i as i128))).collect();
                let bs: Vec<Lin> = bs.iter().map(|b| self.c.canon(st, b)).collect();
                Val::Int(self.compose(&bs, t))
            }
            TyK::Bool => {
                let b = self.c.load(buf, &off);
                Val::Bool(BE::eq(b.addc(-1)))
            }
            TyK::Array(e, Some(n)) if n <= 4096 => {
                let s = self.p.size(e) as i128;
                Val::agg((0..n).map(|i| self.load_typed(st, buf, &off.addc(s * i as i128), e)).collect())
            }
            TyK::Struct { fields, .. } => {
                let offs = self.p.types[t].offsets.clone();
                Val::agg(
                    fields
                        .iter()
                        .enumerate()
                        .map(|(i, f)| self.load_typed(st, buf, &off.addc(*offs.get(i).unwrap_or(&0) as i128), f.1))
                        .collect(),
                )
            }
            TyK::Tuple(fields) => {
                let offs = self.p.types[t].offsets.clone();
                Val::agg(
                    fields
                        .iter()
                        .enumerate()
                        .map(|(i, f)| self.load_typed(st, buf, &off.addc(*offs.get(i).unwrap_or(&0) as i128), *f))
                        .collect(),
                )
            }
            TyK::Enum { vars, .. } => {
                // only for constant bytes
                if let Some((o, s, niche)) = self.p.types[t].tag {
                    let bs: Vec<Lin> = (0..s).map(|i| self.c.load(buf, &off.addc((o + i) as i128))).collect();
                    let mut v: i128 = 0;
                    for (i, b) in bs.iter().enumerate() {
                        match self.c.canon(st, b).as_const() {
                            Some(k) => v |= k << (8 * i),
                            None => return self.top(st, "enum in a byte buffer", t),
                        }
                    }
                    if let Some(i) = self.variant_of_tag(t, v, &niche, s) {
                        let vo = self.p.types[t].voffsets.get(i).cloned().unwrap_or_default();
                        let f = vars[i]
                            .fields
                            .iter()
                            .enumerate()
                            .map(|(j, f)| self.load_typed(st, buf, &off.addc(*vo.get(j).unwrap_or(&0) as i128), f.1))
                            .collect();
                        return Val::en(i, f);
                    }
                }
                self.top(st, "enum in a byte buffer", t)
            }
            _ if self.is_unit(t) => self.zst(t),
            _ => self.top(st, "load of an unsupported type", t),
        }
    }
    pub fn variant_of_tag(&self, t: Ty, v: i128, niche: &Option<(usize, usize, usize, i128)>, size: usize) -> Option<usize> {
        if let TyK::Enum { vars, .. } = self.k(t) {
            match niche {
                None => vars.iter().position(|x| {
                    let d = if size >= 16 { x.discr } else { x.discr.rem_euclid(1i128 << (8 * size)) };
                    d == v
                }),
                Some((unt, a, b, start)) => {
                    let m = if size >= 16 { i128::MAX } else { 1i128 << (8 * size) };
                    let r = (v - start).rem_euclid(m);
                    if r <= (*b as i128 - *a as i128) {
                        Some(a + r as usize)
                    } else {
                        Some(*unt)
                    }
                }
            }
        } else {
            None
        }
    }

    /// little-endian composition of bytes into an integer of type `t`
    pub fn compose(&mut self, bs: &[Lin], t: Ty) -> Lin {
        let (bits, signed) = self.bits(t).unwrap_or((64, false));
        let u = self.compose_u(bs);
        if !signed {
            return u;
        }
        self.sign(&u, bits)
    }
    pub fn sign(&mut self, u: &Lin, bits: u32) -> Lin {
        if let Some(k) = u.as_const() {
            let m = 1i128 << bits;
            let k = k.rem_euclid(m);
            return Lin::c(if k >= m / 2 { k - m } else { k });
        }
        if let Some(s) = u.single() {
            if let Some(d) = self.c.syms[s as usize].def.clone() {
                if d.op == "tc" {
                    if let TArg::L(x) = &d.a[0] {
                        return x.clone();
                    }
                }
            }
        }
        if let (Some(lo), Some(hi)) = self.c.range(u) {
            if lo >= 0 && hi < (1i128 << (bits - 1)) {
                return u.clone();
            }
        }
        // u - 2^bits * (top bit of u)
        if bits % 8 == 0 && bits <= 64 {
            let top = if bits == 8 { u.clone() } else { self.c.digits(u, 8, bits / 8).pop().unwrap() };
            let m = self.c.digits(&top, 1, 8).pop().unwrap();
            return u.axpy(-(1i128 << bits), &m);
        }
        let (lo, hi) = range_of(bits, true);
        Lin::s(self.c.intern(Def { op: "sx", a: vec![TArg::L(u.clone()), TArg::N(bits as u64)] }, Some(lo), Some(hi)))
    }
    pub fn unsign(&mut self, st: &State, x: &Lin, bits: u32) -> Lin {
        if let Some(k) = x.as_const() {
            return Lin::c(k.rem_euclid(1i128 << bits));
        }
        if self.c.entails(st, x) {
            return x.clone();
        }
        if self.c.entails(st, &x.neg().addc(-1)) {
            return x.addc(1i128 << bits);
        }
        if let Some((s, _)) = x.t.iter().find(|t| t.1 == -(1i128 << bits)) {
            if self.c.syms[*s as usize].def.as_ref().map_or(false, |d| d.op == "digit") {
                return x.axpy(1i128 << bits, &Lin::s(*s));
            }
        }
        if let Some(s) = x.single() {
            if let Some(d) = self.c.syms[s as usize].def.clone() {
                if d.op == "sx" {
                    if let TArg::L(u) = &d.a[0] {
                        return u.clone();
                    }
                }
            }
        }
        Lin::s(self.c.intern(
            Def { op: "tc", a: vec![TArg::L(x.clone()), TArg::N(bits as u64)] },
            Some(0),
            Some((1i128 << bits) - 1),
        ))
    }
    fn compose_u(&mut self, bs: &[Lin]) -> Lin {
        // digit(x,8,0..n) recomposes to x
        if bs.len() > 1 {
            if let Some(s) = bs[0].single() {
                if let Some(d) = self.c.syms[s as usize].def.clone() {
                    if d.op == "digit" && d.a[1] == TArg::N(8) && d.a[2] == TArg::N(0) {
                        if let TArg::L(x) = &d.a[0] {
                            let (lo, hi) = self.c.range(x);
                            let fits = lo.map_or(false, |l| l >= 0) && hi.map_or(false, |h| h < (1i128 << (8 * bs.len().min(15))));
                            let all = bs.iter().enumerate().all(|(i, b)| {
                                b.single().map_or(false, |s| match &self.c.syms[s as usize].def {
                                    Some(e) => e.op == "digit" && e.a[0] == d.a[0] && e.a[1] == TArg::N(8) && e.a[2] == TArg::N(i as u64),
                                    None => false,
                                })
                            });
                            if fits && all {
                                return x.clone();
                            }
                        }
                    }
                }
            }
        }
        let mut r = Lin::c(0);
        for (i, b) in bs.iter().enumerate() {
            r = r.axpy(1i128 << (8 * i.min(15)), b);
        }
        r
    }

    pub fn be_to_lin(&mut self, st: &mut State, b: &BE) -> Option<Lin> {
        if let BE::C(x) = b {
            return Some(Lin::c(*x as i128));
        }
        if let BE::Eq(l) = b {
            if l.t.len() == 1 && l.k == -1 && l.t[0].1 == 1 {
                let s = l.t[0].0;
                if self.c.syms[s as usize].lo == Some(0) && self.c.syms[s as usize].hi == Some(1) {
                    return Some(Lin::s(s));
                }
            }
        }
        if self.c.holds(st, b) {
            return Some(Lin::c(1));
        }
        if self.c.holds(st, &b.clone().not()) {
            return Some(Lin::c(0));
        }
        None
    }

    /// The bytes of a value of flat type.
    pub fn to_bytes(&mut self, st: &mut State, v: &Val, t: Ty) -> Option<Vec<Lin>> {
        let n = self.p.types[t].size?;
        if n == 0 {
            return Some(vec![]);
        }
        if n > 4096 {
            return None;
        }
        let v = match v {
            Val::Top(_) => self.fresh_of(st, t),
            v => v.clone(),
        };
        match self.k(t).clone() {
            TyK::Int { bits, signed } => {
                if let Val::Int(l) = &v {
                    let l = self.c.canon(st, l);
                    let l = if signed { self.unsign(st, &l, bits) } else { l };
                    return Some(self.c.digits(&l, 8, n as u32));
                }
                None
            }
            TyK::Bool => {
                if let Val::Bool(b) = &v {
                    return Some(vec![self.be_to_lin(st, b)?]);
                }
                None
            }
            TyK::Array(e, Some(k)) => {
                if let Val::Agg(f) = &v {
                    let mut r = vec![];
                    for i in 0..k {
                        r.extend(self.to_bytes(st, f.get(i)?, e)?);
                    }
                    return Some(r);
                }
                None
            }
            TyK::Struct { fields, .. } => {
                let offs = self.p.types[t].offsets.clone();
                let mut out = vec![Lin::c(0); n];
                if let Val::Agg(f) = &v {
                    for (i, (_, ft)) in fields.iter().enumerate() {
                        let b = self.to_bytes(st, f.get(i)?, *ft)?;
                        for (j, x) in b.into_iter().enumerate() {
                            out[offs[i] + j] = x;
                        }
                    }
                    return Some(out);
                }
                None
            }
            TyK::Union { fields, .. } => {
                if let Val::Agg(f) = &v {
                    let big = fields.iter().find(|f| self.p.types[f.1].size == Some(n))?;
                    return self.to_bytes(st, f.get(0)?, big.1);
                }
                None
            }
            _ => None,
        }
    }
    pub fn from_bytes(&mut self, st: &mut State, bs: &[Lin], t: Ty) -> Val {
        match self.k(t).clone() {
            TyK::Int { .. } | TyK::Char => Val::Int(self.compose(bs, t)),
            TyK::Bool => Val::Bool(BE::eq(bs[0].addc(-1))),
            TyK::Array(e, Some(n)) => {
                let s = self.p.size(e);
                Val::agg((0..n).map(|i| self.from_bytes(st, &bs[i * s..(i + 1) * s], e)).collect())
            }
            TyK::Struct { fields, .. } => {
                let offs = self.p.types[t].offsets.clone();
                Val::agg(
                    fields
                        .iter()
                        .enumerate()
                        .map(|(i, f)| {
                            let s = self.p.size(f.1);
                            self.from_bytes(st, &bs[offs[i]..offs[i] + s], f.1)
                        })
                        .collect(),
                )
            }
            TyK::Union { fields, .. } => {
                let n = self.p.size(t);
                match fields.iter().find(|f| self.p.types[f.1].size == Some(n)) {
                    Some(f) => {
                        let x = self.from_bytes(st, bs, f.1);
                        Val::agg(vec![x])
                    }
                    None => Val::Top(t),
                }
            }
            TyK::Enum { .. } => {
                let b = self.c.add_buf(BufK::Vals(bs.to_vec()), Lin::c(bs.len() as i128), "tmp");
                self.load_typed(st, b, &Lin::c(0), t)
            }
            _ if self.is_unit(t) => self.zst(t),
            _ => Val::Top(t),
        }
    }

    // ------------------------------------------------------------ pointers and places

    /// Re-targets a path to a value of type `have` so that it designates a `want` at the same address.
    pub fn adjust(&self, path: &[Pr], have: Ty, want: Ty) -> Option<Vec<Pr>> {
        if have == want || self.same_ty(have, want) {
            return Some(path.to_vec());
        }
        let mut t = have;
        let mut p = path.to_vec();
        for _ in 0..12 {
            match self.k(t) {
                TyK::Array(e, _) => {
                    p.push(Pr::I(Lin::c(0)));
                    t = *e;
                }
                TyK::Slice(e) => {
                    t = *e;
                }
                TyK::Union { fields, .. } => {
                    let n = self.p.types[t].size;
                    let f = fields.iter().find(|f| self.same_ty(f.1, want)).or_else(|| fields.iter().find(|f| self.p.types[f.1].size == n))?;
                    p.push(Pr::F(0));
                    t = f.1;
                }
                TyK::Struct { fields, .. } => {
                    let offs = &self.p.types[t].offsets;
                    let mut c: Vec<usize> = (0..fields.len())
                        .filter(|i| offs.get(*i) == Some(&0) && self.p.types[fields[*i].1].size != Some(0))
                        .collect();
                    if c.is_empty() {
                        c = (0..fields.len()).filter(|i| self.same_ty(fields[*i].1, want)).collect();
                    }
                    let i = *c.first()?;
                    p.push(Pr::F(i));
                    t = fields[i].1;
                }
                TyK::Tuple(fields) => {
                    let offs = &self.p.types[t].offsets;
                    let i = (0..fields.len()).find(|i| offs.get(*i) == Some(&0) && self.p.types[fields[*i]].size != Some(0))?;
                    p.push(Pr::F(i));
                    t = fields[i];
                }
                _ => return self.ascend(path, have, want),
            }
            if t == want || self.same_ty(t, want) {
                return Some(p);
            }
        }
        None
    }
    /// The path designates a component at offset 0 of a wrapper: drop trailing steps.
    fn ascend(&self, path: &[Pr], _have: Ty, want: Ty) -> Option<Vec<Pr>> {
        if path.is_empty() {
            return None;
        }
        if let Some(Pr::F(_)) = path.last() {
            if let TyK::Struct { fields, .. } = self.k(want) {
                if fields.iter().filter(|f| self.p.types[f.1].size != Some(0)).count() == 1 {
                    return Some(path[..path.len() - 1].to_vec());
                }
            }
            if let TyK::Union { .. } = self.k(want) {
                return Some(path[..path.len() - 1].to_vec());
            }
        }
        None
    }
    pub fn same_ty(&self, a: Ty, b: Ty) -> bool {
        a == b || self.p.types[a].disp == self.p.types[b].disp
    }

    pub fn ptr_to(&mut self, st: &mut State, v: &Val, pointee: Ty) -> (Lv, Option<Lin>) {
        match v {
            Val::Ptr(p) => match &p.b {
                PB::Buf(b, o) => (Lv::B(*b, o.clone(), pointee), p.meta.clone()),
                PB::Obj(o, path) => {
                    // slices over array elements: the element type is what the path designates
                    let want = match self.k(pointee) {
                        TyK::Slice(e) => *e,
                        _ => pointee,
                    };
                    if self.same_ty(p.ty, pointee) {
                        return (Lv::O(*o, path.clone(), pointee), p.meta.clone());
                    }
                    match self.adjust(path, p.ty, want) {
                        Some(np) => (Lv::O(*o, np, pointee), p.meta.clone()),
                        None => {
                            // elements of an array seen as an array
                            if let (TyK::Array(we, Some(n)), Some(Pr::I(k))) = (self.k(want), path.last()) {
                                let (we, n) = (*we, *n);
                                if self.same_ty(we, p.ty) {
                                    let parent = path[..path.len() - 1].to_vec();
                                    let whole = match (st.mem.get(o), k.as_const()) {
                                        (Some(r), Some(0)) => match self.peek(r, &parent) {
                                            Some(Val::Agg(f)) => f.len() == n,
                                            _ => false,
                                        },
                                        _ => false,
                                    };
                                    if whole {
                                        return (Lv::O(*o, parent, pointee), p.meta.clone());
                                    }
                                    if self.is_flat(we) && n <= 256 {
                                        let mut bs = vec![];
                                        let mut ok = true;
                                        for i in 0..n {
                                            let mut q = path.clone();
                                            if let Some(Pr::I(x)) = q.last_mut() {
                                                *x = k.addc(i as i128);
                                            }
                                            let x = self.read_obj(st, *o, &q, we);
                                            match self.to_bytes(st, &x, we) {
                                                Some(b) => bs.extend(b),
                                                None => ok = false,
                                            }
                                        }
                                        if ok {
                                            let m = bs.len() as i128;
                                            let b = self.c.add_buf(BufK::Vals(bs), Lin::c(m), "view");
                                            return (Lv::B(b, Lin::c(0), pointee), p.meta.clone());
                                        }
                                    }
                                }
                            }
                            // bytes of an array seen as a flat type
                            if let (Some(Pr::I(k)), Some(n)) = (path.last(), self.p.types[want].size) {
                                if self.p.types[p.ty].size == Some(1) && self.is_flat(p.ty) && self.is_flat(want) && n <= 256 && n > 0 {
                                    let mut bs = vec![];
                                    for i in 0..n {
                                        let mut q = path.clone();
                                        if let Some(Pr::I(x)) = q.last_mut() {
                                            *x = k.addc(i as i128);
                                        }
                                        let t = p.ty;
                                        let x = self.read_obj(st, *o, &q, t);
                                        match self.to_bytes(st, &x, t) {
                                            Some(b) => bs.extend(b),
                                            None => break,
                                        }
                                    }
                                    if bs.len() == n {
                                        let b = self.c.add_buf(BufK::Vals(bs), Lin::c(n as i128), "view");
                                        return (Lv::B(b, Lin::c(0), pointee), p.meta.clone());
                                    }
                                }
                            }
                            // a byte view of a flat value
                            if self.p.types[want].size == Some(1) && self.is_flat(p.ty) && matches!(self.k(want), TyK::Int { .. }) {
                                let v = self.read_obj(st, *o, path, p.ty);
                                let t = p.ty;
                                if let Some(bs) = self.to_bytes(st, &v, t) {
                                    let n = bs.len() as i128;
                                    let b = self.c.add_buf(BufK::Vals(bs), Lin::c(n), "bytes");
                                    return (Lv::B(b, Lin::c(0), pointee), p.meta.clone());
                                }
                            }
                            // a model value seen through an opaque projection
                            (Lv::T(pointee), p.meta.clone())
                        }
                    }
                }
                PB::Addr(_) => (Lv::T(pointee), p.meta.clone()),
            },
            _ => (Lv::T(pointee), None),
        }
    }

    pub fn place(&mut self, fr: &Fr<'p>, st: &mut State, p: &Place) -> (Lv, Option<Lin>) {
        let mut lv = Lv::O(fr.base + p.l as Obj, vec![], fr.body.locals[p.l]);
        let mut meta: Option<Lin> = None;
        let mut variant: Option<usize> = None;
        for e in &p.p {
            match e {
                Pj::Deref => {
                    let v = self.read(st, &lv);
                    let t = self.lv_ty(&lv);
                    let to = match self.k(t) {
                        TyK::Struct { path, args, .. } if path.ends_with("boxed::Box") => args.first().cloned(),
                        _ => self.p.pointee(t),
                    };
                    let to = match to {
                        Some(x) => x,
                        None => return (Lv::T(t), None),
                    };
                    let v = match v {
                        Val::M(m) if m.kind == "box" => m.v[0].clone(),
                        v => v,
                    };
                    if matches!(self.k(t), TyK::Ptr(..)) && self.unsafe_here() {
                        self.inside(st, &v, to);
                    }
                    let r = self.ptr_to(st, &v, to);
                    lv = r.0;
                    meta = r.1;
                    variant = None;
                }
                Pj::Field(i, ft) => {
                    lv = match lv {
                        Lv::O(o, mut path, t) => {
                            if let TyK::Union { .. } = self.k(t) {
                                path.push(Pr::F(0));
                            } else {
                                path.push(Pr::F(*i));
                            }
                            Lv::O(o, path, *ft)
                        }
                        Lv::B(b, off, t) => {
                            let o = match variant {
                                Some(v) => self.p.types[t].voffsets.get(v).and_then(|x| x.get(*i)).cloned(),
                                None => self.p.types[t].offsets.get(*i).cloned(),
                            };
                            match o {
                                Some(o) => Lv::B(b, off.addc(o as i128), *ft),
                                None if self.is_unit(*ft) => Lv::B(b, off, *ft),
                                None => Lv::T(*ft),
                            }
                        }
                        Lv::T(_) => Lv::T(*ft),
                    };
                    variant = None;
                }
                Pj::Downcast(v) => {
                    if let Lv::O(_, path, _) = &mut lv {
                        path.push(Pr::D(*v));
                    }
                    variant = Some(*v);
                }
                Pj::Index(l) => {
                    let iv = self.read_obj(st, fr.base + *l as Obj, &[], fr.body.locals[*l]);
                    let i = match iv {
                        Val::Int(i) => self.c.canon(st, &i),
                        _ => self.c.fresh_lin("idx", 0, u64::MAX as i128),
                    };
                    lv = self.index(lv, i);
                    meta = None;
                }
                Pj::CIndex(i, from_end) => {
                    let i = if *from_end {
                        match self.len_of(&lv, &meta) {
                            Some(l) => l.addc(-(*i as i128)),
                            None => self.c.fresh_lin("idx", 0, u64::MAX as i128),
                        }
                    } else {
                        Lin::c(*i as i128)
                    };
                    lv = self.index(lv, i);
                    meta = None;
                }
                Pj::Subslice(a, b, from_end) => {
                    let n = self.len_of(&lv, &meta);
                    let t = self.lv_ty(&lv);
                    let len = if *from_end { n.map(|n| n.addc(-(*a as i128) - (*b as i128))) } else { Some(Lin::c(*b as i128 - *a as i128)) };
                    lv = self.index(lv, Lin::c(*a as i128));
                    lv = match lv {
                        Lv::O(o, p, _) => Lv::O(o, p, t),
                        Lv::B(b, o, _) => Lv::B(b, o, t),
                        Lv::T(_) => Lv::T(t),
                    };
                    meta = len;
                }
            }
        }
        (lv, meta)
    }
    fn index(&mut self, lv: Lv, i: Lin) -> Lv {
        match lv {
            Lv::O(o, mut p, t) => match self.k(t) {
                TyK::Array(e, _) => {
                    p.push(Pr::I(i));
                    Lv::O(o, p, *e)
                }
                TyK::Slice(e) => {
                    let e = *e;
                    match p.last_mut() {
                        Some(Pr::I(x)) => *x = x.add(&i),
                        _ => p.push(Pr::I(i)),
                    }
                    Lv::O(o, p, e)
                }
                _ => Lv::T(t),
            },
            Lv::B(b, off, t) => match self.k(t) {
                TyK::Array(e, _) | TyK::Slice(e) => {
                    let s = self.p.size(*e) as i128;
                    Lv::B(b, off.axpy(s, &i), *e)
                }
                _ => Lv::T(t),
            },
            Lv::T(t) => match self.k(t) {
                TyK::Array(e, _) | TyK::Slice(e) => Lv::T(*e),
                _ => Lv::T(t),
            },
        }
    }
    pub fn len_of(&self, lv: &Lv, meta: &Option<Lin>) -> Option<Lin> {
        match self.k(self.lv_ty(lv)) {
            TyK::Array(_, Some(n)) => Some(Lin::c(*n as i128)),
            _ => meta.clone(),
        }
    }
    pub fn lv_ty(&self, lv: &Lv) -> Ty {
        match lv {
            Lv::O(_, _, t) | Lv::B(_, _, t) | Lv::T(t) => *t,
        }
    }
    pub fn read(&mut self, st: &mut State, lv: &Lv) -> Val {
        match lv {
            Lv::O(o, p, t) => self.read_obj(st, *o, p, *t),
            Lv::B(b, off, t) => self.load_typed(st, *b, off, *t),
            Lv::T(t) => {
                if self.is_unit(*t) {
                    return self.zst(*t);
                }
                st.set_taint(&format!("read through an unknown pointer ({})", self.p.types[*t].disp));
                self.fresh_of(st, *t)
            }
        }
    }
    pub fn write(&mut self, st: &mut State, lv: &Lv, v: Val) {
        match lv {
            Lv::O(o, p, _) => self.write_obj(st, *o, p, v),
            Lv::B(_, _, t) | Lv::T(t) => {
                if !self.is_unit(*t) {
                    st.set_taint("write through an unknown pointer");
                }
            }
        }
    }

    // ------------------------------------------------------------ constants

    pub fn konst(&mut self, st: &mut State, k: &Konst) -> Val {
        match &k.alloc {
            None => self.zst(k.ty),
            Some(a) => self.decode(st, a, 0, k.ty),
        }
    }
    fn decode(&mut self, st: &mut State, a: &Alloc, off: usize, t: Ty) -> Val {
        let p = self.p;
        let rd = |o: usize, n: usize| -> Option<i128> {
            let mut v: i128 = 0;
            for i in (0..n).rev() {
                v = (v << 8) | (*a.bytes.get(o + i)?)? as i128;
            }
            Some(v)
        };
        match self.k(t).clone() {
            TyK::Int { bits, signed } => match rd(off, (bits / 8) as usize) {
                Some(v) => {
                    if a.prov.iter().any(|x| x.0 == off) {
                        return Val::Top(t);
                    }
                    let v = if signed && bits < 128 && (v >> (bits - 1)) & 1 == 1 { v - (1i128 << bits) } else { v };
                    Val::c(v)
                }
                None => Val::Top(t),
            },
            TyK::Char => rd(off, 4).map(Val::c).unwrap_or(Val::Top(t)),
            TyK::Bool => rd(off, 1).map(|v| Val::b(v != 0)).unwrap_or(Val::Top(t)),
            TyK::Array(e, Some(n)) if n <= 4096 => {
                let s = p.size(e);
                Val::agg((0..n).map(|i| self.decode(st, a, off + i * s, e)).collect())
            }
            TyK::Tuple(f) => {
                let offs = &p.types[t].offsets;
                Val::agg(f.iter().enumerate().map(|(i, x)| self.decode(st, a, off + offs.get(i).unwrap_or(&0), *x)).collect())
            }
            TyK::Struct { fields, .. } => {
                let offs = &p.types[t].offsets;
                Val::agg(
                    fields.iter().enumerate().map(|(i, x)| self.decode(st, a, off + offs.get(i).unwrap_or(&0), x.1)).collect(),
                )
            }
            TyK::Closure { fields, .. } => {
                let offs = &p.types[t].offsets;
                Val::agg(fields.iter().enumerate().map(|(i, x)| self.decode(st, a, off + offs.get(i).unwrap_or(&0), *x)).collect())
            }
            TyK::Union { fields, .. } => {
                let n = p.types[t].size;
                match fields.iter().find(|f| p.types[f.1].size == n) {
                    Some(f) => {
                        let v = self.decode(st, a, off, f.1);
                        Val::agg(vec![v])
                    }
                    None => Val::Top(t),
                }
            }
            TyK::Enum { vars, .. } => {
                let vi = match &p.types[t].tag {
                    None => vars.iter().position(|_| true),
                    Some((o, s, niche)) => {
                        if a.prov.iter().any(|x| x.0 == off + o) {
                            // a non-null pointer in the niche
                            niche.as_ref().map(|n| n.0)
                        } else {
                            rd(off + o, *s).and_then(|v| self.variant_of_tag(t, v, niche, *s))
                        }
                    }
                };
                match vi {
                    Some(i) if i < vars.len() => {
                        let vo = p.types[t].voffsets.get(i).cloned().unwrap_or_default();
                        let f = vars[i]
                            .fields
                            .iter()
                            .enumerate()
                            .map(|(j, f)| self.decode(st, a, off + vo.get(j).unwrap_or(&0), f.1))
                            .collect();
                        Val::en(i, f)
                    }
                    _ => Val::Top(t),
                }
            }
            TyK::Ref(to, _) | TyK::Ptr(to, _) => {
                let meta = match self.k(to) {
                    TyK::Slice(_) | TyK::Str => rd(off + 8, 8).map(Lin::c),
                    _ => None,
                };
                let pr = a.prov.iter().find(|x| x.0 == off).map(|x| x.1);
                let addend = rd(off, 8).unwrap_or(0);
                match pr {
                    None => {
                        if matches!(self.k(to), TyK::Slice(_) | TyK::Str) && meta == Some(Lin::c(0)) {
                            let b = self.c.const_buf(&[]);
                            return Val::ptr(PB::Buf(b, Lin::c(0)), meta, to);
                        }
                        if self.is_unit(to) {
                            let z = self.zst(to);
                            let o = STATIC_OBJ + self.statics.len() as Obj;
                            self.statics.insert(o, (z, to));
                            return Val::ptr(PB::Obj(o, vec![]), meta, to);
                        }
                        Val::ptr(PB::Addr(Lin::c(addend)), meta, to)
                    }
                    Some(id) => match &p.allocs[id] {
                        AllocK::Mem(m) => {
                            let flat = self.is_flat(to) && m.prov.is_empty() && m.bytes.iter().all(|b| b.is_some());
                            if flat {
                                let bytes: Vec<u8> = m.bytes.iter().map(|b| b.unwrap()).collect();
                                let b = self.c.const_buf(&bytes);
                                return Val::ptr(PB::Buf(b, Lin::c(addend)), meta, to);
                            }
                            let key = (id, to);
                            let o = match self.static_ids.get(&key) {
                                Some(o) => *o,
                                None => {
                                    let v = match self.k(to) {
                                        TyK::Slice(e) => {
                                            let e = *e;
                                            let s = p.size(e).max(1);
                                            let n = meta.as_ref().and_then(|m| m.as_const()).unwrap_or(0) as usize;
                                            let v = (0..n).map(|i| self.decode(st, m, addend as usize + i * s, e)).collect();
                                            Val::agg(v)
                                        }
                                        _ => self.decode(st, m, addend as usize, to),
                                    };
                                    let o = STATIC_OBJ + self.statics.len() as Obj;
                                    self.statics.insert(o, (v, to));
                                    self.static_ids.insert(key, o);
                                    o
                                }
                            };
                            match self.k(to) {
                                TyK::Slice(e) => Val::ptr(PB::Obj(o, vec![Pr::I(Lin::c(0))]), meta, *e),
                                _ => Val::ptr(PB::Obj(o, vec![]), meta, to),
                            }
                        }
                        AllocK::Fn(i) => Val::Fn(*i),
                        AllocK::Static(_, sty) => {
                            let key = (id, *sty);
                            let o = match self.static_ids.get(&key) {
                                Some(o) => *o,
                                None => {
                                    let o = STATIC_OBJ + self.statics.len() as Obj;
                                    self.statics.insert(o, (Val::Top(*sty), *sty));
                                    self.static_ids.insert(key, o);
                                    o
                                }
                            };
                            Val::ptr(PB::Obj(o, vec![]), meta, *sty)
                        }
                        AllocK::Other => Val::Top(t),
                    },
                }
            }
            TyK::FnPtr => {
                if let Some((_, id)) = a.prov.iter().find(|x| x.0 == off) {
                    if let AllocK::Fn(i) = &p.allocs[*id] {
                        return Val::Fn(*i);
                    }
                }
                Val::Top(t)
            }
            _ if self.is_unit(t) => self.zst(t),
            _ => Val::Top(t),
        }
    }

    pub fn op(&mut self, fr: &Fr<'p>, st: &mut State, o: &Op) -> Val {
        match o {
            Op::Copy(p) => {
                let (lv, _) = self.place(fr, st, p);
                self.read(st, &lv)
            }
            Op::Const(k) => self.konst(st, k),
            Op::RtCheck(ub) => Val::b(*ub && self.unsafe_here()),
        }
    }
    pub fn op_ty(&self, fr: &Fr<'p>, o: &Op) -> Ty {
        match o {
            Op::Copy(p) => self.place_ty(fr.body, p),
            Op::Const(k) => k.ty,
            Op::RtCheck(_) => self.ty_by_disp.get("bool").cloned().unwrap_or(0),
        }
    }
    pub fn place_ty(&self, body: &Body, p: &Place) -> Ty {
        let mut t = body.locals[p.l];
        for e in &p.p {
            t = match e {
                Pj::Deref => match self.k(t) {
                    TyK::Struct { args, .. } => *args.first().unwrap_or(&t),
                    _ => self.p.pointee(t).unwrap_or(t),
                },
                Pj::Field(_, ft) => *ft,
                Pj::Index(_) | Pj::CIndex(..) => match self.k(t) {
                    TyK::Array(e, _) | TyK::Slice(e) => *e,
                    _ => t,
                },
                _ => t,
            };
        }
        t
    }

    pub fn int(&mut self, st: &mut State, v: &Val) -> Option<Lin> {
        match v {
            Val::Int(l) => Some(self.c.canon(st, l)),
            Val::Bool(b) => self.be_to_lin(st, b),
            Val::Agg(f) if f.len() == 1 => {
                let x = f[0].clone();
                self.int(st, &x)
            }
            Val::Agg(f) => {
                let c: Vec<&Val> = f.iter().filter(|x| !matches!(x, Val::Agg(g) if g.is_empty())).collect();
                if c.len() == 1 {
                    let x = c[0].clone();
                    self.int(st, &x)
                } else {
                    None
                }
            }
            Val::Ptr(p) => Some(self.addr(st, p)),
            Val::Enum(_, _) => None,
            _ => None,
        }
    }
    pub fn addr(&mut self, _st: &mut State, p: &PtrV) -> Lin {
        match &p.b {
            PB::Addr(l) => l.clone(),
            PB::Buf(b, o) => {
                let s = self.c.intern(Def { op: "base", a: vec![TArg::N(*b as u64)] }, Some(1), Some(1 << 62));
                Lin::s(s).add(o)
            }
            PB::Obj(o, path) => {
                let mut a = vec![TArg::N(*o as u64)];
                for e in path {
                    match e {
                        Pr::F(i) => a.push(TArg::N(*i as u64)),
                        Pr::D(i) => a.push(TArg::N(*i as u64 + 1000)),
                        Pr::I(l) => a.push(TArg::L(l.clone())),
                    }
                }
                let s = self.c.intern(Def { op: "oaddr", a }, Some(1), Some(1 << 62));
                Lin::s(s)
            }
        }
    }

    // ------------------------------------------------------------ arithmetic

    /// Result of a mathematically exact value reduced to the type.
    pub fn wrap(&mut self, st: &State, l: Lin, bits: u32, signed: bool) -> Lin {
        let l = self.c.canon(st, &l);
        let (lo, hi) = range_of(bits, signed);
        if let Some(k) = l.as_const() {
            if k >= lo && k <= hi {
                return l;
            }
            if bits >= 127 {
                return l;
            }
            let m = 1i128 << bits;
            let r = k.rem_euclid(m);
            return Lin::c(if signed && r >= m / 2 { r - m } else { r });
        }
        if self.c.entails(st, &l.addc(-lo)) && self.c.entails(st, &l.neg().addc(hi)) {
            return l;
        }
        if !signed && bits < 127 {
            // reduction modulo 2^bits of a non-negative value
            if let (Some(a), Some(b)) = self.c.range(&l) {
                if a >= 0 && b < (1i128 << 100) {
                    let total = 128 - b.leading_zeros();
                    if total <= 64 && bits % 8 == 0 {
                        let ds = self.c.digits(&l, 8, (total + 7) / 8);
                        let mut r = Lin::c(0);
                        for (i, d) in ds.iter().enumerate().take((bits / 8) as usize) {
                            r = r.axpy(1i128 << (8 * i), d);
                        }
                        return r;
                    }
                }
            }
        }
        let s = self.c.intern(
            Def { op: "wrap", a: vec![TArg::L(l), TArg::N(bits as u64), TArg::N(signed as u64)] },
            Some(lo),
            Some(hi),
        );
        Lin::s(s)
    }

    pub fn bits_of(&mut self, st: &State, x: &Lin, bits: u32) -> Vec<Lin> {
        let d = self.c.digits(x, 1, bits);
        d.iter().map(|l| self.c.canon(st, l)).collect()
    }
    fn from_bits(&self, b: &[Lin]) -> Lin {
        let mut r = Lin::c(0);
        for (i, x) in b.iter().enumerate() {
            r = r.axpy(1i128 << i, x);
        }
        r
    }

    pub fn mul(&mut self, a: &Lin, b: &Lin) -> Lin {
        if let Some(k) = a.as_const() {
            return b.scale(k);
        }
        if let Some(k) = b.as_const() {
            return a.scale(k);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let (ra, rb) = (self.c.range(a), self.c.range(b));
        let (mut lo, mut hi) = (None, None);
        if let ((Some(a0), Some(a1)), (Some(b0), Some(b1))) = (ra, rb) {
            let c: Vec<Option<i128>> = vec![a0.checked_mul(b0), a0.checked_mul(b1), a1.checked_mul(b0), a1.checked_mul(b1)];
            if c.iter().all(|x| x.map_or(false, |v| v.abs() < (1i128 << 118))) {
                lo = c.iter().map(|x| x.unwrap()).min();
                hi = c.iter().map(|x| x.unwrap()).max();
            } else if a0 >= 0 && b0 >= 0 {
                lo = a0.checked_mul(b0);
            }
        }
        Lin::s(self.c.intern(Def { op: "mul", a: vec![TArg::L(a.clone()), TArg::L(b.clone())] }, lo, hi))
    }
    pub fn div(&mut self, st: &State, a: &Lin, b: &Lin) -> Lin {
        if let Some(k) = b.as_const() {
            if let Some(x) = a.as_const() {
                return Lin::c(x / k);
            }
            if k > 0 && self.c.entails(st, a) {
                if let Some((n, w)) = self.small_pow2(a, k) {
                    return self.shift(st, "Shr", a, n, w);
                }
                return self.quot(a, k);
            }
        }
        let (_, h) = self.c.range(a);
        if self.c.entails(st, a) && self.c.entails(st, &b.addc(-1)) {
            return Lin::s(self.c.intern(Def { op: "udiv", a: vec![TArg::L(a.clone()), TArg::L(b.clone())] }, Some(0), h));
        }
        Lin::s(self.c.intern(Def { op: "sdiv", a: vec![TArg::L(a.clone()), TArg::L(b.clone())] }, None, None))
    }
    /// Division of a narrow value by a power of two: bit fields rather than quotients.
    fn small_pow2(&self, a: &Lin, k: i128) -> Option<(u32, u32)> {
        if k.count_ones() != 1 || k == 1 {
            return None;
        }
        let n = k.trailing_zeros();
        let (lo, hi) = self.c.range(a);
        let (lo, hi) = (lo?, hi?);
        if lo < 0 {
            return None;
        }
        if hi < 256 && n < 8 {
            return Some((n, 8));
        }
        if hi < 65536 && n < 16 {
            return Some((n, 16));
        }
        if n % 8 == 0 && hi < (1i128 << 32) && n < 32 && a.t.len() <= 4 {
            return Some((n, 32));
        }
        None
    }
    pub fn quot(&mut self, a: &Lin, k: i128) -> Lin {
        if k == 1 {
            return a.clone();
        }
        // exact multiples
        if a.t.iter().all(|t| t.1 % k == 0) {
            return Lin { k: a.k.div_euclid(k), t: a.t.iter().map(|(s, c)| (*s, c / k)).collect() };
        }
        let (lo, hi) = self.c.range(a);
        let s = self.c.intern(
            Def { op: "quot", a: vec![TArg::L(a.clone()), TArg::N(k as u64)] },
            Some(lo.map_or(0, |x| x.max(0).div_euclid(k))),
            hi.map(|x| x.div_euclid(k)),
        );
        Lin::s(s)
    }
    pub fn rem(&mut self, st: &State, a: &Lin, b: &Lin) -> Lin {
        if let Some(k) = b.as_const() {
            if let Some(x) = a.as_const() {
                return Lin::c(x % k);
            }
            if k > 0 && self.c.entails(st, a) {
                if let Some((n, w)) = self.small_pow2(a, k) {
                    if n % 8 == 0 {
                        let q = self.shift(st, "Shr", a, n, w);
                        return a.axpy(-k, &q);
                    }
                    let b = self.bits_of(st, a, w);
                    return self.from_bits(&b[..n as usize]);
                }
                let q = self.quot(a, k);
                return a.axpy(-k, &q);
            }
        }
        if self.c.entails(st, a) && self.c.entails(st, &b.addc(-1)) {
            let (_, h) = self.c.range(a);
            return Lin::s(self.c.intern(Def { op: "urem", a: vec![TArg::L(a.clone()), TArg::L(b.clone())] }, Some(0), h));
        }
        Lin::s(self.c.intern(Def { op: "srem", a: vec![TArg::L(a.clone()), TArg::L(b.clone())] }, None, None))
    }

    pub fn bitop(&mut self, st: &State, op: &str, a: &Lin, b: &Lin, bits: u32) -> Lin {
        if let (Some(x), Some(y)) = (a.as_const(), b.as_const()) {
            return Lin::c(match op {
                "BitAnd" => x & y,
                "BitOr" => x | y,
                _ => x ^ y,
            });
        }
        let (a, b) = if b.is_const() { (a, b) } else { (b, a) };
        if let (Some(m), true) = (b.as_const(), bits > 16) {
            // masks on wide words without going down to single bits
            let full = if bits >= 127 { i128::MAX } else { (1i128 << bits) - 1 };
            if op == "BitAnd" && m == 0 {
                return Lin::c(0);
            }
            if op == "BitAnd" && m == full || (op != "BitAnd" && m == 0) {
                return a.clone();
            }
            if op == "BitAnd" && m > 0 && (m + 1).count_ones() == 1 {
                let q = self.quot(a, m + 1);
                return a.axpy(-(m + 1), &q);
            }
            if op == "BitAnd" && m > 0 {
                let h = full ^ m;
                if (h + 1).count_ones() == 1 {
                    // clears the low bits
                    let q = self.quot(a, h + 1);
                    return q.scale(h + 1);
                }
            }
        }
        if bits > 64 {
            let s = self.c.fresh_lin("bit", 0, i128::MAX >> 4);
            return s;
        }
        // sums of disjoint fields need no bit decomposition
        if op != "BitAnd" {
            let (ra, rb) = (self.c.range(a), self.c.range(b));
            if let ((Some(a0), Some(a1)), (Some(b0), Some(b1))) = (ra, rb) {
                if a0 >= 0 && b0 >= 0 {
                    let low = |l: &Lin| -> u32 {
                        let mut z = if l.k == 0 { 127 } else { l.k.trailing_zeros() };
                        for t in &l.t {
                            z = z.min(t.1.trailing_zeros());
                        }
                        z
                    };
                    let wid = |x: i128| 128 - x.leading_zeros();
                    if low(a) >= wid(b1) || low(b) >= wid(a1) {
                        return a.add(b);
                    }
                }
            }
        }
        let x = self.bits_of(st, a, bits);
        let y = self.bits_of(st, b, bits);
        let mut r = vec![];
        for i in 0..bits as usize {
            let (p, q) = (&x[i], &y[i]);
            let z = match (op, p.as_const(), q.as_const()) {
                ("BitAnd", Some(0), _) | ("BitAnd", _, Some(0)) => Lin::c(0),
                ("BitAnd", Some(_), _) => q.clone(),
                ("BitAnd", _, Some(_)) => p.clone(),
                ("BitOr", Some(0), _) | ("BitXor", Some(0), _) => q.clone(),
                ("BitOr", _, Some(0)) | ("BitXor", _, Some(0)) => p.clone(),
                ("BitOr", Some(_), _) | ("BitOr", _, Some(_)) => Lin::c(1),
                ("BitXor", Some(_), _) => q.neg().addc(1),
                ("BitXor", _, Some(_)) => p.neg().addc(1),
                (_, _, _) if p == q => {
                    if op == "BitXor" {
                        Lin::c(0)
                    } else {
                        p.clone()
                    }
                }
                ("BitAnd", _, _) => Lin::s(self.c.intern(Def { op: "band", a: vec![TArg::L(p.clone()), TArg::L(q.clone())] }, Some(0), Some(1))),
                ("BitOr", _, _) => Lin::s(self.c.intern(Def { op: "bor", a: vec![TArg::L(p.clone()), TArg::L(q.clone())] }, Some(0), Some(1))),
                _ => Lin::s(self.c.intern(Def { op: "bxor", a: vec![TArg::L(p.clone()), TArg::L(q.clone())] }, Some(0), Some(1))),
            };
            r.push(z);
        }
        self.from_bits(&r)
    }

    pub fn shift(&mut self, st: &State, op: &str, a: &Lin, n: u32, bits: u32) -> Lin {
        if let Some(k) = a.as_const() {
            let m = if bits >= 127 { i128::MAX } else { (1i128 << bits) - 1 };
            return Lin::c(if op == "Shl" { (k << n) & m } else { k >> n });
        }
        if n == 0 {
            return a.clone();
        }
        if op == "Shl" {
            if let (_, Some(h)) = self.c.range(a) {
                if h.leading_zeros() > n + 1 && (h << n) < (1i128 << bits.min(126)) {
                    return a.scale(1i128 << n);
                }
            }
            let v = a.scale(1i128 << n);
            if self.c.entails(st, &v.neg().addc((1i128 << bits.min(126)) - 1)) {
                return v;
            }
            if bits <= 64 {
                let b = self.bits_of(st, a, bits);
                let mut r = vec![Lin::c(0); n as usize];
                r.extend(b.into_iter().take((bits - n) as usize));
                return self.from_bits(&r);
            }
            return self.wrap(st, v, bits, false);
        }
        if bits <= 16 {
            let b = self.bits_of(st, a, bits);
            return self.from_bits(&b[n as usize..]);
        }
        if n % 8 == 0 && bits <= 64 {
            let d = self.c.digits(a, 8, bits / 8);
            let mut r = Lin::c(0);
            for (i, x) in d.iter().enumerate().skip((n / 8) as usize) {
                r = r.axpy(1i128 << (8 * i - n as usize), x);
            }
            return self.c.canon(st, &r);
        }
        self.quot(a, 1i128 << n)
    }

    pub fn cmp(&mut self, op: &str, a: &Lin, b: &Lin) -> BE {
        match op {
            "Eq" => BE::eq(a.sub(b)),
            "Ne" => BE::eq(a.sub(b)).not(),
            "Lt" => BE::lt(a, b),
            "Le" => BE::le(a, b),
            "Gt" => BE::lt(b, a),
            _ => BE::le(b, a),
        }
    }

    fn ptr_cmp(&mut self, st: &mut State, op: &str, p: &PtrV, q: &PtrV) -> BE {
        match (&p.b, &q.b) {
            (PB::Buf(a, x), PB::Buf(b, y)) if a == b => self.cmp(op, x, y),
            (PB::Obj(a, x), PB::Obj(b, y)) if a == b => {
                let n = x.len();
                if n == y.len() && n > 0 && x[..n - 1] == y[..n - 1] {
                    if let (Pr::I(i), Pr::I(j)) = (&x[n - 1], &y[n - 1]) {
                        return self.cmp(op, i, j);
                    }
                }
                if x == y {
                    return BE::C(matches!(op, "Eq" | "Le" | "Ge"));
                }
                if x.len() + 1 == y.len() && y[..n] == x[..] {
                    if let Pr::I(j) = &y[n] {
                        return self.cmp(op, &Lin::c(0), j);
                    }
                }
                if y.len() + 1 == x.len() && x[..y.len()] == y[..] {
                    if let Pr::I(j) = &x[y.len()] {
                        return self.cmp(op, j, &Lin::c(0));
                    }
                }
                let (a, b) = (self.addr(st, p), self.addr(st, q));
                self.cmp(op, &a, &b)
            }
            (PB::Obj(..), PB::Obj(..)) if op == "Eq" => BE::C(false),
            (PB::Obj(..), PB::Obj(..)) if op == "Ne" => BE::C(true),
            _ => {
                let (a, b) = (self.addr(st, p), self.addr(st, q));
                self.cmp(op, &a, &b)
            }
        }
    }

    pub fn ptr_offset(&mut self, st: &mut State, p: &PtrV, elem: Ty, n: &Lin) -> Val {
        let s = self.p.size(elem) as i128;
        let b = match &p.b {
            PB::Buf(b, o) => PB::Buf(*b, o.axpy(s, n)),
            PB::Addr(l) => PB::Addr(l.axpy(s, n)),
            PB::Obj(o, path) => {
                let mut path = if self.same_ty(p.ty, elem) { path.clone() } else { self.adjust(path, p.ty, elem).unwrap_or(path.clone()) };
                if n.as_const() == Some(0) {
                } else if let Some(Pr::I(x)) = path.last_mut() {
                    *x = x.add(n);
                } else {
                    path.push(Pr::I(n.clone()));
                }
                return Val::ptr(PB::Obj(*o, path), p.meta.clone(), elem);
            }
        };
        let _ = st;
        Val::ptr(b, p.meta.clone(), p.ty)
    }

    fn binop(&mut self, st: &mut State, op: &str, a: &Val, b: &Val, ta: Ty, tr: Ty) -> Val {
        let (op, unchecked) = match op.strip_suffix("Unchecked") {
            Some(o) => (o, true),
            None => (op, false),
        };
        if op == "Offset" {
            if let (Val::Ptr(p), Some(n)) = (a, self.int(st, b)) {
                if let Some(e) = self.p.pointee(ta) {
                    return self.ptr_offset(st, p, e, &n);
                }
            }
            return self.top(st, "offset", tr);
        }
        let is_cmp = matches!(op, "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge");
        if is_cmp {
            if let (Val::Bool(x), Val::Bool(y)) = (a, b) {
                let same = BE::or(BE::and(x.clone(), y.clone()), BE::and(x.clone().not(), y.clone().not()));
                return Val::Bool(match op {
                    "Eq" => same,
                    "Ne" => same.not(),
                    "Lt" => BE::and(x.clone().not(), y.clone()),
                    "Le" => BE::or(x.clone().not(), y.clone()),
                    "Gt" => BE::and(x.clone(), y.clone().not()),
                    _ => BE::or(x.clone(), y.clone().not()),
                });
            }
            if let (Val::Ptr(p), Val::Ptr(q)) = (a, b) {
                return Val::Bool(self.ptr_cmp(st, op, p, q));
            }
            return match (self.int(st, a), self.int(st, b)) {
                (Some(x), Some(y)) => Val::Bool(self.cmp(op, &x, &y)),
                _ => self.fresh_bool("cmp"),
            };
        }
        if let (Val::Bool(x), Val::Bool(y)) = (a, b) {
            return Val::Bool(match op {
                "BitAnd" => BE::and(x.clone(), y.clone()),
                "BitOr" => BE::or(x.clone(), y.clone()),
                _ => BE::or(BE::and(x.clone(), y.clone().not()), BE::and(x.clone().not(), y.clone())),
            });
        }
        let (bits, signed) = match self.bits(tr) {
            Some(x) => x,
            None => return self.top(st, "binop", tr),
        };
        let (x, y) = match (self.int(st, a), self.int(st, b)) {
            (Some(x), Some(y)) => (x, y),
            _ => return self.top(st, "binop", tr),
        };
        let r = match op {
            "Add" => x.add(&y),
            "Sub" => x.sub(&y),
            "Mul" => self.mul(&x, &y),
            "Div" => self.div(st, &x, &y),
            "Rem" => self.rem(st, &x, &y),
            "BitAnd" | "BitOr" | "BitXor" => {
                if signed && !(self.c.entails(st, &x) && self.c.entails(st, &y)) {
                    return self.top(st, "binop", tr);
                }
                self.bitop(st, op, &x, &y, bits)
            }
            "Shl" | "Shr" => match y.as_const() {
                Some(n) if n >= 0 && !(signed && !self.c.entails(st, &x)) => {
                    let n = (n as u32) & (bits - 1);
                    let r = self.shift(st, op, &x, n, bits);
                    if signed && op == "Shl" {
                        return Val::Int(self.wrap(st, r, bits, signed));
                    }
                    return Val::Int(r);
                }
                _ => return self.top(st, "binop", tr),
            },
            _ => return self.top(st, "binop", tr),
        };
        if unchecked || matches!(op, "BitAnd" | "BitOr" | "BitXor") {
            return Val::Int(r);
        }
        Val::Int(self.wrap(st, r, bits, signed))
    }

    // ------------------------------------------------------------ casts

    fn sole_field(&self, t: Ty) -> Option<(usize, Ty, Vec<Ty>)> {
        let fs: Vec<Ty> = match self.k(t) {
            TyK::Struct { path, fields, .. } if !crate::models::opaque_type(path) => fields.iter().map(|f| f.1).collect(),
            TyK::Tuple(f) => f.clone(),
            _ => return None,
        };
        let big: Vec<usize> = (0..fs.len()).filter(|i| self.p.types[fs[*i]].size != Some(0)).collect();
        if big.len() == 1 {
            Some((big[0], fs[big[0]], fs))
        } else {
            None
        }
    }
    pub fn transmute(&mut self, st: &mut State, v: Val, from: Ty, to: Ty) -> Val {
        if self.same_ty(from, to) {
            return v;
        }
        if let Val::M(_) = v {
            return v;
        }
        if let (TyK::Ref(..) | TyK::Ptr(..), TyK::Ref(..) | TyK::Ptr(..)) = (self.k(from), self.k(to)) {
            return v;
        }
        if let (TyK::Array(a, n), TyK::Array(b, k), Val::Agg(f)) = (self.k(from).clone(), self.k(to).clone(), &v) {
            if n == k && self.p.types[a].size == self.p.types[b].size {
                let f: Vec<Val> = f.to_vec();
                let f = f.into_iter().map(|x| self.transmute(st, x, a, b)).collect();
                return Val::agg(f);
            }
        }
        // same nominal struct up to lifetimes or parameters: keep the tree
        if let Some((i, ft, _)) = self.sole_field(from) {
            let mut v = v;
            if let Val::Top(_) = v {
                v = self.fresh_of(st, from);
            }
            if let Val::Agg(f) = &v {
                if i < f.len() {
                    let x = f[i].clone();
                    return self.transmute(st, x, ft, to);
                }
            }
            return self.top(st, "transmute", to);
        }
        if let TyK::Union { .. } = self.k(from) {
            if let Val::Agg(f) = &v {
                if f.len() == 1 {
                    let n = self.p.types[from].size;
                    if let TyK::Union { fields, .. } = self.k(from) {
                        let ft = fields.iter().find(|f| self.same_ty(f.1, to)).or_else(|| fields.iter().find(|f| self.p.types[f.1].size == n)).map(|f| f.1);
                        if let Some(ft) = ft {
                            let x = f[0].clone();
                            return self.transmute(st, x, ft, to);
                        }
                    }
                }
            }
        }
        if let Some((i, ft, fs)) = self.sole_field(to) {
            let x = self.transmute(st, v, from, ft);
            let mut out = vec![];
            for (j, t) in fs.iter().enumerate() {
                out.push(if j == i { x.clone() } else { self.zst(*t) });
            }
            return Val::agg(out);
        }
        if let TyK::Union { fields, .. } = self.k(to) {
            let n = self.p.types[to].size;
            if let Some(f) = fields.iter().find(|f| self.p.types[f.1].size == n) {
                let x = self.transmute(st, v, from, f.1);
                return Val::agg(vec![x]);
            }
        }
        if let (Val::Ptr(p), Some((64, _))) = (&v, self.bits(to)) {
            let p = p.clone();
            return Val::Int(self.addr(st, &p));
        }
        if let (Val::Int(l), TyK::Ptr(x, _) | TyK::Ref(x, _)) = (&v, self.k(to)) {
            return Val::ptr(PB::Addr(l.clone()), None, *x);
        }
        if self.is_flat(from) && self.is_flat(to) {
            if let Some(bs) = self.to_bytes(st, &v, from) {
                if Some(bs.len()) == self.p.types[to].size {
                    return self.from_bytes(st, &bs, to);
                }
            }
            // fieldless enum -> integer
            if let (Val::Enum(i, _), TyK::Enum { vars, .. }, Some((b, s))) = (&v, self.k(from), self.bits(to)) {
                let d = vars[*i].discr;
                return Val::Int(self.wrap(st, Lin::c(d), b, s));
            }
        }
        // integer -> fieldless enum handled by the caller through Top
        if self.dbg {
            eprintln!("TRANSMUTE {:?} {:?} -> {:?}", v, self.k(from), self.k(to));
        }
        self.top(st, "transmute", to)
    }

    fn cast(&mut self, st: &mut State, kind: &str, v: Val, from: Ty, to: Ty) -> Vec<(State, Val)> {
        let one = |st: &State, v: Val| vec![(st.clone(), v)];
        if kind.starts_with("PointerCoercion") {
            if kind.contains("Unsize") {
                if let (Val::Ptr(p), Some(a), Some(b)) = (&v, self.pointee_deep(from), self.pointee_deep(to)) {
                    if let (TyK::Array(e, n), TyK::Slice(_)) = (self.k(a), self.k(b)) {
                        let len = n.map(|n| Lin::c(n as i128));
                        let r = match &p.b {
                            PB::Obj(o, path) => {
                                let mut path = self.adjust(path, p.ty, a).unwrap_or(path.clone());
                                path.push(Pr::I(Lin::c(0)));
                                Val::ptr(PB::Obj(*o, path), len, *e)
                            }
                            b => Val::ptr(b.clone(), len, *e),
                        };
                        return one(st, r);
                    }
                }
                return one(st, v);
            }
            if kind.contains("ReifyFnPointer") || kind.contains("ClosureFnPointer") {
                return match self.k(from) {
                    TyK::FnDef { inst: Some(i), .. } => one(st, Val::Fn(*i)),
                    _ => { let x = self.top(st, "cast", to); one(st, x) },
                };
            }
            return one(st, v);
        }
        match kind {
            "IntToInt" => {
                if let Val::Bool(b) = &v {
                    if let Some(l) = self.be_to_lin(st, b) {
                        return one(st, Val::Int(l));
                    }
                    let mut out = vec![];
                    for (pol, k) in [(true, 1), (false, 0)] {
                        for s in self.c.assume(st.clone(), b, pol) {
                            out.push((s, Val::c(k)));
                        }
                    }
                    return out;
                }
                if let Val::Enum(i, _) = &v {
                    if let TyK::Enum { vars, .. } = self.k(from) {
                        let (b, s) = self.bits(to).unwrap();
                        let l = self.wrap(st, Lin::c(vars[*i].discr), b, s);
                        return one(st, Val::Int(l));
                    }
                }
                let (b, s) = match self.bits(to) {
                    Some(x) => x,
                    None => return { let x = self.top(st, "cast", to); one(st, x) },
                };
                match self.int(st, &v) {
                    Some(l) => {
                        let (fb, fs) = self.bits(from).unwrap_or((64, false));
                        if fs && !s && !self.c.entails(st, &l) {
                            let u = self.unsign(st, &l, fb);
                            if b >= fb {
                                if b == fb {
                                    return one(st, Val::Int(u));
                                }
                                let f = self.top(st, "cast", to);
                                return one(st, f);
                            }
                            let r = self.wrap(st, u, b, s);
                            return one(st, Val::Int(r));
                        }
                        if !fs && s && b == fb {
                            let r = if self.c.entails(st, &l.neg().addc(range_of(b, true).1)) { l } else { self.sign(&l, b) };
                            return one(st, Val::Int(r));
                        }
                        let r = self.wrap(st, l, b, s);
                        one(st, Val::Int(r))
                    }
                    None => {
                        let f = self.top(st, "cast", to);
                        one(st, f)
                    }
                }
            }
            "PtrToPtr" => {
                if let (Val::Ptr(p), Some(b)) = (&v, self.p.pointee(to)) {
                    let thin = self.p.types[to].size.map_or(self.p.types[b].size.is_some(), |s| s <= 8) && !matches!(self.k(b), TyK::Slice(_) | TyK::Str | TyK::Dyn);
                    let mut q = (**p).clone();
                    if thin {
                        q.meta = None;
                        if let PB::Obj(o, path) = &q.b {
                            if self.p.types[b].size.map_or(false, |s| s > 0) && !self.same_ty(q.ty, b) {
                                if let Some(np) = self.adjust(path, q.ty, b) {
                                    q.b = PB::Obj(*o, np);
                                    q.ty = b;
                                }
                            }
                        }
                    }
                    return one(st, Val::Ptr(Rc::new(q)));
                }
                one(st, v)
            }
            "FnPtrToPtr" => {
                let f = self.c.fresh_lin("fnaddr", 1, 1 << 62);
                let x = self.p.pointee(to).unwrap_or(to);
                one(st, Val::ptr(PB::Addr(f), None, x))
            }
            "PointerExposeAddress" | "PointerExposeProvenance" => match &v {
                Val::Ptr(p) => {
                    let p = p.clone();
                    let l = self.addr(st, &p);
                    one(st, Val::Int(l))
                }
                Val::Fn(_) => {
                    let f = self.c.fresh_lin("fnaddr", 1, 1 << 62);
                    one(st, Val::Int(f))
                }
                _ => {
                    let f = self.top(st, "cast", to);
                    one(st, f)
                }
            },
            "PointerFromExposedAddress" | "PointerWithExposedProvenance" => {
                let l = self.int(st, &v).unwrap_or(Lin::c(0));
                let x = self.p.pointee(to).unwrap_or(to);
                one(st, Val::ptr(PB::Addr(l), None, x))
            }
            "Transmute" | "BoxDerefTransmute" | "Subtype" => {
                if let (Val::Int(_), TyK::Enum { vars, .. }) = (&v, self.k(to)) {
                    if let Some(l) = self.int(st, &v) {
                        let mut out = vec![];
                        for (i, x) in vars.iter().enumerate() {
                            if !x.fields.is_empty() {
                                return { let x = self.top(st, "cast", to); one(st, x) };
                            }
                            for s in self.c.assume(st.clone(), &BE::eq(l.addc(-x.discr)), true) {
                                out.push((s, Val::en(i, vec![])));
                            }
                        }
                        return out;
                    }
                }
                let r = self.transmute(st, v, from, to);
                one(st, r)
            }
            _ => {
                let f = self.top(st, "cast", to);
                one(st, f)
            }
        }
    }
    fn pointee_deep(&self, t: Ty) -> Option<Ty> {
        self.p.pointee(t)
    }

    // ------------------------------------------------------------ rvalues and statements

    /// Case split of an opaque enum value into its variants.
    pub fn split_enum(&mut self, st: &State, t: Ty) -> Vec<(State, Val)> {
        let mut out = vec![];
        if let TyK::Enum { vars, .. } = self.k(t) {
            for (i, v) in vars.iter().enumerate() {
                if v.fields.iter().any(|f| self.uninhabited(f.1)) {
                    continue;
                }
                out.push((st.clone(), Val::en(i, v.fields.iter().map(|f| Val::Top(f.1)).collect())));
            }
        }
        self.nondet += 1;
        out
    }
    pub fn uninhabited(&self, t: Ty) -> bool {
        match self.k(t) {
            TyK::Never => true,
            TyK::Enum { vars, .. } => vars.is_empty() || vars.iter().all(|v| v.fields.iter().any(|f| self.uninhabited(f.1))),
            TyK::Struct { fields, .. } => fields.iter().any(|f| self.uninhabited(f.1)),
            _ => false,
        }
    }

    /// The discriminant (given as its bits) as a value of that type.
    pub fn discriminant(&mut self, st: &State, d: i128, t: Ty) -> Val {
        match self.bits(t) {
            Some((b, s)) => Val::Int(self.wrap(st, Lin::c(d), b, s)),
            None => Val::c(d),
        }
    }

    fn rvalue(&mut self, fr: &Fr<'p>, mut st: State, rv: &'p Rv, tr: Ty) -> Vec<(State, Val)> {
        match rv {
            Rv::Use(o) => {
                let v = self.op(fr, &mut st, o);
                if let Op::Copy(p) = o {
                    let mut path = vec![];
                    if self.top_enum(&v, &mut path).is_some() {
                        // a copy of an unknown enum has to agree with the original: case split first
                        let mut todo = vec![(st, v)];
                        let mut out = vec![];
                        while let Some((s, v)) = todo.pop() {
                            let mut path = vec![];
                            match self.top_enum(&v, &mut path) {
                                Some(t) => {
                                    for (s2, w) in self.split_enum(&s, t) {
                                        let mut v2 = v.clone();
                                        put_at(&mut v2, &path, w);
                                        todo.push((s2, v2));
                                    }
                                }
                                None => out.push((s, v)),
                            }
                            if out.len() + todo.len() > 200 {
                                break;
                            }
                        }
                        if todo.is_empty() {
                            return out
                                .into_iter()
                                .map(|(mut s, v)| {
                                    let (lv, _) = self.place(fr, &mut s, p);
                                    self.write(&mut s, &lv, v.clone());
                                    (s, v)
                                })
                                .collect();
                        }
                        let (mut s, v) = todo.pop().unwrap();
                        s.set_taint("copy of a large unknown enum");
                        return vec![(s, v)];
                    }
                }
                vec![(st, v)]
            }
            Rv::Ref(p) => {
                let (lv, meta) = self.place(fr, &mut st, p);
                let v = match lv {
                    Lv::O(o, path, t) => {
                        let et = match self.k(t) {
                            TyK::Slice(e) if matches!(path.last(), Some(Pr::I(_))) => *e,
                            _ => t,
                        };
                        // pointers to model values keep the real object type when known
                        Val::ptr(PB::Obj(o, path), meta, et)
                    }
                    Lv::B(b, off, t) => Val::ptr(PB::Buf(b, off), meta, t),
                    Lv::T(t) => {
                        // reference to something behind an opaque pointer
                        if self.is_unit(t) {
                            let o = st.new_obj(self.zst(t));
                            Val::ptr(PB::Obj(o, vec![]), meta, t)
                        } else {
                            self.top(&mut st, "rvalue", tr)
                        }
                    }
                };
                vec![(st, v)]
            }
            Rv::Agg(kind, t, vi, uf, ops) => {
                let vs: Vec<Val> = ops.iter().map(|o| self.op(fr, &mut st, o)).collect();
                let v = match kind.as_str() {
                    "adt" => match self.k(t.unwrap()) {
                        TyK::Enum { .. } => Val::en(*vi, vs),
                        TyK::Union { .. } => {
                            let _ = uf;
                            Val::agg(vs)
                        }
                        _ => Val::agg(vs),
                    },
                    "rawptr" => {
                        let m = self.int(&mut st, &vs[1]);
                        match &vs[0] {
                            Val::Ptr(p) => {
                                let mut q = (**p).clone();
                                q.meta = m;
                                if let (PB::Obj(_, path), Some(to)) = (&q.b, self.p.pointee(tr)) {
                                    if let TyK::Slice(e) = self.k(to) {
                                        if !self.same_ty(q.ty, *e) {
                                            if let (Some(np), PB::Obj(o, _)) = (self.adjust(path, q.ty, *e), &q.b) {
                                                q.b = PB::Obj(*o, np);
                                                q.ty = *e;
                                            }
                                        }
                                    }
                                }
                                Val::Ptr(Rc::new(q))
                            }
                            _ => self.top(&mut st, "rvalue", tr),
                        }
                    }
                    _ => Val::agg(vs),
                };
                vec![(st, v)]
            }
            Rv::Bin(op, a, b) => {
                let ta = self.op_ty(fr, a);
                let x = self.op(fr, &mut st, a);
                let y = self.op(fr, &mut st, b);
                if op == "Cmp" {
                    if let (Some(l), Some(r)) = (self.int(&mut st, &x), self.int(&mut st, &y)) {
                        let mut out = vec![];
                        for (i, be) in [BE::lt(&l, &r), BE::eq(l.sub(&r)), BE::lt(&r, &l)].iter().enumerate() {
                            for s in self.c.assume(st.clone(), be, true) {
                                out.push((s, Val::en(i, vec![])));
                            }
                        }
                        return out;
                    }
                    return self.split_enum(&st, tr);
                }
                let v = self.binop(&mut st, op, &x, &y, ta, tr);
                vec![(st, v)]
            }
            Rv::CBin(op, a, b) => {
                let ta = self.op_ty(fr, a);
                let x = self.op(fr, &mut st, a);
                let y = self.op(fr, &mut st, b);
                let (bits, signed) = self.bits(ta).unwrap_or((64, false));
                let (lo, hi) = range_of(bits, signed);
                let op = op.trim_end_matches("WithOverflow");
                match (self.int(&mut st, &x), self.int(&mut st, &y)) {
                    (Some(l), Some(r)) => {
                        if matches!(op, "Shl" | "Shr") {
                            let v = self.binop(&mut st, op, &x, &y, ta, ta);
                            let ovf = BE::or(BE::lt(&r, &Lin::c(0)), BE::ge(r.addc(-(bits as i128))));
                            return vec![(st, Val::agg(vec![v, Val::Bool(ovf)]))];
                        }
                        let e = match op {
                            "Add" => l.add(&r),
                            "Sub" => l.sub(&r),
                            _ => self.mul(&l, &r),
                        };
                        if op == "Add" && bits == 64 && !signed && (l.as_const() == Some(1) || r.as_const() == Some(1)) {
                            // a 64-bit counter stepping by one does not wrap within the life of a process
                            let mut s2 = st.clone();
                            if self.c.add_ge(&mut s2, &e.neg().addc(hi)) {
                                return vec![(s2, Val::agg(vec![Val::Int(e), Val::b(false)]))];
                            }
                        }
                        let e = self.c.canon(&st, &e);
                        let ok = BE::and(BE::ge(e.addc(-lo)), BE::ge(e.neg().addc(hi)));
                        // decide here, so that the result can be used exactly
                        if self.c.holds(&st, &ok) {
                            return vec![(st, Val::agg(vec![Val::Int(e), Val::b(false)]))];
                        }
                        let mut out = vec![];
                        for s in self.c.assume(st.clone(), &ok, true) {
                            out.push((s, Val::agg(vec![Val::Int(e.clone()), Val::b(false)])));
                        }
                        for s in self.c.assume(st.clone(), &ok, false) {
                            let w = self.wrap(&s, e.clone(), bits, signed);
                            out.push((s, Val::agg(vec![Val::Int(w), Val::b(true)])));
                        }
                        out
                    }
                    _ => {
                        let f = self.top(&mut st, "rvalue", ta);
                        let b = self.fresh_bool("ovf");
                        vec![(st, Val::agg(vec![f, b]))]
                    }
                }
            }
            Rv::Un(op, a) => {
                let x = self.op(fr, &mut st, a);
                let v = match op.as_str() {
                    "Not" => match &x {
                        Val::Bool(b) => Val::Bool(b.clone().not()),
                        _ => match (self.int(&mut st, &x), self.bits(tr)) {
                            (Some(l), Some((b, false))) if b < 127 => Val::Int(l.neg().addc((1i128 << b) - 1)),
                            (Some(l), Some((_, true))) => Val::Int(l.neg().addc(-1)),
                            _ => self.top(&mut st, "rvalue", tr),
                        },
                    },
                    "Neg" => match (self.int(&mut st, &x), self.bits(tr)) {
                        (Some(l), Some((b, s))) => Val::Int(self.wrap(&st, l.neg(), b, s)),
                        _ => self.top(&mut st, "rvalue", tr),
                    },
                    "PtrMetadata" => match &x {
                        Val::Ptr(p) => match &p.meta {
                            Some(m) => Val::Int(m.clone()),
                            None => self.top(&mut st, "rvalue", tr),
                        },
                        _ => self.top(&mut st, "rvalue", tr),
                    },
                    _ => self.top(&mut st, "rvalue", tr),
                };
                vec![(st, v)]
            }
            Rv::Cast(k, o, to) => {
                let from = self.op_ty(fr, o);
                let v = self.op(fr, &mut st, o);
                self.cast(&mut st, k, v, from, *to)
            }
            Rv::Discr(p) => {
                let (lv, _) = self.place(fr, &mut st, p);
                let v = self.read(&mut st, &lv);
                let t = self.lv_ty(&lv);
                match v {
                    Val::Enum(i, _) => {
                        let d = match self.k(t) {
                            TyK::Enum { vars, .. } => vars.get(i).map_or(i as i128, |v| v.discr),
                            _ => i as i128,
                        };
                        let d = self.discriminant(&st, d, tr);
                        vec![(st, d)]
                    }
                    _ => {
                        if let TyK::Enum { vars, .. } = self.k(t) {
                            let mut out = vec![];
                            for (mut s, v) in self.split_enum(&st, t) {
                                let i = if let Val::Enum(i, _) = &v { *i } else { 0 };
                                self.write(&mut s, &lv, v);
                                let d = self.discriminant(&s, vars[i].discr, tr);
                                out.push((s, d));
                            }
                            return out;
                        }
                        let f = self.top(&mut st, "rvalue", tr);
                        vec![(st, f)]
                    }
                }
            }
            Rv::Len(p) => {
                let (lv, meta) = self.place(fr, &mut st, p);
                let v = match self.len_of(&lv, &meta) {
                    Some(l) => Val::Int(l),
                    None => self.top(&mut st, "rvalue", tr),
                };
                vec![(st, v)]
            }
            Rv::Repeat(o, n) => {
                let v = self.op(fr, &mut st, o);
                match n {
                    Some(n) if *n <= 4096 => vec![(st, Val::agg(vec![v; *n]))],
                    _ => { let x = self.top(&mut st, "rvalue", tr); vec![(st, x)] },
                }
            }
            Rv::Other => {
                st.set_taint("unsupported rvalue");
                { let x = self.top(&mut st, "rvalue", tr); vec![(st, x)] }
            }
        }
    }

    pub fn exec_stmts(&mut self, fr: &Fr<'p>, b: usize, st: State) -> Vec<State> {
        let blk = &fr.body.blocks[b];
        let mut cur = vec![st];
        for (s, sp) in &blk.s {
            if let Some(f) = self.stack.last_mut() {
                if f.span != *sp {
                    f.span = sp.clone();
                }
            }
            let mut nxt = vec![];
            for mut st in cur {
                self.steps += 1;
                match s {
                    St::Assign(p, rv) => {
                        let tr = self.place_ty(fr.body, p);
                        for (mut s2, v) in self.rvalue(fr, st, rv, tr) {
                            let (lv, _) = self.place(fr, &mut s2, p);
                            self.write(&mut s2, &lv, v);
                            nxt.push(s2);
                        }
                    }
                    St::SetDiscr(p, v) => {
                        let (lv, _) = self.place(fr, &mut st, p);
                        let t = self.lv_ty(&lv);
                        if let TyK::Enum { vars, .. } = self.k(t) {
                            let cur = self.read(&mut st, &lv);
                            let f = match cur {
                                Val::Enum(i, f) if i == *v => Val::Enum(i, f),
                                _ => Val::en(*v, vars[*v].fields.iter().map(|f| Val::Top(f.1)).collect()),
                            };
                            self.write(&mut st, &lv, f);
                        }
                        nxt.push(st);
                    }
                    St::Assume(o) => {
                        let v = self.op(fr, &mut st, o);
                        match v {
                            Val::Bool(b) => nxt.extend(self.c.assume(st, &b, true)),
                            _ => nxt.push(st),
                        }
                    }
                    St::CopyNon(a, d, n) => {
                        let src = self.op(fr, &mut st, a);
                        let dst = self.op(fr, &mut st, d);
                        let cnt = self.op(fr, &mut st, n);
                        let t = self.op_ty(fr, a);
                        self.copy_mem(&mut st, &src, &dst, &cnt, self.p.pointee(t).unwrap_or(t));
                        nxt.push(st);
                    }
                }
            }
            cur = nxt;
        }
        if let Some(f) = self.stack.last_mut() {
            f.span = blk.sp.clone();
        }
        cur
    }

    pub fn copy_mem(&mut self, st: &mut State, src: &Val, dst: &Val, n: &Val, t: Ty) {
        let n = self.int(st, n).and_then(|l| l.as_const());
        match n {
            Some(0) => {}
            Some(1) => {
                let (a, _) = self.ptr_to(st, src, t);
                let (b, _) = self.ptr_to(st, dst, t);
                let v = self.read(st, &a);
                self.write(st, &b, v);
            }
            Some(k) if k <= 256 => {
                if let (Val::Ptr(p), Val::Ptr(q)) = (src, dst) {
                    let (p, q) = (p.clone(), q.clone());
                    let mut vs = vec![];
                    for i in 0..k {
                        let a = self.ptr_offset(st, &p, t, &Lin::c(i));
                        let (a, _) = self.ptr_to(st, &a, t);
                        vs.push(self.read(st, &a));
                    }
                    for (i, v) in vs.into_iter().enumerate() {
                        let b = self.ptr_offset(st, &q, t, &Lin::c(i as i128));
                        let (b, _) = self.ptr_to(st, &b, t);
                        self.write(st, &b, v);
                    }
                } else {
                    st.set_taint("copy through an unknown pointer");
                }
            }
            _ => st.set_taint("copy of unknown length"),
        }
    }

    // ------------------------------------------------------------ terminators

    pub fn term(&mut self, fr: &Fr<'p>, b: usize, mut st: State) -> (Vec<(usize, State)>, Vec<State>) {
        let blk = &fr.body.blocks[b];
        match &blk.t {
            Tm::Goto(t) | Tm::Drop(_, t) => (vec![(*t, st)], vec![]),
            Tm::Return => (vec![], vec![st]),
            Tm::Resume | Tm::Unreachable => (vec![], vec![]),
            Tm::Other => {
                self.obl("panic", "unsupported terminator".into(), Some(&st), true, String::new());
                (vec![], vec![])
            }
            Tm::Switch(o, arms, other) => {
                let ty = self.op_ty(fr, o);
                let v = self.op(fr, &mut st, o);
                let mut out = vec![];
                match v {
                    Val::Bool(be) => {
                        // arms are on 0 / 1
                        for pol in [false, true] {
                            let t = arms.iter().find(|a| a.0 == pol as i128).map(|a| a.1).unwrap_or(*other);
                            for s in self.c.assume(st.clone(), &be, pol) {
                                out.push((t, s));
                            }
                        }
                        if out.len() > 1 {
                            if fr_local(self, fr) {
                                let txt = self.c.show_be(&be);
                                let n = out.len();
                                for (i, (t, s)) in out.iter_mut().enumerate() {
                                    let pol = i * 2 >= n && *t == arms.iter().find(|a| a.0 == 1).map(|a| a.1).unwrap_or(*other);
                                    s.note(format!("{}:{} {} is {}", short(&blk.sp.0), blk.sp.1, txt, pol));
                                }
                            }
                        }
                    }
                    v => {
                        let l = match self.int(&mut st, &v) {
                            Some(l) => l,
                            None => {
                                let l = self.c.fresh_lin("sw", 0, u64::MAX as i128);
                                self.nondet += 1;
                                l
                            }
                        };
                        let (bits, signed) = self.bits(ty).unwrap_or((64, false));
                        let mut rest = vec![st];
                        for (k, t) in arms {
                            let k = if signed && bits < 127 && *k >= (1i128 << (bits - 1)) { k - (1i128 << bits) } else { *k };
                            let be = BE::eq(l.addc(-k));
                            let mut nr = vec![];
                            for s in rest {
                                for x in self.c.assume(s.clone(), &be, true) {
                                    out.push((*t, x));
                                }
                                nr.extend(self.c.assume(s, &be, false));
                            }
                            rest = nr;
                        }
                        for s in rest {
                            out.push((*other, s));
                        }
                        if out.len() > 1 && fr_local(self, fr) {
                            let txt = self.c.show_lin(&l);
                            for (t, s) in out.iter_mut() {
                                let w = arms.iter().find(|a| a.1 == *t).map(|a| a.0.to_string()).unwrap_or("other".into());
                                s.note(format!("{}:{} {} = {}", short(&blk.sp.0), blk.sp.1, txt, w));
                            }
                        }
                    }
                }
                (out, vec![])
            }
            Tm::Assert { cond, exp, msg, target } => {
                let v = self.op(fr, &mut st, cond);
                let be = match v {
                    Val::Bool(b) => b,
                    _ => return (vec![(*target, st)], vec![]),
                };
                let bad = self.c.assume(st.clone(), &be, !*exp);
                match bad.first() {
                    None => self.obl("panic", msg.clone(), None, true, String::new()),
                    Some(s) => {
                        let d = self.c.show_be(&be);
                        self.obl("panic", msg.clone(), Some(s), false, format!("expected {} = {}", d, exp))
                    }
                }
                let good = self.c.assume(st, &be, *exp);
                (good.into_iter().map(|s| (*target, s)).collect(), vec![])
            }
            Tm::Call { f, inst, args, dest, target } => {
                let mut vs = vec![];
                let mut ts = vec![];
                for a in args {
                    let v = self.op(fr, &mut st, a);
                    vs.push(v);
                    ts.push(self.op_ty(fr, a));
                }
                let callee = match inst {
                    Some(i) => Some(*i),
                    None => match self.op(fr, &mut st, f) {
                        Val::Fn(i) => Some(i),
                        _ => None,
                    },
                };
                let dt = self.place_ty(fr.body, dest);
                let res = match callee {
                    Some(i) => self.call(i, vs, &ts, dt, st, target.is_none()),
                    None => {
                        st.set_taint("call through an unknown function pointer");
                        self.havoc_args(&mut st, &vs);
                        let v = self.fresh_of(&mut st, dt);
                        vec![(st, v)]
                    }
                };
                let mut out = vec![];
                if let Some(t) = target {
                    for (mut s, v) in res {
                        let (lv, _) = self.place(fr, &mut s, dest);
                        self.write(&mut s, &lv, v);
                        out.push((*t, s));
                    }
                }
                (out, vec![])
            }
        }
    }

    pub fn havoc_args(&mut self, st: &mut State, vs: &[Val]) {
        for v in vs {
            self.havoc_val(st, v, 0);
        }
    }
    fn havoc_val(&mut self, st: &mut State, v: &Val, d: usize) {
        if d > 4 {
            return;
        }
        match v {
            Val::Ptr(p) => {
                if let PB::Obj(o, path) = &p.b {
                    if *o < STATIC_OBJ {
                        let old = self.read_obj(st, *o, path, p.ty);
                        self.havoc_val(st, &old, d + 1);
                        self.write_obj(st, *o, path, Val::Top(p.ty));
                    }
                }
            }
            Val::Agg(f) | Val::Enum(_, f) => {
                for x in f.iter() {
                    self.havoc_val(st, x, d + 1);
                }
            }
            _ => {}
        }
    }

    // ------------------------------------------------------------ calls

    pub fn cfg(&mut self, i: InstId) -> Rc<Cfg> {
        if let Some(c) = self.cfgs.get(&i) {
            return c.clone();
        }
        let c = Rc::new(cfg::build(self.p.insts[i].body.as_ref().unwrap()));
        self.cfgs.insert(i, c.clone());
        c
    }

    pub fn call(&mut self, i: InstId, args: Vec<Val>, ts: &[Ty], ret: Ty, mut st: State, diverges: bool) -> Out {
        let p = self.p;
        let inst = &p.insts[i];
        if self.gave_up.is_some() {
            return vec![];
        }
        if diverges {
            if let Some(r) = self.diverge(inst, &args, &st) {
                return r;
            }
        }
        if inst.uns && matches!(crate::models::last(&inst.path), "read" | "read_unaligned" | "read_volatile") && self.stack.last().map_or(false, |f| self.repo_frame(f)) {
            if let (Some(Val::Ptr(_)), Some(to)) = (args.first(), ts.first().and_then(|t| self.p.pointee(*t))) {
                let v = args[0].clone();
                self.inside(&st, &v, to);
            }
        }
        // (of the standard library only in foreign states, and on what is not at the focus)
        if st.foreign && !self.besides.is_empty() && !ts.is_empty() && !LOCAL_CRATES.contains(&inst.krate.as_str()) {
            let t = p.pointee(ts[0]).unwrap_or(ts[0]);
            let n = crate::models::last(&inst.path);
            let at_focus = args.iter().any(|a| matches!(a, Val::Ptr(x) if matches!(&x.b, PB::Obj(_, path) if matches!(path.first(), Some(Pr::D(_))))));
            if !at_focus && self.besides.iter().any(|(m, p2, f)| *f && m == n && p.types[t].disp.starts_with(p2.as_str())) {
                if n == "next" {
                    if let Some(r) = crate::coll::anything_next(self, &args[0], ts[0], ret, &mut st) {
                        return r;
                    }
                }
                self.havoc_args(&mut st, &args);
                let v = match p.pointee(ret) {
                    Some(t) => {
                        let v = self.fresh_of(&mut st, t);
                        crate::coll::refer(&mut st, v, t)
                    }
                    None => self.fresh_of(&mut st, ret),
                };
                return vec![(st, v)];
            }
        }
        let before = self.stack.len();
        if let Some(r) = crate::models::model(self, i, &args, ts, ret, &mut st) {
            debug_assert_eq!(before, self.stack.len());
            return r;
        }
        match &inst.body {
            Some(body) => self.run(i, body, args, ts, st),
            None => {
                if diverges {
                    return vec![];
                }
                *self.havocked.entry(inst.path.clone()).or_insert(0) += 1;
                st.set_taint(&format!("call of {} is not modelled", inst.path));
                self.nondet += 1;
                self.havoc_args(&mut st, &args);
                let v = self.fresh_of(&mut st, ret);
                vec![(st, v)]
            }
        }
    }

    fn diverge(&mut self, inst: &'p Inst, args: &[Val], st: &State) -> Option<Out> {
        let n = &inst.path;
        if n.contains("process::exit") {
            return Some(vec![]);
        }
        if n.contains("handle_alloc_error") || n.contains("capacity_overflow") || n.contains("alloc::raw_vec::handle_error") {
            return Some(vec![]);
        }
        let std = matches!(inst.krate.as_str(), "core" | "std" | "alloc");
        if std {
            let mut m = n.rsplit("::").next().unwrap_or("panic").to_string();
            for a in args {
                if let Val::Ptr(p) = a {
                    if let (PB::Buf(b, o), Some(l)) = (&p.b, &p.meta) {
                        if let (BufK::Const(bs), Some(o), Some(l)) = (&self.c.bufs[*b as usize].k, o.as_const(), l.as_const()) {
                            let (o, l) = (o as usize, l as usize);
                            if o + l <= bs.len() {
                                m = format!("{}: {}", m, String::from_utf8_lossy(&bs[o..o + l]));
                                break;
                            }
                        }
                    }
                }
            }
            self.obl("panic", m, Some(st), false, String::new());
            return Some(vec![]);
        }
        None
    }

    pub fn run(&mut self, i: InstId, body: &'p Body, args: Vec<Val>, ts: &[Ty], mut st: State) -> Out {
        let p = self.p;
        let inst = &p.insts[i];
        let depth = self.stack.iter().filter(|f| f.inst == i).count();
        if depth >= self.rec_limit || self.stack.len() > 160 {
            let local = LOCAL_CRATES.contains(&inst.krate.as_str());
            if local {
                self.obl("recursion", format!("{} re-enters itself {} times", inst.path, depth), Some(&st), false, String::new());
            } else {
                st.set_taint("std recursion");
                self.gave_up = Some(format!("recursion in {}", inst.path));
            }
            return vec![];
        }
        // what the harness looks at before a function of /repo is entered
        let before = self.entered.take() != Some(i);
        if before && LOCAL_CRATES.contains(&inst.krate.as_str()) {
            let js = self.harness_fns(&format!("before_{}", crate::models::last(&inst.path)));
            let with = js.iter().copied().find(|j| match &p.insts[*j].body {
                Some(b) => {
                    let result = match self.k(b.locals[0]) {
                        TyK::Enum { args, .. } => args.first().copied(),
                        _ => None,
                    };
                    b.argc == ts.len() && (1..=b.argc).all(|a| self.same_ty(b.locals[a], ts[a - 1])) && result.map_or(false, |r| self.same_ty(r, body.locals[0]))
                }
                None => false,
            });
            if let Some(j) = with {
                if let Some(b) = &p.insts[j].body {
                    let jts: Vec<Ty> = b.locals[1..=b.argc].to_vec();
                    let outs = self.run(j, b, args.clone(), &jts, st);
                    let mut r = vec![];
                    for (s, _) in outs {
                        self.entered = Some(i);
                        r.extend(self.run(i, body, args.clone(), ts, s));
                    }
                    self.entered = None;
                    return r;
                }
            }
        }
        // a function of /repo that calls itself is represented by the harness' summary of it, if there is one
        // (and any function that has one)
        if LOCAL_CRATES.contains(&inst.krate.as_str()) {
            let want = format!("{}_{}", if depth > 0 { "recursive" } else { "summary" }, crate::models::last(&inst.path));
            let fits = |e: &Self, j: InstId| match &p.insts[j].body {
                Some(b) => b.argc == ts.len() && (1..=b.argc).all(|a| e.same_ty(b.locals[a], ts[a - 1])),
                None => false,
            };
            let js = self.harness_fns(&want);
            if let Some(j) = js.iter().copied().find(|j| fits(self, *j)) {
                if let Some(b) = &p.insts[j].body {
                    let jts: Vec<Ty> = b.locals[1..=b.argc].to_vec();
                    return self.run(j, b, args, &jts, st);
                }
            }
        }
        // a method the harness has declared beside the point: it changes only what it is given
        if !self.besides.is_empty() && LOCAL_CRATES.contains(&inst.krate.as_str()) && !ts.is_empty() {
            let t = match self.k(ts[0]) {
                TyK::Ref(t, _) => *t,
                _ => ts[0],
            };
            let n = crate::models::last(&inst.path);
            if self.besides.iter().any(|(m, p2, f)| m == n && (st.foreign || !f) && p.types[t].disp.starts_with(p2.as_str())) {
                self.visited.insert(i);
                // the harness may say what it does instead
                let js = self.harness_fns(&format!("beside_{}", n));
                let with = js.iter().copied().find(|j| match &p.insts[*j].body {
                    Some(b) => b.argc + 1 == ts.len() && (1..=b.argc).all(|a| self.same_ty(b.locals[a], ts[a])) && self.same_ty(b.locals[0], body.locals[0]),
                    None => false,
                });
                if let Some(j) = with {
                    if let Some(b) = &p.insts[j].body {
                        let jts: Vec<Ty> = b.locals[1..=b.argc].to_vec();
                        return self.run(j, b, args[1..].to_vec(), &jts, st);
                    }
                }
                self.havoc_args(&mut st, &args);
                return vec![(st, Val::Top(body.locals[0]))];
            }
        }
        self.visited.insert(i);
        if self.dbg {
            *self.callhist.entry(inst.path.clone()).or_insert(0) += 1;
        }
        let base = st.next_obj;
        let n = body.locals.len();
        st.next_obj += n as Obj;
        // arguments
        let mut vals: Vec<Val> = args;
        if vals.len() == 2 && (inst.closure || body.argc != 2 || body.spread.is_some()) {
            let tuple_ty = ts.get(1).cloned();
            let untuple = match tuple_ty {
                Some(t) => {
                    matches!(self.k(t), TyK::Tuple(_))
                        && body.spread.is_none()
                        && (body.argc != 2 || !self.same_ty(body.locals[2], t))
                }
                None => false,
            };
            if untuple {
                let t = vals.pop().unwrap();
                let tt = tuple_ty.unwrap();
                let f: Vec<Val> = match t {
                    Val::Agg(f) => (*f).clone(),
                    _ => match self.k(tt) {
                        TyK::Tuple(f) => f.iter().map(|x| Val::Top(*x)).collect(),
                        _ => vec![],
                    },
                };
                vals.extend(f);
            }
        }
        if let Some(sp) = body.spread {
            if vals.len() > sp && !(vals.len() == sp && matches!(self.k(body.locals[sp]), TyK::Tuple(_))) {
                // arguments passed one by one: collect them into the spread tuple
                let rest: Vec<Val> = vals.drain(sp - 1..).collect();
                vals.push(Val::agg(rest));
            }
        }
        {
            let m = Rc::make_mut(&mut st.mem);
            for (j, v) in vals.into_iter().enumerate() {
                m.insert(base + 1 + j as Obj, Rc::new(v));
            }
        }
        self.stack.push(FrameInfo { inst: i, base, n, span: body.span.clone() });
        let cfg = self.cfg(i);
        let fr = Fr { inst: i, base, body, cfg: cfg.clone() };
        let mut rets: Vec<State> = vec![];
        let mut pend: BTreeMap<usize, Vec<State>> = BTreeMap::new();
        pend.insert(0, vec![st]);
        self.exec_comps(&fr, &cfg.wto, &mut pend, &mut rets);
        let rt = body.locals[0];
        let mut out: Out = vec![];
        for mut s in rets {
            let v = match s.mem.get(&base) {
                Some(v) => (**v).clone(),
                None => {
                    if self.is_unit(rt) {
                        self.zst(rt)
                    } else {
                        Val::Top(rt)
                    }
                }
            };
            {
                let m = Rc::make_mut(&mut s.mem);
                for j in 0..n as Obj {
                    m.remove(&(base + j));
                }
                let top = m.keys().next_back().cloned().unwrap_or(0);
                s.next_obj = base.max(top + 1).max(FIRST_OBJ);
            }
            // collapse identical outcomes
            if out.iter().any(|(o, w)| *w == v && self.same_state(o, &s)) {
                continue;
            }
            out.push((s, v));
        }
        self.stack.pop();
        if self.c.deadline < std::time::Instant::now() || self.steps > self.max_steps {
            if self.gave_up.is_none() {
                self.gave_up = Some("analysis budget exhausted".into());
            }
        }
        out
    }

    pub fn same_state(&self, a: &State, b: &State) -> bool {
        a.taint == b.taint
            && a.foreign == b.foreign
            && (Rc::ptr_eq(&a.cons, &b.cons) || a.cons == b.cons)
            && (Rc::ptr_eq(&a.subst, &b.subst) || a.subst == b.subst)
            && a.ne == b.ne
            && (Rc::ptr_eq(&a.atoms, &b.atoms) || a.atoms == b.atoms)
            && a.ifacts == b.ifacts
            && a.rfacts == b.rfacts
            && (Rc::ptr_eq(&a.mem, &b.mem) || a.mem == b.mem)
    }

    /// Forgets locals that are dead at block `b`.
    pub fn prune(&mut self, fr: &Fr<'p>, b: usize, st: &mut State) {
        let live = &fr.cfg.live[b];
        let n = fr.body.locals.len() as Obj;
        let lo = fr.base;
        let present: Vec<Obj> = st.mem.range(lo..lo + n).map(|x| *x.0).collect();
        let mut dead: BTreeSet<Obj> = present.iter().cloned().filter(|o| !live.contains(&((o - lo) as usize))).collect();
        let heap: Vec<Obj> = st.mem.range(lo + n..).map(|x| *x.0).collect();
        dead.extend(heap);
        if dead.is_empty() {
            return;
        }
        let risky = dead.iter().any(|o| *o >= lo + n || fr.cfg.taken.contains(&((*o - lo) as usize)));
        if risky {
            // keep what is still reachable by pointer
            let mut work: Vec<Obj> = st.mem.keys().cloned().filter(|o| !dead.contains(o)).collect();
            while let Some(o) = work.pop() {
                if let Some(v) = st.mem.get(&o) {
                    let mut refs = vec![];
                    collect_objs(v, &mut refs);
                    for r in refs {
                        if dead.remove(&r) {
                            work.push(r);
                        }
                    }
                }
            }
        }
        if dead.is_empty() {
            return;
        }
        let m = Rc::make_mut(&mut st.mem);
        for o in dead {
            m.remove(&o);
        }
        let top = m.keys().next_back().cloned().unwrap_or(0);
        st.next_obj = (lo + n).max(top + 1);
    }
}

fn has_top(v: &Val) -> bool {
    match v {
        Val::Top(_) => true,
        Val::Agg(f) | Val::Enum(_, f) => f.iter().any(has_top),
        _ => false,
    }
}
fn put_at(v: &mut Val, path: &[usize], w: Val) {
    if path.is_empty() {
        *v = w;
        return;
    }
    if let Val::Agg(f) | Val::Enum(_, f) = v {
        put_at(&mut Rc::make_mut(f)[path[0]], &path[1..], w);
    }
}
pub fn collect_objs(v: &Val, out: &mut Vec<Obj>) {
    match v {
        Val::Agg(f) | Val::Enum(_, f) => f.iter().for_each(|x| collect_objs(x, out)),
        Val::M(m) => m.v.iter().for_each(|x| collect_objs(x, out)),
        Val::Ptr(p) => {
            if let PB::Obj(o, _) = &p.b {
                out.push(*o);
            }
        }
        _ => {}
    }
}

fn fr_local(e: &Eng, fr: &Fr) -> bool {
    LOCAL_CRATES.contains(&e.p.insts[fr.inst].krate.as_str())
}
pub fn short(f: &str) -> &str {
    match f.find("/repo/") {
        Some(i) => &f[i + 6..],
        None => f.rsplit('/').next().unwrap_or(f),
    }
}
