//! Loops: fixpoints over nodes (one per memory shape) with candidate invariants that are only ever
//! dropped, and ranking arguments for termination.
use crate::cfg::Comp;
use crate::interp::*;
use crate::ir::*;
use crate::lin::*;
use crate::state::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

type Pend = BTreeMap<usize, Vec<State>>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cell {
    pub label: String,
    pub v: Lin,
}

struct Node {
    st: State,
    key: String,
    /// (phi, index of the defining cell)
    phis: Vec<(Sym, usize)>,
    bufphis: Vec<(usize, Buf)>,
    res: Option<NodeRes>,
    /// cells of the states that come from before the loop
    entries: Vec<Vec<Cell>>,
}
struct NodeRes {
    back: Vec<State>,
    exits: Pend,
    rets: Vec<State>,
    obls: Vec<Obl>,
}

pub fn shape(e: &Eng, st: &State, rigid_bufs: usize) -> (String, Vec<Cell>, Vec<Buf>) {
    let mut key = String::new();
    let mut cells = vec![];
    let mut bufs = vec![];
    for (o, v) in st.mem.iter() {
        key.push_str(&format!("#{}", o));
        let mut lab = format!("{}", o);
        // ghost cells from 32 on are modes: their value is part of the shape
        if *o > 32 && *o < FIRST_OBJ {
            if let Val::Int(l) = &**v {
                if let Some(k) = l.as_const() {
                    key.push_str(&format!("={}", k));
                }
            }
        }
        walk(e, v, &mut key, &mut cells, &mut bufs, &mut lab, rigid_bufs);
    }
    (key, cells, bufs)
}

fn walk(e: &Eng, v: &Val, key: &mut String, cells: &mut Vec<Cell>, bufs: &mut Vec<Buf>, lab: &mut String, rb: usize) {
    let mut cell = |l: &Lin, key: &mut String, lab: &str, suf: &str| {
        key.push('i');
        cells.push(Cell { label: format!("{}{}", lab, suf), v: l.clone() });
    };
    match v {
        Val::Int(l) => cell(l, key, lab, ""),
        Val::Bool(BE::C(b)) => key.push(if *b { 'T' } else { 'F' }),
        Val::Bool(_) => key.push('?'),
        Val::Fn(i) => key.push_str(&format!("f{}", i)),
        Val::Top(t) => key.push_str(&format!("t{}", t)),
        Val::Ptr(p) => {
            match &p.b {
                PB::Buf(b, o) => {
                    if (*b as usize) < rb {
                        key.push_str(&format!("B{}", b));
                    } else {
                        key.push('b');
                        bufs.push(*b);
                    }
                    cell(o, key, lab, ".off");
                }
                PB::Addr(l) => {
                    key.push('a');
                    cell(l, key, lab, ".addr");
                }
                PB::Obj(o, path) => {
                    key.push_str(&format!("p{}", o));
                    for (j, x) in path.iter().enumerate() {
                        match x {
                            Pr::F(i) => key.push_str(&format!(".{}", i)),
                            Pr::D(i) => key.push_str(&format!(":{}", i)),
                            Pr::I(l) => {
                                key.push('[');
                                // short arrays are gone through element by element
                                if let Some(k) = l.as_const() {
                                    if k < 40 {
                                        key.push_str(&format!("={}", k));
                                    }
                                }
                                cell(l, key, lab, &format!(".idx{}", j));
                            }
                        }
                    }
                }
            }
            if let Some(m) = &p.meta {
                cell(m, key, lab, ".len");
            }
        }
        Val::Agg(f) => {
            key.push('(');
            let n = lab.len();
            for (i, x) in f.iter().enumerate() {
                lab.push_str(&format!(".{}", i));
                walk(e, x, key, cells, bufs, lab, rb);
                lab.truncate(n);
            }
            key.push(')');
        }
        Val::Enum(d, f) => {
            key.push_str(&format!("E{}(", d));
            let n = lab.len();
            for (i, x) in f.iter().enumerate() {
                lab.push_str(&format!(":{}.{}", d, i));
                walk(e, x, key, cells, bufs, lab, rb);
                lab.truncate(n);
            }
            key.push(')');
        }
        Val::M(m) => {
            key.push_str(&format!("M{}<", m.kind));
            let n = lab.len();
            for (i, x) in m.v.iter().enumerate() {
                lab.push_str(&format!(".{}{}", m.kind, i));
                // flags of a model are part of the shape
                if let (("mapit", 1 | 3) | ("map", 3) | ("entry", 2) | ("vecit", 3) | ("arrit", 0 | 1), Val::Int(l)) = ((m.kind, i), x) {
                    if let Some(k) = l.as_const() {
                        key.push_str(&format!("={}", k));
                    }
                }
                walk(e, x, key, cells, bufs, lab, rb);
                lab.truncate(n);
            }
            key.push('>');
        }
    }
}

/// Rewrites the cells (in `shape` order) of a memory value.
fn rewrite(v: &Val, cells: &mut dyn Iterator<Item = Lin>, bufs: &mut dyn Iterator<Item = Buf>, rb: usize) -> Val {
    match v {
        Val::Int(_) => Val::Int(cells.next().unwrap()),
        Val::Ptr(p) => {
            let b = match &p.b {
                PB::Buf(b, _) => {
                    let nb = if (*b as usize) < rb { *b } else { bufs.next().unwrap() };
                    PB::Buf(nb, cells.next().unwrap())
                }
                PB::Addr(_) => PB::Addr(cells.next().unwrap()),
                PB::Obj(o, path) => PB::Obj(
                    *o,
                    path.iter()
                        .map(|x| match x {
                            Pr::I(_) => Pr::I(cells.next().unwrap()),
                            x => x.clone(),
                        })
                        .collect(),
                ),
            };
            let meta = p.meta.as_ref().map(|_| cells.next().unwrap());
            Val::Ptr(Rc::new(PtrV { b, meta, ty: p.ty }))
        }
        Val::Agg(f) => Val::agg(f.iter().map(|x| rewrite(x, cells, bufs, rb)).collect()),
        Val::Enum(d, f) => Val::en(*d, f.iter().map(|x| rewrite(x, cells, bufs, rb)).collect()),
        Val::M(m) => Val::m(m.kind, m.ty, m.v.iter().map(|x| rewrite(x, cells, bufs, rb)).collect()),
        x => x.clone(),
    }
}

fn find_bool(v: &Val) -> Option<BE> {
    match v {
        Val::Bool(BE::C(_)) => None,
        Val::Bool(b) => Some(b.clone()),
        Val::Agg(f) | Val::Enum(_, f) => f.iter().find_map(find_bool),
        Val::M(m) => m.v.iter().find_map(find_bool),
        _ => None,
    }
}
fn set_bool(v: &Val, b: &BE, x: bool) -> Val {
    match v {
        Val::Bool(c) if c == b => Val::b(x),
        Val::Bool(c) if *c == b.clone().not() => Val::b(!x),
        Val::Agg(f) => Val::agg(f.iter().map(|y| set_bool(y, b, x)).collect()),
        Val::Enum(d, f) => Val::en(*d, f.iter().map(|y| set_bool(y, b, x)).collect()),
        Val::M(m) => Val::m(m.kind, m.ty, m.v.iter().map(|y| set_bool(y, b, x)).collect()),
        v => v.clone(),
    }
}

/// The node an arriving state belongs to. (One that has got here by way of a value at a key that is not the focus is
/// taken for one that has not, if there is one of the same shape: the value is no longer at hand.)
fn node_for(nodes: &[Node], key: &str, s: &State) -> Option<usize> {
    let at = |f: bool| nodes.iter().position(|n| n.key == key && n.st.taint.is_some() == s.taint.is_some() && n.st.foreign == f);
    if s.foreign {
        at(false).or_else(|| at(true))
    } else {
        at(false)
    }
}

impl<'p> Eng<'p> {
    pub fn exec_comps(&mut self, fr: &Fr<'p>, comps: &[Comp], pend: &mut Pend, rets: &mut Vec<State>) {
        for c in comps {
            if self.gave_up.is_some() {
                return;
            }
            match c {
                Comp::V(b) => {
                    let sts = match pend.remove(b) {
                        Some(s) => s,
                        None => continue,
                    };
                    let sts = if sts.len() > 1 { self.dedup(fr, *b, sts) } else { sts };
                    for st in sts {
                        for s in self.exec_stmts(fr, *b, st) {
                            let (outs, r) = self.term(fr, *b, s);
                            for (t, s) in outs {
                                pend.entry(t).or_default().push(s);
                            }
                            rets.extend(r);
                        }
                    }
                }
                Comp::Loop(h, inner) => self.run_loop(fr, *h, inner, pend, rets),
            }
            if self.c.deadline < std::time::Instant::now() || self.steps > self.max_steps {
                if self.gave_up.is_none() {
                    self.gave_up = Some(format!("analysis budget exhausted in {}", self.p.insts[fr.inst].path));
                }
                return;
            }
        }
    }

    fn dedup(&mut self, fr: &Fr<'p>, b: usize, sts: Vec<State>) -> Vec<State> {
        let mut out: Vec<State> = vec![];
        for mut s in sts {
            self.prune(fr, b, &mut s);
            if !out.iter().any(|o| self.same_state(o, &s)) {
                out.push(s);
            }
        }
        if self.unroll.is_some() {
            // some of the paths are as good as all of them
            out.truncate(1500);
        } else if out.len() > 1500 && self.gave_up.is_none() {
            self.gave_up = Some(format!("too many states in {}", self.p.insts[fr.inst].path));
        }
        out
    }

    fn split_bools(&mut self, st: State) -> Vec<State> {
        let mut work = vec![st];
        let mut out = vec![];
        while let Some(s) = work.pop() {
            let f = s.mem.values().find_map(|v| find_bool(v));
            match f {
                None => out.push(s),
                Some(b) => {
                    for pol in [true, false] {
                        for mut t in self.c.assume(s.clone(), &b, pol) {
                            let m = Rc::make_mut(&mut t.mem);
                            for v in m.values_mut() {
                                *v = Rc::new(set_bool(v, &b, pol));
                            }
                            work.push(t);
                        }
                    }
                }
            }
        }
        out
    }

    fn body_once(&mut self, fr: &Fr<'p>, h: usize, inner: &[Comp], sts: Vec<State>, extra: &Pend) -> NodeRes {
        let mark = self.obls.len();
        let mut lp: Pend = extra.clone();
        lp.insert(h, sts);
        let mut rets = vec![];
        self.exec_comps(fr, inner, &mut lp, &mut rets);
        let back = lp.remove(&h).unwrap_or_default();
        let obls = self.obls.split_off(mark);
        NodeRes { back, exits: lp, rets, obls }
    }
    fn publish(&mut self, r: NodeRes, pend: &mut Pend, rets: &mut Vec<State>) {
        for (b, s) in r.exits {
            pend.entry(b).or_default().extend(s);
        }
        rets.extend(r.rets);
        self.obls.extend(r.obls);
    }

    fn norm(&mut self, fr: &Fr<'p>, h: usize, sts: Vec<State>) -> Vec<State> {
        let mut v = vec![];
        for mut s in sts {
            self.prune(fr, h, &mut s);
            v.extend(self.split_bools(s));
        }
        self.dedup(fr, h, v)
    }

    fn run_loop(&mut self, fr: &Fr<'p>, h: usize, inner: &[Comp], pend: &mut Pend, rets: &mut Vec<State>) {
        let mut blocks = BTreeSet::new();
        fn coll(c: &[Comp], s: &mut BTreeSet<usize>) {
            for x in c {
                match x {
                    Comp::V(b) => {
                        s.insert(*b);
                    }
                    Comp::Loop(h, i) => {
                        s.insert(*h);
                        coll(i, s);
                    }
                }
            }
        }
        coll(inner, &mut blocks);
        let entry = pend.remove(&h).unwrap_or_default();
        let mut extra: Pend = BTreeMap::new();
        for b in &blocks {
            if let Some(s) = pend.remove(b) {
                extra.insert(*b, s);
            }
        }
        if entry.is_empty() && extra.is_empty() {
            return;
        }
        let entry = self.norm(fr, h, entry);
        let name = self.p.insts[fr.inst].path.clone();
        let lk = (name.clone(), h);

        if let Some(k) = self.unroll {
            self.run_unrolled(fr, h, inner, entry, &extra, k, pend, rets);
            return;
        }

        // loops with a constant trip count are simply followed
        let failed = self.loops_seen.get(&lk).cloned().unwrap_or(0) == 1;
        if !failed && extra.is_empty() {
            let mark = self.obls.len();
            let mut cur = entry.clone();
            let mut acc: Vec<NodeRes> = vec![];
            let mut ok = false;
            for it in 0..300 {
                let r = self.body_once(fr, h, inner, cur, &extra);
                let quiet = r.exits.values().all(|v| v.is_empty()) && r.rets.is_empty();
                let back = self.norm(fr, h, r.back.clone());
                acc.push(r);
                if back.is_empty() {
                    ok = true;
                    break;
                }
                if (!quiet && it >= 1) || back.len() > 8 || self.gave_up.is_some() {
                    break;
                }
                cur = back;
            }
            self.obls.truncate(mark);
            if ok {
                for r in acc {
                    self.publish(r, pend, rets);
                }
                return;
            }
            self.loops_seen.insert(lk.clone(), 1);
        }
        let mut parts: Vec<Vec<State>> = vec![];
        if entry.len() <= 6 {
            for e in entry {
                parts.push(vec![e]);
            }
        } else {
            parts.push(entry);
        }
        if parts.is_empty() {
            parts.push(vec![]);
        }
        for p in parts {
            self.fixpoint(fr, h, inner, p, &extra, pend, rets);
            if self.gave_up.is_some() {
                return;
            }
        }
    }

    fn run_unrolled(&mut self, fr: &Fr<'p>, h: usize, inner: &[Comp], entry: Vec<State>, extra: &Pend, k: usize, pend: &mut Pend, rets: &mut Vec<State>) {
        let mut cur = entry;
        let mut quiet_runs = 0;
        let mut it = 0;
        while !cur.is_empty() && it <= k + quiet_runs && quiet_runs < 300 {
            let mut next = vec![];
            let mut quiet = true;
            for s in cur {
                let rb = self.c.bufs.len();
                let (key, cells, _) = shape(self, &s, rb);
                let nd = self.nondet;
                let r = self.body_once(fr, h, inner, vec![s], extra);
                let back = self.norm(fr, h, r.back.clone());
                if !r.exits.values().all(|v| v.is_empty()) || !r.rets.is_empty() {
                    quiet = false;
                }
                for b in &back {
                    let (k2, c2, _) = shape(self, b, rb);
                    if k2 == key && nd == self.nondet && self.term_checked(fr) {
                        let same = cells.iter().zip(c2.iter()).all(|(x, y)| self.c.equal(b, &x.v, &y.v));
                        if same {
                            let sp = fr.body.blocks[h].sp.clone();
                            if let Some(f) = self.stack.last_mut() {
                                f.span = sp;
                            }
                            let l = format!("loop in {}", self.p.insts[fr.inst].path);
                            self.obl("term", l, Some(b), false, "an iteration leaves every variable unchanged".into());
                        }
                    }
                }
                self.publish(r, pend, rets);
                next.extend(back);
            }
            if quiet {
                quiet_runs += 1;
            }
            it += 1;
            cur = self.dedup(fr, h, next);
            if cur.len() > 200 {
                if std::env::var("ABSINT_DEBUG").is_ok() { eprintln!("truncated {} at {} it {}", cur.len(), self.p.insts[fr.inst].path, it); }
                cur.truncate(200);
            }
            if self.gave_up.is_some() {
                return;
            }
        }
    }

    fn term_checked(&self, fr: &Fr<'p>) -> bool {
        let i = &self.p.insts[fr.inst];
        if i.path.contains("term_") {
            return true;
        }
        !i.krate.starts_with("harness") && self.has_local()
    }

    fn fixpoint(&mut self, fr: &Fr<'p>, h: usize, inner: &[Comp], entry: Vec<State>, extra: &Pend, pend: &mut Pend, rets: &mut Vec<State>) {
        let rb = self.c.bufs.len();
        let mut nodes: Vec<Node> = vec![];
        let name = self.p.insts[fr.inst].path.clone();
        for e in entry {
            self.arrive(&mut nodes, e, rb, true);
        }
        let mut runs = 0;
        let debug = self.dbg;
        loop {
            let i = match nodes.iter().position(|n| n.res.is_none()) {
                Some(i) => i,
                None => break,
            };
            runs += 1;
            if runs > 150 || nodes.len() > 40 {
                self.gave_up = Some(format!("no stable loop invariant in {} ({} nodes)", name, nodes.len()));
                return;
            }
            let st = nodes[i].st.clone();
            if debug {
                eprintln!("LOOP {} bb{} node {} run {} phis {} cons {} ifacts {}", name, h, i, runs, nodes[i].phis.len(), st.cons.len(), st.ifacts.len());
            }
            let ex = if i == 0 { extra.clone() } else { BTreeMap::new() };
            let mut r = self.body_once(fr, h, inner, vec![st], &ex);
            if self.gave_up.is_some() {
                self.obls.extend(r.obls);
                return;
            }
            let back = self.norm(fr, h, std::mem::take(&mut r.back));
            r.back = back.clone();
            nodes[i].res = Some(r);
            for b in back {
                self.arrive(&mut nodes, b, rb, false);
            }
        }
        if self.term_checked(fr) {
            let (ok, why) = self.ranking(&nodes, rb);
            let sp = fr.body.blocks[h].sp.clone();
            if let Some(f) = self.stack.last_mut() {
                f.span = sp;
            }
            let st = nodes.first().map(|n| n.st.clone());
            self.obl("term", format!("loop in {}", name), st.as_ref(), ok, why);
        }
        if debug {
            for (i, n) in nodes.iter().enumerate() {
                eprintln!("STABLE {} bb{} node {} key {}", name, h, i, n.key);
                self.dump_facts(&n.st);
                let (_, c, _) = shape(self, &n.st, rb);
                for x in c {
                    eprintln!("     cell {} = {}", x.label, self.c.show_lin(&x.v));
                }
            }
        }
        let counters = self.counters(&nodes, rb);
        if debug {
            eprintln!("COUNTERS {} {:?}", name, counters);
        }
        for n in nodes {
            if let Some(mut r) = n.res {
                for o in r.obls.iter_mut().filter(|o| !o.ok) {
                    for (s, first, step) in &counters {
                        let hit = o.witness.iter().find(|(x, k)| x == s && (k - first) % step == 0 && (k - first) / step >= 0).cloned();
                        if let Some((_, k)) = hit {
                            o.abstracted = false;
                            o.detail += &format!(" in round {} of {}", (k - first) / step, name);
                            break;
                        }
                    }
                }
                self.publish(r, pend, rets);
            }
        }
    }

    /// Variables that start with a constant and change by the same amount in every round: (phi, first, step).
    fn counters(&mut self, nodes: &[Node], rb: usize) -> Vec<(Sym, i128, i128)> {
        let mut out = vec![];
        for (at, n) in nodes.iter().enumerate() {
            let (_, cells, _) = shape(self, &n.st, rb);
            for (i, c) in cells.iter().enumerate() {
                let s = match c.v.t.as_slice() {
                    [(s, 1)] if c.v.k == 0 && n.phis.iter().any(|p| p.0 == *s) => *s,
                    _ => continue,
                };
                let mut first: Vec<Option<i128>> = n.entries.iter().map(|e| e.get(i).and_then(|c| c.v.as_const())).collect();
                let mut steps: Vec<Option<i128>> = vec![];
                for (j, m) in nodes.iter().enumerate() {
                    let back = m.res.as_ref().map(|r| r.back.clone()).unwrap_or_default();
                    for b in back {
                        let (k2, c2, _) = shape(self, &b, rb);
                        if node_for(nodes, &k2, &b) != Some(at) {
                            continue;
                        }
                        let v = match c2.get(i) {
                            Some(x) => self.c.canon(&b, &x.v),
                            None => continue,
                        };
                        if j == at {
                            steps.push(self.c.canon(&b, &v.sub(&c.v)).as_const());
                        } else {
                            first.push(v.as_const());
                        }
                    }
                }
                let one = |v: &[Option<i128>]| match v.first() {
                    Some(Some(x)) if v.iter().all(|y| *y == Some(*x)) => Some(*x),
                    _ => None,
                };
                if let (Some(f), Some(d)) = (one(&first), one(&steps)) {
                    if d != 0 {
                        out.push((s, f, d));
                    }
                }
            }
        }
        out
    }

    fn phis_in(&self, l: &Lin, out: &mut BTreeSet<Sym>) {
        for (s, _) in &l.t {
            match &self.c.syms[*s as usize].def {
                Some(d) => {
                    for a in &d.a {
                        if let TArg::L(x) = a {
                            self.phis_in(x, out);
                        }
                    }
                }
                None if self.c.syms[*s as usize].name.starts_with("phi") => {
                    out.insert(*s);
                }
                None => {}
            }
        }
    }
    fn phis_in_be(&self, b: &BE, out: &mut BTreeSet<Sym>) {
        match b {
            BE::C(_) => {}
            BE::Ge(l) | BE::Eq(l) => self.phis_in(l, out),
            BE::Atom(d) => {
                for a in &d.a {
                    if let TArg::L(x) = a {
                        self.phis_in(x, out);
                    }
                }
            }
            BE::Not(a) => self.phis_in_be(a, out),
            BE::And(a, b) | BE::Or(a, b) => {
                self.phis_in_be(a, out);
                self.phis_in_be(b, out);
            }
        }
    }
    fn subst_be(&mut self, st: &State, b: &BE, map: &HashMap<Sym, Lin>) -> BE {
        match b {
            BE::C(x) => BE::C(*x),
            BE::Ge(l) => BE::ge(self.subst_deep(st, l, map)),
            BE::Eq(l) => BE::eq(self.subst_deep(st, l, map)),
            BE::Atom(d) => BE::Atom(Rc::new(self.subst_def(st, d, map))),
            BE::Not(a) => self.subst_be(st, a, map).not(),
            BE::And(x, y) => {
                let (x, y) = (self.subst_be(st, x, map), self.subst_be(st, y, map));
                BE::and(x, y)
            }
            BE::Or(x, y) => {
                let (x, y) = (self.subst_be(st, x, map).not(), self.subst_be(st, y, map).not());
                BE::and(x, y).not()
            }
        }
    }
    /// Values of loop variables for which a condition that holds (or is not met) in the first rounds is false, whatever the values of
    /// all others are. Whether they are reached is seen when the loop is stable (`counters`).
    pub fn witnesses_of(&mut self, st: &State, be: &BE) -> Vec<(Sym, i128)> {
        const AT: [i128; 34] = [
            0, 1, 2, 3, 7, 8, 9, 10, 11, 15, 16, 31, 32, 63, 64, 99, 100, 101, 127, 128, 199, 200, 255, 256, 257, 999, 1000, 4096, 32768, 65535, 65536, 100000,
            1 << 31, 1 << 32,
        ];
        let mut out = vec![];
        if !st.abstracted || st.taint.is_some() || st.foreign || self.unroll.is_some() || self.witnesses == 0 {
            return out;
        }
        self.witnesses -= 1;
        let mut phis = BTreeSet::new();
        self.phis_in_be(be, &mut phis);
        for s in phis.into_iter().take(3) {
            let mut holds = false;
            if self.dbg {
                eprintln!("WITNESS {}", self.c.syms[s as usize].name);
            }
            for k in AT {
                let at = BE::eq(Lin::s(s).addc(-k));
                let there: Vec<State> = self.c.assume(st.clone(), &at, true);
                let there: Vec<State> = there.into_iter().filter(|t| !self.c.refute(t, 2)).collect();
                if there.is_empty() {
                    // the path is taken later
                    holds |= k > 0;
                    continue;
                }
                let map: HashMap<Sym, Lin> = [(s, Lin::c(k))].into_iter().collect();
                let (mut never, mut always) = (true, true);
                for t in there {
                    let b = self.subst_be(&t, be, &map);
                    let yes = self.c.assume(t.clone(), &b, true);
                    if yes.iter().any(|x| !self.c.refute(x, 2)) {
                        never = false;
                    }
                    let no = self.c.assume(t.clone(), &b, false);
                    if no.iter().any(|x| !self.c.refute(x, 2)) {
                        always = false;
                    }
                }
                if self.dbg {
                    eprintln!("  {} never {} always {}", k, never, always);
                }
                if always {
                    holds = true;
                } else if never && holds {
                    out.push((s, k));
                    break;
                } else if k < 2 {
                    break;
                }
            }
        }
        out
    }

    // ------------------------------------------------------------ joining

    fn arrive(&mut self, nodes: &mut Vec<Node>, mut s: State, rb: usize, outside: bool) {
        if !self.c.separate(&mut s) {
            return;
        }
        let (key, cells, bufs) = shape(self, &s, rb);
        let idx = node_for(nodes, &key, &s);
        let i = match idx {
            None => {
                nodes.push(Node { st: s, key, phis: vec![], bufphis: vec![], res: None, entries: if outside { vec![cells] } else { vec![] } });
                return;
            }
            Some(i) => i,
        };
        if outside {
            nodes[i].entries.push(cells.clone());
        }
        let changed = self.join(&mut nodes[i], s, cells, bufs, rb);
        if changed {
            nodes[i].res = None;
        }
    }

    fn join(&mut self, n: &mut Node, s: State, a: Vec<Cell>, abufs: Vec<Buf>, rb: usize) -> bool {
        let (_, ncells, nbufs) = shape(self, &n.st, rb);
        let mut newbufs = nbufs.clone();
        let mut bufchange = false;
        for (i, (x, y)) in nbufs.iter().zip(abufs.iter()).enumerate() {
            if x != y && !n.bufphis.iter().any(|b| b.0 == i) {
                let l = self.c.fresh_lin("blen", 0, i64::MAX as i128);
                let b = self.c.add_buf(BufK::Input, l, "phi");
                n.bufphis.push((i, b));
                newbufs[i] = b;
                bufchange = true;
            }
        }
        // value of each phi in the arriving state
        let mut map: HashMap<Sym, Lin> = HashMap::new();
        for (p, ci) in &n.phis {
            map.insert(*p, self.c.canon(&s, &a[*ci].v));
        }
        let mut old: HashMap<Sym, Lin> = HashMap::new(); // new phi -> value in the old node
        let mut promoted: Vec<(usize, Lin, Lin)> = vec![];
        for (i, (x, y)) in ncells.iter().zip(a.iter()).enumerate() {
            let e = self.subst_deep(&s, &x.v, &map);
            if !self.c.equal(&s, &e, &y.v) {
                promoted.push((i, x.v.clone(), y.v.clone()));
            }
        }
        let mut newcells: Vec<Lin> = ncells.iter().map(|c| c.v.clone()).collect();
        let mut newphis: Vec<Sym> = vec![];
        let mut groups: Vec<(Lin, Lin, Sym)> = vec![];
        for (i, nv, av) in &promoted {
            let nv = self.c.canon(&n.st, nv);
            let av = self.c.canon(&s, av);
            let mut done = false;
            for (gn, ga, p) in &groups {
                let dn = nv.sub(gn);
                let da = av.sub(ga);
                if dn.is_const() && dn == da {
                    newcells[*i] = Lin::s(*p).add(&dn);
                    done = true;
                    break;
                }
            }
            if done {
                continue;
            }
            let p = self.c.fresh(&format!("phi_{}", ncells[*i].label), None, None);
            groups.push((nv.clone(), av.clone(), p));
            newcells[*i] = Lin::s(p);
            n.phis.push((p, *i));
            newphis.push(p);
            map.insert(p, av.clone());
            old.insert(p, nv.clone());
        }
        // keep the facts of the node that the arriving state satisfies
        let o = n.st.clone();
        let mut dropped = false;
        let buf_lost = |b: Buf, n: &Node| n.bufphis.iter().any(|x| x.1 == b) && bufchange;
        let _ = buf_lost;
        let mut st = o.clone();
        {
            let mut keep: HashMap<Sym, Lin> = HashMap::new();
            let mut lost: Vec<(Sym, Lin)> = vec![];
            for (k, v) in o.subst.iter() {
                let same = s.subst.get(k).map_or(false, |x| x == v) && !map.contains_key(k) && !v.t.iter().any(|t| map.contains_key(&t.0));
                let ok = same || {
                    let l = Lin::s(*k).sub(v);
                    let l = self.subst_deep(&s, &l, &map);
                    self.c.equal(&s, &l, &Lin::c(0))
                };
                if ok {
                    keep.insert(*k, v.clone());
                } else {
                    dropped = true;
                    lost.push((*k, v.clone()));
                }
            }
            st.subst = Rc::new(keep);
            let mut keep = vec![];
            for l in o.cons.iter() {
                let m = if self.mentions(l, &map) { self.subst_deep(&s, l, &map) } else { l.clone() };
                if self.c.entails(&s, &m) {
                    keep.push(l.clone());
                } else {
                    // a weaker bound of the same form may survive
                    for k in [-16i128, -8, -4, -1, 0, 1, 4, 255, 65535, (1 << 32) - 1, i64::MAX as i128, u64::MAX as i128] {
                        if k > 4 && l.t.len() > 1 {
                            break;
                        }
                        if k > l.k && self.c.entails(&s, &m.addc(k - l.k)) {
                            keep.push(l.addc(k - l.k));
                            break;
                        }
                    }
                    dropped = true;
                }
            }
            st.cons = Rc::new(keep);
            // what the lost equalities implied
            lost.sort();
            for (k, v) in lost {
                let ks = Lin::s(k);
                let d = ks.sub(&v);
                let mut weaker = vec![ks.clone(), ks.neg().addc(i64::MAX as i128), d.clone(), d.neg()];
                for c in o.cons.iter() {
                    for (x, q) in &c.t {
                        let r = v.coef(*x);
                        if r != 0 && q % r == 0 {
                            weaker.push(c.axpy(q / r, &d));
                        }
                    }
                }
                for l in weaker {
                    if l.is_const() || !self.c.entails(&o, &l) {
                        continue;
                    }
                    let m = self.subst_deep(&s, &l, &map);
                    if self.c.entails(&s, &m) && !self.c.entails(&st, &l) {
                        Rc::make_mut(&mut st.cons).push(l);
                    }
                }
            }
            let mut keep = vec![];
            for l in o.ne.iter() {
                let m = self.subst_deep(&s, l, &map);
                if self.entails_ne(&s, &m) {
                    keep.push(l.clone());
                } else {
                    dropped = true;
                }
            }
            st.ne = Rc::new(keep);
            let mut keep = BTreeMap::new();
            for (d, v) in o.atoms.iter() {
                let m = self.subst_def(&s, d, &map);
                if self.c.eval_atom(&s, &m) == Some(*v) {
                    keep.insert(d.clone(), *v);
                } else {
                    dropped = true;
                }
            }
            st.atoms = Rc::new(keep);
            let mut keep = vec![];
            for f in o.ifacts.iter() {
                let x = self.subst_deep(&s, &f.a, &map);
                let y = self.subst_deep(&s, &f.b, &map);
                let fixed = !self.mentions(&f.a, &map) && !self.mentions(&f.b, &map);
                if (fixed && s.ifacts.contains(f)) || self.c.covered(&s, &[&f.tag], f.buf, &x, &y) {
                    keep.push(f.clone());
                } else {
                    dropped = true;
                }
            }
            st.ifacts = Rc::new(keep);
            let mut keep = vec![];
            for f in o.rfacts.iter() {
                let g = RFact { tag: f.tag.clone(), buf: f.buf, v: f.v.iter().map(|l| self.subst_deep(&s, l, &map)).collect() };
                if self.has_rfact(&s, &g) {
                    keep.push(f.clone());
                } else {
                    dropped = true;
                }
            }
            st.rfacts = Rc::new(keep);
        }
        if promoted.is_empty() && !dropped && !bufchange {
            return false;
        }
        self.c.stamp += 1;
        st.stamp = self.c.stamp;
        st.abstracted = st.abstracted || !promoted.is_empty() || bufchange;
        if s.taint.is_some() && st.taint.is_none() {
            st.taint = s.taint.clone();
        }
        // memory template
        {
            let mut ci = newcells.iter().cloned();
            let mut bi = newbufs.iter().cloned();
            let mut m = BTreeMap::new();
            for (k, v) in o.mem.iter() {
                m.insert(*k, Rc::new(rewrite(v, &mut ci, &mut bi, rb)));
            }
            st.mem = Rc::new(m);
        }
        if !newphis.is_empty() {
            self.candidates(n, &o, &s, &newcells, &map, &old, &newphis, &mut st);
        }
        n.st = st;
        true
    }

    fn mentions(&self, l: &Lin, map: &HashMap<Sym, Lin>) -> bool {
        l.t.iter().any(|(s, _)| {
            map.contains_key(s)
                || match &self.c.syms[*s as usize].def {
                    Some(d) => d.a.iter().any(|a| matches!(a, TArg::L(x) if self.mentions(x, map))),
                    None => false,
                }
        })
    }
    pub fn subst_deep(&mut self, st: &State, l: &Lin, map: &HashMap<Sym, Lin>) -> Lin {
        if map.is_empty() || !self.mentions(l, map) {
            return self.c.canon(st, l);
        }
        let mut r = Lin::c(l.k);
        for (s, c) in &l.t {
            let x = if let Some(v) = map.get(s) {
                v.clone()
            } else {
                match self.c.syms[*s as usize].def.clone() {
                    Some(d) if d.a.iter().any(|a| matches!(a, TArg::L(x) if self.mentions(x, map))) => {
                        let (lo, hi) = (self.c.syms[*s as usize].lo, self.c.syms[*s as usize].hi);
                        let a: Vec<TArg> = d
                            .a
                            .iter()
                            .map(|a| match a {
                                TArg::L(x) => TArg::L(self.subst_deep(st, x, map)),
                                a => a.clone(),
                            })
                            .collect();
                        self.c.remake_pub(d.op, a, lo, hi)
                    }
                    _ => Lin::s(*s),
                }
            };
            r = r.axpy(*c, &x);
        }
        self.c.canon(st, &r)
    }
    fn subst_def(&mut self, st: &State, d: &Def, map: &HashMap<Sym, Lin>) -> Def {
        Def {
            op: d.op,
            a: d.a
                .iter()
                .map(|a| match a {
                    TArg::L(x) => TArg::L(self.subst_deep(st, x, map)),
                    a => a.clone(),
                })
                .collect(),
        }
    }
    fn entails_ne(&mut self, s: &State, l: &Lin) -> bool {
        let l = self.c.canon(s, l);
        if let Some(k) = l.as_const() {
            return k != 0;
        }
        s.ne.contains(&l) || s.ne.contains(&l.neg()) || self.c.entails(s, &l.addc(-1)) || self.c.entails(s, &l.neg().addc(-1)) || {
            let mut t = s.clone();
            !self.c.add_eq(&mut t, &l)
        }
    }
    fn has_rfact(&mut self, s: &State, g: &RFact) -> bool {
        let c = s.rfacts.clone();
        for f in c.iter() {
            if f.tag == g.tag && f.buf == g.buf && f.v.len() == g.v.len() {
                let ok = f.v.iter().zip(g.v.iter()).all(|(x, y)| self.c.equal(s, x, y));
                if ok {
                    return true;
                }
            }
        }
        false
    }

    /// Adds to `st` the candidate invariants about new phis that hold both in the old node and in
    /// the arriving state.
    fn candidates(&mut self, n: &Node, o: &State, s: &State, cells: &[Lin], map: &HashMap<Sym, Lin>, old: &HashMap<Sym, Lin>, newphis: &[Sym], st: &mut State) {
        let mut ge: Vec<Lin> = vec![];
        let mut seen: HashSet<Lin> = HashSet::new();
        let mut push = |l: Lin, ge: &mut Vec<Lin>| {
            if !l.is_const() && seen.insert(l.clone()) {
                ge.push(l);
            }
        };
        let allphis: Vec<Sym> = n.phis.iter().map(|x| x.0).collect();
        let mut rigid: Vec<Lin> = vec![];
        for c in cells {
            let has_phi = c.t.iter().any(|t| allphis.contains(&t.0));
            if !has_phi && !c.is_const() && !rigid.contains(c) && rigid.len() < 40 {
                rigid.push(c.clone());
            }
        }
        for b in self.c.bufs.iter() {
            if !b.len.is_const() && matches!(b.k, BufK::Input) && !rigid.contains(&b.len) && rigid.len() < 48 {
                rigid.push(b.len.clone());
            }
        }
        // weak facts first: they survive when a stronger one is dropped later
        for p in newphis {
            let f = Lin::s(*p);
            push(f.clone(), &mut ge);
            push(f.neg().addc(i64::MAX as i128), &mut ge);
        }
        for p in newphis {
            let f = Lin::s(*p);
            let e = old[p].clone();
            push(f.sub(&e), &mut ge);
            push(e.sub(&f), &mut ge);
        }
        for p in newphis {
            let f = Lin::s(*p);
            let e = old[p].clone();
            push(f.sub(&e), &mut ge);
            push(e.sub(&f), &mut ge);
            for k in [0i128, 1, 4, 16] {
                push(f.addc(-k), &mut ge);
            }
            for k in [0i128, 255, 65535, (1 << 32) - 1, i64::MAX as i128, u64::MAX as i128] {
                push(f.neg().addc(k), &mut ge);
            }
            push(f.addc(1i128 << 31), &mut ge);
            push(f.addc(1i128 << 63), &mut ge);
            for w in &rigid {
                push(w.sub(&f), &mut ge);
                push(f.sub(w), &mut ge);
            }
            for q in &allphis {
                if q == p {
                    continue;
                }
                let g = Lin::s(*q);
                push(f.sub(&g), &mut ge);
                push(g.sub(&f), &mut ge);
                let eq = old.get(q).cloned().unwrap_or(g.clone());
                let d = e.sub(&eq);
                if old.contains_key(q) {
                    push(f.sub(&g).sub(&d), &mut ge);
                    push(g.sub(&f).add(&d), &mut ge);
                    let d = e.add(&eq);
                    push(f.add(&g).sub(&d), &mut ge);
                    push(d.sub(&f).sub(&g), &mut ge);
                }
            }
        }
        // facts of both states with the old values renamed to phis
        let mut ren_o: HashMap<Sym, Lin> = HashMap::new();
        let mut ren_s: HashMap<Sym, Lin> = HashMap::new();
        for p in newphis {
            for (v, ren) in [(&old[p], &mut ren_o), (&map[p], &mut ren_s)] {
                let t: Vec<&(Sym, i128)> = v.t.iter().collect();
                // choose the newest symbol with unit coefficient
                if let Some((x, c)) = t.iter().rev().find(|t| t.1.abs() == 1).map(|t| (t.0, t.1)) {
                    let rest = Lin { k: v.k, t: v.t.iter().filter(|y| y.0 != x).cloned().collect() };
                    ren.entry(x).or_insert(Lin::s(*p).sub(&rest).scale(c));
                }
            }
        }
        let mut eqs: Vec<Lin> = vec![];
        let mut nes: Vec<Lin> = vec![];
        let mut ats: Vec<(Def, bool)> = vec![];
        let mut ifs: Vec<IFact> = vec![];
        let mut rfs: Vec<RFact> = vec![];
        let blank = State::new();
        for (src, ren) in [(o, &ren_o), (s, &ren_s)] {
            for l in src.cons.iter() {
                if self.mentions(l, ren) {
                    let m = self.subst_deep(&blank, l, ren);
                    push(m, &mut ge);
                }
            }
            for (k, v) in src.subst.iter() {
                let l = Lin::s(*k).sub(v);
                if self.mentions(&l, ren) {
                    eqs.push(self.subst_deep(&blank, &l, ren));
                }
            }
            for l in src.ne.iter() {
                if self.mentions(l, ren) {
                    nes.push(self.subst_deep(&blank, l, ren));
                }
            }
            for (d, v) in src.atoms.iter() {
                let m = self.subst_def(&blank, d, ren);
                if m != **d {
                    ats.push((m, *v));
                }
            }
            for f in src.ifacts.iter() {
                let a = self.subst_deep(&blank, &f.a, ren);
                let b = self.subst_deep(&blank, &f.b, ren);
                ifs.push(IFact { tag: f.tag.clone(), buf: f.buf, a, b });
            }
            for f in src.rfacts.iter() {
                let v: Vec<Lin> = f.v.iter().map(|l| self.subst_deep(&blank, l, ren)).collect();
                if v != f.v {
                    rfs.push(RFact { tag: f.tag.clone(), buf: f.buf, v });
                }
            }
        }
        // interval candidates between interesting points
        let mut tags: Vec<(Rc<str>, Buf)> = vec![];
        for f in s.ifacts.iter().chain(o.ifacts.iter()) {
            let k = (f.tag.clone(), f.buf);
            if !tags.contains(&k) {
                tags.push(k);
            }
        }
        if !tags.is_empty() {
            let mut starts: Vec<Lin> = vec![Lin::c(0)];
            for p in &allphis {
                if let Some(e) = old.get(p) {
                    if !starts.contains(e) {
                        starts.push(e.clone());
                    }
                }
                starts.push(Lin::s(*p));
            }
            for r in &rigid {
                if !starts.contains(r) {
                    starts.push(r.clone());
                }
            }
            for (tag, buf) in &tags {
                for a in &starts {
                    for p in newphis {
                        for c in [0i128, 1] {
                            ifs.push(IFact { tag: tag.clone(), buf: *buf, a: a.clone(), b: Lin::s(*p).addc(c) });
                        }
                    }
                }
                for p in newphis {
                    let mut ends: Vec<Lin> = vec![old[p].clone()];
                    ends.extend(rigid.iter().take(12).filter(|r| **r != old[p]).cloned());
                    for r in ends {
                        for d in [0i128, -3] {
                            ifs.push(IFact { tag: tag.clone(), buf: *buf, a: Lin::s(*p).addc(d), b: r.addc(d) });
                        }
                    }
                }
            }
        }
        let only_known = |e: &Eng, l: &Lin| -> bool { known(e, l, &allphis) };
        for l in ge {
            if !only_known(self, &l) {
                continue;
            }
            let x = self.subst_deep(o, &l, old);
            if !self.c.entails(o, &x) {
                continue;
            }
            let y = self.subst_deep(s, &l, map);
            if !self.c.entails(s, &y) {
                continue;
            }

            if !self.c.entails(st, &l) {
                let _ = self.c.add_ge(st, &l);
            }
        }
        for l in eqs {
            let x = self.subst_deep(o, &l, old);
            let y = self.subst_deep(s, &l, map);
            if self.c.equal(o, &x, &Lin::c(0)) && self.c.equal(s, &y, &Lin::c(0)) {
                let _ = self.c.add_eq(st, &l);
            }
        }
        for l in nes {
            let x = self.subst_deep(o, &l, old);
            let y = self.subst_deep(s, &l, map);
            if self.entails_ne(o, &x) && self.entails_ne(s, &y) {
                let _ = self.c.add_ne(st, &l);
            }
        }
        for (d, v) in ats {
            let x = self.subst_def(o, &d, old);
            let y = self.subst_def(s, &d, map);
            if self.c.eval_atom(o, &x) == Some(v) && self.c.eval_atom(s, &y) == Some(v) {
                let _ = self.c.set_atom(st, &d, v);
            }
        }
        for f in ifs {
            let (xa, xb) = (self.subst_deep(o, &f.a, old), self.subst_deep(o, &f.b, old));
            if !self.c.covered_at(o, &f.tag, &[], f.buf, &xa, &xb) {
                continue;
            }
            let (ya, yb) = (self.subst_deep(s, &f.a, map), self.subst_deep(s, &f.b, map));
            if !self.c.covered_at(s, &f.tag, &[], f.buf, &ya, &yb) {
                continue;
            }
            if !self.c.covered(st, &[&f.tag], f.buf, &f.a, &f.b) {
                self.c.add_ifact(st, &f.tag, f.buf, &f.a, &f.b);
            }
        }
        for f in rfs {
            let x = RFact { tag: f.tag.clone(), buf: f.buf, v: f.v.iter().map(|l| self.subst_deep(o, l, old)).collect() };
            let y = RFact { tag: f.tag.clone(), buf: f.buf, v: f.v.iter().map(|l| self.subst_deep(s, l, map)).collect() };
            if self.has_rfact(o, &x) && self.has_rfact(s, &y) {
                self.c.add_rfact(st, &f.tag, f.buf, f.v.clone());
            }
        }
    }

    // ------------------------------------------------------------ termination

    fn ranking(&mut self, nodes: &[Node], rb: usize) -> (bool, String) {
        struct Edge {
            from: usize,
            to: usize,
            pre: HashMap<String, Lin>,
            post: HashMap<String, Lin>,
            st: State,
        }
        let mut edges: Vec<Edge> = vec![];
        for (i, n) in nodes.iter().enumerate() {
            let (_, nc, _) = shape(self, &n.st, rb);
            let pre: HashMap<String, Lin> = nc.iter().map(|c| (c.label.clone(), c.v.clone())).collect();
            for b in &n.res.as_ref().unwrap().back {
                let (k, ac, _) = shape(self, b, rb);
                let j = match node_for(&nodes, &k, b) {
                    Some(j) => j,
                    None => continue,
                };
                let post = ac.iter().map(|c| (c.label.clone(), c.v.clone())).collect();
                edges.push(Edge { from: i, to: j, pre: pre.clone(), post, st: b.clone() });
            }
        }
        let mut alive: Vec<usize> = (0..edges.len()).collect();
        loop {
            // edges inside strongly connected components of the node graph
            let reach = |a: usize, alive: &Vec<usize>| -> BTreeSet<usize> {
                let mut seen = BTreeSet::new();
                let mut w = vec![a];
                while let Some(x) = w.pop() {
                    for e in alive {
                        if edges[*e].from == x && seen.insert(edges[*e].to) {
                            w.push(edges[*e].to);
                        }
                    }
                }
                seen
            };
            let mut cyc = vec![];
            for e in &alive {
                if reach(edges[*e].to, &alive).contains(&edges[*e].from) || edges[*e].to == edges[*e].from {
                    cyc.push(*e);
                }
            }
            alive = cyc;
            if alive.is_empty() {
                return (true, String::new());
            }
            // candidate measures
            let mut labels: BTreeSet<String> = edges[alive[0]].pre.keys().cloned().collect();
            for e in &alive {
                labels.retain(|l| edges[*e].pre.contains_key(l) && edges[*e].post.contains_key(l));
            }
            let labels: Vec<String> = labels.into_iter().collect();
            let mut changing: Vec<String> = vec![];
            for l in &labels {
                for e in &alive {
                    let (x, y, s) = (&edges[*e].pre[l], &edges[*e].post[l], &edges[*e].st);
                    if !self.c.equal(s, x, y) {
                        changing.push(l.clone());
                        break;
                    }
                }
            }
            let mut meas: Vec<(i128, String, Option<String>)> = vec![];
            for l in &changing {
                meas.push((1, l.clone(), None));
                for m in &labels {
                    if m != l {
                        meas.push((1, m.clone(), Some(l.clone())));
                    }
                }
            }
            let mut progress = false;
            for (_, a, b) in meas {
                let val = |m: &HashMap<String, Lin>| -> Lin {
                    match &b {
                        Some(b) => m[&a].sub(&m[b]),
                        None => m[&a].clone(),
                    }
                };
                let mut strict = vec![];
                let mut ok = true;
                for e in &alive {
                    let ed = &edges[*e];
                    let (x, y) = (val(&ed.pre), val(&ed.post));
                    let d = x.sub(&y);
                    if self.c.entails(&ed.st, &d.addc(-1)) {
                        if self.c.entails(&ed.st, &x) {
                            strict.push(*e);
                        } else if !self.c.entails(&ed.st, &d) {
                            ok = false;
                            break;
                        }
                    } else if !self.c.entails(&ed.st, &d) {
                        ok = false;
                        break;
                    }
                }
                if ok && !strict.is_empty() {
                    alive.retain(|e| !strict.contains(e));
                    progress = true;
                    break;
                }
            }
            if !progress {
                let e = &edges[alive[0]];
                return (
                    false,
                    format!(
                        "no measure decreases on the iteration from node {} to node {} ({})",
                        e.from,
                        e.to,
                        changing.iter().map(|l| format!("{}: {} -> {}", l, self.c.show_lin(&e.pre[l]), self.c.show_lin(&e.post[l]))).collect::<Vec<_>>().join(", ")
                    ),
                );
            }
        }
    }
}

fn known(e: &Eng, l: &Lin, _phis: &[Sym]) -> bool {
    l.t.len() <= 12 && {
        let _ = e;
        true
    }
}
