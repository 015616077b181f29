//! Control-flow structure of a body: successors, weak topological order, liveness of locals.
use crate::ir::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone)]
pub enum Comp {
    V(usize),
    Loop(usize, Vec<Comp>),
}

pub struct Cfg {
    pub wto: Vec<Comp>,
    /// locals live at the entry of each block
    pub live: Vec<BTreeSet<usize>>,
    /// locals whose address is taken somewhere
    pub taken: BTreeSet<usize>,
    pub preds: Vec<usize>,
    pub loops: Vec<usize>,
}

pub fn succs(b: &Block) -> Vec<usize> {
    match &b.t {
        Tm::Goto(t) | Tm::Drop(_, t) => vec![*t],
        Tm::Switch(_, v, o) => {
            let mut r: Vec<usize> = v.iter().map(|x| x.1).collect();
            r.push(*o);
            r.sort();
            r.dedup();
            r
        }
        Tm::Call { target: Some(t), .. } => vec![*t],
        Tm::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}

fn use_place(p: &Place, as_def: bool, u: &mut BTreeSet<usize>, d: &mut BTreeSet<usize>) {
    if p.p.is_empty() && as_def {
        d.insert(p.l);
    } else {
        if !d.contains(&p.l) {
            u.insert(p.l);
        }
    }
    for x in &p.p {
        if let Pj::Index(i) = x {
            if !d.contains(i) {
                u.insert(*i);
            }
        }
    }
}
fn use_op(o: &Op, u: &mut BTreeSet<usize>, d: &mut BTreeSet<usize>) {
    if let Op::Copy(p) = o {
        use_place(p, false, u, d);
    }
}
fn use_rv(r: &Rv, u: &mut BTreeSet<usize>, d: &mut BTreeSet<usize>) {
    match r {
        Rv::Use(o) | Rv::Un(_, o) | Rv::Cast(_, o, _) | Rv::Repeat(o, _) => use_op(o, u, d),
        Rv::Ref(p) | Rv::Discr(p) | Rv::Len(p) => use_place(p, false, u, d),
        Rv::Agg(_, _, _, _, v) => v.iter().for_each(|o| use_op(o, u, d)),
        Rv::Bin(_, a, b) | Rv::CBin(_, a, b) => {
            use_op(a, u, d);
            use_op(b, u, d);
        }
        Rv::Other => {}
    }
}

pub fn build(body: &Body) -> Cfg {
    let n = body.blocks.len();
    let sc: Vec<Vec<usize>> = body.blocks.iter().map(succs).collect();
    let mut preds = vec![0; n];
    for s in &sc {
        for t in s {
            preds[*t] += 1;
        }
    }
    // liveness
    let mut taken = BTreeSet::new();
    let mut us = vec![];
    for b in &body.blocks {
        let mut u = BTreeSet::new();
        let mut d = BTreeSet::new();
        for (s, _) in &b.s {
            match s {
                St::Assign(p, r) => {
                    if let Rv::Ref(q) = r {
                        if !q.p.iter().any(|x| matches!(x, Pj::Deref)) {
                            taken.insert(q.l);
                        }
                    }
                    use_rv(r, &mut u, &mut d);
                    use_place(p, true, &mut u, &mut d);
                }
                St::SetDiscr(p, _) => use_place(p, false, &mut u, &mut d),
                St::Assume(o) => use_op(o, &mut u, &mut d),
                St::CopyNon(a, b, c) => {
                    use_op(a, &mut u, &mut d);
                    use_op(b, &mut u, &mut d);
                    use_op(c, &mut u, &mut d);
                }
            }
        }
        match &b.t {
            Tm::Switch(o, _, _) => use_op(o, &mut u, &mut d),
            Tm::Assert { cond, .. } => use_op(cond, &mut u, &mut d),
            Tm::Call { f, args, dest, .. } => {
                use_op(f, &mut u, &mut d);
                for a in args {
                    use_op(a, &mut u, &mut d);
                }
                use_place(dest, true, &mut u, &mut d);
            }
            Tm::Return => {
                if !d.contains(&0) {
                    u.insert(0);
                }
            }
            _ => {}
        }
        us.push((u, d));
    }
    let mut live: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    loop {
        let mut ch = false;
        for b in (0..n).rev() {
            let mut l: BTreeSet<usize> = BTreeSet::new();
            for t in &sc[b] {
                l.extend(live[*t].iter());
            }
            for x in &us[b].1 {
                l.remove(x);
            }
            l.extend(us[b].0.iter());
            if l != live[b] {
                live[b] = l;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    // reachable blocks
    let mut reach = BTreeSet::new();
    let mut w = vec![0usize];
    while let Some(b) = w.pop() {
        if reach.insert(b) {
            w.extend(sc[b].iter());
        }
    }
    let mut loops = vec![];
    let wto = comps(&reach, 0, &sc, &mut loops);
    Cfg { wto, live, taken, preds, loops }
}

/// Components of the subgraph on `set`, in topological order; `entry` is where control comes in.
fn comps(set: &BTreeSet<usize>, entry: usize, sc: &[Vec<usize>], loops: &mut Vec<usize>) -> Vec<Comp> {
    let order = rpo(set, entry, sc);
    let pos: BTreeMap<usize, usize> = order.iter().enumerate().map(|(i, b)| (*b, i)).collect();
    let sccs = tarjan(set, &order, sc);
    let mut out: Vec<(usize, Comp)> = vec![];
    for s in sccs {
        let first = *s.iter().min_by_key(|b| pos.get(b).cloned().unwrap_or(usize::MAX)).unwrap();
        let p = pos.get(&first).cloned().unwrap_or(usize::MAX);
        if s.len() == 1 && !sc[first].contains(&first) {
            out.push((p, Comp::V(first)));
        } else {
            // reducible loop: the head is the first block in reverse postorder
            loops.push(first);
            let mut inner: BTreeSet<usize> = s.iter().cloned().collect();
            inner.remove(&first);
            let mut v = vec![];
            // the rest of the loop without its head
            let mut rest = inner.clone();
            let mut groups: Vec<(usize, Comp)> = vec![];
            let _ = &mut rest;
            let sub = comps_multi(&inner, first, sc, loops);
            groups.extend(sub.into_iter().enumerate());
            v.push(Comp::V(first));
            v.extend(groups.into_iter().map(|x| x.1));
            out.push((p, Comp::Loop(first, v)));
        }
    }
    out.sort_by_key(|x| x.0);
    out.into_iter().map(|x| x.1).collect()
}

/// Like `comps` but the entry `head` lies outside `set`.
fn comps_multi(set: &BTreeSet<usize>, head: usize, sc: &[Vec<usize>], loops: &mut Vec<usize>) -> Vec<Comp> {
    let mut s2 = set.clone();
    s2.insert(head);
    // cut the edges back to head
    let sc2: Vec<Vec<usize>> = sc
        .iter()
        .enumerate()
        .map(|(_, v)| v.iter().cloned().filter(|t| *t != head && set.contains(t)).collect())
        .collect();
    comps(&s2, head, &sc2, loops)
        .into_iter()
        .filter(|c| !matches!(c, Comp::V(x) if *x == head))
        .collect()
}

fn rpo(set: &BTreeSet<usize>, entry: usize, sc: &[Vec<usize>]) -> Vec<usize> {
    let mut seen = BTreeSet::new();
    let mut post = vec![];
    let mut stack: Vec<(usize, usize)> = vec![(entry, 0)];
    seen.insert(entry);
    while let Some((b, i)) = stack.pop() {
        if i < sc[b].len() {
            stack.push((b, i + 1));
            let t = sc[b][i];
            if set.contains(&t) && seen.insert(t) {
                stack.push((t, 0));
            }
        } else {
            post.push(b);
        }
    }
    post.reverse();
    post
}

fn tarjan(set: &BTreeSet<usize>, order: &[usize], sc: &[Vec<usize>]) -> Vec<Vec<usize>> {
    // Kosaraju on the reachable part
    let reach: BTreeSet<usize> = order.iter().cloned().collect();
    let mut rev: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for b in &reach {
        for t in &sc[*b] {
            if set.contains(t) {
                rev.entry(*t).or_default().push(*b);
            }
        }
    }
    let mut seen = BTreeSet::new();
    let mut out = vec![];
    for b in order {
        if seen.contains(b) {
            continue;
        }
        let mut c = vec![];
        let mut w = vec![*b];
        seen.insert(*b);
        while let Some(x) = w.pop() {
            c.push(x);
            if let Some(v) = rev.get(&x) {
                for y in v {
                    if reach.contains(y) && seen.insert(*y) {
                        w.push(*y);
                    }
                }
            }
        }
        out.push(c);
    }
    out
}
