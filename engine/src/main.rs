//! absint: abstract interpretation of MIR dumps.
mod cfg;
mod coll;
mod interp;
mod io;
mod ir;
mod json;
mod lin;
mod loops;
mod models;
mod state;

use interp::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Default)]
struct Agg {
    ok: usize,
    bad: Vec<Obl>,
}

struct RootResult {
    root: String,
    secs: f64,
    gave_up: Option<String>,
    obls: BTreeMap<(String, String, String), Agg>,
    /// confirmed by the partitioned pass (None: the pass was not needed)
    confirm: Option<(Vec<Obl>, Option<String>, f64)>,
    visited: Vec<String>,
    havocked: Vec<(String, usize)>,
    loops: Vec<(String, usize)>,
    steps: u64,
    paths: usize,
}

impl RootResult {
    /// Another part of the same root.
    fn add(&mut self, o: RootResult) {
        self.secs += o.secs;
        self.gave_up = self.gave_up.take().or(o.gave_up);
        for (k, g) in o.obls {
            let h = self.obls.entry(k).or_default();
            h.ok += g.ok;
            h.bad.extend(g.bad);
            h.bad.truncate(8);
        }
        self.confirm = match (self.confirm.take(), o.confirm) {
            (Some((mut a, g, t)), Some((b, h, u))) => {
                a.extend(b);
                Some((a, g.or(h), t + u))
            }
            (a, b) => a.or(b),
        };
        for v in o.visited {
            if !self.visited.contains(&v) {
                self.visited.push(v);
            }
        }
        for v in o.havocked {
            if !self.havocked.contains(&v) {
                self.havocked.push(v);
            }
        }
        for v in o.loops {
            if !self.loops.contains(&v) {
                self.loops.push(v);
            }
        }
        self.steps += o.steps;
        self.paths += o.paths;
    }
}

fn run_root(p: &ir::Program, r: usize, part: usize, unroll: Option<usize>, small: bool, secs: u64) -> (Eng<'_>, usize, f64) {
    let t0 = std::time::Instant::now();
    let mut e = Eng::new(p);
    e.unroll = unroll;
    e.small = small;
    e.part = part;
    e.c.deadline = t0 + std::time::Duration::from_secs(secs);
    e.harness = p.insts[r].path.clone();
    let body = p.insts[r].body.as_ref().unwrap();
    let mut st = state::State::new();
    st.next_obj = FIRST_OBJ;
    let mut args = vec![];
    let mut ts = vec![];
    for i in 1..=body.argc {
        ts.push(body.locals[i]);
        let v = e.fresh_of(&mut st, body.locals[i]);
        args.push(v);
    }
    let out = e.run(r, body, args, &ts, st);
    let n = out.len();
    (e, n, t0.elapsed().as_secs_f64())
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn opt(s: &Option<String>) -> String {
    match s {
        Some(x) => esc(x),
        None => "null".into(),
    }
}
fn show_obl(o: &Obl) -> String {
    format!(
        "{{\"kind\":{},\"label\":{},\"func\":{},\"file\":{},\"line\":{},\"abstracted\":{},\"taint\":{},\"detail\":{},\"trace\":[{}]}}",
        esc(o.kind),
        esc(&o.label),
        esc(&o.func),
        esc(short(&o.span.0)),
        o.span.1,
        o.abstracted,
        opt(&o.taint),
        esc(&o.detail),
        o.trace.iter().map(|t| esc(t)).collect::<Vec<_>>().join(",")
    )
}

fn main() {
    let mut json = None;
    let mut roots: Vec<String> = vec![];
    let mut out = None;
    let mut unroll = None;
    let mut secs: u64 = 300;
    let mut threads = 8;
    let mut confirm = 3usize;
    let mut csecs = 120;
    let mut stats = false;
    let mut only: Option<usize> = None;
    let mut allow: Vec<String> = vec![];
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--roots" => roots.extend(a.next().unwrap().split(',').map(|s| s.to_string())),
            "--out" => out = a.next(),
            "--unroll" => unroll = Some(a.next().unwrap().parse().unwrap()),
            "--secs" => secs = a.next().unwrap().parse().unwrap(),
            "--confirm" => confirm = a.next().unwrap().parse().unwrap(),
            "--confirm-secs" => csecs = a.next().unwrap().parse().unwrap(),
            "--threads" => threads = a.next().unwrap().parse().unwrap(),
            "--stats" => stats = true,
            // root|kind or root|kind|label: may fail, and need not be confirmed
            "--allow" => allow.push(a.next().unwrap()),
            "--part" => only = a.next().unwrap().parse().ok(),
            _ => json = Some(x),
        }
    }
    let p = ir::Program::load(&json.expect("dump"));
    let mut todo: Vec<usize> = vec![];
    for &r in &p.roots {
        let path = &p.insts[r].path;
        let l = models::last(path);
        if roots.iter().any(|x| l.starts_with(x.as_str()) || path == x) && p.insts[r].body.is_some() {
            todo.push(r);
        }
    }
    todo.sort_by(|a, b| p.insts[*a].path.cmp(&p.insts[*b].path));
    todo.dedup();
    // a root may come in parts, one for every shape of its focus key (see coll.rs)
    let queue: Mutex<std::collections::VecDeque<(usize, usize)>> = Mutex::new(todo.iter().map(|r| (*r, only.unwrap_or(0))).collect());
    let busy = AtomicUsize::new(0);
    let begun = std::time::Instant::now();
    let results: Mutex<Vec<RootResult>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(sc, || loop {
                    let job = {
                        let mut q = queue.lock().unwrap();
                        let j = q.pop_front();
                        if j.is_some() {
                            busy.fetch_add(1, Ordering::SeqCst);
                        } else if busy.load(Ordering::SeqCst) == 0 {
                            break;
                        }
                        j
                    };
                    let (r, part) = match job {
                        Some(j) => j,
                        None => {
                            std::thread::sleep(std::time::Duration::from_millis(5));
                            continue;
                        }
                    };
                    let left = if part == 0 { secs } else { secs.min((2 * secs).saturating_sub(begun.elapsed().as_secs())) };
                    let (mut e, n, t) = run_root(&p, r, part, unroll, false, left);
                    if part == 0 && only.is_none() {
                        let mut q = queue.lock().unwrap();
                        q.extend((1..e.parts).map(|x| (r, x)));
                    }
                    let mut obls: BTreeMap<(String, String, String), Agg> = BTreeMap::new();
                    let mut need = false;
                    let name = models::last(&p.insts[r].path).to_string();
                    let allowed = |kind: &str, label: &str| allow.iter().any(|a| *a == format!("{}|{}", name, kind) || *a == format!("{}|{}|{}", name, kind, label));
                    for o in std::mem::take(&mut e.obls) {
                        let g = obls.entry((o.kind.to_string(), o.label.clone(), o.func.clone())).or_default();
                        if o.ok {
                            g.ok += 1;
                        } else {
                            need |= !allowed(o.kind, &o.label);
                            if g.bad.len() < 8 {
                                g.bad.push(o);
                            }
                        }
                    }
                    if e.gave_up.is_some() {
                        need = true;
                    }
                    if stats {
                        let mut h: Vec<_> = e.callhist.iter().collect();
                        h.sort_by_key(|x| std::cmp::Reverse(*x.1));
                        for (k, v) in h.iter().take(30) {
                            eprintln!("{:8} {}", v, k);
                        }
                    }
                    let visited: Vec<String> = e.visited.iter().map(|i| p.insts[*i].path.clone()).collect();
                    let havocked = e.havocked.iter().map(|(a, b)| (a.clone(), *b)).collect();
                    let loops = e.loops_seen.iter().map(|(a, b)| (format!("{}#{}", a.0, a.1), *b)).collect();
                    let (gu, steps) = (e.gave_up.take(), e.steps);
                    drop(e);
                    let late = part > 0 && begun.elapsed().as_secs() > 2 * secs;
                    let conf = if need && unroll.is_none() && confirm > 0 && !late {
                        // short paths first
                        let real = |o: &Obl| o.taint.is_none() && !o.abstracted;
                        let mut open: std::collections::BTreeSet<(String, String, String)> =
                            obls.iter().filter(|(k, g)| !allowed(&k.0, &k.1) && !g.bad.is_empty() && !g.bad.iter().any(real)).map(|(k, _)| k.clone()).collect();
                        let mut bad = vec![];
                        let mut last = None;
                        let mut total = 0.0;
                        let mut maps = true;
                        for i in 0..2 * confirm {
                            // small maps first
                            let (k, small) = (i % confirm + 1, i < confirm);
                            if !small && !maps {
                                // that was all
                                break;
                            }
                            if (total as u64) >= csecs {
                                break;
                            }
                            let left = csecs - total as u64;
                            let (mut e2, _, t2) = run_root(&p, r, part, Some(k), small, if small && maps { left.min(csecs / 3 + 1) } else { left });
                            maps = e2.arbitrary_maps;
                            total += t2;
                            last = e2.gave_up.take();
                            for o in std::mem::take(&mut e2.obls).into_iter().filter(|o| !o.ok) {
                                if real(&o) {
                                    open.remove(&(o.kind.to_string(), o.label.clone(), o.func.clone()));
                                }
                                bad.push(o);
                            }
                            if open.is_empty() && gu.is_none() {
                                break;
                            }
                        }
                        Some((bad, last, total))
                    } else {
                        None
                    };
                    let res = RootResult {
                        root: p.insts[r].path.clone(),
                        secs: t,
                        gave_up: gu,
                        obls,
                        confirm: conf,
                        visited,
                        havocked,
                        loops,
                        steps,
                        paths: n,
                    };
                    let mut all = results.lock().unwrap();
                    match all.iter_mut().find(|x| x.root == res.root) {
                        Some(x) => x.add(res),
                        None => all.push(res),
                    }
                    drop(all);
                    busy.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
    });
    let mut rs = results.into_inner().unwrap();
    rs.sort_by(|a, b| a.root.cmp(&b.root));
    let mut s = String::from("{\"roots\":[");
    for (i, r) in rs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&format!("\n{{\"root\":{},\"secs\":{:.2},\"steps\":{},\"paths\":{},\"gave_up\":{},", esc(&r.root), r.secs, r.steps, r.paths, opt(&r.gave_up)));
        s.push_str("\"obligations\":[");
        for (j, ((k, l, f), g)) in r.obls.iter().enumerate() {
            if j > 0 {
                s.push(',');
            }
            s.push_str(&format!(
                "\n {{\"kind\":{},\"label\":{},\"func\":{},\"ok\":{},\"bad\":[{}]}}",
                esc(k),
                esc(l),
                esc(f),
                g.ok,
                g.bad.iter().map(show_obl).collect::<Vec<_>>().join(",")
            ));
        }
        s.push_str("],\n\"confirm\":");
        match &r.confirm {
            None => s.push_str("null"),
            Some((bad, gu, t)) => {
                let mut seen = std::collections::BTreeMap::new();
                let mut v = vec![];
                for o in bad {
                    let c = seen.entry((o.kind, o.label.clone(), o.func.clone(), o.taint.is_some(), o.abstracted)).or_insert(0);
                    *c += 1;
                    if *c <= 2 {
                        v.push(show_obl(o));
                    }
                }
                s.push_str(&format!("{{\"secs\":{:.2},\"gave_up\":{},\"bad\":[{}]}}", t, opt(gu), v.join(",")));
            }
        }
        s.push_str(&format!(
            ",\n\"functions\":[{}],\n\"havocked\":[{}],\n\"loops\":[{}]}}",
            r.visited.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","),
            r.havocked.iter().map(|x| esc(&x.0)).collect::<Vec<_>>().join(","),
            r.loops.iter().map(|x| esc(&x.0)).collect::<Vec<_>>().join(","),
        ));
    }
    s.push_str("\n]}\n");
    match out {
        Some(f) => std::fs::write(f, &s).unwrap(),
        None => {}
    }
    for r in &rs {
        println!("== {} {:.2}s steps={} paths={} gave_up={:?} havocked={:?}", r.root, r.secs, r.steps, r.paths, r.gave_up, r.havocked);
        for ((k, l, f), g) in &r.obls {
            if !g.bad.is_empty() {
                let o = &g.bad[0];
                println!(
                    "  FAIL {} [{}] in {} {}:{} n={} ok={} abstracted={} taint={:?} {}",
                    k, l, f, short(&o.span.0), o.span.1, g.bad.len(), g.ok, o.abstracted, o.taint, o.detail
                );
            } else if k != "panic" {
                println!("  ok   {} [{}] x{}", k, l, g.ok);
            }
        }
        if let Some((bad, gu, t)) = &r.confirm {
            println!("  confirm pass {:.2}s gave_up={:?}", t, gu);
            let mut seen = std::collections::BTreeSet::new();
            for o in bad {
                if o.taint.is_none() && !o.abstracted && seen.insert((o.kind, o.label.clone(), o.func.clone())) {
                    println!("    CONFIRMED {} [{}] in {} {}:{} {}", o.kind, o.label, o.func, short(&o.span.0), o.span.1, o.detail);
                }
            }
        }
    }
}
