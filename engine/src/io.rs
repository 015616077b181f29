//! Transfer functions for files, standard streams, strings and the environment.
//!
//! There is one file of arbitrary content. Every operation of the operating system may fail; the harness is told by
//! `hook_io_failed`. What is read from the standard input is arbitrary.
use crate::coll::*;
use crate::interp::*;
use crate::ir::*;
use crate::lin::*;
use crate::models::*;
use crate::state::*;

/// A buffer that exists once, by name.
pub fn named(e: &mut Eng, name: &str) -> (Buf, Lin) {
    if let Some(x) = e.named.get(name) {
        return x.clone();
    }
    let len = e.c.fresh_lin("len", 0, i64::MAX as i128);
    let b = e.c.add_buf(BufK::Input, len.clone(), name);
    e.named.insert(name.to_string(), (b, len.clone()));
    (b, len)
}

fn u8_ty(e: &Eng) -> Ty {
    e.ty_by_disp.get("u8").cloned().unwrap_or(0)
}

fn result_parts(e: &Eng, ret: Ty) -> Option<(usize, Ty, usize, Ty)> {
    match e.k(ret) {
        TyK::Enum { vars, .. } => {
            let o = vars.iter().position(|v| v.name == "Ok")?;
            let r = vars.iter().position(|v| v.name == "Err")?;
            Some((o, vars[o].fields[0].1, r, vars[r].fields[0].1))
        }
        _ => None,
    }
}

/// The error of a failed operation: `kind` 0 is anything, 1 the end of the input.
fn failed(e: &mut Eng, st: State, ret: Ty, kind: i128) -> Out {
    let (_, _, r, et) = match result_parts(e, ret) {
        Some(x) => x,
        None => return vec![],
    };
    // what kind of error it is, if it is not the end of the input
    let which = if kind == 0 { Val::Int(e.c.fresh_lin("kind", 0, 255)) } else { Val::c(0) };
    let err = Val::en(r, vec![Val::m("ioerror", et, vec![Val::c(kind), which])]);
    let sts = if kind == 0 { hook(e, "hook_io_failed", vec![], st) } else { vec![st] };
    sts.into_iter().map(|s| (s, err.clone())).collect()
}
fn done(e: &mut Eng, st: State, ret: Ty, v: Val) -> Out {
    match result_parts(e, ret) {
        Some((o, ..)) => vec![(st, Val::en(o, vec![v]))],
        None => vec![],
    }
}

/// The bytes of a string-like value behind any number of references.
fn text(e: &mut Eng, st: &mut State, v: &Val, t: Ty) -> Option<(Buf, Lin, Lin)> {
    let mut v = v.clone();
    let mut t = t;
    for _ in 0..5 {
        if let Some(x) = slice_of(e, st, &v) {
            return Some(x);
        }
        match &v {
            Val::M(m) if m.kind == "string" || m.kind == "bytes" => {
                let p = m.v[0].clone();
                return slice_of(e, st, &p);
            }
            Val::Agg(f) if f.len() == 1 => {
                v = f[0].clone();
                continue;
            }
            _ => {}
        }
        t = match e.p.pointee(t) {
            Some(to) => {
                v = deref(e, st, &v, t);
                to
            }
            None => return None,
        };
    }
    None
}

/// The stream behind any number of references and wrappers: where it is kept, and it.
fn stream(e: &mut Eng, st: &mut State, v: &Val, t: Ty) -> Option<(Lv, std::rc::Rc<Model>)> {
    let mut v = v.clone();
    let mut t = t;
    for _ in 0..5 {
        let to = e.p.pointee(t)?;
        let (lv, _) = e.ptr_to(st, &v, to);
        match e.read(st, &lv) {
            Val::M(m) if m.kind == "file" || m.kind == "stdin" || m.kind == "stdout" => return Some((lv, m)),
            x => {
                v = x;
                t = to;
            }
        }
    }
    None
}

/// A file, mapped or read from: position, and the position reading stops at (None: the end).
fn file_limits(e: &mut Eng, st: &mut State, m: &Model) -> (Buf, Lin, Lin) {
    let (b, len) = named(e, "file");
    let pos = match &m.v[0] {
        Val::Int(l) => l.clone(),
        _ => Lin::c(0),
    };
    let end = match &m.v[1] {
        Val::Enum(1, f) => match &f[0] {
            Val::Int(l) => l.clone(),
            _ => len.clone(),
        },
        _ => len.clone(),
    };
    (b, e.c.canon(st, &pos), e.c.canon(st, &end))
}

pub fn split_on(e: &mut Eng, st: State, b: &BE) -> Vec<(State, bool)> {
    let mut out = vec![];
    for pol in [true, false] {
        for s in e.c.assume(st.clone(), b, pol) {
            out.push((s, pol));
        }
    }
    out
}

pub fn model(e: &mut Eng, inst: &Inst, args: &[Val], ts: &[Ty], ret: Ty, st: &mut State) -> Option<Out> {
    let path = inst.path.as_str();
    if inst.krate == "memmap" || path.contains("memmap::") {
        return mmap_model(e, path, args, ts, ret, st);
    }
    if let Some(r) = text_model(e, inst, path, args, ts, ret, st) {
        return Some(r);
    }
    if path.contains("fs::") || path.contains("io::") || path.contains("BufReader") {
        if let Some(r) = file_model(e, path, args, ts, ret, st) {
            return Some(r);
        }
    }
    None
}

fn file_model(e: &mut Eng, path: &str, args: &[Val], ts: &[Ty], ret: Ty, st: &mut State) -> Option<Out> {
    let n = last(path);
    let u8t = u8_ty(e);
    match n {
        "_open" if path.contains("OpenOptions") => {
            let p = text(e, st, &args[1], ts[1])?;
            let mut out = vec![];
            for s in opened(e, p, st.clone()) {
                let (_, ft, ..) = result_parts(e, ret)?;
                out.extend(done(e, s.clone(), ret, Val::m("file", ft, vec![Val::c(0), none()])));
                out.extend(failed(e, s, ret, 0));
            }
            e.nondet += 1;
            return Some(out);
        }
        "read" if path.starts_with("std::fs::read") => {
            let p = text(e, st, &args[0], ts[0])?;
            let (b, len) = named(e, "file");
            let mut out = vec![];
            for s in opened(e, p, st.clone()) {
                let (_, vt, ..) = result_parts(e, ret)?;
                let v = Val::m("bytes", vt, vec![Val::ptr(PB::Buf(b, Lin::c(0)), Some(len.clone()), u8t)]);
                out.extend(done(e, s.clone(), ret, v));
                out.extend(failed(e, s, ret, 0));
            }
            e.nondet += 1;
            return Some(out);
        }
        "metadata" => {
            let mut out = vec![];
            let (_, mt, ..) = result_parts(e, ret)?;
            if path.starts_with("std::fs::metadata") {
                let p = text(e, st, &args[0], ts[0])?;
                for s in opened(e, p, st.clone()) {
                    out.extend(done(e, s.clone(), ret, Val::m("metadata", mt, vec![])));
                    out.extend(failed(e, s, ret, 0));
                }
            } else {
                stream(e, st, &args[0], ts[0])?;
                out.extend(done(e, st.clone(), ret, Val::m("metadata", mt, vec![])));
                out.extend(failed(e, st.clone(), ret, 0));
            }
            e.nondet += 1;
            return Some(out);
        }
        "len" if path.contains("Metadata") => {
            let (_, len) = named(e, "file");
            return one(st, Val::Int(len));
        }
        "stdin" if path.ends_with("::stdin") => return one(st, Val::m("stdin", ret, vec![])),
        "stdout" if path.ends_with("::stdout") => return one(st, Val::m("stdout", ret, vec![])),
        "lock" if path.contains("Std") => {
            let (_, m) = stream(e, st, &args[0], ts[0])?;
            return one(st, Val::m(m.kind, ret, m.v.clone()));
        }
        "new" if path.contains("BufReader") || path.contains("BufWriter") || path.contains("LineWriter") => {
            let v = args[0].clone();
            return match v {
                Val::M(_) => one(st, v),
                _ => None,
            };
        }
        "with_capacity" if path.contains("BufReader") || path.contains("BufWriter") || path.contains("LineWriter") => {
            let v = args[1].clone();
            return match v {
                Val::M(_) => one(st, v),
                _ => None,
            };
        }
        "by_ref" if path.contains("Read") || path.contains("Write") => return one(st, args[0].clone()),
        "get_ref" | "get_mut" if path.contains("BufReader") => return one(st, args[0].clone()),
        "into_inner" if path.contains("BufReader") => return one(st, args[0].clone()),
        "take" if path.contains("Read") => {
            // of a reader that is only borrowed, what is taken is gone as well
            let (at, m) = match &args[0] {
                Val::M(m) => (None, Some(m.clone())),
                _ => stream(e, st, &args[0], ts[0]).map_or((None, None), |(lv, m)| (Some(lv), Some(m))),
            };
            if let Some(m) = &m {
                if m.kind == "file" {
                    let (_, pos, end) = file_limits(e, st, m);
                    let k = e.int(st, &args[1])?;
                    let stop = pos.add(&k);
                    let mut out = vec![];
                    for (mut s, cut) in split_on(e, st.clone(), &BE::lt(&stop, &end)) {
                        let lim = if cut { some(Val::Int(stop.clone())) } else { m.v[1].clone() };
                        if let Some(lv) = &at {
                            let next = if cut { stop.clone() } else { end.clone() };
                            e.write(&mut s, lv, Val::m("file", m.ty, vec![Val::Int(next), m.v[1].clone()]));
                        }
                        out.push((s, Val::m("file", m.ty, vec![m.v[0].clone(), lim])));
                    }
                    return Some(out);
                }
            }
            return None;
        }
        "kind" if path.contains("Error") => {
            let v = deref(e, st, &args[0], ts[0]);
            if let Val::M(m) = v {
                if m.kind == "ioerror" {
                    let eof = match e.k(ret) {
                        TyK::Enum { vars, .. } => vars.iter().position(|v| v.name == "UnexpectedEof")?,
                        _ => return None,
                    };
                    if m.v[0] == Val::c(1) {
                        return one(st, Val::en(eof, vec![]));
                    }
                    // anything but the end of the input
                    let others: Vec<usize> = match e.k(ret) {
                        TyK::Enum { vars, .. } => (0..vars.len()).filter(|i| *i != eof && vars[*i].name != "Interrupted").collect(),
                        _ => return None,
                    };
                    let which = e.int(st, &m.v[1])?;
                    let last = *others.last()?;
                    let mut out = vec![];
                    let mut rest = vec![st.clone()];
                    for i in others {
                        let is = if i == last { BE::lt(&Lin::c(i as i128 - 1), &which) } else { BE::eq(which.sub(&Lin::c(i as i128))) };
                        let mut left = vec![];
                        for s in rest {
                            for (t, yes) in split_on(e, s, &is) {
                                if yes {
                                    out.push((t, Val::en(i, vec![])));
                                } else if i != last {
                                    left.push(t);
                                }
                            }
                        }
                        rest = left;
                    }
                    // (what is left is a number that stands for no kind)
                    return Some(out);
                }
            }
            return None;
        }
        _ => {}
    }
    // reading and writing
    if !(path.contains("Read") || path.contains("Write")) || ts.is_empty() {
        return None;
    }
    match n {
        "read_to_end" => {
            let (lv, m) = stream(e, st, &args[0], ts[0])?;
            if m.kind != "file" {
                return None;
            }
            let (b, pos, end) = file_limits(e, st, &m);
            let vt = e.p.pointee(ts[1])?;
            let (vlv, _) = e.ptr_to(st, &args[1], vt);
            let old = match e.read(st, &vlv) {
                Val::M(x) if x.kind == "bytes" => x,
                _ => return None,
            };
            let oldlen = match &old.v[0] {
                Val::Ptr(p) => p.meta.clone().unwrap_or(Lin::c(0)),
                _ => return None,
            };
            let oldlen = e.c.canon(st, &oldlen);
            let mut out = vec![];
            for ok in [true, false] {
                let mut s = st.clone();
                let rest = end.sub(&pos);
                let got = if ok {
                    rest
                } else {
                    let k = e.c.fresh_lin("got", 0, i64::MAX as i128);
                    let mut v = e.c.assume(s.clone(), &BE::le(&k, &rest), true);
                    if v.is_empty() {
                        continue;
                    }
                    s = v.remove(0);
                    k
                };
                for (mut s, rest_left) in split_on(e, s, &BE::ge(got.clone())) {
                    let got = if rest_left { got.clone() } else { Lin::c(0) };
                    let v = if oldlen.as_const() == Some(0) {
                        Val::ptr(PB::Buf(b, pos.clone()), Some(got.clone()), u8t)
                    } else {
                        s.set_taint("bytes appended to a vector");
                        let l = oldlen.add(&got);
                        let nb = e.c.add_buf(BufK::Volatile, l.clone(), "vec");
                        Val::ptr(PB::Buf(nb, Lin::c(0)), Some(l), u8t)
                    };
                    e.write(&mut s, &vlv, Val::m("bytes", old.ty, vec![v]));
                    e.write(&mut s, &lv, Val::m("file", m.ty, vec![Val::Int(pos.add(&got)), m.v[1].clone()]));
                    if ok {
                        out.extend(done(e, s, ret, Val::Int(got.clone())));
                    } else {
                        out.extend(failed(e, s, ret, 0));
                    }
                }
            }
            e.nondet += 1;
            Some(out)
        }
        "read" | "read_exact" => {
            let (lv, m) = stream(e, st, &args[0], ts[0])?;
            let (_, _, want) = slice_of(e, st, &args[1])?;
            let mut out = vec![];
            e.nondet += 1;
            if m.kind == "file" {
                let (_, pos, end) = file_limits(e, st, &m);
                let k = e.c.fresh_lin("got", 0, i64::MAX as i128);
                let enough = BE::le(&pos.add(&want), &end);
                for (s, enough) in split_on(e, st.clone(), &enough) {
                    if n == "read_exact" {
                        if enough {
                            let mut s = s.clone();
                            s.set_taint("content of a buffer that was read into");
                            e.write(&mut s, &lv, Val::m("file", m.ty, vec![Val::Int(pos.add(&want)), m.v[1].clone()]));
                            out.extend(done(e, s, ret, Val::unit()));
                        } else {
                            out.extend(failed(e, s.clone(), ret, 1));
                        }
                    } else {
                        let max = if enough { want.clone() } else { end.sub(&pos) };
                        for mut s in e.c.assume(s.clone(), &BE::le(&k, &max), true) {
                            s.set_taint("content of a buffer that was read into");
                            e.write(&mut s, &lv, Val::m("file", m.ty, vec![Val::Int(pos.add(&k)), m.v[1].clone()]));
                            out.extend(done(e, s, ret, Val::Int(k.clone())));
                        }
                    }
                    out.extend(failed(e, s, ret, 0));
                }
                return Some(out);
            }
            if m.kind != "stdin" {
                return None;
            }
            if n == "read" {
                let k = e.c.fresh_lin("got", 1, i64::MAX as i128);
                for s in e.c.assume(st.clone(), &BE::le(&k, &want), true) {
                    for s in hook(e, "hook_stdin_read", vec![args[1].clone(), Val::Int(k.clone())], s) {
                        out.extend(done(e, s, ret, Val::Int(k.clone())));
                    }
                }
                for (s, nothing) in split_on(e, st.clone(), &BE::eq(want.clone())) {
                    // the end, which an empty buffer does not tell
                    let sts = if nothing { vec![s] } else { hook(e, "hook_stdin_end", vec![], s) };
                    for s in sts {
                        out.extend(done(e, s, ret, Val::c(0)));
                    }
                }
                out.extend(failed(e, st.clone(), ret, 0));
                return Some(out);
            }
            // all of it
            for s in hook(e, "hook_stdin_read", vec![args[1].clone(), Val::Int(want.clone())], st.clone()) {
                out.extend(done(e, s, ret, Val::unit()));
            }
            // the end, which an empty buffer never meets
            for s in e.c.assume(st.clone(), &BE::eq(want.clone()), false) {
                for s in hook(e, "hook_stdin_end", vec![], s) {
                    out.extend(failed(e, s, ret, 1));
                }
            }
            for s in e.c.assume(st.clone(), &BE::eq(want.clone()), false) {
                out.extend(failed(e, s, ret, 0));
            }
            Some(out)
        }
        "write" | "write_all" => {
            let (_, m) = stream(e, st, &args[0], ts[0])?;
            if m.kind != "stdout" {
                return None;
            }
            let (b, o, want) = as_slice(e, st, &args[1])?;
            let mut out = vec![];
            e.nondet += 1;
            let whole = Val::ptr(PB::Buf(b, o.clone()), Some(want.clone()), u8t);
            if n == "write_all" {
                for s in hook(e, "hook_stdout_write", vec![whole], st.clone()) {
                    out.extend(done(e, s, ret, Val::unit()));
                }
            } else {
                // as much as it likes
                let k = e.c.fresh_lin("put", 1, i64::MAX as i128);
                for s in hook(e, "hook_stdout_write", vec![whole], st.clone()) {
                    out.extend(done(e, s, ret, Val::Int(want.clone())));
                }
                for s in e.c.assume(st.clone(), &BE::lt(&k, &want), true) {
                    let part = Val::ptr(PB::Buf(b, o.clone()), Some(k.clone()), u8t);
                    for s in hook(e, "hook_stdout_short", vec![part], s) {
                        out.extend(done(e, s, ret, Val::Int(k.clone())));
                    }
                }
            }
            out.extend(failed(e, st.clone(), ret, 0));
            Some(out)
        }
        "flush" => {
            let (_, m) = stream(e, st, &args[0], ts[0])?;
            if m.kind != "stdout" {
                return None;
            }
            e.nondet += 1;
            let mut out = vec![];
            for s in hook(e, "hook_stdout_flush", vec![], st.clone()) {
                out.extend(done(e, s, ret, Val::unit()));
            }
            out.extend(failed(e, st.clone(), ret, 0));
            Some(out)
        }
        _ => None,
    }
}

fn opened(e: &mut Eng, p: (Buf, Lin, Lin), st: State) -> Vec<State> {
    let u8t = u8_ty(e);
    let v = Val::ptr(PB::Buf(p.0, p.1), Some(p.2), u8t);
    hook(e, "hook_open", vec![v], st)
}

/// Memory maps: offset and length (if given), then the mapped range.
fn mmap_model(e: &mut Eng, path: &str, args: &[Val], ts: &[Ty], ret: Ty, st: &mut State) -> Option<Out> {
    let n = last(path);
    let u8t = u8_ty(e);
    match n {
        "new" | "default" if path.contains("MmapOptions") => one(st, Val::m("mmapopt", ret, vec![Val::c(0), none()])),
        "offset" | "len" | "stack" | "exec" | "populate" if path.contains("MmapOptions") => {
            let to = e.p.pointee(ts[0])?;
            let (lv, _) = e.ptr_to(st, &args[0], to);
            let m = match e.read(st, &lv) {
                Val::M(m) if m.kind == "mmapopt" => m,
                _ => return None,
            };
            let mut f = m.v.clone();
            match n {
                "offset" => f[0] = Val::Int(e.int(st, &args[1])?),
                "len" => f[1] = some(Val::Int(e.int(st, &args[1])?)),
                _ => {}
            }
            e.write(st, &lv, Val::m("mmapopt", m.ty, f));
            one(st, args[0].clone())
        }
        "map" | "map_copy" | "map_mut" | "map_exec" if path.contains("Mmap") => {
            let (m, fi) = if path.contains("MmapOptions") {
                match deref_all(e, st, &args[0], ts[0]).0 {
                    Val::M(m) if m.kind == "mmapopt" => (m.v.clone(), 1),
                    _ => return None,
                }
            } else {
                (vec![Val::c(0), none()], 0)
            };
            let (_, f) = stream(e, st, &args[fi], ts[fi])?;
            if f.kind != "file" {
                return None;
            }
            let (b, len) = named(e, "file");
            let off = e.int(st, &m[0])?;
            let n = match &m[1] {
                Val::Enum(1, x) => e.int(st, &x[0])?,
                _ => len.sub(&off),
            };
            let (_, mt, ..) = result_parts(e, ret)?;
            let mut out = vec![];
            // beyond the end there is nothing to map
            let inside = BE::and(BE::ge(n.clone()), BE::le(&off.add(&n), &len));
            for s in e.c.assume(st.clone(), &inside, true) {
                let v = Val::m("mmap", mt, vec![Val::ptr(PB::Buf(b, off.clone()), Some(n.clone()), u8t)]);
                out.extend(done(e, s, ret, v));
            }
            out.extend(failed(e, st.clone(), ret, 0));
            e.nondet += 1;
            Some(out)
        }
        "deref" | "as_ref" | "deref_mut" | "as_mut" | "len" | "as_ptr" | "is_empty" => {
            let v = deref_all(e, st, &args[0], ts[0]).0;
            let m = match v {
                Val::M(m) if m.kind == "mmap" => m,
                _ => return None,
            };
            let (_, _, len) = slice_of(e, st, &m.v[0])?;
            match n {
                "len" => one(st, Val::Int(len)),
                "is_empty" => one(st, Val::Bool(BE::eq(len))),
                _ => one(st, m.v[0].clone()),
            }
        }
        _ => None,
    }
}

/// A string that is the content of a buffer.
fn string(ty: Ty, b: Buf, o: Lin, len: Lin, u8t: Ty) -> Val {
    Val::m("string", ty, vec![Val::ptr(PB::Buf(b, o), Some(len), u8t)])
}
/// A string nothing is known about.
fn any_string(e: &mut Eng, ty: Ty) -> Val {
    let len = e.c.fresh_lin("len", 0, i64::MAX as i128);
    let b = e.c.add_buf(BufK::Input, len.clone(), "string");
    let u8t = u8_ty(e);
    string(ty, b, Lin::c(0), len, u8t)
}
/// The number of arguments on the command line.
fn argc(e: &mut Eng) -> Lin {
    Lin::s(e.c.intern(Def { op: "argc", a: vec![] }, Some(1), Some(1 << 20)))
}
fn argument(e: &mut Eng, i: i128, ty: Ty) -> Val {
    let (b, len) = named(e, &format!("arg{}", i));
    let u8t = u8_ty(e);
    string(ty, b, Lin::c(0), len, u8t)
}
fn string_ty(e: &Eng) -> Option<Ty> {
    e.ty_by_disp.get("std::string::String").or_else(|| e.ty_by_disp.get("alloc::string::String")).cloned()
}

/// Vectors of the arguments of the command line.
pub fn argv_model(e: &mut Eng, n: &str, v: &Val, args: &[Val], ts: &[Ty], ret: Ty, st: &mut State) -> Option<Out> {
    let count = argc(e);
    let sty = string_ty(e)?;
    match n {
        "len" => one(st, Val::Int(count)),
        "is_empty" => one(st, Val::b(false)),
        "deref" | "as_slice" | "as_ref" | "borrow" | "clone" => {
            let _ = v;
            match n {
                "clone" => one(st, v.clone()),
                _ => match &args[0] {
                    Val::Ptr(p) => {
                        let mut q = (**p).clone();
                        q.meta = Some(count);
                        one(st, Val::Ptr(std::rc::Rc::new(q)))
                    }
                    _ => None,
                },
            }
        }
        "index" | "get" | "first" => {
            let i = if n == "first" { Lin::c(0) } else { e.int(st, &args[1])? };
            let k = i.as_const()?;
            let ok = BE::lt(&i, &count);
            let mut out = vec![];
            let none_ok = n != "index";
            for (mut s, good) in split_on(e, st.clone(), &ok) {
                if good {
                    let a = argument(e, k, sty);
                    let r = refer(&mut s, a, sty);
                    out.push((s, if none_ok { some(r) } else { r }));
                } else if none_ok {
                    out.push((s, none()));
                } else {
                    e.obl("panic", "index out of bounds".into(), Some(&s), false, "index of a vector".into());
                }
            }
            if !none_ok {
                e.obl("panic", "index out of bounds".into(), None, true, String::new());
            }
            Some(out)
        }
        "join" | "concat" => {
            let r = any_string(e, ret);
            one(st, r)
        }
        _ => {
            let _ = ts;
            None
        }
    }
}

/// What is printed: `hook_line(number of values)`, then for each value the `hook_printed` of its type, or `hook_printed_other`.
fn printed(e: &mut Eng, v: &Val, st: &mut State) -> Out {
    let parts = match v {
        Val::M(m) if m.kind == "fmtargs" => match m.v.as_slice() {
            [p, Val::Top(t)] => {
                let (lv, _) = e.ptr_to(st, p, *t);
                match e.read(st, &lv) {
                    Val::Agg(f) => Some(f.as_ref().clone()),
                    _ => None,
                }
            }
            _ => Some(vec![]),
        },
        _ => None,
    };
    let parts = match parts {
        Some(p) => p,
        None => {
            st.set_taint("printed text that is not known");
            return vec![(st.clone(), Val::unit())];
        }
    };
    let mut sts = hook(e, "hook_line", vec![Val::c(parts.len() as i128)], st.clone());
    for (i, a) in parts.iter().enumerate() {
        let mut next = vec![];
        for s in sts {
            let i = Val::c(i as i128);
            match a {
                Val::M(m) if m.kind == "fmtarg" => {
                    let t = match m.v[1] {
                        Val::Top(t) => t,
                        _ => 0,
                    };
                    let mut t = t;
                    let mut p = m.v[0].clone();
                    let mut s = s;
                    // a reference to a reference
                    while let (TyK::Ref(to, _), false) = (e.k(t), matches!(e.p.pointee(t).map(|x| e.k(x)), Some(TyK::Str) | Some(TyK::Slice(_)))) {
                        let (lv, _) = e.ptr_to(&mut s, &p, t);
                        p = e.read(&mut s, &lv);
                        t = *to;
                    }
                    let fs = e.harness_fns("hook_printed");
                    let f = fs.iter().cloned().find(|f| {
                        let b = e.p.insts[*f].body.as_ref().unwrap();
                        b.argc == 2 && e.p.pointee(b.locals[2]).map_or(false, |x| e.same_ty(x, t))
                    });
                    match f {
                        Some(f) => {
                            let b = e.p.insts[f].body.as_ref().unwrap();
                            let (ts, ret) = (b.locals[1..=2].to_vec(), b.locals[0]);
                            next.extend(e.call(f, vec![i, p], &ts, ret, s, false).into_iter().map(|x| x.0));
                        }
                        None => next.extend(hook(e, "hook_other", vec![i], s)),
                    }
                }
                _ => next.extend(hook(e, "hook_other", vec![i], s)),
            }
        }
        sts = next;
    }
    sts.into_iter().map(|s| (s, Val::unit())).collect()
}

/// Arguments, strings and formatted output.
fn text_model(e: &mut Eng, inst: &Inst, path: &str, args: &[Val], ts: &[Ty], ret: Ty, st: &mut State) -> Option<Out> {
    let n = last(path);
    let u8t = u8_ty(e);
    match n {
        "_eprint" if path.contains("io::") => return one(st, Val::unit()),
        "_print" if path.contains("io::") => {
            if e.harness_fn("hook_line").is_none() {
                return one(st, Val::unit());
            }
            return Some(printed(e, &args[0], st));
        }
        "format" if path.ends_with("fmt::format") => {
            let r = any_string(e, ret);
            return one(st, r);
        }
        "exit" if path.ends_with("process::exit") => {
            hook(e, "hook_exit", vec![args[0].clone()], st.clone());
            return Some(vec![]);
        }
        "available_parallelism" if path.ends_with("thread::available_parallelism") => {
            let n = e.c.fresh_lin("parallelism", 1, 1 << 20);
            let mut r = failed(e, st.clone(), ret, 0);
            let (_, t, ..) = result_parts(e, ret)?;
            r.extend(done(e, st.clone(), ret, Val::m("nonzero", t, vec![Val::Int(n)])));
            return Some(r);
        }
        "get" if path.contains("NonZero") => {
            return match args.first() {
                Some(Val::M(m)) if m.kind == "nonzero" => one(st, m.v[0].clone()),
                _ => None,
            };
        }
        "args" if path.ends_with("env::args") => return one(st, Val::m("args", ret, vec![Val::c(0)])),
        _ => {}
    }
    if path.contains("fmt::rt::Argument") || path.contains("fmt::Arguments") || path.contains("fmt::rt::Placeholder") {
        if let TyK::Struct { .. } = e.k(ret) {
            if e.harness_fn("hook_line").is_some() {
                if n.starts_with("new_") && !args.is_empty() {
                    if let Some(t) = e.p.pointee(ts[0]) {
                        return one(st, Val::m("fmtarg", ret, vec![args[0].clone(), Val::Top(t)]));
                    }
                }
                if n == "new" && args.len() == 2 {
                    if let Some(t) = e.p.pointee(ts[1]) {
                        return one(st, Val::m("fmtargs", ret, vec![args[1].clone(), Val::Top(t)]));
                    }
                }
                if n == "from_str" {
                    return one(st, Val::m("fmtargs", ret, vec![]));
                }
            }
            return one(st, Val::m("fmt", ret, vec![]));
        }
        return None;
    }
    if path.contains("env::Args") || path.contains("Iterator") {
        let mine = |v: &Val| matches!(v, Val::M(m) if m.kind == "args");
        if n == "collect" && !args.is_empty() && mine(&args[0]) {
            if let Val::M(m) = &args[0] {
                if m.v[0] == Val::c(0) && matches!(e.k(ret), TyK::Struct { path, .. } if last(path) == "Vec") {
                    return one(st, Val::m("argv", ret, vec![]));
                }
            }
            return None;
        }
        if matches!(n, "next" | "nth" | "len" | "count") && !args.is_empty() {
            if n == "count" && mine(&args[0]) {
                let c = argc(e);
                return one(st, Val::Int(c));
            }
            let to = e.p.pointee(ts[0])?;
            let (lv, _) = e.ptr_to(st, &args[0], to);
            let v = e.read(st, &lv);
            if let Val::M(m) = &v {
                if m.kind == "args" {
                    let k = match &m.v[0] {
                        Val::Int(l) => l.as_const()?,
                        _ => return None,
                    };
                    let count = argc(e);
                    if n == "len" {
                        return one(st, Val::Int(count.addc(-k)));
                    }
                    let sty = string_ty(e)?;
                    let i = if n == "nth" { k + e.int(st, &args[1])?.as_const()? } else { k };
                    let mut out = vec![];
                    for (mut s, more) in split_on(e, st.clone(), &BE::lt(&Lin::c(i), &count)) {
                        if more {
                            e.write(&mut s, &lv, Val::m("args", m.ty, vec![Val::c(i + 1)]));
                            let a = argument(e, i, sty);
                            out.push((s, some(a)));
                        } else {
                            out.push((s, none()));
                        }
                    }
                    return Some(out);
                }
            }
        }
    }
    // the vector of arguments, and slices of it
    if matches!(n, "join" | "concat") && path.starts_with("std::slice::<impl [T]>::") && matches!(e.k(ret), TyK::Struct { path, .. } if last(path) == "String") {
        let r = any_string(e, ret);
        return one(st, r);
    }
    if !args.is_empty() && (path.contains("Vec") || path.contains("slice") || path.contains("[")) {
        if let Val::Ptr(p) = &args[0] {
            if let PB::Obj(o, pp) = &p.b {
                if matches!(e.k(p.ty), TyK::Struct { path, .. } if last(path) == "Vec") {
                    let lv = Lv::O(*o, pp.clone(), p.ty);
                    let v = e.read(st, &lv);
                    if matches!(&v, Val::M(m) if m.kind == "argv") {
                        return argv_model(e, n, &v, args, ts, ret, st);
                    }
                }
            }
        }
    }
    // strings
    if n == "parse" && path.contains("str") {
        let (b, o, len) = text(e, st, &args[0], ts[0])?;
        let (ok, t, er, et) = result_parts(e, ret)?;
        let l = parsed(e, t, b, o, len)?;
        let mut out = vec![];
        for (mut s, bad) in split_on(e, st.clone(), &BE::eq(l.addc(1 - lowest(e, t)?))) {
            if bad {
                let x = arbitrary(e, &mut s, et);
                out.push((s, Val::en(er, vec![x])));
            } else {
                out.push((s, Val::en(ok, vec![Val::Int(l.clone())])));
            }
        }
        return Some(out);
    }
    if (n == "eq" || n == "ne") && args.len() == 2 && (path.contains("for str>") || path.contains("<str as") || path.contains("String")) {
        let a = text(e, st, &args[0], ts[0])?;
        let b = text(e, st, &args[1], ts[1])?;
        for (x, y) in [(&a, &b), (&b, &a)] {
            let is_arg = e.named.iter().any(|(k, v)| v.0 == x.0 && k.starts_with("arg"));
            if !is_arg || x.1.as_const() != Some(0) {
                continue;
            }
            if let BufK::Const(c) = &e.c.bufs[y.0 as usize].k {
                if let (Some(o), Some(l)) = (y.1.as_const(), y.2.as_const()) {
                    let lit = c[o as usize..(o + l) as usize].to_vec();
                    // which of the literals compared with so far the argument is: one symbol, one number for each
                    let s = Lin::s(e.c.intern(Def { op: "which", a: vec![TArg::N(x.0 as u64)] }, Some(0), Some(1 << 40)));
                    let id = match e.literals.iter().position(|q| *q == lit) {
                        Some(i) => i,
                        None => {
                            e.literals.push(lit);
                            e.literals.len() - 1
                        }
                    };
                    let r = BE::eq(s.addc(-(id as i128)));
                    return one(st, Val::Bool(if n == "eq" { r } else { BE::not(r) }));
                }
            }
        }
        return None;
    }
    if n == "from_utf8" && path.contains("str::") && args.len() == 1 && !path.contains("String") {
        let (ok, _, er, et) = result_parts(e, ret)?;
        let mut bad = st.clone();
        let err = arbitrary(e, &mut bad, et);
        e.nondet += 1;
        let mut out: Out = vec![];
        for s in hook(e, "hook_name", vec![args[0].clone()], st.clone()) {
            out.push((s, Val::en(ok, vec![args[0].clone()])));
        }
        // (a literal is text)
        if crate::models::label_of(e, st, &args[0]) == "?" {
            out.push((bad, Val::en(er, vec![err])));
        }
        return Some(out);
    }
    if path.contains("String") && !args.is_empty() {
        match n {
            "from_utf8" => {
                let v = args[0].clone();
                let (ok, t, er, et) = result_parts(e, ret)?;
                let p = match &v {
                    Val::M(m) if m.kind == "bytes" => m.v[0].clone(),
                    _ => return None,
                };
                e.nondet += 1;
                let x = Val::m("string", t, vec![p]);
                let mut s = st.clone();
                let bad = arbitrary(e, &mut s, et);
                return Some(vec![(st.clone(), Val::en(ok, vec![x])), (s, Val::en(er, vec![bad]))]);
            }
            "from_utf8_lossy" => {
                if e.harness_fn("hook_name").is_some() {
                    let after = hook(e, "hook_name", vec![args[0].clone()], st.clone());
                    if let TyK::Enum { vars, .. } = e.k(ret) {
                        let i = vars.iter().position(|v| v.name == "Owned")?;
                        let t = vars[i].fields[0].1;
                        return Some(after.into_iter().map(|s| (s, Val::en(i, vec![any_string(e, t)]))).collect());
                    }
                }
                if let TyK::Enum { vars, .. } = e.k(ret) {
                    let i = vars.iter().position(|v| v.name == "Owned")?;
                    let t = vars[i].fields[0].1;
                    let x = any_string(e, t);
                    return one(st, Val::en(i, vec![x]));
                }
                return None;
            }
            "new" | "from_utf8_unchecked" => return None,
            "into_bytes" | "into_boxed_str" => return None,
            _ => {}
        }
        if e.p.pointee(ts[0]).is_some() {
            let (b, o, len) = text(e, st, &args[0], ts[0])?;
            return match n {
                "len" => one(st, Val::Int(len)),
                "is_empty" => one(st, Val::Bool(BE::eq(len))),
                "as_str" | "as_bytes" | "deref" | "as_ref" | "borrow" => {
                    let to = e.p.pointee(ret)?;
                    let to = match e.k(to) {
                        TyK::Slice(x) => *x,
                        _ => to,
                    };
                    one(st, Val::ptr(PB::Buf(b, o), Some(len), to))
                }
                "clone" | "to_string" | "to_owned" => one(st, string(ret, b, o, len, u8t)),
                _ => None,
            };
        }
    }
    if matches!(n, "to_string" | "to_owned" | "from" | "into") && matches!(e.k(ret), TyK::Struct { path, .. } if last(path) == "String") {
        if let Some((b, o, len)) = text(e, st, &args[0], ts[0]) {
            return one(st, string(ret, b, o, len, u8t));
        }
        let r = any_string(e, ret);
        return one(st, r);
    }
    let _ = inst;
    None
}

fn lowest(e: &Eng, t: Ty) -> Option<i128> {
    e.p.int_range(t).map(|r| r.0)
}
/// The number a string stands for; one less than the lowest of the type if it is not one.
fn parsed(e: &mut Eng, t: Ty, b: Buf, o: Lin, len: Lin) -> Option<Lin> {
    if !matches!(e.k(t), TyK::Int { .. }) {
        return None;
    }
    let (lo, hi) = e.p.int_range(t)?;
    Some(Lin::s(e.c.intern(Def { op: "parsed", a: vec![TArg::N(b as u64), TArg::L(o), TArg::L(len), TArg::N(t as u64)] }, Some(lo - 1), Some(hi))))
}

pub fn vmodel(e: &mut Eng, name: &str, inst: &Inst, args: &[Val], ts: &[Ty], ret: Ty, st: &mut State) -> Option<Out> {
    let _ = (inst, ts);
    match name {
        "any_str" => {
            let len = e.c.fresh_lin("len", 0, i64::MAX as i128);
            let b = e.c.add_buf(BufK::Input, len.clone(), "str");
            let to = e.p.pointee(ret)?;
            one(st, Val::ptr(PB::Buf(b, Lin::c(0)), Some(len), to))
        }
        "file" | "file_name" => {
            let (b, len) = named(e, name);
            let to = e.p.pointee(ret)?;
            let to = match e.k(to) {
                TyK::Slice(x) => *x,
                _ => to,
            };
            one(st, Val::ptr(PB::Buf(b, Lin::c(0)), Some(len), to))
        }
        "arg" => {
            let i = e.int(st, &args[0])?.as_const()?;
            let (b, len) = named(e, &format!("arg{}", i));
            let to = e.p.pointee(ret)?;
            one(st, Val::ptr(PB::Buf(b, Lin::c(0)), Some(len), to))
        }
        "arg_count" => {
            let c = argc(e);
            one(st, Val::Int(c))
        }
        "parsed" => {
            let (b, o, len) = text(e, st, &args[0], ts[0])?;
            let t = match e.k(ret) {
                TyK::Enum { vars, .. } => vars.iter().find(|v| v.name == "Some")?.fields[0].1,
                _ => return None,
            };
            let l = parsed(e, t, b, o, len)?;
            let lo = lowest(e, t)?;
            let mut out = vec![];
            for (s, bad) in split_on(e, st.clone(), &BE::eq(l.addc(1 - lo))) {
                out.push((s, if bad { none() } else { some(Val::Int(l.clone())) }));
            }
            Some(out)
        }
        "buffer_len" => {
            let (b, _, _) = slice_of(e, st, &args[0])?;
            let l = e.c.bufs[b as usize].len.clone();
            one(st, Val::Int(l))
        }
        "unsupported" => {
            st.set_taint("the harness cannot follow");
            one(st, Val::unit())
        }
        "buffer_of" => {
            let (b, _, _) = slice_of(e, st, &args[0])?;
            one(st, Val::c(b as i128))
        }
        _ => None,
    }
}
