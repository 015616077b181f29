//! Transfer functions for compiler intrinsics, analysis intrinsics (`v::`), byte search, regexes and
//! slice comparison. Collections and I/O live in `coll.rs`.
use crate::interp::*;
use crate::ir::*;
use crate::lin::*;
use crate::state::*;
use std::rc::Rc;

pub fn opaque_type(path: &str) -> bool {
    let t = path.rsplit("::").next().unwrap_or(path);
    (t != "Error" || path.contains("io::")) && matches!(
        t,
        "Vec" | "String" | "BTreeMap" | "HashMap" | "HashSet" | "BTreeSet" | "Box" | "Rc" | "Arc" | "VecDeque" | "Finder" | "FinderRev" | "FindIter"
            | "FindRevIter" | "Regex" | "Match" | "CaptureLocations" | "Captures" | "Mmap" | "MmapOptions" | "File" | "BufReader" | "Stdin" | "StdinLock"
            | "Metadata" | "Error" | "Stdout" | "StdoutLock" | "BufWriter" | "LineWriter" | "Args" | "Arguments" | "Formatter" | "OccupiedEntry" | "VacantEntry"
    ) && (path.starts_with("std::")
        || path.starts_with("alloc::")
        || path.starts_with("core::")
        || path.starts_with("memchr::")
        || path.starts_with("regex::")
        || path.starts_with("memmap::")
        || path.contains("core_reexport")
        || path.starts_with("rayon::"))
        || (path.contains("btree_map::") && matches!(t, "Iter" | "IntoIter" | "IterMut" | "Keys" | "Values" | "ValuesMut" | "Range"))
        || (path.ends_with("vec::IntoIter") || path.ends_with("array::IntoIter") || path.ends_with("vec::Drain"))
}

pub fn last(path: &str) -> &str {
    path.rsplit("::").next().unwrap_or(path)
}

/// The slice a (fat) pointer argument designates in a buffer: (buffer, offset, length).
pub fn slice_of(e: &mut Eng, st: &State, v: &Val) -> Option<(Buf, Lin, Lin)> {
    match v {
        Val::Ptr(p) => match &p.b {
            PB::Buf(b, o) => {
                let o = e.c.canon(st, o);
                let n = match &p.meta {
                    Some(m) => e.c.canon(st, m),
                    None => match e.k(p.ty) {
                        TyK::Array(x, Some(n)) => Lin::c((*n * e.p.size(*x)) as i128),
                        _ => return None,
                    },
                };
                Some((*b, o, n))
            }
            _ => None,
        },
        _ => None,
    }
}

pub fn const_bytes(e: &mut Eng, st: &State, v: &Val) -> Option<Vec<u8>> {
    let (b, o, n) = slice_of(e, st, v)?;
    let (o, n) = (o.as_const()?, n.as_const()?);
    if o < 0 || n < 0 {
        return None;
    }
    match &e.c.bufs[b as usize].k {
        BufK::Const(bs) if (o + n) as usize <= bs.len() => Some(bs[o as usize..(o + n) as usize].to_vec()),
        _ => None,
    }
}

/// Any flat slice (buffer, array in memory) as a buffer slice; memory contents are snapshotted.
pub fn as_slice(e: &mut Eng, st: &mut State, v: &Val) -> Option<(Buf, Lin, Lin)> {
    if let Some(x) = slice_of(e, st, v) {
        return Some(x);
    }
    if let Val::Ptr(p) = v {
        if let PB::Obj(o, path) = &p.b {
            let n = match &p.meta {
                Some(m) => e.c.canon(st, m).as_const()?,
                None => {
                    let x = e.read_obj(st, *o, path, p.ty);
                    let t = p.ty;
                    let bs = e.to_bytes(st, &x, t)?;
                    let n = bs.len() as i128;
                    let b = e.c.add_buf(BufK::Vals(bs), Lin::c(n), "snap");
                    return Some((b, Lin::c(0), Lin::c(n)));
                }
            };
            if n < 0 || n > 4096 {
                return None;
            }
            let mut bs = vec![];
            for i in 0..n {
                let q = e.ptr_offset(st, p, p.ty, &Lin::c(i));
                let (lv, _) = e.ptr_to(st, &q, p.ty);
                let x = e.read(st, &lv);
                let t = e.lv_ty(&lv);
                bs.extend(e.to_bytes(st, &x, t)?);
            }
            let m = bs.len() as i128;
            let b = e.c.add_buf(BufK::Vals(bs), Lin::c(m), "snap");
            return Some((b, Lin::c(0), Lin::c(m)));
        }
    }
    None
}

fn is_vals(e: &Eng, b: Buf) -> bool {
    matches!(e.c.bufs[b as usize].k, BufK::Vals(_) | BufK::Const(_))
}

/// Truth of the equality of two byte ranges of the same length `n`.
pub fn bytes_eq(e: &mut Eng, st: &mut State, x: (Buf, Lin), y: (Buf, Lin), n: &Lin) -> BE {
    if n.as_const() == Some(0) {
        return BE::C(true);
    }
    if x.0 == y.0 && x.1 == y.1 {
        return BE::C(true);
    }
    if let Some(k) = n.as_const() {
        if k <= 64 {
            // known bytes on one side: one atom per literal
            let lit = |e: &Eng, b: Buf, o: &Lin| -> Option<Vec<u8>> {
                let o = o.as_const()?;
                match &e.c.bufs[b as usize].k {
                    BufK::Const(bs) if o >= 0 && (o + k) as usize <= bs.len() => Some(bs[o as usize..(o + k) as usize].to_vec()),
                    BufK::Vals(v) if o >= 0 && (o + k) as usize <= v.len() => {
                        v[o as usize..(o + k) as usize].iter().map(|l| l.as_const().map(|c| c as u8)).collect()
                    }
                    _ => None,
                }
            };
            let (lx, ly) = (lit(e, x.0, &x.1), lit(e, y.0, &y.1));
            match (lx, ly) {
                (Some(a), Some(b)) => return BE::C(a == b),
                (Some(a), None) if !is_vals(e, y.0) => return beq(y.0, &y.1, a),
                (None, Some(b)) if !is_vals(e, x.0) => return beq(x.0, &x.1, b),
                _ => {}
            }
            if k <= 7 {
                let ds = (0..k)
                    .map(|i| {
                        let a = e.c.load(x.0, &x.1.addc(i));
                        let b = e.c.load(y.0, &y.1.addc(i));
                        a.sub(&b)
                    })
                    .collect();
                if let Some(be) = bytes_equation(e, st, ds) {
                    return be;
                }
            }
            let mut r = BE::C(true);
            for i in 0..k {
                let a = e.c.load(x.0, &x.1.addc(i));
                let b = e.c.load(y.0, &y.1.addc(i));
                let d = a.sub(&b);
                let d = e.c.canon(st, &d);
                r = BE::and(r, BE::eq(d));
            }
            return r;
        }
    }
    let (x, y) = if (x.0, &x.1) <= (y.0, &y.1) { (x, y) } else { (y, x) };
    BE::Atom(Rc::new(Def {
        op: "req",
        a: vec![TArg::N(x.0 as u64), TArg::L(x.1), TArg::N(y.0 as u64), TArg::L(y.1), TArg::L(n.clone())],
    }))
}
/// A few differences of unknown bytes are all zero.
pub fn bytes_equation(e: &mut Eng, st: &State, ds: Vec<Lin>) -> Option<BE> {
    let mut r = Lin::c(0);
    for (i, d) in ds.iter().enumerate() {
        let d = e.c.canon(st, d);
        if i > 0 && d.t.len() < 2 && !(d.is_const() && d.as_const() == Some(0)) {
            return None;
        }
        r = r.axpy(1i128 << (8 * i), &d);
    }
    Some(BE::eq(e.c.canon(st, &r)))
}
pub fn beq(b: Buf, o: &Lin, bytes: Vec<u8>) -> BE {
    BE::Atom(Rc::new(Def { op: "beq", a: vec![TArg::N(b as u64), TArg::L(o.clone()), TArg::B(bytes)] }))
}

pub fn label_of(e: &mut Eng, st: &State, v: &Val) -> String {
    match const_bytes(e, st, v) {
        Some(b) => String::from_utf8_lossy(&b).to_string(),
        None => "?".into(),
    }
}

pub fn one(st: &State, v: Val) -> Option<Out> {
    Some(vec![(st.clone(), v)])
}
pub fn none() -> Val {
    Val::en(0, vec![])
}
pub fn some(v: Val) -> Val {
    Val::en(1, vec![v])
}

/// Reads through a reference argument.
pub fn deref(e: &mut Eng, st: &mut State, v: &Val, t: Ty) -> Val {
    let to = e.p.pointee(t).unwrap_or(t);
    let (lv, _) = e.ptr_to(st, v, to);
    e.read(st, &lv)
}
pub fn store(e: &mut Eng, st: &mut State, ptr: &Val, t: Ty, v: Val) {
    let to = e.p.pointee(t).unwrap_or(t);
    let (lv, _) = e.ptr_to(st, ptr, to);
    e.write(st, &lv, v);
}
/// Follows references to references down to a non-reference value.
pub fn deref_all(e: &mut Eng, st: &mut State, v: &Val, t: Ty) -> (Val, Ty) {
    let mut v = v.clone();
    let mut t = t;
    for _ in 0..4 {
        match e.k(t) {
            TyK::Ref(to, _) | TyK::Ptr(to, _) if !matches!(e.k(*to), TyK::Slice(_) | TyK::Str | TyK::Dyn) => {
                let to = *to;
                v = deref(e, st, &v, t);
                t = to;
            }
            _ => break,
        }
    }
    (v, t)
}

/// Sends a boolean expression to one value per truth value.
fn fork(e: &mut Eng, st: &State, b: &BE, f: impl Fn(bool) -> Val) -> Out {
    let mut out = vec![];
    for pol in [true, false] {
        for s in e.c.assume(st.clone(), b, pol) {
            out.push((s, f(pol)));
        }
    }
    out
}

pub fn model(e: &mut Eng, i: InstId, args: &[Val], ts: &[Ty], ret: Ty, st: &mut State) -> Option<Out> {
    let p = e.p;
    let inst = &p.insts[i];
    let path = inst.path.as_str();
    if inst.krate.starts_with("harness") {
        if path.contains("::v::") || path.starts_with("v::") {
            return vmodel(e, last(path), inst, args, ts, ret, st);
        }
        return None;
    }
    if inst.kind == "intrinsic" {
        if let Some(r) = intrinsic(e, last(path), inst, args, ts, ret, st) {
            return Some(r);
        }
    }
    if path.ends_with("precondition_check") {
        if inst.body.is_some() && e.unsafe_here() && ["get_unchecked", "slice::index", "unwrap_unchecked", "unreachable_unchecked", "split_at"].iter().any(|x| path.contains(x)) {
            return None;
        }
        return one(st, Val::unit());
    }
    match inst.krate.as_str() {
        "memchr" => return memchr_model(e, path, inst, args, ts, ret, st),
        "regex" => return regex_model(e, path, inst, args, ts, ret, st),
        "zerocopy" => return zerocopy_model(e, path, inst, args, ts, ret, st),
        "matchit" | "rapiddlt" | "ripdlt" | "dd_dlt" => return ctor(e, inst, args, ret, st),
        "core" | "alloc" | "std" => {}
        _ => return crate::coll::model(e, inst, args, ts, ret, st),
    }
    if let Some(r) = core_model(e, path, inst, args, ts, ret, st) {
        return Some(r);
    }
    if let Some(r) = crate::coll::model(e, inst, args, ts, ret, st) {
        return Some(r);
    }
    ctor(e, inst, args, ret, st)
}

/// Tuple-struct and variant constructors used as functions have no body.
fn ctor(e: &mut Eng, inst: &Inst, args: &[Val], ret: Ty, st: &mut State) -> Option<Out> {
    if inst.body.is_some() {
        return None;
    }
    let n = last(&inst.path);
    match e.k(ret) {
        TyK::Enum { vars, .. } => {
            let i = vars.iter().position(|v| v.name == n)?;
            if vars[i].fields.len() == args.len() {
                return one(st, Val::en(i, args.to_vec()));
            }
            None
        }
        TyK::Struct { path, fields, .. } if last(path) == n && fields.len() == args.len() && !opaque_type(path) => one(st, Val::agg(args.to_vec())),
        _ => None,
    }
}

// -------------------------------------------------------------------- analysis intrinsics

fn vmodel(e: &mut Eng, name: &str, inst: &Inst, args: &[Val], ts: &[Ty], ret: Ty, st: &mut State) -> Option<Out> {
    let _ = (inst, ts);
    match name {
        "verify" => {
            let label = label_of(e, st, &args[0]);
            let be = match &args[1] {
                Val::Bool(b) => b.clone(),
                _ => {
                    st.set_taint("verify of an unknown value");
                    e.obl("verify", label, Some(st), false, "unknown value".into());
                    return one(st, Val::unit());
                }
            };
            let bad = e.c.assume(st.clone(), &be, false);
            let bad: Vec<State> = bad.into_iter().filter(|s| !e.c.refute(s, 2)).collect();
            match bad.first() {
                None => e.obl("verify", label, None, true, String::new()),
                Some(s) => {
                    let d = e.c.show_be(&be);
                    e.obl("verify", label, Some(s), false, format!("not established: {}", d));
                    let w = e.witnesses_of(st, &be);
                    if let (Some(o), false) = (e.obls.last_mut(), w.is_empty()) {
                        if !o.ok {
                            o.witness = w;
                        }
                    }
                }
            }
            let good = e.c.assume(st.clone(), &be, true);
            Some(good.into_iter().map(|s| (s, Val::unit())).collect())
        }
        "reach" => {
            let label = label_of(e, st, &args[0]);
            e.obl("reach", label, None, true, String::new());
            one(st, Val::unit())
        }
        "unreachable" => {
            let label = label_of(e, st, &args[0]);
            e.obl("verify", label, Some(st), false, "reachable".into());
            Some(vec![])
        }
        "assume" => {
            if let Val::Bool(b) = &args[0] {
                let r = e.c.assume(st.clone(), b, true);
                return Some(r.into_iter().map(|s| (s, Val::unit())).collect());
            }
            one(st, Val::unit())
        }
        "any_usize" | "any_u8" | "any_u16" | "any_u32" | "any_i32" | "any_u64" => {
            let l = e.fresh_int(ret, name);
            one(st, Val::Int(l))
        }
        "any_bool" | "more" => {
            let b = e.fresh_bool(name);
            one(st, b)
        }
        // ghost cells: part of the memory of the analysed program, but only the harness sees them
        "gset" => {
            let i = e.int(st, &args[0])?.as_const()?;
            let v = e.int(st, &args[1])?;
            Rc::make_mut(&mut st.mem).insert(1 + i as Obj, Rc::new(Val::Int(v)));
            one(st, Val::unit())
        }
        "gget" => {
            let i = e.int(st, &args[0])?.as_const()?;
            let v = st.mem.get(&(1 + i as Obj)).map(|v| (**v).clone()).unwrap_or(Val::c(0));
            one(st, v)
        }
        "any_bytes" => {
            let len = e.c.fresh_lin("len", 0, i64::MAX as i128);
            let b = e.c.add_buf(BufK::Input, len.clone(), "in");
            let to = p_elem(e, ret);
            one(st, Val::ptr(PB::Buf(b, Lin::c(0)), Some(len), to))
        }
        "valid" => {
            // V(suffix): is there a well-formed item at the start of this suffix?
            let (b, o, n) = slice_of(e, st, &args[0])?;
            let end = o.add(&n);
            let blen = e.c.bufs[b as usize].len.clone();
            let whole = e.c.equal(st, &end, &blen);
            let mut a = vec![TArg::N(b as u64), TArg::L(o.clone())];
            if !whole {
                a.push(TArg::L(end));
            }
            let be = BE::Atom(Rc::new(Def { op: "V", a }));
            let mut out = vec![];
            for pol in [true, false] {
                for mut s in e.c.assume(st.clone(), &be, pol) {
                    if !pol && whole {
                        e.c.add_ifact(&mut s, "nv", b, &o, &o.addc(1));
                    }
                    out.push((s, Val::b(pol)));
                }
            }
            Some(out)
        }
        "length" => {
            let (b, o, n) = slice_of(e, st, &args[0])?;
            let end = o.add(&n);
            let blen = e.c.bufs[b as usize].len.clone();
            let whole = e.c.equal(st, &end, &blen);
            let mut a = vec![TArg::N(b as u64), TArg::L(o)];
            if !whole {
                a.push(TArg::L(end));
            }
            let s = e.c.intern(Def { op: "L", a }, Some(1), Some(i64::MAX as i128));
            one(st, Val::Int(Lin::s(s)))
        }
        // no occurrence of the marker starts in [a, b)
        "no_marker" | "no_item" => {
            let (buf, o, n) = slice_of(e, st, &args[0])?;
            let _ = n;
            let mk = const_bytes(e, st, &args[1])?;
            let a = e.int(st, &args[2])?.add(&o);
            let b = e.int(st, &args[3])?.add(&o);
            let tag = if name == "no_item" { "nv".to_string() } else { needle_tag(&mk) };
            let r = e.c.covered_at(st, &tag, &mk, buf, &a, &b);
            one(st, Val::b(r))
        }
        "same_bytes" => {
            // do two slices designate the same region of the same input?
            let x = slice_of(e, st, &args[0]);
            let y = slice_of(e, st, &args[1]);
            if let (Some(x), Some(y)) = (x, y) {
                if x.0 == y.0 {
                    let r = BE::and(BE::eq(x.1.sub(&y.1)), BE::eq(x.2.sub(&y.2)));
                    return one(st, Val::Bool(r));
                }
                return one(st, Val::b(false));
            }
            None
        }
        "start_of" => {
            // address of the first byte, relative to the buffer
            let (_, o, _) = slice_of(e, st, &args[0])?;
            one(st, Val::Int(o))
        }
        "fun" => {
            // an uninterpreted function of integers
            let mut a = vec![];
            for x in args {
                a.push(TArg::L(e.int(st, x)?));
            }
            let (lo, hi) = e.p.int_range(ret).unwrap_or((0, i64::MAX as i128));
            let s = e.c.intern(Def { op: "fun", a }, Some(lo), Some(hi));
            one(st, Val::Int(Lin::s(s)))
        }
        "rel" => {
            let mut a = vec![];
            for x in args {
                a.push(TArg::L(e.int(st, x)?));
            }
            one(st, Val::Bool(BE::Atom(Rc::new(Def { op: "rel", a }))))
        }
        "show" => {
            if e.dbg {
                eprintln!("SHOW {:?}", args);
                e.dump_facts(st);
            }
            one(st, Val::unit())
        }
        _ => crate::coll::vmodel(e, name, inst, args, ts, ret, st),
    }
}
fn p_elem(e: &Eng, t: Ty) -> Ty {
    match e.p.pointee(t) {
        Some(x) => match e.k(x) {
            TyK::Slice(y) => *y,
            _ => x,
        },
        None => t,
    }
}

// -------------------------------------------------------------------- compiler intrinsics

fn tyarg(inst: &Inst, i: usize) -> Option<Ty> {
    inst.args.iter().filter_map(|x| *x).nth(i)
}

fn intrinsic(e: &mut Eng, n: &str, inst: &Inst, args: &[Val], ts: &[Ty], ret: Ty, st: &mut State) -> Option<Out> {
    let ta = tyarg(inst, 0);
    match n {
        "size_of" => one(st, Val::c(e.p.types[ta?].size? as i128)),
        "align_of" | "min_align_of" | "pref_align_of" => one(st, Val::c(e.p.types[ta?].align as i128)),
        "size_of_val" => {
            let t = ta?;
            if let Some(s) = e.p.types[t].size {
                if !matches!(e.k(t), TyK::Slice(_) | TyK::Str | TyK::Dyn) {
                    return one(st, Val::c(s as i128));
                }
            }
            if let Val::Ptr(p) = &args[0] {
                let s = match e.k(t) {
                    TyK::Slice(x) => e.p.size(*x) as i128,
                    TyK::Str => 1,
                    _ => return None,
                };
                return one(st, Val::Int(p.meta.clone()?.scale(s)));
            }
            None
        }
        "align_of_val" | "min_align_of_val" => {
            let t = ta?;
            let a = match e.k(t) {
                TyK::Slice(x) => e.p.types[*x].align,
                TyK::Str => 1,
                _ => e.p.types[t].align,
            };
            one(st, Val::c(a as i128))
        }
        "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "assume" | "forget" => {
            if n == "assume" {
                if let Val::Bool(b) = &args[0] {
                    let r = e.c.assume(st.clone(), b, true);
                    return Some(r.into_iter().map(|s| (s, Val::unit())).collect());
                }
            }
            one(st, Val::unit())
        }
        "likely" | "unlikely" | "black_box" => one(st, args[0].clone()),
        "ub_checks" => {
            let here = e.unsafe_here();
            one(st, Val::b(here))
        }
        "contract_checks" | "overflow_checks" | "is_val_statically_known" => one(st, Val::b(false)),
        "needs_drop" => one(st, Val::b(false)),
        "transmute" | "transmute_unchecked" => {
            let v = e.transmute(st, args[0].clone(), ts[0], ret);
            one(st, v)
        }
        "bswap" => {
            let (bits, signed) = e.bits(ret)?;
            let l = e.int(st, &args[0])?;
            let l = if signed { e.unsign(st, &l, bits) } else { l };
            let d = e.c.digits(&l, 8, bits / 8);
            let mut d: Vec<Lin> = d.iter().map(|x| e.c.canon(st, x)).collect();
            d.reverse();
            let v = e.compose(&d, ret);
            one(st, Val::Int(v))
        }
        "ctpop" | "ctlz" | "cttz" | "bitreverse" | "cttz_nonzero" | "ctlz_nonzero" => {
            let l = e.int(st, &args[0])?;
            let (bits, _) = e.bits(ts[0])?;
            if let Some(k) = l.as_const() {
                let m = if bits >= 127 { k } else { k & ((1i128 << bits) - 1) };
                let r = match n {
                    "ctpop" => m.count_ones(),
                    "cttz" | "cttz_nonzero" => m.trailing_zeros().min(bits),
                    "ctlz" | "ctlz_nonzero" => bits - (128 - m.leading_zeros()),
                    _ => return None,
                };
                return one(st, Val::c(r as i128));
            }
            let f = e.c.fresh_lin("cnt", 0, bits as i128);
            one(st, Val::Int(f))
        }
        "offset" | "arith_offset" => {
            if let (Val::Ptr(p), Some(k)) = (&args[0], e.int(st, &args[1])) {
                let el = e.p.pointee(ts[0])?;
                let v = e.ptr_offset(st, p, el, &k);
                return one(st, v);
            }
            None
        }
        "ptr_offset_from" | "ptr_offset_from_unsigned" => {
            if let (Val::Ptr(p), Val::Ptr(q)) = (&args[0], &args[1]) {
                let el = e.p.pointee(ts[0])?;
                let s = e.p.size(el).max(1) as i128;
                match (&p.b, &q.b) {
                    (PB::Buf(a, x), PB::Buf(b, y)) if a == b => {
                        let d = x.sub(y);
                        let d = e.c.canon(st, &d);
                        let r = if s == 1 { d } else { e.quot(&d, s) };
                        return one(st, Val::Int(r));
                    }
                    (PB::Addr(x), PB::Addr(y)) => {
                        let d = x.sub(y);
                        let r = if s == 1 { d } else { e.quot(&d, s) };
                        return one(st, Val::Int(r));
                    }
                    (PB::Obj(a, x), PB::Obj(b, y)) if a == b => {
                        let ix = |v: &[Pr], n: usize| -> Option<Lin> {
                            if v.len() == n {
                                Some(Lin::c(0))
                            } else if let (Some(Pr::I(l)), true) = (v.last(), v.len() == n + 1) {
                                Some(l.clone())
                            } else {
                                None
                            }
                        };
                        let strip = |v: &Vec<Pr>| if let Some(Pr::I(_)) = v.last() { v.len() - 1 } else { v.len() };
                        let m = strip(x).min(strip(y));
                        if let (Some(i), Some(j)) = (ix(x, m), ix(y, m)) {
                            return one(st, Val::Int(i.sub(&j)));
                        }
                        None
                    }
                    _ => None,
                }
            } else {
                None
            }
        }
        "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
            let v = deref(e, st, &args[0], ts[0]);
            one(st, v)
        }
        "write_via_move" | "volatile_store" => {
            store(e, st, &args[0], ts[0], args[1].clone());
            one(st, Val::unit())
        }
        "copy_nonoverlapping" | "copy" | "volatile_copy_nonoverlapping_memory" => {
            let t = e.p.pointee(ts[0])?;
            e.copy_mem(st, &args[0], &args[1], &args[2], t);
            one(st, Val::unit())
        }
        "typed_swap_nonoverlapping" => {
            let a = deref(e, st, &args[0], ts[0]);
            let b = deref(e, st, &args[1], ts[1]);
            store(e, st, &args[0], ts[0], b);
            store(e, st, &args[1], ts[1], a);
            one(st, Val::unit())
        }
        "aggregate_raw_ptr" => {
            let m = e.int(st, &args[1]);
            if let Val::Ptr(p) = &args[0] {
                let mut q = (**p).clone();
                q.meta = m;
                return one(st, Val::Ptr(Rc::new(q)));
            }
            None
        }
        "ptr_metadata" => {
            if let Val::Ptr(p) = &args[0] {
                return match &p.meta {
                    Some(m) => one(st, Val::Int(m.clone())),
                    None => one(st, Val::unit()),
                };
            }
            None
        }
        "compare_bytes" => {
            let k = e.int(st, &args[2])?;
            let x = as_slice_n(e, st, &args[0], &k)?;
            let y = as_slice_n(e, st, &args[1], &k)?;
            let be = bytes_eq(e, st, x, y, &k);
            let mut out = vec![];
            for s in e.c.assume(st.clone(), &be, true) {
                out.push((s, Val::c(0)));
            }
            for s in e.c.assume(st.clone(), &be, false) {
                let mut s2 = s.clone();
                let l = e.c.fresh_lin("cmp", i32::MIN as i128, i32::MAX as i128);
                if e.c.add_ne(&mut s2, &l) {
                    out.push((s2, Val::Int(l)));
                }
            }
            Some(out)
        }
        "raw_eq" => {
            let t = ta?;
            let k = Lin::c(e.p.types[t].size? as i128);
            let x = as_slice_n(e, st, &args[0], &k)?;
            let y = as_slice_n(e, st, &args[1], &k)?;
            let be = bytes_eq(e, st, x, y, &k);
            one(st, Val::Bool(be))
        }
        "saturating_add" | "saturating_sub" => {
            let (bits, signed) = e.bits(ret)?;
            let (lo, hi) = range_of(bits, signed);
            let a = e.int(st, &args[0])?;
            let b = e.int(st, &args[1])?;
            let r = if n == "saturating_add" { a.add(&b) } else { a.sub(&b) };
            let r = e.c.canon(st, &r);
            let mut out = vec![];
            for s in e.c.assume(st.clone(), &BE::and(BE::ge(r.addc(-lo)), BE::ge(r.neg().addc(hi))), true) {
                out.push((s, Val::Int(r.clone())));
            }
            for s in e.c.assume(st.clone(), &BE::ge(r.addc(-hi - 1)), true) {
                out.push((s, Val::c(hi)));
            }
            for s in e.c.assume(st.clone(), &BE::ge(r.neg().addc(lo - 1)), true) {
                out.push((s, Val::c(lo)));
            }
            Some(out)
        }
        "wrapping_add" | "wrapping_sub" | "wrapping_mul" => {
            let (bits, signed) = e.bits(ret)?;
            let a = e.int(st, &args[0])?;
            let b = e.int(st, &args[1])?;
            let r = match n {
                "wrapping_add" => a.add(&b),
                "wrapping_sub" => a.sub(&b),
                _ => e.mul(&a, &b),
            };
            let (lo, hi) = range_of(bits, signed);
            let ok = BE::and(BE::ge(r.addc(-lo)), BE::ge(r.neg().addc(hi)));
            let mut out = vec![];
            for s in e.c.assume(st.clone(), &ok, true) {
                out.push((s, Val::Int(r.clone())));
            }
            for s in e.c.assume(st.clone(), &ok, false) {
                let w = e.wrap(&s, r.clone(), bits, signed);
                out.push((s, Val::Int(w)));
            }
            Some(out)
        }
        "unchecked_add" | "unchecked_sub" | "unchecked_mul" => {
            let a = e.int(st, &args[0])?;
            let b = e.int(st, &args[1])?;
            let r = match n {
                "unchecked_add" => a.add(&b),
                "unchecked_sub" => a.sub(&b),
                _ => e.mul(&a, &b),
            };
            one(st, Val::Int(r))
        }
        "exact_div" | "unchecked_div" => {
            let a = e.int(st, &args[0])?;
            let b = e.int(st, &args[1])?;
            let r = e.div(st, &a, &b);
            one(st, Val::Int(r))
        }
        "unchecked_rem" => {
            let a = e.int(st, &args[0])?;
            let b = e.int(st, &args[1])?;
            let r = e.rem(st, &a, &b);
            one(st, Val::Int(r))
        }
        "unchecked_shl" | "unchecked_shr" => {
            let (bits, _) = e.bits(ret)?;
            let a = e.int(st, &args[0])?;
            let k = e.int(st, &args[1])?.as_const()?;
            let r = e.shift(st, if n == "unchecked_shl" { "Shl" } else { "Shr" }, &a, k as u32, bits);
            one(st, Val::Int(r))
        }
        "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
            let (bits, signed) = e.bits(ts[0])?;
            let (lo, hi) = range_of(bits, signed);
            let a = e.int(st, &args[0])?;
            let b = e.int(st, &args[1])?;
            let r = match n {
                "add_with_overflow" => a.add(&b),
                "sub_with_overflow" => a.sub(&b),
                _ => e.mul(&a, &b),
            };
            let r = e.c.canon(st, &r);
            let ok = BE::and(BE::ge(r.addc(-lo)), BE::ge(r.neg().addc(hi)));
            let mut out = vec![];
            for s in e.c.assume(st.clone(), &ok, true) {
                out.push((s, Val::agg(vec![Val::Int(r.clone()), Val::b(false)])));
            }
            for s in e.c.assume(st.clone(), &ok, false) {
                let w = e.wrap(&s, r.clone(), bits, signed);
                out.push((s, Val::agg(vec![Val::Int(w), Val::b(true)])));
            }
            Some(out)
        }
        "integer_max" | "integer_min" => {
            let x = e.int(st, &args[0])?;
            let y = e.int(st, &args[1])?;
            let le = BE::le(&x, &y);
            let (small, large) = (Val::Int(x), Val::Int(y));
            let mut out = vec![];
            for s in e.c.assume(st.clone(), &le, true) {
                out.push((s, if n == "integer_min" { small.clone() } else { large.clone() }));
            }
            for s in e.c.assume(st.clone(), &le, false) {
                out.push((s, if n == "integer_min" { large.clone() } else { small.clone() }));
            }
            Some(out)
        }
        "discriminant_value" => {
            let t = e.p.pointee(ts[0])?;
            let v = deref(e, st, &args[0], ts[0]);
            match (&v, e.k(t)) {
                (Val::Enum(i, _), TyK::Enum { vars, .. }) => {
                    let d = e.discriminant(st, vars[*i].discr, ret);
                    one(st, d)
                }
                (_, TyK::Enum { vars, .. }) => {
                    let mut out = vec![];
                    for (mut s, x) in e.split_enum(st, t) {
                        let i = if let Val::Enum(i, _) = &x { *i } else { 0 };
                        store(e, &mut s, &args[0], ts[0], x);
                        let d = e.discriminant(&s, vars[i].discr, ret);
                        out.push((s, d));
                    }
                    Some(out)
                }
                _ => None,
            }
        }
        "three_way_compare" => {
            let l = e.int(st, &args[0])?;
            let r = e.int(st, &args[1])?;
            let mut out = vec![];
            for (i, be) in [BE::lt(&l, &r), BE::eq(l.sub(&r)), BE::lt(&r, &l)].iter().enumerate() {
                for s in e.c.assume(st.clone(), be, true) {
                    out.push((s, Val::en(i, vec![])));
                }
            }
            Some(out)
        }
        "const_eval_select" => {
            // the run-time arm
            if let TyK::FnDef { inst: Some(f), .. } = e.k(ts[2]) {
                let f = *f;
                let (vals, tys): (Vec<Val>, Vec<Ty>) = match (&args[0], e.k(ts[0])) {
                    (Val::Agg(v), TyK::Tuple(t)) => (v.to_vec(), t.clone()),
                    (_, TyK::Tuple(t)) => (t.iter().map(|x| Val::Top(*x)).collect(), t.clone()),
                    _ => return None,
                };
                let s = st.clone();
                return Some(e.call(f, vals, &tys, ret, s, false));
            }
            None
        }
        "select_unpredictable" => {
            if let Val::Bool(b) = &args[0] {
                let (x, y) = (args[1].clone(), args[2].clone());
                return Some(fork(e, st, b, |p| if p { x.clone() } else { y.clone() }));
            }
            None
        }
        "type_id" | "type_name" => {
            let v = e.fresh_of(st, ret);
            one(st, v)
        }
        "slice_get_unchecked" => {
            let el = e.p.pointee(ret)?;
            let k = e.int(st, &args[1])?;
            if let Val::Ptr(p) = &args[0] {
                let mut q = e.ptr_offset(st, p, el, &k);
                if let Val::Ptr(x) = &mut q {
                    Rc::make_mut(x).meta = None;
                }
                return one(st, q);
            }
            None
        }
        "abort" | "unreachable" => Some(vec![]),
        _ => None,
    }
}

fn as_slice_n(e: &mut Eng, st: &mut State, v: &Val, n: &Lin) -> Option<(Buf, Lin)> {
    if let Val::Ptr(p) = v {
        match &p.b {
            PB::Buf(b, o) => {
                let o = e.c.canon(st, o);
                return Some((*b, o));
            }
            PB::Obj(..) => {
                let mut q = (**p).clone();
                // a thin pointer to the whole object, or to the first of n elements
                if e.p.types[q.ty].size.map(|s| s as i128) != n.as_const() {
                    let s = e.p.types[q.ty].size?.max(1) as i128;
                    q.meta = Some(Lin::c(n.as_const()? / s));
                } else {
                    q.meta = None;
                }
                let (b, o, _) = as_slice(e, st, &Val::Ptr(Rc::new(q)))?;
                return Some((b, o));
            }
            _ => {}
        }
    }
    None
}

// -------------------------------------------------------------------- core

fn core_model(e: &mut Eng, path: &str, inst: &Inst, args: &[Val], ts: &[Ty], ret: Ty, st: &mut State) -> Option<Out> {
    let n = last(path);
    // comparison of byte slices
    if (n == "eq" || n == "ne" || n == "equal" || n == "spec_eq" || n == "spec_ne") && args.len() == 2 {
        let byteish = |e: &Eng, t: Ty| -> bool {
            let mut t = t;
            for _ in 0..3 {
                match e.k(t) {
                    TyK::Ref(x, _) | TyK::Ptr(x, _) => t = *x,
                    _ => break,
                }
            }
            match e.k(t) {
                TyK::Slice(x) => e.p.types[*x].size == Some(1) && matches!(e.k(*x), TyK::Int { .. }),
                TyK::Array(x, Some(_)) => e.p.types[*x].size == Some(1) && matches!(e.k(*x), TyK::Int { .. }),
                TyK::Str => true,
                _ => false,
            }
        };
        let single_ref = |e: &Eng, t: Ty| matches!(e.p.pointee(t).map(|x| e.k(x)), Some(TyK::Slice(_) | TyK::Array(..) | TyK::Str));
        if byteish(e, ts[0]) && byteish(e, ts[1]) {
            let mut a = args[0].clone();
            let mut b = args[1].clone();
            let (mut ta, mut tb) = (ts[0], ts[1]);
            for _ in 0..2 {
                if !single_ref(e, ta) {
                    a = deref(e, st, &a, ta);
                    ta = e.p.pointee(ta)?;
                }
                if !single_ref(e, tb) {
                    b = deref(e, st, &b, tb);
                    tb = e.p.pointee(tb)?;
                }
            }
            let fix = |e: &Eng, v: &Val, t: Ty| -> Val {
                // thin references to arrays
                if let (Val::Ptr(p), Some(x)) = (v, e.p.pointee(t)) {
                    if let (TyK::Array(_, Some(k)), PB::Buf(..)) = (e.k(x), &p.b) {
                        let mut q = (**p).clone();
                        q.meta = Some(Lin::c(*k as i128));
                        return Val::Ptr(Rc::new(q));
                    }
                }
                v.clone()
            };
            let a = fix(e, &a, ta);
            let b = fix(e, &b, tb);
            let x = as_slice(e, st, &a)?;
            let y = as_slice(e, st, &b)?;
            let neg = n == "ne" || n == "spec_ne";
            let mut out = vec![];
            let d = x.2.sub(&y.2);
            for s in e.c.assume(st.clone(), &BE::eq(d.clone()), true) {
                let mut s = s;
                let len = if x.2.is_const() { x.2.clone() } else { y.2.clone() };
                let len = e.c.canon(&s, &len);
                let be = bytes_eq(e, &mut s, (x.0, x.1.clone()), (y.0, y.1.clone()), &len);
                out.push((s, Val::Bool(if neg { be.not() } else { be })));
            }
            for s in e.c.assume(st.clone(), &BE::eq(d), false) {
                out.push((s, Val::b(neg)));
            }
            return Some(out);
        }
        return None;
    }
    if (n == "starts_with" || n == "ends_with") && path.contains("<impl [T]>") && args.len() == 2 {
        let x = as_slice(e, st, &args[0])?;
        let y = as_slice(e, st, &args[1])?;
        let mut out = vec![];
        let ok = BE::le(&y.2, &x.2);
        for s in e.c.assume(st.clone(), &ok, true) {
            let mut s = s;
            let o = if n == "starts_with" { x.1.clone() } else { x.1.add(&x.2).sub(&y.2) };
            let be = bytes_eq(e, &mut s, (x.0, o), (y.0, y.1.clone()), &y.2);
            out.push((s, Val::Bool(be)));
        }
        for s in e.c.assume(st.clone(), &ok, false) {
            out.push((s, Val::b(false)));
        }
        return Some(out);
    }
    // alignment of pointers to byte-aligned types is trivially satisfied
    if n == "is_aligned_to" || n == "is_aligned" {
        return one(st, Val::b(true));
    }
    let _ = (inst, ret);
    None
}

fn zerocopy_model(e: &mut Eng, path: &str, inst: &Inst, args: &[Val], ts: &[Ty], ret: Ty, st: &mut State) -> Option<Out> {
    let n = last(path);
    match n {
        // every type involved has alignment 1; checked here against the type argument
        "aligned_to" => {
            let t = inst.args.iter().filter_map(|x| *x).last()?;
            if e.p.types[t].align == 1 {
                return one(st, Val::b(true));
            }
            None
        }
        "as_bytes" if path.contains("AsBytes") || path.contains("IntoBytes") => {
            let t = e.p.pointee(ts[0])?;
            if let TyK::Slice(x) = e.k(t) {
                if e.p.types[*x].size == Some(1) {
                    return one(st, args[0].clone());
                }
                return None;
            }
            if let Val::Ptr(p) = &args[0] {
                if let PB::Buf(b, o) = &p.b {
                    let u8t = p_elem(e, ret);
                    return one(st, Val::ptr(PB::Buf(*b, o.clone()), Some(Lin::c(e.p.types[t].size? as i128)), u8t));
                }
            }
            let v = deref(e, st, &args[0], ts[0]);
            let bs = e.to_bytes(st, &v, t)?;
            let k = bs.len() as i128;
            let b = e.c.add_buf(BufK::Vals(bs), Lin::c(k), "img");
            let u8t = p_elem(e, ret);
            one(st, Val::ptr(PB::Buf(b, Lin::c(0)), Some(Lin::c(k)), u8t))
        }
        _ => None,
    }
}

// -------------------------------------------------------------------- byte search

pub fn border_free(b: &[u8]) -> bool {
    (1..b.len()).all(|k| b[..k] != b[b.len() - k..])
}

/// First occurrence of `nd` in [o, o+n) of `b`: outcomes with the absolute position, or None.
pub fn find(e: &mut Eng, st: &State, b: Buf, o: &Lin, n: &Lin, nd: &[u8], rev: bool) -> Vec<(State, Option<Lin>)> {
    let k = nd.len() as i128;
    let tag = needle_tag(nd);
    let mut out = vec![];
    let end = o.add(n);
    // window of candidate starts: [o, end-k]
    let lim = end.addc(1 - k);
    // too short
    for s in e.c.assume(st.clone(), &BE::lt(n, &Lin::c(k)), true) {
        out.push((s, None));
    }
    for s in e.c.assume(st.clone(), &BE::lt(n, &Lin::c(k)), false) {
        // already known to have none?
        if e.c.covered_at(&s, &tag, nd, b, o, &lim) {
            out.push((s, None));
            continue;
        }
        // none
        {
            let mut t = s.clone();
            let bad = known_occurrence(e, &t, b, nd, o, &lim);
            if !bad {
                e.c.add_ifact(&mut t, &tag, b, o, &lim);
                e.c.add_ifact(&mut t, "nv", b, o, &lim);
                out.push((t, None));
            }
        }
        // some: a position r with the needle and none before (after, for the last)
        let mut cands: Vec<(State, Lin)> = vec![];
        // an occurrence already known at the near end is the answer
        let near = if rev { lim.addc(-1) } else { o.clone() };
        if let BE::Atom(d) = beq(b, &near, nd.to_vec()) {
            if e.c.eval_atom(&s, &d) == Some(true) {
                out.pop();
                cands.push((s.clone(), near.clone()));
                for (s, r) in cands {
                    out.push((s, Some(r)));
                }
                continue;
            }
        }
        let r = e.c.fresh_lin("pos", 0, i64::MAX as i128);
        let mut t = s.clone();
        if e.c.add_ge(&mut t, &r.sub(o)) && e.c.add_ge(&mut t, &lim.addc(-1).sub(&r)) {
            let skip = if rev { (r.addc(1), lim.clone()) } else { (o.clone(), r.clone()) };
            let be = beq(b, &r, nd.to_vec());
            for mut u in e.c.assume(t, &be, true) {
                if known_occurrence(e, &u, b, nd, &skip.0, &skip.1) {
                    continue;
                }
                e.c.add_ifact(&mut u, &tag, b, &skip.0, &skip.1);
                e.c.add_ifact(&mut u, "nv", b, &skip.0, &skip.1);
                if border_free(nd) && k > 1 {
                    e.c.add_ifact(&mut u, &tag, b, &r.addc(1), &r.addc(k));
                    e.c.add_ifact(&mut u, "nv", b, &r.addc(1), &r.addc(k));
                    e.c.add_ifact(&mut u, &tag, b, &r.addc(1 - k), &r);
                    e.c.add_ifact(&mut u, "nv", b, &r.addc(1 - k), &r);
                }
                cands.push((u, r.clone()));
            }
        }
        for (mut s, r) in cands {
            if e.c.saturate(&mut s) && !e.c.contradictory(&s) {
                out.push((s, Some(r)));
            }
        }
    }
    out
}

/// Is some already known occurrence provably inside [a, b)?
fn known_occurrence(e: &mut Eng, s: &State, buf: Buf, nd: &[u8], a: &Lin, b: &Lin) -> bool {
    let at: Vec<Lin> = s
        .atoms
        .iter()
        .filter(|(d, v)| **v && d.op == "beq" && d.a[0] == TArg::N(buf as u64) && d.a[2] == TArg::B(nd.to_vec()))
        .filter_map(|(d, _)| if let TArg::L(l) = &d.a[1] { Some(l.clone()) } else { None })
        .collect();
    for l in at {
        let x = l.sub(a);
        let y = b.sub(&l).addc(-1);
        if e.c.entails(s, &x) && e.c.entails(s, &y) {
            return true;
        }
    }
    false
}

fn memchr_model(e: &mut Eng, path: &str, inst: &Inst, args: &[Val], ts: &[Ty], ret: Ty, st: &mut State) -> Option<Out> {
    let n = last(path);
    let _ = inst;
    let rev_ty = path.contains("FinderRev") || path.contains("FindRevIter") || n.starts_with('r');
    match n {
        "new" if path.contains("Finder") => {
            let nd = match const_bytes(e, st, &args[0]) {
                Some(_) => args[0].clone(),
                None => {
                    // &B with B: AsRef<[u8]>
                    let v = deref(e, st, &args[0], ts[0]);
                    match const_bytes(e, st, &v) {
                        Some(_) => v,
                        None => match as_slice(e, st, &args[0]) {
                            Some((b, o, l)) => {
                                let u8t = e.ty_by_disp.get("u8").cloned().unwrap_or(0);
                                Val::ptr(PB::Buf(b, o), Some(l), u8t)
                            }
                            None => return None,
                        },
                    }
                }
            };
            one(st, Val::m(if rev_ty { "finderrev" } else { "finder" }, ret, vec![nd]))
        }
        "into_owned" | "as_ref" | "clone" if path.contains("Finder") => {
            let v = if matches!(e.k(ts[0]), TyK::Ref(..)) { deref(e, st, &args[0], ts[0]) } else { args[0].clone() };
            one(st, v)
        }
        "needle" => {
            if let Val::M(m) = deref(e, st, &args[0], ts[0]) {
                return one(st, m.v[0].clone());
            }
            None
        }
        "find" | "rfind" => {
            let (nd, hay) = if path.contains("Finder") {
                match deref(e, st, &args[0], ts[0]) {
                    Val::M(m) => (m.v[0].clone(), args[1].clone()),
                    _ => return None,
                }
            } else {
                (args[1].clone(), args[0].clone())
            };
            // haystack may be &B with B: AsRef<[u8]>
            let nb = needle(e, st, &nd)?;
            let hay = haystack(e, st, &hay, ts[if path.contains("Finder") { 1 } else { 0 }])?;
            let mut out = vec![];
            for (s, r) in find(e, st, hay.0, &hay.1, &hay.2, &nb, n == "rfind") {
                let v = match r {
                    None => none(),
                    Some(r) => some(Val::Int(r.sub(&hay.1))),
                };
                out.push((s, v));
            }
            Some(out)
        }
        "find_iter" | "rfind_iter" => {
            let (nd, hay) = if path.contains("Finder") {
                match deref(e, st, &args[0], ts[0]) {
                    Val::M(m) => (m.v[0].clone(), args[1].clone()),
                    _ => return None,
                }
            } else {
                (args[1].clone(), args[0].clone())
            };
            needle(e, st, &nd)?;
            let len = slice_of(e, st, &hay)?.2;
            if n == "find_iter" {
                one(st, Val::m("finditer", ret, vec![nd, hay, Val::c(0)]))
            } else {
                one(st, Val::m("rfinditer", ret, vec![nd, hay, Val::Int(len)]))
            }
        }
        "next" if path.contains("Iterator") => {
            let m = match deref(e, st, &args[0], ts[0]) {
                Val::M(m) => m,
                _ => return None,
            };
            let nb = needle(e, st, &m.v[0])?;
            let (b, o, l) = slice_of(e, st, &m.v[1])?;
            let pos = e.int(st, &m.v[2])?;
            let mut out = vec![];
            if m.kind == "finditer" {
                // done once past the end
                let over = BE::lt(&l, &pos);
                for s in e.c.assume(st.clone(), &over, true) {
                    out.push((s, none()));
                }
                for s in e.c.assume(st.clone(), &over, false) {
                    for (mut t, r) in find(e, &s, b, &o.add(&pos), &l.sub(&pos), &nb, false) {
                        match r {
                            None => {
                                // the position is left as it is: a later call searches the same suffix again
                                out.push((t, none()));
                            }
                            Some(r) => {
                                let rel = r.sub(&o);
                                let np = rel.addc(nb.len().max(1) as i128);
                                let v = Val::m("finditer", m.ty, vec![m.v[0].clone(), m.v[1].clone(), Val::Int(np)]);
                                store(e, &mut t, &args[0], ts[0], v);
                                out.push((t, some(Val::Int(rel))));
                            }
                        }
                    }
                }
            } else {
                for (mut t, r) in find(e, st, b, &o, &pos, &nb, true) {
                    match r {
                        None => out.push((t, none())),
                        Some(r) => {
                            let rel = r.sub(&o);
                            let v = Val::m("rfinditer", m.ty, vec![m.v[0].clone(), m.v[1].clone(), Val::Int(rel.clone())]);
                            store(e, &mut t, &args[0], ts[0], v);
                            out.push((t, some(Val::Int(rel))));
                        }
                    }
                }
            }
            Some(out)
        }
        "size_hint" => {
            let up = e.c.fresh_lin("hint", 0, i64::MAX as i128);
            one(st, Val::agg(vec![Val::c(0), some(Val::Int(up))]))
        }
        "memchr" | "memrchr" => {
            let b0 = e.int(st, &args[0])?.as_const()? as u8;
            let (b, o, l) = slice_of(e, st, &args[1])?;
            let mut out = vec![];
            for (s, r) in find(e, st, b, &o, &l, &[b0], n == "memrchr") {
                out.push((
                    s,
                    match r {
                        None => none(),
                        Some(r) => some(Val::Int(r.sub(&o))),
                    },
                ));
            }
            Some(out)
        }
        _ => None,
    }
}
fn needle(e: &mut Eng, st: &mut State, v: &Val) -> Option<Vec<u8>> {
    if let Some(b) = const_bytes(e, st, v) {
        return Some(b);
    }
    let (b, o, n) = slice_of(e, st, v)?;
    let (o, n) = (o.as_const()?, n.as_const()?);
    if let BufK::Vals(vs) = &e.c.bufs[b as usize].k {
        let vs: Vec<Lin> = vs.get(o as usize..(o + n) as usize)?.to_vec();
        return vs.iter().map(|l| e.c.canon(st, l).as_const().map(|k| k as u8)).collect();
    }
    None
}
fn haystack(e: &mut Eng, st: &mut State, v: &Val, t: Ty) -> Option<(Buf, Lin, Lin)> {
    if let Some(x) = slice_of(e, st, v) {
        return Some(x);
    }
    let (x, _) = deref_all(e, st, v, t);
    slice_of(e, st, &x)
}

// -------------------------------------------------------------------- regular expressions

/// Leftmost match at or after `start`: outcomes None or (s, e) with start <= s <= e <= len.
/// A function of (haystack, start): repeated and overlapping queries agree.
fn rx_find(e: &mut Eng, st: &State, b: Buf, o: &Lin, l: &Lin, start: &Lin) -> Vec<(State, Option<(Lin, Lin)>)> {
    let mut out = vec![];
    let a = o.add(start);
    let end = o.add(l);
    // an earlier search from o2 <= a that answered (s, e) with a <= s answers this one too
    let facts = st.rfacts.clone();
    for f in facts.iter() {
        if &*f.tag == "rx" && f.buf == b {
            let (o2, s2, e2) = (f.v[0].clone(), f.v[1].clone(), f.v[2].clone());
            if e.c.entails(st, &a.sub(&o2)) && e.c.entails(st, &s2.sub(&a)) {
                return vec![(st.clone(), Some((s2, e2)))];
            }
        }
    }
    if e.c.covered(st, &["norx"], b, &a, &end.addc(1)) {
        return vec![(st.clone(), None)];
    }
    let mut t = st.clone();
    e.c.add_ifact(&mut t, "norx", b, &a, &end.addc(1));
    out.push((t, None));
    let s = e.c.fresh_lin("ms", 0, i64::MAX as i128);
    let f = e.c.fresh_lin("me", 0, i64::MAX as i128);
    let mut t = st.clone();
    if e.c.add_ge(&mut t, &s.sub(&a)) && e.c.add_ge(&mut t, &f.sub(&s)) && e.c.add_ge(&mut t, &end.sub(&f)) {
        e.c.add_ifact(&mut t, "norx", b, &a, &s);
        let v = vec![e.c.canon(&t, &a), e.c.canon(&t, &s), e.c.canon(&t, &f)];
        e.c.add_rfact(&mut t, "rx", b, v);
        out.push((t, Some((s, f))));
    }
    out
}

/// Group 1 of the match [x, y): a function of the match.
/// Range of a capture group of a match (of any regular expression): anything inside the match, if it took part.
fn rx_group(e: &mut Eng, st: &State, b: Buf, x: &Lin, y: &Lin, group: i128) -> Vec<(State, Option<(Lin, Lin)>)> {
    let (yes, not) = match group {
        1 => ("rxg".to_string(), "rxn".to_string()),
        n => (format!("rxg{n}"), format!("rxn{n}")),
    };
    let facts = st.rfacts.clone();
    for f in facts.iter() {
        if f.buf == b && f.v.len() == 4 && e.c.equal(st, &f.v[0], x) && e.c.equal(st, &f.v[1], y) {
            if *f.tag == *yes {
                return vec![(st.clone(), Some((f.v[2].clone(), f.v[3].clone())))];
            }
            if *f.tag == *not {
                return vec![(st.clone(), None)];
            }
        }
    }
    let mut out = vec![];
    let mut t = st.clone();
    let (cx, cy) = (e.c.canon(st, x), e.c.canon(st, y));
    e.c.add_rfact(&mut t, &not, b, vec![cx.clone(), cy.clone(), Lin::c(0), Lin::c(0)]);
    out.push((t, None));
    let g = e.c.fresh_lin("gs", 0, i64::MAX as i128);
    let h = e.c.fresh_lin("ge", 0, i64::MAX as i128);
    let mut t = st.clone();
    if e.c.add_ge(&mut t, &g.sub(x)) && e.c.add_ge(&mut t, &h.sub(&g)) && e.c.add_ge(&mut t, &y.sub(&h)) {
        e.c.add_rfact(&mut t, &yes, b, vec![cx, cy, g.clone(), h.clone()]);
        out.push((t, Some((g, h))));
    }
    out
}

/// Calls the harness function of that name, if there is one, for its effect on the ghost state.
pub fn hook(e: &mut Eng, name: &str, args: Vec<Val>, st: State) -> Vec<State> {
    let i = match e.harness_fn(name) {
        Some(i) => i,
        None => return vec![st],
    };
    let (ts, ret) = match &e.p.insts[i].body {
        Some(b) => (b.locals[1..=b.argc].to_vec(), b.locals[0]),
        None => return vec![st],
    };
    e.call(i, args, &ts, ret, st, false).into_iter().map(|x| x.0).collect()
}

fn regex_model(e: &mut Eng, path: &str, inst: &Inst, args: &[Val], ts: &[Ty], ret: Ty, st: &mut State) -> Option<Out> {
    let n = last(path);
    let _ = inst;
    let usz = |e: &Eng| e.ty_by_disp.get("usize").cloned().unwrap_or(0);
    let _ = usz;
    match n {
        "new" if path.contains("Regex") => {
            // a valid pattern is the caller's obligation
            if let TyK::Enum { vars, .. } = e.k(ret) {
                let i = vars.iter().position(|v| v.name == "Ok")?;
                let t = vars[i].fields[0].1;
                return one(st, Val::en(i, vec![Val::m("regex", t, vec![])]));
            }
            None
        }
        "clone" => {
            let v = deref(e, st, &args[0], ts[0]);
            one(st, v)
        }
        "capture_locations" => one(st, Val::m("locs", ret, vec![none(), none()])),
        "find_at" | "find" | "captures_read_at" | "captures_read" | "captures_at" | "captures" | "is_match_at" | "is_match" | "shortest_match_at" => {
            let hi = if n.starts_with("captures_read") { 2 } else { 1 };
            let (b, o, l) = slice_of(e, st, &args[hi])?;
            let start = if n.ends_with("_at") { e.int(st, &args[hi + 1])? } else { Lin::c(0) };
            // start beyond the end panics
            let bad = e.c.assume(st.clone(), &BE::lt(&l, &start), true);
            match bad.first() {
                None => e.obl("panic", "regex search start within the haystack".into(), None, true, String::new()),
                Some(s) => e.obl("panic", "regex search start within the haystack".into(), Some(s), false, String::new()),
            }
            let mut out = vec![];
            let captures = n.starts_with("captures");
            for s in e.c.assume(st.clone(), &BE::lt(&l, &start), false) {
                for s in hook(e, "hook_regex_search", vec![args[hi].clone(), Val::Int(start.clone())], s) {
                    for (t, r) in rx_find(e, &s, b, &o, &l, &start) {
                        let group: Vec<(State, Option<(Lin, Lin)>)> = match (&r, captures) {
                            (Some((x, y)), true) => rx_group(e, &t, b, x, y, 1),
                            _ => vec![(t, None)],
                        };
                        for (t, g) in group {
                            let rel = |p: &Option<(Lin, Lin)>| p.as_ref().map_or((Lin::c(0), Lin::c(0)), |(x, y)| (x.sub(&o), y.sub(&o)));
                            let (x, y) = rel(&r);
                            let (gx, gy) = rel(&g);
                            let ha = vec![
                                args[hi].clone(),
                                Val::b(r.is_some()),
                                Val::Int(x.clone()),
                                Val::Int(y.clone()),
                                Val::b(g.is_some()),
                                Val::Int(gx.clone()),
                                Val::Int(gy.clone()),
                            ];
                            for mut t in hook(e, "hook_regex_match", ha, t) {
                                if matches!(n, "is_match_at" | "is_match") {
                                    out.push((t, Val::b(r.is_some())));
                                    continue;
                                }
                                if r.is_none() {
                                    out.push((t, none()));
                                    continue;
                                }
                                let mt = match e.k(ret) {
                                    TyK::Enum { vars, .. } => vars[1].fields[0].1,
                                    _ => ret,
                                };
                                if n.starts_with("shortest") {
                                    return None;
                                }
                                let m = Val::m("match", mt, vec![args[hi].clone(), Val::Int(x.clone()), Val::Int(y.clone())]);
                                let pair = Val::agg(vec![Val::Int(x.clone()), Val::Int(y.clone())]);
                                let gv = match &g {
                                    Some(_) => some(Val::agg(vec![Val::Int(gx.clone()), Val::Int(gy.clone())])),
                                    None => none(),
                                };
                                if n.starts_with("captures_read") {
                                    let lt = e.p.pointee(ts[1]).unwrap_or(ret);
                                    store(e, &mut t, &args[1], ts[1], Val::m("locs", lt, vec![some(pair), gv, args[hi].clone()]));
                                    out.push((t, some(m)));
                                } else if captures {
                                    out.push((t, some(Val::m("captures", mt, vec![args[hi].clone(), some(pair), gv]))));
                                } else {
                                    out.push((t, some(m)));
                                }
                            }
                        }
                    }
                }
            }
            Some(out)
        }
        "get" if path.contains("Captur") => {
            let i = e.int(st, &args[1])?.as_const()?;
            let m = match deref(e, st, &args[0], ts[0]) {
                Val::M(m) => m,
                _ => return None,
            };
            let locs = m.kind == "locs";
            let whole = if locs { m.v[0].clone() } else { m.v[1].clone() };
            let groups = if i <= 1 {
                let v = if locs { &m.v[i as usize] } else { &m.v[1 + i as usize] };
                vec![(st.clone(), v.clone())]
            } else if let (Val::Enum(1, q), Some(hay)) = (&whole, m.v.get(if locs { 2 } else { 0 })) {
                let (x, y) = match &q[0] {
                    Val::Agg(q) => (e.int(st, &q[0])?, e.int(st, &q[1])?),
                    _ => return None,
                };
                let (b, o, _) = slice_of(e, st, hay)?;
                let found = rx_group(e, st, b, &x.add(&o), &y.add(&o), i);
                found
                    .into_iter()
                    .map(|(t, g)| (t, g.map_or(none(), |(x, y)| some(Val::agg(vec![Val::Int(x.sub(&o)), Val::Int(y.sub(&o))])))))
                    .collect()
            } else {
                vec![(st.clone(), none())]
            };
            let mut out = vec![];
            for (t, v) in groups {
                if locs {
                    out.push((t, v));
                    continue;
                }
                match &v {
                    Val::Enum(1, q) => {
                        let q = match &q[0] {
                            Val::Agg(q) => q.clone(),
                            _ => return None,
                        };
                        let mt = match e.k(ret) {
                            TyK::Enum { vars, .. } => vars[1].fields[0].1,
                            _ => ret,
                        };
                        out.push((t, some(Val::m("match", mt, vec![m.v[0].clone(), q[0].clone(), q[1].clone()]))));
                    }
                    _ => out.push((t, none())),
                }
            }
            Some(out)
        }
        "start" | "end" | "range" | "as_bytes" | "len" | "is_empty" if path.contains("Match") => {
            let v = if matches!(e.k(ts[0]), TyK::Ref(..)) { deref(e, st, &args[0], ts[0]) } else { args[0].clone() };
            if let Val::M(m) = v {
                let (s, f) = (e.int(st, &m.v[1])?, e.int(st, &m.v[2])?);
                return match n {
                    "start" => one(st, Val::Int(s)),
                    "end" => one(st, Val::Int(f)),
                    "len" => one(st, Val::Int(f.sub(&s))),
                    "is_empty" => one(st, Val::Bool(BE::eq(f.sub(&s)))),
                    "range" => one(st, Val::agg(vec![Val::Int(s), Val::Int(f)])),
                    _ => {
                        let (b, o, _) = slice_of(e, st, &m.v[0])?;
                        let t = p_elem(e, ret);
                        one(st, Val::ptr(PB::Buf(b, o.add(&s)), Some(f.sub(&s)), t))
                    }
                };
            }
            None
        }
        _ => None,
    }
}
