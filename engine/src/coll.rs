//! Transfer functions for collections.
//!
//! A vector is its length and one element: the one at the focus index, an arbitrary but fixed position. A map is
//! what it holds at the focus key, an arbitrary but fixed key, and the number of its other entries. Everything
//! else in them is arbitrary. Since the focus is arbitrary, what holds for it holds for every element.
use crate::interp::*;
use crate::ir::*;
use crate::lin::*;
use crate::models::*;
use crate::state::*;
use std::rc::Rc;

pub fn focus_index(e: &mut Eng) -> Lin {
    Lin::s(e.c.intern(Def { op: "focus", a: vec![] }, Some(0), Some(i64::MAX as i128)))
}

/// The focus key of a type: a value made of numbers that nothing is known about.
pub fn focus_key(e: &mut Eng, st: &mut State, t: Ty) -> Option<Val> {
    let objs: Vec<(Ty, Obj)> = e.focus_objs.iter().map(|(a, b)| (*a, *b)).collect();
    if let Some((_, o)) = objs.iter().find(|(x, _)| *x == t || e.same_ty(*x, t)) {
        return st.mem.get(o).map(|v| (**v).clone());
    }
    if let Some(v) = e.focus_keys.get(&t) {
        return v.clone();
    }
    let v = symbolic(e, st, t);
    e.focus_keys.insert(t, v.clone());
    v
}
/// A focus key of a type with several shapes is chosen when the harness first asks for it, once for every shape (main.rs runs the root again).
fn choose_focus_key(e: &mut Eng, st: &mut State, t: Ty) -> Option<Vec<(State, Val)>> {
    let known = e.focus_objs.iter().map(|(a, b)| (*a, *b)).find(|(x, _)| *x == t || e.same_ty(*x, t));
    if known.map_or(false, |(_, o)| st.mem.contains_key(&o)) {
        return None;
    }
    let vals = shapes(e, t)?;
    // the shapes of the first such type are looked at one by one
    let first = e.focus_objs.is_empty() || e.focus_objs.keys().next() == Some(&t);
    let mut vals = vals;
    if first && vals.len() > 1 {
        e.parts = vals.len();
        vals = vec![vals[e.part.min(vals.len() - 1)].clone()];
    }
    let next = FIRST_OBJ - 1 - e.focus_objs.len() as Obj;
    let o = *e.focus_objs.entry(t).or_insert(next);
    let mut out = vec![];
    for v in vals {
        let mut s = st.clone();
        Rc::make_mut(&mut s.mem).insert(o, Rc::new(v.clone()));
        out.push((s, v));
    }
    Some(out)
}
/// Has the type but one shape?
fn has_shape(e: &Eng, t: Ty) -> bool {
    match e.k(t) {
        TyK::Int { .. } | TyK::Char => true,
        TyK::Struct { fields, .. } => fields.iter().all(|f| has_shape(e, f.1)),
        TyK::Tuple(f) => f.iter().all(|f| has_shape(e, *f)),
        TyK::Array(x, _) => has_shape(e, *x),
        _ => false,
    }
}
fn shapes(e: &mut Eng, t: Ty) -> Option<Vec<Val>> {
    let all = |e: &mut Eng, ts: Vec<Ty>| -> Option<Vec<Vec<Val>>> {
        let mut r: Vec<Vec<Val>> = vec![vec![]];
        for t in ts {
            let vs = shapes(e, t)?;
            r = r.iter().flat_map(|p| vs.iter().map(move |v| p.iter().cloned().chain([v.clone()]).collect())).collect();
            if r.len() > 100 {
                return None;
            }
        }
        Some(r)
    };
    Some(match e.k(t).clone() {
        TyK::Int { .. } | TyK::Char => vec![Val::Int(e.fresh_int(t, "key"))],
        TyK::Bool => vec![Val::b(false), Val::b(true)],
        TyK::Struct { path, fields, .. } if !opaque_type(&path) => all(e, fields.iter().map(|f| f.1).collect())?.into_iter().map(Val::agg).collect(),
        TyK::Tuple(f) => all(e, f)?.into_iter().map(Val::agg).collect(),
        TyK::Array(x, Some(n)) if n <= 64 => all(e, vec![x; n])?.into_iter().map(Val::agg).collect(),
        TyK::Enum { vars, .. } => {
            let mut r = vec![];
            for (i, v) in vars.iter().enumerate() {
                for f in all(e, v.fields.iter().map(|f| f.1).collect())? {
                    r.push(Val::en(i, f));
                }
            }
            r
        }
        _ => return None,
    })
}
fn symbolic(e: &mut Eng, st: &mut State, t: Ty) -> Option<Val> {
    Some(match e.k(t).clone() {
        TyK::Int { .. } | TyK::Char => Val::Int(e.fresh_int(t, "key")),
        TyK::Struct { path, fields, .. } if !opaque_type(&path) => {
            let f: Option<Vec<Val>> = fields.iter().map(|f| symbolic(e, st, f.1)).collect();
            Val::agg(f?)
        }
        TyK::Tuple(f) => {
            let f: Option<Vec<Val>> = f.iter().map(|x| symbolic(e, st, *x)).collect();
            Val::agg(f?)
        }
        TyK::Array(x, Some(n)) if n <= 64 => {
            let f: Option<Vec<Val>> = (0..n).map(|_| symbolic(e, st, x)).collect();
            Val::agg(f?)
        }
        _ => return None,
    })
}
/// A key of a type with several shapes that is not the focus: all that is told of it is which one it is.
fn other_key(e: &mut Eng, t: Ty) -> Val {
    let id = e.c.fresh_lin("other key", 0, i64::MAX as i128);
    Val::m("other key", t, vec![Val::Int(id)])
}
fn key_eq(e: &mut Eng, st: &mut State, a: &Val, b: &Val, t: Option<Ty>) -> Option<BE> {
    if let (Val::M(x), Val::M(y)) = (a, b) {
        if x.kind == "other key" && y.kind == "other key" {
            return Some(BE::eq(int_of(&x.v[0]).sub(&int_of(&y.v[0]))));
        }
    }
    for (x, y) in [(a, b), (b, a)] {
        if let Val::M(m) = x {
            if m.kind != "other key" {
                return None;
            }
            if focus_key(e, st, m.ty).as_ref() == Some(y) {
                return Some(BE::C(false));
            }
            return match e.fresh_bool("same key") {
                Val::Bool(b) => Some(b),
                _ => None,
            };
        }
    }
    // short arrays of bytes: one equation
    if let (Val::Agg(x), Val::Agg(y), Some(TyK::Array(elem, _))) = (a, b, t.map(|t| e.k(t).clone())) {
        if x.len() == y.len() && x.len() <= 7 && e.bits(elem) == Some((8, false)) {
            let mut ds = vec![];
            for (p, q) in x.iter().zip(y.iter()) {
                let (p, q) = (e.int(st, p)?, e.int(st, q)?);
                ds.push(p.sub(&q));
            }
            if let Some(be) = bytes_equation(e, st, ds) {
                return Some(be);
            }
        }
    }
    match (a, b) {
        (Val::Top(_), _) | (_, Val::Top(_)) => None,
        (Val::Enum(i, _), Val::Enum(j, _)) if i != j => Some(BE::C(false)),
        (Val::Agg(x), Val::Agg(y)) | (Val::Enum(_, x), Val::Enum(_, y)) if x.len() == y.len() => {
            let mut r = BE::C(true);
            for (p, q) in x.iter().zip(y.iter()) {
                r = BE::and(r, key_eq(e, st, p, q, None)?);
            }
            Some(r)
        }
        (Val::Bool(p), Val::Bool(q)) => Some(BE::not(BE::and(BE::not(BE::and(p.clone(), q.clone())), BE::not(BE::and(BE::not(p.clone()), BE::not(q.clone())))))),
        (x, y) => {
            let p = e.int(st, x)?;
            let q = e.int(st, y)?;
            let d = p.sub(&q);
            let d = e.c.canon(st, &d);
            Some(BE::eq(d))
        }
    }
}

/// Unknown value with structure as deep as it goes.
pub fn arbitrary(e: &mut Eng, st: &mut State, t: Ty) -> Val {
    let o = st.new_obj(Val::Top(t));
    let v = e.read_obj(st, o, &[], t);
    Rc::make_mut(&mut st.mem).remove(&o);
    v
}

/// A copy that shares no map with the original.
pub fn deep_clone(st: &mut State, v: &Val) -> Val {
    match v {
        Val::Agg(f) => {
            let f = f.iter().map(|x| deep_clone(st, x)).collect();
            Val::agg(f)
        }
        Val::Enum(d, f) => {
            let f = f.iter().map(|x| deep_clone(st, x)).collect();
            Val::en(*d, f)
        }
        Val::M(m) if m.kind == "map" || m.kind == "mapit" => {
            let mut f = m.v.clone();
            if let Val::Ptr(p) = &f[0] {
                if let PB::Obj(o, _) = &p.b {
                    let c = st.mem.get(o).map(|c| (**c).clone()).unwrap_or(none());
                    let c = deep_clone(st, &c);
                    let n = st.new_obj(c);
                    f[0] = Val::ptr(PB::Obj(n, vec![]), None, p.ty);
                }
            }
            Val::m(m.kind, m.ty, f)
        }
        Val::M(m) => {
            let f = m.v.iter().map(|x| deep_clone(st, x)).collect();
            Val::m(m.kind, m.ty, f)
        }
        v => v.clone(),
    }
}

fn split(e: &mut Eng, st: State, b: &BE) -> Vec<(State, bool)> {
    let mut out = vec![];
    for pol in [true, false] {
        for s in e.c.assume(st.clone(), b, pol) {
            out.push((s, pol));
        }
    }
    out
}

fn pointer_target(e: &mut Eng, st: &mut State, v: &Val, t: Ty) -> Option<(Lv, Ty)> {
    let mut v = v.clone();
    let mut t = t;
    for _ in 0..3 {
        let to = e.p.pointee(t)?;
        if e.p.pointee(to).is_some() {
            v = deref(e, st, &v, t);
            t = to;
            continue;
        }
        let (lv, _) = e.ptr_to(st, &v, to);
        return Some((lv, to));
    }
    None
}

/// The model value at a place; an unknown one becomes an arbitrary one.
fn load(e: &mut Eng, st: &State, lv: &Lv, elem: &[Option<Ty>]) -> Vec<(State, Rc<Model>)> {
    let mut s = st.clone();
    let v = e.read(&mut s, lv);
    let t = e.lv_ty(lv);
    force(e, s, v, t, elem).into_iter().map(|(mut s, m)| {
        if let Lv::T(_) = lv {
            s.set_taint("collection behind an unknown reference");
        } else {
            e.write(&mut s, lv, Val::M(m.clone()));
        }
        (s, m)
    }).collect()
}
fn force(e: &mut Eng, mut s: State, v: Val, t: Ty, elem: &[Option<Ty>]) -> Vec<(State, Rc<Model>)> {
    if let Val::M(m) = &v {
        return vec![(s, m.clone())];
    }
    let path = match e.k(t) {
        TyK::Struct { path, .. } | TyK::Enum { path, .. } => path.clone(),
        _ => String::new(),
    };
    if !matches!(v, Val::Top(_)) {
        s.set_taint("collection of unknown shape");
    }
    match last(&path) {
        "Vec" => {
            let n = e.c.fresh_lin("len", 0, i64::MAX as i128);
            if let Some(Some(x)) = elem.first() {
                if matches!(e.k(*x), TyK::Int { bits: 8, signed: false }) {
                    let b = e.c.add_buf(BufK::Input, n.clone(), "vec");
                    return vec![(s, bytes_model(t, *x, b, n))];
                }
            }
            let i = focus_index(e);
            let mut out = vec![];
            for (mut q, inside) in split(e, s, &BE::lt(&i, &n)) {
                let f = if inside {
                    match elem.first() {
                        Some(Some(x)) => some(arbitrary(e, &mut q, *x)),
                        _ => {
                            q.set_taint("vector of unknown elements");
                            none()
                        }
                    }
                } else {
                    none()
                };
                out.push((q, Rc::new(Model { kind: "vec", ty: t, v: vec![Val::Int(n.clone()), f] })));
            }
            out
        }
        "BTreeMap" => {
            e.arbitrary_maps = true;
            let n = if e.small { Lin::c(0) } else { e.c.fresh_lin("others", 0, i64::MAX as i128) };
            let mut out = vec![];
            let kf = match elem.first() {
                Some(Some(k)) => focus_key(e, &mut s, *k).is_some(),
                _ => false,
            };
            for present in [false, true] {
                let mut q = s.clone();
                let c = if present {
                    if !kf {
                        continue;
                    }
                    match elem.get(1) {
                        Some(Some(x)) => some(arbitrary(e, &mut q, *x)),
                        _ => continue,
                    }
                } else {
                    none()
                };
                let o = q.new_obj(c);
                out.push((q, Rc::new(Model { kind: "map", ty: t, v: vec![Val::ptr(PB::Obj(o, vec![]), None, t), Val::Int(n.clone())] })));
            }
            e.nondet += 1;
            out
        }
        _ => vec![],
    }
}
fn bytes_model(t: Ty, u8t: Ty, b: Buf, n: Lin) -> Rc<Model> {
    Rc::new(Model { kind: "bytes", ty: t, v: vec![Val::ptr(PB::Buf(b, Lin::c(0)), Some(n), u8t)] })
}

fn cell_of(m: &Model) -> Option<Obj> {
    match &m.v[0] {
        Val::Ptr(p) => match &p.b {
            PB::Obj(o, _) => Some(*o),
            _ => None,
        },
        _ => None,
    }
}
fn int_of(v: &Val) -> Lin {
    match v {
        Val::Int(l) => l.clone(),
        _ => Lin::c(0),
    }
}
fn with(m: &Model, i: usize, v: Val) -> Val {
    let mut f = m.v.clone();
    f[i] = v;
    Val::m(m.kind, m.ty, f)
}
pub fn refer(st: &mut State, v: Val, t: Ty) -> Val {
    let o = st.new_obj(v);
    Val::ptr(PB::Obj(o, vec![]), None, t)
}
fn in_cell(o: Obj, t: Ty) -> Val {
    Val::ptr(PB::Obj(o, vec![Pr::D(1), Pr::F(0)]), None, t)
}
fn cell(st: &State, o: Obj) -> Option<Val> {
    match st.mem.get(&o).map(|v| (**v).clone()) {
        Some(Val::Enum(1, f)) => Some(f[0].clone()),
        _ => None,
    }
}
fn set_cell(st: &mut State, o: Obj, v: Val) {
    Rc::make_mut(&mut st.mem).insert(o, Rc::new(v));
}

pub fn model(e: &mut Eng, inst: &Inst, args: &[Val], ts: &[Ty], ret: Ty, st: &mut State) -> Option<Out> {
    let path = inst.path.as_str();
    if path.contains("vec::") || path.contains("Vec") || path.contains("slice::") || path.contains("<impl [T]>") {
        if let Some(r) = vec_model(e, path, inst, args, ts, ret, st) {
            return Some(r);
        }
    }
    if path.contains("BTreeMap") || path.contains("btree") {
        if let Some(r) = map_model(e, path, inst, args, ts, ret, st) {
            return Some(r);
        }
    }
    if let Some(r) = array_model(e, last(path), args, ts, ret, st) {
        return Some(r);
    }
    crate::io::model(e, inst, args, ts, ret, st)
}

/// Iterators that own a short array: position, end, elements.
fn array_model(e: &mut Eng, n: &str, args: &[Val], ts: &[Ty], ret: Ty, st: &mut State) -> Option<Out> {
    let owned = |e: &Eng, t: Ty| matches!(e.k(t), TyK::Struct { path, .. } if path.ends_with("array::IntoIter"));
    if args.is_empty() {
        return None;
    }
    if n == "into_iter" && owned(e, ret) {
        let k = match e.k(ts[0]) {
            TyK::Array(_, Some(k)) if *k <= 40 => *k,
            _ => return None,
        };
        let f = match &args[0] {
            Val::Agg(f) if f.len() == k => f.clone(),
            _ => return None,
        };
        let mut v = vec![Val::c(0), Val::c(k as i128)];
        v.extend(f.iter().cloned());
        return one(st, Val::m("arrit", ret, v));
    }
    let to = e.p.pointee(ts[0])?;
    if !owned(e, to) {
        return None;
    }
    let (lv, _) = pointer_target(e, st, &args[0], ts[0])?;
    let m = match e.read(st, &lv) {
        Val::M(m) if m.kind == "arrit" => m,
        _ => return None,
    };
    let (i, j) = (int_of(&m.v[0]).as_const()? as usize, int_of(&m.v[1]).as_const()? as usize);
    match n {
        "next" | "next_back" => {
            if i >= j {
                return one(st, none());
            }
            let back = n == "next_back";
            let k = if back { j - 1 } else { i };
            let x = m.v[2 + k].clone();
            let m2 = if back { with(&m, 1, Val::c(j as i128 - 1)) } else { with(&m, 0, Val::c(i as i128 + 1)) };
            e.write(st, &lv, m2);
            one(st, some(x))
        }
        "len" => one(st, Val::c((j - i) as i128)),
        "size_hint" => one(st, Val::agg(vec![Val::c((j - i) as i128), some(Val::c((j - i) as i128))])),
        _ => None,
    }
}

pub fn vmodel(e: &mut Eng, name: &str, inst: &Inst, args: &[Val], ts: &[Ty], ret: Ty, st: &mut State) -> Option<Out> {
    match name {
        "focus_index" => {
            let i = focus_index(e);
            one(st, Val::Int(i))
        }
        "focus_key" => {
            let t = ret;
            if !has_shape(e, t) {
                if let Some(r) = choose_focus_key(e, st, t) {
                    return Some(r);
                }
            }
            match focus_key(e, st, t) {
                Some(v) => one(st, v),
                None => {
                    st.set_taint("key type without focus");
                    None
                }
            }
        }
        "is_focus_key" => {
            let (x, t) = crate::models::deref_all(e, st, &args[0], *ts.first()?);
            let kappa = focus_key(e, st, t)?;
            match key_eq(e, st, &x, &kappa, Some(t)) {
                Some(be) => one(st, Val::Bool(be)),
                None => None,
            }
        }
        "beside" | "beside_foreign" => {
            let (m, t) = (crate::models::label_of(e, st, &args[0]), crate::models::label_of(e, st, &args[1]));
            let b = (m, t, name == "beside_foreign");
            if !e.besides.contains(&b) {
                e.besides.push(b);
            }
            one(st, Val::unit())
        }
        "arbitrary" => {
            let v = arbitrary(e, st, ret);
            one(st, v)
        }
        _ => crate::io::vmodel(e, name, inst, args, ts, ret, st),
    }
}

/// An element of a vector: the focus or an arbitrary one.
fn element(e: &mut Eng, st: State, m: &Model, i: &Lin, t: Ty) -> Vec<(State, Val)> {
    let f = focus_index(e);
    let mut out = vec![];
    for (mut s, hit) in split(e, st, &BE::eq(i.sub(&f))) {
        let v = match (&m.v[1], hit) {
            (Val::Enum(1, x), true) => x[0].clone(),
            (_, true) => continue,
            (_, false) => arbitrary(e, &mut s, t),
        };
        out.push((s, v));
    }
    out
}

fn vec_model(e: &mut Eng, path: &str, inst: &Inst, args: &[Val], ts: &[Ty], ret: Ty, st: &mut State) -> Option<Out> {
    let n = last(path);
    let targ = inst.args.first().cloned().flatten();
    let elems = [targ];
    let is_vec = path.starts_with("std::vec::Vec::<") || path.starts_with("<std::vec::Vec<") || path.starts_with("alloc::vec::Vec") || of_reference(path).map_or(false, |p| p.starts_with("std::vec::Vec<"));
    let u8t = |e: &Eng, t: Option<Ty>| t.map(|t| matches!(e.k(t), TyK::Int { bits: 8, signed: false })).unwrap_or(false);
    if n == "from_elem" && path.contains("vec::") && args.len() == 2 {
        let len = e.int(st, &args[1])?;
        if u8t(e, targ) {
            let b = e.c.add_buf(BufK::Volatile, len.clone(), "vec");
            return one(st, Val::M(bytes_model(ret, targ?, b, len)));
        }
        let f = focus_index(e);
        let mut out = vec![];
        for (s, inside) in split(e, st.clone(), &BE::lt(&f, &len)) {
            let x = if inside { some(args[0].clone()) } else { none() };
            out.push((s, Val::m("vec", ret, vec![Val::Int(len.clone()), x])));
        }
        return Some(out);
    }
    if is_vec {
        match n {
            "new" | "default" | "with_capacity" => {
                if u8t(e, targ) {
                    let b = e.c.const_buf(&[]);
                    return one(st, Val::M(bytes_model(ret, targ?, b, Lin::c(0))));
                }
                return one(st, Val::m("vec", ret, vec![Val::c(0), none()]));
            }
            "reserve" | "shrink_to_fit" | "reserve_exact" => return one(st, Val::unit()),
            "into_iter" if !ts.is_empty() => {
                if e.p.pointee(ts[0]).is_some() {
                    let (lv, _) = pointer_target(e, st, &args[0], ts[0])?;
                    let out = load(e, st, &lv, &elems);
                    return Some(out.into_iter().map(|(s, m)| (s, Val::m("vecit", ret, vec![Val::c(0), Val::Int(len_of(&m)), focus_of(&m), Val::c(1)]))).collect());
                }
                let out = force(e, st.clone(), args[0].clone(), ts[0], &elems);
                return Some(out.into_iter().filter(|x| x.1.kind == "vec").map(|(s, m)| (s, Val::m("vecit", ret, vec![Val::c(0), Val::Int(len_of(&m)), focus_of(&m), Val::c(0)]))).collect());
            }
            _ => {}
        }
        if ts.is_empty() || e.p.pointee(ts[0]).is_none() {
            return None;
        }
        let (lv, _) = pointer_target(e, st, &args[0], ts[0])?;
        let states = load(e, st, &lv, &elems);
        if states.iter().any(|x| x.1.kind != "vec" && x.1.kind != "bytes") || states.is_empty() {
            return None;
        }
        let mut out = vec![];
        let usz = e.ty_by_disp.get("usize").cloned();
        for (mut s, m) in states {
            let len = len_of(&m);
            match (n, m.kind) {
                ("len", _) => out.push((s, Val::Int(len))),
                ("is_empty", _) => out.push((s, Val::Bool(BE::eq(len)))),
                ("deref" | "as_slice" | "deref_mut" | "as_mut_slice" | "as_ref" | "borrow", "bytes") => out.push((s, m.v[0].clone())),
                ("deref" | "as_slice" | "deref_mut" | "as_mut_slice" | "as_ref" | "borrow", _) => {
                    if let Lv::O(o, p, t) = &lv {
                        out.push((s, Val::ptr(PB::Obj(*o, p.clone()), Some(len), *t)));
                    } else {
                        return None;
                    }
                }
                ("clone", _) => {
                    let v = deep_clone(&mut s, &Val::M(m.clone()));
                    out.push((s, v));
                }
                ("push", "vec") => {
                    let f = focus_index(e);
                    for (mut s, hit) in split(e, s, &BE::eq(len.sub(&f))) {
                        let x = if hit { some(args[1].clone()) } else { m.v[1].clone() };
                        e.write(&mut s, &lv, Val::m("vec", m.ty, vec![Val::Int(len.addc(1)), x]));
                        for s in hook_typed(e, "hook_vec_push", vec![args[1].clone()], &[ts[1]], s) {
                            out.push((s, Val::unit()));
                        }
                    }
                }
                ("pop", "vec") => {
                    let f = focus_index(e);
                    for (mut s, empty) in split(e, s, &BE::eq(len.clone())) {
                        if empty {
                            out.push((s, none()));
                            continue;
                        }
                        let i = len.addc(-1);
                        for (mut q, v) in element(e, s.clone(), &m, &i, targ?) {
                            let hit = e.c.equal(&q, &i, &f);
                            let x = if hit { none() } else { m.v[1].clone() };
                            e.write(&mut q, &lv, Val::m("vec", m.ty, vec![Val::Int(i.clone()), x]));
                            out.push((q, some(v)));
                        }
                        s.note(String::new());
                    }
                }
                ("clear", "vec") => {
                    e.write(&mut s, &lv, Val::m("vec", m.ty, vec![Val::c(0), none()]));
                    out.push((s, Val::unit()));
                }
                ("truncate", "vec") => {
                    let k = e.int(&mut s, &args[1])?;
                    let f = focus_index(e);
                    for (mut s, keep) in split(e, s, &BE::le(&len, &k)) {
                        if keep {
                            out.push((s, Val::unit()));
                            continue;
                        }
                        for (mut s, inside) in split(e, s, &BE::lt(&f, &k)) {
                            let x = if inside { m.v[1].clone() } else { none() };
                            e.write(&mut s, &lv, Val::m("vec", m.ty, vec![Val::Int(k.clone()), x]));
                            out.push((s, Val::unit()));
                        }
                    }
                }
                ("index" | "index_mut", "bytes") => {
                    let (b, o, _) = slice_of(e, &s, &m.v[0])?;
                    let name = match e.k(ts[1]) {
                        TyK::Struct { path, .. } => last(path).to_string(),
                        _ => return None,
                    };
                    let f = match &args[1] {
                        Val::Agg(f) => f.clone(),
                        _ => std::rc::Rc::new(vec![]),
                    };
                    let mut at = |s: &mut State, i: usize| f.get(i).and_then(|x| e.int(s, x));
                    let (lo, hi) = match name.as_str() {
                        "RangeFull" => (Lin::c(0), len.clone()),
                        "Range" => (at(&mut s, 0)?, at(&mut s, 1)?),
                        "RangeFrom" => (at(&mut s, 0)?, len.clone()),
                        "RangeTo" => (Lin::c(0), at(&mut s, 0)?),
                        _ => return None,
                    };
                    let ok = BE::and(BE::le(&lo, &hi), BE::le(&hi, &len));
                    let bad = e.c.assume(s.clone(), &ok, false);
                    e.obl("panic", "range out of bounds".into(), bad.first(), bad.is_empty(), "range of a vector".into());
                    let u8t = targ?;
                    for s in e.c.assume(s.clone(), &ok, true) {
                        out.push((s, Val::ptr(PB::Buf(b, o.add(&lo)), Some(hi.sub(&lo)), u8t)));
                    }
                }
                ("index" | "index_mut", "vec") if Some(ts[1]) == usz => {
                    let i = e.int(&mut s, &args[1])?;
                    let ok = BE::lt(&i, &len);
                    let bad = e.c.assume(s.clone(), &ok, false);
                    e.obl("panic", "index out of bounds".into(), bad.first(), bad.is_empty(), "index of a vector".into());
                    for s in e.c.assume(s.clone(), &ok, true) {
                        for (mut q, v) in element(e, s, &m, &i, targ?) {
                            if n == "index_mut" {
                                q.set_taint("element of a vector changed in place");
                            }
                            let r = refer(&mut q, v, targ?);
                            out.push((q, r));
                        }
                    }
                }
                _ => return None,
            }
        }
        return Some(out);
    }
    // slices of modelled vectors
    if !ts.is_empty() && (path.contains("<impl [T]>") || path.contains("slice::<impl")) {
        if let Val::Ptr(p) = &args[0] {
            if let PB::Obj(o, pp) = &p.b {
                if matches!(e.k(p.ty), TyK::Struct { path, .. } if last(path) == "Vec") {
                    let lv = Lv::O(*o, pp.clone(), p.ty);
                    let mut s0 = st.clone();
                    if let Val::M(m) = e.read(&mut s0, &lv) {
                        if m.kind != "vec" {
                            return None;
                        }
                        let len = len_of(&m);
                        match n {
                            "iter" => return Some(vec![(s0, Val::m("vecit", ret, vec![Val::c(0), Val::Int(len), focus_of(&m), Val::c(1)]))]),
                            "is_empty" => return Some(vec![(s0, Val::Bool(BE::eq(len)))]),
                            "len" => return Some(vec![(s0, Val::Int(len))]),
                            "first" | "last" | "get" => {
                                let i = match n {
                                    "first" => Lin::c(0),
                                    "last" => len.addc(-1),
                                    _ => e.int(&mut s0, &args[1])?,
                                };
                                let ok = BE::and(BE::lt(&i, &len), BE::ge(i.clone()));
                                let mut out = vec![];
                                for (s, ok) in split(e, s0, &ok) {
                                    if !ok {
                                        out.push((s, none()));
                                        continue;
                                    }
                                    for (mut q, v) in element(e, s, &m, &i, targ?) {
                                        let r = refer(&mut q, v, targ?);
                                        out.push((q, some(r)));
                                    }
                                }
                                return Some(out);
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
    }
    // iterators over vectors
    if (path.contains("vec::IntoIter<") || path.contains("slice::Iter<")) && !ts.is_empty() && e.p.pointee(ts[0]).is_some() {
        let (lv, _) = pointer_target(e, st, &args[0], ts[0])?;
        let v = e.read(st, &lv);
        let m = match &v {
            Val::M(m) if m.kind == "vecit" => m.clone(),
            _ => return None,
        };
        let (pos, len) = (int_of(&m.v[0]), int_of(&m.v[1]));
        let byref = m.v[3] == Val::c(1);
        match n {
            "next" | "nth" => {
                // (which passes over some)
                let k = if n == "nth" { e.int(st, &args[1])? } else { Lin::c(0) };
                let at = pos.add(&k);
                let mut out = vec![];
                let elem = match e.k(ret) {
                    TyK::Enum { vars, .. } => vars.iter().find(|v| v.name == "Some")?.fields[0].1,
                    _ => return None,
                };
                let elem = if byref { e.p.pointee(elem)? } else { elem };
                let mv = Model { kind: "vec", ty: m.ty, v: vec![Val::Int(len.clone()), m.v[2].clone()] };
                for (mut s, more) in split(e, st.clone(), &BE::lt(&at, &len)) {
                    if !more {
                        if n == "nth" {
                            e.write(&mut s, &lv, with(&m, 0, Val::Int(len.clone())));
                        }
                        out.push((s, none()));
                        continue;
                    }
                    for (mut q, v) in element(e, s, &mv, &at, elem) {
                        e.write(&mut q, &lv, with(&m, 0, Val::Int(at.addc(1))));
                        let v = if byref { refer(&mut q, v, elem) } else { v };
                        out.push((q, some(v)));
                    }
                }
                return Some(out);
            }
            "len" => return one(st, Val::Int(len.sub(&pos))),
            "size_hint" => {
                let r = len.sub(&pos);
                return one(st, Val::agg(vec![Val::Int(r.clone()), some(Val::Int(r))]));
            }
            _ => return None,
        }
    }
    None
}
fn len_of(m: &Model) -> Lin {
    match (m.kind, &m.v[0]) {
        ("bytes", Val::Ptr(p)) => p.meta.clone().unwrap_or(Lin::c(0)),
        (_, v) => int_of(v),
    }
}
fn focus_of(m: &Model) -> Val {
    if m.kind == "bytes" {
        return none();
    }
    m.v[1].clone()
}

/// The map with what has become known about a key that is not the focus.
fn noted(m: &Model, others: Lin, key: &Val, present: bool) -> Val {
    Val::m("map", m.ty, vec![m.v[0].clone(), Val::Int(others), key.clone(), Val::c(present as i128)])
}

/// The type in `<&'a mut T as Trait>::f`.
fn of_reference(path: &str) -> Option<&str> {
    let p = path.strip_prefix("<&")?;
    let p = if p.starts_with('\'') { p.split_once(' ')?.1 } else { p };
    Some(p.strip_prefix("mut ").unwrap_or(p))
}

fn map_model(e: &mut Eng, path: &str, inst: &Inst, args: &[Val], ts: &[Ty], ret: Ty, st: &mut State) -> Option<Out> {
    let n = last(path);
    let mut targs = inst.args.iter().flatten().cloned();
    let kt = targs.next();
    let vt = targs.next();
    let elems = [kt, vt];
    let is_map = path.starts_with("std::collections::BTreeMap::<") || path.starts_with("<std::collections::BTreeMap<") || of_reference(path).map_or(false, |p| p.starts_with("std::collections::BTreeMap<"));
    let entry_type = |e: &Eng| -> Option<(usize, usize)> {
        match e.k(ret) {
            TyK::Enum { vars, .. } => Some((vars.iter().position(|v| v.name == "Vacant")?, vars.iter().position(|v| v.name == "Occupied")?)),
            _ => None,
        }
    };
    if is_map {
        let (kt, vt) = (kt?, vt?);
        match n {
            "new" | "default" => {
                let o = st.new_obj(none());
                return one(st, Val::m("map", ret, vec![Val::ptr(PB::Obj(o, vec![]), None, ret), Val::c(0)]));
            }
            "into_iter" | "into_keys" | "into_values" if !ts.is_empty() && e.p.pointee(ts[0]).is_none() => {
                let k = match n {
                    "into_iter" => 1,
                    "into_keys" => 6,
                    _ => 5,
                };
                let out = force(e, st.clone(), args[0].clone(), ts[0], &elems);
                let out: Vec<_> = out.into_iter().flat_map(|(s, m)| crate::models::hook(e, "hook_map_iterated", vec![], s).into_iter().map(move |s| (s, m.clone()))).collect();
                return Some(out.into_iter().map(|(s, m)| (s, Val::m("mapit", ret, vec![m.v[0].clone(), Val::c(1), m.v[1].clone(), Val::c(k)]))).collect());
            }
            _ => {}
        }
        if ts.is_empty() {
            return None;
        }
        e.p.pointee(ts[0])?;
        let (lv, _) = pointer_target(e, st, &args[0], ts[0])?;
        let states = load(e, st, &lv, &elems);
        let mut out = vec![];
        for (mut s, m) in states {
            let co = cell_of(&m)?;
            let others = int_of(&m.v[1]);
            let kappa = focus_key(e, &mut s, kt);
            // what is known about the other key asked for last
            let known = |s: &mut State, e: &mut Eng, key: &Val| -> Option<bool> {
                if m.v.len() < 4 {
                    return None;
                }
                match key_eq(e, s, &m.v[2], key, Some(kt))? {
                    BE::C(true) => Some(m.v[3] == Val::c(1)),
                    b if e.c.holds(s, &b) => Some(m.v[3] == Val::c(1)),
                    _ => None,
                }
            };
            match n {
                "clone" => {
                    let v = deep_clone(&mut s, &Val::M(m.clone()));
                    out.push((s, v));
                    continue;
                }
                "len" => {
                    let c = cell(&s, co).is_some() as i128;
                    out.push((s, Val::Int(others.addc(c))));
                    continue;
                }
                "is_empty" => {
                    let v = if cell(&s, co).is_some() { Val::b(false) } else { Val::Bool(BE::eq(others)) };
                    out.push((s, v));
                    continue;
                }
                "clear" => {
                    set_cell(&mut s, co, none());
                    e.write(&mut s, &lv, Val::m("map", m.ty, vec![m.v[0].clone(), Val::c(0)]));
                    out.push((s, Val::unit()));
                    continue;
                }
                "iter" | "into_iter" | "iter_mut" | "keys" | "values" | "values_mut" => {
                    let k = match n {
                        "keys" => 3,
                        "values" | "values_mut" => 4,
                        _ => 0,
                    };
                    for s in crate::models::hook(e, "hook_map_iterated", vec![], s) {
                        out.push((s, Val::m("mapit", ret, vec![m.v[0].clone(), Val::c(1), m.v[1].clone(), Val::c(k)])));
                    }
                    continue;
                }
                _ => {}
            }
            // operations about one key
            let key = match n {
                "insert" | "entry" => args[1].clone(),
                "get" | "get_mut" | "remove" | "contains_key" | "index" | "get_key_value" | "remove_entry" => {
                    let v = deref_all(e, &mut s, &args[1], ts[1]);
                    if !e.same_ty(v.1, kt) {
                        return None;
                    }
                    v.0
                }
                _ => return None,
            };
            let be = match &kappa {
                Some(k) => key_eq(e, &mut s, &key, k, Some(kt)),
                None => Some(BE::C(false)),
            };
            let be = match be {
                Some(b) => b,
                None => {
                    s.set_taint("comparison of keys");
                    match e.fresh_bool("key") {
                        Val::Bool(b) => b,
                        _ => return None,
                    }
                }
            };
            for (mut s, hit) in split(e, s, &be) {
                if hit {
                    let old = cell(&s, co);
                    match n {
                        "insert" => {
                            set_cell(&mut s, co, some(args[2].clone()));
                            let r = old.map(some).unwrap_or(none());
                            for s in hook_typed(e, "hook_map_insert", vec![args[1].clone(), args[2].clone()], &[kt, vt], s) {
                                out.push((s, r.clone()));
                            }
                        }
                        "remove" => {
                            set_cell(&mut s, co, none());
                            out.push((s, old.map(some).unwrap_or(none())));
                        }
                        "get" | "get_mut" => out.push((s, if old.is_some() { some(in_cell(co, vt)) } else { none() })),
                        "index" => {
                            e.obl("panic", "no entry found for key".into(), Some(&s), old.is_some(), String::new());
                            if old.is_some() {
                                out.push((s, in_cell(co, vt)));
                            }
                        }
                        "contains_key" => out.push((s, Val::b(old.is_some()))),
                        "entry" => {
                            let (vac, occ) = entry_type(e)?;
                            let v = Val::m("entry", ret, vec![args[0].clone(), key.clone(), Val::c(1)]);
                            out.push((s, Val::en(if old.is_some() { occ } else { vac }, vec![v])));
                        }
                        _ => return None,
                    }
                } else {
                    // another key: it may be there or not
                    let k0 = known(&mut s, e, &key);
                    let present = if k0 == Some(false) { vec![] } else { e.c.assume(s.clone(), &BE::ge(others.addc(-1)), true) };
                    for mut s in present {
                        if k0.is_none() {
                            e.nondet += 1;
                        }
                        let kept = noted(&m, others.clone(), &key, true);
                        match n {
                            "insert" => {
                                let x = stored(e, &mut s, &key, vt);
                                e.write(&mut s, &lv, kept);
                                for s in hook_typed(e, "hook_map_insert", vec![args[1].clone(), args[2].clone()], &[kt, vt], s) {
                                    out.push((s, some(x.clone())));
                                }
                            }
                            "remove" => {
                                let x = stored(e, &mut s, &key, vt);
                                e.write(&mut s, &lv, noted(&m, others.addc(-1), &key, false));
                                out.push((s, some(x)));
                            }
                            "get" | "get_mut" | "index" => {
                                let x = stored(e, &mut s, &key, vt);
                                let r = refer(&mut s, x, vt);
                                e.write(&mut s, &lv, kept);
                                out.push((s, if n == "index" { r } else { some(r) }));
                            }
                            "contains_key" => {
                                e.write(&mut s, &lv, kept);
                                out.push((s, Val::b(true)));
                            }
                            "entry" => {
                                let (_, occ) = entry_type(e)?;
                                e.write(&mut s, &lv, kept);
                                let v = Val::m("entry", ret, vec![args[0].clone(), key.clone(), Val::c(0)]);
                                out.push((s, Val::en(occ, vec![v])));
                            }
                            _ => return None,
                        }
                    }
                    if k0 == Some(true) {
                        continue;
                    }
                    let gone = noted(&m, others.clone(), &key, false);
                    match n {
                        "insert" => {
                            e.write(&mut s, &lv, noted(&m, others.addc(1), &key, true));
                            for s in hook_typed(e, "hook_map_insert", vec![args[1].clone(), args[2].clone()], &[kt, vt], s) {
                                out.push((s, none()));
                            }
                        }
                        "remove" | "get" | "get_mut" => {
                            e.write(&mut s, &lv, gone);
                            out.push((s, none()))
                        }
                        "contains_key" => {
                            e.write(&mut s, &lv, gone);
                            out.push((s, Val::b(false)))
                        }
                        "index" => s.set_taint("index of a map"),
                        "entry" => {
                            let (vac, _) = entry_type(e)?;
                            e.write(&mut s, &lv, gone);
                            let v = Val::m("entry", ret, vec![args[0].clone(), key.clone(), Val::c(0)]);
                            out.push((s, Val::en(vac, vec![v])));
                        }
                        _ => return None,
                    }
                }
            }
        }
        return Some(out);
    }
    // entries
    if path.contains("OccupiedEntry") || path.contains("VacantEntry") {
        let v = if e.p.pointee(*ts.first()?).is_some() { deref(e, st, &args[0], ts[0]) } else { args[0].clone() };
        let m = match &v {
            Val::M(m) if m.kind == "entry" => m.clone(),
            _ => return None,
        };
        let (kt, vt) = (kt?, vt?);
        let mp = match &m.v[0] {
            Val::Ptr(p) => p.clone(),
            _ => return None,
        };
        let (lv, _) = e.ptr_to(st, &m.v[0], mp.ty);
        let map = match e.read(st, &lv) {
            Val::M(x) if x.kind == "map" => x,
            _ => return None,
        };
        let co = cell_of(&map)?;
        let focus = m.v[2] == Val::c(1);
        let others = int_of(&map.v[1]);
        let occ = path.contains("OccupiedEntry");
        match (n, occ) {
            ("into_mut" | "get" | "get_mut", true) => {
                if focus {
                    return one(st, in_cell(co, vt));
                }
                let x = stored(e, st, &m.v[1], vt);
                let r = refer(st, x, vt);
                return one(st, r);
            }
            ("insert", true) => {
                let old = if focus { cell(st, co)? } else { stored(e, st, &m.v[1], vt) };
                if focus {
                    set_cell(st, co, some(args[1].clone()));
                }
                return Some(hook_typed(e, "hook_map_insert", vec![m.v[1].clone(), args[1].clone()], &[kt, vt], st.clone()).into_iter().map(|s| (s, old.clone())).collect());
            }
            ("remove", true) => {
                let old = if focus { cell(st, co)? } else { stored(e, st, &m.v[1], vt) };
                if focus {
                    set_cell(st, co, none());
                } else {
                    e.write(st, &lv, noted(&map, others.addc(-1), &m.v[1], false));
                }
                return one(st, old);
            }
            ("key", _) => {
                let r = refer(st, m.v[1].clone(), kt);
                return one(st, r);
            }
            ("into_key", false) => return one(st, m.v[1].clone()),
            ("insert_entry", _) => {
                let mut s = st.clone();
                if focus {
                    set_cell(&mut s, co, some(args[1].clone()));
                } else if !occ {
                    e.write(&mut s, &lv, noted(&map, others.addc(1), &m.v[1], true));
                }
                let r = Val::m("entry", ret, m.v.clone());
                return Some(hook_typed(e, "hook_map_insert", vec![m.v[1].clone(), args[1].clone()], &[kt, vt], s).into_iter().map(|s| (s, r.clone())).collect());
            }
            ("insert", false) => {
                let mut s = st.clone();
                let r = if focus {
                    set_cell(&mut s, co, some(args[1].clone()));
                    in_cell(co, vt)
                } else {
                    e.write(&mut s, &lv, noted(&map, others.addc(1), &m.v[1], true));
                    refer(&mut s, args[1].clone(), vt)
                };
                return Some(hook_typed(e, "hook_map_insert", vec![m.v[1].clone(), args[1].clone()], &[kt, vt], s).into_iter().map(|s| (s, r.clone())).collect());
            }
            _ => return None,
        }
    }
    // iterators
    if path.contains("btree_map::") && n == "next" {
        let (lv, _) = pointer_target(e, st, &args[0], ts[0])?;
        let m = match e.read(st, &lv) {
            Val::M(m) if m.kind == "mapit" => m,
            _ => return None,
        };
        let co = cell_of(&m)?;
        int_of(&m.v[1]).as_const()?;
        let pending = m.v[1] == Val::c(1) && cell(st, co).is_some();
        let rest = int_of(&m.v[2]);
        let mode = int_of(&m.v[3]).as_const()?;
        // keys and values as the iterator gives them out
        let item = match e.k(ret) {
            TyK::Enum { vars, .. } => vars.iter().find(|v| v.name == "Some")?.fields[0].1,
            _ => return None,
        };
        let (kt, vt) = match (mode, e.k(item)) {
            (0, TyK::Tuple(f)) => (e.p.pointee(f[0]), e.p.pointee(f[1])),
            (1, TyK::Tuple(f)) => (Some(f[0]), Some(f[1])),
            (3, _) => (e.p.pointee(item), None),
            (4, _) => (kt, e.p.pointee(item)),
            (5, _) => (kt, Some(item)),
            (6, _) => (Some(item), None),
            _ => return None,
        };
        let mk = |st: &mut State, k: Option<Val>, v: Option<Val>, place: Option<Val>| -> Val {
            let kr = k.clone().map(|k| if mode == 0 || mode == 3 { refer(st, k, kt.unwrap_or(0)) } else { k });
            let vr = v.clone().map(|v| match (&place, mode == 0 || mode == 4) {
                (Some(p), true) => p.clone(),
                (None, true) => refer(st, v, vt.unwrap_or(0)),
                _ => v,
            });
            match mode {
                0 | 1 => Val::agg(vec![kr.unwrap(), vr.unwrap()]),
                3 | 6 => kr.unwrap(),
                _ => vr.unwrap(),
            }
        };
        let mut out = vec![];
        if pending {
            let mut s = st.clone();
            let k = match kt {
                Some(t) => Some(focus_key(e, &mut s, t)?),
                None => None,
            };
            let v = cell(&s, co);
            let v = if vt.is_some() { v } else { None };
            e.write(&mut s, &lv, with(&m, 1, Val::c(0)));
            let place = vt.map(|t| in_cell(co, t));
            let given = v.clone();
            let r = mk(&mut s, k, v, place);
            for s in drained(e, mode, given, vt, s) {
                out.push((s, some(r.clone())));
            }
        }
        for mut s in e.c.assume(st.clone(), &BE::ge(rest.addc(-1)), true) {
            e.nondet += 1;
            let plain = kt.map_or(true, |t| has_shape(e, t));
            let mut k = kt.map(|t| if plain { arbitrary(e, &mut s, t) } else { other_key(e, t) });
            if let (Some(kv), Some(t), true) = (&k, kt, plain) {
                if let Some(kappa) = focus_key(e, &mut s, t) {
                    if let Some(be) = key_eq(e, &mut s, kv, &kappa, Some(t)) {
                        match e.c.assume(s.clone(), &be, false).into_iter().next() {
                            Some(q) => s = q,
                            None => continue,
                        }
                    }
                }
            }
            let v = vt.map(|t| match &k {
                Some(k) => stored(e, &mut s, k, t),
                None => {
                    s.foreign = true;
                    arbitrary(e, &mut s, t)
                }
            });
            if k.is_none() && matches!(mode, 0 | 1 | 3 | 6) {
                k = Some(Val::unit());
            }
            e.write(&mut s, &lv, with(&m, 2, Val::Int(rest.addc(-1))));
            let given = v.clone();
            let r = mk(&mut s, k, v, None);
            for s in drained(e, mode, given, vt, s) {
                out.push((s, some(r.clone())));
            }
        }
        if !pending {
            for s in e.c.assume(st.clone(), &BE::eq(rest.clone()), true) {
                out.push((s, none()));
            }
        }
        return Some(out);
    }
    None
}

/// An iterator that owns its map gives out a value.
fn drained(e: &mut Eng, mode: i128, v: Option<Val>, vt: Option<Ty>, s: State) -> Vec<State> {
    match (v, vt) {
        (Some(v), Some(t)) if mode == 1 || mode == 5 => hook_typed(e, "hook_map_drained", vec![v], &[t], s),
        _ => vec![s],
    }
}

/// `next` of an iterator over a map whose content is beside the point: as many times as the map has entries, anything.
pub fn anything_next(e: &mut Eng, it: &Val, t: Ty, ret: Ty, st: &mut State) -> Option<Out> {
    let (lv, _) = pointer_target(e, st, it, t)?;
    let m = match e.read(st, &lv) {
        Val::M(m) if m.kind == "mapit" => m,
        _ => return None,
    };
    let item = match e.k(ret) {
        TyK::Enum { vars, .. } => vars.iter().find(|v| v.name == "Some")?.fields[0].1,
        _ => return None,
    };
    let rest = int_of(&m.v[2]);
    let mut out = vec![];
    for mut s in e.c.assume(st.clone(), &BE::ge(rest.addc(-1)), true) {
        e.nondet += 1;
        let x = arbitrary(e, &mut s, item);
        e.write(&mut s, &lv, with(&m, 2, Val::Int(rest.addc(-1))));
        out.push((s, some(x)));
    }
    for s in e.c.assume(st.clone(), &BE::eq(rest), true) {
        out.push((s, none()));
    }
    Some(out)
}

/// What a map holds at a key that is not the focus: anything the harness' invariant for stored values admits.
fn stored(e: &mut Eng, st: &mut State, key: &Val, vt: Ty) -> Val {
    let v = arbitrary(e, st, vt);
    let want = "hook_map_stored";
    if let Some(i) = e.harness_fn(want) {
        if let Some(b) = &e.p.insts[i].body {
            if b.argc == 2 && e.same_ty(b.locals[2], vt) {
                let ts: Vec<Ty> = b.locals[1..=2].to_vec();
                let ret = b.locals[0];
                let mut r = e.call(i, vec![key.clone(), v.clone()], &ts, ret, st.clone(), false);
                if r.len() == 1 {
                    let (s, known) = r.pop().unwrap();
                    *st = s;
                    // (a hook may also say that it does not know)
                    st.foreign |= known == Val::b(false);
                    return v;
                }
            }
        }
    }
    st.foreign = true;
    v
}

/// Calls a hook of the harness if it is about these types.
pub fn hook_typed(e: &mut Eng, name: &str, args: Vec<Val>, ts: &[Ty], st: State) -> Vec<State> {
    if let Some(i) = e.harness_fn(name) {
        if let Some(b) = &e.p.insts[i].body {
            if b.argc == ts.len() && (0..ts.len()).all(|j| e.same_ty(b.locals[j + 1], ts[j])) {
                return hook(e, name, args, st);
            }
        }
    }
    vec![st]
}
