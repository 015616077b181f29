//! The dumped program: types, instances (monomorphic MIR), constant allocations.
use crate::json::J;

pub type Ty = usize;
pub type InstId = usize;

#[derive(Debug, Clone)]
pub struct Variant {
    pub name: String,
    pub discr: i128,
    pub fields: Vec<(String, Ty)>,
}

#[derive(Debug, Clone)]
pub enum TyK {
    Bool,
    Char,
    Int { bits: u32, signed: bool },
    Float,
    Str,
    Never,
    Slice(Ty),
    Array(Ty, Option<usize>),
    Ptr(Ty, bool),
    Ref(Ty, bool),
    Tuple(Vec<Ty>),
    Struct { path: String, args: Vec<Ty>, fields: Vec<(String, Ty)> },
    Enum { path: String, args: Vec<Ty>, vars: Vec<Variant> },
    Union { path: String, fields: Vec<(String, Ty)> },
    FnDef { path: String, inst: Option<InstId> },
    Closure { path: String, fields: Vec<Ty> },
    FnPtr,
    Dyn,
    Other,
}

#[derive(Debug, Clone)]
pub struct TyInfo {
    pub k: TyK,
    pub size: Option<usize>,
    pub align: usize,
    pub offsets: Vec<usize>,
    pub voffsets: Vec<Vec<usize>>,
    pub tag: Option<(usize, usize, Option<(usize, usize, usize, i128)>)>,
    pub disp: String,
}

#[derive(Debug, Clone)]
pub enum Pj {
    Deref,
    Field(usize, Ty),
    Index(usize),
    CIndex(usize, bool),
    Subslice(usize, usize, bool),
    Downcast(usize),
}

#[derive(Debug, Clone)]
pub struct Place {
    pub l: usize,
    pub p: Vec<Pj>,
}

#[derive(Debug, Clone)]
pub struct Konst {
    pub ty: Ty,
    pub alloc: Option<Alloc>,
    pub zst: bool,
}

#[derive(Debug, Clone)]
pub struct Alloc {
    pub bytes: Vec<Option<u8>>,
    pub prov: Vec<(usize, usize)>,
}

#[derive(Debug, Clone)]
pub enum AllocK {
    Fn(InstId),
    Static(String, Ty),
    Mem(Alloc),
    Other,
}

#[derive(Debug, Clone)]
pub enum Op {
    Copy(Place),
    Const(Konst),
    /// A check of the standard library that is made only in some builds: is it about undefined behaviour?
    RtCheck(bool),
}

#[derive(Debug, Clone)]
pub enum Rv {
    Use(Op),
    Ref(Place),
    Agg(String, Option<Ty>, usize, Option<usize>, Vec<Op>),
    Bin(String, Op, Op),
    CBin(String, Op, Op),
    Un(String, Op),
    Cast(String, Op, Ty),
    Discr(Place),
    Len(Place),
    Repeat(Op, Option<usize>),
    Other,
}

pub type Span = (String, usize);

#[derive(Debug, Clone)]
pub enum St {
    Assign(Place, Rv),
    SetDiscr(Place, usize),
    Assume(Op),
    CopyNon(Op, Op, Op),
}

#[derive(Debug, Clone)]
pub enum Tm {
    Goto(usize),
    Switch(Op, Vec<(i128, usize)>, usize),
    Resume,
    Return,
    Unreachable,
    Drop(Place, usize),
    Call { f: Op, inst: Option<InstId>, args: Vec<Op>, dest: Place, target: Option<usize> },
    Assert { cond: Op, exp: bool, msg: String, target: usize },
    Other,
}

#[derive(Debug)]
pub struct Block {
    pub s: Vec<(St, Span)>,
    pub t: Tm,
    pub sp: Span,
}

#[derive(Debug)]
pub struct Body {
    pub argc: usize,
    pub spread: Option<usize>,
    pub locals: Vec<Ty>,
    pub names: Vec<(usize, String)>,
    pub blocks: Vec<Block>,
    pub span: Span,
}

#[derive(Debug)]
pub struct Inst {
    pub path: String,
    pub name: String,
    pub krate: String,
    pub kind: String,
    pub closure: bool,
    pub ty: Ty,
    pub args: Vec<Option<Ty>>,
    pub uns: bool,
    pub body: Option<Body>,
}

pub struct Program {
    pub krate: String,
    pub types: Vec<TyInfo>,
    pub insts: Vec<Inst>,
    pub allocs: Vec<AllocK>,
    pub roots: Vec<InstId>,
    pub poly: Vec<(String, String, Option<Body>)>,
    pub poly_types: Vec<TyInfo>,
}

fn span(j: &J) -> Span {
    (j.at(0).str().to_string(), j.at(1).us())
}

fn ty(j: &J) -> TyInfo {
    let fl = |v: &J| -> Vec<(String, Ty)> {
        v.get("fields").arr().iter().map(|f| (f.at(0).str().to_string(), f.at(1).us())).collect()
    };
    let tl = |v: &J| -> Vec<Ty> { v.arr().iter().filter_map(|x| x.opt()).collect() };
    let k = match j.get("k").str() {
        "bool" => TyK::Bool,
        "char" => TyK::Char,
        "int" => TyK::Int { bits: j.get("bits").us() as u32, signed: true },
        "uint" => TyK::Int { bits: j.get("bits").us() as u32, signed: false },
        "float" => TyK::Float,
        "str" => TyK::Str,
        "never" => TyK::Never,
        "slice" => TyK::Slice(j.get("elem").us()),
        "array" => TyK::Array(j.get("elem").us(), j.get("len").opt()),
        "ptr" => TyK::Ptr(j.get("to").us(), j.get("mut").bool()),
        "ref" => TyK::Ref(j.get("to").us(), j.get("mut").bool()),
        "tuple" => TyK::Tuple(tl(j.get("fields"))),
        "adt" => {
            let path = j.get("path").str().to_string();
            let args = tl(j.get("args"));
            match j.get("kind").str() {
                "Enum" => TyK::Enum {
                    path,
                    args,
                    vars: j
                        .get("variants")
                        .arr()
                        .iter()
                        .map(|v| Variant {
                            name: v.get("name").str().to_string(),
                            discr: v.get("discr").num().unwrap_or(0),
                            fields: fl(v),
                        })
                        .collect(),
                },
                "Union" => TyK::Union { path, fields: fl(j.get("variants").at(0)) },
                _ => TyK::Struct { path, args, fields: fl(j.get("variants").at(0)) },
            }
        }
        "fndef" => TyK::FnDef { path: j.get("path").str().to_string(), inst: j.get("inst").opt() },
        "closure" => TyK::Closure { path: j.get("path").str().to_string(), fields: tl(j.get("fields")) },
        "fnptr" => TyK::FnPtr,
        "dyn" => TyK::Dyn,
        _ => TyK::Other,
    };
    let nums = |v: &J| -> Vec<usize> { v.arr().iter().map(|x| x.us()).collect() };
    let tag = match j.get("tag") {
        J::Arr(t) => Some((
            t[0].us(),
            t[1].us(),
            if t[2].str() == "niche" { Some((t[3].us(), t[4].us(), t[5].us(), t[6].num().unwrap())) } else { None },
        )),
        _ => None,
    };
    TyInfo {
        k,
        size: j.get("size").opt(),
        align: j.get("align").us(),
        offsets: nums(j.get("offsets")),
        voffsets: j.get("voffsets").arr().iter().map(|v| nums(v)).collect(),
        tag,
        disp: j.get("disp").str().to_string(),
    }
}

fn place(j: &J) -> Place {
    Place {
        l: j.at(0).us(),
        p: j.at(1)
            .arr()
            .iter()
            .filter_map(|e| {
                Some(match e.at(0).str() {
                    "deref" => Pj::Deref,
                    "field" => Pj::Field(e.at(1).us(), e.at(2).us()),
                    "index" => Pj::Index(e.at(1).us()),
                    "cindex" => Pj::CIndex(e.at(1).us(), e.at(3).bool()),
                    "subslice" => Pj::Subslice(e.at(1).us(), e.at(2).us(), e.at(3).bool()),
                    "downcast" => Pj::Downcast(e.at(1).us()),
                    _ => return None,
                })
            })
            .collect(),
    }
}

fn alloc(j: &J) -> Alloc {
    let h = j.get("bytes").str().as_bytes();
    let hx = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    let mut bytes = vec![];
    let mut i = 0;
    while i + 1 < h.len() {
        bytes.push(if h[i] == b'?' { None } else { Some(hx(h[i]) * 16 + hx(h[i + 1])) });
        i += 2;
    }
    Alloc { bytes, prov: j.get("prov").arr().iter().map(|p| (p.at(0).us(), p.at(1).us())).collect() }
}

fn op(j: &J) -> Op {
    match j.at(0).str() {
        "copy" | "move" => Op::Copy(place(j.at(1))),
        "const" => {
            let c = j.at(1);
            Op::Const(Konst {
                ty: c.get("ty").us(),
                alloc: if c.get("bytes").is_null() { None } else { Some(alloc(c)) },
                zst: c.get("zst").bool(),
            })
        }
        _ => Op::RtCheck(j.at(1).str() == "UbChecks"),
    }
}

fn rv(j: &J) -> Rv {
    let ops = |v: &J| v.arr().iter().map(op).collect::<Vec<_>>();
    match j.at(0).str() {
        "use" => Rv::Use(op(j.at(1))),
        "ref" | "addrof" | "reborrow" => Rv::Ref(place(j.at(2))),
        "agg" => Rv::Agg(j.at(1).str().to_string(), j.at(2).opt(), j.at(3).us(), j.at(4).opt(), ops(j.at(5))),
        "bin" => Rv::Bin(j.at(1).str().to_string(), op(j.at(2)), op(j.at(3))),
        "cbin" => Rv::CBin(j.at(1).str().to_string(), op(j.at(2)), op(j.at(3))),
        "un" => Rv::Un(j.at(1).str().to_string(), op(j.at(2))),
        "cast" => Rv::Cast(j.at(1).str().to_string(), op(j.at(2)), j.at(3).us()),
        "discr" => Rv::Discr(place(j.at(1))),
        "len" => Rv::Len(place(j.at(1))),
        "repeat" => Rv::Repeat(op(j.at(1)), j.at(2).opt()),
        _ => Rv::Other,
    }
}

fn body(j: &J) -> Body {
    let blocks = j
        .get("blocks")
        .arr()
        .iter()
        .map(|b| {
            let s = b
                .get("s")
                .arr()
                .iter()
                .map(|s| match s.at(0).str() {
                    "assign" => (St::Assign(place(s.at(1)), rv(s.at(2))), span(s.at(3))),
                    "setdiscr" => (St::SetDiscr(place(s.at(1)), s.at(2).us()), span(s.at(3))),
                    "assume" => (St::Assume(op(s.at(1))), span(s.at(2))),
                    _ => (St::CopyNon(op(s.at(1)), op(s.at(2)), op(s.at(3))), span(s.at(4))),
                })
                .collect();
            let t = b.get("t");
            let tm = match t.at(0).str() {
                "goto" => Tm::Goto(t.at(1).us()),
                "switch" => Tm::Switch(
                    op(t.at(1)),
                    t.at(2).arr().iter().map(|x| (x.at(0).num().unwrap(), x.at(1).us())).collect(),
                    t.at(3).us(),
                ),
                "resume" => Tm::Resume,
                "return" => Tm::Return,
                "unreachable" => Tm::Unreachable,
                "drop" => Tm::Drop(place(t.at(1)), t.at(2).us()),
                "call" => Tm::Call {
                    f: op(t.at(1)),
                    inst: t.at(2).opt(),
                    args: t.at(3).arr().iter().map(op).collect(),
                    dest: place(t.at(4)),
                    target: t.at(5).opt(),
                },
                "assert" => Tm::Assert {
                    cond: op(t.at(1)),
                    exp: t.at(2).bool(),
                    msg: t.at(3).str().to_string(),
                    target: t.at(4).us(),
                },
                _ => Tm::Other,
            };
            Block { s, t: tm, sp: span(b.get("sp")) }
        })
        .collect();
    Body {
        argc: j.get("argc").us(),
        spread: j.get("spread").opt(),
        locals: j.get("locals").arr().iter().map(|x| x.us()).collect(),
        names: j.get("names").arr().iter().map(|x| (x.at(0).us(), x.at(1).str().to_string())).collect(),
        blocks,
        span: span(j.get("span")),
    }
}

impl Program {
    pub fn load(path: &str) -> Program {
        let s = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("cannot read {}: {}", path, e));
        let j = J::parse(&s);
        let insts = j
            .get("insts")
            .arr()
            .iter()
            .map(|i| {
                let mut krate = i.get("crate").str().to_string();
                // a program that is included in the harness
                if krate == "harness" && !i.get("body").is_null() {
                    let f = span(i.get("body").get("span")).0;
                    for c in ["ripdlt", "dd_dlt"] {
                        if f.contains(&format!("{}/src/", c)) && !f.contains("harness/") {
                            krate = c.to_string();
                        }
                    }
                }
                (i, krate)
            })
            .map(|(i, krate)| Inst {
                path: i.get("path").str().to_string(),
                name: i.get("name").str().to_string(),
                krate,
                kind: i.get("kind").str().to_string(),
                closure: i.get("closure").bool(),
                ty: i.get("ty").us(),
                args: i.get("args").arr().iter().map(|x| x.opt()).collect(),
                uns: i.get("unsafe").bool(),
                body: if i.get("body").is_null() { None } else { Some(body(i.get("body"))) },
            })
            .collect();
        Program {
            krate: j.get("crate").str().to_string(),
            types: j.get("types").arr().iter().map(ty).collect(),
            insts,
            allocs: j
                .get("allocs")
                .arr()
                .iter()
                .map(|a| match a.get("k").str() {
                    "fn" => AllocK::Fn(a.get("inst").us()),
                    "static" => AllocK::Static(a.get("path").str().to_string(), a.get("ty").us()),
                    "mem" => AllocK::Mem(alloc(a)),
                    _ => AllocK::Other,
                })
                .collect(),
            roots: j.get("roots").arr().iter().map(|x| x.us()).collect(),
            poly: j
                .get("poly")
                .arr()
                .iter()
                .map(|p| {
                    (
                        p.get("path").str().to_string(),
                        p.get("kind").str().to_string(),
                        if p.get("blocks").is_null() { None } else { Some(body(p)) },
                    )
                })
                .collect(),
            poly_types: j.get("poly_types").arr().iter().map(ty).collect(),
        }
    }
    pub fn pointee(&self, t: Ty) -> Option<Ty> {
        match &self.types[t].k {
            TyK::Ptr(x, _) | TyK::Ref(x, _) => Some(*x),
            _ => None,
        }
    }
    pub fn size(&self, t: Ty) -> usize {
        self.types[t].size.unwrap_or(0)
    }
    /// The type of the tail-unsized element of an unsized type ([T], str), if any.
    pub fn unsized_elem(&self, t: Ty) -> Option<Option<Ty>> {
        match &self.types[t].k {
            TyK::Slice(e) => Some(Some(*e)),
            TyK::Str => Some(None),
            _ => None,
        }
    }
    pub fn int_range(&self, t: Ty) -> Option<(i128, i128)> {
        match &self.types[t].k {
            TyK::Int { bits: 128, signed: false } => Some((0, i128::MAX)),
            TyK::Int { bits: 128, signed: true } => Some((i128::MIN, i128::MAX)),
            TyK::Int { bits, signed: false } => Some((0, (1i128 << bits) - 1)),
            TyK::Int { bits, signed: true } => Some((-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1)),
            TyK::Char => Some((0, 0x10ffff)),
            TyK::Bool => Some((0, 1)),
            _ => None,
        }
    }
}
