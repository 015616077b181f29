//! mirdump: a rustc driver that writes the type-checked, resolved program as JSON.
//!
//! It is injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.  For every crate named in
//! MIRDUMP_CRATES it writes $MIRDUMP_OUT/<crate>.json: the monomorphised MIR of every non-generic
//! function of the crate and of everything those reach (callees resolved by the compiler), the types
//! they use (with layouts), constant allocations, plus the polymorphic MIR of all local items.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T>(v: impl IntoIterator<Item = T>, mut f: impl FnMut(T) -> String) -> String {
    let mut o = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

struct Dumper {
    types: HashMap<Ty, usize>,
    type_out: Vec<Option<String>>,
    insts: HashMap<Instance, usize>,
    inst_out: Vec<Option<String>>,
    queue: Vec<Instance>,
    allocs: HashMap<AllocId, usize>,
    alloc_out: Vec<Option<String>>,
    opaque: Vec<String>,
    mono: bool,
}

fn span_json(s: Span) -> String {
    let l = s.get_lines();
    format!("[{},{}]", esc(&s.get_filename().to_string()), l.start_line)
}

impl Dumper {
    fn is_opaque(&self, path: &str) -> bool {
        self.opaque.iter().any(|p| path.starts_with(p.as_str()))
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        // a pattern type (e.g. a non-null pointer) is its base type with a niche
        if let TyKind::RigidTy(RigidTy::Pat(base, _)) = t.kind() {
            let id = self.ty(base);
            self.types.insert(t, id);
            return id;
        }
        let id = self.type_out.len();
        self.types.insert(t, id);
        self.type_out.push(None);
        let body = self.ty_json(t);
        self.type_out[id] = Some(body);
        id
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(format!(
                    "{{\"const\":{}}}",
                    c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
                )),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }

    fn layout(&mut self, t: Ty) -> String {
        if !self.mono {
            return String::new();
        }
        match t.layout() {
            Ok(l) => {
                let s = l.shape();
                let offs = match &s.fields {
                    FieldsShape::Arbitrary { offsets } => list(offsets.iter(), |o| o.bytes().to_string()),
                    _ => "null".into(),
                };
                let voffs = match &s.variants {
                    VariantsShape::Multiple { variants, .. } => {
                        list(variants.iter(), |v| list(v.offsets.iter(), |o| o.bytes().to_string()))
                    }
                    _ => "null".into(),
                };
                let tag = match &s.variants {
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let toff = match &s.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let tsize = match tag {
                            Scalar::Initialized { value, .. } | Scalar::Union { value } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bytes()
                            }
                        };
                        match tag_encoding {
                            TagEncoding::Direct => format!("[{},{},\"direct\"]", toff, tsize),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                                "[{},{},\"niche\",{},{},{},{}]",
                                toff,
                                tsize,
                                untagged_variant.to_index_(),
                                niche_variants.start().to_index_(),
                                niche_variants.end().to_index_(),
                                niche_start
                            ),
                        }
                    }
                    _ => "null".into(),
                };
                format!(
                    ",\"size\":{},\"align\":{},\"offsets\":{},\"voffsets\":{},\"tag\":{}",
                    s.size.bytes(),
                    s.abi_align,
                    offs,
                    voffs,
                    tag
                )
            }
            Err(_) => String::new(),
        }
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let k = t.kind();
        let disp = format!("{}", t);
        let r = match k {
            TyKind::RigidTy(r) => r,
            _ => return format!("{{\"k\":\"param\",\"disp\":{}}}", esc(&disp)),
        };
        let mut o = match r {
            RigidTy::Bool => "{\"k\":\"bool\"".to_string(),
            RigidTy::Char => "{\"k\":\"char\"".to_string(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
            RigidTy::Float(_) => "{\"k\":\"float\"".to_string(),
            RigidTy::Str => "{\"k\":\"str\"".to_string(),
            RigidTy::Never => "{\"k\":\"never\"".to_string(),
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"elem\":{}", self.ty(e)),
            RigidTy::Array(e, n) => format!(
                "{{\"k\":\"array\",\"elem\":{},\"len\":{}",
                self.ty(e),
                n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            RigidTy::RawPtr(e, m) => {
                format!("{{\"k\":\"ptr\",\"to\":{},\"mut\":{}", self.ty(e), matches!(m, Mutability::Mut))
            }
            RigidTy::Ref(_, e, m) => {
                format!("{{\"k\":\"ref\",\"to\":{},\"mut\":{}", self.ty(e), matches!(m, Mutability::Mut))
            }
            RigidTy::Tuple(ts) => {
                format!("{{\"k\":\"tuple\",\"fields\":{}", list(ts, |t| self.ty(t).to_string()))
            }
            RigidTy::Adt(d, a) => {
                if !self.mono {
                    let r = format!("{{\"k\":\"adt\",\"path\":{},\"args\":{},\"disp\":{}}}", esc(&d.name()), self.args(&a), esc(&disp));
                    return r;
                }
                let vars: Vec<_> = d.variants();
                let is_enum = d.kind() == AdtKind::Enum;
                let vs = list(vars, |v| {
                    let fs = list(v.fields(), |f| {
                        let ft = f.ty_with_args(&a);
                        format!("[{},{}]", esc(&f.name), self.ty(ft))
                    });
                    let d = if is_enum {
                        d.discriminant_for_variant(v.idx()).val.to_string()
                    } else {
                        "0".into()
                    };
                    format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(&v.name()), d, fs)
                });
                format!(
                    "{{\"k\":\"adt\",\"kind\":\"{:?}\",\"path\":{},\"args\":{},\"variants\":{}",
                    d.kind(),
                    esc(&d.name()),
                    self.args(&a),
                    vs
                )
            }
            RigidTy::FnDef(d, a) => {
                let inst = if self.mono {
                    match Instance::resolve_for_fn_ptr(d, &a) {
                        Ok(i) => self.inst(i).to_string(),
                        Err(_) => "null".into(),
                    }
                } else {
                    "null".into()
                };
                let sig = d.fn_sig();
                format!(
                    "{{\"k\":\"fndef\",\"path\":{},\"args\":{},\"inst\":{},\"unsafe\":{},\"ctor\":{}",
                    esc(&d.name()),
                    self.args(&a),
                    inst,
                    matches!(sig.skip_binder().safety, Safety::Unsafe),
                    !d.has_body()
                )
            }
            RigidTy::Closure(d, a) => {
                // last generic arg of a closure is the tuple of upvar types
                let ups = match a.0.last() {
                    Some(GenericArgKind::Type(t)) => match t.kind() {
                        TyKind::RigidTy(RigidTy::Tuple(ts)) => list(ts, |t| self.ty(t).to_string()),
                        _ => "[]".into(),
                    },
                    _ => "[]".into(),
                };
                format!("{{\"k\":\"closure\",\"path\":{},\"fields\":{}", esc(&d.name()), ups)
            }
            RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"".to_string(),
            RigidTy::Dynamic(..) => "{\"k\":\"dyn\"".to_string(),
            _ => "{\"k\":\"other\"".to_string(),
        };
        o.push_str(&self.layout(t));
        let _ = write!(o, ",\"disp\":{}}}", esc(&disp));
        o
    }

    fn alloc(&mut self, id: AllocId) -> usize {
        if let Some(i) = self.allocs.get(&id) {
            return *i;
        }
        let n = self.alloc_out.len();
        self.allocs.insert(id, n);
        self.alloc_out.push(None);
        let j = match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"inst\":{}}}", self.inst(i)),
            GlobalAlloc::Static(s) => format!("{{\"k\":\"static\",\"path\":{},\"ty\":{}}}", esc(&s.name()), self.ty(s.ty())),
            GlobalAlloc::Memory(a) => {
                let b = self.alloc_json(&a);
                format!("{{\"k\":\"mem\",{}}}", b)
            }
            _ => "{\"k\":\"other\"}".into(),
        };
        self.alloc_out[n] = Some(j);
        n
    }

    fn alloc_json(&mut self, a: &Allocation) -> String {
        let mut hex = String::new();
        for b in &a.bytes {
            match b {
                Some(x) => {
                    let _ = write!(hex, "{:02x}", x);
                }
                None => hex.push_str("??"),
            }
        }
        let prov = list(a.provenance.ptrs.iter(), |(off, p)| format!("[{},{}]", off, self.alloc(p.0)));
        format!("\"bytes\":\"{}\",\"prov\":{}", hex, prov)
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => format!("{{\"ty\":{},{}}}", t, self.alloc_json(a)),
            ConstantKind::ZeroSized => format!("{{\"ty\":{},\"zst\":true}}", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => format!("{{\"ty\":{},{}}}", t, self.alloc_json(a)),
                TyConstKind::ZSTValue(_) => format!("{{\"ty\":{},\"zst\":true}}", t),
                _ => format!("{{\"ty\":{},\"unk\":true}}", t),
            },
            ConstantKind::Unevaluated(u) => format!("{{\"ty\":{},\"uneval\":{}}}", t, esc(&u.def.name())),
            _ => format!("{{\"ty\":{},\"unk\":true}}", t),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let pr = list(p.projection.iter(), |e| match e {
            ProjectionElem::Deref => "[\"deref\"]".into(),
            ProjectionElem::Field(i, t) => format!("[\"field\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"index\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                format!("[\"cindex\",{},{},{}]", offset, min_length, from_end)
            }
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(v) => format!("[\"downcast\",{}]", v.to_index_()),
            ProjectionElem::OpaqueCast(t) => format!("[\"ocast\",{}]", self.ty(*t)),
        });
        format!("[{},{}]", p.local, pr)
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rtcheck\",\"{:?}\"]", r),
        }
    }

    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => format!("[\"addrof\",\"{:?}\",{}]", k, self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ks = match k {
                    AggregateKind::Array(t) => format!("\"array\",{},0,null", self.ty(*t)),
                    AggregateKind::Tuple => "\"tuple\",null,0,null".into(),
                    AggregateKind::Adt(d, v, a, _, f) => format!(
                        "\"adt\",{},{},{}",
                        self.ty(d.ty_with_args(a)),
                        v.to_index_(),
                        f.map(|x| x.to_string()).unwrap_or("null".into())
                    ),
                    AggregateKind::Closure(d, a) => format!("\"closure\",{},0,null", self.ty(Ty::new_closure(*d, a.clone()))),
                    AggregateKind::RawPtr(t, m) => format!("\"rawptr\",{},0,null", self.ty(Ty::new_ptr(*t, *m))),
                    _ => "\"other\",null,0,null".into(),
                };
                format!("[\"agg\",{},{}]", ks, list(ops.iter(), |o| self.op(o)))
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.op(o), self.ty(*t)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => {
                let m = matches!(m, Mutability::Mut);
                format!("[\"reborrow\",{},{}]", m, self.place(p))
            }
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.op(o),
                n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals = list(b.locals().iter(), |l| self.ty(l.ty).to_string());
        let names = list(b.var_debug_info.iter().filter(|v| v.local().is_some()), |v| {
            format!("[{},{}]", v.local().unwrap(), esc(&v.name))
        });
        let blocks = list(b.blocks.iter(), |bb| {
            let st = list(bb.statements.iter().filter(|s| {
                matches!(s.kind, StatementKind::Assign(..) | StatementKind::SetDiscriminant { .. } | StatementKind::Intrinsic(..))
            }), |s| {
                let sp = span_json(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => format!("[\"assign\",{},{},{}]", self.place(p), self.rv(r), sp),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"setdiscr\",{},{},{}]", self.place(place), variant_index.to_index_(), sp)
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => format!("[\"assume\",{},{}]", self.op(o), sp),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        format!("[\"copynon\",{},{},{},{}]", self.op(&c.src), self.op(&c.dst), self.op(&c.count), sp)
                    }
                    _ => unreachable!(),
                }
            });
            let tm = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => format!(
                    "[\"switch\",{},{},{}]",
                    self.op(discr),
                    list(targets.branches(), |(v, t)| format!("[{},{}]", v, t)),
                    targets.otherwise()
                ),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let inst = match func.ty(b.locals()) {
                        Ok(t) => match t.kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) if self.mono => match Instance::resolve(d, &a) {
                                Ok(i) => self.inst(i).to_string(),
                                Err(_) => "null".into(),
                            },
                            _ => "null".into(),
                        },
                        Err(_) => "null".into(),
                    };
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        self.op(func),
                        inst,
                        list(args.iter(), |a| self.op(a)),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                        AssertMessage::Overflow(op, ..) => format!("{:?} overflow", op),
                        m => m.description().unwrap_or("assert").to_string(),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.op(cond), expected, esc(&m), target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            format!("{{\"s\":{},\"t\":{},\"sp\":{}}}", st, tm, span_json(bb.terminator.source_info.span))
        });
        format!(
            "\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":{},\"span\":{}",
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            locals,
            names,
            blocks,
            span_json(b.span)
        )
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(n) = self.insts.get(&i) {
            return *n;
        }
        let n = self.inst_out.len();
        self.insts.insert(i, n);
        self.inst_out.push(None);
        self.queue.push(i);
        n
    }

    fn dump_inst(&mut self, i: Instance) {
        let n = self.insts[&i];
        let path = i.def.name();
        let krate = i.def.krate().name;
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let opq = self.is_opaque(&path) || self.is_opaque(&i.name());
        let t = i.ty();
        let is_closure = t.kind().is_closure();
        let tid = self.ty(t);
        let args = i.args();
        let argj = self.args(&args);
        let uns = match t.kind().fn_sig() {
            Some(s) if !is_closure => matches!(s.skip_binder().safety, Safety::Unsafe),
            _ => false,
        };
        let mut o = format!(
            "{{\"path\":{},\"name\":{},\"crate\":{},\"kind\":\"{}\",\"closure\":{},\"ty\":{},\"args\":{},\"unsafe\":{},\"opaque\":{}",
            esc(&path), esc(&i.name()), esc(&krate), kind, is_closure, tid, argj, uns, opq
        );
        if !opq && !matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic) && i.kind != InstanceKind::Intrinsic {
            // shims have bodies of their own; a foreign item or a function without encoded MIR has none
            let has = i.has_body() || i.kind == InstanceKind::Shim;
            if has && !i.is_foreign_item() {
                if let Some(b) = i.body() {
                    let bj = self.body(&b);
                    let _ = write!(o, ",\"body\":{{{}}}", bj);
                }
            }
        }
        o.push('}');
        self.inst_out[n] = Some(o);
    }
}

trait ToIdx {
    fn to_index_(&self) -> usize;
}
impl ToIdx for VariantIdx {
    fn to_index_(&self) -> usize {
        use rustc_public_bridge::IndexedVal;
        self.to_index()
    }
}

fn dump() -> ControlFlow<(), ()> {
    let krate = rustc_public::local_crate();
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    if !want.split(',').any(|w| w == krate.name) {
        return ControlFlow::Continue(());
    }
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let opaque: Vec<String> = std::env::var("MIRDUMP_OPAQUE")
        .unwrap_or_default()
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.to_string())
        .collect();
    let mut d = Dumper {
        types: HashMap::new(),
        type_out: vec![],
        insts: HashMap::new(),
        inst_out: vec![],
        queue: vec![],
        allocs: HashMap::new(),
        alloc_out: vec![],
        opaque,
        mono: true,
    };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        if item.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            roots.push(d.inst(i));
        }
    }
    while let Some(i) = d.queue.pop() {
        d.dump_inst(i);
    }
    // polymorphic bodies of every local item (for the whole-crate effect rules)
    let mut p = Dumper {
        types: HashMap::new(),
        type_out: vec![],
        insts: HashMap::new(),
        inst_out: vec![],
        queue: vec![],
        allocs: HashMap::new(),
        alloc_out: vec![],
        opaque: vec![],
        mono: false,
    };
    let poly = list(rustc_public::all_local_items(), |item| {
        let body = item.body().map(|b| p.body(&b));
        format!(
            "{{\"path\":{},\"kind\":\"{:?}\"{}{}}}",
            esc(&item.name()),
            item.kind(),
            if body.is_some() { "," } else { "" },
            body.unwrap_or_default()
        )
    });
    let mut s = String::new();
    let un = |v: &Vec<Option<String>>| list(v.iter(), |x| x.clone().unwrap_or("null".into()));
    let _ = write!(
        s,
        "{{\"crate\":{},\"roots\":{},\"types\":{},\"insts\":{},\"allocs\":{},\"poly\":{},\"poly_types\":{},\"poly_allocs\":{}}}",
        esc(&krate.name),
        list(roots, |r| r.to_string()),
        un(&d.type_out),
        un(&d.inst_out),
        un(&d.alloc_out),
        poly,
        un(&p.type_out),
        un(&p.alloc_out)
    );
    // tests targets of the same crate name do not occur under `cargo check` (no --tests)
    std::fs::write(format!("{}/{}.json", out, krate.name), s).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if std::env::var("MIRDUMP_OUT").is_ok() && !args.iter().any(|a| a == "-vV" || a == "--version" || a == "-V") {
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-opt-level=0".into());
    }
    let r = rustc_public::run!(&args, dump);
    match r {
        Ok(()) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
