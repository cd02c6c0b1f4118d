//! MIR exporter.  Runs as RUSTC_WRAPPER: every crate but `vroots` goes to the real rustc
//! unchanged.  For `vroots` it walks the call graph from the `root_*` functions and from the
//! command line mains, resolves every callee on monomorphic types, and writes the bodies of
//! all functions that live in /repo's crates as JSON.  Nothing is executed.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

/// the line of the outermost macro call a span comes from
fn line_of(sp: rustc_public::ty::Span) -> usize {
    rustc_middle::ty::tls::with(|tcx| {
        let s = rustc_public::rustc_internal::internal(tcx, sp).source_callsite();
        tcx.sess.source_map().lookup_char_pos(s.lo()).line
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let rustc = args[1].clone();
    let rest: Vec<String> = args[2..].to_vec();
    let is_roots = rest
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == "vroots");
    if !is_roots {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&rustc).args(&rest).exec();
        panic!("exec {}: {}", rustc, e);
    }
    let mut a = vec![rustc];
    a.extend(rest);
    let r = rustc_public::run!(&a, dump);
    match r {
        Ok(_) => {}
        Err(e) => {
            eprintln!("mirdump: {:?}", e);
            std::process::exit(1)
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn is_ws(krate: &str) -> bool {
    krate == "vroots" || krate.starts_with("zkp_")
}

/// what a function mentions, read from its generic body: callees with their line and the type
/// arguments, statics, and the types of its locals.  Closures belong to the function they are in.
struct Scan {
    calls: Vec<String>,
    types: HashSet<String>,
    statics: Vec<String>,
    closures: Vec<Body>,
    line: usize,
}

impl Scan {
    fn konst(&mut self, c: &MirConst) {
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = c.ty().kind() {
            let ta: Vec<String> = a.0.iter().filter_map(|x| x.ty().copied()).map(|t| js(&format!("{}", t))).collect();
            let sig = d.fn_sig().skip_binder();
            let un = (sig.safety == Safety::Unsafe) as u8;
            self.calls.push(format!("[{},{},[{}],{}]", js(&d.name()), self.line, ta.join(","), un));
        }
        if let ConstantKind::Allocated(a) = c.kind() {
            for (_, p) in a.provenance.ptrs.iter() {
                if let GlobalAlloc::Static(d) = GlobalAlloc::from(p.0) {
                    self.statics.push(format!("[{},{},{}]", js(&d.name()), self.line, js(&format!("{}", c.ty()))));
                }
            }
        }
    }
}

impl MirVisitor for Scan {
    fn visit_statement(&mut self, s: &Statement, l: visit::Location) {
        self.line = line_of(s.source_info.span);
        self.super_statement(s, l)
    }
    fn visit_terminator(&mut self, s: &Terminator, l: visit::Location) {
        self.line = line_of(s.source_info.span);
        self.super_terminator(s, l)
    }
    fn visit_ty(&mut self, t: &Ty, l: visit::Location) {
        self.types.insert(format!("{}", t));
        self.super_ty(t)
    }
    fn visit_const_operand(&mut self, c: &ConstOperand, l: visit::Location) {
        self.konst(&c.const_);
        self.super_const_operand(c, l)
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: visit::Location) {
        if let Rvalue::Aggregate(AggregateKind::Closure(d, _), _) = r {
            if let Some(b) = d.body() {
                self.closures.push(b);
            }
        }
        self.super_rvalue(r, l)
    }
}

fn scan(b: Body) -> String {
    let mut s = Scan { calls: vec![], types: HashSet::new(), statics: vec![], closures: vec![], line: 0 };
    s.visit_body(&b);
    while let Some(c) = s.closures.pop() {
        s.visit_body(&c);
    }
    let mut t: Vec<String> = s.types.into_iter().map(|x| js(&x)).collect();
    t.sort();
    format!("{{\"calls\":[{}],\"statics\":[{}],\"types\":[{}]}}", s.calls.join(","), s.statics.join(","), t.join(","))
}

struct Cx {
    types: HashMap<Ty, usize>,
    type_out: Vec<String>,
    fns: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    fn_out: Vec<(usize, String)>,
}

impl Cx {
    fn fn_id(&mut self, i: Instance) -> usize {
        if let Some(x) = self.fns.get(&i) {
            return *x;
        }
        let id = self.fns.len();
        self.fns.insert(i, id);
        self.queue.push_back((id, i));
        id
    }

    fn has_ws_body(&self, i: &Instance) -> bool {
        match i.kind {
            InstanceKind::Item => is_ws(&i.def.krate().name) && i.body().is_some(),
            InstanceKind::Shim => false,
            _ => false,
        }
    }

    /// the conversion behind the blanket implementation of Into
    fn through(&mut self, i: Instance) -> Instance {
        if let Some(b) = i.body() {
            for bb in &b.blocks {
                if let TerminatorKind::Call { func: Operand::Constant(c), .. } = &bb.terminator.kind {
                    if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = c.const_.ty().kind() {
                        if let Ok(j) = Instance::resolve(d, &a) {
                            if self.has_ws_body(&j) {
                                return j;
                            }
                        }
                    }
                }
            }
        }
        i
    }

    /// the method of a type of /repo that the same method of a container or a reference to it comes down to
    fn within(&mut self, def: FnDef, args: &GenericArgs) -> Option<usize> {
        let mut t = *args.0.first()?.ty()?;
        loop {
            t = match t.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, x, _)) => x,
                TyKind::RigidTy(RigidTy::Slice(x)) => x,
                TyKind::RigidTy(RigidTy::Array(x, _)) => x,
                TyKind::RigidTy(RigidTy::Adt(d, a)) if d.name().ends_with("::Vec") || d.name().ends_with("::Option") => *a.0.first()?.ty()?,
                TyKind::RigidTy(RigidTy::Adt(..)) => break,
                _ => return None,
            };
        }
        let mut v = args.0.clone();
        v[0] = GenericArgKind::Type(t);
        let i = Instance::resolve(def, &GenericArgs(v)).ok()?;
        if self.has_ws_body(&i) { Some(self.fn_id(i)) } else { None }
    }

    fn callee(&mut self, def: FnDef, args: &GenericArgs) -> String {
        let path = def.name();
        let targs: Vec<usize> = args.0.iter().filter_map(|a| a.ty().copied()).map(|t| self.ty(t)).collect();
        let ta = targs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let head = format!("\"x\":{},\"a\":[{}]", js(&path), ta);
        match Instance::resolve(def, args) {
            Ok(i) => {
                let r = i.def.name();
                let kr = i.def.krate().name;
                let virt = matches!(i.kind, InstanceKind::Virtual { .. });
                let i = if path == "std::convert::Into::into" { self.through(i) } else { i };
                if self.has_ws_body(&i) {
                    let id = self.fn_id(i);
                    format!("{{\"fn\":{},{}}}", id, head)
                } else {
                    let el = if path == "ark_ff::ToBytes::write" { self.within(def, args) } else { None };
                    format!(
                        "{{{},\"r\":{},\"c\":{}{}{}}}",
                        head,
                        js(&r),
                        js(&kr),
                        if virt { ",\"v\":1" } else { "" },
                        el.map(|x| format!(",\"el\":{}", x)).unwrap_or_default()
                    )
                }
            }
            Err(_) => format!("{{{},\"r\":null,\"c\":null}}", head),
        }
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(x) = self.types.get(&t) {
            return *x;
        }
        let id = self.type_out.len();
        self.types.insert(t, id);
        self.type_out.push(String::new());
        let s = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Adt(def, args) => {
                    let name = def.name();
                    let kr = def.krate().name;
                    let mut vs = vec![];
                    let deep = !def.is_box();
                    if deep {
                        for v in def.variants() {
                            let fs: Vec<String> = v
                                .fields()
                                .iter()
                                .map(|f| {
                                    let ft = f.ty_with_args(&args);
                                    format!("[{},{}]", js(&f.name), self.ty(ft))
                                })
                                .collect();
                            vs.push(format!("[{},[{}]]", js(&v.name()), fs.join(",")));
                        }
                    }
                    let ta: Vec<String> = args
                        .0
                        .iter()
                        .filter_map(|a| a.ty().copied())
                        .map(|t| self.ty(t).to_string())
                        .collect();
                    // the drop glue of a type of /repo may run code of /repo
                    let mut drop = String::new();
                    if is_ws(&kr) {
                        let sh = Instance::resolve_drop_in_place(t);
                        if !sh.is_empty_shim() {
                            if let Some(b) = sh.body() {
                                for bb in &b.blocks {
                                    if let TerminatorKind::Call { func: Operand::Constant(c), .. } = &bb.terminator.kind {
                                        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = c.const_.ty().kind() {
                                            if let Ok(i) = Instance::resolve(d, &a) {
                                                if self.has_ws_body(&i) {
                                                    drop = format!(",\"drop\":{}", self.fn_id(i));
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                    format!(
                        "{{\"k\":\"adt\",\"n\":{},\"c\":{},\"e\":{},\"v\":[{}],\"a\":[{}]{}}}",
                        js(&name),
                        js(&kr),
                        if def.kind().is_enum() { 1 } else { 0 },
                        vs.join(","),
                        ta.join(","),
                        drop
                    )
                }
                RigidTy::Ref(_, t2, m) => {
                    format!("{{\"k\":\"ref\",\"t\":{},\"m\":{}}}", self.ty(t2), (m == Mutability::Mut) as u8)
                }
                RigidTy::RawPtr(t2, m) => {
                    format!("{{\"k\":\"ptr\",\"t\":{},\"m\":{}}}", self.ty(t2), (m == Mutability::Mut) as u8)
                }
                RigidTy::Slice(t2) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(t2)),
                RigidTy::Array(t2, n) => format!(
                    "{{\"k\":\"array\",\"t\":{},\"len\":{}}}",
                    self.ty(t2),
                    n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
                ),
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("{{\"k\":\"tuple\",\"ts\":[{}]}}", v.join(","))
                }
                RigidTy::Closure(def, args) => {
                    let n = args.0.len();
                    let up = args.0[n - 1].ty().copied();
                    let kt = args.0[n - 3].ty().copied();
                    let kind = match kt.map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::Int(IntTy::I8))) => ClosureKind::Fn,
                        Some(TyKind::RigidTy(RigidTy::Int(IntTy::I16))) => ClosureKind::FnMut,
                        _ => ClosureKind::FnOnce,
                    };
                    let upt = up.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    let f = match Instance::resolve_closure(def, &args, kind) {
                        Ok(i) if self.has_ws_body(&i) => self.fn_id(i).to_string(),
                        _ => "null".into(),
                    };
                    format!("{{\"k\":\"closure\",\"n\":{},\"fn\":{},\"up\":{}}}", js(&def.name()), f, upt)
                }
                RigidTy::FnDef(def, args) => {
                    let c = self.callee(def, &args);
                    format!("{{\"k\":\"fndef\",\"f\":{}}}", c)
                }
                RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
                RigidTy::Bool => "{\"k\":\"bool\"}".into(),
                RigidTy::Char => "{\"k\":\"char\"}".into(),
                RigidTy::Int(i) => format!("{{\"k\":\"int\",\"n\":{}}}", js(&format!("{:?}", i).to_lowercase())),
                RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"n\":{}}}", js(&format!("{:?}", i).to_lowercase())),
                RigidTy::Str => "{\"k\":\"str\"}".into(),
                RigidTy::Never => "{\"k\":\"never\"}".into(),
                RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", js(&format!("{}", t))),
                _ => format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{}", t))),
            },
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{}", t))),
        };
        self.type_out[id] = s;
        id
    }

    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() {
            return format!("[{}]", p.local);
        }
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{}]", offset, *from_end as u8)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, *from_end as u8)
                }
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"o\"]"),
            });
        }
        format!("[{},{}]", p.local, v.join(","))
    }

    fn alloc_json(&mut self, a: &Allocation, t: Ty, depth: usize) -> String {
        // integers / bool / char
        match t.kind() {
            TyKind::RigidTy(RigidTy::Bool)
            | TyKind::RigidTy(RigidTy::Uint(_))
            | TyKind::RigidTy(RigidTy::Char) => {
                if let Ok(u) = a.read_uint() {
                    return format!("{{\"i\":{}}}", u);
                }
            }
            TyKind::RigidTy(RigidTy::Int(_)) => {
                if let Ok(u) = a.read_int() {
                    return format!("{{\"i\":{}}}", u);
                }
            }
            TyKind::RigidTy(RigidTy::Ref(_, inner, _)) => {
                if let Some((off, prov)) = a.provenance.ptrs.first() {
                    if *off == 0 {
                        match GlobalAlloc::from(prov.0) {
                            GlobalAlloc::Memory(m) => {
                                let k = inner.kind();
                                if let TyKind::RigidTy(RigidTy::Str) = k {
                                    if let Ok(b) = m.raw_bytes() {
                                        // fat pointer: second word is the length
                                        let n = a.read_partial_uint(8..16).unwrap_or(b.len() as u128) as usize;
                                        let s = String::from_utf8_lossy(&b[..n.min(b.len())]).to_string();
                                        return format!("{{\"s\":{}}}", js(&s));
                                    }
                                }
                                if depth < 4 {
                                    let sub = match k {
                                        TyKind::RigidTy(RigidTy::Slice(_)) => hex(&m),
                                        _ => self.alloc_json(&m, inner, depth + 1),
                                    };
                                    return format!("{{\"r\":{}}}", sub);
                                }
                            }
                            GlobalAlloc::Static(d) => {
                                let v = match (strs(inner), d.eval_initializer()) {
                                    (true, Ok(m)) => format!(",\"ss\":[{}]", texts(&m).join(",")),
                                    _ => String::new(),
                                };
                                return format!("{{\"static\":{}{}}}", js(&d.name()), v);
                            }
                            _ => {}
                        }
                    }
                }
            }
            TyKind::RigidTy(RigidTy::Adt(d, args)) => {
                if d.name() == "core::fmt::rt::Arguments" || depth > 4 {
                    return "{}".into();
                }
                // structs wrapping one reference or string (e.g. labels) are kept as bytes
                let mut subs = vec![];
                for (_, p) in a.provenance.ptrs.iter().take(16) {
                    if let GlobalAlloc::Memory(m) = GlobalAlloc::from(p.0) {
                        if let Ok(b) = m.raw_bytes() {
                            if b.len() <= 64 {
                                subs.push(js(&String::from_utf8_lossy(&b)));
                            }
                        }
                    }
                }
                return format!("{{\"b\":{},\"p\":[{}]}}", hex(a), subs.join(","));
            }
            TyKind::RigidTy(RigidTy::Array(inner, n)) => {
                if strs(inner) {
                    return format!("{{\"b\":{},\"p\":[],\"ss\":[{}]}}", hex(a), texts(a).join(","));
                }
                let mut subs = vec![];
                for (_, p) in a.provenance.ptrs.iter().take(64) {
                    if let GlobalAlloc::Memory(m) = GlobalAlloc::from(p.0) {
                        if let Ok(b) = m.raw_bytes() {
                            if b.len() <= 64 {
                                subs.push(js(&String::from_utf8_lossy(&b)));
                            }
                        }
                    }
                }
                return format!("{{\"b\":{},\"p\":[{}]}}", hex(a), subs.join(","));
            }
            _ => {}
        }
        format!("{{\"b\":{}}}", hex(a))
    }

    fn konst(&mut self, c: &ConstOperand) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        let v = match c.const_.kind() {
            ConstantKind::Allocated(a) => self.alloc_json(a, t, 0),
            ConstantKind::ZeroSized => "{\"z\":1}".to_string(),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t2, a) => self.alloc_json(a, *t2, 0),
                _ => match tc.eval_target_usize() {
                    Ok(u) => format!("{{\"i\":{}}}", u),
                    _ => "{}".into(),
                },
            },
            ConstantKind::Unevaluated(u) => format!("{{\"u\":{}}}", js(&u.def.name())),
            ConstantKind::Param(p) => "{}".into(),
        };
        format!("[\"k\",{},{}]", tid, v)
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(_) => "[\"k\",null,{\"i\":1}]".into(),
        }
    }

    fn operands(&mut self, os: &[Operand]) -> String {
        let v: Vec<String> = os.iter().map(|o| self.operand(o)).collect();
        format!("[{}]", v.join(","))
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => format!("[\"addr\",{},{}]", self.place(p), (k.to_mutable_lossy() == Mutability::Mut) as u8),
            Rvalue::Aggregate(k, ops) => {
                let o = self.operands(ops);
                match k {
                    AggregateKind::Array(_) => format!("[\"array\",{}]", o),
                    AggregateKind::Tuple => format!("[\"tuple\",{}]", o),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        let t = self.ty(d.ty_with_args(a));
                        format!("[\"adt\",{},{},{}]", t, v.to_index(), o)
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!("[\"closure\",{},{}]", t, o)
                    }
                    _ => format!("[\"agg\",{}]", o),
                }
            }
            Rvalue::BinaryOp(b, x, y) | Rvalue::CheckedBinaryOp(b, x, y) => {
                let ck = matches!(r, Rvalue::CheckedBinaryOp(..)) as u8;
                format!("[\"bin\",{},{},{},{}]", js(&format!("{:?}", b)), self.operand(x), self.operand(y), ck)
            }
            Rvalue::Cast(k, o, t) => {
                let tt = self.ty(*t);
                format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.operand(o), tt)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. }) as u8;
                let f = matches!(k, BorrowKind::Fake(_)) as u8;
                format!("[\"ref\",{},{},{}]", self.place(p), m, f)
            }
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o),
                n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::ThreadLocalRef(c) => format!("[\"tls\",{}]", js(&c.name())),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", js(&format!("{:?}", u)), self.operand(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{},0]", self.place(p), (*m == Mutability::Mut) as u8),
        }
    }

    fn body(&mut self, id: usize, inst: Instance) {
        let body = match inst.body() {
            Some(b) => b,
            None => return,
        };
        let mut s = String::new();
        let name = inst.name();
        let path = inst.def.name();
        let kr = inst.def.krate().name;
        let file = body.span.get_filename();
        let li = body.span.get_lines();
        let locals: Vec<String> = body.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(p);
                names.push(format!("[{},{},{}]", js(&v.name), pj, v.argument_index.map(|x| x.to_string()).unwrap_or("null".into())));
            }
        }
        let _ = write!(
            s,
            "{{\"id\":{},\"name\":{},\"path\":{},\"crate\":{},\"file\":{},\"line\":{},\"argc\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[",
            id,
            js(&name),
            js(&path),
            js(&kr),
            js(&file),
            li.start_line,
            body.arg_locals().len(),
            locals.join(","),
            names.join(",")
        );
        for (bi, bb) in body.blocks.iter().enumerate() {
            if bi > 0 {
                s.push(',');
            }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let ln = line_of(st.source_info.span);
                let t = match &st.kind {
                    StatementKind::Assign(p, r) => {
                        format!("[\"=\",{},{},{}]", ln, self.place(p), self.rvalue(r))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"setd\",{},{},{}]", ln, self.place(place), variant_index.to_index())
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{},{}]", ln, l),
                    _ => continue,
                };
                if !first {
                    s.push(',');
                }
                first = false;
                s.push_str(&t);
            }
            s.push_str("],\"t\":");
            let ln = line_of(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{},{}]", ln, target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.branches().map(|(v, b)| format!("[{},{}]", v, b)).collect();
                    format!("[\"switch\",{},{},[{}],{}]", ln, self.operand(discr), v.join(","), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\",0]".into(),
                TerminatorKind::Abort => "[\"abort\",0]".into(),
                TerminatorKind::Return => format!("[\"return\",{}]", ln),
                TerminatorKind::Unreachable => format!("[\"unreachable\",{}]", ln),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{},{}]", ln, self.place(place), target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => self.callee(d, &a),
                            _ => "{\"x\":null}".into(),
                        },
                        o => format!("{{\"x\":null,\"o\":{}}}", self.operand(o)),
                    };
                    let at: Vec<String> = args
                        .iter()
                        .map(|a| a.ty(body.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into()))
                        .collect();
                    let aa = self.operands(args);
                    let dt = destination.ty(body.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!(
                        "[\"call\",{},{},{},{},{},[{}],{}]",
                        ln,
                        f,
                        aa,
                        self.place(destination),
                        target.map(|x| x.to_string()).unwrap_or("null".into()),
                        at.join(","),
                        dt
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops) = match msg {
                        AssertMessage::BoundsCheck { len, index } => ("bounds", vec![len.clone(), index.clone()]),
                        AssertMessage::Overflow(b, x, y) => ("overflow", vec![x.clone(), y.clone()]),
                        AssertMessage::OverflowNeg(x) => ("overflow", vec![x.clone()]),
                        AssertMessage::DivisionByZero(x) => ("divzero", vec![x.clone()]),
                        AssertMessage::RemainderByZero(x) => ("divzero", vec![x.clone()]),
                        _ => ("other", vec![]),
                    };
                    let op = match msg {
                        AssertMessage::Overflow(b, ..) => format!("{:?}", b),
                        _ => String::new(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{},{},{}]",
                        ln,
                        self.operand(cond),
                        *expected as u8,
                        js(k),
                        self.operands(&ops),
                        target,
                        js(&op)
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\",0]".into(),
            };
            s.push_str(&t);
            s.push('}');
        }
        s.push_str("]}");
        self.fn_out.push((id, s));
    }
}

/// nested arrays of string literals
fn strs(t: Ty) -> bool {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Array(i, _)) => strs(i),
        TyKind::RigidTy(RigidTy::Ref(_, i, _)) => matches!(i.kind(), TyKind::RigidTy(RigidTy::Str)),
        _ => false,
    }
}

/// the string literals an allocation points to, in order
fn texts(a: &Allocation) -> Vec<String> {
    let mut out = vec![];
    for (off, p) in a.provenance.ptrs.iter() {
        if let GlobalAlloc::Memory(m) = GlobalAlloc::from(p.0) {
            if let Ok(b) = m.raw_bytes() {
                let n = a.read_partial_uint(off + 8..off + 16).unwrap_or(b.len() as u128) as usize;
                out.push(js(&String::from_utf8_lossy(&b[..n.min(b.len())])));
            }
        }
    }
    out
}

fn hex(a: &Allocation) -> String {
    let mut o = String::from("\"");
    for b in a.bytes.iter().take(256) {
        let _ = write!(o, "{:02x}", b.unwrap_or(0));
    }
    o.push('"');
    o
}

fn dump() -> ControlFlow<(), ()> {
    let mut cx = Cx {
        types: HashMap::new(),
        type_out: vec![],
        fns: HashMap::new(),
        queue: VecDeque::new(),
        fn_out: vec![],
    };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        let n = item.name();
        let last = n.rsplit("::").next().unwrap().to_string();
        let is_root = last.starts_with("root_") || (last == "main" && n.contains("cli_"));
        if !is_root {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            let id = cx.fn_id(i);
            roots.push(format!("[{},{}]", js(&n), id));
        } else {
            eprintln!("mirdump: generic root {}", n);
            return ControlFlow::Break(());
        }
    }
    // every function of the workspace crates, to measure what the roots reach
    let mut all = vec![];
    for k in rustc_public::external_crates() {
        if is_ws(&k.name) {
            for f in k.fn_defs() {
                let sp = f.span();
                let u = match f.body() {
                    Some(b) => scan(b),
                    None => "null".into(),
                };
                all.push(format!("[{},{},{},{},{}]", js(&k.name), js(&f.name()), js(&sp.get_filename()), line_of(sp), u));
            }
        }
    }
    while let Some((id, i)) = cx.queue.pop_front() {
        cx.body(id, i);
    }
    cx.fn_out.sort_by_key(|x| x.0);
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut s = String::new();
    s.push_str("{\"roots\":[");
    s.push_str(&roots.join(","));
    s.push_str("],\"all\":[");
    s.push_str(&all.join(",\n"));
    s.push_str("],\n\"types\":[");
    s.push_str(&cx.type_out.join(",\n"));
    s.push_str("],\n\"fns\":[\n");
    let v: Vec<String> = cx.fn_out.into_iter().map(|x| x.1).collect();
    s.push_str(&v.join(",\n"));
    s.push_str("]}\n");
    std::fs::write(&out, s).unwrap();
    ControlFlow::Continue(())
}
