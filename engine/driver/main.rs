// MIR extractor: runs as rustc on the client ("probe") crate, walks every
// instance reachable from the probe's functions and writes one JSON object per
// line: types, allocations, function bodies.  It only reads the compiler's
// intermediate representation; nothing of the analysed crate is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::*;
use rustc_public::mir::alloc::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx {
    tys: HashMap<Ty, usize>,
    tyq: VecDeque<(usize, Ty)>,
    insts: HashMap<Instance, usize>,
    iq: VecDeque<(usize, Instance)>,
    allocs: HashMap<AllocId, usize>,
    aq: VecDeque<(usize, AllocId)>,
    out: std::io::BufWriter<std::fs::File>,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.tyq.push_back((i, t));
        i
    }
    fn inst(&mut self, x: Instance) -> usize {
        if let Some(i) = self.insts.get(&x) {
            return *i;
        }
        let i = self.insts.len();
        self.insts.insert(x, i);
        self.iq.push_back((i, x));
        i
    }
    fn alloc_id(&mut self, a: AllocId) -> usize {
        if let Some(i) = self.allocs.get(&a) {
            return *i;
        }
        let i = self.allocs.len();
        self.allocs.insert(a, i);
        self.aq.push_back((i, a));
        i
    }
    fn alloc(&mut self, a: &Allocation) -> String {
        let mut s = String::from("{\"b\":\"");
        for b in a.bytes.iter() {
            match b {
                Some(b) => {
                    let _ = write!(s, "{:02x}", b);
                }
                None => s.push_str("__"),
            }
        }
        s.push('"');
        if !a.provenance.ptrs.is_empty() {
            s.push_str(",\"p\":[");
            for (n, (off, prov)) in a.provenance.ptrs.iter().enumerate() {
                if n > 0 {
                    s.push(',');
                }
                let id = self.alloc_id(prov.0);
                let _ = write!(s, "[{},{}]", off, id);
            }
            s.push(']');
        }
        s.push('}');
        s
    }
    fn place(&mut self, p: &Place) -> String {
        let mut s = format!("[{},[", p.local);
        for (n, e) in p.projection.iter().enumerate() {
            if n > 0 {
                s.push(',');
            }
            match e {
                ProjectionElem::Deref => s.push_str("[\"*\"]"),
                ProjectionElem::Field(i, t) => {
                    let _ = write!(s, "[\"f\",{},{}]", i, self.ty(*t));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(s, "[\"i\",{}]", l);
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(s, "[\"c\",{},{},{}]", offset, min_length, *from_end as u8);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, "[\"s\",{},{},{}]", from, to, *from_end as u8);
                }
                ProjectionElem::Downcast(v) => {
                    let _ = write!(s, "[\"d\",{}]", variant_idx(*v));
                }
                ProjectionElem::OpaqueCast(t) => {
                    let _ = write!(s, "[\"o\",{}]", self.ty(*t));
                }
            }
        }
        s.push_str("]]");
        s
    }
    fn constant(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let a = a.clone();
                format!("[\"k\",{},{}]", t, self.alloc(&a))
            }
            ConstantKind::ZeroSized => format!("[\"k\",{},0]", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    let a = a.clone();
                    format!("[\"k\",{},{}]", t, self.alloc(&a))
                }
                TyConstKind::ZSTValue(_) => format!("[\"k\",{},0]", t),
                _ => format!("[\"k\",{},null]", t),
            },
            _ => format!("[\"k\",{},null]", t),
        }
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"p\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }
    fn ops(&mut self, o: &[Operand]) -> String {
        let v: Vec<String> = o.iter().map(|o| self.op(o)).collect();
        format!("[{}]", v.join(","))
    }
    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(k, p) => {
                let rt = r.ty(locals).unwrap();
                format!("[\"ref\",{},{},{}]", self.place(p), self.ty(rt), if matches!(k, RawPtrKind::Mut) { 1 } else { 0 })
            }
            Rvalue::Ref(_, k, p) => {
                let rt = r.ty(locals).unwrap();
                format!("[\"ref\",{},{},{}]", self.place(p), self.ty(rt), if matches!(k, BorrowKind::Mut { .. }) { 1 } else { 0 })
            }
            Rvalue::Reborrow(t, _, p) => format!("[\"rebor\",{},{}]", self.place(p), self.ty(*t)),
            Rvalue::Aggregate(k, ops) => {
                let rt = r.ty(locals).unwrap();
                let t = self.ty(rt);
                let ops = self.ops(ops);
                match k {
                    AggregateKind::Adt(_, v, _, _, f) => format!(
                        "[\"agg\",{},{},{},{}]",
                        t,
                        variant_idx(*v),
                        f.map(|f| f as i64).unwrap_or(-1),
                        ops
                    ),
                    AggregateKind::RawPtr(..) => format!("[\"rawptr\",{},{}]", t, ops),
                    _ => format!("[\"agg\",{},0,-1,{}]", t, ops),
                }
            }
            Rvalue::BinaryOp(b, x, y) => {
                let tx = self.ty(x.ty(locals).unwrap());
                let tr = self.ty(r.ty(locals).unwrap());
                format!("[\"bin\",\"{:?}\",{},{},{},{}]", b, self.op(x), self.op(y), tx, tr)
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let tx = self.ty(x.ty(locals).unwrap());
                format!("[\"chk\",\"{:?}\",{},{},{}]", b, self.op(x), self.op(y), tx)
            }
            Rvalue::Cast(k, o, t) => {
                let ts = self.ty(o.ty(locals).unwrap());
                format!("[\"cast\",\"{:?}\",{},{},{}]", k, self.op(o), ts, self.ty(*t)).replace("\"PointerCoercion(", "\"PC(")
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"p\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => {
                let tp = self.ty(p.ty(locals).unwrap());
                format!("[\"discr\",{},{}]", self.place(p), tp)
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let rt = r.ty(locals).unwrap();
                format!("[\"rep\",{},{},{}]", self.op(o), n.eval_target_usize().unwrap(), self.ty(rt))
            }
            Rvalue::ThreadLocalRef(c) => format!("[\"tls\",{}]", esc(&c.name())),
            Rvalue::UnaryOp(u, x) => {
                let tx = self.ty(x.ty(locals).unwrap());
                format!("[\"un\",\"{:?}\",{},{}]", u, self.op(x), tx)
            }
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
        }
    }
    fn callee(&mut self, t: Ty) -> Option<String> {
        if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = t.kind() {
            match Instance::resolve(d, &args) {
                Ok(i) => {
                    if let InstanceKind::Virtual { idx } = i.kind {
                        return Some(format!("{{\"virt\":{},\"n\":{}}}", idx, esc(&i.name())));
                    }
                    return Some(format!("{}", self.inst(i)));
                }
                Err(_) => return Some(format!("{{\"unres\":{}}}", esc(&d.name()))),
            }
        }
        None
    }
    fn body(&mut self, id: usize, i: Instance) {
        let name = i.name();
        let ik = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intr",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virt",
            InstanceKind::Shim => "shim",
        };
        let krate = i.def.krate().name;
        let mut s = format!("{{\"I\":{},\"n\":{},\"k\":\"{}\",\"cr\":{}", id, esc(&name), ik, esc(&krate));
        let _ = write!(s, ",\"dp\":{}", esc(&i.def.name()));
        if let Some(n) = i.intrinsic_name() {
            let _ = write!(s, ",\"in\":{}", esc(&n));
        }
        let args: Vec<String> = i
            .args()
            .0
            .iter()
            .map(|a| match a {
                GenericArgKind::Type(t) => format!("{}", self.ty(*t)),
                GenericArgKind::Const(c) => match c.eval_target_usize() {
                    Ok(v) => format!("{{\"c\":{}}}", v),
                    Err(_) => "null".to_string(),
                },
                GenericArgKind::Lifetime(_) => "null".to_string(),
            })
            .filter(|x| x != "null")
            .collect();
        let _ = write!(s, ",\"ga\":[{}]", args.join(","));
        let _ = write!(s, ",\"ty\":{}", self.ty(i.ty()));
        if i.ty().kind().fn_sig().map_or(false, |f| matches!(f.skip_binder().safety, Safety::Unsafe)) {
            s.push_str(",\"us\":1");
        }
        if i.is_empty_shim() {
            s.push_str(",\"empty\":1}");
            writeln!(self.out, "{}", s).unwrap();
            return;
        }
        let want = match i.kind {
            InstanceKind::Intrinsic | InstanceKind::Item => i.has_body() || i.kind == InstanceKind::Item,
            InstanceKind::Shim => true,
            _ => false,
        };
        let body = if want && !i.is_foreign_item() { i.body() } else { None };
        let Some(body) = body else {
            s.push('}');
            writeln!(self.out, "{}", s).unwrap();
            return;
        };
        let sp = i.def.span();
        let _ = write!(s, ",\"f\":{},\"l\":{}", esc(&sp.get_filename()), sp.get_lines().start_line);
        let locals: Vec<LocalDecl> = body.locals().to_vec();
        let lt: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(s, ",\"lt\":[{}],\"ac\":{}", lt.join(","), body.arg_locals().len());
        let names: Vec<String> = body
            .var_debug_info
            .iter()
            .filter_map(|v| v.local().map(|l| format!("[{},{}]", l, esc(&v.name))))
            .collect();
        let _ = write!(s, ",\"vn\":[{}]", names.join(","));
        if let Some(sa) = body.spread_arg() {
            let _ = write!(s, ",\"sa\":{}", sa);
        }
        s.push_str(",\"bb\":[");
        for (n, b) in body.blocks.iter().enumerate() {
            if n > 0 {
                s.push(',');
            }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in &b.statements {
                let x = match &st.kind {
                    StatementKind::Assign(p, r) => {
                        let r = self.rv(r, &locals);
                        format!("[\"=\",{},{},{}]", self.place(p), r, st.source_info.span.get_lines().start_line)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pt = self.ty(place.ty(&locals).unwrap());
                        format!("[\"sd\",{},{},{}]", self.place(place), variant_idx(*variant_index), pt)
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let t = self.ty(c.src.ty(&locals).unwrap());
                        format!("[\"cno\",{},{},{},{}]", self.op(&c.src), self.op(&c.dst), self.op(&c.count), t)
                    }
                    StatementKind::StorageDead(l) => format!("[\"x\",{}]", l),
                    StatementKind::StorageLive(l) => format!("[\"v\",{}]", l),
                    _ => continue,
                };
                if !first {
                    s.push(',');
                }
                first = false;
                s.push_str(&x);
            }
            s.push_str("],\"t\":");
            let line = b.terminator.source_info.span.get_lines().start_line;
            let t = match &b.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tt = self.ty(discr.ty(&locals).unwrap());
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"sw\",{},[{}],{},{}]", self.op(discr), br.join(","), targets.otherwise(), tt)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&locals).unwrap();
                    let d = Instance::resolve_drop_in_place(t);
                    let di = if d.is_empty_shim() { "null".to_string() } else { self.inst(d).to_string() };
                    format!("[\"drop\",{},{},{},{}]", self.place(place), target, di, self.ty(t))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&locals).unwrap();
                    let c = match self.callee(ft) {
                        Some(c) => c,
                        None => format!("{{\"ptr\":{}}}", self.op(func)),
                    };
                    let at: Vec<String> = args.iter().map(|a| { let t = a.ty(&locals).unwrap(); self.ty(t).to_string() }).collect();
                    let dt = self.ty(destination.ty(&locals).unwrap());
                    format!(
                        "[\"call\",{},{},{},{},{},[{}],{}]",
                        c,
                        self.ops(args),
                        self.place(destination),
                        target.map(|t| t as i64).unwrap_or(-1),
                        line,
                        at.join(","),
                        dt
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let kind = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(b, ..) => format!("overflow {:?}", b),
                        AssertMessage::OverflowNeg(_) => "overflow neg".to_string(),
                        AssertMessage::DivisionByZero(_) => "div by zero".to_string(),
                        AssertMessage::RemainderByZero(_) => "rem by zero".to_string(),
                        AssertMessage::NullPointerDereference => "null".to_string(),
                        AssertMessage::MisalignedPointerDereference { .. } => "misaligned".to_string(),
                        _ => "other".to_string(),
                    };
                    format!("[\"assert\",{},{},\"{}\",{},{}]", self.op(cond), *expected as u8, kind, target, line)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            s.push_str(&t);
            s.push('}');
        }
        s.push_str("]}");
        writeln!(self.out, "{}", s).unwrap();
    }
    fn emit_ty(&mut self, id: usize, t: Ty) {
        let mut s = format!("{{\"T\":{},\"n\":{}", id, esc(&format!("{}", t)));
        let TyKind::RigidTy(k) = t.kind() else {
            s.push_str(",\"k\":\"other\"}");
            writeln!(self.out, "{}", s).unwrap();
            return;
        };
        let shape = match &k {
            RigidTy::Dynamic(..) => None,
            _ => t.layout().ok().map(|l| l.shape()),
        };
        if let Some(sh) = &shape {
            let _ = write!(s, ",\"sz\":{},\"al\":{}", sh.size.bytes(), sh.abi_align);
            match &sh.fields {
                FieldsShape::Arbitrary { offsets } => {
                    let v: Vec<String> = offsets.iter().map(|o| o.bytes().to_string()).collect();
                    let _ = write!(s, ",\"off\":[{}]", v.join(","));
                }
                FieldsShape::Array { stride, count } => {
                    let _ = write!(s, ",\"stride\":{},\"cnt\":{}", stride.bytes(), count);
                }
                _ => {}
            }
            match &sh.variants {
                VariantsShape::Empty => s.push_str(",\"vs\":\"empty\""),
                VariantsShape::Single { index } => {
                    let _ = write!(s, ",\"vs\":{}", variant_idx(*index));
                }
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                    let prim = match tag {
                        Scalar::Initialized { value, .. } => value,
                        Scalar::Union { value } => value,
                    };
                    let psz = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                    let enc = match tag_encoding {
                        TagEncoding::Direct => "0".to_string(),
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                            "[{},{},{},{}]",
                            variant_idx(*untagged_variant),
                            variant_idx(*niche_variants.start()),
                            variant_idx(*niche_variants.end()),
                            niche_start
                        ),
                    };
                    let vo: Vec<String> = variants
                        .iter()
                        .map(|v| {
                            let o: Vec<String> = v.offsets.iter().map(|o| o.bytes().to_string()).collect();
                            format!("[{}]", o.join(","))
                        })
                        .collect();
                    let _ = write!(s, ",\"vm\":{{\"tsz\":{},\"enc\":{},\"tf\":{},\"vo\":[{}]}}", psz, enc, tag_field, vo.join(","));
                }
            }
        }
        match &k {
            RigidTy::Bool => s.push_str(",\"k\":\"bool\""),
            RigidTy::Char => s.push_str(",\"k\":\"char\""),
            RigidTy::Int(i) => {
                let _ = write!(s, ",\"k\":\"int\",\"w\":{},\"sg\":1", i.num_bytes() * 8);
            }
            RigidTy::Uint(i) => {
                let _ = write!(s, ",\"k\":\"int\",\"w\":{},\"sg\":0", i.num_bytes() * 8);
            }
            RigidTy::Float(_) => s.push_str(",\"k\":\"float\""),
            RigidTy::Adt(d, args) => {
                let ak = match d.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Union => "union",
                    AdtKind::Struct => "struct",
                };
                let _ = write!(s, ",\"k\":\"{}\",\"an\":{},\"cr\":{}", ak, esc(&d.name()), esc(&d.krate().name));
                if d.is_box() {
                    s.push_str(",\"box\":1");
                }
                let ga: Vec<String> = args
                    .0
                    .iter()
                    .filter_map(|a| match a {
                        GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                        _ => None,
                    })
                    .collect();
                let _ = write!(s, ",\"ga\":[{}]", ga.join(","));
                s.push_str(",\"v\":[");
                for (n, v) in d.variants().iter().enumerate() {
                    if n > 0 {
                        s.push(',');
                    }
                    let fl: Vec<String> = v
                        .fields()
                        .iter()
                        .map(|f| format!("[{},{}]", esc(&f.name), self.ty(f.ty_with_args(args))))
                        .collect();
                    let disc = if ak == "enum" { d.discriminant_for_variant(v.idx()).val } else { 0 };
                    let _ = write!(s, "[{},{},[{}]]", esc(&v.name()), disc, fl.join(","));
                }
                s.push(']');
                if ak == "enum" {
                    let dt = k.discriminant_ty();
                    let _ = write!(s, ",\"dt\":{}", self.ty(dt));
                }
            }
            RigidTy::Str => s.push_str(",\"k\":\"str\""),
            RigidTy::Array(e, n) => {
                let _ = write!(s, ",\"k\":\"array\",\"e\":{},\"len\":{}", self.ty(*e), n.eval_target_usize().map(|x| x as i64).unwrap_or(-1));
            }
            RigidTy::Slice(e) => {
                let _ = write!(s, ",\"k\":\"slice\",\"e\":{}", self.ty(*e));
            }
            RigidTy::RawPtr(e, m) => {
                let _ = write!(s, ",\"k\":\"ptr\",\"e\":{},\"mu\":{}", self.ty(*e), (*m == Mutability::Mut) as u8);
            }
            RigidTy::Ref(_, e, m) => {
                let _ = write!(s, ",\"k\":\"ref\",\"e\":{},\"mu\":{}", self.ty(*e), (*m == Mutability::Mut) as u8);
            }
            RigidTy::FnDef(d, args) => {
                let mut iid = "null".to_string();
                if let Ok(i) = Instance::resolve(*d, args) {
                    if !matches!(i.kind, InstanceKind::Virtual { .. }) {
                        iid = self.inst(i).to_string();
                    }
                }
                let _ = write!(s, ",\"k\":\"fndef\",\"i\":{},\"an\":{}", iid, esc(&d.name()));
            }
            RigidTy::FnPtr(_) => s.push_str(",\"k\":\"fnptr\""),
            RigidTy::Closure(d, args) => {
                // upvar tuple type is the last generic argument
                let up = args.0.iter().rev().find_map(|a| match a {
                    GenericArgKind::Type(t) => Some(*t),
                    _ => None,
                });
                let mut v = vec![];
                if let Some(u) = up {
                    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = u.kind() {
                        v = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    }
                }
                let mut iid = "null".to_string();
                for kd in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                    if let Ok(i) = Instance::resolve_closure(*d, args, kd) {
                        if i.kind == InstanceKind::Item {
                            iid = self.inst(i).to_string();
                            break;
                        }
                    }
                }
                let _ = write!(s, ",\"k\":\"closure\",\"up\":[{}],\"i\":{},\"an\":{}", v.join(","), iid, esc(&d.name()));
            }
            RigidTy::Dynamic(..) => s.push_str(",\"k\":\"dyn\""),
            RigidTy::Never => s.push_str(",\"k\":\"never\""),
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                let _ = write!(s, ",\"k\":\"tuple\",\"e\":[{}]", v.join(","));
            }
            RigidTy::Pat(t, _) => {
                let _ = write!(s, ",\"k\":\"pat\",\"e\":{}", self.ty(*t));
            }
            _ => s.push_str(",\"k\":\"other\""),
        }
        s.push('}');
        writeln!(self.out, "{}", s).unwrap();
    }
    fn emit_alloc(&mut self, id: usize, a: AllocId) {
        let g = GlobalAlloc::from(a);
        let s = match g {
            GlobalAlloc::Memory(m) => format!("{{\"A\":{},\"k\":\"mem\",\"m\":{}}}", id, self.alloc(&m)),
            GlobalAlloc::Static(d) => {
                let n = esc(&d.name());
                let t = self.ty(d.ty());
                match d.eval_initializer() {
                    Ok(m) => format!("{{\"A\":{},\"k\":\"static\",\"n\":{},\"cr\":{},\"ty\":{},\"m\":{}}}", id, n, esc(&d.krate().name), t, self.alloc(&m)),
                    Err(_) => format!("{{\"A\":{},\"k\":\"static\",\"n\":{},\"ty\":{}}}", id, n, t),
                }
            }
            GlobalAlloc::Function(i) => format!("{{\"A\":{},\"k\":\"fn\",\"i\":{}}}", id, self.inst(i)),
            GlobalAlloc::VTable(t, tr) => {
                let mut methods = vec![];
                if let Some(tr) = &tr {
                    let tref = tr.skip_binder_ref().with_self_ty(t);
                    for e in tref.vtable_entries() {
                        methods.push(match e {
                            VtblEntry::Method(i) => self.inst(i).to_string(),
                            _ => "null".to_string(),
                        });
                    }
                }
                format!("{{\"A\":{},\"k\":\"vt\",\"ty\":{},\"ms\":[{}]}}", id, self.ty(t), methods.join(","))
            }
            _ => format!("{{\"A\":{},\"k\":\"other\"}}", id),
        };
        writeln!(self.out, "{}", s).unwrap();
    }
}

fn variant_idx(v: VariantIdx) -> usize {
    // the index is not public; its Debug form is `VariantIdx(<n>, ..)`
    let d = format!("{:?}", v);
    let digits: String = d.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    digits.parse().unwrap()
}

trait SkipRef<T> {
    fn skip_binder_ref(&self) -> T;
}
impl<T: Clone> SkipRef<T> for Binder<T> {
    fn skip_binder_ref(&self) -> T {
        self.clone().skip_binder()
    }
}

fn analyze() -> ControlFlow<(), ()> {
    let path = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut cx = Cx {
        tys: HashMap::new(),
        tyq: VecDeque::new(),
        insts: HashMap::new(),
        iq: VecDeque::new(),
        allocs: HashMap::new(),
        aq: VecDeque::new(),
        out: std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(&path).unwrap()),
    };
    let skip: Vec<String> = std::env::var("MIRDUMP_SKIP").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let _ = skip;
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if matches!(it.kind(), ItemKind::Fn) && !it.requires_monomorphization() {
            if let Ok(i) = Instance::try_from(it) {
                roots.push(i);
            }
        }
    }
    // every non-generic function of the analysed crate is also a root, so that
    // items a client cannot name are present too
    for c in rustc_public::external_crates() {
        if c.name == "sudoku" {
            for f in c.fn_defs() {
                let g = f.generics_of();
                if g.params.iter().any(|p| !matches!(p.kind, GenericParamDefKind::Lifetime)) || g.parent_count != 0 && g.parent.is_some() {
                    let mut p = g.parent.clone();
                    let _ = &mut p;
                    if g.params.iter().any(|p| !matches!(p.kind, GenericParamDefKind::Lifetime)) || g.parent_count > 0 {
                        continue;
                    }
                }
                let args = GenericArgs(g.params.iter().map(|_| GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased })).collect());
                if let Ok(i) = Instance::resolve(f, &args) {
                    roots.push(i);
                }
            }
        }
    }
    let mut names = vec![];
    for r in &roots {
        let id = cx.inst(*r);
        names.push(format!("[{},{}]", id, esc(&r.name())));
    }
    writeln!(cx.out, "{{\"R\":[{}]}}", names.join(",")).unwrap();
    loop {
        if let Some((id, i)) = cx.iq.pop_front() {
            cx.body(id, i);
            continue;
        }
        if let Some((id, t)) = cx.tyq.pop_front() {
            cx.emit_ty(id, t);
            continue;
        }
        if let Some((id, a)) = cx.aq.pop_front() {
            cx.emit_alloc(id, a);
            continue;
        }
        break;
    }
    cx.out.flush().unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|p| args.get(p + 1)).cloned();
    if crate_name.as_deref() == Some(std::env::var("MIRDUMP_CRATE").unwrap_or("probe".into()).as_str()) {
        let r = rustc_public::run!(&args, analyze);
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        rustc_driver::install_ice_hook("", |_| ());
        struct Nop;
        impl rustc_driver::Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
