//! mirx: a rustc driver that dumps, as JSON, the monomorphised MIR of everything
//! reachable from the public functions of the harness crate (and everything those
//! call, down to core), with types, layouts, evaluated constants and source spans.
//! It runs nothing: it only reads what the compiler resolved.
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use std::collections::HashMap;
use std::fmt::Write as _;
use rustc_public::abi::{FieldsShape, VariantsShape};
use rustc_public::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Ctx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    allocs: HashMap<AllocId, usize>,
    alloc_list: Vec<AllocId>,
    alloc_out: Vec<String>,
    statics: HashMap<StaticDef, usize>,
}

fn span_str(s: Span) -> String {
    let l = s.get_lines();
    format!("{}:{}", s.get_filename(), l.start_line)
}

impl Ctx {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&n) = self.insts.get(&i) {
            return n;
        }
        let n = self.inst_list.len();
        self.insts.insert(i, n);
        self.inst_list.push(i);
        n
    }

    fn alloc(&mut self, a: AllocId) -> usize {
        if let Some(&n) = self.allocs.get(&a) {
            return n;
        }
        let n = self.alloc_list.len();
        self.allocs.insert(a, n);
        self.alloc_list.push(a);
        self.alloc_out.push(String::new());
        let out = match GlobalAlloc::from(a) {
            GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"inst\":{}}}", self.inst(i)),
            GlobalAlloc::VTable(t, _) => format!("{{\"k\":\"vtable\",\"ty\":{}}}", self.ty(t)),
            GlobalAlloc::Static(s) => {
                let mutable = false;
                let init = match s.eval_initializer() {
                    Ok(al) => self.allocation(&al),
                    Err(_) => "null".into(),
                };
                let t = self.ty(s.ty());
                self.statics.insert(s, n);
                format!(
                    "{{\"k\":\"static\",\"name\":{},\"ty\":{},\"mut\":{},\"data\":{}}}",
                    esc(&s.name()),
                    t,
                    mutable,
                    init
                )
            }
            GlobalAlloc::Memory(al) => format!("{{\"k\":\"mem\",\"data\":{}}}", self.allocation(&al)),
            GlobalAlloc::TypeId { .. } => "{\"k\":\"typeid\"}".into(),
        };
        self.alloc_out[n] = out;
        n
    }

    fn allocation(&mut self, al: &Allocation) -> String {
        let mut h = String::new();
        for b in &al.bytes {
            match b {
                Some(b) => {
                    let _ = write!(h, "{:02x}", b);
                }
                None => h.push_str("__"),
            }
        }
        let mut p = Vec::new();
        for (off, prov) in &al.provenance.ptrs {
            p.push(format!("[{},{}]", off, self.alloc(prov.0)));
        }
        format!(
            "{{\"b\":\"{}\",\"p\":[{}],\"mut\":{}}}",
            h,
            p.join(","),
            al.mutability == Mutability::Mut
        )
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&n) = self.tys.get(&t) {
            return n;
        }
        let n = self.ty_out.len();
        self.tys.insert(t, n);
        self.ty_out.push(String::new());
        let kind = t.kind();
        let name = format!("{}", t);
        let mut o = format!("{{\"s\":{}", esc(&name));
        if let Ok(l) = t.layout() {
            let sh = l.shape();
            let _ = write!(o, ",\"size\":{},\"align\":{},\"sized\":{}", sh.size.bytes(), sh.abi_align, sh.is_sized());
            match &sh.fields {
                FieldsShape::Arbitrary { offsets } => {
                    let v: Vec<String> = offsets.iter().map(|x| x.bytes().to_string()).collect();
                    let _ = write!(o, ",\"off\":[{}]", v.join(","));
                }
                _ => {}
            }
            match &sh.variants {
                VariantsShape::Single { index } => {
                    let _ = write!(o, ",\"single\":{}", index.to_index_());
                }
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                    let enc = match tag_encoding {
                        rustc_public::abi::TagEncoding::Direct => "\"direct\"".to_string(),
                        rustc_public::abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                            "[{},{},{},{}]",
                            untagged_variant.to_index_(),
                            niche_variants.start().to_index_(),
                            niche_variants.end().to_index_(),
                            niche_start
                        ),
                    };
                    let tagsz = match tag {
                        rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => {
                            value.size(&rustc_public::target::MachineInfo::target()).bytes()
                        }
                    };
                    let tago = match &sh.fields {
                        FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                        _ => 0,
                    };
                    let vs: Vec<String> = variants
                        .iter()
                        .map(|v| {
                            let x: Vec<String> = v.offsets.iter().map(|x| x.bytes().to_string()).collect();
                            format!("[{}]", x.join(","))
                        })
                        .collect();
                    let _ = write!(
                        o,
                        ",\"tag\":{{\"enc\":{},\"size\":{},\"off\":{},\"voff\":[{}]}}",
                        enc, tagsz, tago, vs.join(",")
                    );
                }
                VariantsShape::Empty => {}
            }
        }
        match kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push_str(",\"k\":\"bool\""),
                RigidTy::Char => o.push_str(",\"k\":\"char\""),
                RigidTy::Int(i) => {
                    let _ = write!(o, ",\"k\":\"int\",\"bits\":{},\"signed\":true", i.num_bytes() * 8);
                }
                RigidTy::Uint(i) => {
                    let _ = write!(o, ",\"k\":\"int\",\"bits\":{},\"signed\":false", i.num_bytes() * 8);
                }
                RigidTy::Float(_) => o.push_str(",\"k\":\"float\""),
                RigidTy::Adt(def, args) => {
                    let dk = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let _ = write!(o, ",\"k\":\"adt\",\"adt\":\"{}\",\"name\":{},\"crate\":{}", dk, esc(&def.name()), esc(&def.krate().name));
                    let mut vs = Vec::new();
                    for v in def.variants_iter() {
                        let mut fs = Vec::new();
                        let mut fnames = Vec::new();
                        for f in v.fields() {
                            fs.push(self.ty(f.ty_with_args(&args)).to_string());
                            fnames.push(esc(&f.name));
                        }
                        let d = if dk == "enum" {
                            def.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}],\"fn\":[{}]}}", esc(&v.name()), d, fs.join(","), fnames.join(",")));
                    }
                    let _ = write!(o, ",\"v\":[{}]", vs.join(","));
                    if dk == "enum" {
                        let dt = self.ty(t.kind().discriminant_ty().unwrap());
                        let _ = write!(o, ",\"dty\":{}", dt);
                    }
                }
                RigidTy::Str => o.push_str(",\"k\":\"str\""),
                RigidTy::Array(e, c) => {
                    let e = self.ty(e);
                    match c.eval_target_usize() {
                        Ok(n) => {
                            let _ = write!(o, ",\"k\":\"array\",\"elem\":{},\"len\":{}", e, n);
                        }
                        Err(_) => o.push_str(",\"k\":\"other\""),
                    }
                }
                RigidTy::Pat(e, _) => {
                    let e = self.ty(e);
                    let _ = write!(o, ",\"k\":\"pat\",\"elem\":{}", e);
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(e);
                    let _ = write!(o, ",\"k\":\"slice\",\"elem\":{}", e);
                }
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(e);
                    let _ = write!(o, ",\"k\":\"ptr\",\"elem\":{},\"mut\":{}", e, m == Mutability::Mut);
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(e);
                    let _ = write!(o, ",\"k\":\"ref\",\"elem\":{},\"mut\":{}", e, m == Mutability::Mut);
                }
                RigidTy::FnDef(def, args) => {
                    let _ = write!(o, ",\"k\":\"fndef\",\"name\":{}", esc(&def.name()));
                    if let Ok(i) = Instance::resolve(def, &args) {
                        let _ = write!(o, ",\"inst\":{}", self.inst(i));
                    }
                }
                RigidTy::FnPtr(_) => o.push_str(",\"k\":\"fnptr\""),
                RigidTy::Closure(def, args) => {
                    let _ = write!(o, ",\"k\":\"closure\",\"name\":{}", esc(&def.name()));
                    // upvars tuple is the last generic arg
                    if let Some(GenericArgKind::Type(u)) = args.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(us)) = u.kind() {
                            let v: Vec<String> = us.iter().map(|x| self.ty(*x).to_string()).collect();
                            let _ = write!(o, ",\"f\":[{}]", v.join(","));
                        }
                    }
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|x| self.ty(*x).to_string()).collect();
                    let _ = write!(o, ",\"k\":\"tuple\",\"f\":[{}]", v.join(","));
                }
                RigidTy::Never => o.push_str(",\"k\":\"never\""),
                RigidTy::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
                _ => o.push_str(",\"k\":\"other\""),
            },
            _ => o.push_str(",\"k\":\"other\""),
        }
        o.push('}');
        self.ty_out[n] = o;
        n
    }

    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() {
            return p.local.to_string();
        }
        let mut v = vec![p.local.to_string()];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".into(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index_()),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".into(),
            });
        }
        format!("[{}]", v.join(","))
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => format!("[\"k\",{},{}]", t, self.allocation(a)),
            ConstantKind::ZeroSized => format!("[\"k\",{},null]", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => format!("[\"k\",{},{}]", t, self.allocation(a)),
                TyConstKind::ZSTValue(_) => format!("[\"k\",{},null]", t),
                other => format!("[\"kx\",{},{}]", t, esc(&format!("{:?}", other))),
            },
            other => format!("[\"kx\",{},{}]", t, esc(&format!("{:?}", other))),
        }
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }

    fn ops(&mut self, o: &[Operand]) -> String {
        let v: Vec<String> = o.iter().map(|x| self.op(x)).collect();
        format!("[{}]", v.join(","))
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os = self.ops(ops);
                let k = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = self.ty(d.ty_with_args(args));
                        format!("[\"adt\",{},{},{}]", t, v.to_index_(), f.map(|x| x as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = self.ty(Ty::new_closure(*d, args.clone()));
                        format!("[\"closure\",{}]", t)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", k, os)
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"chk\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::Cast(k, o, t) => {
                let k = format!("{:?}", k);
                let os = self.op(o);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&k), os, t)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p))
            }
            Rvalue::Repeat(o, c) => {
                let os = self.op(o);
                format!("[\"rep\",{},{}]", os, c.eval_target_usize().unwrap())
            }
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", esc(&i.name())),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.to_string(),
            _ => "null".into(),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let mut o = String::new();
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let names: Vec<String> = b
            .var_debug_info
            .iter()
            .filter_map(|v| v.local().map(|l| format!("[{},{}]", l, esc(&v.name))))
            .collect();
        let _ = write!(
            o,
            "\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[",
            b.arg_locals().len(),
            b.spread_arg().map(|x| x as i64).unwrap_or(-1),
            locals.join(","),
            names.join(",")
        );
        let lty: Vec<LocalDecl> = b.locals().to_vec();
        for (bi, blk) in b.blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &blk.statements {
                let line = s.source_info.span.get_lines().start_line;
                let t = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let rs = self.rvalue(r);
                        format!("[\"a\",{},{},{}]", self.place(p), rs, line)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{},{}]", self.place(place), variant_index.to_index_(), line)
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        format!("[\"cno\",{},{},{},{}]", self.op(&c.src), self.op(&c.dst), self.op(&c.count), line)
                    }
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&t);
            }
            o.push_str("],\"t\":");
            let sp = esc(&span_str(blk.terminator.source_info.span));
            let t = match &blk.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    let d = self.op(discr);
                    let dt = self.ty(discr.ty(&lty).unwrap());
                    format!("[\"switch\",{},{},[{}],{},{}]", d, dt, v.join(","), targets.otherwise(), sp)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let pt = place.ty(&lty).unwrap();
                    let i = Instance::resolve_drop_in_place(pt);
                    let glue = if i.is_empty_shim() { "null".to_string() } else { self.inst(i).to_string() };
                    format!("[\"drop\",{},{},{},{}]", self.place(place), target, glue, self.unwind(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let fty = func.ty(&lty).unwrap();
                    let f = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                            Ok(i) => match i.kind {
                                InstanceKind::Virtual { idx } => format!("[\"virt\",{}]", idx),
                                _ => self.inst(i).to_string(),
                            },
                            Err(_) => format!("[\"unres\",{}]", esc(&d.name())),
                        },
                        _ => format!("[\"ptr\",{}]", self.op(func)),
                    };
                    let a = self.ops(args);
                    let tg = target.map(|x| x.to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{},{}]", f, a, self.place(destination), tg, sp, self.unwind(unwind))
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.op(len), self.op(index))
                        }
                        AssertMessage::Overflow(b, x, y) => format!("[\"overflow\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
                        AssertMessage::OverflowNeg(x) => format!("[\"overflowneg\",{}]", self.op(x)),
                        AssertMessage::DivisionByZero(_) => "[\"div0\"]".into(),
                        AssertMessage::RemainderByZero(_) => "[\"rem0\"]".into(),
                        _ => "[\"other\"]".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{},{}]", self.op(cond), expected, m, target, sp, self.unwind(unwind))
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            o.push_str(&t);
            o.push('}');
        }
        o.push(']');
        o
    }
}

trait Idx {
    fn to_index_(&self) -> usize;
}
impl Idx for VariantIdx {
    fn to_index_(&self) -> usize {
        rustc_public_bridge::IndexedVal::to_index(self)
    }
}

fn dump(out: &str) {
    let mut c = Ctx::default();
    for item in rustc_public::all_local_items() {
        if item.ty().kind().fn_sig().is_none() {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            c.inst(i);
        }
    }
    let nroots = c.inst_list.len();
    let mut fns: Vec<String> = Vec::new();
    let mut done = 0;
    while done < c.inst_list.len() {
        let i = c.inst_list[done];
        let mut o = format!(
            "{{\"id\":{},\"name\":{},\"tname\":{},\"crate\":{},\"kind\":\"{}\"",
            done,
            esc(&i.name()),
            esc(&i.name()),
            esc(&i.def.krate().name),
            match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::LlvmIntrinsic => "llvm",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            }
        );
        if let Some(n) = i.intrinsic_name() {
            let _ = write!(o, ",\"intrinsic\":{}", esc(&n));
        }
        let targs: Vec<String> = i
            .args()
            .0
            .iter()
            .filter_map(|a| match a {
                GenericArgKind::Type(t) => Some(c.ty(*t).to_string()),
                GenericArgKind::Const(k) => Some(format!("[{}]", k.eval_target_usize().unwrap_or(u64::MAX))),
                _ => None,
            })
            .collect();
        let _ = write!(o, ",\"targs\":[{}]", targs.join(","));
        let t = i.ty();
        if let Some(sig) = t.kind().fn_sig() {
            let sig = sig.skip_binder();
            let _ = write!(o, ",\"unsafe\":{},\"never\":{}", sig.safety == Safety::Unsafe, matches!(sig.output().kind(), TyKind::RigidTy(RigidTy::Never)));
        }
        let _ = write!(o, ",\"span\":{}", esc(&span_str(i.def.span())));
        // Panic plumbing is a leaf of the analysis: never walk into it.
        let nm = i.name();
        let leaf = nm.starts_with("core::panicking::")
            || nm.starts_with("std::rt::")
            || nm.contains("core::fmt::")
            || nm.starts_with("std::io::")
            || nm.starts_with("alloc::fmt");
        if !leaf && i.kind != InstanceKind::Intrinsic {
            if let Some(b) = i.body() {
                let s = c.body(&b);
                o.push(',');
                o.push_str(&s);
            }
        }
        o.push('}');
        fns.push(o);
        done += 1;
    }
    let mut s = String::new();
    let _ = write!(s, "{{\"nroots\":{},\"types\":[\n", nroots);
    s.push_str(&c.ty_out.join(",\n"));
    s.push_str("\n],\"allocs\":[\n");
    s.push_str(&c.alloc_out.join(",\n"));
    s.push_str("\n],\"fns\":[\n");
    s.push_str(&fns.join(",\n"));
    s.push_str("\n]}\n");
    std::fs::write(out, s).unwrap();
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let mut real: Option<String> = None;
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        real = Some(args.remove(1));
    }
    let out = std::env::var("MIRX_OUT").ok();
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    if out.is_some() && crate_name == "harness" {
        let out = out.unwrap();
        let r: Result<(), CompilerErr> = run!(&args, || -> std::ops::ControlFlow<(), ()> {
            dump(&out);
            std::ops::ControlFlow::Continue(())
        });
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        use std::os::unix::process::CommandExt;
        let rustc = real.unwrap_or_else(|| "rustc".into());
        let e = std::process::Command::new(rustc).args(&args[1..]).exec();
        eprintln!("mirx: cannot run rustc: {e}");
        std::process::exit(101);
    }
}

type CompilerErr = rustc_public::CompilerError<()>;
