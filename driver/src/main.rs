//! MIR extractor: a rustc driver that dumps, as JSON, the monomorphic MIR of every function reachable
//! from the `root_*` functions of the crate it compiles (the functions of the analysed crate included,
//! whose rmeta must have been produced with -Zalways-encode-mir).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_hir;
extern crate rustc_span;
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;
#[macro_use]
extern crate rustc_public;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::*;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

// ---------------------------------------------------------------- tiny JSON writer
fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

/// Functions of std analysed with a body of harness/std_model.rs: name, body, its generic arguments.
const REPLACED: &[(&str, &str, &[usize])] = &[
    ("<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter", "vec_from_iter", &[0, 1]),
    ("<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend", "vec_extend", &[0, 2]),
    ("<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend", "vec_extend_ref", &[0, 1, 3]),
    ("std::vec::Vec::<T, A>::retain", "vec_retain", &[0, 2]),
    ("std::vec::Vec::<T, A>::retain_mut", "vec_retain_mut", &[0, 2]),
    ("std::vec::Vec::<T, A>::dedup", "vec_dedup", &[0]),
    ("std::vec::Vec::<T, A>::resize_with", "vec_resize_with", &[0, 2]),
    ("core::slice::<impl [T]>::reverse", "reverse", &[0]),
    ("core::slice::<impl [T]>::binary_search_by", "binary_search_by", &[1, 0, 2]),
    ("std::slice::<impl [T]>::sort", "sort", &[0]),
    ("std::slice::<impl [T]>::sort_by", "sort_by", &[0, 1]),
    ("std::slice::<impl [T]>::sort_by_key", "sort_by_key", &[0, 1, 2]),
    ("core::slice::<impl [T]>::sort_unstable", "sort", &[0]),
    ("core::slice::<impl [T]>::sort_unstable_by", "sort_by", &[0, 1]),
    ("core::slice::<impl [T]>::sort_unstable_by_key", "sort_by_key", &[0, 1, 2]),
    ("<[V] as std::slice::Concat<T>>::concat", "concat", &[0, 1]),
    ("core::slice::<impl [T]>::contains", "contains", &[0]),
    ("<std::string::String as std::iter::FromIterator<char>>::from_iter", "string_from_iter", &[0]),
    ("<std::string::String as std::iter::Extend<char>>::extend", "string_extend", &[0]),
    ("core::slice::<impl [T]>::rotate_left", "rotate_left", &[0]),
    ("core::slice::<impl [T]>::rotate_right", "rotate_right", &[0]),
    ("std::vec::Vec::<T, A>::swap_remove", "vec_swap_remove", &[0]),
    ("std::vec::Vec::<T, A>::extend_from_within", "vec_extend_from_within", &[0, 2]),
    ("<std::vec::Vec<T> as std::convert::From<[T; N]>>::from", "vec_from_array", &[0, 1]),
    ("core::slice::<impl [T]>::is_sorted", "is_sorted", &[0]),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::all", "iter_all", &[0, 1, 2]),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::any", "iter_any", &[0, 1, 2]),
    ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::all", "iter_mut_all", &[0, 1, 2]),
    ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::any", "iter_mut_any", &[0, 1, 2]),
];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty, usize>,
    fns: Vec<String>,
    fn_ids: HashMap<Instance, usize>,
    queue: Vec<(usize, Instance)>,
    allocs: HashMap<AllocId, usize>,
    alloc_out: Vec<String>,
    stop: Vec<String>,
    vtables: HashMap<(Ty, Ty), ()>,
    locals: Vec<LocalDecl>,
    vtable_out: Vec<String>,
    models: HashMap<String, rustc_span::def_id::DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, ty: Ty) -> usize {
        if let Some(i) = self.type_ids.get(&ty) {
            return *i;
        }
        if let TyKind::RigidTy(RigidTy::Pat(base, _)) = ty.kind() {
            return self.ty(base);
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.type_ids.insert(ty, id);
        let s = self.ty_json(ty);
        self.types[id] = s;
        id
    }

    fn layout(&self, ty: Ty) -> String {
        match ty.layout() {
            Ok(l) => {
                let sh = l.shape();
                format!(",\"size\":{}", sh.size.bytes())
            }
            Err(_) => String::new(),
        }
    }

    fn field_offsets(&self, ty: Ty) -> Option<Vec<usize>> {
        let l = ty.layout().ok()?.shape();
        match l.fields {
            FieldsShape::Arbitrary { offsets } => Some(offsets.iter().map(|o| o.bytes()).collect()),
            FieldsShape::Primitive => Some(vec![]),
            _ => None,
        }
    }

    /// Where an enum keeps its tag and the fields of each variant.
    fn enum_layout(&self, ty: Ty) -> String {
        let l = match ty.layout() {
            Ok(l) => l.shape(),
            Err(_) => return String::new(),
        };
        match l.variants {
            VariantsShape::Single { index } => format!(",\"lay\":{{\"single\":{}}}", index.to_index()),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let off = match &l.fields {
                    FieldsShape::Arbitrary { offsets } => offsets[tag_field].bytes(),
                    _ => 0,
                };
                let value = match tag {
                    Scalar::Initialized { value, .. } => value,
                    Scalar::Union { value } => value,
                };
                let size = value.size(&rustc_public::target::MachineInfo::target()).bytes();
                let enc = match tag_encoding {
                    TagEncoding::Direct => "null".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "[{},{},{},{}]",
                        untagged_variant.to_index(),
                        niche_variants.start().to_index(),
                        niche_variants.end().to_index(),
                        niche_start
                    ),
                };
                let vs: Vec<_> = variants
                    .iter()
                    .map(|v| format!("{:?}", v.offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>()))
                    .collect();
                format!(",\"lay\":{{\"tag\":{off},\"size\":{size},\"niche\":{enc},\"voffs\":{}}}", arr(vs))
            }
            _ => String::new(),
        }
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for x in &a.0 {
            match x {
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(*t))),
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Const(c) => v.push(q(&format!("{:?}", c))),
            }
        }
        arr(v)
    }

    fn ty_json(&mut self, ty: Ty) -> String {
        let disp = format!("{}", ty);
        let lay = self.layout(ty);
        let body = match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => {
                    let b = match i {
                        IntTy::Isize => 64,
                        IntTy::I8 => 8,
                        IntTy::I16 => 16,
                        IntTy::I32 => 32,
                        IntTy::I64 => 64,
                        IntTy::I128 => 128,
                    };
                    format!("\"k\":\"int\",\"bits\":{b},\"s\":true")
                }
                RigidTy::Uint(i) => {
                    let b = match i {
                        UintTy::Usize => 64,
                        UintTy::U8 => 8,
                        UintTy::U16 => 16,
                        UintTy::U32 => 32,
                        UintTy::U64 => 64,
                        UintTy::U128 => 128,
                    };
                    format!("\"k\":\"int\",\"bits\":{b},\"s\":false")
                }
                RigidTy::Float(_) => "\"k\":\"float\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Slice(t) => format!("\"k\":\"slice\",\"of\":{}", self.ty(t)),
                RigidTy::Array(t, n) => {
                    let n = n.eval_target_usize().map(|x| x as i64).unwrap_or(-1);
                    format!("\"k\":\"array\",\"of\":{},\"len\":{}", self.ty(t), n)
                }
                RigidTy::Ref(_, t, m) => {
                    format!("\"k\":\"ref\",\"of\":{},\"mut\":{}", self.ty(t), m == Mutability::Mut)
                }
                RigidTy::RawPtr(t, m) => {
                    format!("\"k\":\"ptr\",\"of\":{},\"mut\":{}", self.ty(t), m == Mutability::Mut)
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<_> = ts.iter().map(|t| format!("{}", self.ty(*t))).collect();
                    let offs = self.field_offsets(ty).unwrap_or_default();
                    format!(
                        "\"k\":\"tuple\",\"of\":{},\"offs\":{:?}",
                        arr(v),
                        offs
                    )
                }
                RigidTy::Adt(def, args) => {
                    let name = def.name();
                    let kind = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let mut vs = vec![];
                    for v in def.variants_iter() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let t = f.ty_with_args(&args);
                            fs.push(format!("[{},{}]", q(&f.name), self.ty(t)));
                        }
                        let d = if def.kind() == AdtKind::Enum {
                            format!("{}", def.discriminant_for_variant(v.idx()).val)
                        } else {
                            "0".into()
                        };
                        vs.push(format!(
                            "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                            q(&v.name()),
                            d,
                            arr(fs)
                        ));
                    }
                    let offs = if def.kind() == AdtKind::Struct {
                        self.field_offsets(ty).unwrap_or_default()
                    } else {
                        vec![]
                    };
                    let a = self.args(&args);
                    format!(
                        "\"k\":\"adt\",\"name\":{},\"kind\":\"{}\",\"variants\":{},\"args\":{},\"offs\":{:?}{}",
                        q(&name),
                        kind,
                        arr(vs),
                        a,
                        offs,
                        if kind == "enum" { self.enum_layout(ty) } else { String::new() }
                    )
                }
                RigidTy::FnDef(def, args) => {
                    let a = self.args(&args);
                    let f = match Instance::resolve(def, &args) {
                        Ok(i) => format!("{}", self.func(i)),
                        Err(_) => "null".into(),
                    };
                    let dflt = self.default_body(def, &args);
                    format!(
                        "\"k\":\"fndef\",\"name\":{},\"args\":{},\"fn\":{},\"dflt\":{}",
                        q(&def.name()),
                        a,
                        f,
                        dflt
                    )
                }
                RigidTy::Closure(def, args) => {
                    let name = def.name();
                    // upvar types: last generic arg is the tuple of upvars
                    let up = match args.0.last() {
                        Some(GenericArgKind::Type(t)) => self.ty(*t),
                        _ => usize::MAX,
                    };
                    let mut s = format!("\"k\":\"closure\",\"name\":{},\"up\":{}", q(&name), up);
                    for (nm, k) in [
                        ("once", ClosureKind::FnOnce),
                        ("mut", ClosureKind::FnMut),
                        ("fn", ClosureKind::Fn),
                    ] {
                        if let Ok(i) = Instance::resolve_closure(def, &args, k) {
                            let f = self.func(i);
                            let _ = write!(s, ",\"fn_{}\":{}", nm, f);
                        }
                    }
                    s
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Foreign(_) => "\"k\":\"foreign\"".to_string(),
                _ => "\"k\":\"other\"".to_string(),
            },
            _ => "\"k\":\"other\"".to_string(),
        };
        format!("{{{},\"d\":{}{}}}", body, q(&disp), lay)
    }

    /// The provided (default) body of an iterator method that an implementation overrides.
    fn default_body(&mut self, def: FnDef, args: &GenericArgs) -> String {
        let did = rustc_internal::internal(self.tcx, def.def_id());
        let is_iter = match self.tcx.trait_of_assoc(did) {
            Some(t) => self.tcx.def_path_str(t).contains("::iter::"),
            None => false,
        };
        if !is_iter || !self.tcx.defaultness(did).has_value() {
            return "null".into();
        }
        // constants of a body that is overridden can not be resolved
        if !self.tcx.promoted_mir(did).is_empty() {
            return "null".into();
        }
        let a = rustc_internal::internal(self.tcx, args);
        let i = rustc_middle::ty::Instance::new_raw(did, a);
        let st = rustc_internal::stable(i);
        format!("{}", self.func(st))
    }

    /// The body in harness/std_model.rs that stands for a function of std.
    fn replacement(&mut self, def: &str, args: &GenericArgs) -> String {
        let Some((_, name, pick)) = REPLACED.iter().find(|r| r.0 == def) else {
            return "null".into();
        };
        let Some(did) = self.models.get(*name).copied() else {
            return "null".into();
        };
        let a = rustc_internal::internal(self.tcx, args);
        let a = self.tcx.mk_args_from_iter(pick.iter().map(|k| a[*k]));
        let i = rustc_middle::ty::Instance::new_raw(did, a);
        let st = rustc_internal::stable(i);
        format!("{}", self.func(st))
    }

    fn stopped(&self, name: &str) -> bool {
        self.stop.iter().any(|s| name.contains(s.as_str()))
    }

    fn func(&mut self, i: Instance) -> usize {
        if let Some(x) = self.fn_ids.get(&i) {
            return *x;
        }
        let id = self.fns.len();
        self.fns.push(String::new());
        self.fn_ids.insert(i, id);
        self.queue.push((id, i));
        id
    }

    fn alloc(&mut self, a: AllocId) -> usize {
        if let Some(x) = self.allocs.get(&a) {
            return *x;
        }
        let id = self.alloc_out.len();
        self.alloc_out.push(String::new());
        self.allocs.insert(a, id);
        let s = match GlobalAlloc::from(a) {
            GlobalAlloc::Memory(m) => {
                let x = self.alloc_json(&m);
                format!("{{\"k\":\"mem\",\"a\":{}}}", x)
            }
            GlobalAlloc::Static(s) => {
                let name = s.name();
                let t = self.ty(s.ty());
                let mutable = self.tcx.is_mutable_static(rustc_internal::internal(self.tcx, s.def_id()));
                let x = match s.eval_initializer() {
                    Ok(m) => self.alloc_json(&m),
                    Err(_) => "null".into(),
                };
                format!("{{\"k\":\"static\",\"name\":{},\"ty\":{},\"mut\":{},\"a\":{}}}", q(&name), t, mutable, x)
            }
            GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"fn\":{}}}", self.func(i)),
            GlobalAlloc::VTable(t, _) => format!("{{\"k\":\"vtable\",\"ty\":{}}}", self.ty(t)),
            #[allow(unreachable_patterns)]
            _ => "{\"k\":\"other\"}".into(),
        };
        self.alloc_out[id] = s;
        id
    }

    fn alloc_json(&mut self, a: &Allocation) -> String {
        let mut b = String::new();
        for x in &a.bytes {
            match x {
                Some(v) => {
                    let _ = write!(b, "{:02x}", v);
                }
                None => b.push_str("--"),
            }
        }
        let mut p = vec![];
        for (o, pr) in &a.provenance.ptrs {
            let id = self.alloc(pr.0);
            p.push(format!("[{},{}]", o, id));
        }
        format!("{{\"b\":\"{}\",\"p\":{}}}", b, arr(p))
    }

    fn span(&self, s: &rustc_public::ty::Span) -> String {
        let l = s.get_lines();
        let f = s.get_filename();
        format!("[{},{}]", q(&format!("{}", f)), l.start_line)
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
                #[allow(unreachable_patterns)]
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }

    fn mirconst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let x = self.alloc_json(a);
                format!("[\"c\",{},{}]", t, x)
            }
            ConstantKind::ZeroSized => format!("[\"z\",{}]", t),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => format!("[\"n\",{},{}]", t, n),
                Err(_) => format!("[\"u\",{},{}]", t, q(&format!("{:?}", tc))),
            },
            k => format!("[\"u\",{},{}]", t, q(&format!("{:?}", k))),
        }
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => self.mirconst(&c.const_),
            #[allow(unreachable_patterns)]
            o => format!("[\"u\",-1,{}]", q(&format!("{:?}", o))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => format!("[\"addr\",{},{}]", q(&format!("{:?}", k)), self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<_> = ops.iter().map(|x| self.operand(x)).collect();
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.ty(d.ty_with_args(a));
                        format!(
                            "[\"adt\",{},{},{}]",
                            t,
                            v.to_index(),
                            f.map(|x| x as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::from_rigid_kind(RigidTy::Closure(*d, a.clone())));
                        format!("[\"closure\",{}]", t)
                    }
                    AggregateKind::RawPtr(t, m) => {
                        format!("[\"rawptr\",{},{}]", self.ty(*t), *m == Mutability::Mut)
                    }
                    k => format!("[\"other\",{}]", q(&format!("{:?}", k))),
                };
                format!("[\"agg\",{},{}]", ks, arr(o))
            }
            Rvalue::BinaryOp(op, a, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                format!("[\"cbin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(a)),
            Rvalue::Cast(k, o, t) => {
                if let CastKind::PointerCoercion(PointerCoercion::Unsize) = k {
                    if let Ok(f) = o.ty(&self.locals) {
                        self.vtable(f, *t);
                    }
                }
                format!("[\"cast\",{},{},{}]", q(&format!("{:?}", k)), self.operand(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Shared => "shared",
                };
                format!("[\"ref\",\"{}\",{}]", m, self.place(p))
            }
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().map(|x| x as i64).unwrap_or(-1);
                format!("[\"repeat\",{},{}]", self.operand(o), n)
            }
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            #[allow(unreachable_patterns)]
            r => format!("[\"other\",{}]", q(&format!("{:?}", r))),
        }
    }

    fn unwind(u: &UnwindAction) -> &'static str {
        match u {
            UnwindAction::Cleanup(_) => "c",
            _ => "n",
        }
    }

    fn body(&mut self, b: &Body) -> String {
        self.locals = b.locals().to_vec();
        let locs: Vec<String> = b.locals().iter().map(|l| format!("{}", self.ty(l.ty))).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local, q(&v.name)));
                }
            }
        }
        let mut bbs = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                let j = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), self.span(&s.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index())
                    }
                    StatementKind::StorageLive(l) => format!("[\"live\",{}]", l),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l),
                    StatementKind::Intrinsic(i) => match i {
                        NonDivergingIntrinsic::Assume(o) => format!("[\"assume\",{}]", self.operand(o)),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => format!(
                            "[\"cpno\",{},{},{}]",
                            self.operand(&c.src),
                            self.operand(&c.dst),
                            self.operand(&c.count)
                        ),
                    },
                    _ => continue,
                };
                ss.push(j);
            }
            let t = &bb.terminator;
            let sp = self.span(&t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<_> = targets.branches().map(|(a, b)| format!("[{},{}]", a, b)).collect();
                    format!("[\"switch\",{},{},{}]", self.operand(discr), arr(v), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target)
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let f = self.operand(func);
                    let a: Vec<_> = args.iter().map(|x| self.operand(x)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{},\"{}\"]",
                        f,
                        arr(a),
                        self.place(destination),
                        target.map(|x| x as i64).unwrap_or(-1),
                        sp,
                        Self::unwind(unwind)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index))
                        }
                        AssertMessage::Overflow(op, a, b) => {
                            format!("[\"overflow\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
                        }
                        AssertMessage::OverflowNeg(a) => format!("[\"overflow\",\"Neg\",{}]", self.operand(a)),
                        AssertMessage::DivisionByZero(a) => format!("[\"div0\",{}]", self.operand(a)),
                        AssertMessage::RemainderByZero(a) => format!("[\"rem0\",{}]", self.operand(a)),
                        m => format!("[\"other\",{}]", q(&format!("{:?}", m))),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, m, target, sp)
                }
                k => format!("[\"other\",{}]", q(&format!("{:?}", k))),
            };
            bbs.push(format!("{{\"s\":{},\"t\":{},\"sp\":{}}}", arr(ss), tj, sp));
        }
        format!(
            "{{\"locals\":{},\"argc\":{},\"names\":{},\"spread\":{},\"bb\":{}}}",
            arr(locs),
            b.arg_locals().len(),
            arr(names),
            b.spread_arg().map(|x| x as i64).unwrap_or(-1),
            arr(bbs)
        )
    }

    fn pointee(ty: Ty) -> Option<Ty> {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
            TyKind::RigidTy(RigidTy::Adt(_, args)) => args.0.iter().find_map(|a| match a {
                GenericArgKind::Type(t) => Some(*t),
                _ => None,
            }),
            _ => None,
        }
    }

    /// Methods behind a coercion to a trait object, by vtable index.
    fn vtable(&mut self, from: Ty, to: Ty) {
        let (s, d) = match (Self::pointee(from), Self::pointee(to)) {
            (Some(s), Some(d)) => (s, d),
            _ => return,
        };
        if !matches!(d.kind(), TyKind::RigidTy(RigidTy::Dynamic(..)))
            || matches!(s.kind(), TyKind::RigidTy(RigidTy::Dynamic(..)))
            || self.vtables.insert((s, d), ()).is_some()
        {
            return;
        }
        let si = rustc_internal::internal(self.tcx, s);
        let di = rustc_internal::internal(self.tcx, d);
        let mut ids = vec![];
        if let rustc_middle::ty::TyKind::Dynamic(preds, ..) = di.kind() {
            if let Some(p) = preds.principal() {
                let tr = self.tcx.instantiate_bound_regions_with_erased(p.with_self_ty(self.tcx, si));
                let tr = self.tcx.erase_and_anonymize_regions(tr);
                for e in self.tcx.vtable_entries(tr) {
                    ids.push(match e {
                        rustc_middle::ty::VtblEntry::Method(i) => {
                            let i = rustc_internal::stable(*i);
                            format!("{}", self.func(i))
                        }
                        _ => "null".into(),
                    });
                }
            }
        }
        let (a, b) = (self.ty(s), self.ty(d));
        self.vtable_out.push(format!("[{},{},{}]", a, b, arr(ids)));
    }

    fn emit_fn(&mut self, id: usize, i: Instance) {
        let name = i.name();
        let def = i.def.name();
        let kind = match i.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic => "intrinsic".to_string(),
            InstanceKind::Virtual { idx } => format!("virtual:{}", idx),
            InstanceKind::Shim => "shim".to_string(),
            _ => "other".to_string(),
        };
        let did = rustc_internal::internal(self.tcx, i.def.def_id());
        let krate = i.def.krate().name;
        let a = self.args(&i.args());
        let intr = i.intrinsic_name();
        let mut impl_trait = String::from("null");
        let mut self_ty = String::from("null");
        let mut method = String::from("null");
        if let Some(it) = self.tcx.opt_associated_item(did) {
            method = q(&it.opt_name().map(|n| n.to_string()).unwrap_or_default());
            let cont = self.tcx.parent(did);
            if let Some(tid) = self.tcx.opt_associated_item(did).and_then(|x| x.trait_item_def_id()) {
                impl_trait = q(&self.tcx.def_path_str(self.tcx.parent(tid)));
            }
            if matches!(self.tcx.def_kind(cont), rustc_hir::def::DefKind::Impl { .. }) {
                self_ty = q(&format!("{}", self.tcx.type_of(cont).skip_binder()));
            }
        }
        let is_pub = matches!(
            self.tcx.def_kind(did),
            rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn
        ) && self.tcx.visibility(did).is_public();
        let mut head = format!(
            "\"name\":{},\"def\":{},\"kind\":{},\"krate\":{},\"args\":{},\"trait\":{},\"method\":{},\"self_ty\":{},\"pub\":{}",
            q(&name),
            q(&def),
            q(&kind),
            q(&krate),
            a,
            impl_trait,
            method,
            self_ty,
            is_pub
        );
        if let rustc_hir::def::DefKind::Ctor(of, _) = self.tcx.def_kind(did) {
            let n = match of {
                rustc_hir::def::CtorOf::Struct => 0,
                rustc_hir::def::CtorOf::Variant => {
                    let adt = self.tcx.adt_def(self.tcx.parent(self.tcx.parent(did)));
                    adt.variant_index_with_ctor_id(did).as_usize()
                }
            };
            let _ = write!(head, ",\"ctor\":{}", n);
        }
        if let Some(n) = intr {
            let _ = write!(head, ",\"intrinsic\":{}", q(&n.to_string()));
        }
        if let Ok(sig) = i.fn_abi() {
            let v: Vec<_> = sig.args.iter().map(|x| format!("{}", self.ty(x.ty))).collect();
            let r = self.ty(sig.ret.ty);
            let _ = write!(head, ",\"sig\":[{},{}]", arr(v), r);
        }
        let has_stop = self.stopped(&def) || self.stopped(&name);
        let body = if has_stop || i.kind == InstanceKind::Intrinsic || matches!(i.kind, InstanceKind::Virtual { .. }) {
            None
        } else if i.has_body() {
            // a body the compiler can not give is left out: calls of it are not decided
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.body())).unwrap_or(None)
        } else {
            None
        };
        let b = match body {
            Some(b) => self.body(&b),
            None => "null".into(),
        };
        let subst = if krate == "roots" { "null".into() } else { self.replacement(&def, &i.args()) };
        self.fns[id] = format!("{{{},\"stop\":{},\"subst\":{},\"body\":{}}}", head, has_stop, subst, b);
    }
}

/// Statics of the crate, and the statics and functions that each of its functions mentions.
fn effects(tcx: TyCtxt<'_>) {
    use rustc_hir::def::DefKind;
    use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
    use rustc_middle::mir::visit::Visitor;
    use rustc_middle::mir::{self, Const, ConstOperand, ConstValue, Location, Rvalue};
    use rustc_middle::ty::{self, TypingEnv};

    struct Uses<'tcx> {
        tcx: TyCtxt<'tcx>,
        out: Vec<(&'static str, rustc_hir::def_id::DefId, bool, rustc_span::Span)>,
        casts: Vec<rustc_span::Span>,
        at: rustc_span::Span,
    }
    impl<'tcx> Visitor<'tcx> for Uses<'tcx> {
        fn visit_statement(&mut self, s: &mir::Statement<'tcx>, l: Location) {
            self.at = s.source_info.span;
            self.super_statement(s, l);
        }
        fn visit_terminator(&mut self, t: &mir::Terminator<'tcx>, l: Location) {
            self.at = t.source_info.span;
            self.super_terminator(t, l);
        }
        fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, _: Location) {
            if let ty::FnDef(d, args) = c.const_.ty().kind() {
                // is it given a closure that captures something?
                let captures = args.skip_binder().types().any(|t| matches!(t.kind(), ty::Closure(_, a) if !a.as_closure().upvar_tys().is_empty()));
                self.out.push(("fn", *d, captures, self.at));
            }
            if let Const::Val(ConstValue::Scalar(Scalar::Ptr(p, _)), _) = c.const_ {
                if let GlobalAlloc::Static(d) = self.tcx.global_alloc(p.provenance.alloc_id()) {
                    self.out.push(("static", d, false, self.at));
                }
            }
        }
        fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
            match r {
                Rvalue::ThreadLocalRef(d) => self.out.push(("static", *d, false, self.at)),
                Rvalue::Cast(mir::CastKind::PointerExposeProvenance, ..) => self.casts.push(self.at),
                _ => {}
            }
            self.super_rvalue(r, l);
        }
    }

    let sp = |s: rustc_span::Span| {
        let l = tcx.sess.source_map().lookup_char_pos(s.source_callsite().lo());
        format!("[{},{}]", q(&l.file.name.prefer_local_unconditionally().to_string()), l.line)
    };
    let mut statics = vec![];
    let mut fns = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        let did = d.to_def_id();
        if let DefKind::Static { .. } = tcx.def_kind(did) {
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let frozen = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
            statics.push(format!(
                "{{\"name\":{},\"ty\":{},\"mut\":{},\"frozen\":{},\"local\":{},\"span\":{}}}",
                q(&tcx.def_path_str(did)), q(&format!("{}", t)), tcx.is_mutable_static(did), frozen, tcx.is_thread_local_static(did), sp(tcx.def_span(did))
            ));
        }
    }
    for d in tcx.mir_keys(()) {
        let did = d.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let mut u = Uses { tcx, out: vec![], casts: vec![], at: tcx.def_span(did) };
        u.visit_body(tcx.optimized_mir(did));
        for b in tcx.promoted_mir(did) {
            u.visit_body(b);
        }
        let uses = u.out.iter().map(|(k, d, c, s)| format!("[{},{},{},{},{}]", q(k), q(&tcx.def_path_str(*d)), tcx.is_foreign_item(*d), c, sp(*s))).collect();
        fns.push(format!(
            "{{\"name\":{},\"uses\":{},\"casts\":{},\"span\":{}}}",
            q(&tcx.def_path_str(did)), arr(uses), arr(u.casts.iter().map(|s| sp(*s)).collect()), sp(tcx.def_span(did))
        ));
    }
    let out = format!("{{\"statics\":[{}],\n\"fns\":[\n{}]}}\n", statics.join(",\n"), fns.join(",\n"));
    std::fs::write(std::env::var("MIRX_OUT").expect("MIRX_OUT"), out).unwrap();
}

fn analyze(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    if std::env::var("MIRX_EFFECTS").is_ok() {
        effects(tcx);
        return ControlFlow::Continue(());
    }
    let stop = std::env::var("MIRX_STOP").ok().map(|f| {
        std::fs::read_to_string(f)
            .unwrap()
            .lines()
            .map(|l| l.trim().to_string())
            .filter(|l| !l.is_empty() && !l.starts_with('#'))
            .collect()
    });
    let mut cx = Cx {
        tcx,
        types: vec![],
        type_ids: HashMap::new(),
        fns: vec![],
        fn_ids: HashMap::new(),
        queue: vec![],
        allocs: HashMap::new(),
        alloc_out: vec![],
        stop: stop.unwrap_or_default(),
        vtables: HashMap::new(),
        locals: vec![],
        vtable_out: vec![],
        models: HashMap::new(),
    };
    for d in tcx.mir_keys(()) {
        if let Some(n) = tcx.def_path_str(d.to_def_id()).strip_prefix("std_model::") {
            cx.models.insert(n.to_string(), d.to_def_id());
        }
    }
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        let n = it.name();
        let short = n.rsplit("::").next().unwrap_or("").to_string();
        if !short.starts_with("root_") {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let id = cx.func(i);
            roots.push(format!("[{},{}]", q(&short), id));
        }
    }
    // all the functions of the analysed crate, by name (inventory), and implementors of its traits
    let mut inv = vec![];
    let mut impls = vec![];
    let mut statics = vec![];
    for c in rustc_public::find_crates("mpegts") {
        for f in c.fn_defs() {
            let did = rustc_internal::internal(tcx, f.def_id());
            if !matches!(
                tcx.def_kind(did),
                rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn
            ) {
                continue;
            }
            let unsafe_ = format!("{:?}", tcx.fn_sig(did).skip_binder().skip_binder()).contains("unsafe");
            let sp = f.span();
            inv.push(format!(
                "{{\"name\":{},\"pub\":{},\"unsafe\":{},\"span\":{}}}",
                q(&f.name()),
                tcx.visibility(did).is_public(),
                unsafe_,
                cx.span(&sp)
            ));
            if std::env::var("MIRX_ALL").is_ok() {
                if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = f.ty().kind() {
                    if let Ok(i) = Instance::resolve(d, &a) {
                        if !format!("{:?}", a).contains("Param") {
                            cx.func(i);
                        }
                    }
                }
            }
        }
        for im in c.trait_impls() {
            let t = im.trait_impl();
            let tr = t.value.def_id.name();
            let st = t.value.self_ty();
            if let TyKind::RigidTy(RigidTy::Adt(..)) = st.kind() {
                impls.push(format!("[{},{}]", q(&tr), cx.ty(st)));
            } else {
                impls.push(format!("[{},{}]", q(&tr), q(&format!("{}", st))));
            }
        }
        for s in c.statics() {
            let did = rustc_internal::internal(tcx, s.def_id());
            let t = cx.ty(s.ty());
            let a = match s.eval_initializer() {
                Ok(m) => cx.alloc_json(&m),
                Err(_) => "null".into(),
            };
            statics.push(format!(
                "{{\"name\":{},\"ty\":{},\"mut\":{},\"a\":{}}}",
                q(&s.name()),
                t,
                tcx.is_mutable_static(did),
                a
            ));
        }
    }
    while let Some((id, i)) = cx.queue.pop() {
        cx.emit_fn(id, i);
    }
    let out = format!(
        "{{\"roots\":{},\"types\":[\n{}],\n\"fns\":[\n{}],\n\"allocs\":[\n{}],\n\"inventory\":{},\"impls\":{},\"statics\":{},\"vtables\":{}}}\n",
        arr(roots),
        cx.types.join(",\n"),
        cx.fns.join(",\n"),
        cx.alloc_out.join(",\n"),
        arr(inv),
        arr(impls),
        arr(statics),
        arr(cx.vtable_out)
    );
    std::fs::write(std::env::var("MIRX_OUT").expect("MIRX_OUT"), out).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = run_with_tcx!(&args, analyze);
    if r.is_err() {
        std::process::exit(1);
    }
}
