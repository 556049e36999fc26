//! Lowering of monomorphic MIR bodies into a compact form with loop and liveness information.
use rustc_public_bridge::IndexedVal;
use rustc_public::abi::*;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

use crate::val::*;

#[derive(Clone, Debug)]
pub struct Pl {
    pub local: usize,
    pub proj: Rc<Vec<Pj>>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Pj {
    Deref,
    Field(usize),
    Index(usize),
    CIdx(u64, bool),
    Sub(u64, u64, bool),
    Down(usize),
    BoxDeref,
    Nop,
}
#[derive(Clone, Debug)]
pub enum Op {
    Copy(Pl),
    Move(Pl),
    Const(Val, Ty),
}
#[derive(Clone, Debug)]
pub enum Rv {
    Use(Op),
    Ref(bool /*mut*/, Pl),
    RawPtr(bool, Pl),
    BoxAddr(Pl),
    Agg(Rc<AggregateKind>, Vec<Op>, Ty),
    Bin(BinOp, Op, Op, ITy),
    Chk(BinOp, Op, Op, ITy),
    Un(UnOp, Op, ITy),
    Cast(CastKind, Op, Ty, Ty),
    Discr(Pl, Ty),
    Len(Pl),
    Repeat(Op, u64),
    Other(String),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct ITy {
    pub w: u32,
    pub s: bool,
    pub kind: u8, // 0 int, 1 bool, 2 char, 3 float, 4 other
}
#[derive(Clone, Debug)]
pub enum St {
    Assign(Pl, Rv),
    SetDiscr(Pl, usize, Ty),
    Dead(usize),
    Assume(Op),
    Other(String),
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fun(Rc<FnRef>),
    Virtual(FnDef, GenericArgs, Rc<FnRef>),
    Ptr(Op),
}
#[derive(Debug)]
pub struct FnRef {
    pub inst: Instance,
    pub path: String,   // definition path (generic)
    pub full: String,   // with arguments
    pub krate: String,
    pub intrinsic: Option<String>,
    pub args: GenericArgs,
    pub id: usize,
    pub closure: bool,
}
#[derive(Clone, Debug)]
pub enum Tm {
    Goto(usize),
    Switch(Op, Vec<(u128, usize)>, usize, ITy),
    Ret,
    Unreach,
    Drop(Pl, usize),
    Call { f: Callee, args: Vec<Op>, dest: Pl, target: Option<usize>, rust_call: bool, ret_ty: Ty, arg_tys: Vec<Ty> },
    Assert { cond: Op, expected: bool, kind: &'static str, a: Option<Op>, b: Option<Op>, target: usize },
    Other(String),
}
pub struct Blk {
    pub st: Vec<(St, Span)>,
    pub tm: (Tm, Span),
    pub rpo: usize,
    pub lp: Option<usize>, // innermost loop
    pub live: Vec<u64>,
    pub preds: usize,
    pub cleanup: bool,
}
#[derive(Debug)]
pub struct Loop {
    pub header: usize,
    pub body: Vec<bool>,
    pub parent: Option<usize>,
    pub depth: usize,
}
pub struct Func {
    pub fr: Rc<FnRef>,
    pub nargs: usize,
    pub tys: Vec<Ty>,
    pub blocks: Vec<Blk>,
    pub loops: Vec<Loop>,
    pub spread: Option<usize>,
    pub span: Span,
    pub local: bool, // in the analysed crate
    pub mutref: Vec<bool>,
    pub names: Vec<Option<String>>,
}

pub struct Cx {
    pub fns: HashMap<Instance, Rc<FnRef>>,
    pub bodies: HashMap<usize, Option<Rc<Func>>>,
    pub resolve: HashMap<(FnDef, Vec<Ty>, usize), Option<Instance>>,
}
thread_local! {
    pub static CX: RefCell<Cx> = RefCell::new(Cx { fns: HashMap::new(), bodies: HashMap::new(), resolve: HashMap::new() });
}

pub fn fnref(inst: Instance) -> Rc<FnRef> {
    if let Some(r) = CX.with(|c| c.borrow().fns.get(&inst).cloned()) {
        return r;
    }
    let path = inst.def.name().to_string();
    let full = inst.name().to_string();
    let krate = inst.def.krate().name.to_string();
    let intrinsic = if inst.kind == InstanceKind::Intrinsic { inst.intrinsic_name().map(|s| s.to_string()) } else { None };
    let args = inst.args();
    let closure = matches!(inst.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..))) && inst.kind == InstanceKind::Item;
    CX.with(|c| {
        let mut c = c.borrow_mut();
        let id = c.fns.len();
        let r = Rc::new(FnRef { inst, path, full, krate, intrinsic, args, id, closure });
        c.fns.insert(inst, r.clone());
        r
    })
}

pub fn body_of(fr: &Rc<FnRef>) -> Option<Rc<Func>> {
    if let Some(b) = CX.with(|c| c.borrow().bodies.get(&fr.id).cloned()) {
        return b;
    }
    let b = if matches!(fr.inst.kind, InstanceKind::Item | InstanceKind::Shim) && (fr.inst.kind == InstanceKind::Shim || fr.inst.has_body()) {
        fr.inst.body().map(|b| Rc::new(lower(fr.clone(), b)))
    } else {
        None
    };
    CX.with(|c| c.borrow_mut().bodies.insert(fr.id, b.clone()));
    b
}

pub fn ity(t: Ty) -> ITy {
    match t.kind() {
        TyKind::RigidTy(r) => match r {
            RigidTy::Bool => ITy { w: 1, s: false, kind: 1 },
            RigidTy::Char => ITy { w: 32, s: false, kind: 2 },
            RigidTy::Int(i) => ITy { w: (i.num_bytes() * 8) as u32, s: true, kind: 0 },
            RigidTy::Uint(i) => ITy { w: (i.num_bytes() * 8) as u32, s: false, kind: 0 },
            RigidTy::Float(f) => ITy { w: match f { FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F16 => 16, FloatTy::F128 => 128 }, s: true, kind: 3 },
            _ => ITy { w: 64, s: false, kind: 4 },
        },
        _ => ITy { w: 64, s: false, kind: 4 },
    }
}

fn lower_place(p: &Place, locals: &[LocalDecl]) -> Pl {
    let mut proj = vec![];
    for (i, e) in p.projection.iter().enumerate() {
        proj.push(match e {
            ProjectionElem::Deref => {
                let base = Place { local: p.local, projection: p.projection[..i].to_vec() };
                match base.ty(locals) {
                    Ok(t) if t.kind().is_box() => Pj::BoxDeref,
                    _ => Pj::Deref,
                }
            }
            ProjectionElem::Field(i, _) => Pj::Field(*i),
            ProjectionElem::Index(l) => Pj::Index(*l),
            ProjectionElem::ConstantIndex { offset, from_end, .. } => Pj::CIdx(*offset, *from_end),
            ProjectionElem::Subslice { from, to, from_end } => Pj::Sub(*from, *to, *from_end),
            ProjectionElem::Downcast(v) => Pj::Down(variant_ix(*v)),
            ProjectionElem::OpaqueCast(_) => Pj::Nop,
        });
    }
    proj.retain(|x| *x != Pj::Nop);
    Pl { local: p.local, proj: Rc::new(proj) }
}

pub fn variant_ix(v: VariantIdx) -> usize {
    use rustc_public_bridge::IndexedVal;
    v.to_index()
}

fn lower_op(o: &Operand, locals: &[LocalDecl]) -> Op {
    match o {
        Operand::Copy(p) => Op::Copy(lower_place(p, locals)),
        Operand::Move(p) => Op::Move(lower_place(p, locals)),
        Operand::Constant(c) => {
            let ty = c.const_.ty();
            Op::Const(const_val(&c.const_), ty)
        }
        Operand::RuntimeChecks(_) => Op::Const(Val::I(crate::term::Int::C(0)), Ty::bool_ty()),
    }
}

pub fn const_val(c: &MirConst) -> Val {
    let ty = c.ty();
    match c.kind() {
        ConstantKind::Allocated(a) => read_alloc(a, 0, ty),
        ConstantKind::ZeroSized => zst(ty),
        ConstantKind::Ty(tc) => match tc.kind() {
            TyConstKind::Value(t, a) => read_alloc(a, 0, *t),
            TyConstKind::ZSTValue(t) => zst(*t),
            _ => Val::Top(2),
        },
        _ => Val::Top(2),
    }
}

pub fn zst(ty: Ty) -> Val {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::FnDef(d, a)) => Val::Fn(Rc::new(FnV::Def(d, a))),
        TyKind::RigidTy(RigidTy::Tuple(ts)) => Val::Agg(Rc::new(ts.iter().map(|t| zst(*t)).collect())),
        TyKind::RigidTy(RigidTy::Adt(d, args)) if d.kind() == AdtKind::Struct => {
            let v = d.variants();
            let fs = v[0].fields();
            let _ = &args;
            Val::Agg(Rc::new(fs.iter().map(|f| zst(f.ty_with_args(&args))).collect()))
        }
        TyKind::RigidTy(RigidTy::Array(..)) => Val::Seq(Rc::new(Seq::exact(vec![]))),
        _ => Val::Agg(Rc::new(vec![])),
    }
}

pub fn read_uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
    let mut r = 0u128;
    for i in (0..n).rev() {
        r = (r << 8) | (a.bytes.get(off + i).cloned().flatten()? as u128);
    }
    Some(r)
}

pub fn type_size(t: Ty) -> Option<usize> {
    t.layout().ok().map(|l| l.shape().size.bits() / 8)
}

thread_local! { static STATICS: RefCell<HashMap<String, Val>> = RefCell::new(HashMap::new()); }

pub fn read_alloc(a: &Allocation, off: usize, ty: Ty) -> Val {
    use crate::term::Int;
    let k = match ty.kind() {
        TyKind::RigidTy(r) => r,
        _ => return Val::Top(2),
    };
    match k {
        RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) => {
            let it = ity(ty);
            let n = ((it.w + 7) / 8) as usize;
            match read_uint(a, off, n) {
                Some(x) => Val::I(Int::C(if it.s { crate::term::wrap(x as i128, it.w, true) } else { x as i128 })),
                None => Val::Top(2),
            }
        }
        RigidTy::Float(f) => match f {
            FloatTy::F64 => match read_uint(a, off, 8) {
                Some(x) => Val::F(crate::flt::Flt::c(f64::from_bits(x as u64))),
                None => Val::Top(2),
            },
            FloatTy::F32 => match read_uint(a, off, 4) {
                Some(x) => Val::F(crate::flt::Flt::c(f32::from_bits(x as u32) as f64)),
                None => Val::Top(2),
            },
            _ => Val::Top(2),
        },
        RigidTy::Tuple(ts) => {
            let sh = match ty.layout() {
                Ok(l) => l.shape(),
                _ => return Val::Top(2),
            };
            let offs = match &sh.fields {
                FieldsShape::Arbitrary { offsets } => offsets.clone(),
                _ => vec![],
            };
            Val::Agg(Rc::new(ts.iter().enumerate().map(|(i, t)| read_alloc(a, off + offs.get(i).map(|o| o.bits() / 8).unwrap_or(0), *t)).collect()))
        }
        RigidTy::Array(t, n) => {
            let n = n.eval_target_usize().unwrap_or(0) as usize;
            let sz = type_size(t).unwrap_or(0);
            Val::Seq(Rc::new(Seq::exact((0..n).map(|i| read_alloc(a, off + i * sz, t)).collect())))
        }
        RigidTy::FnDef(..) => zst(ty),
        RigidTy::Adt(d, args) => {
            let sh = match ty.layout() {
                Ok(l) => l.shape(),
                _ => return Val::Top(2),
            };
            let vs = d.variants();
            match d.kind() {
                AdtKind::Struct => {
                    let nm = d.name().to_string();
                    if nm == "std::string::String" || nm == "alloc::string::String" {
                        return Val::Str(Rc::new(StrV::lit("")));
                    }
                    if nm.ends_with("vec::Vec") {
                        return Val::Seq(Rc::new(Seq::exact(vec![])));
                    }
                    let offs = match &sh.fields {
                        FieldsShape::Arbitrary { offsets } => offsets.clone(),
                        _ => vec![],
                    };
                    let fs = vs[0].fields();
                    Val::Agg(Rc::new(fs.iter().enumerate().map(|(i, f)| read_alloc(a, off + offs.get(i).map(|o| o.bits() / 8).unwrap_or(0), f.ty_with_args(&args))).collect()))
                }
                AdtKind::Enum => {
                    let (vi, offs) = match &sh.variants {
                        VariantsShape::Single { index } => {
                            let o = match &sh.fields {
                                FieldsShape::Arbitrary { offsets } => offsets.clone(),
                                _ => vec![],
                            };
                            (variant_ix(*index), o)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = match &sh.fields {
                                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bits() / 8,
                                _ => 0,
                            };
                            let prim = match tag {
                                Scalar::Initialized { value, .. } => *value,
                                Scalar::Union { value } => *value,
                            };
                            let n = prim.size(&rustc_public::target::MachineInfo::target()).bits() / 8;
                            let mut isptr = false;
                            for (o, _) in &a.provenance.ptrs {
                                if *o == off + toff {
                                    isptr = true;
                                }
                            }
                            let t = match read_uint(a, off + toff, n) {
                                Some(t) => t,
                                None => return Val::Top(2),
                            };
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let mut r = 0;
                                    for i in 0..vs.len() {
                                        let dd = d.discriminant_for_variant(VariantIdx::to_val(i)).val;
                                        let m = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                        if dd & m == t & m {
                                            r = i;
                                        }
                                    }
                                    r
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let m = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                    let rel = t.wrapping_sub(*niche_start) & m;
                                    let cnt = (variant_ix(*niche_variants.end()) - variant_ix(*niche_variants.start())) as u128;
                                    if !isptr && rel <= cnt {
                                        variant_ix(*niche_variants.start()) + rel as usize
                                    } else {
                                        variant_ix(*untagged_variant)
                                    }
                                }
                            };
                            (vi, variants[vi].offsets.clone())
                        }
                        VariantsShape::Empty => return Val::Top(2),
                    };
                    let fs = vs[vi].fields();
                    let f: Vec<Val> = fs.iter().enumerate().map(|(i, f)| read_alloc(a, off + offs.get(i).map(|o| o.bits() / 8).unwrap_or(0), f.ty_with_args(&args))).collect();
                    Val::En(Rc::new(EnumV { var: vi, f }))
                }
                AdtKind::Union => Val::Top(2),
            }
        }
        RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => {
            let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1 .0);
            let base = read_uint(a, off, 8).unwrap_or(0) as usize;
            let Some(id) = prov else {
                // dangling reference to a zero-sized value or an empty slice
                return match t.kind() {
                    TyKind::RigidTy(RigidTy::Str) => Val::Str(Rc::new(StrV::lit(""))),
                    TyKind::RigidTy(RigidTy::Slice(_)) => Val::sh(Val::Seq(Rc::new(Seq::exact(vec![])))),
                    _ => Val::sh(zst(t)),
                };
            };
            match GlobalAlloc::from(id) {
                GlobalAlloc::Memory(m) => match t.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let n = read_uint(a, off + 8, 8).unwrap_or(0) as usize;
                        let by: Vec<u8> = (0..n).map(|i| m.bytes[base + i].unwrap_or(0)).collect();
                        Val::Str(Rc::new(StrV::lit(&String::from_utf8_lossy(&by))))
                    }
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let n = read_uint(a, off + 8, 8).unwrap_or(0) as usize;
                        let sz = type_size(e).unwrap_or(0);
                        Val::sh(Val::Seq(Rc::new(Seq::exact((0..n).map(|i| read_alloc(&m, base + i * sz, e)).collect()))))
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => Val::Top(2),
                    _ => Val::sh(read_alloc(&m, base, t)),
                },
                GlobalAlloc::Static(s) => {
                    let nm = s.name().to_string();
                    if let Some(v) = STATICS.with(|x| x.borrow().get(&nm).cloned()) {
                        return Val::sh(v);
                    }
                    let v = match s.eval_initializer() {
                        // state is not known
                        Ok(al) if al.mutability == Mutability::Mut => Val::Top(2),
                        Ok(al) => read_alloc(&al, base, t),
                        Err(_) => Val::Top(2),
                    };
                    STATICS.with(|x| x.borrow_mut().insert(nm, v.clone()));
                    Val::sh(v)
                }
                _ => Val::Top(2),
            }
        }
        RigidTy::FnPtr(_) => {
            let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1 .0);
            match prov.map(GlobalAlloc::from) {
                Some(GlobalAlloc::Function(i)) => Val::Fn(Rc::new(FnV::Inst(i))),
                _ => Val::Top(2),
            }
        }
        _ => zst(ty),
    }
}

fn lower_rv(rv: &Rvalue, locals: &[LocalDecl]) -> Rv {
    let lo = |o: &Operand| lower_op(o, locals);
    match rv {
        Rvalue::Use(o, _) => Rv::Use(lo(o)),
        Rvalue::Ref(_, k, p) => Rv::Ref(matches!(k, BorrowKind::Mut { .. }), lower_place(p, locals)),
        Rvalue::Reborrow(_, m, p) => Rv::Ref(*m == Mutability::Mut, lower_place(p, locals)),
        Rvalue::AddressOf(k, p) => Rv::RawPtr(matches!(k, RawPtrKind::Mut), lower_place(p, locals)),
        Rvalue::Aggregate(k, ops) => {
            let t = rv.ty(locals).unwrap();
            Rv::Agg(Rc::new(k.clone()), ops.iter().map(lo).collect(), t)
        }
        Rvalue::BinaryOp(b, x, y) => Rv::Bin(*b, lo(x), lo(y), ity(x.ty(locals).unwrap())),
        Rvalue::CheckedBinaryOp(b, x, y) => Rv::Chk(*b, lo(x), lo(y), ity(x.ty(locals).unwrap())),
        Rvalue::UnaryOp(u, x) => Rv::Un(*u, lo(x), ity(x.ty(locals).unwrap())),
        Rvalue::Cast(k, x, t) => {
            if *k == CastKind::BoxDerefTransmute || *k == CastKind::Transmute {
                if let Operand::Copy(p) | Operand::Move(p) = x {
                    for i in (0..p.projection.len()).rev() {
                        let base = Place { local: p.local, projection: p.projection[..i].to_vec() };
                        if let Ok(bt) = base.ty(locals) {
                            if bt.kind().is_box() && matches!(p.projection[i], ProjectionElem::Field(0, _)) {
                                return Rv::BoxAddr(lower_place(&base, locals));
                            }
                        }
                    }
                }
            }
            Rv::Cast(*k, lo(x), x.ty(locals).unwrap(), *t)
        }
        Rvalue::CopyForDeref(p) => Rv::Use(Op::Copy(lower_place(p, locals))),
        Rvalue::Discriminant(p) => Rv::Discr(lower_place(p, locals), p.ty(locals).unwrap()),
        Rvalue::Len(p) => Rv::Len(lower_place(p, locals)),
        Rvalue::Repeat(o, n) => Rv::Repeat(lo(o), n.eval_target_usize().unwrap_or(0)),
        Rvalue::ThreadLocalRef(_) => Rv::Other("threadlocal".into()),
    }
}

fn lower_call(func: &Operand, locals: &[LocalDecl]) -> (Callee, bool) {
    let fty = func.ty(locals).unwrap();
    if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = fty.kind() {
        let rc = def.fn_sig().skip_binder().abi == Abi::RustCall;
        match Instance::resolve(def, &args) {
            Ok(i) => {
                let fr = fnref(i);
                if let InstanceKind::Virtual { .. } = i.kind {
                    (Callee::Virtual(def, args, fr), rc)
                } else {
                    (Callee::Fun(fr), rc)
                }
            }
            Err(_) => (Callee::Ptr(lower_op(func, locals)), rc),
        }
    } else {
        (Callee::Ptr(lower_op(func, locals)), false)
    }
}

fn lower(fr: Rc<FnRef>, b: Body) -> Func {
    let locals: Vec<LocalDecl> = b.locals().to_vec();
    let lc = &locals[..];
    let n = b.blocks.len();
    let mut blocks: Vec<Blk> = vec![];
    let mut mutref = vec![false; locals.len()];
    for bb in &b.blocks {
        let mut st = vec![];
        for s in &bb.statements {
            let k = match &s.kind {
                StatementKind::Assign(p, rv) => {
                    if let Rvalue::Ref(_, BorrowKind::Mut { .. }, q) | Rvalue::AddressOf(RawPtrKind::Mut, q) = rv {
                        if !q.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                            mutref[q.local] = true;
                        }
                    }
                    let r = lower_rv(rv, lc);
                    if let Rv::BoxAddr(q) = &r {
                        mutref[q.local] = true;
                    }
                    Some(St::Assign(lower_place(p, lc), r))
                }
                StatementKind::SetDiscriminant { place, variant_index } => Some(St::SetDiscr(lower_place(place, lc), variant_ix(*variant_index), place.ty(lc).unwrap())),
                StatementKind::StorageDead(l) => Some(St::Dead(*l)),
                StatementKind::StorageLive(_) => None,
                StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => Some(St::Assume(lower_op(o, lc))),
                StatementKind::Intrinsic(_) => Some(St::Other("copy_nonoverlapping".into())),
                _ => None,
            };
            if let Some(k) = k {
                st.push((k, s.source_info.span));
            }
        }
        let t = &bb.terminator;
        let tm = match &t.kind {
            TerminatorKind::Goto { target } => Tm::Goto(*target),
            TerminatorKind::SwitchInt { discr, targets } => Tm::Switch(lower_op(discr, lc), targets.branches().collect(), targets.otherwise(), ity(discr.ty(lc).unwrap())),
            TerminatorKind::Return => Tm::Ret,
            TerminatorKind::Unreachable => Tm::Unreach,
            TerminatorKind::Drop { place, target, .. } => Tm::Drop(lower_place(place, lc), *target),
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let (f, rc) = lower_call(func, lc);
                Tm::Call { f, args: args.iter().map(|a| lower_op(a, lc)).collect(), dest: lower_place(destination, lc), target: *target, rust_call: rc, ret_ty: destination.ty(lc).unwrap(), arg_tys: args.iter().map(|a| a.ty(lc).unwrap()).collect() }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (k, a, b) = match msg {
                    AssertMessage::BoundsCheck { len, index } => ("index", Some(lower_op(index, lc)), Some(lower_op(len, lc))),
                    AssertMessage::Overflow(op, x, y) => (
                        match op {
                            BinOp::Add => "add-overflow",
                            BinOp::Sub => "sub-overflow",
                            BinOp::Mul => "mul-overflow",
                            BinOp::Shl => "shl-overflow",
                            BinOp::Shr => "shr-overflow",
                            BinOp::Div => "div-overflow",
                            BinOp::Rem => "rem-overflow",
                            _ => "overflow",
                        },
                        Some(lower_op(x, lc)),
                        Some(lower_op(y, lc)),
                    ),
                    AssertMessage::OverflowNeg(x) => ("neg-overflow", Some(lower_op(x, lc)), None),
                    AssertMessage::DivisionByZero(x) => ("div-zero", Some(lower_op(x, lc)), None),
                    AssertMessage::RemainderByZero(x) => ("rem-zero", Some(lower_op(x, lc)), None),
                    _ => ("other", None, None),
                };
                Tm::Assert { cond: lower_op(cond, lc), expected: *expected, kind: k, a, b, target: *target }
            }
            TerminatorKind::Resume | TerminatorKind::Abort => Tm::Unreach,
            TerminatorKind::InlineAsm { .. } => Tm::Other("asm".into()),
        };
        blocks.push(Blk { st, tm: (tm, t.source_info.span), rpo: usize::MAX, lp: None, live: vec![], preds: 0, cleanup: false });
    }
    // reverse post order over normal edges
    let succ: Vec<Vec<usize>> = blocks.iter().map(|b| succs(&b.tm.0)).collect();
    let mut order = vec![];
    let mut seen = vec![false; n];
    let mut stack: Vec<(usize, usize)> = vec![(0, 0)];
    seen[0] = true;
    while let Some((x, i)) = stack.pop() {
        if i < succ[x].len() {
            stack.push((x, i + 1));
            let y = succ[x][i];
            if !seen[y] {
                seen[y] = true;
                stack.push((y, 0));
            }
        } else {
            order.push(x);
        }
    }
    order.reverse();
    for (i, x) in order.iter().enumerate() {
        blocks[*x].rpo = i;
    }
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
    for &x in &order {
        for &y in &succ[x] {
            preds[y].push(x);
        }
    }
    for x in 0..n {
        blocks[x].preds = preds[x].len();
        blocks[x].cleanup = !seen[x];
    }
    // dominators (iterative)
    let mut idom = vec![usize::MAX; n];
    idom[0] = 0;
    let mut ch = true;
    while ch {
        ch = false;
        for &x in order.iter().skip(1) {
            let mut nd = usize::MAX;
            for &p in &preds[x] {
                if idom[p] == usize::MAX {
                    continue;
                }
                if nd == usize::MAX {
                    nd = p;
                } else {
                    let (mut a, mut c) = (nd, p);
                    while a != c {
                        while blocks[a].rpo > blocks[c].rpo {
                            a = idom[a];
                        }
                        while blocks[c].rpo > blocks[a].rpo {
                            c = idom[c];
                        }
                    }
                    nd = a;
                }
            }
            if idom[x] != nd {
                idom[x] = nd;
                ch = true;
            }
        }
    }
    let dom = |a: usize, mut b: usize| loop {
        if a == b {
            return true;
        }
        if b == 0 {
            return false;
        }
        b = idom[b];
    };
    // natural loops, merged by header
    let mut loops: Vec<Loop> = vec![];
    for &x in &order {
        for &h in &succ[x] {
            if dom(h, x) {
                let li = match loops.iter().position(|l| l.header == h) {
                    Some(i) => i,
                    None => {
                        let mut body = vec![false; n];
                        body[h] = true;
                        loops.push(Loop { header: h, body, parent: None, depth: 0 });
                        loops.len() - 1
                    }
                };
                let mut st = vec![x];
                while let Some(y) = st.pop() {
                    if !loops[li].body[y] {
                        loops[li].body[y] = true;
                        for &p in &preds[y] {
                            st.push(p);
                        }
                    }
                }
            }
        }
    }
    let size = |l: &Loop| l.body.iter().filter(|x| **x).count();
    for i in 0..loops.len() {
        let mut best: Option<usize> = None;
        for j in 0..loops.len() {
            if i != j && loops[j].body[loops[i].header] && size(&loops[j]) > size(&loops[i]) {
                if best.map(|b| size(&loops[j]) < size(&loops[b])).unwrap_or(true) {
                    best = Some(j);
                }
            }
        }
        loops[i].parent = best;
    }
    for i in 0..loops.len() {
        let mut d = 0;
        let mut p = loops[i].parent;
        while let Some(q) = p {
            d += 1;
            p = loops[q].parent;
        }
        loops[i].depth = d;
    }
    for x in 0..n {
        let mut best: Option<usize> = None;
        for (i, l) in loops.iter().enumerate() {
            if l.body[x] && best.map(|b| l.depth > loops[b].depth).unwrap_or(true) {
                best = Some(i);
            }
        }
        blocks[x].lp = best;
    }
    // liveness
    let nl = locals.len();
    let words = (nl + 63) / 64;
    let mut uses: Vec<(Vec<u64>, Vec<u64>)> = vec![];
    for b in &blocks {
        let mut us = vec![0u64; words];
        let mut df = vec![0u64; words];
        let mut use_ = |l: usize, df: &Vec<u64>| {
            if df[l / 64] >> (l % 64) & 1 == 0 {
                us[l / 64] |= 1 << (l % 64);
            }
        };
        fn pl_uses(p: &Pl, out: &mut Vec<usize>) {
            out.push(p.local);
            for e in p.proj.iter() {
                if let Pj::Index(l) = e {
                    out.push(*l);
                }
            }
        }
        fn op_uses(o: &Op, out: &mut Vec<usize>) {
            if let Op::Copy(p) | Op::Move(p) = o {
                pl_uses(p, out);
            }
        }
        for (s, _) in &b.st {
            let mut u = vec![];
            let mut d = None;
            match s {
                St::Assign(p, rv) => {
                    rv_ops(rv, &mut |o| op_uses(o, &mut u), &mut vec![]);
                    match rv {
                        Rv::Ref(_, q) | Rv::RawPtr(_, q) | Rv::BoxAddr(q) | Rv::Discr(q, _) | Rv::Len(q) => pl_uses(q, &mut u),
                        _ => {}
                    }
                    if p.proj.is_empty() {
                        d = Some(p.local);
                    } else {
                        pl_uses(p, &mut u);
                    }
                }
                St::SetDiscr(p, _, _) => pl_uses(p, &mut u),
                St::Dead(l) => d = Some(*l),
                St::Assume(o) => op_uses(o, &mut u),
                St::Other(_) => {}
            }
            for l in u {
                use_(l, &df);
            }
            if let Some(l) = d {
                df[l / 64] |= 1 << (l % 64);
            }
        }
        let mut u = vec![];
        let mut d = None;
        match &b.tm.0 {
            Tm::Switch(o, ..) => op_uses(o, &mut u),
            Tm::Ret => u.push(0),
            Tm::Drop(p, _) => {
                let _ = p;
            }
            Tm::Call { f, args, dest, .. } => {
                if let Callee::Ptr(o) = f {
                    op_uses(o, &mut u);
                }
                for a in args {
                    op_uses(a, &mut u);
                }
                if dest.proj.is_empty() {
                    d = Some(dest.local);
                } else {
                    pl_uses(dest, &mut u);
                }
            }
            Tm::Assert { cond, a, b, .. } => {
                op_uses(cond, &mut u);
                for x in [a, b] {
                    if let Some(x) = x {
                        op_uses(x, &mut u);
                    }
                }
            }
            _ => {}
        }
        for l in u {
            use_(l, &df);
        }
        if let Some(l) = d {
            df[l / 64] |= 1 << (l % 64);
        }
        uses.push((us, df));
    }
    let mut live: Vec<Vec<u64>> = vec![vec![0; words]; n];
    let mut ch = true;
    while ch {
        ch = false;
        for &x in order.iter().rev() {
            let mut out = vec![0u64; words];
            for &y in &succ[x] {
                for w in 0..words {
                    out[w] |= live[y][w];
                }
            }
            for w in 0..words {
                let v = uses[x].0[w] | (out[w] & !uses[x].1[w]);
                if v != live[x][w] {
                    live[x][w] = v;
                    ch = true;
                }
            }
        }
    }
    for x in 0..n {
        for l in 0..nl {
            if mutref[l] {
                live[x][l / 64] |= 1 << (l % 64);
            }
        }
        blocks[x].live = std::mem::take(&mut live[x]);
    }
    let local = fr.krate == "bardecoder";
    let mut names = vec![None; nl];
    for v in &b.var_debug_info {
        if let Some(l) = v.local() {
            names[l] = Some(v.name.to_string());
        }
    }
    Func { nargs: b.arg_locals().len(), tys: locals.iter().map(|l| l.ty).collect(), blocks, loops, spread: b.spread_arg(), span: b.span, local, mutref, names, fr }
}

pub fn rv_ops(rv: &Rv, f: &mut dyn FnMut(&Op), _x: &mut Vec<usize>) {
    match rv {
        Rv::Use(o) | Rv::Un(_, o, _) | Rv::Cast(_, o, _, _) | Rv::Repeat(o, _) => f(o),
        Rv::Bin(_, a, b, _) | Rv::Chk(_, a, b, _) => {
            f(a);
            f(b)
        }
        Rv::Agg(_, os, _) => {
            for o in os {
                f(o)
            }
        }
        _ => {}
    }
}

pub fn succs(t: &Tm) -> Vec<usize> {
    match t {
        Tm::Goto(x) | Tm::Drop(_, x) | Tm::Assert { target: x, .. } => vec![*x],
        Tm::Switch(_, b, o, _) => {
            let mut v: Vec<usize> = b.iter().map(|x| x.1).collect();
            v.push(*o);
            v.dedup();
            v
        }
        Tm::Call { target, .. } => target.iter().cloned().collect(),
        _ => vec![],
    }
}

pub fn is_live(b: &Blk, l: usize) -> bool {
    b.live[l / 64] >> (l % 64) & 1 == 1
}

/// source location text for reports
pub fn at(sp: Span) -> String {
    let l = sp.get_lines();
    let f = sp.get_filename().to_string();
    let f = f.rsplit("/repo/").next().unwrap_or(&f).to_string();
    format!("{}:{}", f, l.start_line)
}
