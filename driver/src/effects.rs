//! C04: no hidden input. Taint analysis over the MIR of everything the public entry points reach:
//! sources are reads of state or surroundings, sinks are decisions and results.
use crate::ir::{fnref, FnRef};
use crate::roots::all_roots;
use crate::scen::Rep;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

struct Fun {
    fr: Rc<FnRef>,
    body: Body,
}
fn ours(k: &str) -> bool {
    k == "bardecoder"
}
/// every type in a type
fn parts(t: Ty, seen: &mut HashSet<Ty>, out: &mut Vec<Ty>) {
    if !seen.insert(t) {
        return;
    }
    out.push(t);
    let mut args = |a: &GenericArgs, seen: &mut HashSet<Ty>, out: &mut Vec<Ty>| {
        for x in &a.0 {
            if let GenericArgKind::Type(t) = x {
                parts(*t, seen, out);
            }
        }
    };
    if let TyKind::RigidTy(r) = t.kind() {
        match r {
            RigidTy::Adt(_, a) | RigidTy::FnDef(_, a) | RigidTy::Closure(_, a) => args(&a, seen, out),
            RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) | RigidTy::Slice(t) | RigidTy::Array(t, _) => parts(t, seen, out),
            RigidTy::Tuple(ts) => ts.iter().for_each(|t| parts(*t, seen, out)),
            _ => {}
        }
    }
}
/// functions and closures a body mentions in its types and constants
fn mentions(b: &Body) -> Vec<Instance> {
    let mut seen = HashSet::new();
    let mut ts = vec![];
    for l in b.locals() {
        parts(l.ty, &mut seen, &mut ts);
    }
    struct V<'a>(&'a mut HashSet<Ty>, &'a mut Vec<Ty>);
    impl<'a> MirVisitor for V<'a> {
        fn visit_const_operand(&mut self, c: &ConstOperand, _: visit::Location) {
            parts(c.const_.ty(), self.0, self.1);
        }
    }
    V(&mut seen, &mut ts).visit_body(b);
    ts.iter()
        .filter_map(|t| match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => Instance::resolve(d, &a).ok(),
            TyKind::RigidTy(RigidTy::Closure(d, a)) => Instance::resolve_closure(d, &a, ClosureKind::FnMut).ok(),
            _ => None,
        })
        .collect()
}
/// interior mutability that stays mutable
fn mutable_type(t: Ty, depth: u32, seen: &mut HashSet<Ty>) -> bool {
    if depth > 12 || !seen.insert(t) {
        return false;
    }
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) => {
            let n = d.name().to_string();
            if n.ends_with("::UnsafeCell") || n == "UnsafeCell" {
                return true;
            }
            if once(&n) {
                return false;
            }
            // shared owners
            if ["::Rc", "::Arc", "::Box", "::Vec"].iter().any(|x| n.ends_with(x)) {
                return a.0.iter().any(|g| matches!(g, GenericArgKind::Type(t) if mutable_type(*t, depth + 1, seen)));
            }
            if d.kind().is_union() {
                return false;
            }
            d.variants().iter().any(|v| v.fields().iter().any(|f| mutable_type(f.ty_with_args(&a), depth + 1, seen)))
        }
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::Slice(t)) | TyKind::RigidTy(RigidTy::Array(t, _)) => mutable_type(t, depth + 1, seen),
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().any(|t| mutable_type(*t, depth + 1, seen)),
        _ => false,
    }
}
/// this crate's types inside of a type
fn fields(t: Ty, seen: &mut HashSet<Ty>, out: &mut Vec<String>) {
    let mut ts = vec![];
    let mut fresh = HashSet::new();
    parts(t, &mut fresh, &mut ts);
    for t in ts {
        if !seen.insert(t) {
            continue;
        }
        if let TyKind::RigidTy(RigidTy::Adt(d, a)) = t.kind() {
            if d.krate().name == "bardecoder" {
                out.push(d.name().to_string());
                for v in d.variants() {
                    for f in v.fields() {
                        fields(f.ty_with_args(&a), seen, out);
                    }
                }
            }
        }
    }
}
/// a place inside of a component that may change from call to call
fn kept(p: &Place, lc: &[LocalDecl], keep: &HashSet<String>) -> Option<String> {
    for (i, e) in p.projection.iter().enumerate() {
        if let ProjectionElem::Field(_, ft) = e {
            let n = Place { local: p.local, projection: p.projection[..i].to_vec() }.ty(lc).map(adt_name).unwrap_or_default();
            if keep.contains(&n) && mutable_type(*ft, 0, &mut HashSet::new()) {
                return Some(format!("state inside of {}", n));
            }
        }
    }
    None
}
/// set once, by a function of nothing
fn once(n: &str) -> bool {
    ["LazyLock", "LazyCell", "sync::Once", "::Lazy"].iter().any(|x| n.ends_with(x))
}
fn once_cell(n: &str) -> bool {
    ["OnceLock", "OnceCell", "OnceBox"].iter().any(|x| n.ends_with(x))
}
fn adt_name(t: Ty) -> String {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => d.name().to_string(),
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => adt_name(t),
        _ => String::new(),
    }
}
/// a constant that gives access to state outliving the call
fn state_const(c: &ConstOperand) -> Option<String> {
    let ConstantKind::Allocated(a) = c.const_.kind() else { return None };
    for (_, p) in &a.provenance.ptrs {
        if let GlobalAlloc::Static(s) = GlobalAlloc::from(p.0) {
            let t = s.ty();
            let n = s.name().to_string();
            if once(&adt_name(t)) || once_cell(&adt_name(t)) {
                continue;
            }
            let raw = matches!(c.const_.ty().kind(), TyKind::RigidTy(RigidTy::RawPtr(_, Mutability::Mut)));
            if raw || mutable_type(t, 0, &mut HashSet::new()) {
                return Some(format!("the static {}", n));
            }
        }
    }
    None
}
/// a call that reads state or surroundings
fn source_call(p: &str, arg: &[Ty]) -> Option<String> {
    let std = |x: &str| p.starts_with(&format!("std::{}", x)) || p.starts_with(&format!("core::{}", x)) || p.contains(&format!("<std::{}", x));
    for s in ["time::Instant::now", "time::SystemTime::now", "env::", "process::", "thread::current", "fs::", "net::", "io::stdin", "thread::LocalKey", "thread::local::LocalKey", "thread::available_parallelism", "hash::RandomState", "collections::hash_map::RandomState", "hash::random::RandomState"] {
        if std(s) || p.contains(&format!("{}", s)) && p.contains("RandomState") {
            return Some(p.to_string());
        }
    }
    if p.starts_with("rand::") || p.starts_with("getrandom::") || p.contains("Instant::elapsed") || p.contains("SystemTime::elapsed") {
        return Some(p.to_string());
    }
    let m = p.rsplit("::").next().unwrap_or("");
    let hashed = arg.first().map_or(false, |t| {
        let n = adt_name(*t);
        (n.ends_with("HashMap") || n.ends_with("HashSet")) && format!("{:?}", t).len() > 0
    });
    if hashed && ["iter", "iter_mut", "keys", "values", "values_mut", "drain", "into_iter", "into_keys", "into_values"].contains(&m) {
        return Some(format!("order of a hash table ({})", m));
    }
    if once_cell(&arg.first().map(|t| adt_name(*t)).unwrap_or_default()) {
        if m == "get_or_init" || m == "get_or_try_init" {
            // a function of nothing
            let pure = arg.get(1).map_or(false, |t| match t.kind() {
                TyKind::RigidTy(RigidTy::FnDef(..)) => true,
                TyKind::RigidTy(RigidTy::Closure(..)) => crate::ir::type_size(*t) == Some(0),
                _ => false,
            });
            return if pure { None } else { Some(format!("{} with a captured value", p)) };
        }
        if m == "set" || m == "get" || m == "get_mut" || m == "take" {
            return Some(p.to_string());
        }
    }
    None
}
/// results of these calls depend on no order of their input
fn orderless(p: &str) -> bool {
    let m = p.rsplit("::").next().unwrap_or("");
    ["sum", "max", "min", "all", "any", "count", "len", "max_by_key", "min_by_key", "contains", "fold"].contains(&m) || p.contains("BTree")
}
fn absorbs(p: &str) -> bool {
    p.starts_with("log::") || p.contains("std::mem::drop") || p.contains("core::mem::drop")
}

#[derive(Default, Clone, PartialEq)]
struct Sum {
    /// the result depends on a source
    result: Option<String>,
    /// what these parameters point to is given a value that depends on a source
    outs: BTreeMap<usize, String>,
    /// parameters that carry a source
    params: BTreeMap<usize, String>,
}
/// the functions of the crate that the public entry points reach, and those of other crates they call
fn reached() -> (Vec<Fun>, BTreeSet<String>) {
    let mut todo: Vec<Rc<FnRef>> = all_roots();
    let mut seen: HashSet<usize> = todo.iter().map(|f| f.id).collect();
    let mut funs: Vec<Fun> = vec![];
    let mut called: BTreeSet<String> = BTreeSet::new();
    while let Some(fr) = todo.pop() {
        if !fr.inst.has_body() {
            continue;
        }
        let Some(body) = fr.inst.body() else { continue };
        for i in mentions(&body) {
            let g = fnref(i);
            if (ours(&g.krate) || g.krate == "bvroots") && seen.insert(g.id) {
                todo.push(g.clone());
            }
            if !ours(&g.krate) && ours(&fr.krate) {
                called.insert(g.path.clone());
            }
        }
        if ours(&fr.krate) {
            funs.push(Fun { fr, body });
        }
    }
    (funs, called)
}
pub fn safe(rep: &mut Rep, prop: &str) {
    let (funs, called) = reached();
    rep.count(prop, "functions reached from the entry points", funs.len() as u64);
    rep.count(prop, "functions of other crates called", called.len() as u64);
    for f in &funs {
        rep.item(prop, &f.fr.path);
    }
}
pub fn run(rep: &mut Rep, prop: &str) {
    let (funs, called) = reached();
    let by: HashMap<usize, usize> = funs.iter().enumerate().map(|(i, f)| (f.fr.id, i)).collect();
    let mut sums: Vec<Sum> = vec![Sum::default(); funs.len()];
    // components live longer than a call
    let mut keep: HashSet<String> = HashSet::new();
    for f in &funs {
        let c = ["prepare::Prepare", "detect::Detect", "extract::Extract", "decode::Decode"].iter().any(|t| f.fr.path.contains(&format!(" as bardecoder::{}", t))) || f.fr.path.starts_with("bardecoder::Decoder::");
        if let (true, Some(l)) = (c, f.body.arg_locals().first()) {
            let mut ts = vec![];
            fields(l.ty, &mut HashSet::new(), &mut ts);
            keep.extend(ts);
        }
    }
    let mut viol: BTreeMap<(String, String), String> = BTreeMap::new();
    let mut has_caller: HashSet<usize> = HashSet::new();
    let (mut statements, mut sites) = (0u64, 0u64);
    loop {
        let before = sums.clone();
        viol.clear();
        statements = 0;
        sites = 0;
        for i in 0..funs.len() {
            let s = one(&funs, &by, &sums, &keep, i, &mut viol, &mut has_caller, &mut statements, &mut sites);
            for (callee, param, why) in s.1 {
                sums[callee].params.entry(param).or_insert(why);
            }
            if sums[i].result.is_none() {
                sums[i].result = s.0;
            }
            for (p, w) in s.2 {
                sums[i].outs.entry(p).or_insert(w);
            }
        }
        if sums == before {
            break;
        }
    }
    for (i, f) in funs.iter().enumerate() {
        if let (Some(w), false) = (&sums[i].result, has_caller.contains(&i)) {
            viol.entry((f.fr.path.clone(), w.clone())).or_insert("the result".into());
        }
    }
    for ((f, w), how) in &viol {
        rep.viol(prop, &format!("{} depends on {}", f, w), &format!("{} in {} depends on {}", how, f, w));
    }
    rep.count(prop, "functions analysed", funs.len() as u64);
    rep.count(prop, "statements and calls analysed", statements + sites);
    rep.count(prop, "functions of other crates called", called.len() as u64);
    for f in &funs {
        rep.item(prop, &f.fr.path);
    }
}
type Flow = (Option<String>, Vec<(usize, usize, String)>, Vec<(usize, String)>);
fn one(funs: &[Fun], by: &HashMap<usize, usize>, sums: &[Sum], keep: &HashSet<String>, me: usize, viol: &mut BTreeMap<(String, String), String>, has_caller: &mut HashSet<usize>, statements: &mut u64, sites: &mut u64) -> Flow {
    let b = &funs[me].body;
    let name = funs[me].fr.path.clone();
    let lc = b.locals();
    let n = lc.len();
    let mut taint: Vec<Option<String>> = vec![None; n];
    for (p, w) in &sums[me].params {
        if *p < n {
            taint[*p] = Some(w.clone());
        }
    }
    // what a mutable reference may point to
    let mut to: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    let mut sorts = false;
    for bb in &b.blocks {
        if let TerminatorKind::Call { func, .. } = &bb.terminator.kind {
            if let Some(g) = callee(func, lc) {
                sorts |= g.path.rsplit("::").next().map_or(false, |m| m.starts_with("sort"));
            }
        }
    }
    let mut flows = vec![];
    loop {
        let mut changed = false;
        macro_rules! set {
            ($l:expr, $w:expr) => {
                if taint[$l].is_none() {
                    taint[$l] = Some($w.to_string());
                    changed = true;
                }
            };
        }
        macro_rules! to {
            ($l:expr, $add:expr) => {
                for x in $add {
                    changed |= to[$l].insert(x);
                }
            };
        }
        for (bi, bb) in b.blocks.iter().enumerate() {
            for (si, s) in bb.statements.iter().enumerate() {
                if let StatementKind::Assign(p, rv) = &s.kind {
                    let mut w = None;
                    struct V<'a>(&'a Vec<Option<String>>, &'a mut Option<String>, &'a [LocalDecl], &'a HashSet<String>);
                    impl<'a> MirVisitor for V<'a> {
                        fn visit_place(&mut self, p: &Place, _: visit::PlaceContext, _: visit::Location) {
                            if let Some(x) = kept(p, self.2, self.3) {
                                self.1.get_or_insert(x);
                            }
                            for l in std::iter::once(p.local).chain(p.projection.iter().filter_map(|e| match e {
                                ProjectionElem::Index(l) => Some(*l),
                                _ => None,
                            })) {
                                if let Some(x) = &self.0[l] {
                                    self.1.get_or_insert(x.clone());
                                }
                            }
                        }
                        fn visit_const_operand(&mut self, c: &ConstOperand, _: visit::Location) {
                            if let Some(x) = state_const(c) {
                                self.1.get_or_insert(x);
                            }
                        }
                    }
                    let mut v = V(&taint, &mut w, lc, keep);
                    v.visit_rvalue(rv, visit::statement_location(b, &bi, si));
                    if let Rvalue::Aggregate(_, ops) = rv {
                        for o in ops {
                            if let Operand::Move(q) | Operand::Copy(q) = o {
                                let add: Vec<usize> = to[q.local].iter().copied().collect();
                                to!(p.local, add);
                            }
                        }
                    }
                    match rv {
                        Rvalue::ThreadLocalRef(d) => w = Some(format!("thread-local {}", d.name())),
                        Rvalue::Cast(CastKind::PointerExposeAddress, ..) => w = Some("an address".to_string()),
                        Rvalue::Aggregate(AggregateKind::Closure(d, a), _) => {
                            if let Ok(i) = Instance::resolve_closure(*d, a, ClosureKind::FnMut) {
                                if let Some(k) = by.get(&fnref(i).id) {
                                    has_caller.insert(*k);
                                    if let Some(x) = sums[*k].result.as_ref().or(sums[*k].outs.get(&1)) {
                                        w.get_or_insert(x.clone());
                                    }
                                    if let Some(x) = w.clone() {
                                        flows.push((*k, 1, x));
                                    }
                                    if let Some(x) = sums[*k].outs.get(&1).cloned() {
                                        for l in to[p.local].clone() {
                                            set!(l, x);
                                        }
                                    }
                                }
                            }
                        }
                        Rvalue::Ref(_, BorrowKind::Mut { .. }, q) | Rvalue::AddressOf(RawPtrKind::Mut, q) => {
                            let mut add: Vec<usize> = vec![q.local];
                            if q.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                                add.extend(to[q.local].iter());
                            }
                            to!(p.local, add);
                        }
                        Rvalue::Use(Operand::Move(q) | Operand::Copy(q), _) | Rvalue::Cast(_, Operand::Move(q) | Operand::Copy(q), _) | Rvalue::Reborrow(_, _, q) => {
                            let add: Vec<usize> = to[q.local].iter().copied().collect();
                            to!(p.local, add);
                        }
                        _ => {}
                    }
                    // sums and the like are the same in any order
                    if matches!(rv, Rvalue::BinaryOp(BinOp::Add | BinOp::Mul | BinOp::BitXor | BinOp::BitOr | BinOp::BitAnd, ..) | Rvalue::CheckedBinaryOp(BinOp::Add | BinOp::Mul, ..)) {
                        w = w.filter(|w| !w.starts_with("order of"));
                    }
                    if let Some(w) = w {
                        set!(p.local, w);
                        if p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                            for x in to[p.local].clone() {
                                set!(x, w);
                            }
                        }
                    }
                }
            }
            if let TerminatorKind::Call { func, args, destination, .. } = &bb.terminator.kind {
                let g = callee(func, lc);
                let path = g.as_ref().map(|g| g.path.clone()).unwrap_or_default();
                let tys: Vec<Ty> = args.iter().filter_map(|a| a.ty(lc).ok()).collect();
                let order = |x: &String| x.starts_with("order of");
                let mut w = if ours(&g.as_ref().map(|g| g.krate.clone()).unwrap_or_default()) { None } else { source_call(&path, &tys) };
                if w.as_ref().map_or(false, order) && sorts {
                    w = None;
                }
                let k = g.as_ref().and_then(|g| by.get(&g.id).copied());
                if let Some(k) = k {
                    has_caller.insert(k);
                    if let Some(x) = &sums[k].result {
                        w.get_or_insert(x.clone());
                    }
                }
                let mut at = None;
                for (j, a) in args.iter().enumerate() {
                    // functions given as values
                    if let Some(TyKind::RigidTy(RigidTy::FnDef(d, ga))) = a.ty(lc).ok().map(|t| t.kind()) {
                        if let Some(z) = Instance::resolve(d, &ga).ok().and_then(|i| by.get(&fnref(i).id).copied()) {
                            has_caller.insert(z);
                            if let Some(x) = &sums[z].result {
                                at.get_or_insert(x.clone());
                            }
                        }
                    }
                    if let (Some(k), Operand::Move(q) | Operand::Copy(q)) = (k, a) {
                        if let Some(x) = sums[k].outs.get(&(j + 1)).cloned() {
                            set!(q.local, x);
                            for l in to[q.local].clone() {
                                set!(l, x);
                            }
                        }
                    }
                    let x = match a {
                        Operand::Move(q) | Operand::Copy(q) => taint[q.local].clone().or_else(|| kept(q, lc, keep)),
                        Operand::Constant(c) => state_const(c),
                        _ => None,
                    };
                    if let Some(x) = x {
                        if let Some(k) = k {
                            flows.push((k, j + 1, x.clone()));
                        }
                        at.get_or_insert(x);
                    }
                }
                // a function of this crate: by its own summary
                if k.is_none() && !absorbs(&path) {
                    if let Some(x) = &at {
                        let ty = destination.ty(lc).map(adt_name).unwrap_or_default();
                        let unordered = orderless(&path) || ["HashMap", "HashSet", "BTreeMap", "BTreeSet"].iter().any(|n| ty.ends_with(n));
                        if !(order(x) && unordered) {
                            w.get_or_insert(x.clone());
                        }
                    }
                }
                if let Some(w) = w {
                    set!(destination.local, w);
                    if !absorbs(&path) {
                        for a in args {
                            if let Operand::Move(q) | Operand::Copy(q) = a {
                                for x in to[q.local].clone() {
                                    set!(x, w);
                                }
                            }
                        }
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }
    for bb in &b.blocks {
        *statements += bb.statements.len() as u64;
        let of = |o: &Operand| match o {
            Operand::Move(q) | Operand::Copy(q) => taint[q.local].clone(),
            _ => None,
        };
        match &bb.terminator.kind {
            TerminatorKind::SwitchInt { discr, .. } => {
                // what is decided about every element is the same in any order
                if let Some(w) = of(discr).filter(|w| !w.starts_with("order of")) {
                    viol.entry((name.clone(), w)).or_insert("a decision".into());
                }
            }
            TerminatorKind::Assert { cond, .. } => {
                if let Some(w) = of(cond).filter(|w| !w.starts_with("order of")) {
                    viol.entry((name.clone(), w)).or_insert("an assertion".into());
                }
            }
            TerminatorKind::Call { .. } => *sites += 1,
            _ => {}
        }
    }
    let outs = (1..=b.arg_locals().len()).filter(|l| !sums[me].params.contains_key(l)).filter_map(|l| taint[l].clone().map(|w| (l, w))).collect();
    (taint[0].clone(), flows, outs)
}
fn callee(f: &Operand, lc: &[LocalDecl]) -> Option<Rc<FnRef>> {
    match f.ty(lc).ok()?.kind() {
        TyKind::RigidTy(RigidTy::FnDef(d, a)) => Instance::resolve(d, &a).ok().map(fnref),
        _ => None,
    }
}
