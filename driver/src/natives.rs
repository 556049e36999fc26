//! Models of the library routines at the boundary of the analysed program. Everything not
//! listed here is analysed through its own MIR.
use crate::flt::Flt;
use crate::interp::*;
use crate::ir::*;
use crate::ops::{self, Tr};
use crate::term::*;
use crate::val::*;
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::rc::Rc;

pub type NR = Result<Outs, (State, Vec<Val>)>;

pub const MARK_PIXFN: u32 = 77;
pub const MARK_DRAWING: u32 = 80;
pub const MARK_DYNIMG: u32 = 78;
pub const MARK_PIXITER: u32 = 79;

fn deref(it: &Interp, st: &State, v: &Val) -> Val {
    match v {
        Val::Ref(r) => it.read_ref(st, r),
        Val::Sh(x) => x.as_ref().clone(),
        x => x.clone(),
    }
}
pub fn full(it: &Interp, st: &State, v: &Val) -> Val {
    let mut v = v.clone();
    for _ in 0..6 {
        match &v {
            Val::Ref(_) | Val::Sh(_) => v = deref(it, st, &v),
            Val::Bx(x) => v = x.as_ref().clone(),
            _ => break,
        }
    }
    v
}
/// innermost mutable place behind (nested) references
fn place(it: &Interp, st: &State, v: &Val) -> Option<RefV> {
    let mut v = v.clone();
    for _ in 0..6 {
        match &v {
            Val::Ref(r) => match it.read_ref(st, r) {
                x @ Val::Ref(_) => v = x,
                _ => return Some(r.as_ref().clone()),
            },
            _ => return None,
        }
    }
    None
}
fn setv(it: &Interp, st: &mut State, r: &RefV, v: Val) {
    it.write_ref(st, r, v)
}
fn fork(st: State, t: Tr) -> (Option<State>, Option<State>) {
    match st.decide(t) {
        Some(true) => (Some(st), None),
        Some(false) => (None, Some(st)),
        None => {
            let mut a = st.clone();
            let mut b = st;
            let x = a.assume(t);
            let y = b.assume(t.not());
            (x.then_some(a), y.then_some(b))
        }
    }
}
fn int(v: &Val) -> Option<Int> {
    match v {
        Val::I(i) => Some(i.clone()),
        Val::Agg(a) if a.len() == 1 => int(&a[0]),
        _ => None,
    }
}
fn c1(st: State, v: Val) -> NR {
    Ok(vec![(st, v)])
}
fn step(r: &RefV, s: Step) -> RefV {
    let mut r = r.clone();
    r.path.push(s);
    r
}
fn ix_step(i: &Int) -> Step {
    match i {
        Int::C(c) => Step::I(*c as usize),
        i => Step::S(i.clone()),
    }
}
fn lt(a: &Int, b: &Int) -> Tr {
    ops::ge(a, b).not()
}
/// a run-time check made by library code on behalf of the program
pub fn check(it: &mut Interp, st: &mut State, t: Tr, kind: &str, loss: u8, detail: String) -> bool {
    let d = st.decide(t);
    let f = st.fr.last().unwrap().f.clone();
    let at = it.stack.last().cloned().unwrap_or_default();
    it.obligation(st, &f, at, kind, d, loss, detail);
    d != Some(false) && st.assume(t)
}
fn fail(it: &mut Interp, st: &State, kind: &str, loss: u8, detail: String) {
    let f = st.fr.last().unwrap().f.clone();
    let at = it.stack.last().cloned().unwrap_or_default();
    it.obligation(st, &f, at, kind, Some(false), loss, detail);
}
fn ty_arg(a: &GenericArgs, n: usize) -> Option<Ty> {
    a.0.iter()
        .filter_map(|x| match x {
            GenericArgKind::Type(t) => Some(*t),
            _ => None,
        })
        .nth(n)
}
fn adt_name(t: Ty) -> String {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => d.name().to_string(),
        _ => String::new(),
    }
}
fn strip(t: Ty) -> Ty {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) => strip(t),
        _ => t,
    }
}
pub fn stub(name: &str, tys: Vec<Ty>) -> Option<Rc<FnRef>> {
    for i in rustc_public::all_local_items() {
        if i.name().to_string().rsplit("::").next() == Some(name) {
            if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = rustc_public::crate_def::CrateDefType::ty(&i).kind() {
                return Instance::resolve(d, &GenericArgs(tys.into_iter().map(GenericArgKind::Type).collect())).ok().map(fnref);
            }
        }
    }
    None
}
/// the default body of the trait method that `fr` implements
fn default_method(fr: &Rc<FnRef>) -> Option<Rc<FnRef>> {
    use rustc_middle::ty;
    use rustc_public::rustc_internal::{internal, stable};
    ty::tls::with(|tcx| {
        let inst = internal(tcx, fr.inst);
        let id = inst.def_id();
        let ai = tcx.opt_associated_item(id)?;
        let tid = ai.trait_item_def_id()?;
        if tid == id {
            return None;
        }
        let imp = tcx.parent(id);
        let tr = tcx.impl_trait_ref(imp).instantiate(tcx, inst.args).skip_norm_wip();
        let args = inst.args.rebase_onto(tcx, imp, tr.args);
        if !tcx.is_mir_available(tid) {
            return None;
        }
        let args = tcx.normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(args));
        let i = ty::Instance::new_raw(tid, args);
        Some(fnref(stable(i)))
    })
}
fn seq_iter(v: Val, by: u8) -> Option<Val> {
    match v {
        Val::Seq(s) => {
            let end = s.len();
            Some(Val::obj(Obj::It { seq: s, pos: Int::C(0), end, by }))
        }
        _ => None,
    }
}

// ---------- iterators ----------
fn it_item(st: &State, seq: &Rc<Seq>, i: &Int, by: u8) -> Val {
    let v = seq_get(st, seq, i);
    if by == 0 {
        Val::sh(v)
    } else {
        v
    }
}
fn iter_step(it: &mut Interp, mut st: State, selfv: &Val, back: bool) -> Option<Outs> {
    let r = place(it, &st, selfv)?;
    let cur = it.read_ref(&st, &r);
    let o = match &cur {
        Val::Obj(o) => o.clone(),
        _ => return None,
    };
    match o.as_ref() {
        Obj::It { seq, pos, end, by } => {
            let (a, b) = fork(st, lt(pos, end));
            let mut outs = vec![];
            if let Some(mut s) = a {
                let (item, np, ne) = if back {
                    let e = ops::sub(end, &Int::C(1));
                    (it_item(&s, seq, &e, *by), pos.clone(), e)
                } else {
                    (it_item(&s, seq, pos, *by), ops::add(pos, &Int::C(1)), end.clone())
                };
                setv(it, &mut s, &r, Val::obj(Obj::It { seq: seq.clone(), pos: np, end: ne, by: *by }));
                outs.push((s, Val::some(item)));
            }
            if let Some(mut s) = b {
                // an iterator never passes its end
                if s.assume(ops::eq(pos, end)) {
                    outs.push((s, Val::none()));
                }
            }
            Some(outs)
        }
        Obj::ItMut { r: tgt, pos, end } => {
            let (a, b) = fork(st, lt(pos, end));
            let mut outs = vec![];
            if let Some(mut s) = a {
                let (i, np, ne) = if back {
                    let e = ops::sub(end, &Int::C(1));
                    (e.clone(), pos.clone(), e)
                } else {
                    (pos.clone(), ops::add(pos, &Int::C(1)), end.clone())
                };
                setv(it, &mut s, &r, Val::obj(Obj::ItMut { r: tgt.clone(), pos: np, end: ne }));
                outs.push((s, Val::some(Val::Ref(Rc::new(step(tgt, ix_step(&i)))))));
            }
            if let Some(mut s) = b {
                // an iterator never passes its end
                if s.assume(ops::eq(pos, end)) {
                    outs.push((s, Val::none()));
                }
            }
            Some(outs)
        }
        Obj::Chars { p } => {
            if p.is_empty() {
                return Some(vec![(st, Val::none())]);
            }
            match &p[0] {
                Part::Lit(t) => {
                    let mut ch = t.chars();
                    let c = if back { None } else { ch.next() };
                    let c = c?;
                    let rest: String = ch.collect();
                    let mut q: Vec<Part> = vec![];
                    if !rest.is_empty() {
                        q.push(Part::Lit(rest));
                    }
                    q.extend(p[1..].iter().cloned());
                    setv(it, &mut st, &r, Val::obj(Obj::Chars { p: q }));
                    Some(vec![(st, Val::some(Val::c(c as i128)))])
                }
                Part::Chr(i) => {
                    let i = i.clone();
                    setv(it, &mut st, &r, Val::obj(Obj::Chars { p: p[1..].to_vec() }));
                    Some(vec![(st, Val::some(Val::I(i)))])
                }
                _ => {
                    let x = Val::some(Val::I(Int::of_atom(fresh_atom(0, 0x10FFFF, 2))));
                    Some(vec![(st.clone(), x), (st, Val::none())])
                }
            }
        }
        _ => None,
    }
}
fn range_step(it: &mut Interp, st: State, selfv: &Val, back: bool, incl: bool) -> Option<Outs> {
    let r = place(it, &st, selfv)?;
    let cur = it.read_ref(&st, &r);
    let f = match &cur {
        Val::Agg(a) => a.clone(),
        _ => return None,
    };
    let (a, b) = (int(&f[0])?, int(&f[1])?);
    if !incl {
        let (y, n) = fork(st, lt(&a, &b));
        let mut outs = vec![];
        if let Some(mut s) = y {
            let (item, na, nb) = if back {
                let e = ops::sub(&b, &Int::C(1));
                (e.clone(), a.clone(), e)
            } else {
                (a.clone(), ops::add(&a, &Int::C(1)), b.clone())
            };
            setv(it, &mut s, &r, Val::agg(vec![Val::I(na), Val::I(nb)]));
            outs.push((s, Val::some(Val::I(item))));
        }
        if let Some(s) = n {
            outs.push((s, Val::none()));
        }
        return Some(outs);
    }
    let done = int(&f[2])?;
    let mut outs = vec![];
    let (d, nd) = fork(st, ops::truth(&done));
    if let Some(s) = d {
        outs.push((s, Val::none()));
    }
    let Some(s) = nd else { return Some(outs) };
    let (le, gt) = fork(s, ops::ge(&b, &a));
    if let Some(s) = gt {
        outs.push((s, Val::none()));
    }
    let Some(s) = le else { return Some(outs) };
    let (l, e) = fork(s, lt(&a, &b));
    if let Some(mut s) = l {
        let (item, na, nb) = if back { (b.clone(), a.clone(), ops::sub(&b, &Int::C(1))) } else { (a.clone(), ops::add(&a, &Int::C(1)), b.clone()) };
        setv(it, &mut s, &r, Val::agg(vec![Val::I(na), Val::I(nb), Val::b(false)]));
        outs.push((s, Val::some(Val::I(item))));
    }
    if let Some(mut s) = e {
        setv(it, &mut s, &r, Val::agg(vec![Val::I(a.clone()), Val::I(b.clone()), Val::b(true)]));
        outs.push((s, Val::some(Val::I(if back { b } else { a }))));
    }
    Some(outs)
}

// ---------- indexing ----------
enum Ix {
    One(Int),
    /// start, end (exclusive); None = 0 / len
    Rg(Option<Int>, Option<Int>),
}
fn index_kind(v: &Val, t: Ty) -> Option<Ix> {
    if let TyKind::RigidTy(RigidTy::Uint(_)) = t.kind() {
        return Some(Ix::One(int(v)?));
    }
    let n = adt_name(t);
    let f = |i: usize| match v {
        Val::Agg(a) => a.get(i).and_then(int),
        _ => None,
    };
    if n.ends_with("RangeFull") {
        Some(Ix::Rg(None, None))
    } else if n.ends_with("RangeFrom") {
        Some(Ix::Rg(Some(f(0)?), None))
    } else if n.ends_with("RangeToInclusive") {
        Some(Ix::Rg(None, Some(ops::add(&f(0)?, &Int::C(1)))))
    } else if n.ends_with("RangeTo") {
        Some(Ix::Rg(None, Some(f(0)?)))
    } else if n.ends_with("RangeInclusive") {
        Some(Ix::Rg(Some(f(0)?), Some(ops::add(&f(1)?, &Int::C(1)))))
    } else if n.ends_with("Range") {
        Some(Ix::Rg(Some(f(0)?), Some(f(1)?)))
    } else {
        None
    }
}
fn show(st: &State, i: &Int) -> String {
    let b = st.bounds(i);
    if b.0 == b.1 {
        format!("{}", b.0)
    } else {
        format!("{} in [{}, {}]", show_int(i), b.0, b.1)
    }
}
fn do_index(it: &mut Interp, mut st: State, args: &[Val], it_ty: Ty, mutable: bool) -> Option<Outs> {
    let ix = index_kind(&args[1], it_ty)?;
    let s = match full(it, &st, &args[0]) {
        Val::Seq(s) => s,
        _ => return None,
    };
    let tgt = place(it, &st, &args[0]);
    if mutable && tgt.is_none() {
        return None;
    }
    let len = s.len();
    match ix {
        Ix::One(i) => {
            let d = format!("index {} length {}", show(&st, &i), show(&st, &len));
            if !check(it, &mut st, lt(&i, &len), "index out of bounds", i.loss().max(len.loss()), d) {
                return Some(vec![]);
            }
            let v = if mutable { Val::Ref(Rc::new(step(&tgt.unwrap(), ix_step(&i)))) } else { Val::sh(seq_get(&st, &s, &i)) };
            Some(vec![(st, v)])
        }
        Ix::Rg(a, b) => {
            let a = a.unwrap_or(Int::C(0));
            let b = b.unwrap_or(len.clone());
            let d = format!("range {}..{} length {}", show(&st, &a), show(&st, &b), show(&st, &len));
            let l = a.loss().max(b.loss()).max(len.loss());
            if !check(it, &mut st, ops::ge(&b, &a), "slice range start after end", l, d.clone()) {
                return Some(vec![]);
            }
            if !check(it, &mut st, ops::ge(&len, &b), "slice range past the end", l, d) {
                return Some(vec![]);
            }
            let n = ops::sub(&b, &a);
            let v = if mutable { Val::Ref(Rc::new(step(&tgt.unwrap(), Step::R(a, n)))) } else { Val::sh(it.subseq(&st, &s, &a, &n)) };
            Some(vec![(st, v)])
        }
    }
}

// ---------- formatting ----------
fn fmt_one(p: &mut StrV, tr: char, flags: u32, w: Option<u32>, pr: Option<u32>, v: &Val, ty_char: bool) {
    match v {
        Val::Str(s) if tr == 'd' && w.is_none() && pr.is_none() => {
            for x in &s.p {
                p.push(x.clone());
            }
        }
        Val::I(i) if tr == 'c' || (ty_char && tr == 'd') => p.push(Part::Chr(i.clone())),
        Val::I(Int::C(c)) if "dbxXo".contains(tr) => {
            let zero = flags >> 24 & 1 == 1;
            let alt = flags >> 23 & 1 == 1;
            let plus = flags >> 21 & 1 == 1;
            let w = w.unwrap_or(0) as usize;
            let mut s = match tr {
                'd' => format!("{}", c.abs()),
                'b' => format!("{:b}", c),
                'x' => format!("{:x}", c),
                'X' => format!("{:X}", c),
                _ => format!("{:o}", c),
            };
            let pre = match (tr, alt) {
                ('b', true) => "0b",
                ('x', true) | ('X', true) => "0x",
                ('o', true) => "0o",
                _ => "",
            };
            let sign = if *c < 0 && tr == 'd' { "-" } else if plus { "+" } else { "" };
            let n = s.len() + pre.len() + sign.len();
            if zero && n < w {
                s = format!("{}{}", "0".repeat(w - n), s);
            }
            s = format!("{}{}{}", sign, pre, s);
            if !zero && n < w {
                // default alignment of numbers is right; other alignments are recorded verbatim
                s = format!("{}{}", " ".repeat(w - n), s);
            }
            p.push(Part::Lit(s));
        }
        v => p.push(Part::Fmt(tr, flags, w, pr, v.clone())),
    }
}
fn template(it: &Interp, st: &State, bytes: &[u8], args: &[Val]) -> StrV {
    let mut s = StrV { p: vec![] };
    let mut i = 0;
    let mut next = 0usize;
    let u16_ = |k: usize| bytes.get(k).cloned().unwrap_or(0) as u32 | (bytes.get(k + 1).cloned().unwrap_or(0) as u32) << 8;
    while i < bytes.len() {
        let b = bytes[i];
        i += 1;
        if b == 0 {
            break;
        }
        if b < 0x80 {
            let e = (i + b as usize).min(bytes.len());
            s.push(Part::Lit(String::from_utf8_lossy(&bytes[i..e]).into_owned()));
            i = e;
        } else if b == 0x80 {
            let n = u16_(i) as usize;
            i += 2;
            let e = (i + n).min(bytes.len());
            s.push(Part::Lit(String::from_utf8_lossy(&bytes[i..e]).into_owned()));
            i = e;
        } else {
            let (mut fl, mut w, mut p) = (0xE000_0020u32, None, None);
            if b & 1 != 0 {
                fl = u16_(i) | u16_(i + 2) << 16;
                i += 4;
            }
            if b & 2 != 0 {
                w = Some(u16_(i));
                i += 2;
            }
            if b & 4 != 0 {
                p = Some(u16_(i));
                i += 2;
            }
            if b & 8 != 0 {
                next = u16_(i) as usize;
                i += 2;
            }
            if b & 0x30 != 0 {
                s.push(Part::Opaque(1));
                next += 1;
                continue;
            }
            match args.get(next) {
                Some(Val::Obj(o)) => match o.as_ref() {
                    Obj::FmtArg(t, v) => {
                        let v = full(it, st, v);
                        fmt_one(&mut s, *t, fl, w, p, &v, false)
                    }
                    _ => s.push(Part::Opaque(2)),
                },
                _ => s.push(Part::Opaque(2)),
            }
            next += 1;
        }
    }
    s
}
fn as_str(v: &Val) -> Option<StrV> {
    match v {
        Val::Str(s) => Some(s.as_ref().clone()),
        _ => None,
    }
}

// ---------- images ----------
/// a grey image: width, height, every pixel, pixels rewritten so far, pixel being rewritten
pub fn img(w: Int, h: Int, el: Val) -> Val {
    Val::agg(vec![Val::I(w), Val::I(h), el, Val::Un, Val::Un])
}
fn pix(v: Val) -> Val {
    Val::agg(vec![Val::vec(vec![v])])
}
fn img_parts(v: &Val) -> Option<Rc<Vec<Val>>> {
    match v {
        Val::Agg(a) if a.len() == 5 => Some(a.clone()),
        _ => None,
    }
}
/// an image of constant size: every pixel, row by row
pub fn exact_img(w: i128, h: i128, px: Vec<Val>) -> Val {
    let mut same: std::collections::HashMap<i128, Val> = Default::default();
    let v = px
        .into_iter()
        .map(|p| match int(&p).and_then(|i| i.c()) {
            Some(c) => same.entry(c).or_insert_with(|| pix(p)).clone(),
            None => pix(p),
        })
        .collect();
    Val::agg(vec![Val::c(w), Val::c(h), Val::vec(v), Val::Un, Val::Un])
}
/// the pixels of an image of constant size
pub fn exact_pixels(v: &Val) -> Option<(i128, i128, Vec<Val>)> {
    let a = img_parts(v)?;
    let (w, h) = (int(&a[0])?.c()?, int(&a[1])?.c()?);
    let Val::Seq(q) = &a[2] else { return None };
    let Seq::Ex(q) = q.as_ref() else { return None };
    let mut r = vec![];
    for p in q {
        let Val::Agg(p) = p else { return None };
        let Val::Seq(c) = &p[0] else { return None };
        let Seq::Ex(c) = c.as_ref() else { return None };
        r.push(c.first()?.clone());
    }
    Some((w, h, r))
}
fn is_exact(a: &[Val]) -> bool {
    matches!(&a[2], Val::Seq(_))
}
fn img_px(st: &State, im: &[Val], x: &Int, y: &Int) -> Val {
    let _ = st;
    match &im[2] {
        Val::Obj(o) => match o.as_ref() {
            Obj::Mark(MARK_PIXFN, _) => {
                let a = atom(Def::Bin("pixel", x.clone(), y.clone(), 8), 0, 255, x.loss().max(y.loss()));
                pix(Val::I(Int::of_atom(a)))
            }
            _ => pix(Val::I(Int::of_atom(fresh_atom(0, 255, 2)))),
        },
        Val::Seq(q) => {
            if let (Some(x), Some(y), Some(w), Seq::Ex(v)) = (x.c(), y.c(), int(&im[0]).and_then(|w| w.c()), q.as_ref()) {
                if let Some(p) = v.get((y * w + x) as usize) {
                    return p.clone();
                }
            }
            pix(Val::I(Int::of_atom(fresh_atom(0, 255, 1))))
        }
        el => refresh(el),
    }
}
/// leaves of a value choice: keeps a small set of constants apart from everything else
fn pix_leaves(i: &Int, out: &mut Vec<Int>) {
    match i {
        Int::W(_, f, t) => {
            out.push(Int::C(*f));
            out.push(Int::C(*t));
        }
        Int::P(p) if p.len() == 1 && p[0].1 == 1 && p[0].0.len() == 1 => match atom_def(p[0].0[0]) {
            Def::Ite(_, f, t) => {
                pix_leaves(&f, out);
                pix_leaves(&t, out);
            }
            _ => out.push(i.clone()),
        },
        _ => out.push(i.clone()),
    }
}
fn pix_join(st: &State, a: &Val, b: &Val) -> Val {
    // both are pixels
    let g = |v: &Val| match v {
        Val::Agg(x) if x.len() == 1 => match &x[0] {
            Val::Seq(s) => match s.as_ref() {
                Seq::Ex(v) if v.len() == 1 => int(&v[0]),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    };
    if *a == Val::Un {
        if let Some(i) = g(b) {
            let mut l = vec![];
            pix_leaves(&i, &mut l);
            l.sort_by_key(|x| format!("{:?}", x));
            l.dedup();
            if l.len() == 2 && l.iter().all(|x| matches!(x, Int::C(_))) {
                return pix(Val::I(Int::w(opaque_cond(), l[0].c().unwrap(), l[1].c().unwrap())));
            }
        }
        return abs_el(st, b);
    }
    if let (Some(x), Some(y)) = (g(a), g(b)) {
        let mut l = vec![];
        pix_leaves(&x, &mut l);
        let n = {
            l.sort_by_key(|x| format!("{:?}", x));
            l.dedup();
            l.len()
        };
        pix_leaves(&y, &mut l);
        l.sort_by_key(|x| format!("{:?}", x));
        l.dedup();
        if l.iter().all(|x| matches!(x, Int::C(_))) && l.len() <= 2 {
            if l.len() == n {
                return a.clone();
            }
            return pix(Val::I(Int::w(opaque_cond(), l[0].c().unwrap(), l[1].c().unwrap())));
        }
    }
    el_join(st, a, b)
}
fn uty(t: Ty) -> (u32, bool) {
    let i = ity(strip(t));
    (i.w, i.s)
}

fn opaque_bool() -> Int {
    Int::of_lit(opaque_cond(), false)
}

pub fn native(it: &mut Interp, mut st: State, fr: &Rc<FnRef>, mut args: Vec<Val>, rust_call: bool, ret: Ty, arg_tys: &[Ty]) -> NR {
    if fr.krate == "bardecoder" || fr.krate == "bvroots" {
        return Err((st, args));
    }
    if let Some(n) = &fr.intrinsic {
        let n = n.clone();
        return intrinsic(it, st, fr, &n, args, ret);
    }
    let p = fr.path.as_str();
    let never = matches!(ret.kind(), TyKind::RigidTy(RigidTy::Never));
    if never {
        let d = args.iter().map(|a| short(&full(it, &st, a))).collect::<Vec<_>>().join(" ");
        fail(it, &st, &format!("panic ({})", p.rsplit("::").next().unwrap_or("")), 0, d);
        return Ok(vec![]);
    }
    let m = p.rsplit("::").next().unwrap_or("");
    let has = |s: &str| p.contains(s);
    macro_rules! give {
        ($e:expr) => {
            match $e {
                Some(o) => return Ok(o),
                None => return Ok(it.unknown(st, p, &args, ret)),
            }
        };
    }
    // calls through trait objects in boxes
    if p.starts_with("<std::boxed::Box<F, A> as std::ops::Fn") || p.starts_with("<alloc::boxed::Box<F, A> as std::ops::Fn") {
        let f = full(it, &st, &args[0]);
        let inner = match &f {
            Val::Dyn(t, x) => Some((*t, x.as_ref().clone())),
            _ => None,
        };
        if let Some((t, x)) = inner {
            let targs: Vec<Val> = match &args[1] {
                Val::Agg(v) => v.to_vec(),
                _ => return Ok(it.unknown(st, p, &args, ret)),
            };
            let fv = match &x {
                Val::Bx(y) => y.as_ref().clone(),
                y => y.clone(),
            };
            return Ok(it.call_val(st, &fv, t, targs, ret));
        }
        if it.trace { eprintln!("BOX CALL ON {}", short(&f)); }
        return Ok(it.unknown(st, p, &args, ret));
    }
    let _ = rust_call;

    // ---- slices, vectors, arrays ----
    let on_vec = has("vec::Vec<T") || has("vec::Vec::<T");
    let on_slice = has("<impl [T]>") || has("for [T]>") || has("<[T] as") || has("for [T; N]>") || has("<[T; N] as") || has("<impl [T; N]>") || has("for &'a [T; N]>") || has("for &'a mut [T; N]>");
    if m == "index" || m == "index_mut" {
        if has("ops::Index") && (on_vec || on_slice) {
            let t = arg_tys.get(1).copied().or_else(|| fr.inst.fn_abi().ok().and_then(|a| a.args.get(1).map(|x| x.ty)));
            if let Some(t) = t {
                let s2 = st.clone();
                give!(do_index(it, s2, &args, t, m == "index_mut"));
            }
        }
        if has("string::String") || has("for str") {
            let s2 = st.clone();
            let _ = s2;
            return Ok(it.unknown(st, p, &args, ret));
        }
    }
    if (m == "get" || m == "get_mut") && on_slice {
        let t = ty_arg(&fr.args, 1);
        if let (Some(t), Val::Seq(s)) = (t, full(it, &st, &args[0])) {
            if let Some(ix) = index_kind(&args[1], t) {
                let len = s.len();
                let tgt = place(it, &st, &args[0]);
                match ix {
                    Ix::One(i) => {
                        let (a, b) = fork(st, lt(&i, &len));
                        let mut o = vec![];
                        if let Some(s1) = a {
                            let v = if m == "get_mut" {
                                match tgt {
                                    Some(r) => Val::Ref(Rc::new(step(&r, ix_step(&i)))),
                                    None => Val::Top(2),
                                }
                            } else {
                                Val::sh(seq_get(&s1, &s, &i))
                            };
                            o.push((s1, Val::some(v)));
                        }
                        if let Some(s1) = b {
                            o.push((s1, Val::none()));
                        }
                        return Ok(o);
                    }
                    Ix::Rg(a, b) => {
                        let a = a.unwrap_or(Int::C(0));
                        let b = b.unwrap_or(len.clone());
                        let mut o = vec![];
                        let (y, n) = fork(st, ops::ge(&b, &a));
                        if let Some(n) = n {
                            o.push((n, Val::none()));
                        }
                        if let Some(y) = y {
                            let (y, n) = fork(y, ops::ge(&len, &b));
                            if let Some(n) = n {
                                o.push((n, Val::none()));
                            }
                            if let Some(y) = y {
                                let n = ops::sub(&b, &a);
                                let v = if m == "get_mut" {
                                    match tgt {
                                        Some(r) => Val::Ref(Rc::new(step(&r, Step::R(a, n)))),
                                        None => Val::Top(2),
                                    }
                                } else {
                                    Val::sh(it.subseq(&y, &s, &a, &n))
                                };
                                o.push((y, Val::some(v)));
                            }
                        }
                        return Ok(o);
                    }
                }
            }
        }
    }
    if m == "into_iter" && has("IntoIterator") {
        if has("<I as") {
            return c1(st, args.swap_remove(0));
        }
        let a = args[0].clone();
        if has("&'a mut") {
            if let Some(r) = place(it, &st, &a) {
                if let Val::Seq(s) = it.read_ref(&st, &r) {
                    return c1(st, Val::obj(Obj::ItMut { r: Rc::new(r), pos: Int::C(0), end: s.len() }));
                }
            }
        } else if has("&'a") && (on_vec || on_slice) {
            if let Some(v) = seq_iter(full(it, &st, &a), 0) {
                return c1(st, v);
            }
        } else if on_vec || on_slice {
            if let Some(v) = seq_iter(full(it, &st, &a), 1) {
                return c1(st, v);
            }
        }
    }
    let iter_ty = has("slice::Iter<") || has("slice::IterMut<") || has("vec::IntoIter<") || has("array::IntoIter<") || has("vec::Drain<") || has("str::Chars<") || has("slice::iter::");
    if iter_ty && has("Iterator") {
        match m {
            "next" | "next_back" => {
                let s2 = st.clone();
                give!(iter_step(it, s2, &args[0], m == "next_back"));
            }
            "size_hint" | "len" | "as_slice" | "clone" => {}
            _ => {
                if let Some(d) = default_method(fr) {
                    return Ok(it.enter(st, &d, args, false, ret));
                }
            }
        }
    }
    if iter_ty && m == "clone" {
        let v = full(it, &st, &args[0]);
        return c1(st, v);
    }
    if (has("for std::ops::Range<A>") || has("for std::ops::RangeInclusive<A>")) && has("Iterator for") {
        let incl = has("RangeInclusive");
        match m {
            "next" | "next_back" => {
                let s2 = st.clone();
                give!(range_step(it, s2, &args[0], m == "next_back", incl));
            }
            _ => {
                if let Some(d) = default_method(fr) {
                    return Ok(it.enter(st, &d, args, false, ret));
                }
            }
        }
    }
    // `next` of library adaptors with specialised bodies
    if m == "next" && p.starts_with('<') {
        if has("iter::Zip<") || has("adapters::zip::Zip<") {
            let (a, b) = (ty_arg(&fr.args, 0), ty_arg(&fr.args, 1));
            if let (Some(a), Some(b), Some(r)) = (a, b, place(it, &st, &args[0])) {
                if let Some(f) = stub("stub_zip_next", vec![a, b]) {
                    let x = Val::Ref(Rc::new(step(&r, Step::F(0))));
                    let y = Val::Ref(Rc::new(step(&r, Step::F(1))));
                    return Ok(it.enter(st, &f, vec![x, y], false, ret));
                }
            }
        }
        if has("iter::Skip<") {
            if let (Some(a), Some(r)) = (ty_arg(&fr.args, 0), place(it, &st, &args[0])) {
                if let Some(f) = stub("stub_skip_next", vec![a]) {
                    let x = Val::Ref(Rc::new(step(&r, Step::F(0))));
                    let y = Val::Ref(Rc::new(step(&r, Step::F(1))));
                    return Ok(it.enter(st, &f, vec![x, y], false, ret));
                }
            }
        }
        if has("iter::StepBy<") {
            if let (Some(a), Some(r)) = (ty_arg(&fr.args, 0), place(it, &st, &args[0])) {
                // ranges are adjusted by a specialisation when the adaptor is made; see step_by
                if let Some(f) = stub("stub_step_next", vec![a]) {
                    let x = Val::Ref(Rc::new(step(&r, Step::F(0))));
                    let y = Val::Ref(Rc::new(step(&r, Step::F(1))));
                    let z = Val::Ref(Rc::new(step(&r, Step::F(2))));
                    return Ok(it.enter(st, &f, vec![x, y, z], false, ret));
                }
            }
        }
    }
    // other methods of adaptors with hand-tuned bodies: the trait's own definition
    if p.starts_with('<') && has("as std::iter::Iterator>") && (has("std::iter::") && !p.starts_with("<std::iter::Iterator")) {
        let tuned = ["Zip<", "Skip<", "StepBy<", "Take<", "Enumerate<", "Rev<", "Chain<", "Map<", "Filter<", "FilterMap<", "TakeWhile<", "SkipWhile<", "Peekable<", "Cloned<", "Copied<", "Scan<", "Flatten<", "FlatMap<", "Inspect<", "Fuse<"];
        let basic = ["next", "next_back", "peek"];
        if tuned.iter().any(|t| has(t)) && !basic.contains(&m) && !(m == "next") {
            if let Some(d) = default_method(fr) {
                return Ok(it.enter(st, &d, args, false, ret));
            }
        }
    }
    if m == "step_by" && has("iter::Iterator") {
        // StepBy { iter, step_minus_one, first_take }
        let n = int(&args[1]);
        if let Some(n) = n {
            let z = ops::eq(&n, &Int::C(0)).not();
            if !check(it, &mut st, z, "step_by(0)", n.loss(), String::new()) {
                return Ok(vec![]);
            }
            return c1(st, Val::agg(vec![args[0].clone(), Val::I(ops::sub(&n, &Int::C(1))), Val::b(true)]));
        }
    }
    if m == "from_iter" && has("FromIterator") {
        let ity_ = ty_arg(&GenericArgs(fr.args.0.iter().rev().filter(|x| matches!(x, GenericArgKind::Type(_))).take(1).cloned().collect()), 0);
        if let Some(ity_) = ity_ {
            if on_vec {
                if let Some(t) = ty_arg(&fr.args, 0) {
                    if let Some(f) = stub("stub_collect_vec", vec![t, ity_]) {
                        return Ok(it.enter(st, &f, args, false, ret));
                    }
                }
            }
            if has("for std::string::String") || has("<std::string::String as") {
                let name = adt_name(ret);
                let _ = name;
                let s = if has("FromIterator<char>") { "stub_collect_string" } else { "stub_collect_str_string" };
                if let Some(f) = stub(s, vec![ity_]) {
                    return Ok(it.enter(st, &f, args, false, ret));
                }
            }
            if has("result::Result<") {
                // Result<Vec<T>, E>
                if let TyKind::RigidTy(RigidTy::Adt(_, ga)) = ret.kind() {
                    if let (Some(v), Some(e)) = (ty_arg(&ga, 0), ty_arg(&ga, 1)) {
                        if let TyKind::RigidTy(RigidTy::Adt(vd, va)) = v.kind() {
                            if vd.name().to_string().ends_with("vec::Vec") {
                                if let Some(t) = ty_arg(&va, 0) {
                                    if let Some(f) = stub("stub_collect_result", vec![t, e, ity_]) {
                                        return Ok(it.enter(st, &f, args, false, ret));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if has("option::Option<") {
                if let TyKind::RigidTy(RigidTy::Adt(_, ga)) = ret.kind() {
                    if let Some(v) = ty_arg(&ga, 0) {
                        if let TyKind::RigidTy(RigidTy::Adt(vd, va)) = v.kind() {
                            if vd.name().to_string().ends_with("vec::Vec") {
                                if let Some(t) = ty_arg(&va, 0) {
                                    if let Some(f) = stub("stub_collect_option", vec![t, ity_]) {
                                        return Ok(it.enter(st, &f, args, false, ret));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    if m == "extend" && has("Extend<") && on_vec {
        let ity_ = ty_arg(&GenericArgs(fr.args.0.iter().rev().filter(|x| matches!(x, GenericArgKind::Type(_))).take(1).cloned().collect()), 0);
        let by_ref = has("Extend<&'a T>");
        if let (Some(t), Some(i)) = (ty_arg(&fr.args, 0), ity_) {
            if let Some(f) = stub(if by_ref { "stub_extend_ref" } else { "stub_extend" }, vec![t, i]) {
                return Ok(it.enter(st, &f, args, false, ret));
            }
        }
    }
    if m == "extend" && has("Extend<char>") {
        if let Some(i) = ty_arg(&GenericArgs(fr.args.0.iter().rev().filter(|x| matches!(x, GenericArgKind::Type(_))).take(1).cloned().collect()), 0) {
            if let Some(f) = stub("stub_extend_string", vec![i]) {
                return Ok(it.enter(st, &f, args, false, ret));
            }
        }
    }
    if on_vec || on_slice || has("vec::from_elem") || has("slice::") || has("vec::") {
        match m {
            "new" | "with_capacity" if on_vec => return c1(st, Val::vec(vec![])),
            "default" if on_vec => return c1(st, Val::vec(vec![])),
            "from_elem" => {
                if let Some(n) = int(&args[1]) {
                    let n = settle(&st, n);
                    let v = match n {
                        Int::C(c) if c <= 70000 => Val::vec(vec![args[0].clone(); c.max(0) as usize]),
                        n => Val::Seq(Rc::new(Seq::Sum { len: n, el: args[0].clone() })),
                    };
                    return c1(st, v);
                }
            }
            "len" => {
                if let Val::Seq(s) = full(it, &st, &args[0]) {
                    // no allocation is larger
                    if matches!(s.as_ref(), Seq::Sum { .. }) {
                        st.assume(ops::ge(&Int::C(isize::MAX as i128), &s.len()));
                    }
                    return c1(st, Val::I(s.len()));
                }
                if let Val::Obj(o) = full(it, &st, &args[0]) {
                    if let Obj::It { pos, end, .. } | Obj::ItMut { pos, end, .. } = o.as_ref() {
                        return c1(st, Val::I(ops::sub(end, pos)));
                    }
                }
            }
            "is_empty" => {
                if let Val::Seq(s) = full(it, &st, &args[0]) {
                    return c1(st, Val::I(ops::eq(&s.len(), &Int::C(0)).int()));
                }
            }
            "iter" => {
                if let Some(v) = seq_iter(full(it, &st, &args[0]), 0) {
                    return c1(st, v);
                }
            }
            "iter_mut" => {
                if let Some(r) = place(it, &st, &args[0]) {
                    if let Val::Seq(s) = it.read_ref(&st, &r) {
                        return c1(st, Val::obj(Obj::ItMut { r: Rc::new(r), pos: Int::C(0), end: s.len() }));
                    }
                }
            }
            "push" if on_vec => {
                if let Some(r) = place(it, &st, &args[0]) {
                    if let Val::Seq(s) = it.read_ref(&st, &r) {
                        let x = args[1].clone();
                        let v = match s.as_ref() {
                            Seq::Ex(v) => {
                                let mut v = v.clone();
                                v.push(x);
                                Seq::Ex(v)
                            }
                            Seq::Sum { len, el } => Seq::Sum { len: ops::add(len, &Int::C(1)), el: if *el == Val::Un { abs_el(&st, &x) } else { el_join(&st, el, &x) } },
                        };
                        setv(it, &mut st, &r, Val::Seq(Rc::new(v)));
                        return c1(st, Val::unit());
                    }
                }
            }
            "pop" if on_vec => {
                if let Some(r) = place(it, &st, &args[0]) {
                    if let Val::Seq(s) = it.read_ref(&st, &r) {
                        match s.as_ref() {
                            Seq::Ex(v) => {
                                let mut v = v.clone();
                                let x = v.pop();
                                setv(it, &mut st, &r, Val::vec(v));
                                return c1(st, x.map(Val::some).unwrap_or(Val::none()));
                            }
                            Seq::Sum { len, el } => {
                                let (a, b) = fork(st, ops::ge(len, &Int::C(1)));
                                let mut o = vec![];
                                if let Some(mut s1) = a {
                                    setv(it, &mut s1, &r, Val::Seq(Rc::new(Seq::Sum { len: ops::sub(len, &Int::C(1)), el: el.clone() })));
                                    o.push((s1, Val::some(refresh(el))));
                                }
                                if let Some(s1) = b {
                                    o.push((s1, Val::none()));
                                }
                                return Ok(o);
                            }
                        }
                    }
                }
            }
            "clear" if on_vec => {
                if let Some(r) = place(it, &st, &args[0]) {
                    setv(it, &mut st, &r, Val::vec(vec![]));
                    return c1(st, Val::unit());
                }
            }
            "truncate" if on_vec => {
                if let (Some(r), Some(n)) = (place(it, &st, &args[0]), int(&args[1])) {
                    if let Val::Seq(s) = it.read_ref(&st, &r) {
                        let (a, b) = fork(st, lt(&n, &s.len()));
                        let mut o = vec![];
                        if let Some(mut s1) = a {
                            let v = it.subseq(&s1, &s, &Int::C(0), &n);
                            setv(it, &mut s1, &r, v);
                            o.push((s1, Val::unit()));
                        }
                        if let Some(s1) = b {
                            o.push((s1, Val::unit()));
                        }
                        return Ok(o);
                    }
                }
            }
            "resize" if on_vec => {
                if let (Some(r), Some(Int::C(n))) = (place(it, &st, &args[0]), int(&args[1])) {
                    if let Val::Seq(s) = it.read_ref(&st, &r) {
                        if let Seq::Ex(v) = s.as_ref() {
                            let mut v = v.clone();
                            v.resize(n as usize, args[2].clone());
                            setv(it, &mut st, &r, Val::vec(v));
                            return c1(st, Val::unit());
                        }
                    }
                }
            }
            "insert" if on_vec => {
                if let (Some(r), Some(Int::C(n))) = (place(it, &st, &args[0]), int(&args[1])) {
                    if let Val::Seq(s) = it.read_ref(&st, &r) {
                        if let Seq::Ex(v) = s.as_ref() {
                            let mut v = v.clone();
                            if n as usize <= v.len() {
                                v.insert(n as usize, args[2].clone());
                                setv(it, &mut st, &r, Val::vec(v));
                                return c1(st, Val::unit());
                            }
                            fail(it, &st, "Vec::insert out of bounds", 0, String::new());
                            return Ok(vec![]);
                        }
                    }
                }
            }
            "remove" | "swap_remove" if on_vec => {
                if let (Some(r), Some(n)) = (place(it, &st, &args[0]), int(&args[1])) {
                    if let Val::Seq(s) = it.read_ref(&st, &r) {
                        let d = format!("index {} length {}", show(&st, &n), show(&st, &s.len()));
                        if !check(it, &mut st, lt(&n, &s.len()), "Vec::remove out of bounds", n.loss().max(s.len().loss()), d) {
                            return Ok(vec![]);
                        }
                        match (s.as_ref(), &n) {
                            (Seq::Ex(v), Int::C(n)) => {
                                let mut v = v.clone();
                                let x = if m == "remove" { v.remove(*n as usize) } else { v.swap_remove(*n as usize) };
                                setv(it, &mut st, &r, Val::vec(v));
                                return c1(st, x);
                            }
                            (s2, _) => {
                                let x = seq_get(&st, s2, &n);
                                let l = ops::sub(&s2.len(), &Int::C(1));
                                let nv = it.subseq(&st, &s, &Int::C(0), &l);
                                let nv = match nv {
                                    Val::Seq(q) => Val::Seq(Rc::new(Seq::Sum { len: l, el: q.el() })),
                                    v => v,
                                };
                                setv(it, &mut st, &r, nv);
                                return c1(st, x);
                            }
                        }
                    }
                }
            }
            "append" if on_vec => {
                if let (Some(r), Some(q)) = (place(it, &st, &args[0]), place(it, &st, &args[1])) {
                    if let (Val::Seq(a), Val::Seq(b)) = (it.read_ref(&st, &r), it.read_ref(&st, &q)) {
                        let v = concat(&st, &a, &b);
                        setv(it, &mut st, &r, v);
                        setv(it, &mut st, &q, Val::vec(vec![]));
                        return c1(st, Val::unit());
                    }
                }
            }
            "extend_from_slice" => {
                if let (Some(r), Val::Seq(b)) = (place(it, &st, &args[0]), full(it, &st, &args[1])) {
                    if let Val::Seq(a) = it.read_ref(&st, &r) {
                        let v = concat(&st, &a, &b);
                        setv(it, &mut st, &r, v);
                        return c1(st, Val::unit());
                    }
                }
            }
            "first" | "last" => {
                if let Val::Seq(s) = full(it, &st, &args[0]) {
                    let (a, b) = fork(st, ops::ge(&s.len(), &Int::C(1)));
                    let mut o = vec![];
                    if let Some(s1) = a {
                        let i = if m == "first" { Int::C(0) } else { ops::sub(&s.len(), &Int::C(1)) };
                        let v = seq_get(&s1, &s, &i);
                        o.push((s1, Val::some(Val::sh(v))));
                    }
                    if let Some(s1) = b {
                        o.push((s1, Val::none()));
                    }
                    return Ok(o);
                }
            }
            "swap" if on_slice => {
                if let (Some(r), Some(i), Some(j)) = (place(it, &st, &args[0]), int(&args[1]), int(&args[2])) {
                    if let Val::Seq(s) = it.read_ref(&st, &r) {
                        for k in [&i, &j] {
                            let d = format!("index {} length {}", show(&st, k), show(&st, &s.len()));
                            if !check(it, &mut st, lt(k, &s.len()), "index out of bounds", k.loss(), d) {
                                return Ok(vec![]);
                            }
                        }
                        let (a, b) = (seq_get(&st, &s, &i), seq_get(&st, &s, &j));
                        setv(it, &mut st, &step(&r, ix_step(&i)), b);
                        setv(it, &mut st, &step(&r, ix_step(&j)), a);
                        return c1(st, Val::unit());
                    }
                }
            }
            "reverse" if on_slice => {
                if let Some(r) = place(it, &st, &args[0]) {
                    if let Val::Seq(s) = it.read_ref(&st, &r) {
                        if let Seq::Ex(v) = s.as_ref() {
                            let mut v = v.clone();
                            v.reverse();
                            setv(it, &mut st, &r, Val::vec(v));
                        }
                        return c1(st, Val::unit());
                    }
                }
            }
            "fill" if on_slice => {
                if let Some(r) = place(it, &st, &args[0]) {
                    if let Val::Seq(s) = it.read_ref(&st, &r) {
                        let v = match s.as_ref() {
                            Seq::Ex(v) => Seq::Ex(vec![args[1].clone(); v.len()]),
                            Seq::Sum { len, .. } => Seq::Sum { len: len.clone(), el: args[1].clone() },
                        };
                        setv(it, &mut st, &r, Val::Seq(Rc::new(v)));
                        return c1(st, Val::unit());
                    }
                }
            }
            "clone_from_slice" | "copy_from_slice" => {
                if let (Some(r), Val::Seq(b)) = (place(it, &st, &args[0]), full(it, &st, &args[1])) {
                    if let Val::Seq(a) = it.read_ref(&st, &r) {
                        let d = format!("lengths {} and {}", show(&st, &a.len()), show(&st, &b.len()));
                        let l = a.len().loss().max(b.len().loss());
                        if !check(it, &mut st, ops::eq(&a.len(), &b.len()), "copy between slices of different lengths", l, d) {
                            return Ok(vec![]);
                        }
                        setv(it, &mut st, &r, Val::Seq(b));
                        return c1(st, Val::unit());
                    }
                }
            }
            "to_vec" | "into_vec" | "to_owned" | "into_boxed_slice" => {
                let v = full(it, &st, &args[0]);
                if matches!(v, Val::Seq(_)) {
                    return c1(st, v);
                }
                if m == "into_vec" {
                    if let Some(s) = find_seq(&v) {
                        return c1(st, s);
                    }
                }
            }
            "clone" if on_vec => {
                let v = full(it, &st, &args[0]);
                if matches!(v, Val::Seq(_)) {
                    return c1(st, v);
                }
            }
            "contains" if on_slice => {
                if let (Val::Seq(s), x) = (full(it, &st, &args[0]), full(it, &st, &args[1])) {
                    if let (Seq::Ex(v), Some(x)) = (s.as_ref(), int(&x)) {
                        let mut states = vec![(st, false)];
                        let mut outs = vec![];
                        for e in v {
                            let Some(e) = int(e) else { return c1(states.remove(0).0, Val::I(opaque_bool())) };
                            let mut ns = vec![];
                            for (s1, _) in states {
                                let (a, b) = fork(s1, ops::eq(&e, &x));
                                if let Some(a) = a {
                                    outs.push((a, Val::b(true)));
                                }
                                if let Some(b) = b {
                                    ns.push((b, false));
                                }
                            }
                            states = ns;
                        }
                        for (s1, _) in states {
                            outs.push((s1, Val::b(false)));
                        }
                        return Ok(outs);
                    }
                    return c1(st, Val::I(opaque_bool()));
                }
            }
            "deref" | "as_slice" | "as_ref" | "borrow" if on_vec || on_slice => {
                let v = full(it, &st, &args[0]);
                if matches!(v, Val::Seq(_)) {
                    if let Some(r) = place(it, &st, &args[0]) {
                        let _ = r;
                    }
                    return c1(st, Val::sh(v));
                }
            }
            "deref_mut" | "as_mut_slice" | "as_mut" | "borrow_mut" if on_vec || on_slice => {
                if let Some(r) = place(it, &st, &args[0]) {
                    return c1(st, Val::Ref(Rc::new(r)));
                }
            }
            _ => {}
        }
    }
    // ---- boxes ----
    if has("boxed::Box::<T>::new") || has("boxed::Box::<T, A>::new") {
        if m == "new" {
            return c1(st, Val::Bx(Rc::new(args.swap_remove(0))));
        }
        if m == "new_uninit" {
            return c1(st, Val::Bx(Rc::new(Val::Un)));
        }
    }
    if has("box_assume_init_into_vec_unsafe") {
        if let Some(v) = find_seq(&args[0]) {
            return c1(st, v);
        }
        return c1(st, Val::vec(vec![]));
    }
    if has("std::boxed::iter::<impl") && m == "next" {
        // Box<dyn Iterator>
        if let Some(r) = place(it, &st, &args[0]) {
            let b = it.read_ref(&st, &r);
            let (ty, path) = match &b {
                Val::Dyn(t, x) => match x.as_ref() {
                    Val::Bx(_) => (Some(*t), vec![Step::B]),
                    _ => (Some(*t), vec![]),
                },
                Val::Bx(x) => match x.as_ref() {
                    Val::Dyn(t, _) => (Some(*t), vec![Step::B]),
                    _ => (ty_arg(&fr.args, 0), vec![Step::B]),
                },
                _ => (None, vec![]),
            };
            if let Some(t) = ty {
                let mut r2 = r.clone();
                r2.path.extend(path);
                if let Some(f) = stub("stub_next", vec![t]) {
                    return Ok(it.enter(st, &f, vec![Val::Ref(Rc::new(r2))], false, ret));
                }
            }
        }
        return Ok(it.unknown(st, p, &args, ret));
    }
    // ---- strings ----
    if has("string::String") || has("for str>") || has("<impl str>") || has("<str as") || has("ToString") {
        let s0 = args.first().map(|a| full(it, &st, a));
        match m {
            "new" | "with_capacity" if has("string::String::") => return c1(st, Val::str("")),
            "default" => return c1(st, Val::str("")),
            "push" | "push_str" if has("string::String::") => {
                if let Some(r) = place(it, &st, &args[0]) {
                    if let Some(mut s) = as_str(&it.read_ref(&st, &r)) {
                        if m == "push" {
                            match int(&args[1]) {
                                Some(i) => s.push(Part::Chr(i)),
                                None => s.push(Part::Opaque(2)),
                            }
                        } else {
                            match as_str(&full(it, &st, &args[1])) {
                                Some(t) => {
                                    for x in t.p {
                                        s.push(x)
                                    }
                                }
                                None => s.push(Part::Opaque(2)),
                            }
                        }
                        setv(it, &mut st, &r, Val::Str(Rc::new(s)));
                        return c1(st, Val::unit());
                    }
                }
            }
            "as_str" | "deref" | "as_ref" | "borrow" | "as_mut_str" => {
                if let Some(v @ Val::Str(_)) = s0 {
                    return c1(st, Val::sh(v));
                }
            }
            "clone" | "from" | "to_string" | "to_owned" | "into_string" | "into" | "spec_to_string" => {
                match s0 {
                    Some(v @ Val::Str(_)) => return c1(st, v),
                    Some(v @ Val::I(_)) => {
                        let t = arg_tys.first().map(|t| ity(strip(*t)).kind).unwrap_or(0);
                        let mut s = StrV { p: vec![] };
                        fmt_one(&mut s, if t == 2 { 'c' } else { 'd' }, 0, None, None, &v, false);
                        return c1(st, Val::Str(Rc::new(s)));
                    }
                    Some(v @ Val::F(_)) => {
                        let mut s = StrV { p: vec![] };
                        fmt_one(&mut s, 'd', 0, None, None, &v, false);
                        return c1(st, Val::Str(Rc::new(s)));
                    }
                    _ => {}
                }
                if m == "to_string" {
                    return c1(st, Val::Str(Rc::new(StrV { p: vec![Part::Opaque(1)] })));
                }
            }
            "len" => {
                if let Some(Val::Str(s)) = &s0 {
                    return c1(st, Val::I(str_len(s)));
                }
            }
            "is_empty" => {
                if let Some(Val::Str(s)) = &s0 {
                    return c1(st, Val::I(ops::eq(&str_len(s), &Int::C(0)).int()));
                }
            }
            "chars" => {
                if let Some(Val::Str(s)) = &s0 {
                    return c1(st, Val::obj(Obj::Chars { p: s.p.clone() }));
                }
            }
            "clear" => {
                if let Some(r) = place(it, &st, &args[0]) {
                    setv(it, &mut st, &r, Val::str(""));
                    return c1(st, Val::unit());
                }
            }
            "as_bytes" | "into_bytes" => {
                if let Some(Val::Str(s)) = &s0 {
                    if let Some(t) = s.text() {
                        let v = Val::vec(t.bytes().map(|b| Val::c(b as i128)).collect());
                        return c1(st, if m == "as_bytes" { Val::sh(v) } else { v });
                    }
                    if let [Part::Bytes(v)] = &s.p[..] {
                        let v = v.clone();
                        return c1(st, if m == "as_bytes" { Val::sh(v) } else { v });
                    }
                }
            }
            "from_utf8" | "from_utf8_lossy" => {
                let v = full(it, &st, &args[0]);
                if let Val::Seq(s) = &v {
                    let lossy = m != "from_utf8";
                    let text = match s.as_ref() {
                        Seq::Ex(b) => {
                            let k: Option<Vec<u8>> = b.iter().map(|x| int(x).and_then(|i| i.c()).map(|c| c as u8)).collect();
                            k
                        }
                        _ => None,
                    };
                    if let Some(t) = text {
                        if lossy {
                            let s = Val::str(&String::from_utf8_lossy(&t));
                            return c1(st, Val::en(1, vec![s]));
                        }
                        return match String::from_utf8(t) {
                            Ok(s) => c1(st, Val::ok(Val::str(&s))),
                            Err(_) => c1(st, Val::err(Val::Top(1))),
                        };
                    }
                    let b = Val::Str(Rc::new(StrV { p: vec![Part::Bytes(v.clone())] }));
                    if lossy {
                        return c1(st, Val::en(1, vec![b]));
                    }
                    let c = match v.as_exact_ints() {
                        Some(b) => utf8_cond(b),
                        None => opaque_cond(),
                    };
                    let (x, y) = fork(st, Tr::L(c, false));
                    return Ok([(x, Val::ok(b)), (y, Val::err(Val::Top(1)))].into_iter().filter_map(|(s, v)| s.map(|s| (s, v))).collect());
                }
            }
            "add" => {
                if let (Some(mut s), Some(t)) = (s0.as_ref().and_then(as_str), as_str(&full(it, &st, &args[1]))) {
                    for x in t.p {
                        s.push(x)
                    }
                    return c1(st, Val::Str(Rc::new(s)));
                }
            }
            "write_str" | "write_char" | "add_assign" => {
                if let Some(r) = place(it, &st, &args[0]) {
                    if let Some(mut s) = as_str(&it.read_ref(&st, &r)) {
                        match (m, full(it, &st, &args[1])) {
                            ("write_char", Val::I(i)) => s.push(Part::Chr(i)),
                            (_, Val::Str(t)) => {
                                for x in &t.p {
                                    s.push(x.clone())
                                }
                            }
                            _ => s.push(Part::Opaque(2)),
                        }
                        setv(it, &mut st, &r, Val::Str(Rc::new(s)));
                        return c1(st, if m == "add_assign" { Val::unit() } else { Val::ok(Val::unit()) });
                    }
                }
            }
            "eq" | "ne" => {
                if let (Some(a), Some(b)) = (s0.as_ref().and_then(as_str), args.get(1).map(|a| full(it, &st, a)).as_ref().and_then(as_str)) {
                    if let (Some(x), Some(y)) = (a.text(), b.text()) {
                        return c1(st, Val::b((x == y) == (m == "eq")));
                    }
                    return c1(st, Val::I(opaque_bool()));
                }
            }
            _ => {}
        }
    }
    if has("collections::") {
        return Ok(it.unknown(st, p, &args, ret));
    }
    // ---- formatting ----
    if has("fmt::rt::Argument::") || has("core::fmt::rt::Argument") {
        let tr = match m {
            "new_display" => 'd',
            "new_debug" => '?',
            "new_binary" => 'b',
            "new_lower_hex" => 'x',
            "new_upper_hex" => 'X',
            "new_octal" => 'o',
            _ => '~',
        };
        let v = full(it, &st, &args[0]);
        let t = ty_arg(&fr.args, 0).map(|t| ity(strip(t)).kind).unwrap_or(0);
        let tr = if t == 2 && tr == 'd' { 'c' } else { tr };
        return c1(st, Val::obj(Obj::FmtArg(tr, v)));
    }
    if has("fmt::Arguments::") {
        match m {
            "from_str" | "new_const" | "from_str_nonconst" => {
                let v = full(it, &st, &args[0]);
                let s = match &v {
                    Val::Str(s) => s.as_ref().clone(),
                    Val::Seq(q) => match q.as_ref() {
                        Seq::Ex(v) => {
                            let mut s = StrV { p: vec![] };
                            for x in v {
                                match x.peel() {
                                    Val::Str(t) => {
                                        for y in &t.p {
                                            s.push(y.clone())
                                        }
                                    }
                                    _ => s.push(Part::Opaque(2)),
                                }
                            }
                            s
                        }
                        _ => StrV { p: vec![Part::Opaque(2)] },
                    },
                    _ => StrV { p: vec![Part::Opaque(2)] },
                };
                return c1(st, Val::obj(Obj::FmtArgs(Rc::new(s))));
            }
            "new" => {
                let t = full(it, &st, &args[0]);
                let a = full(it, &st, &args[1]);
                if let (Val::Seq(t), Val::Seq(a)) = (&t, &a) {
                    if let (Seq::Ex(t), Seq::Ex(a)) = (t.as_ref(), a.as_ref()) {
                        let b: Vec<u8> = t.iter().map(|x| int(x).and_then(|i| i.c()).unwrap_or(0) as u8).collect();
                        let s = template(it, &st, &b, a);
                        return c1(st, Val::obj(Obj::FmtArgs(Rc::new(s))));
                    }
                }
                return c1(st, Val::obj(Obj::FmtArgs(Rc::new(StrV { p: vec![Part::Opaque(2)] }))));
            }
            "as_str" => {}
            _ => {}
        }
    }
    if p == "std::fmt::format" || p == "alloc::fmt::format" || has("fmt::format::") {
        if let Val::Obj(o) = &args[0] {
            if let Obj::FmtArgs(s) = o.as_ref() {
                return c1(st, Val::Str(s.clone()));
            }
        }
        return c1(st, Val::Str(Rc::new(StrV { p: vec![Part::Opaque(2)] })));
    }
    if m == "write_fmt" {
        if let Some(r) = place(it, &st, &args[0]) {
            if let (Some(mut s), Val::Obj(o)) = (as_str(&it.read_ref(&st, &r)), &args[1]) {
                if let Obj::FmtArgs(t) = o.as_ref() {
                    for y in &t.p {
                        s.push(y.clone())
                    }
                    setv(it, &mut st, &r, Val::Str(Rc::new(s)));
                    return c1(st, Val::ok(Val::unit()));
                }
            }
        }
    }
    if has("fmt::Formatter") {
        // text goes to a formatter the program does not inspect
        if let TyKind::RigidTy(RigidTy::Adt(..)) = ret.kind() {
            if adt_name(ret).ends_with("Result") {
                return c1(st, Val::ok(Val::unit()));
            }
        }
    }
    if p == "std::hint::must_use" || p == "core::hint::must_use" || m == "black_box" || p == "std::convert::identity" {
        return c1(st, args.swap_remove(0));
    }
    if p.starts_with("log::") || p.starts_with("<log::Level as") {
        // every message is logged, or none
        let off = log_off();
        if m == "partial_cmp" {
            return c1(st, Val::some(Val::en(if off { 2 } else { 0 }, vec![])));
        }
        if matches!(m, "le" | "lt" | "ge" | "gt") {
            return c1(st, Val::b(off == matches!(m, "ge" | "gt")));
        }
        if m == "max_level" {
            return c1(st, Val::en(if off { 0 } else { 5 }, vec![]));
        }
        if m == "__private_api_enabled" || m == "enabled" {
            return c1(st, Val::b(!off));
        }
        if has("__private_api") {
            if matches!(ret.kind(), TyKind::RigidTy(RigidTy::Tuple(_))) {
                return c1(st, Val::unit());
            }
            return c1(st, fresh_of(ret, 1, 0));
        }
    }
    // ---- files: any outcome, nothing the program reads back ----
    if p.starts_with("std::env::temp_dir") || p.starts_with("std::fs::create_dir") || p.starts_with("std::path::") || has("path::PathBuf") || m == "save" && has("DynamicImage") {
        if m != "save" || !p.contains("with") {
            return c1(st, fresh_of(ret, 0, 0));
        }
    }
    // ---- mem ----
    if p.starts_with("std::mem::") || p.starts_with("core::mem::") {
        match m {
            "swap" => {
                if let (Some(a), Some(b)) = (place(it, &st, &args[0]), place(it, &st, &args[1])) {
                    let (x, y) = (it.read_ref(&st, &a), it.read_ref(&st, &b));
                    setv(it, &mut st, &a, y);
                    setv(it, &mut st, &b, x);
                    return c1(st, Val::unit());
                }
            }
            "replace" => {
                if let Val::Ref(a) = &args[0] {
                    let x = it.read_ref(&st, a);
                    setv(it, &mut st, a, args[1].clone());
                    return c1(st, x);
                }
            }
            "drop" | "forget" => return c1(st, Val::unit()),
            _ => {}
        }
    }
    // ---- unwrap ----
    if (has("option::Option::<T>::") || has("result::Result::<T, E>::")) && matches!(m, "unwrap" | "expect" | "unwrap_err" | "expect_err") {
        let good = if has("option::") { 1 } else if m.ends_with("_err") { 1 } else { 0 };
        let v = args[0].clone();
        match &v {
            Val::En(e) => {
                if e.var == good {
                    let f = st.fr.last().unwrap().f.clone();
                    let at = it.stack.last().cloned().unwrap_or_default();
                    it.obligation(&st, &f, at, m, Some(true), 0, String::new());
                    return c1(st, e.f.first().cloned().unwrap_or(Val::unit()));
                }
                fail(it, &st, m, 0, "on the wrong variant".into());
                return Ok(vec![]);
            }
            Val::Alt(a) => {
                let mut outs = vec![];
                for x in a.iter() {
                    let mut s1 = st.clone();
                    if let Some((c, pos)) = x.g {
                        if !s1.assume(Tr::L(c, !pos)) {
                            continue;
                        }
                    }
                    if x.e.var == good {
                        outs.push((s1, x.e.f.first().cloned().unwrap_or(Val::unit())));
                    } else {
                        fail(it, &s1, m, v.loss(), "possible on the wrong variant".into());
                    }
                }
                return Ok(outs);
            }
            v => {
                fail(it, &st, m, v.loss().max(1), "on an unknown value".into());
                return c1(st, fresh_of(ret, 2, 0));
            }
        }
    }
    // ---- numbers ----
    if has("f64::<impl f64>::") || has("f32::<impl f32>::") {
        if args.len() == 1 {
            if let Val::F(x) = &args[0] {
                let x = *x;
                match m {
                    "abs" | "sqrt" | "round" | "floor" | "ceil" | "trunc" => {
                        let op = ["abs", "sqrt", "round", "floor", "ceil", "trunc"].iter().find(|o| **o == m).unwrap();
                        return c1(st, Val::F(Flt::un(op, x)));
                    }
                    "is_nan" | "is_finite" | "is_infinite" => {
                        let i = x.info();
                        let fin = !i.nan && i.lo.is_finite() && i.hi.is_finite();
                        if !i.nan && m == "is_nan" || fin && m == "is_infinite" {
                            return c1(st, Val::b(false));
                        }
                        if fin && m == "is_finite" {
                            return c1(st, Val::b(true));
                        }
                        return c1(st, Val::I(opaque_bool()));
                    }
                    _ => return c1(st, fresh_of(ret, 1, 0)),
                }
            }
        } else if args.len() == 2 {
            if let (Val::F(x), Val::F(y)) = (&args[0], &args[1]) {
                match m {
                    "max" => return c1(st, Val::F(Flt::bin("max", *x, *y))),
                    "min" => return c1(st, Val::F(Flt::bin("min", *x, *y))),
                    "hypot" | "powf" | "atan2" => return c1(st, Val::F(Flt::any(1))),
                    _ => {}
                }
            }
            if m == "powi" {
                if let (Val::F(x), Some(Int::C(n))) = (&args[0], int(&args[1])) {
                    if n == 2 {
                        return c1(st, Val::F(Flt::bin("mul", *x, *x)));
                    }
                }
                return c1(st, Val::F(Flt::any(1)));
            }
        }
        return c1(st, fresh_of(ret, 1, 0));
    }
    if (p == "std::cmp::min" || p == "std::cmp::max" || ((m == "min" || m == "max") && has("cmp::Ord"))) && args.len() == 2 {
        if let (Some(a), Some(b)) = (int(&args[0]), int(&args[1])) {
            if matches!(args[0], Val::I(_)) {
                let (s, v) = minmax(st, m == "min", &a, &b);
                return c1(s, Val::I(v));
            }
        }
    }
    if m == "clamp" && has("cmp::Ord") {
        if let (Some(a), Some(l), Some(h)) = (int(&args[0]), int(&args[1]), int(&args[2])) {
            let d = format!("clamp({}, {})", show(&st, &l), show(&st, &h));
            if !check(it, &mut st, ops::ge(&h, &l), "clamp with min > max", l.loss().max(h.loss()), d) {
                return Ok(vec![]);
            }
            let (s, v) = minmax(st, false, &a, &l);
            let (s, v) = minmax(s, true, &v, &h);
            return c1(s, Val::I(v));
        }
    }
    if has("core::num::<impl") || has("std::num::<impl") {
        if let Some(a) = args.first().and_then(int) {
            let (w, sg) = arg_tys.first().map(|t| uty(*t)).unwrap_or_else(|| prim_of(p));
            let (w, sg) = if w == 0 { prim_of(p) } else { (w, sg) };
            let (lo, hi) = ops::range_of(w, sg);
            let b = args.get(1).and_then(int);
            let arith = |k: &str, a: &Int, b: &Int| -> Int {
                match k {
                    "add" => ops::add(a, b),
                    "sub" => ops::sub(a, b),
                    "mul" => ops::mul(a, b),
                    "div" => ops::div(a, b),
                    _ => ops::rem(a, b),
                }
            };
            let kind = m.split('_').nth(1).unwrap_or("").to_string();
            if let Some(b) = &b {
                if m.starts_with("saturating_") && ["add", "sub", "mul"].contains(&kind.as_str()) {
                    let r = arith(&kind, &a, b);
                    let mut outs = vec![];
                    let (x, y) = fork(st, ops::ge(&Int::C(hi), &r));
                    if let Some(y) = y {
                        outs.push((y, Val::c(hi)));
                    }
                    if let Some(x) = x {
                        let (x, y) = fork(x, ops::ge(&r, &Int::C(lo)));
                        if let Some(y) = y {
                            outs.push((y, Val::c(lo)));
                        }
                        if let Some(x) = x {
                            outs.push((x, Val::I(r)));
                        }
                    }
                    return Ok(outs);
                }
                if m.starts_with("checked_") && ["add", "sub", "mul", "div", "rem"].contains(&kind.as_str()) {
                    let mut outs = vec![];
                    let mut s = st;
                    if kind == "div" || kind == "rem" {
                        let (z, n) = fork(s, ops::eq(b, &Int::C(0)));
                        if let Some(z) = z {
                            outs.push((z, Val::none()));
                        }
                        match n {
                            Some(n) => s = n,
                            None => return Ok(outs),
                        }
                    }
                    let r = arith(&kind, &a, b);
                    let (x, y) = fork(s, ops::ge(&Int::C(hi), &r));
                    if let Some(y) = y {
                        outs.push((y, Val::none()));
                    }
                    if let Some(x) = x {
                        let (x, y) = fork(x, ops::ge(&r, &Int::C(lo)));
                        if let Some(y) = y {
                            outs.push((y, Val::none()));
                        }
                        if let Some(x) = x {
                            outs.push((x, Val::some(Val::I(r))));
                        }
                    }
                    return Ok(outs);
                }
                if m.starts_with("wrapping_") && ["add", "sub", "mul"].contains(&kind.as_str()) {
                    let r = arith(&kind, &a, b);
                    let bd = st.bounds(&r);
                    return c1(st, Val::I(ops::wrap_b(&r, w, sg, bd)));
                }
                if m.starts_with("overflowing_") && ["add", "sub", "mul"].contains(&kind.as_str()) {
                    let r = arith(&kind, &a, b);
                    let bd = st.bounds(&r);
                    let v = ops::wrap_b(&r, w, sg, bd);
                    let o = if bd.0 >= lo && bd.1 <= hi { Int::C(0) } else { opaque_bool() };
                    return c1(st, Val::agg(vec![Val::I(v), Val::I(o)]));
                }
                match m {
                    "abs_diff" => {
                        let (x, y) = fork(st, ops::ge(&a, b));
                        let mut outs = vec![];
                        if let Some(x) = x {
                            outs.push((x, Val::I(ops::sub(&a, b))));
                        }
                        if let Some(y) = y {
                            outs.push((y, Val::I(ops::sub(b, &a))));
                        }
                        return Ok(outs);
                    }
                    "div_ceil" if !sg => {
                        let z = ops::eq(b, &Int::C(0)).not();
                        if !check(it, &mut st, z, "division by zero", b.loss(), String::new()) {
                            return Ok(vec![]);
                        }
                        return c1(st, Val::I(ops::div(&ops::sub(&ops::add(&a, b), &Int::C(1)), b)));
                    }
                    "is_multiple_of" => {
                        if let Int::C(k) = b {
                            if *k != 0 {
                                return c1(st, Val::I(ops::eq(&ops::rem(&a, b), &Int::C(0)).int()));
                            }
                        }
                    }
                    "rem_euclid" | "div_euclid" => {
                        if st.bounds(&a).0 >= 0 && st.bounds(b).0 > 0 {
                            let r = if m == "rem_euclid" { ops::rem(&a, b) } else { ops::div(&a, b) };
                            return c1(st, Val::I(r));
                        }
                        if let (Int::C(x), Int::C(y)) = (&a, b) {
                            if *y != 0 {
                                return c1(st, Val::c(if m == "rem_euclid" { x.rem_euclid(*y) } else { x.div_euclid(*y) }));
                            }
                        }
                        if m == "rem_euclid" && st.bounds(b).0 > 0 {
                            let z = st.bounds(b).1 - 1;
                            return c1(st, Val::I(Int::of_atom(fresh_atom(0, z, 1))));
                        }
                    }
                    "pow" => {
                        if let Int::C(n) = b {
                            let mut r = Int::C(1);
                            for _ in 0..(*n).min(64) {
                                r = ops::mul(&r, &a);
                            }
                            let t = ops::ge(&Int::C(hi), &r);
                            let d = show(&st, &r);
                            if !check(it, &mut st, t, "arithmetic overflow (pow)", r.loss(), d) {
                                return Ok(vec![]);
                            }
                            let t = ops::ge(&r, &Int::C(lo));
                            let d = show(&st, &r);
                            if !check(it, &mut st, t, "arithmetic overflow (pow)", r.loss(), d) {
                                return Ok(vec![]);
                            }
                            return c1(st, Val::I(r));
                        }
                    }
                    "wrapping_shl" | "wrapping_shr" => {
                        if let Int::C(n) = b {
                            let n = Int::C(n.rem_euclid(w as i128));
                            let r = if m == "wrapping_shl" { ops::shl(&a, &n, w, sg) } else { ops::shr(&a, &n, w) };
                            return c1(st, Val::I(r));
                        }
                    }
                    "checked_shl" | "checked_shr" => {
                        let (x, y) = fork(st, lt(b, &Int::C(w as i128)));
                        let mut outs = vec![];
                        if let Some(x) = x {
                            let r = if m == "checked_shl" { ops::shl(&a, b, w, sg) } else { ops::shr(&a, b, w) };
                            outs.push((x, Val::some(Val::I(r))));
                        }
                        if let Some(y) = y {
                            outs.push((y, Val::none()));
                        }
                        return Ok(outs);
                    }
                    _ => {}
                }
            }
            match m {
                "count_ones" => return c1(st, Val::I(ops::popcount(&a, w))),
                "count_zeros" => return c1(st, Val::I(ops::sub(&Int::C(w as i128), &ops::popcount(&a, w)))),
                "abs" | "unsigned_abs" if sg => {
                    let (x, y) = fork(st, ops::ge(&a, &Int::C(0)));
                    let mut outs = vec![];
                    if let Some(x) = x {
                        outs.push((x, Val::I(a.clone())));
                    }
                    if let Some(mut y) = y {
                        let n = ops::sub(&Int::C(0), &a);
                        if m == "abs" {
                            let t = ops::ge(&Int::C(hi), &n);
                            let d = show(&y, &a);
                            if !check(it, &mut y, t, "arithmetic overflow (abs)", a.loss(), d) {
                                return Ok(outs);
                            }
                        }
                        outs.push((y, Val::I(n)));
                    }
                    return Ok(outs);
                }
                "is_power_of_two" | "from_str_radix" => {}
                "reverse_bits" => {
                    if let Some(bits) = a.bits(w as usize) {
                        let mut v = bits;
                        v.resize(w as usize, Bit::Z);
                        v.reverse();
                        return c1(st, Val::I(Int::of_bits(v)));
                    }
                }
                "trailing_zeros" | "leading_zeros" => {
                    if let Int::C(c) = a {
                        let v = if m == "trailing_zeros" { if c == 0 { w } else { c.trailing_zeros() } } else { (0..w).rev().take_while(|k| (c >> k) & 1 == 0).count() as u32 };
                        return c1(st, Val::c(v as i128));
                    }
                    return c1(st, Val::I(Int::of_atom(fresh_atom(0, w as i128, 1))));
                }
                _ => {}
            }
        }
    }
    if (m == "from_u32" || m == "from_digit") && has("char") {
        if let Some(a) = int(&args[0]) {
            if m == "from_u32" {
                if st.bounds(&a).1 < 0xD800 && st.bounds(&a).0 >= 0 {
                    return c1(st, Val::some(Val::I(a)));
                }
            } else if let Some(Int::C(radix)) = int(&args[1]) {
                let (x, y) = fork(st, lt(&a, &Int::C(radix)));
                let mut outs = vec![];
                if let Some(x) = x {
                    let (d, l) = fork(x, lt(&a, &Int::C(10)));
                    if let Some(d) = d {
                        outs.push((d, Val::some(Val::I(ops::add(&a, &Int::C(48))))));
                    }
                    if let Some(l) = l {
                        outs.push((l, Val::some(Val::I(ops::add(&a, &Int::C(87))))));
                    }
                }
                if let Some(y) = y {
                    outs.push((y, Val::none()));
                }
                return Ok(outs);
            }
            let v = Val::Alt(Rc::new(vec![AltV { g: None, e: EnumV { var: 0, f: vec![] } }, AltV { g: None, e: EnumV { var: 1, f: vec![Val::I(a)] } }]));
            return c1(st, v);
        }
    }
    // ---- image ----
    if fr.krate == "image" {
        return image_fn(it, st, fr, args, ret);
    }
    Err((st, args))
}
fn prim_of(p: &str) -> (u32, bool) {
    for (n, w, s) in [("u8", 8, false), ("u16", 16, false), ("u32", 32, false), ("u64", 64, false), ("usize", 64, false), ("u128", 128, false), ("i8", 8, true), ("i16", 16, true), ("i32", 32, true), ("i64", 64, true), ("isize", 64, true), ("i128", 128, true)] {
        if p.contains(&format!("<impl {}>", n)) {
            return (w, s);
        }
    }
    (64, false)
}
fn minmax(mut st: State, min: bool, a: &Int, b: &Int) -> (State, Int) {
    let t = ops::ge(b, a); // a <= b
    match st.decide(t) {
        Some(x) => return (st, if x == min { a.clone() } else { b.clone() }),
        None => {}
    }
    if a == b {
        return (st, a.clone());
    }
    let (p, q) = (a.poly(), b.poly());
    let (p, q) = if p <= q { (p, q) } else { (q, p) };
    let (x, y) = (a.bounds(), b.bounds());
    let (l, h) = if min { (x.0.min(y.0), x.1.min(y.1)) } else { (x.0.max(y.0), x.1.max(y.1)) };
    let at = atom(if min { Def::Min(p, q) } else { Def::Max(p, q) }, l, h, a.loss().max(b.loss()));
    let m = Int::of_atom(at);
    for z in [a, b] {
        let t = if min { ops::ge(z, &m) } else { ops::ge(&m, z) };
        if st.decide(t).is_none() {
            st.assume(t);
        }
    }
    (st, m)
}
fn find_seq(v: &Val) -> Option<Val> {
    match v {
        Val::Seq(_) => Some(v.clone()),
        Val::Bx(x) | Val::Sh(x) => find_seq(x),
        Val::Agg(a) => a.iter().find_map(find_seq),
        _ => None,
    }
}
fn concat(st: &State, a: &Rc<Seq>, b: &Rc<Seq>) -> Val {
    match (a.as_ref(), b.as_ref()) {
        (Seq::Ex(x), Seq::Ex(y)) => {
            let mut v = x.clone();
            v.extend(y.iter().cloned());
            Val::vec(v)
        }
        (x, y) => {
            let mut el = x.el();
            if el == Val::Un {
                el = y.el();
            } else if y.el() != Val::Un {
                el = el_join(st, &abs_el(st, &el), &y.el());
            }
            Val::Seq(Rc::new(Seq::Sum { len: ops::add(&x.len(), &y.len()), el }))
        }
    }
}

fn log_off() -> bool {
    thread_local!(static OFF: bool = std::env::var("BV_LOG").map(|x| x == "off").unwrap_or(false));
    OFF.with(|o| *o)
}
fn image_fn(it: &mut Interp, mut st: State, fr: &Rc<FnRef>, args: Vec<Val>, ret: Ty) -> NR {
    let p = fr.path.as_str();
    let m = p.rsplit("::").next().unwrap_or("");
    let has = |s: &str| p.contains(s);
    let recv = args.first().map(|a| full(it, &st, a));
    let im = recv.as_ref().and_then(img_parts);
    let dynimg = recv.as_ref().and_then(|v| match v {
        Val::Obj(o) => match o.as_ref() {
            Obj::Mark(MARK_DYNIMG, d) => Some(d.clone()),
            _ => None,
        },
        _ => None,
    });
    if let Some(d) = &dynimg {
        match m {
            "dimensions" => return c1(st, Val::agg(vec![d[0].clone(), d[1].clone()])),
            "width" => return c1(st, d[0].clone()),
            "height" => return c1(st, d[1].clone()),
            "grayscale" | "to_luma8" | "into_luma8" | "to_luma" | "luma" => {
                if adt_name(ret).ends_with("ImageBuffer") {
                    if let Some(e) = d.get(2) {
                        return c1(st, e.clone());
                    }
                    return c1(st, Val::agg(vec![d[0].clone(), d[1].clone(), Val::obj(Obj::Mark(MARK_PIXFN, vec![])), Val::Un, Val::Un]));
                }
                if m == "grayscale" {
                    return c1(st, recv.unwrap());
                }
            }
            "clone" => return c1(st, recv.unwrap()),
            "in_bounds" => {
                if let (Some(w), Some(h), Some(x), Some(y)) = (int(&d[0]), int(&d[1]), int(&args[1]), int(&args[2])) {
                    return bounds_fork(st, &x, &y, &w, &h);
                }
            }
            _ => {}
        }
    }
    // a copy to draw on: nothing is read back
    if matches!(m, "to_rgb8" | "to_rgba8") && args.len() == 1 {
        if let Some(Val::En(e)) = &recv {
            if let Some(a) = e.f.first().and_then(img_parts) {
                return c1(st, Val::agg(vec![a[0].clone(), a[1].clone(), Val::obj(Obj::Mark(MARK_DRAWING, vec![])), Val::Un, Val::Un]));
            }
        }
    }
    if let Some(a) = &im {
        let (w, h) = (int(&a[0]), int(&a[1]));
        if let (Some(w), Some(h)) = (w, h) {
            let xy = || -> Option<(Int, Int)> { Some((int(args.get(1)?)?, int(args.get(2)?)?)) };
            match m {
                "dimensions" => return c1(st, Val::agg(vec![a[0].clone(), a[1].clone()])),
                "width" => return c1(st, a[0].clone()),
                "height" => return c1(st, a[1].clone()),
                "clone" => return c1(st, recv.unwrap()),
                "in_bounds" => {
                    if let Some((x, y)) = xy() {
                        return bounds_fork(st, &x, &y, &w, &h);
                    }
                }
                "get_pixel" | "get_pixel_mut" | "put_pixel" | "index" | "index_mut" => {
                    let xy2 = xy().or_else(|| match args.get(1) {
                        Some(Val::Agg(t)) if t.len() == 2 => Some((int(&t[0])?, int(&t[1])?)),
                        _ => None,
                    });
                    if let Some((x, y)) = xy2 {
                        for (c, d, n) in [(&x, &w, "x"), (&y, &h, "y")] {
                            let t = lt(c, d);
                            let det = format!("{} = {} limit {}", n, show(&st, c), show(&st, d));
                            let l = c.loss().max(d.loss());
                            if !check(it, &mut st, t, &format!("pixel {} out of bounds", n), l, det) {
                                return Ok(vec![]);
                            }
                        }
                        if matches!(&a[2], Val::Obj(o) if matches!(o.as_ref(), Obj::Mark(MARK_DRAWING, _))) {
                            if m == "put_pixel" {
                                return c1(st, Val::unit());
                            }
                            return Ok(it.unknown(st, p, &args, ret));
                        }
                        if m == "get_pixel" || m == "index" {
                            let v = img_px(&st, a, &x, &y);
                            return c1(st, Val::sh(v));
                        }
                        if let Some(r) = place(it, &st, &args[0]) {
                            if let (Some(xc), Some(yc), Some(wc), true) = (x.c(), y.c(), w.c(), is_exact(a)) {
                                let r = step(&step(&r, Step::F(2)), Step::I((yc * wc + xc) as usize));
                                if m == "put_pixel" {
                                    setv(it, &mut st, &r, args[3].clone());
                                    return c1(st, Val::unit());
                                }
                                return c1(st, Val::Ref(Rc::new(r)));
                            }
                            let cur = img_px(&st, a, &x, &y);
                            if m == "put_pixel" {
                                let el = abs_el(&st, &cur);
                                let el = pix_join(&st, &el, &args[3]);
                                setv(it, &mut st, &step(&r, Step::F(2)), el);
                                return c1(st, Val::unit());
                            }
                            // written through a reference: any value from now on
                            setv(it, &mut st, &step(&r, Step::F(2)), pix(Val::I(Int::of_atom(fresh_atom(0, 255, 1)))));
                            setv(it, &mut st, &step(&r, Step::F(4)), cur);
                            return c1(st, Val::Ref(Rc::new(step(&r, Step::F(4)))));
                        }
                    }
                }
                "get_pixel_checked" => {
                    if let Some((x, y)) = xy() {
                        let (i, o) = (bounds_fork(st, &x, &y, &w, &h).ok().unwrap(), ());
                        let _ = o;
                        let outs = i
                            .into_iter()
                            .map(|(s, v)| if v == Val::b(true) { let px = img_px(&s, a, &x, &y); (s, Val::some(Val::sh(px))) } else { (s, Val::none()) })
                            .collect();
                        return Ok(outs);
                    }
                }
                "enumerate_pixels" | "pixels" | "rows" | "enumerate_rows" if m == "enumerate_pixels" || m == "pixels" => {
                    return c1(st, Val::obj(Obj::Mark(MARK_PIXITER, vec![Val::c(if m == "pixels" { 1 } else { 0 }), recv.unwrap()])));
                }
                "enumerate_pixels_mut" | "pixels_mut" => {
                    if let Some(r) = place(it, &st, &args[0]) {
                        setv(it, &mut st, &step(&r, Step::F(3)), Val::Un);
                        setv(it, &mut st, &step(&r, Step::F(4)), Val::Un);
                        return c1(st, Val::obj(Obj::Mark(MARK_PIXITER, vec![Val::c(if m == "pixels_mut" { 3 } else { 2 }), Val::Ref(Rc::new(r))])));
                    }
                }
                _ => {}
            }
        }
    }
    if m == "new" && has("ImageBuffer") && args.len() == 2 {
        if let (Some(w), Some(h)) = (int(&args[0]), int(&args[1])) {
            if let (Some(a), Some(b)) = (w.c(), h.c()) {
                if a * b <= 1 << 16 {
                    return c1(st, exact_img(a, b, vec![Val::c(0); (a * b) as usize]));
                }
            }
            return c1(st, img(w, h, pix(Val::c(0))));
        }
    }
    if m == "from_pixel" && has("ImageBuffer") && args.len() == 3 {
        if let (Some(w), Some(h)) = (int(&args[0]), int(&args[1])) {
            return c1(st, img(w, h, args[2].clone()));
        }
    }
    if m == "next" && has("Pixels") {
        if let Some(r) = place(it, &st, &args[0]) {
            let v = it.read_ref(&st, &r);
            if let Val::Obj(o) = &v {
                if let Obj::Mark(MARK_PIXITER, d) = o.as_ref() {
                    let kind = int(&d[0]).and_then(|i| i.c()).unwrap_or(0);
                    let (im, tgt) = match &d[1] {
                        Val::Ref(t) => (it.read_ref(&st, t), Some(t.clone())),
                        v => (v.clone(), None),
                    };
                    if let Some(mut a) = img_parts(&im) {
                        if let (Some(w), Some(h)) = (int(&a[0]), int(&a[1])) {
                            // commit the pixel handed out last
                            if let Some(t) = &tgt {
                                if a[4] != Val::Un {
                                    let out = pix_join(&st, &a[3], &a[4]);
                                    setv(it, &mut st, &step(t, Step::F(3)), out);
                                    setv(it, &mut st, &step(t, Step::F(4)), Val::Un);
                                    a = img_parts(&it.read_ref(&st, t)).unwrap();
                                }
                            }
                            if let (Some(wc), Some(hc), true) = (w.c(), h.c(), is_exact(&a)) {
                                let at = d.get(2).and_then(|v| int(v)).and_then(|i| i.c()).unwrap_or(0);
                                if at >= wc * hc {
                                    return c1(st, Val::none());
                                }
                                let (x, y) = (Int::C(at % wc), Int::C(at / wc));
                                let px = match &tgt {
                                    Some(t) => Val::Ref(Rc::new(step(&step(t, Step::F(2)), Step::I(at as usize)))),
                                    None => Val::sh(img_px(&st, &a, &x, &y)),
                                };
                                setv(it, &mut st, &r, Val::obj(Obj::Mark(MARK_PIXITER, vec![d[0].clone(), d[1].clone(), Val::c(at + 1)])));
                                return c1(st, Val::some(if kind & 1 == 1 { px } else { Val::agg(vec![Val::I(x), Val::I(y), px]) }));
                            }
                            let more = opaque_cond();
                            let (y1, n1) = fork(st, Tr::L(more, false));
                            let mut outs = vec![];
                            let mut s = y1.unwrap();
                            let x = Int::of_atom(fresh_atom(0, w.bounds().1.clamp(1, 1 << 32) - 1, 0));
                            let y = Int::of_atom(fresh_atom(0, h.bounds().1.clamp(1, 1 << 32) - 1, 0));
                            if s.assume(lt(&x, &w)) && s.assume(lt(&y, &h)) {
                                let px = img_px(&s, &a, &x, &y);
                                let pv = match &tgt {
                                    Some(t) => {
                                        setv(it, &mut s, &step(t, Step::F(4)), px);
                                        Val::Ref(Rc::new(step(t, Step::F(4))))
                                    }
                                    None => Val::sh(px),
                                };
                                let item = if kind & 1 == 1 { pv } else { Val::agg(vec![Val::I(x), Val::I(y), pv]) };
                                outs.push((s, Val::some(item)));
                            }
                            let mut n = n1.unwrap();
                            if let Some(t) = &tgt {
                                let b = img_parts(&it.read_ref(&n, t)).unwrap();
                                if b[3] != Val::Un {
                                    let e = b[3].clone();
                                    setv(it, &mut n, &step(t, Step::F(2)), e);
                                    setv(it, &mut n, &step(t, Step::F(3)), Val::Un);
                                }
                            }
                            outs.push((n, Val::none()));
                            return Ok(outs);
                        }
                    }
                }
            }
        }
    }
    if has("EnumeratePixels") || has("Pixels") {
        if has("as std::iter::Iterator") && m != "size_hint" {
            if let Some(d) = default_method(fr) {
                return Ok(it.enter(st, &d, args, false, ret));
            }
        }
    }
    if m == "grayscale" || m == "to_luma8" {
        return Ok(it.unknown(st, p, &args, ret));
    }
    // pixels: Agg[Seq[channels]]
    if has("Luma<T>") || has("color::") {
        match m {
            "channels" => {
                let v = full(it, &st, &args[0]);
                if let Val::Agg(a) = v {
                    return c1(st, Val::sh(a[0].clone()));
                }
            }
            "channels_mut" => {
                if let Some(r) = place(it, &st, &args[0]) {
                    return c1(st, Val::Ref(Rc::new(step(&r, Step::F(0)))));
                }
            }
            "index" | "index_mut" => {
                let v = full(it, &st, &args[0]);
                if let (Val::Agg(a), Some(i)) = (&v, int(&args[1])) {
                    if let Val::Seq(s) = &a[0] {
                        let t = lt(&i, &s.len());
                        let d = show(&st, &i);
                        if !check(it, &mut st, t, "index out of bounds", i.loss(), d) {
                            return Ok(vec![]);
                        }
                        if m == "index" {
                            return c1(st.clone(), Val::sh(seq_get(&st, s, &i)));
                        }
                        if let Some(r) = place(it, &st, &args[0]) {
                            return c1(st, Val::Ref(Rc::new(step(&step(&r, Step::F(0)), ix_step(&i)))));
                        }
                    }
                }
            }
            "clone" => {
                let v = full(it, &st, &args[0]);
                return c1(st, v);
            }
            "eq" | "ne" | "to_luma" | "map" => {}
            _ => {}
        }
    }
    if m == "get_pixel" || m == "dimensions" || m == "put_pixel" || m == "enumerate_pixels" {
        return Ok(it.unknown(st, p, &args, ret));
    }
    if has("color::") || has("traits::") {
        return Err((st, args));
    }
    Ok(it.unknown(st, p, &args, ret))
}
fn bounds_fork(st: State, x: &Int, y: &Int, w: &Int, h: &Int) -> NR {
    let mut outs = vec![];
    let (a, b) = fork(st, lt(x, w));
    if let Some(b) = b {
        outs.push((b, Val::b(false)));
    }
    if let Some(a) = a {
        let (a, b) = fork(a, lt(y, h));
        if let Some(b) = b {
            outs.push((b, Val::b(false)));
        }
        if let Some(a) = a {
            outs.push((a, Val::b(true)));
        }
    }
    Ok(outs)
}

fn intrinsic(it: &mut Interp, mut st: State, fr: &Rc<FnRef>, n: &str, mut args: Vec<Val>, ret: Ty) -> NR {
    let t = ty_arg(&fr.args, 0);
    let (w, sg) = t.map(|t| { let i = ity(t); (i.w, i.s) }).unwrap_or((64, false));
    let (lo, hi) = if w >= 128 { (i128::MIN, i128::MAX) } else { ops::range_of(w, sg) };
    let a = args.first().and_then(int);
    let b = args.get(1).and_then(int);
    match n {
        "discriminant_value" => {
            let v = full(it, &st, &args[0]);
            if let Some(t) = t {
                match &v {
                    Val::En(e) => return c1(st, Val::c(discr_of(t, e.var))),
                    Val::Alt(a) => {
                        let mut outs = vec![];
                        for x in a.iter() {
                            let mut s = st.clone();
                            if let Some((c, pos)) = x.g {
                                if !s.assume(Tr::L(c, !pos)) {
                                    continue;
                                }
                            }
                            // remember which variant it was
                            if let Some(r) = place(it, &s, &args[0]) {
                                setv(it, &mut s, &r, Val::En(Rc::new(x.e.clone())));
                            }
                            outs.push((s, Val::c(discr_of(t, x.e.var))));
                        }
                        return Ok(outs);
                    }
                    _ => {}
                }
            }
        }
        "likely" | "unlikely" | "black_box" | "select_unpredictable" if n != "select_unpredictable" => return c1(st, args.swap_remove(0)),
        "cold_path" | "assert_inhabited" | "assume" => return c1(st, Val::unit()),
        "abort" | "unreachable" => {
            fail(it, &st, "abort", 0, String::new());
            return Ok(vec![]);
        }
        "integer_min" | "integer_max" => {
            if let (Some(a), Some(b)) = (&a, &b) {
                let (st, m) = minmax(st, n == "integer_min", a, b);
                return c1(st, Val::I(m));
            }
        }
        "ctpop" => {
            if let Some(a) = a {
                return c1(st, Val::I(ops::popcount(&a, w)));
            }
        }
        "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
            if let (Some(a), Some(b)) = (a, b) {
                let r = match &n[..3] {
                    "add" => ops::add(&a, &b),
                    "sub" => ops::sub(&a, &b),
                    _ => ops::mul(&a, &b),
                };
                let (x, y) = fork(st, ops::ge(&Int::C(hi), &r));
                let mut outs = vec![];
                if let Some(y) = y {
                    let bd = y.bounds(&r);
                    outs.push((y, Val::agg(vec![Val::I(ops::wrap_b(&r, w, sg, bd)), Val::b(true)])));
                }
                if let Some(x) = x {
                    let (x, y) = fork(x, ops::ge(&r, &Int::C(lo)));
                    if let Some(y) = y {
                        let bd = y.bounds(&r);
                        outs.push((y, Val::agg(vec![Val::I(ops::wrap_b(&r, w, sg, bd)), Val::b(true)])));
                    }
                    if let Some(x) = x {
                        outs.push((x, Val::agg(vec![Val::I(r), Val::b(false)])));
                    }
                }
                return Ok(outs);
            }
        }
        "wrapping_add" | "wrapping_sub" | "wrapping_mul" => {
            if let (Some(a), Some(b)) = (a, b) {
                let r = match n {
                    "wrapping_add" => ops::add(&a, &b),
                    "wrapping_sub" => ops::sub(&a, &b),
                    _ => ops::mul(&a, &b),
                };
                let bd = st.bounds(&r);
                return c1(st, Val::I(ops::wrap_b(&r, w, sg, bd)));
            }
        }
        "saturating_add" | "saturating_sub" => {
            if let (Some(a), Some(b)) = (a, b) {
                let r = if n.ends_with("add") { ops::add(&a, &b) } else { ops::sub(&a, &b) };
                let mut outs = vec![];
                let (x, y) = fork(st, ops::ge(&Int::C(hi), &r));
                if let Some(y) = y {
                    outs.push((y, Val::c(hi)));
                }
                if let Some(x) = x {
                    let (x, y) = fork(x, ops::ge(&r, &Int::C(lo)));
                    if let Some(y) = y {
                        outs.push((y, Val::c(lo)));
                    }
                    if let Some(x) = x {
                        outs.push((x, Val::I(r)));
                    }
                }
                return Ok(outs);
            }
        }
        "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_shl" | "unchecked_shr" | "exact_div" | "unchecked_div" | "unchecked_rem" | "disjoint_bitor" => {
            if let (Some(a), Some(b)) = (a, b) {
                let r = match n {
                    "unchecked_add" => ops::add(&a, &b),
                    "unchecked_sub" => ops::sub(&a, &b),
                    "unchecked_mul" => ops::mul(&a, &b),
                    "unchecked_shl" => ops::shl(&a, &b, w, sg),
                    "unchecked_shr" => ops::shr(&a, &b, w),
                    "unchecked_rem" => ops::rem(&a, &b),
                    "disjoint_bitor" => ops::or(&a, &b, w),
                    _ => ops::div(&a, &b),
                };
                return c1(st, Val::I(r));
            }
        }
        "three_way_compare" => {
            if let (Some(a), Some(b)) = (a, b) {
                let mut outs = vec![];
                // Ordering: Less = -1 (variant 0), Equal (1), Greater (2)
                let (l, ge) = fork(st, lt(&a, &b));
                if let Some(l) = l {
                    outs.push((l, Val::en(0, vec![])));
                }
                if let Some(ge) = ge {
                    let (e, g) = fork(ge, ops::eq(&a, &b));
                    if let Some(e) = e {
                        outs.push((e, Val::en(1, vec![])));
                    }
                    if let Some(g) = g {
                        outs.push((g, Val::en(2, vec![])));
                    }
                }
                return Ok(outs);
            }
        }
        "rotate_left" | "rotate_right" => {
            if let (Some(a), Some(Int::C(k))) = (a, b) {
                if let Some(mut v) = a.bits(w as usize) {
                    v.resize(w as usize, Bit::Z);
                    let k = (k as usize) % w as usize;
                    if n == "rotate_left" {
                        v.rotate_right(k)
                    } else {
                        v.rotate_left(k)
                    }
                    return c1(st, Val::I(Int::of_bits(v)));
                }
            }
        }
        "fabs" | "fabsf64" | "sqrtf64" | "roundf64" | "floorf64" | "ceilf64" | "truncf64" => {
            if let Val::F(x) = &args[0] {
                let op = if n.starts_with("fabs") { "abs" } else { ["sqrt", "round", "floor", "ceil", "trunc"].iter().find(|o| n.starts_with(**o)).unwrap() };
                return c1(st, Val::F(Flt::un(op, *x)));
            }
        }
        "size_of" | "min_align_of" | "align_of" => {
            if let Some(t) = t {
                if let Some(s) = type_size(t) {
                    return c1(st, Val::c(s as i128));
                }
            }
        }
        "needs_drop" => return c1(st, Val::I(opaque_bool())),
        "is_val_statically_known" => return c1(st, Val::b(false)),
        "ub_checks" | "overflow_checks" | "contract_checks" => return c1(st, Val::b(false)),
        "read_via_copy" | "volatile_load" => {
            let v = deref(it, &st, &args[0]);
            return c1(st, v);
        }
        "write_via_move" => {
            if let Some(r) = place(it, &st, &args[0]) {
                setv(it, &mut st, &r, args[1].clone());
                return c1(st, Val::unit());
            }
        }
        "transmute" | "transmute_unchecked" => {
            if let Some(i) = a {
                return c1(st, Val::I(i));
            }
        }
        _ => {}
    }
    if fr.inst.has_body() && body_of(fr).is_some() {
        return Err((st, args));
    }
    Ok(it.unknown(st, &format!("intrinsic {}", n), &args, ret))
}
