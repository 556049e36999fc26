//! Abstract values.
use crate::flt::Flt;
use crate::term::*;
use rustc_public::ty::*;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Un,
    /// unknown; 0 arbitrary input, 1 joined, 2 not modelled
    Top(u8),
    I(Int),
    F(Flt),
    Agg(Rc<Vec<Val>>),
    En(Rc<EnumV>),
    /// one of several variants, optionally guarded by literals
    Alt(Rc<Vec<AltV>>),
    Seq(Rc<Seq>),
    Str(Rc<StrV>),
    Ref(Rc<RefV>),
    /// shared reference, as a snapshot of its referent
    Sh(Rc<Val>),
    Bx(Rc<Val>),
    /// pointer unsized to a trait object: concrete type of the pointee
    Dyn(Ty, Rc<Val>),
    Fn(Rc<FnV>),
    Obj(Rc<Obj>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct EnumV {
    pub var: usize,
    pub f: Vec<Val>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct AltV {
    pub g: Option<(CondId, bool)>,
    pub e: EnumV,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Seq {
    Ex(Vec<Val>),
    /// any length, every element described by `el`
    Sum { len: Int, el: Val },
}
impl Seq {
    pub fn exact(v: Vec<Val>) -> Seq {
        Seq::Ex(v)
    }
    pub fn len(&self) -> Int {
        match self {
            Seq::Ex(v) => Int::C(v.len() as i128),
            Seq::Sum { len, .. } => len.clone(),
        }
    }
    pub fn el(&self) -> Val {
        match self {
            Seq::Ex(v) => {
                let mut it = v.iter();
                match it.next() {
                    None => Val::Un,
                    Some(x) => {
                        let mut r = x.clone();
                        for y in it {
                            if &r != y {
                                r = hull(&r, y);
                            }
                        }
                        r
                    }
                }
            }
            Seq::Sum { el, .. } => el.clone(),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    Lit(String),
    Chr(Int),
    /// one formatted argument: trait letter, flags, width, precision, value
    Fmt(char, u32, Option<u32>, Option<u32>, Val),
    /// bytes interpreted as UTF-8
    Bytes(Val),
    Opaque(u8),
}
#[derive(Clone, Debug, PartialEq)]
pub struct StrV {
    pub p: Vec<Part>,
}
impl StrV {
    pub fn lit(s: &str) -> StrV {
        StrV { p: if s.is_empty() { vec![] } else { vec![Part::Lit(s.to_string())] } }
    }
    pub fn push(&mut self, p: Part) {
        match (self.p.last_mut(), p) {
            (Some(Part::Lit(a)), Part::Lit(b)) => a.push_str(&b),
            (_, Part::Lit(b)) if b.is_empty() => {}
            (Some(Part::Opaque(l)), Part::Opaque(m)) => *l = (*l).max(m),
            (_, Part::Chr(Int::C(c))) => {
                let s = char::from_u32(c as u32).unwrap_or('?').to_string();
                self.push(Part::Lit(s));
            }
            (_, p) => self.p.push(p),
        }
    }
    pub fn text(&self) -> Option<String> {
        match &self.p[..] {
            [] => Some(String::new()),
            [Part::Lit(s)] => Some(s.clone()),
            _ => None,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    F(usize),
    V(usize),
    I(usize),
    S(Int),
    B,
    R(Int, Int), // sub-slice from, length
}
#[derive(Clone, Debug, PartialEq)]
pub struct RefV {
    pub frame: usize,
    pub local: usize,
    pub path: Vec<Step>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum FnV {
    Def(FnDef, GenericArgs),
    Inst(rustc_public::mir::mono::Instance),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Obj {
    /// slice, vec or array iterator: sequence, position, end; by = 0 yields references, 1 values
    It { seq: Rc<Seq>, pos: Int, end: Int, by: u8 },
    /// mutable slice iterator
    ItMut { r: Rc<RefV>, pos: Int, end: Int },
    Chars { p: Vec<Part> },
    /// format arguments
    FmtArg(char, Val),
    FmtArgs(Rc<StrV>),
    /// marker values used by scenarios
    Mark(u32, Vec<Val>),
}

impl Val {
    pub fn unit() -> Val {
        Val::Agg(Rc::new(vec![]))
    }
    pub fn c(x: i128) -> Val {
        Val::I(Int::C(x))
    }
    pub fn b(x: bool) -> Val {
        Val::I(Int::C(x as i128))
    }
    pub fn sh(v: Val) -> Val {
        Val::Sh(Rc::new(v))
    }
    pub fn en(var: usize, f: Vec<Val>) -> Val {
        Val::En(Rc::new(EnumV { var, f }))
    }
    pub fn agg(f: Vec<Val>) -> Val {
        Val::Agg(Rc::new(f))
    }
    pub fn none() -> Val {
        Val::en(0, vec![])
    }
    pub fn some(v: Val) -> Val {
        Val::en(1, vec![v])
    }
    pub fn ok(v: Val) -> Val {
        Val::en(0, vec![v])
    }
    pub fn err(v: Val) -> Val {
        Val::en(1, vec![v])
    }
    pub fn vec(v: Vec<Val>) -> Val {
        Val::Seq(Rc::new(Seq::Ex(v)))
    }
    pub fn str(s: &str) -> Val {
        Val::Str(Rc::new(StrV::lit(s)))
    }
    pub fn obj(o: Obj) -> Val {
        Val::Obj(Rc::new(o))
    }
    /// strip references, boxes and trait-object wrappers
    pub fn peel(&self) -> &Val {
        match self {
            Val::Sh(v) | Val::Bx(v) => v.peel(),
            Val::Dyn(_, v) => v.peel(),
            x => x,
        }
    }
    pub fn loss(&self) -> u8 {
        match self {
            Val::Un => 0,
            Val::Top(l) => *l,
            Val::I(i) => i.loss(),
            Val::F(f) => f.info().loss,
            Val::Agg(v) => v.iter().map(|x| x.loss()).max().unwrap_or(0),
            Val::En(e) => e.f.iter().map(|x| x.loss()).max().unwrap_or(0),
            Val::Alt(v) => v.iter().flat_map(|a| a.e.f.iter()).map(|x| x.loss()).max().unwrap_or(0),
            Val::Seq(s) => match s.as_ref() {
                Seq::Ex(v) => v.iter().map(|x| x.loss()).max().unwrap_or(0),
                Seq::Sum { len, el } => len.loss().max(el.loss()),
            },
            Val::Sh(v) | Val::Bx(v) | Val::Dyn(_, v) => v.loss(),
            _ => 0,
        }
    }
}

/// path-insensitive upper bound of two values (no new relations)
pub fn hull(a: &Val, b: &Val) -> Val {
    Joiner { gate: None, memo: None, widen: None, keep: None }.val(a, b)
}

pub struct Joiner<'a> {
    /// literal that is true on the `b` side and false on the `a` side
    pub gate: Option<CondId>,
    /// named phi atoms: pairs already given a name
    pub memo: Option<&'a mut PhiMemo>,
    /// set when computing a loop invariant
    pub widen: Option<&'a mut WidenCx>,
    /// with a gate: the value with the bounds of its side (true for the second)
    pub keep: Option<&'a dyn Fn(&Int, bool) -> Int>,
}
#[derive(Default)]
pub struct PhiMemo {
    pub i: std::collections::HashMap<(Int, Int), Int>,
    pub f: std::collections::HashMap<(Flt, Flt), Flt>,
    /// bounds to attach to the new atoms: the bounds of both sides
    pub bounds_of: Option<Box<dyn Fn(&Int, bool) -> (i128, i128)>>,
}
pub struct WidenCx {
    pub changed: bool,
}

impl<'a> Joiner<'a> {
    pub fn int(&mut self, a: &Int, b: &Int) -> Int {
        if a == b {
            return a.clone();
        }
        if let Some(c) = self.gate {
            if let Some(k) = self.keep {
                return crate::ops::ite(c, &k(a, false), &k(b, true));
            }
            return crate::ops::ite(c, a, b);
        }
        if let Some(m) = self.memo.as_deref_mut() {
            if let Some(x) = m.i.get(&(a.clone(), b.clone())) {
                return x.clone();
            }
            let (x, y) = match &m.bounds_of {
                Some(f) => (f(a, false), f(b, true)),
                None => (a.bounds(), b.bounds()),
            };
            let r = Int::of_atom(fresh_atom(x.0.min(y.0), x.1.max(y.1), a.loss().max(b.loss()).max(1)));
            m.i.insert((a.clone(), b.clone()), r.clone());
            return r;
        }
        let (x, y) = (a.bounds(), b.bounds());
        Int::of_atom(fresh_atom(x.0.min(y.0), x.1.max(y.1), a.loss().max(b.loss()).max(1)))
    }
    pub fn flt(&mut self, a: Flt, b: Flt) -> Flt {
        if a == b {
            return a;
        }
        if let Some(c) = self.gate {
            return Flt::ite(c, a, b);
        }
        if let Some(m) = self.memo.as_deref_mut() {
            if let Some(x) = m.f.get(&(a, b)) {
                return *x;
            }
        }
        let (x, y) = (a.info(), b.info());
        let r = Flt::fresh(x.lo.min(y.lo), x.hi.max(y.hi), x.nan || y.nan, x.loss.max(y.loss).max(1));
        if let Some(m) = self.memo.as_deref_mut() {
            m.f.insert((a, b), r);
        }
        r
    }
    pub fn vals(&mut self, a: &[Val], b: &[Val]) -> Vec<Val> {
        a.iter().zip(b).map(|(x, y)| self.val(x, y)).collect()
    }
    pub fn seq(&mut self, x: &Rc<Seq>, y: &Rc<Seq>) -> Rc<Seq> {
        if Rc::ptr_eq(x, y) {
            return x.clone();
        }
        match (x.as_ref(), y.as_ref()) {
            (Seq::Ex(p), Seq::Ex(q)) if p.len() == q.len() => Rc::new(Seq::Ex(self.vals(p, q))),
            (p, q) => {
                let len = self.int(&p.len(), &q.len());
                let (e, f) = (p.el(), q.el());
                let el = Joiner { gate: None, memo: None, widen: None, keep: None }.val(&e, &f);
                Rc::new(Seq::Sum { len, el })
            }
        }
    }
    pub fn val(&mut self, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::I(x), Val::I(y)) => Val::I(self.int(x, y)),
            (Val::F(x), Val::F(y)) => Val::F(self.flt(*x, *y)),
            (Val::Agg(x), Val::Agg(y)) => {
                if Rc::ptr_eq(x, y) {
                    a.clone()
                } else if x.len() == y.len() {
                    Val::Agg(Rc::new(self.vals(x, y)))
                } else {
                    Val::Top(2)
                }
            }
            (Val::Un, y) => y.clone(),
            (x, Val::Un) => x.clone(),
            (Val::Top(x), Val::Top(y)) => Val::Top(*x.max(y)),
            (Val::Top(x), y) | (y, Val::Top(x)) => Val::Top((*x).max(y.loss()).max(1)),
            (Val::En(x), Val::En(y)) => {
                if Rc::ptr_eq(x, y) {
                    a.clone()
                } else if x.var == y.var && x.f.len() == y.f.len() {
                    Val::En(Rc::new(EnumV { var: x.var, f: self.vals(&x.f, &y.f) }))
                } else if x.var != y.var {
                    let g = self.gate;
                    Val::Alt(Rc::new(vec![
                        AltV { g: g.map(|c| (c, false)), e: x.as_ref().clone() },
                        AltV { g: g.map(|c| (c, true)), e: y.as_ref().clone() },
                    ]))
                } else {
                    Val::Top(2)
                }
            }
            (Val::En(_), Val::Alt(_)) | (Val::Alt(_), Val::En(_)) | (Val::Alt(_), Val::Alt(_)) => {
                if a == b {
                    return a.clone();
                }
                let l = |v: &Val| -> Vec<AltV> {
                    match v {
                        Val::En(e) => vec![AltV { g: None, e: e.as_ref().clone() }],
                        Val::Alt(v) => v.iter().map(|x| AltV { g: None, e: x.e.clone() }).collect(),
                        _ => vec![],
                    }
                };
                let mut r = l(a);
                for y in l(b) {
                    match r.iter_mut().find(|x| x.e.var == y.e.var && x.e.f.len() == y.e.f.len()) {
                        Some(x) => x.e.f = self.vals(&x.e.f, &y.e.f),
                        None => r.push(y),
                    }
                }
                r.sort_by_key(|x| x.e.var);
                Val::Alt(Rc::new(r))
            }
            (Val::Seq(x), Val::Seq(y)) => Val::Seq(self.seq(x, y)),
            (Val::Str(x), Val::Str(y)) => {
                if x == y {
                    a.clone()
                } else if x.p.len() == y.p.len() && self.gate.is_some() {
                    let mut p = vec![];
                    for (s, t) in x.p.iter().zip(&y.p) {
                        p.push(match (s, t) {
                            (s, t) if s == t => s.clone(),
                            (Part::Chr(c), Part::Chr(d)) => Part::Chr(self.int(c, d)),
                            _ => Part::Opaque(1),
                        });
                    }
                    Val::Str(Rc::new(StrV { p }))
                } else {
                    Val::Str(Rc::new(StrV { p: vec![Part::Opaque(1)] }))
                }
            }
            (Val::Sh(x), Val::Sh(y)) => {
                if Rc::ptr_eq(x, y) {
                    a.clone()
                } else {
                    Val::Sh(Rc::new(self.val(x, y)))
                }
            }
            (Val::Bx(x), Val::Bx(y)) => {
                if Rc::ptr_eq(x, y) {
                    a.clone()
                } else {
                    Val::Bx(Rc::new(self.val(x, y)))
                }
            }
            (Val::Dyn(t, x), Val::Dyn(u, y)) => {
                if t == u {
                    Val::Dyn(*t, Rc::new(self.val(x, y)))
                } else {
                    Val::Top(2)
                }
            }
            (Val::Ref(x), Val::Ref(y)) => {
                if x == y {
                    a.clone()
                } else if x.frame == y.frame && x.local == y.local && x.path.len() == y.path.len() {
                    let mut path = vec![];
                    for (s, t) in x.path.iter().zip(&y.path) {
                        path.push(match (s, t) {
                            (s, t) if s == t => s.clone(),
                            (Step::I(i), Step::I(j)) => Step::S(self.int(&Int::C(*i as i128), &Int::C(*j as i128))),
                            (Step::I(i), Step::S(j)) => Step::S(self.int(&Int::C(*i as i128), j)),
                            (Step::S(i), Step::I(j)) => Step::S(self.int(i, &Int::C(*j as i128))),
                            (Step::S(i), Step::S(j)) => Step::S(self.int(i, j)),
                            (Step::R(i, n), Step::R(j, m)) => Step::R(self.int(i, j), self.int(n, m)),
                            _ => return Val::Top(2),
                        });
                    }
                    Val::Ref(Rc::new(RefV { frame: x.frame, local: x.local, path }))
                } else {
                    Val::Top(2)
                }
            }
            (Val::Fn(x), Val::Fn(y)) if x == y => a.clone(),
            (Val::Obj(x), Val::Obj(y)) => {
                if x == y {
                    return a.clone();
                }
                match (x.as_ref(), y.as_ref()) {
                    (Obj::It { seq: s, pos: p, end: e, by }, Obj::It { seq: s2, pos: p2, end: e2, by: by2 }) if by == by2 => {
                        let r = Obj::It { seq: self.seq(s, s2), pos: self.int(p, p2), end: self.int(e, e2), by: *by };
                        Val::obj(r)
                    }
                    (Obj::ItMut { r, pos: p, end: e }, Obj::ItMut { r: r2, pos: p2, end: e2 }) if r == r2 => {
                        let o = Obj::ItMut { r: r.clone(), pos: self.int(p, p2), end: self.int(e, e2) };
                        Val::obj(o)
                    }
                    (Obj::FmtArg(c, v), Obj::FmtArg(d, w)) if c == d => {
                        let v = self.val(v, w);
                        Val::obj(Obj::FmtArg(*c, v))
                    }
                    (Obj::FmtArgs(s), Obj::FmtArgs(t)) => match self.val(&Val::Str(s.clone()), &Val::Str(t.clone())) {
                        Val::Str(s) => Val::obj(Obj::FmtArgs(s)),
                        _ => Val::Top(2),
                    },
                    (Obj::Mark(k, v), Obj::Mark(l, w)) if k == l && v.len() == w.len() => Val::obj(Obj::Mark(*k, self.vals(v, w))),
                    _ => Val::Top(2),
                }
            }
            (x, y) => {
                if x == y {
                    x.clone()
                } else {
                    Val::Top(2)
                }
            }
        }
    }
}

/// rough shape used to keep states apart at merge points
pub fn shape(v: &Val, depth: u32, out: &mut Vec<u32>) {
    match v {
        Val::Un => out.push(1),
        Val::Top(_) => out.push(2),
        Val::I(Int::C(c)) if depth < 3 && (*c == 0 || *c == 1) => out.push(10 + *c as u32),
        Val::I(_) => out.push(3),
        Val::F(_) => out.push(4),
        Val::En(e) => {
            out.push(100 + e.var as u32);
            if depth < 6 {
                for x in &e.f {
                    shape(x, depth + 1, out)
                }
            }
        }
        Val::Alt(_) => out.push(5),
        Val::Agg(v) => {
            out.push(6);
            if depth < 6 {
                for x in v.iter() {
                    shape(x, depth + 1, out)
                }
            }
        }
        Val::Sh(v) => {
            out.push(7);
            if depth < 6 {
                shape(v, depth + 1, out)
            }
        }
        Val::Bx(v) => {
            out.push(8);
            shape(v, depth + 1, out)
        }
        Val::Dyn(t, _) => {
            out.push(9);
            use rustc_public_bridge::IndexedVal;
            out.push(t.to_index() as u32)
        }
        Val::Seq(_) => out.push(12),
        Val::Str(_) => out.push(13),
        Val::Ref(r) => {
            out.push(14);
            out.push(r.local as u32);
            out.push(r.frame as u32);
        }
        Val::Fn(_) => out.push(15),
        Val::Obj(_) => out.push(16),
    }
}

impl Val {
    pub fn as_exact_ints(&self) -> Option<Vec<Int>> {
        let Val::Seq(s) = self else { return None };
        let Seq::Ex(v) = s.as_ref() else { return None };
        v.iter().map(|x| if let Val::I(i) = x { Some(i.clone()) } else { None }).collect()
    }
}
