//! Abstract interpreter over lowered MIR.
use crate::flt::*;
use crate::ir::*;
use crate::ops::{self, Tr};
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::{AggregateKind, BinOp, CastKind, PointerCoercion, UnOp};
use rustc_public::crate_def::CrateDefType;
use rustc_public::ty::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub type Lit = (CondId, bool);

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub v: Vec<Val>,
}
#[derive(Clone)]
pub struct State {
    pub fr: Vec<Rc<Frame>>,
    /// path facts, sorted
    pub pc: Rc<Vec<Lit>>,
    /// facts about integers (indices into `pc` values)
    pub ar: Rc<Vec<Poly>>,
    pub bnd: Rc<BTreeMap<Atom, (i128, i128)>>,
    /// scenario-owned trace
    pub ghost: Rc<Vec<Val>>,
}
pub type Outs = Vec<(State, Val)>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ObKey {
    pub func: String,
    pub at: String,
    pub kind: String,
}
#[derive(Clone, Debug, Default)]
pub struct Ob {
    pub seen: u64,
    /// 0 discharged; otherwise the least lossy failing evidence, +1 (1 exact, 2 widened, 3 lost)
    pub fail: u8,
    pub detail: String,
    pub local: bool,
    /// the values fail on a path for which an assignment of the unknowns is known
    pub definite: bool,
    pub tried: u32,
}

pub trait Hooks {
    /// intercept a call; `None` continues with the normal treatment
    fn call(&mut self, _it: &mut Interp, _st: &mut State, _f: &Rc<FnRef>, _args: &mut Vec<Val>, _ret: Ty) -> Option<Outs> {
        None
    }
}
pub struct NoHooks;
impl Hooks for NoHooks {}

pub struct Interp {
    pub hooks: Option<Box<dyn Hooks>>,
    pub ob: BTreeMap<ObKey, Ob>,
    pub unmod: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, u64>,
    pub steps: u64,
    pub limit: u64,
    pub calls: HashMap<usize, u64>,
    pub lin_zero: bool,
    pub lin_seen: HashSet<CondId>,
    pub plans: HashMap<Ty, Rc<Plan>>,
    pub depth: usize,
    pub aborted: bool,
    pub widened: BTreeMap<String, u64>,
    pub max_parts: usize,
    /// states that disagree on these conditions are kept apart
    pub pin: Vec<CondId>,
    /// pin every decision that combines several parity checks
    pub autopin: bool,
    /// states with different path facts are kept apart
    pub pin_all: bool,
    pub gf: HashMap<usize, Option<u8>>,
    pub gf_on: bool,
    pub trace: bool,
    pub stubs: HashMap<String, FnDef>,
    pub stack: Vec<String>,
}

/// where the partition-relevant information of a type sits
#[derive(Debug)]
pub enum Plan {
    No,
    Bool,
    Fields(Vec<(usize, Rc<Plan>)>),
    Enum(Vec<Vec<(usize, Rc<Plan>)>>),
    Ptr(Rc<Plan>),
    /// trait object: its concrete type matters
    Dyn,
}

const RET: usize = usize::MAX;
/// exit tests seen in a pass: (some state stays, some state leaves)
pub type Dec = BTreeMap<usize, (bool, bool)>;

impl State {
    pub fn new() -> State {
        State { fr: vec![], pc: Rc::new(vec![]), ar: Rc::new(vec![]), bnd: Rc::new(BTreeMap::new()), ghost: Rc::new(vec![]) }
    }
    pub fn fact(&self, c: CondId) -> Option<bool> {
        match self.pc.binary_search_by_key(&c, |x| x.0) {
            Ok(i) => Some(self.pc[i].1),
            Err(_) => None,
        }
    }
    pub fn abounds(&self, a: Atom, d: u32) -> (i128, i128) {
        let mut b = atom_bounds(a);
        if let Some(x) = self.bnd.get(&a) {
            b = (b.0.max(x.0), b.1.min(x.1));
        }
        if d > 0 && !self.bnd.is_empty() {
            let pb = |p: &Poly| poly_bounds(p, &|x| self.abounds(x, d - 1));
            let r = match atom_def(a) {
                Def::Div(p, q) => {
                    let (pl, ph) = pb(&p);
                    let (ql, qh) = pb(&q);
                    if pl >= 0 && ql > 0 {
                        Some((pl / qh, ph / ql))
                    } else {
                        None
                    }
                }
                Def::Rem(p, q) => {
                    let (pl, ph) = pb(&p);
                    let (ql, qh) = pb(&q);
                    if pl >= 0 && ql > 0 {
                        Some((if ql > ph { pl } else { 0 }, ph.min(qh - 1)))
                    } else {
                        None
                    }
                }
                Def::Ite(c, f, t) => match self.fact(c) {
                    Some(true) => Some(self.ibounds(&t, d - 1)),
                    Some(false) => Some(self.ibounds(&f, d - 1)),
                    None => {
                        let (x, y) = (self.ibounds(&f, d - 1), self.ibounds(&t, d - 1));
                        Some((x.0.min(y.0), x.1.max(y.1)))
                    }
                },
                Def::Min(p, q) => {
                    let (x, y) = (pb(&p), pb(&q));
                    Some((x.0.min(y.0), x.1.min(y.1)))
                }
                Def::Max(p, q) => {
                    let (x, y) = (pb(&p), pb(&q));
                    Some((x.0.max(y.0), x.1.max(y.1)))
                }
                _ => None,
            };
            if let Some(r) = r {
                b = (b.0.max(r.0), b.1.min(r.1));
            }
        }
        b
    }
    pub fn pbounds(&self, p: &Poly) -> (i128, i128) {
        poly_bounds(p, &|a| self.abounds(a, 5))
    }
    pub fn ibounds(&self, i: &Int, d: u32) -> (i128, i128) {
        match i {
            Int::P(p) => poly_bounds(p, &|a| self.abounds(a, d)),
            Int::W(c, f, t) => match self.fact(*c) {
                Some(true) => (*t, *t),
                Some(false) => (*f, *f),
                None => i.bounds(),
            },
            _ => i.bounds(),
        }
    }
    pub fn bounds(&self, i: &Int) -> (i128, i128) {
        self.ibounds(i, 5)
    }
    /// lower bound of p using the linear facts
    pub fn prove_ge0(&self, p: &Poly) -> bool {
        if self.pbounds(p).0 >= 0 {
            return true;
        }
        if p.is_empty() {
            return true;
        }
        let ar = &self.ar;
        let share = |a: &Poly, b: &Poly| a.iter().any(|(m, _)| !m.is_empty() && b.iter().any(|(n, _)| n == m));
        for q in ar.iter() {
            if share(p, q) && self.pbounds(&psub(p, q)).0 >= 0 {
                return true;
            }
        }
        if ar.len() <= 60 {
            for q in ar.iter() {
                if !share(p, q) {
                    continue;
                }
                let r = psub(p, q);
                for s in ar.iter() {
                    if share(&r, s) && self.pbounds(&psub(&r, s)).0 >= 0 {
                        return true;
                    }
                }
            }
        }
        false
    }
    pub fn decide(&self, t: Tr) -> Option<bool> {
        match t {
            Tr::K(b) => Some(b),
            Tr::L(c, n) => {
                if let Some(b) = self.fact(c) {
                    return Some(b ^ n);
                }
                let r = match cond_def(c) {
                    Cond::Ge0(p) => {
                        if self.prove_ge0(&p) {
                            Some(true)
                        } else if self.prove_ge0(&paddc(&pscale(&p, -1), -1)) {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    Cond::Eq0(p) => {
                        let (l, h) = self.pbounds(&p);
                        if l > 0 || h < 0 {
                            Some(false)
                        } else if l == 0 && h == 0 {
                            Some(true)
                        } else if self.prove_ge0(&paddc(&p, -1)) || self.prove_ge0(&paddc(&pscale(&p, -1), -1)) {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    Cond::And(x, xn, y, yn) => match (self.decide(Tr::L(x, xn)), self.decide(Tr::L(y, yn))) {
                        (Some(false), _) | (_, Some(false)) => Some(false),
                        (Some(true), Some(true)) => Some(true),
                        _ => None,
                    },
                    Cond::Par(v) => {
                        let mut r = Some(false);
                        for x in v.iter() {
                            match (r, self.decide(Tr::L(*x, false))) {
                                (Some(a), Some(b)) => r = Some(a ^ b),
                                _ => {
                                    r = None;
                                    break;
                                }
                            }
                        }
                        r
                    }
                    Cond::FCmp(op, a, b) => {
                        // relate to the complementary comparison already known
                        self.fcmp(op, a, b)
                    }
                    _ => None,
                };
                r.map(|b| b ^ n)
            }
        }
    }
    fn fcmp(&self, _op: &'static str, _a: u32, _b: u32) -> Option<bool> {
        None
    }
    /// add a fact; false when contradictory
    pub fn assume(&mut self, t: Tr) -> bool {
        match self.decide(t) {
            Some(b) => {
                if b {
                    if let Tr::L(c, n) = t {
                        if self.fact(c).is_none() {
                            // implied: keep it for gating, it costs nothing
                            let _ = n;
                        }
                    }
                }
                b
            }
            None => {
                if let Tr::L(c, n) = t {
                    self.insert(c, !n);
                    match cond_def(c) {
                        Cond::And(x, xn, y, yn) if !n => return self.assume(Tr::L(x, xn)) && self.assume(Tr::L(y, yn)),
                        Cond::Eq0(p) if n => return !self.all_excluded(&p),
                        _ => {}
                    }
                }
                true
            }
        }
    }
    pub fn insert(&mut self, c: CondId, val: bool) {
        if let Err(i) = self.pc.binary_search_by_key(&c, |x| x.0) {
            Rc::make_mut(&mut self.pc).insert(i, (c, val));
        } else {
            return;
        }
        for p in arith_of(c, val) {
            self.learn(&p);
            Rc::make_mut(&mut self.ar).push(p);
        }
    }
    /// every value a term can have is excluded by the path
    fn all_excluded(&self, p: &Poly) -> bool {
        let split = |p: &Poly| -> (Vec<(Vec<Atom>, i128)>, i128) {
            let k = p.iter().filter(|x| x.0.is_empty()).map(|x| x.1).sum();
            (p.iter().filter(|x| !x.0.is_empty()).map(|x| (x.0.iter().cloned().collect(), x.1)).collect(), k)
        };
        let (t, _) = split(p);
        let rest = Rc::new(p.iter().filter(|x| !x.0.is_empty()).cloned().collect::<Vec<_>>());
        let (lo, hi) = self.pbounds(&rest);
        if hi.saturating_sub(lo) > 300 {
            return false;
        }
        let mut out: HashSet<i128> = HashSet::new();
        for (c, v) in self.pc.iter() {
            if *v {
                continue;
            }
            if let Cond::Eq0(q) = cond_def(*c) {
                let (u, k) = split(&q);
                if u == t {
                    out.insert(-k);
                }
            }
        }
        (lo..=hi).all(|x| out.contains(&x))
    }
    fn learn(&mut self, p: &Poly) {
        // tighten each atom that occurs linearly
        for (m, k) in p.iter() {
            if m.len() == 1 {
                let a = m[0];
                if p.iter().filter(|(n, _)| n.contains(&a)).count() > 1 {
                    continue;
                }
                let rest = Rc::new(p.iter().filter(|(n, _)| n != m).cloned().collect::<Vec<_>>());
                let (_, hi) = self.pbounds(&rest);
                if hi > 1 << 90 {
                    continue;
                }
                // k*a + rest >= 0  =>  k*a >= -hi
                let b = self.abounds(a, 0);
                let nb = if *k > 0 { ((-hi).div_euclid(*k) + if (-hi).rem_euclid(*k) != 0 { 1 } else { 0 }, b.1) } else { (b.0, hi.div_euclid(-*k)) };
                if nb.0 > b.0 || nb.1 < b.1 {
                    Rc::make_mut(&mut self.bnd).insert(a, (nb.0.max(b.0), nb.1.min(b.1)));
                }
            }
        }
    }
    pub fn pc_loss(&self) -> u8 {
        self.pc.iter().map(|x| cond_loss(x.0)).max().unwrap_or(0)
    }
}
/// an assignment of the unknowns under which a path is taken
fn reachable(st: &State) -> bool {
    if st.pc.is_empty() {
        return true;
    }
    for k in 0..24u64 {
        let h = |x: u64| {
            let x = (x ^ k << 40).wrapping_mul(0x9E3779B97F4A7C15);
            (x ^ x >> 29).wrapping_mul(0xBF58476D1CE4E5B9) >> 33
        };
        let lit = |c: CondId| match cond_def(c) {
            Cond::Base(..) => Some(match st.fact(c) {
                Some(b) => b,
                None if k == 0 => false,
                None if k == 1 => true,
                None => h(c as u64) & 1 == 1,
            }),
            _ => None,
        };
        let atom = |a: Atom| match atom_def(a) {
            Def::Input(_) => {
                let (lo, hi) = st.abounds(a, 0);
                Some(lo + h(a as u64 + 77) as i128 % (hi - lo + 1).max(1))
            }
            _ => None,
        };
        let mut ev = Eval::new(&lit, &atom);
        if st.pc.iter().all(|(c, v)| ev.cond(*c) == Some(*v)) {
            return true;
        }
    }
    false
}
pub fn arith_of(c: CondId, val: bool) -> Vec<Poly> {
    match cond_def(c) {
        Cond::Ge0(p) => vec![if val { p } else { paddc(&pscale(&p, -1), -1) }],
        Cond::Eq0(p) if val => vec![p.clone(), pscale(&p, -1)],
        _ => vec![],
    }
}

/// parity checks a condition combines; nothing when it depends on anything else
pub fn lin_deps(c: CondId) -> HashSet<CondId> {
    let (out, pure) = lin_mentions(c);
    if pure {
        out
    } else {
        HashSet::new()
    }
}
/// parity checks a condition mentions; whether it depends on nothing else
pub fn lin_mentions(c: CondId) -> (HashSet<CondId>, bool) {
    fn int(i: &Int, seen: &mut (HashSet<CondId>, HashSet<Atom>), out: &mut HashSet<CondId>) -> bool {
        match i {
            Int::C(_) => true,
            Int::W(c, _, _) => go(*c, seen, out),
            Int::B(v) => v.iter().fold(true, |r, b| r & match b {
                Bit::L(c, _) => go(*c, seen, out),
                Bit::T => false,
                _ => true,
            }),
            Int::P(p) => atoms(p, seen, out),
            _ => false,
        }
    }
    fn atoms(p: &Poly, seen: &mut (HashSet<CondId>, HashSet<Atom>), out: &mut HashSet<CondId>) -> bool {
        p.iter().flat_map(|(m, _)| m.iter()).fold(true, |r, a| r & of_atom(*a, seen, out))
    }
    fn of_atom(a: Atom, seen: &mut (HashSet<CondId>, HashSet<Atom>), out: &mut HashSet<CondId>) -> bool {
        if !seen.1.insert(a) {
            return true;
        }
        match atom_def(a) {
            Def::Of(i) => int(&i, seen, out),
            Def::Ite(c, f, t) => go(c, seen, out) & int(&f, seen, out) & int(&t, seen, out),
            _ => false,
        }
    }
    fn go(c: CondId, seen: &mut (HashSet<CondId>, HashSet<Atom>), out: &mut HashSet<CondId>) -> bool {
        if !seen.0.insert(c) {
            return true;
        }
        match cond_def(c) {
            Cond::LinEq0(_) => {
                out.insert(c);
                true
            }
            Cond::And(x, _, y, _) => go(x, seen, out) & go(y, seen, out),
            Cond::Ge0(p) | Cond::Eq0(p) => atoms(&p, seen, out),
            Cond::Par(v) => v.iter().fold(true, |r, x| r & go(*x, seen, out)),
            _ => false,
        }
    }
    let mut out = HashSet::new();
    let pure = go(c, &mut Default::default(), &mut out);
    (out, pure)
}
/// turn a value into one without path-specific names, usable for "any element"
pub fn abs_el(st: &State, v: &Val) -> Val {
    match v {
        Val::I(Int::C(_)) => v.clone(),
        Val::I(i) => {
            if let Int::P(p) = i {
                if p.len() == 1 && p[0].1 == 1 && p[0].0.len() == 1 {
                    if let Def::Fresh(_) = atom_def(p[0].0[0]) {
                        if !st.bnd.contains_key(&p[0].0[0]) {
                            return v.clone();
                        }
                    }
                }
            }
            let (l, h) = st.bounds(i);
            Val::I(Int::of_atom(fresh_atom(l, h, i.loss().max(1))))
        }
        Val::F(f) => {
            let i = f.info();
            match i.t {
                FT::C(_) | FT::Fresh(_) => v.clone(),
                _ => Val::F(Flt::fresh(i.lo, i.hi, i.nan, i.loss.max(1))),
            }
        }
        Val::Agg(x) => Val::agg(x.iter().map(|y| abs_el(st, y)).collect()),
        Val::En(e) => Val::en(e.var, e.f.iter().map(|y| abs_el(st, y)).collect()),
        Val::Alt(a) => Val::Alt(Rc::new(a.iter().map(|x| AltV { g: None, e: EnumV { var: x.e.var, f: x.e.f.iter().map(|y| abs_el(st, y)).collect() } }).collect())),
        Val::Seq(s) => match s.as_ref() {
            Seq::Ex(x) => Val::vec(x.iter().map(|y| abs_el(st, y)).collect()),
            Seq::Sum { len, el } => Val::Seq(Rc::new(Seq::Sum {
                len: match abs_el(st, &Val::I(len.clone())) {
                    Val::I(i) => i,
                    _ => len.clone(),
                },
                el: abs_el(st, el),
            })),
        },
        Val::Sh(x) => Val::sh(abs_el(st, x)),
        Val::Bx(x) => Val::Bx(Rc::new(abs_el(st, x))),
        Val::Dyn(t, x) => Val::Dyn(*t, Rc::new(abs_el(st, x))),
        x => x.clone(),
    }
}
/// does `a` (an "any element" description) already include `b`
pub fn el_join(st: &State, a: &Val, b: &Val) -> Val {
    let b = abs_el(st, b);
    if *a == Val::Un {
        return b;
    }
    el_join2(a, &b)
}
pub fn widen_range(old: (i128, i128), new: (i128, i128)) -> (i128, i128) {
    const T: [i128; 14] = [-(1 << 100), -(1 << 63), -(1 << 31), -32768, -128, -1, 0, 1, 255, 65535, (1 << 31) - 1, (1 << 32) - 1, (1 << 64) - 1, 1 << 100];
    let lo = if new.0 < old.0 { *T.iter().rev().find(|t| **t <= new.0).unwrap_or(&T[0]) } else { old.0 };
    let hi = if new.1 > old.1 { *T.iter().find(|t| **t >= new.1).unwrap_or(&T[13]) } else { old.1 };
    (lo, hi)
}
fn el_join2(a: &Val, b: &Val) -> Val {
    if a == b {
        return a.clone();
    }
    match (a, b) {
        (Val::I(x), Val::I(y)) => {
            let (p, q) = (x.bounds(), y.bounds());
            let w = widen_range(p, q);
            if w == p && !matches!(x, Int::C(_)) && x.loss() >= y.loss() {
                a.clone()
            } else {
                Val::I(Int::of_atom(fresh_atom(w.0, w.1, x.loss().max(y.loss()).max(1))))
            }
        }
        (Val::F(x), Val::F(y)) => {
            let (p, q) = (x.info(), y.info());
            let (lo, hi) = (if q.lo < p.lo { f64::NEG_INFINITY } else { p.lo }, if q.hi > p.hi { f64::INFINITY } else { p.hi });
            if lo == p.lo && hi == p.hi && (p.nan || !q.nan) && matches!(p.t, FT::Fresh(_)) {
                a.clone()
            } else {
                Val::F(Flt::fresh(lo, hi, p.nan || q.nan, p.loss.max(q.loss).max(1)))
            }
        }
        (Val::Agg(x), Val::Agg(y)) if x.len() == y.len() => {
            let v: Vec<Val> = x.iter().zip(y.iter()).map(|(p, q)| el_join2(p, q)).collect();
            if v.iter().zip(x.iter()).all(|(p, q)| p == q) {
                a.clone()
            } else {
                Val::agg(v)
            }
        }
        (Val::Sh(x), Val::Sh(y)) => Val::sh(el_join2(x, y)),
        (Val::Bx(x), Val::Bx(y)) => Val::Bx(Rc::new(el_join2(x, y))),
        (Val::Dyn(t, x), Val::Dyn(u, y)) if t == u => Val::Dyn(*t, Rc::new(el_join2(x, y))),
        (Val::En(x), Val::En(y)) if x.var == y.var => Val::en(x.var, x.f.iter().zip(y.f.iter()).map(|(p, q)| el_join2(p, q)).collect()),
        (Val::En(_), Val::En(_)) | (Val::Alt(_), Val::En(_)) | (Val::En(_), Val::Alt(_)) | (Val::Alt(_), Val::Alt(_)) => {
            let l = |v: &Val| -> Vec<EnumV> {
                match v {
                    Val::En(e) => vec![e.as_ref().clone()],
                    Val::Alt(v) => v.iter().map(|x| x.e.clone()).collect(),
                    _ => vec![],
                }
            };
            let mut r = l(a);
            for y in l(b) {
                match r.iter_mut().find(|x| x.var == y.var) {
                    Some(x) => x.f = x.f.iter().zip(y.f.iter()).map(|(p, q)| el_join2(p, q)).collect(),
                    None => r.push(y),
                }
            }
            r.sort_by_key(|x| x.var);
            Val::Alt(Rc::new(r.into_iter().map(|e| AltV { g: None, e }).collect()))
        }
        (Val::Seq(x), Val::Seq(y)) => match (x.as_ref(), y.as_ref()) {
            (Seq::Ex(p), Seq::Ex(q)) if p.len() == q.len() => Val::vec(p.iter().zip(q.iter()).map(|(s, t)| el_join2(s, t)).collect()),
            (p, q) => {
                let len = match el_join2(&Val::I(p.len()), &Val::I(q.len())) {
                    Val::I(i) => i,
                    _ => unreachable!(),
                };
                let (pe, qe) = (p.el(), q.el());
                let el = if pe == Val::Un {
                    qe
                } else if qe == Val::Un {
                    pe
                } else {
                    el_join2(&pe, &qe)
                };
                Val::Seq(Rc::new(Seq::Sum { len, el }))
            }
        },
        (Val::Str(_), Val::Str(_)) => Val::Str(Rc::new(StrV { p: vec![Part::Opaque(1)] })),
        (Val::Un, y) => y.clone(),
        (x, Val::Un) => x.clone(),
        (Val::Top(x), y) => Val::Top((*x).max(y.loss())),
        (x, Val::Top(y)) => Val::Top((*y).max(x.loss())),
        _ => Val::Top(2),
    }
}
/// fresh names for one read of an "any element" description
pub fn refresh(v: &Val) -> Val {
    match v {
        Val::I(Int::P(p)) => {
            if p.len() == 1 && p[0].1 == 1 && p[0].0.len() == 1 {
                if let Def::Fresh(_) = atom_def(p[0].0[0]) {
                    let (l, h) = atom_bounds(p[0].0[0]);
                    let ls = atom_loss(p[0].0[0]);
                    return Val::I(Int::of_atom(fresh_atom(l, h, ls)));
                }
            }
            v.clone()
        }
        Val::F(f) => {
            let i = f.info();
            match i.t {
                FT::Fresh(_) => Val::F(Flt::fresh(i.lo, i.hi, i.nan, i.loss)),
                _ => v.clone(),
            }
        }
        Val::Agg(x) => Val::agg(x.iter().map(refresh).collect()),
        Val::En(e) => Val::en(e.var, e.f.iter().map(refresh).collect()),
        Val::Alt(a) => Val::Alt(Rc::new(a.iter().map(|x| AltV { g: x.g, e: EnumV { var: x.e.var, f: x.e.f.iter().map(refresh).collect() } }).collect())),
        Val::Seq(s) => match s.as_ref() {
            Seq::Ex(x) => Val::vec(x.iter().map(refresh).collect()),
            Seq::Sum { len, el } => Val::Seq(Rc::new(Seq::Sum {
                len: match refresh(&Val::I(len.clone())) {
                    Val::I(i) => i,
                    _ => len.clone(),
                },
                el: el.clone(),
            })),
        },
        Val::Sh(x) => Val::sh(refresh(x)),
        Val::Bx(x) => Val::Bx(Rc::new(refresh(x))),
        Val::Dyn(t, x) => Val::Dyn(*t, Rc::new(refresh(x))),
        x => x.clone(),
    }
}

pub fn seq_get(st: &State, s: &Seq, i: &Int) -> Val {
    match s {
        Seq::Ex(v) => {
            if let Int::C(c) = i {
                return v.get(*c as usize).cloned().unwrap_or(Val::Un);
            }
            let (lo, hi) = st.bounds(i);
            let lo = lo.max(0) as usize;
            let hi = (hi.min(v.len() as i128 - 1)).max(-1);
            if v.is_empty() || hi < lo as i128 {
                return Val::Un;
            }
            let hi = hi as usize;
            // two-valued index
            if let Int::W(c, f, t) = i {
                if let (Some(Val::I(x)), Some(Val::I(y))) = (v.get(*f as usize), v.get(*t as usize)) {
                    return Val::I(ops::ite(*c, x, y));
                }
            }
            let sl = &v[lo..=hi];
            // constant tables keep the index: value = table[index]
            if v.len() <= 4096 && sl.iter().all(|x| matches!(x, Val::I(Int::C(_)))) {
                let t: Vec<i128> = v.iter().map(|x| if let Val::I(Int::C(c)) = x { *c } else { 0 }).collect();
                let (mut mn, mut mx) = (i128::MAX, i128::MIN);
                for x in &t[lo..=hi] {
                    mn = mn.min(*x);
                    mx = mx.max(*x);
                }
                if mn == mx {
                    return Val::c(mn);
                }
                let t = tab_intern(t);
                return Val::I(Int::of_atom(atom(Def::Tab(t, i.clone()), mn, mx, i.loss())));
            }
            if sl.iter().all(|x| matches!(x, Val::Agg(a) if a.len() == 1 && matches!(a[0], Val::I(Int::C(_))))) {
                let t: Vec<Val> = v
                    .iter()
                    .map(|x| match x {
                        Val::Agg(a) => a[0].clone(),
                        _ => Val::c(0),
                    })
                    .collect();
                return Val::agg(vec![seq_get(st, &Seq::Ex(t), i)]);
            }
            if sl.len() == 1 {
                return sl[0].clone();
            }
            let mut r = abs_el(st, &sl[0]);
            for x in &sl[1..] {
                r = el_join_hull(st, &r, x);
            }
            refresh(&r)
        }
        Seq::Sum { el, .. } => refresh(el),
    }
}
fn el_join_hull(st: &State, a: &Val, b: &Val) -> Val {
    if a == b {
        return a.clone();
    }
    if let (Val::I(x), Val::I(y)) = (a, b) {
        let (p, q) = (x.bounds(), st.bounds(y));
        if !matches!(x, Int::C(_)) && p.0 <= q.0 && p.1 >= q.1 {
            return a.clone();
        }
        return Val::I(Int::of_atom(fresh_atom(p.0.min(q.0), p.1.max(q.1), x.loss().max(y.loss()).max(1))));
    }
    el_join(st, a, b)
}
thread_local! { static TABS: std::cell::RefCell<HashSet<Rc<Vec<i128>>>> = Default::default(); }
fn tab_intern(t: Vec<i128>) -> Rc<Vec<i128>> {
    TABS.with(|s| {
        let mut s = s.borrow_mut();
        let t = Rc::new(t);
        if let Some(x) = s.get(&t) {
            return x.clone();
        }
        s.insert(t.clone());
        t
    })
}

pub fn fresh_of(ty: Ty, loss: u8, d: u32) -> Val {
    let k = match ty.kind() {
        TyKind::RigidTy(r) => r,
        _ => return Val::Top(loss),
    };
    match k {
        RigidTy::Bool => Val::I(Int::of_lit(
            {
                let f = fresh_id();
                cond_loss_as(Cond::Opaque(f), loss)
            },
            false,
        )),
        RigidTy::Char => Val::I(Int::of_atom(fresh_atom(0, 0x10FFFF, loss))),
        RigidTy::Int(_) | RigidTy::Uint(_) => {
            let t = ity(ty);
            let (l, h) = ops::range_of(t.w, t.s);
            Val::I(Int::of_atom(fresh_atom(l, h, loss)))
        }
        RigidTy::Float(_) => Val::F(Flt::any(loss)),
        RigidTy::Tuple(ts) if d < 8 => Val::agg(ts.iter().map(|t| fresh_of(*t, loss, d + 1)).collect()),
        RigidTy::Str => Val::Str(Rc::new(StrV { p: vec![Part::Opaque(loss)] })),
        RigidTy::Slice(t) => Val::Seq(Rc::new(Seq::Sum { len: Int::of_atom(fresh_atom(0, (1 << 63) - 1, loss)), el: fresh_of(t, loss, d + 1) })),
        RigidTy::Array(t, n) => {
            let n = n.eval_target_usize().unwrap_or(0);
            if n > 4096 {
                return Val::Seq(Rc::new(Seq::Sum { len: Int::C(n as i128), el: fresh_of(t, loss, d + 1) }));
            }
            Val::vec((0..n).map(|_| fresh_of(t, loss, d + 1)).collect())
        }
        RigidTy::Ref(_, t, rustc_public::mir::Mutability::Not) if d < 8 => {
            if matches!(t.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) {
                return Val::Top(loss);
            }
            Val::sh(fresh_of(t, loss, d + 1))
        }
        RigidTy::Adt(def, args) if d < 8 => {
            let nm = def.name().to_string();
            use rustc_public::crate_def::CrateDef;
            if nm == "std::string::String" || nm == "alloc::string::String" {
                return Val::Str(Rc::new(StrV { p: vec![Part::Opaque(loss)] }));
            }
            if nm.ends_with("vec::Vec") {
                if let Some(GenericArgKind::Type(t)) = args.0.first() {
                    return Val::Seq(Rc::new(Seq::Sum { len: Int::of_atom(fresh_atom(0, (1 << 63) - 1, loss)), el: fresh_of(*t, loss, d + 1) }));
                }
            }
            if nm.ends_with("boxed::Box") {
                if let Some(GenericArgKind::Type(t)) = args.0.first() {
                    if matches!(t.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) {
                        return Val::Top(loss);
                    }
                    return Val::Bx(Rc::new(fresh_of(*t, loss, d + 1)));
                }
            }
            match def.kind() {
                AdtKind::Struct => {
                    let fs = def.variants()[0].fields();
                    if fs.len() > 40 {
                        return Val::Top(loss);
                    }
                    Val::agg(fs.iter().map(|f| fresh_of(f.ty_with_args(&args), loss, d + 1)).collect())
                }
                AdtKind::Enum => {
                    let vs = def.variants();
                    if vs.len() > 64 {
                        return Val::Top(loss);
                    }
                    if vs.len() == 1 {
                        return Val::en(0, vs[0].fields().iter().map(|f| fresh_of(f.ty_with_args(&args), loss, d + 1)).collect());
                    }
                    Val::Alt(Rc::new(
                        vs.iter()
                            .enumerate()
                            .map(|(i, v)| AltV { g: None, e: EnumV { var: i, f: v.fields().iter().map(|f| fresh_of(f.ty_with_args(&args), loss, d + 2)).collect() } })
                            .collect(),
                    ))
                }
                _ => Val::Top(loss),
            }
        }
        _ => Val::Top(loss),
    }
}

impl Interp {
    pub fn new() -> Interp {
        Interp {
            hooks: None,
            ob: BTreeMap::new(),
            unmod: BTreeMap::new(),
            notes: BTreeMap::new(),
            steps: 0,
            limit: 400_000_000,
            calls: HashMap::new(),
            lin_zero: false,
            lin_seen: HashSet::new(),
            plans: HashMap::new(),
            depth: 0,
            aborted: false,
            widened: BTreeMap::new(),
            max_parts: 12,
            pin: vec![],
            autopin: false,
            pin_all: false,
            gf: HashMap::new(),
            gf_on: true,
            trace: std::env::var("BV_TRACE").is_ok(),
            stubs: HashMap::new(),
            stack: vec![],
        }
    }

    // ---------- plans ----------
    pub fn plan(&mut self, ty: Ty, d: u32) -> Rc<Plan> {
        if let Some(p) = self.plans.get(&ty) {
            return p.clone();
        }
        if d > 5 {
            return Rc::new(Plan::No);
        }
        use rustc_public::crate_def::CrateDef;
        let flt = |v: Vec<(usize, Rc<Plan>)>| -> Vec<(usize, Rc<Plan>)> { v.into_iter().filter(|x| !matches!(*x.1, Plan::No)).collect() };
        let p = match ty.kind() {
            TyKind::RigidTy(RigidTy::Bool) => Plan::Bool,
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                let v = ts.iter().enumerate().map(|(i, t)| (i, self.plan(*t, d + 1))).collect();
                let v = flt(v);
                if v.is_empty() {
                    Plan::No
                } else {
                    Plan::Fields(v)
                }
            }
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) => {
                let p = self.plan(t, d + 1);
                if matches!(*p, Plan::No) {
                    Plan::No
                } else {
                    Plan::Ptr(p)
                }
            }
            TyKind::RigidTy(RigidTy::Closure(_, a)) => {
                // captured variables: last argument is the tuple of upvars
                match a.0.last() {
                    Some(GenericArgKind::Type(t)) => return self.plan(*t, d + 1),
                    _ => Plan::No,
                }
            }
            TyKind::RigidTy(RigidTy::Adt(def, args)) => {
                let nm = def.name().to_string();
                let dynbox = nm.contains("boxed::Box")
                    && match args.0.first() {
                        Some(GenericArgKind::Type(t)) => matches!(t.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))),
                        _ => false,
                    };
                if dynbox {
                    Plan::Dyn
                } else if nm.contains("vec::") || nm.contains("string::") || nm.contains("boxed::Box") || nm.contains("fmt::") {
                    Plan::No
                } else {
                    match def.kind() {
                        AdtKind::Struct => {
                            let fs = def.variants()[0].fields();
                            let v = fs.iter().enumerate().map(|(i, f)| (i, self.plan(f.ty_with_args(&args), d + 1))).collect();
                            let v = flt(v);
                            if v.is_empty() {
                                Plan::No
                            } else {
                                Plan::Fields(v)
                            }
                        }
                        AdtKind::Enum => Plan::Enum(
                            def.variants()
                                .iter()
                                .map(|v| {
                                    let v = v.fields().iter().enumerate().map(|(i, f)| (i, self.plan(f.ty_with_args(&args), d + 1))).collect();
                                    flt(v)
                                })
                                .collect(),
                        ),
                        _ => Plan::No,
                    }
                }
            }
            _ => Plan::No,
        };
        let p = Rc::new(p);
        if d == 0 {
            self.plans.insert(ty, p.clone());
        }
        p
    }
    fn key_of(&mut self, st: &State, v: &Val, p: &Plan, out: &mut Vec<u32>) {
        match p {
            Plan::No => {}
            Plan::Bool => out.push(match v {
                Val::I(Int::C(c)) => 10 + *c as u32,
                Val::I(Int::W(c, f, t)) => {
                    // decided by the path?
                    match st.fact(*c) {
                        Some(b) => 10 + if b { *t } else { *f } as u32,
                        None => 3,
                    }
                }
                _ => 3,
            }),
            Plan::Fields(fs) => {
                if let Val::Agg(a) = v {
                    for (i, q) in fs {
                        if let Some(x) = a.get(*i) {
                            self.key_of(st, x, q, out)
                        }
                    }
                } else {
                    out.push(4)
                }
            }
            Plan::Enum(vs) => match v {
                Val::En(e) => {
                    out.push(100 + e.var as u32);
                    if let Some(fs) = vs.get(e.var) {
                        for (i, q) in fs {
                            if let Some(x) = e.f.get(*i) {
                                self.key_of(st, x, q, out)
                            }
                        }
                    }
                }
                _ => out.push(5),
            },
            Plan::Dyn => {
                let mut x = v;
                loop {
                    match x {
                        Val::Bx(y) | Val::Sh(y) => x = y,
                        _ => break,
                    }
                }
                if let Val::Dyn(t, y) = x {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    t.hash(&mut h);
                    out.push(h.finish() as u32 | 1 << 20);
                    let q = self.plan(*t, 0);
                    let mut y = y.as_ref();
                    while let Val::Bx(z) | Val::Sh(z) = y {
                        y = z;
                    }
                    self.key_of(st, &y.clone(), &q, out);
                } else {
                    out.push(7)
                }
            }
            Plan::Ptr(q) => match v {
                Val::Sh(x) => self.key_of(st, x, q, out),
                Val::Ref(r) => {
                    let x = self.read_ref(st, r);
                    self.key_of(st, &x, q, out)
                }
                _ => out.push(6),
            },
        }
    }

    // ---------- places ----------
    pub fn read_ref(&self, st: &State, r: &RefV) -> Val {
        match st.fr.get(r.frame) {
            Some(f) => self.read_steps(st, &f.v[r.local], &r.path),
            None => Val::Top(2),
        }
    }
    pub fn read_steps(&self, st: &State, v: &Val, path: &[Step]) -> Val {
        let Some((s, rest)) = path.split_first() else { return v.clone() };
        match (s, v) {
            (Step::F(i), Val::Agg(a)) => a.get(*i).map(|x| self.read_steps(st, x, rest)).unwrap_or(Val::Top(2)),
            (Step::V(k), Val::En(e)) => {
                if e.var != *k {
                    return Val::Top(2);
                }
                match rest.split_first() {
                    Some((Step::F(i), r2)) => e.f.get(*i).map(|x| self.read_steps(st, x, r2)).unwrap_or(Val::Top(2)),
                    _ => v.clone(),
                }
            }
            (Step::V(k), Val::Alt(a)) => match a.iter().find(|x| x.e.var == *k) {
                Some(x) => match rest.split_first() {
                    Some((Step::F(i), r2)) => x.e.f.get(*i).map(|y| self.read_steps(st, y, r2)).unwrap_or(Val::Top(2)),
                    _ => Val::En(Rc::new(x.e.clone())),
                },
                None => Val::Top(2),
            },
            (Step::F(i), Val::En(e)) => e.f.get(*i).map(|x| self.read_steps(st, x, rest)).unwrap_or(Val::Top(2)),
            (Step::I(i), Val::Seq(s)) => match s.as_ref() {
                Seq::Ex(x) => x.get(*i).map(|y| self.read_steps(st, y, rest)).unwrap_or(Val::Un),
                _ => self.read_steps(st, &seq_get(st, s, &Int::C(*i as i128)), rest),
            },
            (Step::S(i), Val::Seq(s)) => self.read_steps(st, &seq_get(st, s, i), rest),
            (Step::B, Val::Bx(x)) => self.read_steps(st, x, rest),
            (Step::B, Val::Dyn(_, x)) => self.read_steps(st, x, path),
            (Step::R(a, n), Val::Seq(s)) => self.read_steps(st, &self.subseq(st, s, a, n), rest),
            (_, Val::Sh(x)) => self.read_steps(st, x, path),
            (_, Val::Top(l)) => Val::Top(*l),
            (_, Val::Un) => Val::Un,
            _ => Val::Top(2),
        }
    }
    pub fn subseq(&self, st: &State, s: &Rc<Seq>, a: &Int, n: &Int) -> Val {
        if let (Seq::Ex(v), Int::C(x), Int::C(m)) = (s.as_ref(), a, n) {
            if *x == 0 && *m as usize == v.len() {
                return Val::Seq(s.clone());
            }
            return Val::vec(v.get(*x as usize..(*x + *m) as usize).map(|v| v.to_vec()).unwrap_or_default());
        }
        let el = match s.as_ref() {
            Seq::Ex(v) => {
                let mut r = Val::Un;
                for x in v {
                    r = el_join(st, &r, x);
                }
                r
            }
            Seq::Sum { el, .. } => el.clone(),
        };
        Val::Seq(Rc::new(Seq::Sum { len: n.clone(), el }))
    }
    /// read through a compact place
    pub fn read_pl(&self, st: &State, p: &Pl) -> Val {
        let f = st.fr.last().unwrap();
        self.rd(st, f, &f.v[p.local], &p.proj)
    }
    fn rd(&self, st: &State, f: &Frame, v: &Val, pj: &[Pj]) -> Val {
        let Some((s, rest)) = pj.split_first() else { return v.clone() };
        match (s, v) {
            (Pj::Field(i), Val::Agg(a)) => match a.get(*i) {
                Some(x) => self.rd(st, f, x, rest),
                None => Val::Top(2),
            },
            (Pj::Deref, Val::Sh(x)) => self.rd(st, f, x, rest),
            (Pj::Deref, Val::Dyn(_, x)) => self.rd(st, f, x, pj),
            (Pj::Deref, Val::Ref(r)) => {
                // read the root by path, then continue
                match st.fr.get(r.frame) {
                    Some(g) => {
                        let x = self.read_steps(st, &g.v[r.local], &r.path);
                        self.rd(st, f, &x, rest)
                    }
                    None => Val::Top(2),
                }
            }
            (Pj::Deref, Val::Str(_)) => self.rd(st, f, v, rest),
            (Pj::Deref, Val::Bx(x)) | (Pj::BoxDeref, Val::Bx(x)) => self.rd(st, f, x, rest),
            (Pj::BoxDeref, Val::Dyn(_, x)) => self.rd(st, f, x, pj),
            (Pj::Down(k), Val::En(e)) => {
                if e.var != *k {
                    return Val::Top(2);
                }
                match rest.split_first() {
                    Some((Pj::Field(i), r2)) => e.f.get(*i).map(|x| self.rd(st, f, x, r2)).unwrap_or(Val::Top(2)),
                    _ => v.clone(),
                }
            }
            (Pj::Down(k), Val::Alt(a)) => match a.iter().find(|x| x.e.var == *k) {
                Some(x) => match rest.split_first() {
                    Some((Pj::Field(i), r2)) => x.e.f.get(*i).map(|y| self.rd(st, f, y, r2)).unwrap_or(Val::Top(2)),
                    _ => Val::En(Rc::new(x.e.clone())),
                },
                None => Val::Top(2),
            },
            (Pj::Index(l), Val::Seq(s)) => match &f.v[*l] {
                Val::I(Int::C(c)) => match s.as_ref() {
                    Seq::Ex(x) => x.get(*c as usize).map(|y| self.rd(st, f, y, rest)).unwrap_or(Val::Un),
                    _ => self.rd(st, f, &seq_get(st, s, &Int::C(*c)), rest),
                },
                Val::I(i) => self.rd(st, f, &seq_get(st, s, i), rest),
                _ => self.rd(st, f, &refresh(&s.el()), rest),
            },
            (Pj::CIdx(i, fe), Val::Seq(s)) => {
                let ix = if *fe { ops::sub(&s.len(), &Int::C(*i as i128)) } else { Int::C(*i as i128) };
                self.rd(st, f, &seq_get(st, s, &ix), rest)
            }
            (Pj::Sub(a, b, fe), Val::Seq(s)) => {
                let end = if *fe { ops::sub(&s.len(), &Int::C(*b as i128)) } else { Int::C(*b as i128) };
                let n = ops::sub(&end, &Int::C(*a as i128));
                let x = self.subseq(st, s, &Int::C(*a as i128), &n);
                self.rd(st, f, &x, rest)
            }
            (_, Val::Top(l)) => Val::Top(*l),
            (_, Val::Un) => Val::Un,
            (Pj::Index(_) | Pj::CIdx(..) | Pj::Sub(..) | Pj::Field(_), Val::Sh(x)) => self.rd(st, f, x, pj),
            _ => Val::Top(2),
        }
    }
    /// resolve to a mutable location; None when it lies behind a shared reference or is unknown.
    /// the second component tells whether the pointer passed through last was a trait object.
    pub fn resolve(&self, st: &State, p: &Pl) -> Option<(RefV, Option<Ty>)> {
        let fi = st.fr.len() - 1;
        let f = &st.fr[fi];
        let mut r = RefV { frame: fi, local: p.local, path: vec![] };
        let mut dy = None;
        for pj in p.proj.iter() {
            dy = None;
            match pj {
                Pj::Field(i) => r.path.push(Step::F(*i)),
                Pj::Down(k) => r.path.push(Step::V(*k)),
                Pj::Nop => {}
                Pj::Index(l) => match &f.v[*l] {
                    Val::I(Int::C(c)) => r.path.push(Step::I(*c as usize)),
                    Val::I(i) => r.path.push(Step::S(i.clone())),
                    _ => r.path.push(Step::S(Int::of_atom(fresh_atom(0, (1 << 63) - 1, 2)))),
                },
                Pj::CIdx(i, fe) => {
                    if *fe {
                        let v = self.read_ref(st, &r);
                        let Val::Seq(s) = v.peel() else { return None };
                        let ix = ops::sub(&s.len(), &Int::C(*i as i128));
                        r.path.push(match ix {
                            Int::C(c) => Step::I(c as usize),
                            x => Step::S(x),
                        })
                    } else {
                        r.path.push(Step::I(*i as usize))
                    }
                }
                Pj::Sub(a, b, fe) => {
                    let v = self.read_ref(st, &r);
                    let Val::Seq(s) = v.peel() else { return None };
                    let end = if *fe { ops::sub(&s.len(), &Int::C(*b as i128)) } else { Int::C(*b as i128) };
                    r.path.push(Step::R(Int::C(*a as i128), ops::sub(&end, &Int::C(*a as i128))));
                }
                Pj::BoxDeref => {
                    if let Val::Dyn(t, _) = self.read_ref(st, &r) {
                        dy = Some(t);
                    }
                    r.path.push(Step::B)
                }
                Pj::Deref => {
                    let mut v = self.read_ref(st, &r);
                    if let Val::Dyn(t, x) = &v {
                        dy = Some(*t);
                        v = x.as_ref().clone();
                    }
                    match v {
                        Val::Ref(q) => r = q.as_ref().clone(),
                        Val::Bx(_) => r.path.push(Step::B),
                        _ => return None,
                    }
                }
            }
        }
        Some((r, dy))
    }
    /// is every part of the place inside owned or mutable memory
    pub fn write_ref(&self, st: &mut State, r: &RefV, v: Val) {
        let bnd = st.bnd.clone();
        let tmp = State { fr: vec![], pc: st.pc.clone(), ar: st.ar.clone(), bnd, ghost: st.ghost.clone() };
        if r.frame >= st.fr.len() {
            return;
        }
        let f = Rc::make_mut(&mut st.fr[r.frame]);
        upd(&tmp, &mut f.v[r.local], &r.path, false, &mut |x| *x = v.clone());
    }
    pub fn write_pl(&mut self, st: &mut State, p: &Pl, v: Val) {
        if p.proj.is_empty() {
            let n = st.fr.len() - 1;
            Rc::make_mut(&mut st.fr[n]).v[p.local] = v;
            return;
        }
        // fast path: plain fields
        match self.resolve(st, p) {
            Some((r, _)) => self.write_ref(st, &r, v),
            None => {
                let n = st.fr.len() - 1;
                let base = &st.fr[n].v[p.local];
                let k = format!("write through unknown pointer in {} ({})", st.fr[n].f.fr.path, short(base));
                *self.notes.entry(k).or_insert(0) += 1;
            }
        }
    }
    pub fn op(&self, st: &State, o: &Op) -> Val {
        match o {
            Op::Copy(p) | Op::Move(p) => self.read_pl(st, p),
            Op::Const(v, _) => v.clone(),
        }
    }
    pub fn int_of(&self, v: &Val, t: ITy) -> Int {
        match v {
            Val::I(i) => i.clone(),
            Val::Top(l) => {
                let (lo, hi) = ops::range_of(t.w, t.s);
                Int::of_atom(fresh_atom(lo, hi, *l))
            }
            Val::Agg(a) if a.len() == 1 => self.int_of(&a[0], t),
            _ => {
                let (lo, hi) = ops::range_of(t.w, t.s);
                Int::of_atom(fresh_atom(lo, hi, 2))
            }
        }
    }
    pub fn flt_of(&self, v: &Val) -> Flt {
        match v {
            Val::F(f) => *f,
            Val::Top(l) => Flt::any(*l),
            _ => Flt::any(2),
        }
    }

    // ---------- rvalues ----------
    fn binop(&mut self, st: &State, op: BinOp, a: &Val, b: &Val, t: ITy) -> Val {
        if t.kind == 3 {
            let (x, y) = (self.flt_of(a), self.flt_of(b));
            let tr = |r: Result<bool, CondId>| match r {
                Ok(b) => Tr::K(b),
                Err(c) => Tr::L(c, false),
            };
            return match op {
                BinOp::Add => Val::F(Flt::bin("add", x, y)),
                BinOp::Sub => Val::F(Flt::bin("sub", x, y)),
                BinOp::Mul => Val::F(Flt::bin("mul", x, y)),
                BinOp::Div => Val::F(Flt::bin("div", x, y)),
                BinOp::Rem => Val::F(Flt::bin("rem", x, y)),
                BinOp::Lt => Val::I(tr(Flt::cmp("lt", x, y)).int()),
                BinOp::Le => Val::I(tr(Flt::cmp("le", x, y)).int()),
                BinOp::Gt => Val::I(tr(Flt::cmp("lt", y, x)).int()),
                BinOp::Ge => Val::I(tr(Flt::cmp("le", y, x)).int()),
                BinOp::Eq => Val::I(tr(if y < x { Flt::cmp("eq", y, x) } else { Flt::cmp("eq", x, y) }).int()),
                BinOp::Ne => Val::I(tr(if y < x { Flt::cmp("eq", y, x) } else { Flt::cmp("eq", x, y) }).not().int()),
                _ => Val::Top(2),
            };
        }
        if t.kind == 4 {
            // pointers
            return fresh_of(Ty::bool_ty(), 2, 0);
        }
        let (x, y) = (self.int_of(a, t), self.int_of(b, t));
        // facts may settle two-valued operands
        let (x, y) = (settle(st, x), settle(st, y));
        let (w, s) = (t.w, t.s);
        let wr = |i: Int| ops::wrap_b(&i, w, s, st.bounds(&i));
        Val::I(match op {
            BinOp::Add => wr(ops::add(&x, &y)),
            BinOp::Sub => wr(ops::sub(&x, &y)),
            BinOp::Mul => wr(ops::mul(&x, &y)),
            BinOp::AddUnchecked => ops::add(&x, &y),
            BinOp::SubUnchecked => ops::sub(&x, &y),
            BinOp::MulUnchecked => ops::mul(&x, &y),
            BinOp::Div => {
                if y.c() == Some(0) {
                    Int::of_atom(fresh_atom(0, 0, 2))
                } else {
                    ops::div(&x, &y)
                }
            }
            BinOp::Rem => {
                if y.c() == Some(0) {
                    Int::C(0)
                } else {
                    ops::rem(&x, &y)
                }
            }
            BinOp::BitXor => ops::xor(&x, &y, w),
            BinOp::BitAnd => ops::and(&x, &y, w),
            BinOp::BitOr => ops::or(&x, &y, w),
            BinOp::Shl | BinOp::ShlUnchecked => ops::shl(&x, &y, w, s),
            BinOp::Shr | BinOp::ShrUnchecked => ops::shr(&x, &y, w),
            BinOp::Eq => ops::eq(&x, &y).int(),
            BinOp::Ne => ops::eq(&x, &y).not().int(),
            BinOp::Ge => ops::ge(&x, &y).int(),
            BinOp::Le => ops::ge(&y, &x).int(),
            BinOp::Lt => ops::ge(&x, &y).not().int(),
            BinOp::Gt => ops::ge(&y, &x).not().int(),
            BinOp::Cmp => {
                // Ordering as an enum value: -1, 0, 1
                if let (Int::C(p), Int::C(q)) = (&x, &y) {
                    return Val::en(
                        match p.cmp(q) {
                            std::cmp::Ordering::Less => 0,
                            std::cmp::Ordering::Equal => 1,
                            _ => 2,
                        },
                        vec![],
                    );
                }
                let lt = ops::ge(&x, &y).not();
                let e = ops::eq(&x, &y);
                let gt = ops::ge(&y, &x).not();
                let mut alts = vec![];
                for (i, t) in [(0, lt), (1, e), (2, gt)] {
                    match st.decide(t) {
                        Some(true) => return Val::en(i, vec![]),
                        Some(false) => {}
                        None => {
                            if let Tr::L(c, n) = t {
                                alts.push(AltV { g: Some((c, !n)), e: EnumV { var: i, f: vec![] } });
                            }
                        }
                    }
                }
                return Val::Alt(Rc::new(alts));
            }
            BinOp::Offset => return Val::Top(2),
        })
    }

    fn eval_rv(&mut self, st: &mut State, rv: &Rv) -> Val {
        match rv {
            Rv::Use(o) => self.op(st, o),
            Rv::Ref(m, p) | Rv::RawPtr(m, p) => {
                if *m {
                    if let Some((r, dy)) = self.resolve(st, p) {
                        let v = Val::Ref(Rc::new(r));
                        return match dy {
                            Some(t) => Val::Dyn(t, Rc::new(v)),
                            None => v,
                        };
                    }
                }
                // shared: snapshot; re-borrowing a trait object keeps its type
                if let Some(Pj::Deref | Pj::BoxDeref) = p.proj.last() {
                    let base = Pl { local: p.local, proj: Rc::new(p.proj[..p.proj.len() - 1].to_vec()) };
                    match self.read_pl(st, &base) {
                        Val::Dyn(t, x) => {
                            let inner = match x.as_ref() {
                                Val::Bx(y) | Val::Sh(y) => Val::Sh(y.clone()),
                                Val::Ref(r) => Val::sh(self.read_ref(st, r)),
                                y => y.clone(),
                            };
                            return Val::Dyn(t, Rc::new(inner));
                        }
                        Val::Str(s) => return Val::Str(s),
                        Val::Sh(x) => return Val::Sh(x),
                        _ => {}
                    }
                }
                Val::sh(self.read_pl(st, p))
            }
            Rv::BoxAddr(p) => {
                let v = self.read_pl(st, p);
                let dy = if let Val::Dyn(t, _) = &v { Some(*t) } else { None };
                let r = match self.resolve(st, p) {
                    Some((mut r, _)) => {
                        r.path.push(Step::B);
                        Val::Ref(Rc::new(r))
                    }
                    None => match v.clone() {
                        Val::Dyn(_, x) => match x.as_ref() {
                            Val::Bx(y) => Val::Sh(y.clone()),
                            y => y.clone(),
                        },
                        Val::Bx(y) => Val::Sh(y),
                        _ => Val::Top(2),
                    },
                };
                match dy {
                    Some(t) => Val::Dyn(t, Rc::new(r)),
                    None => r,
                }
            }
            Rv::Agg(k, os, ty) => {
                let vs: Vec<Val> = os.iter().map(|o| self.op(st, o)).collect();
                match k.as_ref() {
                    AggregateKind::Array(_) => Val::vec(vs),
                    AggregateKind::Adt(def, vi, _, _, _) => {
                        if def.kind() == AdtKind::Enum {
                            Val::en(variant_ix(*vi), vs)
                        } else {
                            Val::agg(vs)
                        }
                    }
                    AggregateKind::RawPtr(..) => vs.into_iter().next().unwrap_or(Val::Top(2)),
                    _ => {
                        let _ = ty;
                        Val::agg(vs)
                    }
                }
            }
            Rv::Bin(op, a, b, t) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                self.binop(st, *op, &x, &y, *t)
            }
            Rv::Chk(op, a, b, t) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let (x, y) = (settle(st, self.int_of(&x, *t)), settle(st, self.int_of(&y, *t)));
                let r = match op {
                    BinOp::Add => ops::add(&x, &y),
                    BinOp::Sub => ops::sub(&x, &y),
                    _ => ops::mul(&x, &y),
                };
                let (lo, hi) = ops::range_of(t.w, t.s);
                let (rl, rh) = st.bounds(&r);
                // result exact: the following assertion keeps only non-overflowing executions
                let ov = if rl >= lo && rh <= hi {
                    Tr::K(false)
                } else if rh < lo || rl > hi {
                    Tr::K(true)
                } else if rl >= lo {
                    ops::ge(&Int::C(hi), &r).not()
                } else if rh <= hi {
                    ops::ge(&r, &Int::C(lo)).not()
                } else {
                    let (p, q) = (ops::ge(&Int::C(hi), &r), ops::ge(&r, &Int::C(lo)));
                    match (st.decide(p), st.decide(q)) {
                        (Some(true), Some(true)) => Tr::K(false),
                        (Some(false), _) | (_, Some(false)) => Tr::K(true),
                        (Some(true), _) => q.not(),
                        (_, Some(true)) => p.not(),
                        _ => match (p, q) {
                            (Tr::L(a, n), Tr::L(b, m)) => Tr::L(cond(Cond::And(a, n, b, m)), true),
                            _ => Tr::L(opaque_cond(), false),
                        },
                    }
                };
                Val::agg(vec![Val::I(r), Val::I(ov.int())])
            }
            Rv::Un(u, o, t) => {
                let v = self.op(st, o);
                match u {
                    UnOp::Not => {
                        let i = self.int_of(&v, *t);
                        Val::I(ops::not(&i, t.w, t.s))
                    }
                    UnOp::Neg => {
                        if t.kind == 3 {
                            Val::F(Flt::un("neg", self.flt_of(&v)))
                        } else {
                            let i = self.int_of(&v, *t);
                            let r = ops::sub(&Int::C(0), &i);
                            let b = st.bounds(&r);
                            Val::I(ops::wrap_b(&r, t.w, t.s, b))
                        }
                    }
                    UnOp::PtrMetadata => {
                        let s = match &v {
                            Val::Ref(r) => self.read_ref(st, r),
                            x => x.clone(),
                        };
                        match s.peel() {
                            Val::Seq(s) => Val::I(s.len()),
                            Val::Str(s) => Val::I(str_len(s)),
                            _ => Val::Top(2),
                        }
                    }
                }
            }
            Rv::Cast(k, o, from, to) => {
                let v = self.op(st, o);
                self.cast(st, *k, v, *from, *to)
            }
            Rv::Discr(..) => unreachable!(),
            Rv::Len(p) => match self.read_pl(st, p).peel() {
                Val::Seq(s) => Val::I(s.len()),
                _ => Val::Top(2),
            },
            Rv::Repeat(o, n) => {
                let v = self.op(st, o);
                if *n <= 70000 {
                    Val::vec(vec![v; *n as usize])
                } else {
                    Val::Seq(Rc::new(Seq::Sum { len: Int::C(*n as i128), el: abs_el(st, &v) }))
                }
            }
            Rv::Other(s) => {
                *self.notes.entry(format!("rvalue {}", s)).or_insert(0) += 1;
                Val::Top(2)
            }
        }
    }

    fn cast(&mut self, st: &State, k: CastKind, v: Val, from: Ty, to: Ty) -> Val {
        match k {
            CastKind::IntToInt => {
                let (f, t) = (ity(from), ity(to));
                // C-like enums
                let i = match &v {
                    Val::En(e) => Int::C(discr_of(from, e.var)),
                    Val::Alt(a) => {
                        let (mut l, mut h) = (i128::MAX, i128::MIN);
                        for x in a.iter() {
                            let d = discr_of(from, x.e.var);
                            l = l.min(d);
                            h = h.max(d);
                        }
                        Int::of_atom(fresh_atom(l, h, 1))
                    }
                    _ => self.int_of(&v, f),
                };
                let b = st.bounds(&i);
                Val::I(ops::wrap_b(&i, t.w, t.s, b))
            }
            CastKind::IntToFloat => {
                let i = self.int_of(&v, ity(from));
                // float terms know no path facts: keep the bounds that hold here
                Val::F(Flt::of_int(&keep_bounds(&i, &st)))
            }
            CastKind::FloatToInt => {
                let t = ity(to);
                Val::I(self.flt_of(&v).to_int(t.w, t.s))
            }
            CastKind::FloatToFloat => v,
            CastKind::PointerCoercion(PointerCoercion::Unsize) => {
                let (pf, pt) = (pointee(from), pointee(to));
                if let (Some(pf), Some(pt)) = (pf, pt) {
                    if matches!(pt.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) && !matches!(pf.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) {
                        return Val::Dyn(pf, Rc::new(v));
                    }
                }
                v
            }
            CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                if let TyKind::RigidTy(RigidTy::Closure(d, a)) = from.kind() {
                    if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                        return Val::Fn(Rc::new(FnV::Inst(i)));
                    }
                }
                Val::Top(2)
            }
            CastKind::PointerCoercion(_) => v,
            CastKind::PtrToPtr => v,
            CastKind::Transmute => {
                let (f, t) = (ity(from), ity(to));
                if f.kind <= 2 && t.kind <= 2 && f.w == t.w {
                    let i = self.int_of(&v, f);
                    let b = st.bounds(&i);
                    return Val::I(ops::wrap_b(&i, t.w, t.s, b));
                }
                if from == to || (f.kind == 4 && t.kind == 4) {
                    return v;
                }
                *self.notes.entry(format!("transmute {} -> {}", from, to)).or_insert(0) += 1;
                fresh_of(to, 2, 0)
            }
            _ => {
                if ity(to).kind == 4 {
                    return v;
                }
                fresh_of(to, 2, 0)
            }
        }
    }

    /// discriminant read: forks on alternatives, refining the place
    fn discr(&mut self, st: State, p: &Pl, ty: Ty) -> Vec<(State, Val)> {
        let v = self.read_pl(&st, p);
        match &v {
            Val::En(e) => vec![(st, Val::c(discr_of(ty, e.var)))],
            Val::Alt(a) => {
                let mut r = vec![];
                for x in a.iter() {
                    let mut s = st.clone();
                    if let Some((c, b)) = x.g {
                        if !s.assume(Tr::L(c, !b)) {
                            continue;
                        }
                    }
                    self.refine_variant(&mut s, p, &x.e);
                    r.push((s, Val::c(discr_of(ty, x.e.var))));
                }
                r
            }
            Val::Top(l) => {
                let l = *l;
                let n = fresh_of(ty, l, 0);
                if let Val::Alt(_) = n {
                    let mut s = st;
                    if let Some((r, _)) = self.resolve(&s, p) {
                        self.write_ref(&mut s, &r, n.clone());
                        if let Val::Alt(_) = self.read_pl(&s, p) {
                            return self.discr(s, p, ty);
                        }
                    }
                    let t = ity(ty);
                    let _ = t;
                    return vec![(s, Val::I(Int::of_atom(fresh_atom(-(1 << 63), 1 << 63, l))))];
                }
                vec![(st, Val::I(Int::of_atom(fresh_atom(-(1 << 63), 1 << 63, l))))]
            }
            _ => vec![(st, Val::I(Int::of_atom(fresh_atom(-(1 << 63), 1 << 63, 2))))],
        }
    }
    fn refine_variant(&mut self, st: &mut State, p: &Pl, e: &EnumV) {
        let v = Val::En(Rc::new(e.clone()));
        let fi = st.fr.len() - 1;
        if let Some((r, _)) = self.resolve(st, p) {
            if !r.path.iter().any(|s| matches!(s, Step::S(_) | Step::R(..))) {
                self.write_ref(st, &r, v);
            }
            return;
        }
        // behind a snapshot: refine the snapshot
        let mut path = vec![];
        for pj in p.proj.iter() {
            path.push(match pj {
                Pj::Field(i) => Step::F(*i),
                Pj::Down(k) => Step::V(*k),
                Pj::Deref | Pj::BoxDeref | Pj::Nop => continue,
                Pj::CIdx(i, false) => Step::I(*i as usize),
                _ => return,
            });
        }
        let f = Rc::make_mut(&mut st.fr[fi]);
        refine_in(&mut f.v[p.local], &path, &v);
    }

    // ---------- control ----------
    /// run a function on arguments; returns states with the frame popped
    pub fn run_fn(&mut self, mut st: State, f: &Rc<Func>, args: Vec<Val>) -> Outs {
        if self.depth > 120 || self.aborted {
            *self.notes.entry(format!("recursion limit at {}", f.fr.path)).or_insert(0) += 1;
            self.aborted = true;
            return vec![];
        }
        *self.calls.entry(f.fr.id).or_insert(0) += 1;
        self.depth += 1;
        if self.trace {
            eprintln!("{}> {} {}", " ".repeat(self.depth), f.fr.full, args.iter().map(|a| short(a)).collect::<Vec<_>>().join(", "));
        }
        let mut v = vec![Val::Un; f.tys.len()];
        for (i, a) in args.into_iter().enumerate() {
            if i + 1 < v.len() {
                v[i + 1] = a;
            }
        }
        st.fr.push(Rc::new(Frame { f: f.clone(), v }));
        let exits = self.region(f, None, 0, vec![st]);
        self.depth -= 1;
        let mut rets = vec![];
        for (b, s) in exits {
            if b == RET {
                rets.push(s);
            }
        }
        // merge outcomes with the same shape of result
        let rets = if rets.len() > 1 { self.merge(rets, f, None) } else { rets };
        let r: Outs = rets
            .into_iter()
            .map(|mut s| {
                let fr = s.fr.pop().unwrap();
                let v = fr.v[0].clone();
                (s, v)
            })
            .collect();
        if self.trace {
            eprintln!("{}< {} [{}] {}", " ".repeat(self.depth + 1), f.fr.path, r.len(), r.iter().map(|x| short(&x.1)).collect::<Vec<_>>().join(" | "));
        }
        r
    }

    /// merge states at a block (None: at return) by partition key
    fn merge(&mut self, states: Vec<State>, f: &Rc<Func>, blk: Option<usize>) -> Vec<State> {
        if states.len() <= 1 {
            return states;
        }
        let mut groups: Vec<(Vec<u32>, Vec<State>)> = vec![];
        let plans: Vec<(usize, Rc<Plan>)> = (0..f.tys.len())
            .filter(|l| match blk {
                Some(b) => is_live(&f.blocks[b], *l),
                None => *l <= f.nargs,
            })
            .map(|l| (l, self.plan(f.tys[l], 0)))
            .filter(|x| !matches!(*x.1, Plan::No))
            .collect();
        for mut s in states {
            let n = s.fr.len() - 1;
            // clear dead locals
            {
                let fr = &s.fr[n];
                let dead: Vec<usize> = (0..f.tys.len())
                    .filter(|l| match blk {
                        Some(b) => !is_live(&f.blocks[b], *l),
                        None => *l > f.nargs,
                    })
                    .filter(|l| !matches!(fr.v[*l], Val::Un))
                    .collect();
                if !dead.is_empty() {
                    let fr = Rc::make_mut(&mut s.fr[n]);
                    for l in dead {
                        fr.v[l] = Val::Un;
                    }
                }
            }
            let mut key = vec![];
            for (l, p) in &plans {
                let v = s.fr[n].v[*l].clone();
                self.key_of(&s, &v, p, &mut key);
            }
            self.pin_key(&s, &mut key);
            match groups.iter_mut().find(|g| g.0 == key) {
                Some(g) => g.1.push(s),
                None => groups.push((key, vec![s])),
            }
        }
        if groups.len() > self.max_parts {
            *self.notes.entry(format!("partitions merged in {}", f.fr.path)).or_insert(0) += 1;
            let mut rest = vec![];
            let tail = groups.split_off(1);
            for g in tail {
                rest.extend(g.1);
            }
            groups[0].1.extend(rest);
        }
        groups
            .into_iter()
            .map(|(_, g)| {
                if g.len() > 1 && std::env::var("BV_MERGE").is_ok() {
                    eprintln!("MERGE {} in {} at {:?}", g.len(), f.fr.path, blk);
                }
                // states told apart by the deepest decision first
                let mut g = g;
                while g.len() > 1 && g.len() <= 16 {
                    let mut best = None;
                    for i in 0..g.len() {
                        for j in i + 1..g.len() {
                            let (r, conf, ao, bo) = pc_common(&g[i].pc, &g[j].pc);
                            let score = (conf.len() == 1 && ao.len() + bo.len() == 0, conf.len() == 1, r.len());
                            if best.map(|(s, _, _)| score > s).unwrap_or(true) {
                                best = Some((score, i, j));
                            }
                        }
                    }
                    let (_, i, j) = best.unwrap();
                    let y = g.remove(j);
                    g[i] = join_states(&g[i], &y);
                }
                let mut it = g.into_iter();
                let mut acc = it.next().unwrap();
                for s in it {
                    acc = join_states(&acc, &s);
                }
                acc
            })
            .collect()
    }

    fn region(&mut self, f: &Rc<Func>, reg: Option<usize>, header: usize, entry: Vec<State>) -> Vec<(usize, State)> {
        let mut exits: Vec<(usize, State)> = vec![];
        let Some(li) = reg else {
            let (_, ex, _) = self.pass(f, None, header, entry);
            return ex;
        };
        if !self.pin.is_empty() && entry.len() > 1 {
            let mut all = vec![];
            for s in entry {
                all.extend(self.region(f, reg, header, vec![s]));
                if self.aborted {
                    return vec![];
                }
            }
            return if all.len() > 24 { self.squash(all, f) } else { all };
        }
        let mut cur = entry;
        let mut iters = 0usize;
        loop {
            let (back, ex, dec) = self.pass(f, reg, header, cur.clone());
            if self.aborted {
                return vec![];
            }
            iters += 1;
            if back.is_empty() {
                exits.extend(ex);
                return exits;
            }
            // unroll while the loop test is decided by constants
            let stay = |x: &(bool, bool)| x.0 && !x.1;
            let first = dec.values().next().map(stay).unwrap_or(false);
            let any = dec.values().any(stay);
            let unroll = if first { iters < 300_000 } else { any && iters < 200 };
            if unroll {
                exits.extend(ex);
                if exits.len() > 24 {
                    exits = self.squash(exits, f);
                }
                cur = self.merge(back, f, Some(header));
                continue;
            }
            // invariant; it covers the states entering this iteration, so its exits cover these
            let key = format!("{} {}", f.fr.path, at(f.blocks[header].tm.1));
            *self.widened.entry(key).or_insert(0) += 1;
            let back = self.merge(back, f, Some(header));
            let ex2 = self.fixpoint(f, li, header, cur, back);
            exits.extend(ex2);
            return exits;
        }
    }
    fn squash(&mut self, exits: Vec<(usize, State)>, f: &Rc<Func>) -> Vec<(usize, State)> {
        let mut m: BTreeMap<usize, Vec<State>> = BTreeMap::new();
        for (b, s) in exits {
            m.entry(b).or_default().push(s);
        }
        let mut r = vec![];
        for (b, v) in m {
            for s in self.merge(v, f, if b == RET { None } else { Some(b) }) {
                r.push((b, s));
            }
        }
        r
    }

    fn keyed(&mut self, f: &Rc<Func>, header: usize, s: &State) -> Vec<u32> {
        let plans: Vec<(usize, Rc<Plan>)> = (0..f.tys.len()).filter(|l| is_live(&f.blocks[header], *l)).map(|l| (l, self.plan(f.tys[l], 0))).filter(|x| !matches!(*x.1, Plan::No)).collect();
        let n = s.fr.len() - 1;
        let mut key = vec![];
        for (l, p) in &plans {
            let v = s.fr[n].v[*l].clone();
            self.key_of(s, &v, p, &mut key);
        }
        self.pin_key(s, &mut key);
        key
    }
    fn pin_key(&self, s: &State, key: &mut Vec<u32>) {
        if self.pin_all {
            key.extend(s.pc.iter().map(|(c, b)| c * 2 + *b as u32));
            return;
        }
        for c in &self.pin {
            key.push(match s.fact(*c) {
                Some(b) => 50 + b as u32,
                None => 52,
            });
        }
    }

    fn fixpoint(&mut self, f: &Rc<Func>, li: usize, header: usize, entry: Vec<State>, back0: Vec<State>) -> Vec<(usize, State)> {
        let mut inv: Vec<(Vec<u32>, State, HashSet<Atom>, HashSet<Flt>)> = vec![];
        for s in entry {
            let k = self.keyed(f, header, &s);
            inv.push((k, s, HashSet::new(), HashSet::new()));
        }
        let mut back = back0;
        let mut round = 0;
        loop {
            let mut changed = false;
            let many = inv.len() > self.max_parts;
            for b in back {
                let k = self.keyed(f, header, &b);
                let ix = inv.iter().position(|x| x.0 == k).or(if many { Some(0) } else { None });
                match ix {
                    Some(i) => {
                        let (ns, ch) = widen_states(&inv[i].1, &b, &mut inv[i].2.clone(), &mut inv[i].3.clone(), round, f, header, |a, fl| {
                            let _ = (a, fl);
                        });
                        if let Some((ns, phis, fphis)) = ns {
                            inv[i].1 = ns;
                            inv[i].2 = phis;
                            inv[i].3 = fphis;
                        }
                        changed |= ch;
                    }
                    None => {
                        inv.push((k, b, HashSet::new(), HashSet::new()));
                        changed = true;
                    }
                }
            }
            round += 1;
            if round > 60 {
                *self.notes.entry(format!("no invariant found in {}", f.fr.path)).or_insert(0) += 1;
                self.aborted = true;
                return vec![];
            }
            let cur: Vec<State> = inv.iter().map(|x| x.1.clone()).collect();
            let (bk, ex, _) = self.pass(f, Some(li), header, cur);
            if self.aborted {
                return vec![];
            }
            if !changed && round > 1 {
                return ex;
            }
            back = bk;
        }
    }

    /// one pass over the blocks of a region. decided: (some exit test was decided to stay, some was undecided)
    fn pass(&mut self, f: &Rc<Func>, reg: Option<usize>, header: usize, entry: Vec<State>) -> (Vec<State>, Vec<(usize, State)>, Dec) {
        let mut pend: BTreeMap<usize, (usize, Vec<State>)> = BTreeMap::new();
        pend.insert(f.blocks[header].rpo, (header, entry));
        let mut back = vec![];
        let mut exits = vec![];
        let mut dec: Dec = BTreeMap::new();
        let inside = |b: usize| match reg {
            None => true,
            Some(l) => f.loops[l].body[b],
        };
        let mut first = true;
        while let Some((_, (b, states))) = pend.pop_first() {
            if self.aborted {
                return (vec![], vec![], dec);
            }
            let states = if !first && states.len() > 1 { self.merge(states, f, Some(b)) } else { states };
            let mut outs: Vec<(usize, State)> = vec![];
            // inner loop?
            let inner = {
                let mut l = f.blocks[b].lp;
                let mut res = None;
                while let Some(x) = l {
                    if Some(x) == reg {
                        break;
                    }
                    if f.loops[x].header == b && f.loops[x].parent == reg {
                        res = Some(x);
                    }
                    l = f.loops[x].parent;
                }
                res
            };
            if let Some(x) = inner {
                outs = self.region(f, Some(x), b, states);
            } else {
                for s in states {
                    self.block(f, b, s, &mut outs, reg, &mut dec);
                }
            }
            first = false;
            for (t, s) in outs {
                if t == RET {
                    exits.push((RET, s));
                } else if t == header && reg.is_some() {
                    back.push(s);
                } else if !inside(t) {
                    exits.push((t, s));
                } else {
                    pend.entry(f.blocks[t].rpo).or_insert((t, vec![])).1.push(s);
                }
            }
        }
        (back, exits, dec)
    }

    fn block(&mut self, f: &Rc<Func>, b: usize, st: State, outs: &mut Vec<(usize, State)>, reg: Option<usize>, dec: &mut Dec) {
        let blk = &f.blocks[b];
        let mut states = vec![st];
        for (s, _sp) in &blk.st {
            self.steps += states.len() as u64;
            if let St::Assign(d, Rv::Discr(p, ty)) = s {
                let mut ns = vec![];
                for st in states {
                    for (mut s2, v) in self.discr(st, p, *ty) {
                        self.write_pl(&mut s2, d, v);
                        ns.push(s2);
                    }
                }
                states = ns;
                continue;
            }
            for st in states.iter_mut() {
                match s {
                    St::Assign(d, rv) => {
                        let v = self.eval_rv(st, rv);
                        self.write_pl(st, d, v);
                    }
                    St::SetDiscr(p, v, _) => {
                        let x = Val::en(*v, vec![]);
                        self.write_pl(st, p, x);
                    }
                    St::Dead(_) => {}
                    St::Assume(_) => {}
                    St::Other(x) => {
                        *self.notes.entry(format!("statement {} in {}", x, f.fr.path)).or_insert(0) += 1;
                    }
                }
            }
        }
        if self.steps > self.limit {
            if !self.aborted {
                *self.notes.entry("step limit".into()).or_insert(0) += 1;
            }
            self.aborted = true;
            return;
        }
        let (tm, sp) = &blk.tm;
        for st in states {
            self.steps += 1;
            match tm {
                Tm::Goto(t) | Tm::Drop(_, t) => outs.push((*t, st)),
                Tm::Ret => outs.push((RET, st)),
                Tm::Unreach => {}
                Tm::Switch(o, br, other, t) => {
                    let v = self.op(&st, o);
                    let i = settle(&st, self.int_of(&v, *t));
                    let exit_test = reg.is_some() && blk.lp == reg && {
                        let l = &f.loops[reg.unwrap()];
                        br.iter().any(|x| !l.body[x.1]) || !l.body[*other]
                    };
                    if let Int::C(c) = i {
                        let t2 = br.iter().find(|x| (x.0 as i128) == c || ops_wrap(x.0, t) == c).map(|x| x.1).unwrap_or(*other);
                        if exit_test {
                            let e = dec.entry(blk.rpo).or_insert((false, false));
                            if f.loops[reg.unwrap()].body[t2] {
                                e.0 = true
                            } else {
                                e.1 = true
                            }
                        }
                        outs.push((t2, st));
                        continue;
                    }
                    if exit_test {
                        dec.insert(blk.rpo, (true, true));
                    }
                    // a few unknown bits: decide them one by one
                    if let Some(ways) = split_bits(&st, &i) {
                        let mut left: Vec<(i128, Vec<(CondId, bool)>)> = ways;
                        for (val, tgt) in br {
                            let val = ops_wrap(*val, t);
                            if let Some(k) = left.iter().position(|w| w.0 == val) {
                                let (_, w) = left.remove(k);
                                let mut s2 = st.clone();
                                if w.iter().all(|(c, b)| s2.assume(Tr::L(*c, !*b))) {
                                    outs.push((*tgt, s2));
                                }
                            }
                        }
                        let mut rest = vec![];
                        for (_, w) in left {
                            let mut s2 = st.clone();
                            if w.iter().all(|(c, b)| s2.assume(Tr::L(*c, !*b))) {
                                rest.push(s2);
                            }
                        }
                        if rest.len() == 1 {
                            outs.push((*other, rest.pop().unwrap()));
                        } else if rest.len() > 1 {
                            let mut s2 = st.clone();
                            for (val, _) in br {
                                s2.assume(ops::eq(&i, &Int::C(ops_wrap(*val, t))).not());
                            }
                            outs.push((*other, s2));
                        }
                        continue;
                    }
                    // candidate branches
                    let mut rest = Some(st.clone());
                    let mut done = false;
                    for (val, tgt) in br {
                        let val = ops_wrap(*val, t);
                        let e = ops::eq(&i, &Int::C(val));
                        match st.decide(e) {
                            Some(true) => {
                                outs.push((*tgt, st.clone()));
                                done = true;
                                break;
                            }
                            Some(false) => {}
                            None => {
                                let mut s2 = st.clone();
                                if self.lin_zero && is_lin(e) {
                                    // scenario assumption: parity checks hold
                                    if let Tr::L(c, n) = e {
                                        self.lin_seen.insert(c);
                                        if n {
                                            continue;
                                        } else {
                                            outs.push((*tgt, s2));
                                            done = true;
                                            break;
                                        }
                                    }
                                }
                                if self.autopin {
                                    if let Tr::L(c, _) = e {
                                        if !is_lin(e) && lin_deps(c).len() > 1 && !self.pin.contains(&c) {
                                            self.pin.push(c);
                                        }
                                    }
                                }
                                let mut ok = s2.assume(e);
                                if ok {
                                    if let Some(r) = &rest {
                                        // also not any earlier value (implied for constants)
                                        let _ = r;
                                    }
                                } else {
                                    ok = false;
                                }
                                if ok {
                                    outs.push((*tgt, s2));
                                }
                                if let Some(r) = rest.as_mut() {
                                    if !r.assume(e.not()) {
                                        rest = None;
                                    }
                                }
                            }
                        }
                    }
                    if !done {
                        if let Some(r) = rest {
                            if !matches!(f.blocks[*other].tm.0, Tm::Unreach) || !f.blocks[*other].st.is_empty() {
                                outs.push((*other, r));
                            }
                        }
                    }
                }
                Tm::Assert { cond, expected, kind, a, b, target } => {
                    let v = self.op(&st, cond);
                    let i = settle(&st, self.int_of(&v, ITy { w: 1, s: false, kind: 1 }));
                    let mut t = ops::truth(&i);
                    if !expected {
                        t = t.not();
                    }
                    let d = st.decide(t);
                    let detail = if d != Some(true) {
                        let x = a.as_ref().map(|o| self.show_op(&st, o)).unwrap_or_default();
                        let y = b.as_ref().map(|o| self.show_op(&st, o)).unwrap_or_default();
                        format!("{} / {}", x, y)
                    } else {
                        String::new()
                    };
                    let opl = [a, b].iter().filter_map(|o| o.as_ref()).map(|o| self.op(&st, o).loss()).max().unwrap_or(0);
                    self.obligation(&st, f, at(*sp), kind, d, opl, detail);
                    if d == Some(false) {
                        continue;
                    }
                    let mut st = st;
                    if st.assume(t) {
                        outs.push((*target, st));
                    }
                }
                Tm::Call { f: cal, args, dest, target, rust_call, ret_ty, arg_tys } => {
                    let av: Vec<Val> = args.iter().map(|a| self.op(&st, a)).collect();
                    let where_ = at(*sp);
                    let rs = self.call(st, f, cal, av, *rust_call, *ret_ty, arg_tys, &where_);
                    if let Some(t) = target {
                        for (mut s, v) in rs {
                            self.write_pl(&mut s, dest, v);
                            outs.push((*t, s));
                        }
                    }
                }
                Tm::Other(x) => {
                    *self.notes.entry(format!("terminator {} in {}", x, f.fr.path)).or_insert(0) += 1;
                }
            }
        }
    }
    fn show_op(&self, st: &State, o: &Op) -> String {
        let v = self.op(st, o);
        match &v {
            Val::I(i) => {
                let b = st.bounds(i);
                if b.0 == b.1 {
                    format!("{}", b.0)
                } else {
                    format!("{} in [{}, {}]", short(&v), b.0, b.1)
                }
            }
            _ => short(&v),
        }
    }
    pub fn obligation(&mut self, st: &State, f: &Rc<Func>, at: String, kind: &str, d: Option<bool>, oploss: u8, detail: String) {
        // attribute to the innermost function of the analysed crate
        let mut func = f.fr.path.clone();
        let mut local = f.local;
        let mut at = at;
        if !local {
            for fr in st.fr.iter().rev() {
                if fr.f.local {
                    func = fr.f.fr.path.clone();
                    local = true;
                    at = format!("{} (in {})", self.stack.last().cloned().unwrap_or_default(), f.fr.path);
                    break;
                }
            }
        }
        let k = ObKey { func, at, kind: kind.to_string() };
        let fail = if d == Some(true) { 0 } else { 1 + oploss.max(st.pc_loss()).min(2) };
        if self.trace && fail > 0 {
            eprintln!("OBLIGATION {:?} fail {} {}", k, fail, detail);
            for x in st.pc.iter() {
                eprintln!("   {} {} loss {}", x.1, format!("{:?}", cond_def(x.0)).chars().take(300).collect::<String>(), cond_loss(x.0));
            }
        }
        let e = self.ob.entry(k).or_default();
        e.seen += 1;
        e.local |= local;
        if fail > 0 && (e.fail == 0 || fail < e.fail || (d == Some(false) && !e.definite && fail <= e.fail && e.tried < 40)) {
            e.fail = fail;
            e.detail = detail;
            e.tried += 1;
            e.definite = d == Some(false) && reachable(st);
        }
    }

    /// resolve the callee and run it
    pub fn call(&mut self, st: State, caller: &Rc<Func>, cal: &Callee, mut args: Vec<Val>, rust_call: bool, ret: Ty, arg_tys: &[Ty], where_: &str) -> Outs {
        let fr = match cal {
            Callee::Fun(fr) => fr.clone(),
            Callee::Virtual(def, ga, vfr) => {
                let recv = args[0].clone();
                // Box<dyn Trait> and &dyn Trait receivers
                let (t, inner) = match &recv {
                    Val::Dyn(t, x) => (*t, x.as_ref().clone()),
                    Val::Ref(r) => match self.read_ref(&st, r) {
                        Val::Dyn(t, x) => (t, x.as_ref().clone()),
                        _ => return self.unknown(st, &format!("virtual {}", vfr.path), &args, ret),
                    },
                    Val::Sh(x) => match x.as_ref() {
                        Val::Dyn(t, x) => (*t, x.as_ref().clone()),
                        _ => return self.unknown(st, &format!("virtual {}", vfr.path), &args, ret),
                    },
                    _ => return self.unknown(st, &format!("virtual {}", vfr.path), &args, ret),
                };
                args[0] = inner;
                let mut g = ga.0.clone();
                g[0] = GenericArgKind::Type(t);
                match Instance::resolve(*def, &GenericArgs(g)) {
                    Ok(i) => fnref(i),
                    Err(_) => return self.unknown(st, &format!("virtual {}", vfr.path), &args, ret),
                }
            }
            Callee::Ptr(o) => {
                let v = self.op(&st, o);
                match v.peel() {
                    Val::Fn(f) => match f.as_ref() {
                        FnV::Def(d, a) => match Instance::resolve(*d, a) {
                            Ok(i) => fnref(i),
                            Err(_) => return self.unknown(st, "fn pointer", &args, ret),
                        },
                        FnV::Inst(i) => {
                            let fr = fnref(*i);
                            if fr.closure && args.len() + 1 == body_of(&fr).map(|b| b.nargs).unwrap_or(0) {
                                args.insert(0, Val::agg(vec![]));
                            }
                            fr
                        }
                    },
                    _ => return self.unknown(st, "fn pointer", &args, ret),
                }
            }
        };
        let depth = self.stack.len();
        if caller.local {
            self.stack.push(where_.to_string());
        }
        let r = self.call_fr(st, &fr, args, rust_call, ret, arg_tys);
        self.stack.truncate(depth);
        r
    }
    pub fn call_fr(&mut self, mut st: State, fr: &Rc<FnRef>, mut args: Vec<Val>, rust_call: bool, ret: Ty, arg_tys: &[Ty]) -> Outs {
        if let Some(mut h) = self.hooks.take() {
            let r = h.call(self, &mut st, fr, &mut args, ret);
            self.hooks = Some(h);
            if let Some(r) = r {
                return r;
            }
        }
        match crate::natives::native(self, st, fr, args, rust_call, ret, arg_tys) {
            Ok(r) => r,
            Err((st, args)) => self.enter(st, fr, args, rust_call, ret),
        }
    }
    pub fn enter(&mut self, st: State, fr: &Rc<FnRef>, mut args: Vec<Val>, rust_call: bool, ret: Ty) -> Outs {
        if self.gf_on {
            if let Some(op) = self.gf_class(fr, &args) {
                if let Some(v) = gf_apply(op, &args) {
                    return vec![(st, v)];
                }
            }
        }
        match body_of(fr) {
            Some(f) => {
                if rust_call && f.spread.is_none() && args.len() == 2 && f.nargs != 2 {
                    let t = args.pop().unwrap();
                    match t {
                        Val::Agg(v) => args.extend(v.iter().cloned()),
                        Val::Top(l) => {
                            for i in 2..=f.nargs {
                                args.push(fresh_of(f.tys[i], l, 0));
                            }
                        }
                        x => args.push(x),
                    }
                } else if rust_call && f.spread.is_none() && args.len() == 2 && fr.closure {
                    // closure with one argument
                    let t = args.pop().unwrap();
                    match t {
                        Val::Agg(v) if v.len() == 1 => args.push(v[0].clone()),
                        Val::Top(l) => args.push(fresh_of(f.tys[2], l, 0)),
                        x => args.push(x),
                    }
                }
                // the shim of a boxed closure called once takes it by value
                if args.len() < f.nargs {
                    *self.notes.entry(format!("argument count mismatch for {}", fr.full)).or_insert(0) += 1;
                }
                self.run_fn(st, &f, args)
            }
            None => match constructed(fr, &args, ret) {
                Some(v) => vec![(st, v)],
                None => self.unknown(st, &fr.path, &args, ret),
            },
        }
    }
    pub fn unknown(&mut self, mut st: State, what: &str, args: &[Val], ret: Ty) -> Outs {
        *self.unmod.entry(what.to_string()).or_insert(0) += 1;
        for a in args {
            self.havoc(&mut st, a);
        }
        if matches!(ret.kind(), TyKind::RigidTy(RigidTy::Never)) {
            return vec![];
        }
        vec![(st, fresh_of(ret, 2, 0))]
    }
    pub fn havoc(&mut self, st: &mut State, a: &Val) {
        match a {
            Val::Ref(r) => self.write_ref(st, r, Val::Top(2)),
            Val::Dyn(_, x) => self.havoc(st, x),
            Val::Agg(v) => {
                for x in v.iter() {
                    self.havoc(st, x)
                }
            }
            Val::Obj(o) => {
                if let Obj::ItMut { r, .. } = o.as_ref() {
                    self.write_ref(st, r, Val::Top(2))
                }
            }
            _ => {}
        }
    }
    /// call a closure or function value
    pub fn call_val(&mut self, st: State, f: &Val, fty: Ty, args: Vec<Val>, ret: Ty) -> Outs {
        let _ = ret;
        match fty.kind() {
            TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnMut) {
                    let fr = fnref(i);
                    let by_ref = body_of(&fr).map(|b| matches!(b.tys.get(1).map(|t| t.kind()), Some(TyKind::RigidTy(RigidTy::Ref(..))))).unwrap_or(false);
                    let mut v = vec![if by_ref && !matches!(f, Val::Ref(_) | Val::Sh(_)) { Val::sh(f.clone()) } else { f.clone() }];
                    v.extend(args);
                    return self.call_fr(st, &fr, v, false, ret, &[]);
                }
                vec![]
            }
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                Ok(i) => {
                    let fr = fnref(i);
                    self.call_fr(st, &fr, args, false, ret, &[])
                }
                Err(_) => self.unknown(st, "fn def", &args, ret),
            },
            _ => self.unknown(st, "callable", &args, ret),
        }
    }

    // ---------- GF(256) classification ----------
    /// operator implementations on one-byte newtypes, classified by tabulating their terms
    fn gf_class(&mut self, fr: &Rc<FnRef>, args: &[Val]) -> Option<u8> {
        if args.len() != 2 || fr.krate != "bardecoder" {
            return None;
        }
        let byte = |v: &Val| -> bool {
            match v {
                Val::Agg(a) if a.len() == 1 => matches!(a[0], Val::I(_)),
                _ => false,
            }
        };
        if !byte(&args[0]) || !byte(&args[1]) {
            return None;
        }
        if let Some(r) = self.gf.get(&fr.id) {
            return *r;
        }
        self.gf.insert(fr.id, None);
        let r = crate::gfcheck::classify(fr).map(|x| x.0);
        self.gf.insert(fr.id, r);
        r
    }
}

pub fn is_lin(t: Tr) -> bool {
    match t {
        Tr::L(c, _) => matches!(cond_def(c), Cond::LinEq0(_)),
        _ => false,
    }
}

fn gf_apply(op: u8, args: &[Val]) -> Option<Val> {
    let g = |v: &Val| match v {
        Val::Agg(a) => match &a[0] {
            Val::I(i) => Some(i.clone()),
            _ => None,
        },
        _ => None,
    };
    let (x, y) = (g(&args[0])?, g(&args[1])?);
    if let (Int::C(_), Int::C(_)) = (&x, &y) {
        return None; // ordinary evaluation
    }
    // nibbles are no elements of GF(256)
    let small = |i: &Int| i.bits(8).map_or(false, |b| b[4..].iter().all(|x| *x == Bit::Z));
    if op == 0 && small(&x) && small(&y) {
        return None;
    }
    let r = match op {
        // addition
        0 => Int::of_lin(lin_add(&x.lin(), &y.lin())),
        // multiplication in GF(256)
        1 => match (&x, &y) {
            (Int::C(k), z) | (z, Int::C(k)) => Int::of_lin(lin_scale(&z.lin(), *k as u8)),
            _ => {
                let (p, q) = if x.atom() <= y.atom() { (&x, &y) } else { (&y, &x) };
                Int::of_atom(atom(Def::GfOp(0, p.clone(), q.clone()), 0, 255, p.loss().max(q.loss())))
            }
        },
        _ => return None,
    };
    Some(Val::agg(vec![Val::I(r)]))
}

/// all values of an integer with two to six unknown bits, each with the bits that give it
fn split_bits(st: &State, i: &Int) -> Option<Vec<(i128, Vec<(CondId, bool)>)>> {
    let Int::B(v) = i else { return None };
    let mut bits = vec![];
    let mut cs: Vec<CondId> = vec![];
    for b in v.iter() {
        bits.push(match b {
            Bit::T => return None,
            Bit::L(c, n) => match st.decide(Tr::L(*c, *n)) {
                Some(true) => Bit::O,
                Some(false) => Bit::Z,
                None => {
                    if !cs.contains(c) {
                        cs.push(*c)
                    }
                    *b
                }
            },
            x => *x,
        });
    }
    if cs.is_empty() || cs.len() > 6 {
        return None;
    }
    let mut r = vec![];
    for w in 0..1usize << cs.len() {
        let mut x = 0i128;
        for (k, b) in bits.iter().enumerate() {
            let one = match b {
                Bit::O => true,
                Bit::L(c, n) => (w >> cs.iter().position(|d| d == c).unwrap() & 1 == 1) ^ n,
                _ => false,
            };
            x |= (one as i128) << k;
        }
        r.push((x, cs.iter().enumerate().map(|(k, c)| (*c, w >> k & 1 == 1)).collect::<Vec<_>>()));
    }
    r.sort();
    Some(r)
}
pub fn settle(st: &State, i: Int) -> Int {
    match &i {
        Int::W(c, f, t) => match st.decide(Tr::L(*c, false)) {
            Some(true) => Int::C(*t),
            Some(false) => Int::C(*f),
            None => i,
        },
        _ => i,
    }
}
fn ops_wrap(v: u128, t: &ITy) -> i128 {
    if t.s {
        wrap(v as i128, t.w, true)
    } else {
        v as i128
    }
}
pub fn pointee(t: Ty) -> Option<Ty> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
        TyKind::RigidTy(RigidTy::Adt(d, a)) => {
            let _ = d;
            match a.0.first() {
                Some(GenericArgKind::Type(t)) => Some(*t),
                _ => None,
            }
        }
        _ => None,
    }
}
pub fn discr_of(ty: Ty, var: usize) -> i128 {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => {
            use rustc_public_bridge::IndexedVal;
            let x = d.discriminant_for_variant(VariantIdx::to_val(var));
            let t = ity(x.ty);
            wrap(x.val as i128, t.w, t.s)
        }
        _ => var as i128,
    }
}
pub fn str_len(s: &StrV) -> Int {
    match s.text() {
        Some(t) => Int::C(t.len() as i128),
        None => Int::of_atom(fresh_atom(0, (1 << 63) - 1, if s.p.iter().any(|p| matches!(p, Part::Opaque(2))) { 2 } else { 1 })),
    }
}

fn refine_in(v: &mut Val, path: &[Step], nv: &Val) {
    match v {
        Val::Sh(x) | Val::Bx(x) | Val::Dyn(_, x) => refine_in(Rc::make_mut(x), path, nv),
        _ => match path.split_first() {
            None => {
                if matches!(v, Val::Alt(_) | Val::Top(_)) {
                    *v = nv.clone()
                }
            }
            Some((Step::F(i), r)) => match v {
                Val::Agg(a) => {
                    if let Some(x) = Rc::make_mut(a).get_mut(*i) {
                        refine_in(x, r, nv)
                    }
                }
                Val::En(e) => {
                    if let Some(x) = Rc::make_mut(e).f.get_mut(*i) {
                        refine_in(x, r, nv)
                    }
                }
                _ => {}
            },
            Some((Step::V(k), r)) => {
                if let Val::En(e) = v {
                    if e.var == *k {
                        refine_in(v, r, nv)
                    }
                }
            }
            Some((Step::I(i), r)) => {
                if let Val::Seq(s) = v {
                    if let Seq::Ex(x) = Rc::make_mut(s) {
                        if let Some(y) = x.get_mut(*i) {
                            refine_in(y, r, nv)
                        }
                    }
                }
            }
            _ => {}
        },
    }
}

/// apply an update at a path
pub fn upd(st: &State, v: &mut Val, path: &[Step], weak: bool, f: &mut dyn FnMut(&mut Val)) {
    let Some((s, rest)) = path.split_first() else {
        if weak {
            let old = v.clone();
            f(v);
            if *v != old {
                *v = match (&old, &*v) {
                    (Val::I(x), Val::I(y)) => {
                        let (p, q) = (st.bounds(x), st.bounds(y));
                        Val::I(Int::of_atom(fresh_atom(p.0.min(q.0), p.1.max(q.1), x.loss().max(y.loss()).max(1))))
                    }
                    (a, b) => el_join(st, &abs_el(st, a), b),
                };
            }
        } else {
            f(v)
        }
        return;
    };
    match (s, &mut *v) {
        (Step::F(i), Val::Agg(a)) => {
            let a = Rc::make_mut(a);
            while a.len() <= *i {
                a.push(Val::Un);
            }
            upd(st, &mut a[*i], rest, weak, f)
        }
        (Step::F(i), Val::Un) => {
            let mut a = vec![Val::Un; i + 1];
            upd(st, &mut a[*i], rest, weak, f);
            *v = Val::agg(a);
        }
        (Step::V(k), Val::En(e)) => {
            let e = Rc::make_mut(e);
            if e.var != *k {
                e.var = *k;
                e.f = vec![];
            }
            if let Some((Step::F(i), r2)) = rest.split_first() {
                while e.f.len() <= *i {
                    e.f.push(Val::Un);
                }
                upd(st, &mut e.f[*i], r2, weak, f)
            }
        }
        (Step::V(k), Val::Alt(a)) => {
            let a = Rc::make_mut(a);
            for x in a.iter_mut() {
                if x.e.var == *k {
                    if let Some((Step::F(i), r2)) = rest.split_first() {
                        if let Some(y) = x.e.f.get_mut(*i) {
                            upd(st, y, r2, weak, f)
                        }
                    }
                }
            }
        }
        (Step::V(k), Val::Un) => {
            *v = Val::en(*k, vec![]);
            upd(st, v, path, weak, f)
        }
        (Step::I(i), Val::Seq(s)) => match Rc::make_mut(s) {
            Seq::Ex(x) => {
                if let Some(y) = x.get_mut(*i) {
                    upd(st, y, rest, weak, f)
                }
            }
            Seq::Sum { el, .. } => {
                upd(st, el, rest, true, f);
                *el = abs_el(st, el);
            }
        },
        (Step::S(i), Val::Seq(s)) => match Rc::make_mut(s) {
            Seq::Ex(x) => {
                let (lo, hi) = st.bounds(i);
                let lo = lo.max(0) as usize;
                let n = x.len();
                if n > 0 {
                    let hi = (hi.max(0) as usize).min(n - 1);
                    if lo == hi {
                        upd(st, &mut x[lo], rest, weak, f)
                    } else {
                        for y in x.iter_mut().take(hi + 1).skip(lo) {
                            upd(st, y, rest, true, f)
                        }
                    }
                }
            }
            Seq::Sum { el, .. } => {
                upd(st, el, rest, true, f);
                *el = abs_el(st, el);
            }
        },
        (Step::R(a, n), Val::Seq(_)) => {
            // compose with the following index
            match rest.split_first() {
                Some((Step::I(i), r2)) => {
                    let j = ops::add(a, &Int::C(*i as i128));
                    let mut p = vec![match j {
                        Int::C(c) => Step::I(c as usize),
                        x => Step::S(x),
                    }];
                    p.extend(r2.iter().cloned());
                    upd(st, v, &p, weak, f)
                }
                Some((Step::S(i), r2)) => {
                    let mut p = vec![Step::S(ops::add(a, i))];
                    p.extend(r2.iter().cloned());
                    upd(st, v, &p, weak, f)
                }
                Some((Step::R(b, m), r2)) => {
                    let mut p = vec![Step::R(ops::add(a, b), m.clone())];
                    p.extend(r2.iter().cloned());
                    upd(st, v, &p, weak, f)
                }
                None => {
                    // replace the sub-slice
                    let Val::Seq(s) = &*v else { return };
                    let cur = match (s.as_ref(), a, n) {
                        (Seq::Ex(x), Int::C(p), Int::C(q)) => Val::vec(x.get(*p as usize..(*p + *q) as usize).map(|y| y.to_vec()).unwrap_or_default()),
                        _ => Val::Top(1),
                    };
                    let mut c2 = cur.clone();
                    f(&mut c2);
                    match (Rc::make_mut(match v {
                        Val::Seq(s) => s,
                        _ => return,
                    }), a, &c2)
                    {
                        (Seq::Ex(x), Int::C(p), Val::Seq(t)) => match t.as_ref() {
                            Seq::Ex(t) => {
                                for (i, y) in t.iter().enumerate() {
                                    if let Some(z) = x.get_mut(*p as usize + i) {
                                        *z = y.clone();
                                    }
                                }
                            }
                            Seq::Sum { el, .. } => {
                                let el = el.clone();
                                for z in x.iter_mut() {
                                    *z = el_join(st, &abs_el(st, z), &el);
                                }
                            }
                        },
                        (Seq::Ex(x), _, Val::Seq(t)) => {
                            let el = t.el();
                            for z in x.iter_mut() {
                                *z = el_join(st, &abs_el(st, z), &el);
                            }
                        }
                        (Seq::Ex(x), _, _) => {
                            for z in x.iter_mut() {
                                *z = Val::Top(2);
                            }
                        }
                        (Seq::Sum { el, .. }, _, Val::Seq(t)) => *el = el_join(st, el, &t.el()),
                        (Seq::Sum { el, .. }, _, _) => *el = Val::Top(2),
                    }
                }
                _ => {}
            }
        }
        (Step::B, Val::Bx(x)) => upd(st, Rc::make_mut(x), rest, weak, f),
        (Step::B, Val::Dyn(_, x)) => upd(st, Rc::make_mut(x), path, weak, f),
        (_, Val::Top(_)) => *v = Val::Top(2),
        (_, Val::Sh(x)) => upd(st, Rc::make_mut(x), path, weak, f),
        _ => *v = Val::Top(2),
    }
}

fn pc_common(a: &Rc<Vec<Lit>>, b: &Rc<Vec<Lit>>) -> (Rc<Vec<Lit>>, Vec<Lit>, Vec<Lit>, Vec<Lit>) {
    let mut r = vec![];
    let (mut conf, mut ao, mut bo) = (vec![], vec![], vec![]);
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            ao.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            bo.push(b[j]);
            j += 1;
        } else {
            if a[i].1 == b[j].1 {
                r.push(a[i]);
            } else {
                conf.push(a[i]);
            }
            i += 1;
            j += 1;
        }
    }
    (Rc::new(r), conf, ao, bo)
}
/// facts implied by a fact
fn parts_of(l: Lit) -> Vec<Lit> {
    match cond_def(l.0) {
        Cond::And(x, n, y, m) if l.1 => {
            let mut v = vec![(x, !n), (y, !m)];
            v.extend(parts_of((x, !n)));
            v.extend(parts_of((y, !m)));
            v
        }
        _ => vec![],
    }
}
/// common facts, and a condition telling the two sides apart: (condition, its value on a)
fn pc_join(a: &State, b: &State) -> (Rc<Vec<Lit>>, Option<Lit>) {
    if Rc::ptr_eq(&a.pc, &b.pc) {
        return (a.pc.clone(), None);
    }
    let (r, mut conf, ao, bo) = pc_common(&a.pc, &b.pc);
    let textual = conf.clone();
    let (mut ao2, mut bo2) = (vec![], vec![]);
    let mut extra = vec![];
    if ao.len() + bo.len() <= 12 {
        for (mine, other, out, onb) in [(&ao, b, &mut ao2, false), (&bo, a, &mut bo2, true)] {
            for (c, v) in mine {
                match other.decide(Tr::L(*c, false)) {
                    Some(x) if x == *v => extra.push((*c, *v)),
                    Some(_) => conf.push((*c, *v ^ onb)),
                    None => out.push((*c, *v)),
                }
            }
        }
    } else {
        ao2 = ao;
        bo2 = bo;
    }
    let gate = textual.iter().find(|x| !x.1).or(textual.first()).or(conf.iter().find(|x| matches!(cond_def(x.0), Cond::And(..)))).or(conf.first()).copied();
    // either the gate has its value on one side, or both it and one more fact hold
    if let Some((c, v)) = gate {
        let drop = |l: &Vec<Lit>, p: &[Lit]| -> Vec<Lit> { l.iter().filter(|x| !p.contains(x)).copied().collect() };
        let ra = drop(&ao2, &parts_of((c, v)));
        let rb = drop(&bo2, &parts_of((c, !v)));
        let or = match (ra.len(), rb.len()) {
            (0, 1) => Some(((c, !v), rb[0])),
            (1, 0) => Some(((c, v), ra[0])),
            _ => None,
        };
        if let Some((p, q)) = or {
            if textual.len() <= 1 {
                let (x, y) = if p.0 < q.0 { ((p.0, !p.1), (q.0, q.1)) } else { ((q.0, q.1), (p.0, !p.1)) };
                // not (p and not q)
                extra.push((cond(Cond::And(x.0, x.1, y.0, y.1)), false));
            }
        }
    }
    if extra.is_empty() {
        return (r, gate);
    }
    let mut v = r.as_ref().clone();
    v.extend(extra);
    v.sort();
    v.dedup();
    (Rc::new(v), gate)
}

pub fn join_states(a: &State, b: &State) -> State {
    let (pc, g) = pc_join(a, b);
    // the gate is false on the first side
    let swap = matches!(g, Some((_, true)));
    let gate = g.map(|x| x.0);
    let (x, y) = if swap { (b, a) } else { (a, b) };
    let xb = x.bnd.clone();
    let yb = y.bnd.clone();
    let mut memo = PhiMemo::default();
    let sides: Option<(State, State)> = gate.map(|_| (State { fr: vec![], ..x.clone() }, State { fr: vec![], ..y.clone() }));
    let keep = |i: &Int, second: bool| -> Int {
        let Some((p, q)) = &sides else { return i.clone() };
        keep_bounds(i, if second { q } else { p })
    };
    if gate.is_none() {
        let (xs, ys) = (x.clone(), y.clone());
        let _ = (&xb, &yb);
        memo.bounds_of = Some(Box::new(move |i, second| if second { ys.bounds(i) } else { xs.bounds(i) }));
    }
    let mut j = Joiner { gate, memo: if gate.is_none() { Some(&mut memo) } else { None }, widen: None, keep: if gate.is_some() { Some(&keep) } else { None } };
    let mut fr = vec![];
    for (p, q) in x.fr.iter().zip(&y.fr) {
        if Rc::ptr_eq(p, q) {
            fr.push(p.clone());
        } else {
            fr.push(Rc::new(Frame { f: p.f.clone(), v: j.vals(&p.v, &q.v) }));
        }
    }
    let ghost = if Rc::ptr_eq(&x.ghost, &y.ghost) || x.ghost == y.ghost {
        x.ghost.clone()
    } else if x.ghost.len() == y.ghost.len() {
        Rc::new(j.vals(&x.ghost, &y.ghost))
    } else {
        Rc::new(vec![Val::Top(2)])
    };
    finish(x, y, pc, fr, ghost)
}
/// an approximated value with the bounds that hold in a state, if those are much better than its own
fn keep_bounds(i: &Int, st: &State) -> Int {
    if matches!(i, Int::C(_)) || i.loss() == 0 {
        return i.clone();
    }
    let b = i.bounds();
    if b.0 >= 0 && b.1 < 1 << 31 {
        return i.clone();
    }
    let n = st.bounds(i);
    if n.0 >= 0 && n.1 < 1 << 62 && n != b {
        return Int::of_atom(atom(Def::Bin("bounded", i.clone(), Int::C(n.0 << 62 | n.1), 64), n.0, n.1, i.loss()));
    }
    i.clone()
}
fn finish(x: &State, y: &State, pc: Rc<Vec<Lit>>, fr: Vec<Rc<Frame>>, ghost: Rc<Vec<Val>>) -> State {
    let bnd = if Rc::ptr_eq(&x.bnd, &y.bnd) {
        x.bnd.clone()
    } else {
        let mut m = BTreeMap::new();
        for (k, p) in x.bnd.iter() {
            if let Some(q) = y.bnd.get(k) {
                m.insert(*k, (p.0.min(q.0), p.1.max(q.1)));
            }
        }
        // the value of a loop this side has not been through: the other side does not know it
        for (p, q) in [(&x.bnd, &y.bnd), (&y.bnd, &x.bnd)] {
            for (k, b) in p.iter() {
                if !q.contains_key(k) && atom_bounds(*k) == (-(1 << 100), 1 << 100) {
                    m.insert(*k, *b);
                }
            }
        }
        Rc::new(m)
    };
    let ar = if pc == x.pc {
        x.ar.clone()
    } else {
        let mut v = vec![];
        for (c, b) in pc.iter() {
            v.extend(arith_of(*c, *b));
        }
        Rc::new(v)
    };
    State { fr, pc, ar, bnd, ghost }
}

struct Widen<'a> {
    x: &'a State,
    y: &'a State,
    phis: HashSet<Atom>,
    fphis: HashSet<Flt>,
    memo: HashMap<(Int, Int), Int>,
    fmemo: HashMap<(Flt, Flt), Flt>,
    owner: HashMap<Atom, Int>,
    bnd: BTreeMap<Atom, (i128, i128)>,
    changed: bool,
    round: usize,
}
impl<'a> Widen<'a> {
    fn int(&mut self, a: &Int, b: &Int) -> Int {
        if let Some(x) = self.memo.get(&(a.clone(), b.clone())) {
            return x.clone();
        }
        let phi = match a {
            Int::P(p) if p.len() == 1 && p[0].1 == 1 && p[0].0.len() == 1 && self.phis.contains(&p[0].0[0]) => Some(p[0].0[0]),
            _ => None,
        };
        if let Some(p) = phi {
            match self.owner.get(&p) {
                None => {
                    // keep the name, extend its range
                    self.owner.insert(p, b.clone());
                    let old = self.x.bounds(a);
                    let new = self.y.bounds(b);
                    let w = if self.round < 2 { (old.0.min(new.0), old.1.max(new.1)) } else { widen_range(old, new) };
                    if w != old {
                        self.changed = true;
                    }
                    self.bnd.insert(p, w);
                    self.memo.insert((a.clone(), b.clone()), a.clone());
                    return a.clone();
                }
                Some(o) if o == b => return a.clone(),
                _ => {}
            }
        } else if a == b {
            return a.clone();
        }
        self.changed = true;
        let (p, q) = (self.x.bounds(a), self.y.bounds(b));
        let w = (p.0.min(q.0), p.1.max(q.1));
        let at = fresh_atom(-(1 << 100), 1 << 100, a.loss().max(b.loss()).max(1));
        self.phis.insert(at);
        self.bnd.insert(at, w);
        let r = Int::of_atom(at);
        self.owner.insert(at, b.clone());
        self.memo.insert((a.clone(), b.clone()), r.clone());
        r
    }
    fn flt(&mut self, a: Flt, b: Flt) -> Flt {
        if a == b {
            return a;
        }
        if let Some(x) = self.fmemo.get(&(a, b)) {
            return *x;
        }
        let (p, q) = (a.info(), b.info());
        let r = if self.fphis.contains(&a) && q.lo >= p.lo && q.hi <= p.hi && (p.nan || !q.nan) {
            a
        } else {
            self.changed = true;
            let (lo, hi) = if self.round < 2 {
                (p.lo.min(q.lo), p.hi.max(q.hi))
            } else {
                (if q.lo < p.lo { if q.lo >= 0.0 { 0.0 } else { f64::NEG_INFINITY } } else { p.lo }, if q.hi > p.hi { f64::INFINITY } else { p.hi })
            };
            let n = Flt::fresh(lo, hi, p.nan || q.nan, p.loss.max(q.loss).max(1));
            self.fphis.insert(n);
            n
        };
        self.fmemo.insert((a, b), r);
        r
    }
    fn el(&mut self, a: &Val, b: &Val) -> Val {
        if *b == Val::Un {
            return a.clone();
        }
        if *a == Val::Un {
            self.changed = true;
            return abs_el(self.y, b);
        }
        let a2 = abs_el(self.x, a);
        let r = el_join(self.y, &a2, b);
        if r != a2 {
            self.changed = true;
        }
        r
    }
    fn seq(&mut self, x: &Rc<Seq>, y: &Rc<Seq>) -> Rc<Seq> {
        if Rc::ptr_eq(x, y) {
            return x.clone();
        }
        match (x.as_ref(), y.as_ref()) {
            (Seq::Ex(p), Seq::Ex(q)) if p.len() == q.len() => Rc::new(Seq::Ex(p.iter().zip(q).map(|(s, t)| self.val(s, t)).collect())),
            (p, q) => {
                let len = self.int(&p.len(), &q.len());
                let elp = match p {
                    Seq::Ex(v) => {
                        let mut r = Val::Un;
                        for z in v {
                            r = el_join(self.x, &r, z);
                        }
                        self.changed = true;
                        r
                    }
                    Seq::Sum { el, .. } => el.clone(),
                };
                let elq = match q {
                    Seq::Ex(v) => {
                        let mut r = Val::Un;
                        for z in v {
                            r = el_join(self.y, &r, z);
                        }
                        r
                    }
                    Seq::Sum { el, .. } => el.clone(),
                };
                let el = if elp == elq { elp } else { self.el(&elp, &elq) };
                Rc::new(Seq::Sum { len, el })
            }
        }
    }
    fn fields(&mut self, x: &[Val], y: &[Val]) -> Vec<Val> {
        x.iter().zip(y).map(|(s, t)| self.val(s, t)).collect()
    }
    fn val(&mut self, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::I(x), Val::I(y)) => Val::I(self.int(x, y)),
            (Val::F(x), Val::F(y)) => Val::F(self.flt(*x, *y)),
            (Val::Agg(x), Val::Agg(y)) if x.len() == y.len() => Val::agg(self.fields(x, y)),
            (Val::En(x), Val::En(y)) if x.var == y.var && x.f.len() == y.f.len() => Val::en(x.var, self.fields(&x.f, &y.f)),
            (Val::Seq(x), Val::Seq(y)) => Val::Seq(self.seq(x, y)),
            (Val::Sh(x), Val::Sh(y)) => Val::sh(self.val(x, y)),
            (Val::Bx(x), Val::Bx(y)) => Val::Bx(Rc::new(self.val(x, y))),
            (Val::Dyn(t, x), Val::Dyn(u, y)) if t == u => Val::Dyn(*t, Rc::new(self.val(x, y))),
            (Val::Obj(x), Val::Obj(y)) => match (x.as_ref(), y.as_ref()) {
                (Obj::It { seq: s, pos: p, end: e, by }, Obj::It { seq: s2, pos: p2, end: e2, by: by2 }) if by == by2 => {
                    let seq = self.seq(s, s2);
                    let r = Obj::It { seq, pos: self.int(p, p2), end: self.int(e, e2), by: *by };
                    Val::obj(r)
                }
                (Obj::ItMut { r, pos: p, end: e }, Obj::ItMut { r: r2, pos: p2, end: e2 }) if r == r2 => {
                    let o = Obj::ItMut { r: r.clone(), pos: self.int(p, p2), end: self.int(e, e2) };
                    Val::obj(o)
                }
                (x2, y2) if x2 == y2 => a.clone(),
                _ => {
                    self.changed = true;
                    hull(a, b)
                }
            },
            (Val::Un, Val::Un) => Val::Un,
            (Val::Un, y) => {
                self.changed = true;
                y.clone()
            }
            (x, Val::Un) => x.clone(),
            (Val::Top(x), y) => {
                let l = (*x).max(y.loss().min(2)).max(1);
                if l != *x {
                    self.changed = true;
                }
                Val::Top(l)
            }
            (Val::Ref(x), Val::Ref(y)) if x == y => a.clone(),
            (Val::Str(x), Val::Str(y)) => {
                if x == y {
                    return a.clone();
                }
                if let [Part::Opaque(_)] = &x.p[..] {
                    return a.clone();
                }
                self.changed = true;
                Val::Str(Rc::new(StrV { p: vec![Part::Opaque(1)] }))
            }
            (Val::Alt(_) | Val::En(_), Val::Alt(_) | Val::En(_)) => {
                if a == b {
                    return a.clone();
                }
                let r = self.el(a, b);
                r
            }
            (x, y) => {
                if x == y {
                    return a.clone();
                }
                self.changed = true;
                hull(a, b)
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn widen_states(x: &State, y: &State, phis: &mut HashSet<Atom>, fphis: &mut HashSet<Flt>, round: usize, f: &Rc<Func>, header: usize, _dbg: impl Fn(Atom, Flt)) -> (Option<(State, HashSet<Atom>, HashSet<Flt>)>, bool) {
    let (pc, _, _, _) = pc_common(&x.pc, &y.pc);
    let mut w = Widen { x, y, phis: phis.clone(), fphis: fphis.clone(), memo: HashMap::new(), fmemo: HashMap::new(), owner: HashMap::new(), bnd: BTreeMap::new(), changed: false, round };
    if pc.len() != x.pc.len() {
        w.changed = true;
    }
    let mut fr = vec![];
    let top = x.fr.len() - 1;
    for (i, (p, q)) in x.fr.iter().zip(&y.fr).enumerate() {
        if Rc::ptr_eq(p, q) && phis.is_empty() {
            fr.push(p.clone());
        } else {
            let mut v = vec![];
            for l in 0..p.v.len() {
                if i == top && !is_live(&f.blocks[header], l) {
                    v.push(Val::Un);
                } else {
                    v.push(w.val(&p.v[l], &q.v[l]));
                }
            }
            fr.push(Rc::new(Frame { f: p.f.clone(), v }));
        }
    }
    let ghost = if x.ghost == y.ghost {
        x.ghost.clone()
    } else if x.ghost.len() == y.ghost.len() {
        let g: Vec<Val> = x.ghost.iter().zip(y.ghost.iter()).map(|(a, b)| w.val(a, b)).collect();
        Rc::new(g)
    } else {
        w.changed |= x.ghost[..] != [Val::Top(2)];
        Rc::new(vec![Val::Top(2)])
    };
    let (changed, nb, np, nf) = (w.changed, w.bnd, w.phis, w.fphis);
    let mut s = finish(x, y, pc, fr, ghost);
    let m = Rc::make_mut(&mut s.bnd);
    // facts about a renamed value do not carry over
    for p in np.iter() {
        if !nb.contains_key(p) {
            // still named somewhere with its old range
            if let Some(b) = x.bnd.get(p) {
                m.insert(*p, *b);
            }
        }
    }
    for (k, b) in nb {
        m.insert(k, b);
    }
    (Some((s, np, nf)), changed)
}

pub fn short(v: &Val) -> String {
    let mut s = String::new();
    sh(v, 0, &mut s);
    if s.len() > 160 {
        let mut k = 160;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push_str("...");
    }
    s
}
pub fn show_poly(p: &Poly) -> String {
    let mut t = vec![];
    for (k, (m, c)) in p.iter().enumerate() {
        if k > 8 {
            t.push("...".into());
            break;
        }
        let ms: Vec<String> = m.iter().map(|a| show_atom(*a, 0)).collect();
        if m.is_empty() {
            t.push(format!("{}", c));
        } else if *c == 1 {
            t.push(ms.join("*"));
        } else {
            t.push(format!("{}*{}", c, ms.join("*")));
        }
    }
    if t.is_empty() {
        "0".into()
    } else {
        t.join("+")
    }
}
thread_local! { static DEEP: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
pub fn show_atom(a: Atom, _d: u32) -> String {
    let d = DEEP.with(|x| x.get());
    if d > 2 {
        return format!("a{}", a);
    }
    DEEP.with(|x| x.set(d + 1));
    let r = show_atom1(a);
    DEEP.with(|x| x.set(d));
    r
}
fn show_atom1(a: Atom) -> String {
    match atom_def(a) {
        Def::Input(s) => s,
        Def::Fresh(n) => format!("?{}", n),
        Def::Of(i) => format!("<{}>", show_int(&i)),
        Def::Div(p, q) => format!("({})/({})", show_poly(&p), show_poly(&q)),
        Def::Rem(p, q) => format!("({})%({})", show_poly(&p), show_poly(&q)),
        Def::Tab(_, i) => format!("T[{}]", show_int(&i)),
        Def::Ite(c, f, t) => format!("(c{}?{}:{})", c, show_int(&t), show_int(&f)),
        Def::F2I(f, _, _) => format!("int(f{})", f),
        _ => format!("a{}", a),
    }
}
pub fn show_int(i: &Int) -> String {
    match i {
        Int::C(c) => format!("{}", c),
        Int::P(p) => show_poly(p),
        Int::W(c, f, t) => format!("(c{}?{}:{})", c, t, f),
        Int::B(v) => format!("bits{}", v.len()),
        Int::G(l) => format!("gf{}", l.t.len()),
    }
}
fn sh(v: &Val, d: u32, o: &mut String) {
    use std::fmt::Write;
    if o.len() > 200 {
        return;
    }
    match v {
        Val::Un => o.push('_'),
        Val::Top(l) => {
            let _ = write!(o, "T{}", l);
        }
        Val::I(i) => o.push_str(&show_int(i)),
        Val::F(f) => {
            let i = f.info();
            match i.t {
                FT::C(b) => {
                    let _ = write!(o, "{}f", f64::from_bits(b));
                }
                _ => {
                    let _ = write!(o, "f{}[{},{}]", f.0, i.lo, i.hi);
                }
            }
        }
        Val::Agg(a) => {
            o.push('(');
            for x in a.iter().take(8) {
                sh(x, d + 1, o);
                o.push(',');
            }
            o.push(')');
        }
        Val::En(e) => {
            let _ = write!(o, "#{}(", e.var);
            for x in &e.f {
                sh(x, d + 1, o);
                o.push(',');
            }
            o.push(')');
        }
        Val::Alt(a) => {
            o.push('{');
            for x in a.iter() {
                let _ = write!(o, "{}", if x.g.is_some() { "g" } else { "" });
                sh(&Val::En(Rc::new(x.e.clone())), d + 1, o);
                o.push('|');
            }
            o.push('}');
        }
        Val::Seq(s) => match s.as_ref() {
            Seq::Ex(v) => {
                let _ = write!(o, "[{}:", v.len());
                for x in v.iter().take(4) {
                    sh(x, d + 1, o);
                    o.push(',');
                }
                o.push(']');
            }
            Seq::Sum { len, el } => {
                o.push_str("[*");
                o.push_str(&show_int(len));
                o.push(':');
                sh(el, d + 1, o);
                o.push(']');
            }
        },
        Val::Str(s) => {
            let _ = write!(o, "str{:?}", s.p.iter().map(|p| match p { Part::Lit(s) => s.clone(), Part::Chr(i) => format!("<{}>", show_int(i)), Part::Fmt(c, ..) => format!("<fmt {}>", c), Part::Bytes(_) => "<bytes>".into(), Part::Opaque(l) => format!("<?{}>", l) }).collect::<Vec<_>>());
        }
        Val::Ref(r) => {
            let _ = write!(o, "&m{}.{}{:?}", r.frame, r.local, r.path.len());
        }
        Val::Sh(x) => {
            o.push('&');
            sh(x, d + 1, o)
        }
        Val::Bx(x) => {
            o.push_str("box ");
            sh(x, d + 1, o)
        }
        Val::Dyn(_, x) => {
            o.push_str("dyn ");
            sh(x, d + 1, o)
        }
        Val::Fn(_) => o.push_str("fn"),
        Val::Obj(b) => {
            let _ = match b.as_ref() {
                Obj::It { seq, pos, end, by } => write!(o, "iter(by{} {}..{} of {})", by, show_int(pos), show_int(end), show_int(&seq.len())),
                Obj::ItMut { pos, end, .. } => write!(o, "itermut({}..{})", show_int(pos), show_int(end)),
                Obj::Chars { .. } => write!(o, "chars"),
                Obj::FmtArg(c, _) => write!(o, "arg:{}", c),
                Obj::FmtArgs(_) => write!(o, "args"),
                Obj::Mark(k, _) => write!(o, "mark{}", k),
            };
        }
    }
}

/// the value of a tuple struct's or tuple variant's constructor called as a function
use rustc_public::crate_def::CrateDef as _;
fn constructed(fr: &Rc<FnRef>, args: &[Val], ret: Ty) -> Option<Val> {
    let TyKind::RigidTy(RigidTy::Adt(d, _)) = ret.kind() else { return None };
    let segs = |p: &str| -> Vec<String> { p.split("::").filter(|s| !s.starts_with('<')).map(|s| s.to_string()).collect() };
    let (f, a) = (segs(&fr.path), segs(&d.name().to_string()));
    let (fl, al) = (f.last()?, a.last()?);
    let vs = d.variants();
    if d.kind() == rustc_public::ty::AdtKind::Struct && fl == al && vs.first()?.fields().len() == args.len() {
        return Some(Val::agg(args.to_vec()));
    }
    if d.kind() == rustc_public::ty::AdtKind::Enum && f.len() > 1 && &f[f.len() - 2] == al {
        let i = vs.iter().position(|v| v.name() == *fl)?;
        if vs[i].fields().len() == args.len() {
            return Some(Val::en(i, args.to_vec()));
        }
    }
    None
}
