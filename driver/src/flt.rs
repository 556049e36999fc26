//! Abstract floats: hash-consed terms with interval bounds.
use crate::term::*;
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum FT {
    C(u64),
    In(String),
    Fresh(u32),
    Bin(&'static str, u32, u32),
    Un(&'static str, u32),
    I2F(Int),
    Ite(CondId, u32, u32),
}
#[derive(Clone, Debug)]
pub struct FInfo {
    pub t: FT,
    pub lo: f64,
    pub hi: f64,
    pub nan: bool,
    pub loss: u8,
}
#[derive(Default)]
pub struct FArena {
    pub v: Vec<FInfo>,
    pub m: HashMap<FT, u32>,
}
thread_local! { pub static FA: RefCell<FArena> = RefCell::new(FArena::default()); }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Flt(pub u32);

fn mk(t: FT, lo: f64, hi: f64, nan: bool, loss: u8) -> Flt {
    FA.with(|f| {
        let mut f = f.borrow_mut();
        if let Some(x) = f.m.get(&t) {
            return Flt(*x);
        }
        let id = f.v.len() as u32;
        f.v.push(FInfo { t: t.clone(), lo, hi, nan, loss });
        f.m.insert(t, id);
        Flt(id)
    })
}
const INF: f64 = f64::INFINITY;
impl Flt {
    pub fn c(x: f64) -> Flt {
        mk(FT::C(x.to_bits()), x, x, x.is_nan(), 0)
    }
    pub fn input(s: &str, lo: f64, hi: f64, nan: bool) -> Flt {
        mk(FT::In(s.to_string()), lo, hi, nan, 0)
    }
    pub fn fresh(lo: f64, hi: f64, nan: bool, loss: u8) -> Flt {
        mk(FT::Fresh(fresh_id()), lo, hi, nan, loss)
    }
    pub fn any(loss: u8) -> Flt {
        Flt::fresh(-INF, INF, true, loss)
    }
    pub fn info(self) -> FInfo {
        FA.with(|f| f.borrow().v[self.0 as usize].clone())
    }
    pub fn konst(self) -> Option<f64> {
        match self.info().t {
            FT::C(b) => Some(f64::from_bits(b)),
            _ => None,
        }
    }
    pub fn of_int(i: &Int) -> Flt {
        if let Int::C(c) = i {
            return Flt::c(*c as f64);
        }
        let (l, h) = i.bounds();
        mk(FT::I2F(i.clone()), l as f64, h as f64, false, i.loss())
    }
    pub fn bin(op: &'static str, a: Flt, b: Flt) -> Flt {
        let (x, y) = (a.info(), b.info());
        if let (FT::C(p), FT::C(q)) = (&x.t, &y.t) {
            let (p, q) = (f64::from_bits(*p), f64::from_bits(*q));
            return Flt::c(match op {
                "add" => p + q,
                "sub" => p - q,
                "mul" => p * q,
                "div" => p / q,
                "rem" => p % q,
                "max" => p.max(q),
                "min" => p.min(q),
                _ => f64::NAN,
            });
        }
        // canonical order for commutative operators
        let (a, b, x, y) = if matches!(op, "add" | "mul") && b < a { (b, a, y, x) } else { (a, b, x, y) };
        let mut nan = x.nan || y.nan;
        let inf = |i: &FInfo| i.lo == -INF || i.hi == INF;
        let has0 = |i: &FInfo| i.lo <= 0.0 && i.hi >= 0.0;
        let (lo, hi) = match op {
            "add" | "sub" => {
                if inf(&x) && inf(&y) {
                    nan = true;
                }
                let (yl, yh) = if op == "add" { (y.lo, y.hi) } else { (-y.hi, -y.lo) };
                let (l, h) = (x.lo + yl, x.hi + yh);
                (if l.is_nan() { -INF } else { l }, if h.is_nan() { INF } else { h })
            }
            "mul" | "div" => {
                if op == "mul" {
                    if (inf(&x) && has0(&y)) || (inf(&y) && has0(&x)) {
                        nan = true;
                    }
                } else if (has0(&x) && has0(&y)) || (inf(&x) && inf(&y)) {
                    nan = true;
                }
                if op == "div" && has0(&y) {
                    (-INF, INF)
                } else {
                    let f = |p: f64, q: f64| if op == "mul" { p * q } else { p / q };
                    let c = [f(x.lo, y.lo), f(x.lo, y.hi), f(x.hi, y.lo), f(x.hi, y.hi)];
                    if c.iter().any(|v| v.is_nan()) {
                        (-INF, INF)
                    } else {
                        (c.iter().cloned().fold(INF, f64::min), c.iter().cloned().fold(-INF, f64::max))
                    }
                }
            }
            // the NaN operand is ignored by f64::max and f64::min
            "max" => (if y.nan || x.nan { x.lo.min(y.lo) } else { x.lo.max(y.lo) }.max(if !x.nan { x.lo } else { -INF }).max(if !y.nan { y.lo } else { -INF }), x.hi.max(y.hi)),
            "min" => (x.lo.min(y.lo), x.hi.max(y.hi).min(if !x.nan { x.hi } else { INF }).min(if !y.nan { y.hi } else { INF })),
            _ => (-INF, INF),
        };
        if matches!(op, "max" | "min") {
            nan = x.nan && y.nan;
        }
        mk(FT::Bin(op, a.0, b.0), lo, hi, nan, x.loss.max(y.loss))
    }
    pub fn un(op: &'static str, a: Flt) -> Flt {
        let x = a.info();
        if let FT::C(p) = x.t {
            let p = f64::from_bits(p);
            return Flt::c(match op {
                "neg" => -p,
                "abs" => p.abs(),
                "sqrt" => p.sqrt(),
                "round" => p.round(),
                "floor" => p.floor(),
                "ceil" => p.ceil(),
                "trunc" => p.trunc(),
                _ => f64::NAN,
            });
        }
        let mut nan = x.nan;
        let (lo, hi) = match op {
            "neg" => (-x.hi, -x.lo),
            "abs" => {
                if x.lo >= 0.0 {
                    (x.lo, x.hi)
                } else if x.hi <= 0.0 {
                    (-x.hi, -x.lo)
                } else {
                    (0.0, x.hi.max(-x.lo))
                }
            }
            "sqrt" => {
                if x.lo < 0.0 {
                    nan = true;
                }
                (x.lo.max(0.0).sqrt(), x.hi.max(0.0).sqrt())
            }
            "round" => (x.lo.round(), x.hi.round()),
            "floor" => (x.lo.floor(), x.hi.floor()),
            "ceil" => (x.lo.ceil(), x.hi.ceil()),
            "trunc" => (x.lo.trunc(), x.hi.trunc()),
            _ => (-INF, INF),
        };
        mk(FT::Un(op, a.0), lo, hi, nan, x.loss)
    }
    pub fn ite(c: CondId, f: Flt, t: Flt) -> Flt {
        if f == t {
            return f;
        }
        let (x, y) = (f.info(), t.info());
        mk(FT::Ite(c, f.0, t.0), x.lo.min(y.lo), x.hi.max(y.hi), x.nan || y.nan, x.loss.max(y.loss).max(cond_loss(c)))
    }
    /// comparison; `Some(bool)` when decided by the intervals
    pub fn cmp(op: &'static str, a: Flt, b: Flt) -> Result<bool, CondId> {
        let (x, y) = (a.info(), b.info());
        if let (FT::C(p), FT::C(q)) = (&x.t, &y.t) {
            let (p, q) = (f64::from_bits(*p), f64::from_bits(*q));
            return Ok(match op {
                "lt" => p < q,
                "le" => p <= q,
                "eq" => p == q,
                _ => false,
            });
        }
        let nan = x.nan || y.nan;
        match op {
            "lt" => {
                if !nan && x.hi < y.lo {
                    return Ok(true);
                }
                if x.lo >= y.hi {
                    return Ok(false);
                }
            }
            "le" => {
                if !nan && x.hi <= y.lo {
                    return Ok(true);
                }
                if x.lo > y.hi {
                    return Ok(false);
                }
            }
            "eq" => {
                if x.hi < y.lo || y.hi < x.lo {
                    return Ok(false);
                }
                if a == b && !x.nan {
                    return Ok(true);
                }
            }
            _ => {}
        }
        if x.loss.max(y.loss) >= 2 {
            // still name the condition, its loss is carried below
        }
        Err(cond_f(op, a, b, x.loss.max(y.loss)))
    }
    /// saturating conversion to an integer type
    pub fn to_int(self, w: u32, s: bool) -> Int {
        let (mn, mx): (i128, i128) = if s { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, if w >= 127 { i128::MAX } else { (1i128 << w) - 1 }) };
        let i = self.info();
        let cv = |x: f64| -> i128 {
            if x.is_nan() {
                0
            } else if x <= mn as f64 {
                mn
            } else if x >= mx as f64 {
                mx
            } else {
                x.trunc() as i128
            }
        };
        if let Some(k) = self.konst() {
            return Int::C(cv(k));
        }
        if let FT::I2F(v) = &i.t {
            let (l, h) = v.bounds();
            if l >= mn && h <= mx && h < 1 << 52 && l > -(1 << 52) {
                return v.clone();
            }
        }
        let (mut l, mut h) = (cv(i.lo), cv(i.hi));
        if i.nan {
            l = l.min(0);
            h = h.max(0);
        }
        if l == h {
            return Int::C(l);
        }
        Int::of_atom(atom(Def::F2I(self.0, w, s), l, h, i.loss))
    }
}
fn cond_f(op: &'static str, a: Flt, b: Flt, loss: u8) -> CondId {
    cond_loss_as(Cond::FCmp(op, a.0, b.0), loss)
}
/// value of a float term, given the values of some terms
pub fn feval(t: Flt, at: &dyn Fn(Flt, &FT) -> Option<f64>) -> Option<f64> {
    let d = t.info().t;
    if let Some(x) = at(t, &d) {
        return Some(x);
    }
    match d {
        FT::C(b) => Some(f64::from_bits(b)),
        FT::Bin(op, a, b) => {
            let (p, q) = (feval(Flt(a), at)?, feval(Flt(b), at)?);
            Flt::bin(op, Flt::c(p), Flt::c(q)).konst()
        }
        FT::Un(op, a) => Flt::un(op, Flt::c(feval(Flt(a), at)?)).konst(),
        FT::Ite(c, f, t) => {
            if fcond(c, at)? {
                feval(Flt(t), at)
            } else {
                feval(Flt(f), at)
            }
        }
        FT::I2F(_) | FT::Fresh(_) | FT::In(_) => None,
    }
}
pub fn fcond(c: CondId, at: &dyn Fn(Flt, &FT) -> Option<f64>) -> Option<bool> {
    match cond_def(c) {
        Cond::FCmp(op, a, b) => {
            let (p, q) = (feval(Flt(a), at)?, feval(Flt(b), at)?);
            Flt::cmp(op, Flt::c(p), Flt::c(q)).ok()
        }
        Cond::And(a, x, b, y) => Some(fcond(a, at)? == x && fcond(b, at)? == y),
        _ => None,
    }
}
/// all terms a term is made of
pub fn subterms(t: Flt, out: &mut Vec<Flt>) {
    if out.contains(&t) {
        return;
    }
    out.push(t);
    match t.info().t {
        FT::Bin(_, a, b) => {
            subterms(Flt(a), out);
            subterms(Flt(b), out);
        }
        FT::Un(_, a) => subterms(Flt(a), out),
        FT::Ite(c, a, b) => {
            cond_terms(c, out);
            subterms(Flt(a), out);
            subterms(Flt(b), out);
        }
        _ => {}
    }
}
pub fn cond_terms(c: CondId, out: &mut Vec<Flt>) {
    match cond_def(c) {
        Cond::FCmp(_, a, b) => {
            subterms(Flt(a), out);
            subterms(Flt(b), out);
        }
        Cond::And(a, _, b, _) => {
            cond_terms(a, out);
            cond_terms(b, out);
        }
        _ => {}
    }
}
