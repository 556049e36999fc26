//! Abstract scalar terms: hash-consed atoms, polynomials, bit vectors and conditions.
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub type Atom = u32;
pub type CondId = u32;

/// polynomial: sorted list of (monomial, coefficient); the empty monomial is the constant
pub type Poly = Rc<Vec<(Vec<Atom>, i128)>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Bit {
    Z,
    O,
    T,
    L(CondId, bool), // literal; true = negated
}

/// GF(256)-affine form: constant plus sum of coeff*atom
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Lin {
    pub k: u8,
    pub t: Vec<(Atom, u8)>,
    /// non-linear in its inputs: only the identity of the term matters
    pub opaque: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Int {
    C(i128),
    P(Poly),
    B(Rc<Vec<Bit>>),
    /// (cond, value when false, value when true)
    W(CondId, i128, i128),
    G(Rc<Lin>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Def {
    Input(String),
    Fresh(u32),
    Of(Int),
    Div(Poly, Poly),
    Rem(Poly, Poly),
    Bin(&'static str, Int, Int, u32),
    Wrap(Int, u32, bool),
    Ite(CondId, Int, Int),
    Min(Poly, Poly),
    Max(Poly, Poly),
    Tab(Rc<Vec<i128>>, Int),
    F2I(u32, u32, bool),
    GfOp(u8, Int, Int),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Cond {
    Base(u32, u32),
    Ge0(Poly),
    Eq0(Poly),
    LinEq0(Rc<Lin>),
    FCmp(&'static str, u32, u32),
    Variant(u32, u32),
    And(CondId, bool, CondId, bool),
    /// parity of a set of conditions
    Par(Rc<Vec<CondId>>),
    Opaque(u32),
}

pub struct AtomInfo {
    pub def: Def,
    pub lo: i128,
    pub hi: i128,
    /// 0 exact, 1 widened/joined, 2 lost (unmodelled)
    pub loss: u8,
}

#[derive(Default)]
pub struct Arena {
    pub atoms: Vec<AtomInfo>,
    pub amap: HashMap<Def, Atom>,
    pub conds: Vec<(Cond, u8)>,
    pub cmap: HashMap<Cond, CondId>,
    pub fresh: u32,
}

thread_local! {
    /// sums of a scenario whose value is given, by their terms scaled to a leading coefficient of one
    static KNOWN: RefCell<HashMap<Vec<(Atom, u8)>, u8>> = RefCell::new(HashMap::new());
    static KNOWN_LEN: RefCell<HashSet<usize>> = RefCell::new(HashSet::new());
}
pub fn forget_sums() {
    KNOWN.with(|k| k.borrow_mut().clear());
    KNOWN_LEN.with(|k| k.borrow_mut().clear());
}
/// the given sum is zero
pub fn know_zero(l: &Lin) {
    if let Some((_, c)) = l.t.first() {
        let n = lin_scale(l, gf_inv(*c));
        KNOWN_LEN.with(|k| k.borrow_mut().insert(n.t.len()));
        KNOWN.with(|k| k.borrow_mut().insert(n.t, n.k));
    }
}
fn known_sum(l: &Lin) -> Option<u8> {
    if l.t.is_empty() || !KNOWN_LEN.with(|k| k.borrow().contains(&l.t.len())) {
        return None;
    }
    let c = l.t[0].1;
    let n = lin_scale(l, gf_inv(c));
    let v = KNOWN.with(|k| k.borrow().get(&n.t).copied())?;
    Some(gf_mul(v, c))
}

thread_local! {
    static UTF8: RefCell<Vec<Vec<Int>>> = const { RefCell::new(vec![]) };
}
/// the condition that bytes are valid UTF-8
pub fn utf8_cond(b: Vec<Int>) -> CondId {
    let k = UTF8.with(|u| {
        let mut u = u.borrow_mut();
        match u.iter().position(|x| x == &b) {
            Some(k) => k,
            None => {
                u.push(b);
                u.len() - 1
            }
        }
    });
    base(8, k as u32)
}
pub fn utf8_of(c: CondId) -> Option<Vec<Int>> {
    match cond_def(c) {
        Cond::Base(8, k) => UTF8.with(|u| u.borrow().get(k as usize).cloned()),
        _ => None,
    }
}

thread_local! {
    pub static AR: RefCell<Arena> = RefCell::new(Arena::default());
}

pub fn reset_arena() {
    AR.with(|a| *a.borrow_mut() = Arena::default());
}

pub fn fresh_id() -> u32 {
    AR.with(|a| {
        let mut a = a.borrow_mut();
        a.fresh += 1;
        a.fresh
    })
}

pub fn atom(def: Def, lo: i128, hi: i128, loss: u8) -> Atom {
    AR.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(x) = a.amap.get(&def) {
            return *x;
        }
        let id = a.atoms.len() as Atom;
        a.atoms.push(AtomInfo { def: def.clone(), lo, hi, loss });
        a.amap.insert(def, id);
        id
    })
}

pub fn fresh_atom(lo: i128, hi: i128, loss: u8) -> Atom {
    let f = fresh_id();
    atom(Def::Fresh(f), lo, hi, loss)
}

pub fn atom_bounds(x: Atom) -> (i128, i128) {
    AR.with(|a| {
        let a = a.borrow();
        let i = &a.atoms[x as usize];
        (i.lo, i.hi)
    })
}
pub fn atom_loss(x: Atom) -> u8 {
    AR.with(|a| a.borrow().atoms[x as usize].loss)
}
pub fn atom_def(x: Atom) -> Def {
    AR.with(|a| a.borrow().atoms[x as usize].def.clone())
}

pub fn cond(c: Cond) -> CondId {
    AR.with(|a| {
        if let Some(x) = a.borrow().cmap.get(&c) {
            return *x;
        }
        let loss = match &c {
            Cond::Base(..) | Cond::Variant(..) => 0,
            Cond::Ge0(p) | Cond::Eq0(p) => poly_loss_in(&a.borrow(), p),
            Cond::LinEq0(l) => l.t.iter().map(|(x, _)| a.borrow().atoms[*x as usize].loss).max().unwrap_or(0).max(l.opaque as u8),
            Cond::FCmp(..) => 1,
            Cond::And(x, _, y, _) => {
                let a = a.borrow();
                a.conds[*x as usize].1.max(a.conds[*y as usize].1)
            }
            Cond::Par(v) => v.iter().map(|x| a.borrow().conds[*x as usize].1).max().unwrap_or(0),
            Cond::Opaque(_) => 2,
        };
        let mut a = a.borrow_mut();
        let id = a.conds.len() as CondId;
        a.conds.push((c.clone(), loss));
        a.cmap.insert(c, id);
        id
    })
}
fn poly_loss_in(a: &Arena, p: &Poly) -> u8 {
    p.iter().flat_map(|(m, _)| m.iter()).map(|x| a.atoms[*x as usize].loss).max().unwrap_or(0)
}
pub fn cond_loss_as(c: Cond, loss: u8) -> CondId {
    let id = cond(c);
    AR.with(|a| {
        let mut a = a.borrow_mut();
        let l = &mut a.conds[id as usize].1;
        *l = loss;
    });
    id
}
pub fn cond_def(c: CondId) -> Cond {
    AR.with(|a| a.borrow().conds[c as usize].0.clone())
}
pub fn cond_loss(c: CondId) -> u8 {
    AR.with(|a| a.borrow().conds[c as usize].1)
}
pub fn opaque_cond() -> CondId {
    cond(Cond::Opaque(fresh_id()))
}
pub fn base(kind: u32, n: u32) -> CondId {
    cond(Cond::Base(kind, n))
}

// ---------- polynomials ----------
pub fn pconst(c: i128) -> Poly {
    Rc::new(if c == 0 { vec![] } else { vec![(vec![], c)] })
}
pub fn patom(a: Atom) -> Poly {
    Rc::new(vec![(vec![a], 1)])
}
pub fn pnorm(mut v: Vec<(Vec<Atom>, i128)>) -> Poly {
    v.sort();
    let mut out: Vec<(Vec<Atom>, i128)> = Vec::with_capacity(v.len());
    for (m, c) in v {
        if let Some(l) = out.last_mut() {
            if l.0 == m {
                l.1 += c;
                continue;
            }
        }
        if let Some(l) = out.last() {
            if l.1 == 0 {
                out.pop();
            }
        }
        out.push((m, c));
    }
    out.retain(|x| x.1 != 0);
    Rc::new(out)
}
pub fn padd(a: &Poly, b: &Poly) -> Poly {
    let mut v: Vec<_> = a.as_ref().clone();
    v.extend(b.iter().cloned());
    pnorm(v)
}
pub fn pscale(a: &Poly, k: i128) -> Poly {
    if k == 0 {
        return pconst(0);
    }
    Rc::new(a.iter().map(|(m, c)| (m.clone(), c.saturating_mul(k))).collect())
}
pub fn psub(a: &Poly, b: &Poly) -> Poly {
    padd(a, &pscale(b, -1))
}
pub fn pmul(a: &Poly, b: &Poly) -> Option<Poly> {
    if a.len() * b.len() > 64 {
        return None;
    }
    let mut v = vec![];
    for (m, c) in a.iter() {
        for (n, d) in b.iter() {
            let mut mm = m.clone();
            mm.extend(n.iter().cloned());
            mm.sort();
            if mm.len() > 4 {
                return None;
            }
            v.push((mm, c.checked_mul(*d)?));
        }
    }
    Some(pnorm(v))
}
pub fn pc_of(p: &Poly) -> Option<i128> {
    match p.len() {
        0 => Some(0),
        1 if p[0].0.is_empty() => Some(p[0].1),
        _ => None,
    }
}
pub fn paddc(p: &Poly, c: i128) -> Poly {
    padd(p, &pconst(c))
}

// ---------- GF(256), x^8+x^4+x^3+x^2+1 ----------
pub fn gf_mul(a: u8, b: u8) -> u8 {
    let (mut a, mut b, mut r) = (a as u16, b, 0u16);
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a <<= 1;
        if a & 0x100 != 0 {
            a ^= 0x11D;
        }
        b >>= 1;
    }
    r as u8
}
pub fn gf_pow(mut e: u32) -> u8 {
    let mut r = 1u8;
    e %= 255;
    for _ in 0..e {
        r = gf_mul(r, 2);
    }
    r
}
pub fn gf_inv(a: u8) -> u8 {
    let mut r = 1;
    for _ in 0..254 {
        r = gf_mul(r, a);
    }
    r
}
pub fn gf4_mul(a: u8, b: u8) -> u8 {
    let (mut a, mut b, mut r) = (a, b, 0u8);
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a <<= 1;
        if a & 0x10 != 0 {
            a ^= 0x13;
        }
        b >>= 1;
    }
    r
}

// ---------- Int helpers ----------
impl Int {
    pub fn c(&self) -> Option<i128> {
        if let Int::C(x) = self {
            Some(*x)
        } else {
            None
        }
    }
    pub fn of_poly(p: Poly) -> Int {
        match pc_of(&p) {
            Some(c) => Int::C(c),
            None => {
                if p.len() == 1 && p[0].1 == 1 && p[0].0.len() == 1 {
                    if let Def::Of(i) = atom_def(p[0].0[0]) {
                        return i;
                    }
                }
                // k0 + k*[c] is a two-valued integer again
                let (k0, rest) = if p[0].0.is_empty() { (p[0].1, &p[1..]) } else { (0, &p[..]) };
                if rest.len() == 1 && rest[0].0.len() == 1 {
                    if let Def::Of(Int::W(c, 0, 1)) = atom_def(rest[0].0[0]) {
                        return Int::w(c, k0, k0 + rest[0].1);
                    }
                }
                Int::P(p)
            }
        }
    }
    pub fn of_atom(a: Atom) -> Int {
        if let Def::Of(i) = atom_def(a) {
            return i;
        }
        Int::P(patom(a))
    }
    pub fn of_lit(c: CondId, neg: bool) -> Int {
        if neg {
            Int::W(c, 1, 0)
        } else {
            Int::W(c, 0, 1)
        }
    }
    pub fn of_bits(v: Vec<Bit>) -> Int {
        let mut lit: Option<CondId> = None;
        let mut multi = false;
        let mut c: i128 = 0;
        for (i, b) in v.iter().enumerate() {
            match b {
                Bit::Z => {}
                Bit::O => c |= 1 << i,
                Bit::T => multi = true,
                Bit::L(x, _) => match lit {
                    None => lit = Some(*x),
                    Some(y) if y == *x => {}
                    _ => multi = true,
                },
            }
        }
        if !multi {
            match lit {
                None => return Int::C(c),
                Some(l) => {
                    let (mut f, mut t) = (c, c);
                    for (i, b) in v.iter().enumerate() {
                        if let Bit::L(_, n) = b {
                            if *n {
                                f |= 1 << i
                            } else {
                                t |= 1 << i
                            }
                        }
                    }
                    return Int::w(l, f, t);
                }
            }
        }
        let mut v = v;
        while let Some(Bit::Z) = v.last() {
            v.pop();
        }
        Int::B(Rc::new(v))
    }
    pub fn w(c: CondId, f: i128, t: i128) -> Int {
        if f == t {
            Int::C(f)
        } else {
            Int::W(c, f, t)
        }
    }
    pub fn of_lin(mut l: Lin) -> Int {
        if let Some(c) = known_sum(&l) {
            l.k ^= c;
            l.t.clear();
        }
        if l.t.is_empty() {
            return Int::C(l.k as i128);
        }
        if l.k == 0 && l.t.len() == 1 && l.t[0].1 == 1 {
            return Int::of_atom(l.t[0].0);
        }
        Int::G(Rc::new(l))
    }
    pub fn poly(&self) -> Poly {
        match self {
            Int::C(c) => pconst(*c),
            Int::P(p) => p.clone(),
            Int::W(c, f, t) if *f == 0 || *t == 0 || true => {
                // value = f + (t-f)*[c]
                let a = atom(Def::Of(Int::W(*c, 0, 1)), 0, 1, cond_loss(*c));
                padd(&pconst(*f), &pscale(&patom(a), t - f))
            }
            _ => patom(self.atom()),
        }
    }
    /// the atom standing for this (non-constant) value
    pub fn atom(&self) -> Atom {
        if let Int::P(p) = self {
            if p.len() == 1 && p[0].1 == 1 && p[0].0.len() == 1 {
                return p[0].0[0];
            }
        }
        let (lo, hi) = self.bounds();
        atom(Def::Of(self.clone()), lo, hi, self.loss())
    }
    /// like `atom`, also for constants
    pub fn atom_c(&self) -> Atom {
        match self {
            Int::C(c) => atom(Def::Of(self.clone()), *c, *c, 0),
            _ => self.atom(),
        }
    }
    pub fn bounds(&self) -> (i128, i128) {
        match self {
            Int::C(c) => (*c, *c),
            Int::W(_, a, b) => (*a.min(b), *a.max(b)),
            Int::B(v) => {
                let (mut lo, mut hi) = (0i128, 0i128);
                for (i, b) in v.iter().enumerate() {
                    match b {
                        Bit::Z => {}
                        Bit::O => {
                            lo |= 1 << i;
                            hi |= 1 << i
                        }
                        _ => hi |= 1 << i,
                    }
                }
                (lo, hi)
            }
            Int::G(_) => (0, 255),
            Int::P(p) => poly_bounds(p, &|a| atom_bounds(a)),
        }
    }
    pub fn loss(&self) -> u8 {
        match self {
            Int::C(_) => 0,
            Int::W(c, _, _) => cond_loss(*c),
            Int::B(v) => v
                .iter()
                .map(|b| match b {
                    Bit::T => 1,
                    Bit::L(c, _) => cond_loss(*c),
                    _ => 0,
                })
                .max()
                .unwrap_or(0),
            Int::G(l) => l.t.iter().map(|x| atom_loss(x.0)).max().unwrap_or(0).max(l.opaque as u8),
            Int::P(p) => p.iter().flat_map(|(m, _)| m.iter()).map(|x| atom_loss(*x)).max().unwrap_or(0),
        }
    }
    pub fn bits(&self, n: usize) -> Option<Vec<Bit>> {
        let mut v: Vec<Bit> = match self {
            Int::C(c) if *c >= 0 => (0..128.min(n)).map(|i| if (c >> i) & 1 == 1 { Bit::O } else { Bit::Z }).collect(),
            Int::W(c, f, t) if *f >= 0 && *t >= 0 => (0..n)
                .map(|i| match ((f >> i) & 1, (t >> i) & 1) {
                    (0, 0) => Bit::Z,
                    (1, 1) => Bit::O,
                    (0, 1) => Bit::L(*c, false),
                    _ => Bit::L(*c, true),
                })
                .collect(),
            Int::B(v) => v.iter().cloned().take(n).collect(),
            _ => {
                let (lo, hi) = self.bounds();
                if lo < 0 || hi > u64::MAX as i128 {
                    return None;
                }
                let k = (128 - (hi as u128).leading_zeros()) as usize;
                (0..n).map(|i| if i < k { Bit::T } else { Bit::Z }).collect()
            }
        };
        v.resize(n, Bit::Z);
        Some(v)
    }
    pub fn lin(&self) -> Lin {
        match self {
            Int::C(c) => Lin { k: *c as u8, t: vec![], opaque: false },
            Int::G(l) => l.as_ref().clone(),
            // inverted bits are a constant
            Int::B(v) if v.len() <= 8 && v.iter().any(|b| matches!(b, Bit::O | Bit::L(_, true))) && !v.contains(&Bit::T) => {
                let k = v.iter().enumerate().fold(0u8, |a, (i, b)| if matches!(b, Bit::O | Bit::L(_, true)) { a | 1 << i } else { a });
                let w = Int::of_bits(
                    v.iter()
                        .map(|b| match b {
                            Bit::O => Bit::Z,
                            Bit::L(c, _) => Bit::L(*c, false),
                            x => *x,
                        })
                        .collect(),
                );
                let t = if w.c().is_some() { vec![] } else { vec![(w.atom(), 1)] };
                Lin { k, t, opaque: false }
            }
            x => Lin { k: 0, t: vec![(x.atom(), 1)], opaque: false },
        }
    }
}

pub fn lin_add(a: &Lin, b: &Lin) -> Lin {
    let mut t = Vec::with_capacity(a.t.len() + b.t.len());
    let (mut i, mut j) = (0, 0);
    while i < a.t.len() || j < b.t.len() {
        if j >= b.t.len() || (i < a.t.len() && a.t[i].0 < b.t[j].0) {
            t.push(a.t[i]);
            i += 1;
        } else if i >= a.t.len() || b.t[j].0 < a.t[i].0 {
            t.push(b.t[j]);
            j += 1;
        } else {
            let c = a.t[i].1 ^ b.t[j].1;
            if c != 0 {
                t.push((a.t[i].0, c));
            }
            i += 1;
            j += 1;
        }
    }
    Lin { k: a.k ^ b.k, t, opaque: a.opaque || b.opaque }
}
pub fn lin_scale(a: &Lin, c: u8) -> Lin {
    if c == 0 {
        return Lin { k: 0, t: vec![], opaque: false };
    }
    Lin { k: gf_mul(a.k, c), t: a.t.iter().map(|(x, d)| (*x, gf_mul(*d, c))).collect(), opaque: a.opaque }
}

pub fn poly_bounds(p: &Poly, f: &dyn Fn(Atom) -> (i128, i128)) -> (i128, i128) {
    const INF: i128 = 1 << 100;
    let cl = |x: i128| x.max(-INF).min(INF);
    let (mut lo, mut hi) = (0i128, 0i128);
    for (m, c) in p.iter() {
        let (mut l, mut h) = (1i128, 1i128);
        let mut i = 0;
        while i < m.len() {
            let (a, b) = f(m[i]);
            // even powers are non-negative
            let (a, b) = if i + 1 < m.len() && m[i + 1] == m[i] {
                i += 1;
                let (x, y) = (cl(a.saturating_mul(a)), cl(b.saturating_mul(b)));
                if a <= 0 && b >= 0 {
                    (0, x.max(y))
                } else {
                    (x.min(y), x.max(y))
                }
            } else {
                (a, b)
            };
            let c = [l.saturating_mul(a), l.saturating_mul(b), h.saturating_mul(a), h.saturating_mul(b)];
            l = cl(*c.iter().min().unwrap());
            h = cl(*c.iter().max().unwrap());
            i += 1;
        }
        if *c >= 0 {
            lo = cl(lo.saturating_add(l.saturating_mul(*c)));
            hi = cl(hi.saturating_add(h.saturating_mul(*c)));
        } else {
            lo = cl(lo.saturating_add(h.saturating_mul(*c)));
            hi = cl(hi.saturating_add(l.saturating_mul(*c)));
        }
    }
    (lo, hi)
}

/// evaluate a term under an assignment of base conditions and input atoms
pub struct Eval<'a> {
    pub lit: &'a dyn Fn(CondId) -> Option<bool>,
    pub atom: &'a dyn Fn(Atom) -> Option<i128>,
    pub memo_a: HashMap<Atom, Option<i128>>,
    pub memo_c: HashMap<CondId, Option<bool>>,
}
impl<'a> Eval<'a> {
    pub fn new(lit: &'a dyn Fn(CondId) -> Option<bool>, atom: &'a dyn Fn(Atom) -> Option<i128>) -> Self {
        Eval { lit, atom, memo_a: HashMap::new(), memo_c: HashMap::new() }
    }
    pub fn int(&mut self, i: &Int) -> Option<i128> {
        match i {
            Int::C(c) => Some(*c),
            Int::W(c, f, t) => Some(if self.cond(*c)? { *t } else { *f }),
            Int::B(v) => {
                let mut r = 0i128;
                for (k, b) in v.iter().enumerate() {
                    let x = match b {
                        Bit::Z => false,
                        Bit::O => true,
                        Bit::T => return None,
                        Bit::L(c, n) => self.cond(*c)? ^ n,
                    };
                    if x {
                        r |= 1 << k
                    }
                }
                Some(r)
            }
            Int::G(l) => {
                let mut r = l.k;
                for (a, c) in &l.t {
                    r ^= gf_mul(self.at(*a)? as u8, *c);
                }
                Some(r as i128)
            }
            Int::P(p) => self.poly(p),
        }
    }
    pub fn poly(&mut self, p: &Poly) -> Option<i128> {
        let mut r = 0i128;
        for (m, c) in p.iter() {
            let mut x = *c;
            for a in m {
                x = x.checked_mul(self.at(*a)?)?;
            }
            r += x;
        }
        Some(r)
    }
    pub fn at(&mut self, a: Atom) -> Option<i128> {
        if let Some(r) = self.memo_a.get(&a) {
            return *r;
        }
        let r = (|| {
            if let Some(x) = (self.atom)(a) {
                return Some(x);
            }
            match atom_def(a) {
                Def::Input(_) | Def::Fresh(_) | Def::F2I(..) => None,
                Def::Of(i) => self.int(&i),
                Def::Div(p, q) => {
                    let (x, y) = (self.poly(&p)?, self.poly(&q)?);
                    if y == 0 { None } else { Some(x / y) }
                }
                Def::Rem(p, q) => {
                    let (x, y) = (self.poly(&p)?, self.poly(&q)?);
                    if y == 0 { None } else { Some(x % y) }
                }
                Def::Min(p, q) => Some(self.poly(&p)?.min(self.poly(&q)?)),
                Def::Max(p, q) => Some(self.poly(&p)?.max(self.poly(&q)?)),
                Def::Ite(c, f, t) => {
                    if self.cond(c)? {
                        self.int(&t)
                    } else {
                        self.int(&f)
                    }
                }
                Def::Tab(t, i) => {
                    let i = self.int(&i)?;
                    t.get(usize::try_from(i).ok()?).cloned()
                }
                Def::Wrap(i, w, s) => {
                    let x = self.int(&i)?;
                    Some(wrap(x, w, s))
                }
                Def::Bin(op, x, y, w) => {
                    let (x, y) = (self.int(&x)?, self.int(&y)?);
                    Some(match op {
                        "xor" => x ^ y,
                        "and" => x & y,
                        "or" => x | y,
                        "shl" => wrap(x << y, w, false),
                        "shr" => x >> y,
                        "mul" => x.checked_mul(y)?,
                        "bounded" => x,
                        "popcnt" => x.count_ones() as i128,
                        _ => return None,
                    })
                }
                Def::GfOp(op, x, y) => {
                    let (x, y) = (self.int(&x)? as u8, self.int(&y)? as u8);
                    Some(match op {
                        0 => gf_mul(x, y),
                        1 => gf_mul(x, gf_inv(y)),
                        _ => return None,
                    } as i128)
                }
            }
        })();
        self.memo_a.insert(a, r);
        r
    }
    pub fn cond(&mut self, c: CondId) -> Option<bool> {
        if let Some(r) = self.memo_c.get(&c) {
            return *r;
        }
        let r = (|| {
            if let Some(x) = (self.lit)(c) {
                return Some(x);
            }
            match cond_def(c) {
                Cond::Base(..) | Cond::FCmp(..) | Cond::Variant(..) | Cond::Opaque(_) => None,
                Cond::Ge0(p) => Some(self.poly(&p)? >= 0),
                Cond::Eq0(p) => Some(self.poly(&p)? == 0),
                Cond::LinEq0(l) => Some(self.int(&Int::G(l))? == 0),
                Cond::And(x, n, y, m) => Some((self.cond(x)? ^ n) && (self.cond(y)? ^ m)),
                Cond::Par(v) => {
                    let mut r = false;
                    for x in v.iter() {
                        r ^= self.cond(*x)?;
                    }
                    Some(r)
                }
            }
        })();
        self.memo_c.insert(c, r);
        r
    }
}

pub fn wrap(x: i128, w: u32, s: bool) -> i128 {
    if w >= 127 {
        return x;
    }
    let m = 1i128 << w;
    let r = x.rem_euclid(m);
    if s && r >= m / 2 {
        r - m
    } else {
        r
    }
}
