//! Integer operations on abstract values.
use crate::term::*;
use std::rc::Rc;

pub fn range_of(w: u32, s: bool) -> (i128, i128) {
    if w >= 127 {
        return if s { (i128::MIN / 4, i128::MAX / 4) } else { (0, i128::MAX / 4) };
    }
    if s {
        (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
    } else {
        (0, (1i128 << w) - 1)
    }
}

fn clean_bits(i: &Int) -> Option<Vec<Bit>> {
    // a bit representation without unknown bits
    match i {
        Int::C(c) if *c >= 0 => i.bits(64.max(128 - (*c as u128).leading_zeros() as usize)),
        Int::W(_, f, t) if *f >= 0 && *t >= 0 && *f < 1 << 62 && *t < 1 << 62 => i.bits(64),
        Int::B(v) if !v.iter().any(|b| *b == Bit::T) => i.bits(64.max(v.len())),
        _ => None,
    }
}

fn w_map2(a: &Int, b: &Int, f: &dyn Fn(i128, i128) -> Option<i128>) -> Option<Int> {
    match (a, b) {
        (Int::C(x), Int::C(y)) => f(*x, *y).map(Int::C),
        (Int::W(c, x0, x1), Int::C(y)) => Some(Int::w(*c, f(*x0, *y)?, f(*x1, *y)?)),
        (Int::C(x), Int::W(c, y0, y1)) => Some(Int::w(*c, f(*x, *y0)?, f(*x, *y1)?)),
        (Int::W(c, x0, x1), Int::W(d, y0, y1)) if c == d => Some(Int::w(*c, f(*x0, *y0)?, f(*x1, *y1)?)),
        _ => None,
    }
}

pub fn add(a: &Int, b: &Int) -> Int {
    if let Some(r) = w_map2(a, b, &|x, y| x.checked_add(y)) {
        return r;
    }
    if a.c() == Some(0) {
        return b.clone();
    }
    if b.c() == Some(0) {
        return a.clone();
    }
    if matches!(a, Int::B(_) | Int::W(..)) || matches!(b, Int::B(_) | Int::W(..)) {
        if let (Some(x), Some(y)) = (clean_bits(a), clean_bits(b)) {
            if x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| *p == Bit::Z || *q == Bit::Z) {
                return Int::of_bits(x.iter().zip(&y).map(|(p, q)| if *p == Bit::Z { *q } else { *p }).collect());
            }
        }
    }
    Int::of_poly(padd(&a.poly(), &b.poly()))
}
pub fn sub(a: &Int, b: &Int) -> Int {
    if let Some(r) = w_map2(a, b, &|x, y| x.checked_sub(y)) {
        return r;
    }
    if b.c() == Some(0) {
        return a.clone();
    }
    Int::of_poly(psub(&a.poly(), &b.poly()))
}
pub fn mul(a: &Int, b: &Int) -> Int {
    if let Some(r) = w_map2(a, b, &|x, y| x.checked_mul(y)) {
        return r;
    }
    if a.c() == Some(0) || b.c() == Some(0) {
        return Int::C(0);
    }
    if a.c() == Some(1) {
        return b.clone();
    }
    if b.c() == Some(1) {
        return a.clone();
    }
    for (x, y) in [(a, b), (b, a)] {
        if let Int::C(k) = y {
            if *k > 0 && (*k & (*k - 1)) == 0 && matches!(x, Int::B(_)) {
                if let Some(v) = clean_bits(x) {
                    let n = k.trailing_zeros() as usize;
                    let mut r = vec![Bit::Z; n];
                    r.extend(v);
                    return Int::of_bits(r);
                }
            }
        }
    }
    match pmul(&a.poly(), &b.poly()) {
        Some(p) => Int::of_poly(p),
        None => {
            let p = poly_bounds(&Rc::new(vec![(vec![a.atom_c(), b.atom_c()], 1)]), &|x| atom_bounds(x));
            Int::of_atom(atom(Def::Bin("mul", a.clone(), b.clone(), 128), p.0, p.1, a.loss().max(b.loss())))
        }
    }
}
/// truncating division; the divisor is assumed non-zero
pub fn div(a: &Int, b: &Int) -> Int {
    if let Some(r) = w_map2(a, b, &|x, y| x.checked_div(y)) {
        return r;
    }
    if b.c() == Some(1) {
        return a.clone();
    }
    if let (Int::B(_), Some(k)) = (a, b.c()) {
        if k > 0 && k & (k - 1) == 0 {
            if let Some(v) = clean_bits(a) {
                return Int::of_bits(v[k.trailing_zeros() as usize..].to_vec());
            }
        }
    }
    let (al, ah) = a.bounds();
    let (bl, bh) = b.bounds();
    // (k*x + c)/k with everything non-negative
    if let (Int::P(p), Some(k)) = (a, b.c()) {
        if k > 1 && al >= 0 {
            let mut q = vec![];
            let mut rest = vec![];
            for (m, c) in p.iter() {
                if c % k == 0 {
                    q.push((m.clone(), c / k));
                } else {
                    rest.push((m.clone(), *c));
                }
            }
            let (rest, q) = (pnorm(rest), pnorm(q));
            let rb = poly_bounds(&rest, &|x| atom_bounds(x));
            let qb = poly_bounds(&q, &|x| atom_bounds(x));
            if !q.is_empty() && qb.0 >= 0 && rb.0 >= 0 {
                return add(&Int::of_poly(q), &div(&Int::of_poly(rest), b));
            }
        }
    }
    let (lo, hi) = if al >= 0 && bl >= 0 {
        (al / bh.max(1), ah / bl.max(1))
    } else {
        let m = al.abs().max(ah.abs());
        (-m, m)
    };
    if lo == hi {
        return Int::C(lo);
    }
    Int::of_atom(atom(Def::Div(a.poly(), b.poly()), lo, hi, a.loss().max(b.loss())))
}
pub fn rem(a: &Int, b: &Int) -> Int {
    if let Some(r) = w_map2(a, b, &|x, y| x.checked_rem(y)) {
        return r;
    }
    if let (Int::B(_), Some(k)) = (a, b.c()) {
        if k > 0 && k & (k - 1) == 0 {
            if let Some(v) = clean_bits(a) {
                return Int::of_bits(v[..k.trailing_zeros() as usize].to_vec());
            }
        }
    }
    let (al, ah) = a.bounds();
    let (bl, bh) = b.bounds();
    if al >= 0 && bl > ah {
        return a.clone();
    }
    let (lo, hi) = if al >= 0 && bl >= 0 {
        (0, (bh - 1).min(ah))
    } else {
        let m = bl.abs().max(bh.abs()) - 1;
        (if al >= 0 { 0 } else { -m }, m)
    };
    Int::of_atom(atom(Def::Rem(a.poly(), b.poly()), lo.min(hi), hi, a.loss().max(b.loss())))
}

pub fn bit_xor_bit(a: Bit, b: Bit) -> Bit {
    match (a, b) {
        (Bit::Z, x) | (x, Bit::Z) => x,
        (Bit::O, x) | (x, Bit::O) => match x {
            Bit::O => Bit::Z,
            Bit::L(c, n) => Bit::L(c, !n),
            _ => Bit::T,
        },
        (Bit::L(c, n), Bit::L(d, m)) => {
            if c == d {
                if n == m {
                    Bit::Z
                } else {
                    Bit::O
                }
            } else {
                let set = |x: CondId| match cond_def(x) {
                    Cond::Par(v) => v.as_ref().clone(),
                    _ => vec![x],
                };
                let (p, q) = (set(c), set(d));
                let mut r: Vec<CondId> = p.iter().filter(|x| !q.contains(x)).chain(q.iter().filter(|x| !p.contains(x))).cloned().collect();
                r.sort();
                match r.len() {
                    0 => {
                        if n ^ m {
                            Bit::O
                        } else {
                            Bit::Z
                        }
                    }
                    1 => Bit::L(r[0], n ^ m),
                    _ => Bit::L(cond(Cond::Par(std::rc::Rc::new(r))), n ^ m),
                }
            }
        }
        _ => Bit::T,
    }
}
fn bit_and(a: Bit, b: Bit) -> Bit {
    match (a, b) {
        (Bit::Z, _) | (_, Bit::Z) => Bit::Z,
        (Bit::O, x) | (x, Bit::O) => x,
        (Bit::L(c, n), Bit::L(d, m)) => {
            if c == d {
                if n == m {
                    Bit::L(c, n)
                } else {
                    Bit::Z
                }
            } else {
                let (x, n, y, m) = if c < d { (c, n, d, m) } else { (d, m, c, n) };
                Bit::L(cond(Cond::And(x, n, y, m)), false)
            }
        }
        _ => Bit::T,
    }
}
fn bit_not(a: Bit) -> Bit {
    bit_xor_bit(a, Bit::O)
}
fn bitwise(op: &'static str, a: &Int, b: &Int, w: u32) -> Int {
    let w = if w >= 127 { 126 } else { w };
    if let (Int::C(x), Int::C(y)) = (a, b) {
        let r = match op {
            "xor" => x ^ y,
            "and" => x & y,
            _ => x | y,
        };
        return Int::C(r);
    }
    if let Some(r) = w_map2(a, b, &|x, y| {
        Some(match op {
            "xor" => x ^ y,
            "and" => x & y,
            _ => x | y,
        })
    }) {
        return r;
    }
    match op {
        "xor" | "or" if a.c() == Some(0) => return b.clone(),
        "xor" | "or" if b.c() == Some(0) => return a.clone(),
        "and" if a.c() == Some(0) || b.c() == Some(0) => return Int::C(0),
        _ => {}
    }
    if op == "xor" && w == 8 {
        // a GF(2)-linear sum
        let g = |i: &Int| matches!(i, Int::G(_)) || (!matches!(i, Int::C(_)) && clean_bits(i).is_none());
        if g(a) || g(b) {
            return Int::of_lin(lin_add(&a.lin(), &b.lin()));
        }
    }
    let (ab, bb) = (a.bounds(), b.bounds());
    if ab.0 >= 0 && bb.0 >= 0 {
        // all-ones masks
        if op == "and" {
            for (x, y) in [(a, b), (b, a)] {
                if let Int::C(k) = y {
                    if *k & (*k + 1) == 0 {
                        if x.bounds().1 <= *k {
                            return x.clone();
                        }
                        if clean_bits(x).is_none() {
                            return rem(x, &Int::C(*k + 1));
                        }
                    }
                }
            }
        }
        if let (Some(x), Some(y)) = (a.bits(w as usize), b.bits(w as usize)) {
            let v: Vec<Bit> = x
                .iter()
                .zip(&y)
                .map(|(p, q)| match op {
                    "xor" => bit_xor_bit(*p, *q),
                    "and" => bit_and(*p, *q),
                    _ => bit_not(bit_and(bit_not(*p), bit_not(*q))),
                })
                .collect();
            if !v.contains(&Bit::T) {
                return Int::of_bits(v);
            }
            if op == "or" && x.iter().zip(&y).all(|(p, q)| *p == Bit::Z || *q == Bit::Z) {
                return Int::of_poly(padd(&a.poly(), &b.poly()));
            }
            let r = Int::of_bits(v).bounds();
            return Int::of_atom(atom(Def::Bin(op, a.clone(), b.clone(), w), r.0, r.1, a.loss().max(b.loss())));
        }
    }
    let (lo, hi) = (-(1i128 << w), (1i128 << w) - 1);
    Int::of_atom(atom(Def::Bin(op, a.clone(), b.clone(), w), lo, hi, a.loss().max(b.loss())))
}
pub fn xor(a: &Int, b: &Int, w: u32) -> Int {
    bitwise("xor", a, b, w)
}
pub fn and(a: &Int, b: &Int, w: u32) -> Int {
    bitwise("and", a, b, w)
}
pub fn or(a: &Int, b: &Int, w: u32) -> Int {
    bitwise("or", a, b, w)
}
pub fn shl(a: &Int, b: &Int, w: u32, s: bool) -> Int {
    if let Some(k) = b.c() {
        let k = k.rem_euclid(w as i128) as u32;
        return wrap_to(&mul(a, &Int::C(1i128 << k.min(120))), w, s);
    }
    if let Some(r) = w_map2(a, b, &|x, y| if y >= 0 && y < w as i128 && y < 100 { x.checked_mul(1i128 << y).map(|v| wrap(v, w, s)) } else { None }) {
        return r;
    }
    let (l, h) = range_of(w, s);
    Int::of_atom(atom(Def::Bin("shl", a.clone(), b.clone(), w), l, h, a.loss().max(b.loss())))
}
pub fn shr(a: &Int, b: &Int, w: u32) -> Int {
    let (l, h) = a.bounds();
    if let Some(k) = b.c() {
        let k = k.rem_euclid(w as i128) as u32;
        if l >= 0 {
            return div(a, &Int::C(1i128 << k.min(120)));
        }
        if let Int::C(x) = a {
            return Int::C(x >> k);
        }
    }
    let (bl, _) = b.bounds();
    let hi = if l >= 0 && bl >= 0 { h >> bl.min(100) } else { h.max(0) };
    Int::of_atom(atom(Def::Bin("shr", a.clone(), b.clone(), w), if l >= 0 { 0 } else { l }, hi, a.loss().max(b.loss())))
}
pub fn not(a: &Int, w: u32, s: bool) -> Int {
    if w == 1 {
        return sub(&Int::C(1), a);
    }
    if s {
        return sub(&Int::C(-1), a);
    }
    if matches!(a, Int::B(_)) {
        if let Some(v) = a.bits(w as usize) {
            if !v.contains(&Bit::T) {
                return Int::of_bits(v.into_iter().map(bit_not).collect());
            }
        }
    }
    sub(&Int::C(range_of(w, false).1), a)
}
/// reduce modulo 2^w
pub fn wrap_to(a: &Int, w: u32, s: bool) -> Int {
    wrap_b(a, w, s, a.bounds())
}
pub fn wrap_b(a: &Int, w: u32, s: bool, bd: (i128, i128)) -> Int {
    let (l, h) = range_of(w, s);
    let (al, ah) = bd;
    if al >= l && ah <= h {
        return a.clone();
    }
    match a {
        Int::C(c) => return Int::C(wrap(*c, w, s)),
        Int::W(c, x, y) => return Int::w(*c, wrap(*x, w, s), wrap(*y, w, s)),
        Int::B(v) if !s && !v.contains(&Bit::T) => return Int::of_bits(v.iter().take(w as usize).cloned().collect()),
        _ => {}
    }
    Int::of_atom(atom(Def::Wrap(a.clone(), w, s), l, h, a.loss()))
}

/// result of a comparison: constant or literal
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tr {
    K(bool),
    L(CondId, bool),
}
impl Tr {
    pub fn not(self) -> Tr {
        match self {
            Tr::K(b) => Tr::K(!b),
            Tr::L(c, n) => Tr::L(c, !n),
        }
    }
    pub fn int(self) -> Int {
        match self {
            Tr::K(b) => Int::C(b as i128),
            Tr::L(c, n) => Int::of_lit(c, n),
        }
    }
}
pub fn truth(i: &Int) -> Tr {
    match i {
        Int::C(c) => Tr::K(*c != 0),
        Int::W(c, f, t) => match (*f != 0, *t != 0) {
            (false, false) => Tr::K(false),
            (true, true) => Tr::K(true),
            (false, true) => Tr::L(*c, false),
            (true, false) => Tr::L(*c, true),
        },
        x => eq(x, &Int::C(0)).not(),
    }
}
pub fn eq(a: &Int, b: &Int) -> Tr {
    if a == b {
        return Tr::K(true);
    }
    if let Some(Int::C(x)) = w_map2(a, b, &|x, y| Some((x == y) as i128)) {
        return Tr::K(x != 0);
    }
    if let Some(r @ Int::W(..)) = w_map2(a, b, &|x, y| Some((x == y) as i128)) {
        return truth(&r);
    }
    let (al, ah) = a.bounds();
    let (bl, bh) = b.bounds();
    if ah < bl || bh < al {
        return Tr::K(false);
    }
    if matches!(a, Int::G(_)) || matches!(b, Int::G(_)) {
        let l = lin_add(&a.lin(), &b.lin());
        if l.t.is_empty() {
            return Tr::K(l.k == 0);
        }
        return Tr::L(cond(Cond::LinEq0(Rc::new(lin_norm(l)))), false);
    }
    // single differing literal in bit vectors
    if let (Some(x), Some(y)) = (clean_bits(a), clean_bits(b)) {
        let mut lits = vec![];
        let mut ff = false;
        for (p, q) in x.iter().zip(&y) {
            match bit_xor_bit_nonew(*p, *q) {
                Some(Bit::Z) => {}
                Some(Bit::O) => {
                    ff = true;
                }
                Some(l) => lits.push(l),
                None => lits.push(Bit::T),
            }
        }
        if ff {
            return Tr::K(false);
        }
        if lits.len() == 1 {
            if let Bit::L(c, n) = lits[0] {
                return Tr::L(c, !n);
            }
        }
    }
    let p = psub(&a.poly(), &b.poly());
    cond_eq0(&p)
}
fn bit_xor_bit_nonew(a: Bit, b: Bit) -> Option<Bit> {
    match (a, b) {
        (Bit::L(c, _), Bit::L(d, _)) if c != d => None,
        _ => Some(bit_xor_bit(a, b)),
    }
}
/// scale so that equal zero sets share a representation
pub fn lin_norm(l: Lin) -> Lin {
    if let Some((_, c)) = l.t.first() {
        if *c != 1 {
            return lin_scale(&l, gf_inv(*c));
        }
    }
    l
}
pub fn cond_eq0(p: &Poly) -> Tr {
    if let Some(c) = pc_of(p) {
        return Tr::K(c == 0);
    }
    let (l, h) = poly_bounds(p, &|a| atom_bounds(a));
    if l > 0 || h < 0 {
        return Tr::K(false);
    }
    let first = p.iter().find(|x| !x.0.is_empty()).unwrap().1;
    let p = if first < 0 { pscale(p, -1) } else { p.clone() };
    Tr::L(cond(Cond::Eq0(p)), false)
}
pub fn cond_ge0(p: &Poly) -> Tr {
    if let Some(c) = pc_of(p) {
        return Tr::K(c >= 0);
    }
    let (l, h) = poly_bounds(p, &|a| atom_bounds(a));
    if l >= 0 {
        return Tr::K(true);
    }
    if h < 0 {
        return Tr::K(false);
    }
    // p >= 0 and -p-1 >= 0 are complementary: keep the one with a positive leading coefficient
    let first = p.iter().find(|x| !x.0.is_empty()).unwrap().1;
    if first < 0 {
        Tr::L(cond(Cond::Ge0(paddc(&pscale(p, -1), -1))), true)
    } else {
        Tr::L(cond(Cond::Ge0(p.clone())), false)
    }
}
/// a >= b
pub fn ge(a: &Int, b: &Int) -> Tr {
    if a == b {
        return Tr::K(true);
    }
    if let Some(r) = w_map2(a, b, &|x, y| Some((x >= y) as i128)) {
        return truth(&r);
    }
    let (al, ah) = a.bounds();
    let (bl, bh) = b.bounds();
    if al >= bh {
        return Tr::K(true);
    }
    if ah < bl {
        return Tr::K(false);
    }
    cond_ge0(&psub(&a.poly(), &b.poly()))
}
pub fn ite(c: CondId, f: &Int, t: &Int) -> Int {
    if f == t {
        return f.clone();
    }
    if let (Int::C(x), Int::C(y)) = (f, t) {
        return Int::w(c, *x, *y);
    }
    let (a, b) = (f.bounds(), t.bounds());
    Int::of_atom(atom(Def::Ite(c, f.clone(), t.clone()), a.0.min(b.0), a.1.max(b.1), f.loss().max(t.loss()).max(cond_loss(c))))
}
pub fn popcount(a: &Int, w: u32) -> Int {
    if let Int::C(c) = a {
        return Int::C((*c as u128 & ((1u128 << w.min(127)) - 1)).count_ones() as i128);
    }
    if let Int::W(c, f, t) = a {
        return Int::w(*c, f.count_ones() as i128, t.count_ones() as i128);
    }
    let hi = if let Int::B(v) = a { v.iter().filter(|b| **b != Bit::Z).count() as i128 } else { w as i128 };
    Int::of_atom(atom(Def::Bin("popcnt", a.clone(), Int::C(0), w), 0, hi, a.loss()))
}
