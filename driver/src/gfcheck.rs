//! Classification of operator implementations on one-byte field elements: the function is
//! interpreted once with two unknown bytes and the resulting terms are compared with the
//! field operation for every pair of bytes.
use crate::interp::*;
use crate::ir::*;
use crate::term::*;
use crate::val::*;
use std::rc::Rc;

pub struct Table {
    pub n: usize,
    /// value for each pair, None where the analysis cannot say
    pub v: Vec<Option<i128>>,
    /// pairs on which the function may stop abnormally
    pub bad: usize,
    pub undecided: usize,
    pub terms: usize,
}
fn byte_of(v: &Val) -> Option<Int> {
    match v {
        Val::I(i) => Some(i.clone()),
        Val::Agg(a) if a.len() == 1 => byte_of(&a[0]),
        _ => None,
    }
}
/// tabulate a two-argument function over n x n
pub fn tabulate(fr: &Rc<FnRef>, n: usize) -> Option<Table> {
    let mut it = Interp::new();
    it.gf_on = false;
    it.trace = false;
    let f = body_of(fr)?;
    let ax = atom(Def::Input(format!("x{}", n)), 0, n as i128 - 1, 0);
    let ay = atom(Def::Input(format!("y{}", n)), 0, n as i128 - 1, 0);
    let a = Val::agg(vec![Val::I(Int::of_atom(ax))]);
    let b = Val::agg(vec![Val::I(Int::of_atom(ay))]);
    let outs = it.run_fn(State::new(), &f, vec![a, b]);
    let mut t = Table { n, v: vec![None; n * n], bad: 0, undecided: 0, terms: outs.len() };

    let res: Vec<(Rc<Vec<Lit>>, Int)> = outs.iter().filter_map(|(s, v)| byte_of(v).map(|i| (s.pc.clone(), i))).collect();
    if res.len() != outs.len() {
        return None;
    }
    for x in 0..n {
        for y in 0..n {
            let at = |a: Atom| -> Option<i128> {
                if a == ax {
                    Some(x as i128)
                } else if a == ay {
                    Some(y as i128)
                } else {
                    None
                }
            };
            let no = |_: CondId| None;
            let mut ev = Eval::new(&no, &at);
            let mut val = None;
            let mut unsure = false;
            for (pc, i) in &res {
                let mut ok = Some(true);
                for (c, b) in pc.iter() {
                    match ev.cond(*c) {
                        Some(z) if z == *b => {}
                        Some(_) => {
                            ok = Some(false);
                            break;
                        }
                        None => ok = None,
                    }
                }
                match ok {
                    Some(true) => {
                        val = ev.int(i);
                        if val.is_none() {
                            unsure = true
                        }
                        break;
                    }
                    Some(false) => {}
                    None => {
                        unsure = true;
                        break;
                    }
                }
            }
            if val.is_none() {
                if unsure {
                    t.undecided += 1
                } else {
                    t.bad += 1
                }
            }
            t.v[x * n + y] = val;
        }
    }
    Some(t)
}
pub fn classify(fr: &Rc<FnRef>) -> Option<(u8, u64)> {
    let t = tabulate(fr, 256)?;
    if t.undecided > 0 || t.bad > 0 {
        return None;
    }
    let is = |f: &dyn Fn(u8, u8) -> u8| (0..256usize).all(|x| (0..256usize).all(|y| t.v[x * 256 + y] == Some(f(x as u8, y as u8) as i128)));
    if is(&|x, y| x ^ y) {
        return Some((0, 65536));
    }
    if is(&gf_mul) {
        return Some((1, 65536));
    }
    None
}

pub fn gf4_mul(a: u8, b: u8) -> u8 {
    let mut r = 0u8;
    for i in 0..4 {
        if b >> i & 1 == 1 {
            r ^= a << i;
        }
    }
    for i in (4..7).rev() {
        if r >> i & 1 == 1 {
            r ^= 0x13 << (i - 4);
        }
    }
    r
}
/// C16: every operator implementation on field elements reachable from the decoder
pub fn fields(rep: &mut crate::scen::Rep, p: &str) {
    use std::collections::{HashSet, VecDeque};
    let mut q: VecDeque<Rc<FnRef>> = vec![crate::roots::root("root_decode"), crate::roots::root("root_decode_info")].into();
    let mut seen: HashSet<usize> = q.iter().map(|f| f.id).collect();
    let mut ops: Vec<(Rc<FnRef>, String, u8)> = vec![];
    while let Some(f) = q.pop_front() {
        let Some(b) = body_of(&f) else { continue };
        for g in crate::roots::mentioned(&b) {
            if g.krate != "bardecoder" || !seen.insert(g.id) {
                continue;
            }
            if let Some((ty, tr)) = g.path.split_once(" as ") {
                let ty = ty.rsplit("::").next().unwrap_or("").trim_start_matches('<').to_string();
                let m = g.path.rsplit("::").next().unwrap_or("");
                let op = ["add", "sub", "mul", "div"].iter().position(|x| *x == m);
                if let (Some(op), true) = (op, tr.contains("ops::")) {
                    if is_byte_type(&g) {
                        ops.push((g.clone(), ty, op as u8));
                    }
                }
            }
            q.push_back(g);
        }
    }
    let mut types: Vec<String> = ops.iter().map(|x| x.1.clone()).collect();
    types.sort();
    types.dedup();
    if types.len() < 2 {
        rep.und(p, &format!("operator implementations of two fields expected, found {:?}", types));
    }
    ops.sort_by(|a, b| (&a.1, a.2).cmp(&(&b.1, b.2)));
    for (g, ty, op) in ops {
        let small = ty.contains('4');
        if !small && !ty.contains('8') {
            rep.und(p, &format!("field of type {} not recognised", ty));
            continue;
        }
        let n = if small { 16 } else { 256 };
        let mul = |a: u8, b: u8| if small { gf4_mul(a, b) } else { gf_mul(a, b) };
        let mut inv = vec![0u8; n];
        for a in 1..n {
            inv[a] = (1..n).find(|b| mul(a as u8, *b as u8) == 1).unwrap() as u8;
        }
        let name = format!("{} {}", ty, ["addition", "subtraction", "multiplication", "division"][op as usize]);
        let Some(t) = tabulate(&g, n) else {
            rep.und(p, &format!("{}: result not resolved", name));
            continue;
        };
        rep.item(p, &format!("{} ({})", name, g.path));
        rep.count(p, "operator implementations", 1);
        let mut und = 0;
        for x in 0..n {
            for y in 0..n {
                if op == 3 && y == 0 {
                    continue;
                }
                let want = match op {
                    0 | 1 => (x ^ y) as u8,
                    2 => mul(x as u8, y as u8),
                    _ => mul(x as u8, inv[y]),
                };
                rep.count(p, "operand pairs compared", 1);
                match t.v[x * n + y] {
                    Some(r) if r == want as i128 => {}
                    Some(r) => rep.viol(p, &format!("{} is wrong", name), &format!("{} and {} give {}, the field says {}", x, y, r, want)),
                    None if t.undecided > 0 => und += 1,
                    None => rep.viol(p, &format!("{} stops abnormally", name), &format!("operands {} and {}", x, y)),
                }
            }
        }
        if und > 0 {
            rep.und(p, &format!("{}: {} pairs not resolved", name, und));
        }
    }
}
/// an operator on two one-byte structures
fn is_byte_type(g: &Rc<FnRef>) -> bool {
    let Some(b) = body_of(g) else { return false };
    if b.nargs != 2 {
        return false;
    }
    (1..=2).all(|i| byte_struct(b.tys[i]))
}
fn byte_struct(t: rustc_public::ty::Ty) -> bool {
    use rustc_public::ty::{RigidTy, TyKind, UintTy};
    use rustc_public::CrateDefType;
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => {
            let v = d.variants();
            v.len() == 1 && v[0].fields().len() == 1 && matches!(v[0].fields()[0].ty().kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8)))
        }
        _ => false,
    }
}
