//! Small components on their own: symbol data, points.
use crate::interp::*;
use crate::ir::*;
use crate::roots::root;
use crate::scen::Rep;
use crate::term::*;
use crate::val::*;
use std::collections::HashMap;
use std::rc::Rc;

/// value of a function's outcome under given input values; None: cannot say, Some(None): no outcome
pub fn value_at(outs: &[(Rc<Vec<Lit>>, Val)], at: &HashMap<Atom, i128>) -> Option<Option<i128>> {
    let f = |a: Atom| at.get(&a).copied();
    let no = |_: CondId| None;
    let mut ev = Eval::new(&no, &f);
    for (pc, v) in outs {
        let mut ok = true;
        for (c, b) in pc.iter() {
            if ev.cond(*c)? != *b {
                ok = false;
                break;
            }
        }
        if ok {
            return match v {
                Val::I(i) => Some(Some(ev.int(i)?)),
                _ => None,
            };
        }
    }
    Some(None)
}
/// C24
pub fn symbol_data(v: u32, rep: &mut Rep, prop: &str) {
    let s = crate::iso::side(v);
    let px: Vec<Atom> = (0..s * s).map(|i| atom(Def::Input(format!("px{}", i)), 0, 255, 0)).collect();
    let data = Val::vec(px.iter().map(|a| Val::I(Int::of_atom(*a))).collect());
    // constructor
    let Some(f) = body_of(&root("root_qrdata_parts")) else { return };
    let mut it = Interp::new();
    let outs = it.run_fn(State::new(), &f, vec![data.clone(), Val::c(v as i128)]);
    rep.count(prop, "constructors", 1);
    let want = Val::agg(vec![data.clone(), Val::c(v as i128), Val::c(s as i128)]);
    for (_, o) in &outs {
        if *o != want {
            if o.loss() > 0 {
                rep.und(prop, &format!("version {}: constructed value not resolved", v));
                continue;
            }
            let Val::Agg(a) = o else { continue };
            if a[2] != Val::c(s as i128) {
                rep.viol(prop, "side of the symbol data", &format!("version {}: side {}", v, short(&a[2])));
            }
            if a[1] != Val::c(v as i128) {
                rep.viol(prop, "version of the symbol data", &format!("version {}: {}", v, short(&a[1])));
            }
            if a[0] != data {
                rep.viol(prop, "pixels of the symbol data", &format!("version {}: pixels are changed", v));
            }
        }
    }
    if outs.is_empty() && it.unmod.is_empty() {
        rep.viol(prop, "symbol data cannot be constructed", &format!("version {}", v));
        return;
    }
    // index
    let Some(f) = body_of(&root("root_index_at")) else { return };
    for y in 0..s {
        for x in 0..s {
            let mut it = Interp::new();
            let outs = it.run_fn(State::new(), &f, vec![data.clone(), Val::c(v as i128), Val::c(x as i128), Val::c(y as i128)]);
            let o: Vec<(Rc<Vec<Lit>>, Val)> = outs.iter().map(|(s, v)| (s.pc.clone(), v.clone())).collect();
            rep.count(prop, "module accesses compared", 1);
            let a = px[(y * s + x) as usize];
            let all = x == y || x + y + 1 == s;
            for p in 0..256i128 {
                if !all && ![0, 1, 127, 254, 255].contains(&p) {
                    continue;
                }
                let m: HashMap<Atom, i128> = [(a, p)].into_iter().collect();
                match value_at(&o, &m) {
                    Some(Some(r)) if r == (p == 0) as i128 => {}
                    Some(Some(r)) => rep.viol(prop, "module value differs from its pixel", &format!("version {}, column {}, row {}: pixel {} gives {}", v, x, y, p, r)),
                    Some(None) if it.unmod.is_empty() && !it.aborted => rep.viol(prop, "module access fails", &format!("version {}, column {}, row {}", v, x, y)),
                    _ => {
                        // depends on another pixel?
                        let other = o.iter().any(|(pc, v)| v.loss() > 0 || pc.iter().any(|c| cond_loss(c.0) > 0));
                        if other || !it.unmod.is_empty() {
                            rep.und(prop, &format!("version {}: module access not resolved", v));
                        } else {
                            rep.viol(prop, "module value depends on another pixel", &format!("version {}, column {}, row {}", v, x, y));
                        }
                        return;
                    }
                }
            }
        }
    }
}
/// C19: every reachable state of a reader over `n` unknown bytes
pub fn chomp(n: usize, rep: &mut Rep, p: &str) {
    // bit i of the input, first bit of the first byte first
    let bit = |i: usize| Bit::L(base(5, i as u32), false);
    let bytes: Vec<Val> = (0..n).map(|k| Val::I(Int::of_bits((0..8).rev().map(|j| bit(k * 8 + j)).collect()))).collect();
    let (Some(new), Some(step), Some(or), Some(u16)) = (body_of(&root("root_chomp_new")), body_of(&root("root_chomp_step")), body_of(&root("root_chomp_step_or")), body_of(&root("root_chomp_step_u16"))) else {
        rep.und(p, "entry points not found");
        return;
    };
    let run = |f: &Rc<Func>, a: Vec<Val>, rep: &mut Rep, what: &str| -> Option<Val> {
        let mut it = Interp::new();
        let outs = it.run_fn(State::new(), f, a);
        rep.count(p, "reader calls analysed", 1);
        if outs.len() == 1 && outs[0].0.pc.is_empty() && outs[0].1.loss() == 0 && !it.aborted {
            return Some(outs[0].1.clone());
        }
        if outs.is_empty() && it.unmod.is_empty() && !it.aborted {
            let why = it.ob.iter().filter(|o| o.1.fail > 0).map(|(k, o)| format!("{} in {}: {}", k.kind, k.func, o.detail)).next().unwrap_or_default();
            rep.viol(p, "the bit reader stops abnormally", &format!("{}: {}", what, why));
        } else if !outs.is_empty() && outs.iter().all(|o| o.1.loss() == 0 && o.0.pc_loss() == 0) && !it.aborted {
            rep.viol(p, "the outcome of a read depends on something else than the bits read", what);
        } else {
            rep.und(p, &format!("{}: precision lost {:?}", what, it.unmod.keys().next()));
        }
        None
    };
    let Some(c0) = run(&new, vec![Val::vec(bytes)], rep, &format!("reader over {} bytes", n)) else { return };
    let mut seen: Vec<(Val, usize)> = vec![(c0, 0)];
    let mut k = 0;
    let err = Val::c(4711);
    while k < seen.len() {
        if seen.len() > 400 {
            rep.und(p, &format!("reader over {} bytes has too many states", n));
            return;
        }
        let (c, at) = seen[k].clone();
        k += 1;
        for way in 0..3 {
            let widths: Vec<usize> = if way == 2 { (0..=20).chain([32, 255]).collect() } else { (0..=10).chain([16, 128, 255]).collect() };
            for w in widths {
                let what = format!("{} bytes, {} bits consumed, {} of {} bits", n, at, ["chomp", "chomp_or", "chomp_or_u16"][way], w);
                let mut a = vec![c.clone(), Val::c(w as i128)];
                if way > 0 {
                    a.push(err.clone());
                }
                let Some(r) = run(if way == 0 { &step } else if way == 1 { &or } else { &u16 }, a, rep, &what) else { continue };
                let Val::Agg(r) = &r else { continue };
                let max = if way == 2 { 16 } else { 8 };
                let fits = w >= 1 && w <= max && at + w <= 8 * n;
                let want = if fits { Int::of_bits((0..w).rev().map(|j| bit(at + j)).collect()) } else { Int::C(0) };
                let want = match (way, fits) {
                    (0, true) => Val::some(Val::I(want)),
                    (0, false) => Val::none(),
                    (_, true) => Val::ok(Val::I(want)),
                    (_, false) => Val::err(err.clone()),
                };
                rep.count(p, "reads compared", 1);
                if r[1] != want {
                    let key = match (fits, &r[1]) {
                        (false, _) => "a read beyond the input or of an unsupported width succeeds",
                        (true, Val::En(e)) if e.var == if way == 0 { 0 } else { 1 } => "a possible read fails",
                        _ => "a read gives other bits",
                    };
                    rep.viol(p, key, &format!("{}: {} instead of {}", what, short(&r[1]), short(&want)));
                    continue;
                }
                if fits || way < 2 {
                    let s = (r[0].clone(), at + if fits { w } else { 0 });
                    if !seen.contains(&s) {
                        seen.push(s);
                    }
                }
            }
        }
    }
    rep.count(p, "reader states", seen.len() as u64);
}
/// C19: one long sequence of reads up to the end of the input
pub fn chomp_long(n: usize, rep: &mut Rep, p: &str) {
    let bit = |i: usize| Bit::L(base(5, i as u32), false);
    let bytes: Vec<Val> = (0..n).map(|k| Val::I(Int::of_bits((0..8).rev().map(|j| bit(k * 8 + j)).collect()))).collect();
    let (Some(new), Some(step), Some(u16)) = (body_of(&root("root_chomp_new")), body_of(&root("root_chomp_step")), body_of(&root("root_chomp_step_u16"))) else { return };
    let one = |f: &Rc<Func>, a: Vec<Val>| -> Option<Val> {
        let mut it = Interp::new();
        let outs = it.run_fn(State::new(), f, a);
        if outs.len() == 1 && outs[0].1.loss() == 0 && !it.aborted {
            Some(outs[0].1.clone())
        } else {
            None
        }
    };
    let Some(mut c) = one(&new, vec![Val::vec(bytes)]) else { return };
    let mut at = 0;
    let widths = [13, 8, 16, 3, 1, 11, 8, 10, 7];
    for i in 0.. {
        let left = 8 * n - at;
        if left == 0 {
            break;
        }
        let w: usize = widths[i % 9].min(left);
        let long = w > 8;
        let mut a = vec![c.clone(), Val::c(w as i128)];
        if long {
            a.push(Val::c(1));
        }
        let what = format!("{} bytes, {} bits consumed, read of {} bits", n, at, w);
        let Some(Val::Agg(r)) = one(if long { &u16 } else { &step }, a) else {
            rep.und(p, &format!("{}: not resolved", what));
            return;
        };
        let x = Val::I(Int::of_bits((0..w).rev().map(|j| bit(at + j)).collect()));
        let want = if long { Val::ok(x) } else { Val::some(x) };
        rep.count(p, "reads compared", 1);
        if r[1] != want {
            rep.viol(p, "a read gives other bits", &format!("{}: {} instead of {}", what, short(&r[1]), short(&want)));
            return;
        }
        c = r[0].clone();
        at += w;
    }
    if let Some(Val::Agg(r)) = one(&step, vec![c, Val::c(1)]) {
        if r[1] != Val::none() {
            rep.viol(p, "a read beyond the input or of an unsupported width succeeds", &format!("{} bytes", n));
        }
    }
    rep.count(p, "long inputs", 1);
}
/// C25: one operator between points and differences over unknown coordinates
pub fn vectors(op: usize, rep: &mut Rep, p: &str) {
    use crate::flt::*;
    let Some(f) = body_of(&root("root_pt")) else {
        rep.und(p, "entry point not found");
        return;
    };
    let inp = |s: &str| Flt::input(s, f64::NEG_INFINITY, f64::INFINITY, true);
    let n = ["p.x", "p.y", "q.x", "q.y", "d.x", "d.y", "e.x", "e.y", "s"];
    let pair = |a: usize| Val::agg(vec![Val::F(inp(n[a])), Val::F(inp(n[a + 1]))]);
    let mut it = Interp::new();
    let outs = it.run_fn(State::new(), &f, vec![Val::c(op as i128), pair(0), pair(2), pair(4), pair(6), Val::F(inp("s"))]);
    // (name, which half of the result, left, operator, right)
    let (name, half, l, o, r) = [
        ("Point + Delta", 0, 0, "add", 4),
        ("Point - Delta", 0, 0, "sub", 4),
        ("Point - Point", 1, 0, "sub", 2),
        ("Delta + Delta", 1, 4, "add", 6),
        ("Delta - Delta", 1, 4, "sub", 6),
        ("Delta * f64", 1, 4, "mul", 8),
        ("f64 * Delta", 1, 4, "mul", 8),
        ("Delta / f64", 1, 4, "div", 8),
    ][op];
    rep.count(p, "operators analysed", 1);
    let want = |k: usize| Flt::bin(o, inp(n[l + k]), inp(n[if r == 8 { 8 } else { r + k }]));
    if outs.is_empty() {
        if it.unmod.is_empty() && !it.aborted {
            rep.viol(p, "an operator between points never returns", name);
        } else {
            rep.und(p, &format!("{}: not resolved", name));
        }
        return;
    }
    for (k, co) in ["x", "y"].iter().enumerate() {
        let get = |v: &Val| -> Option<Flt> {
            let Val::Agg(a) = v else { return None };
            let Val::Agg(b) = &a[half] else { return None };
            match &b[k] {
                Val::F(f) => Some(*f),
                _ => None,
            }
        };
        rep.count(p, "components compared", 1);
        if outs.len() == 1 && outs[0].0.pc.is_empty() && get(&outs[0].1) == Some(want(k)) {
            rep.item(p, &format!("{}: {} component is the {} of exactly the two operands' components", name, co, o));
            continue;
        }
        // written differently: look for coordinates where the values differ
        let vals = [0.0, 1.0, -1.0, 2.0, 0.5, -3.25, 10.0, 1000.0, 7.0];
        let mut differs = None;
        let mut known = 0;
        'a: for i in 0..2000usize {
            let of = |s: &str| n.iter().position(|x| *x == s).map(|j| vals[(i * (j + 1) + i / (j + 3) + j * j) % 9]);
            let at = |_: Flt, d: &FT| if let FT::In(s) = d { of(s) } else { None };
            let Some(w) = feval(want(k), &at) else { continue };
            if !w.is_finite() {
                continue;
            }
            for (s, v) in &outs {
                let mut here = Some(true);
                for (c, b) in s.pc.iter() {
                    match fcond(*c, &at) {
                        Some(x) if x == *b => {}
                        Some(_) => {
                            here = Some(false);
                            break;
                        }
                        None => here = None,
                    }
                }
                if here != Some(true) {
                    continue;
                }
                let Some(g) = get(v).and_then(|g| feval(g, &at)) else { continue };
                known += 1;
                if !((g - w).abs() <= 1e-9 * w.abs().max(1.0)) {
                    let used: Vec<String> = n.iter().enumerate().filter(|(j, _)| (*j >= l && *j < l + 2) || (*j >= r && *j < r + 2)).map(|(_, s)| format!("{}={}", s, of(s).unwrap())).collect();
                    differs = Some(format!("{} component of {} is {} instead of {} for {}", co, name, g, w, used.join(" ")));
                    break 'a;
                }
            }
        }
        match differs {
            Some(d) => rep.viol(p, &format!("{} gives another {} component", name, co), &d),
            None => rep.und(p, &format!("{}: {} component is not literally the expected term ({} values agree)", name, co, known)),
        }
    }
}
