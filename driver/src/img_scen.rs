//! Scenarios over the image stages: preparing, detecting, extracting.
use crate::flt::Flt;
use crate::interp::*;
use crate::ir::*;
use crate::natives::*;
use crate::roots::root;
use crate::scen::Rep;
use crate::term::*;
use crate::val::*;
use rustc_public::ty::Ty;
use std::rc::Rc;

pub fn dim(n: &str, lo: i128) -> Int {
    Int::of_atom(atom(Def::Input(n.to_string()), lo, 65535, 0))
}
/// an image of unknown size; every pixel is one of `px`
pub fn any_image(lo: i128) -> Val {
    let a = fresh_atom(0, 255, 0);
    img(dim("width", lo), dim("height", lo), Val::agg(vec![Val::vec(vec![Val::I(Int::of_atom(a))])]))
}
pub fn any_location() -> Val {
    let f = |s: &str| Val::F(Flt::input(s, f64::NEG_INFINITY, f64::INFINITY, true));
    let pt = |s: &str| Val::agg(vec![f(&format!("{}.x", s)), f(&format!("{}.y", s))]);
    Val::agg(vec![pt("top_left"), pt("top_right"), pt("bottom_left"), f("module_size"), Val::I(Int::of_atom(atom(Def::Input("version".into()), 0, u32::MAX as i128, 0)))])
}
pub fn run_prepare() -> Option<(Interp, Outs)> {
    let mk = body_of(&root("root_new_prepare"))?;
    let mut it = Interp::new();
    let p = it.run_fn(State::new(), &mk, vec![Val::c(5), Val::c(7)]);
    let p = p.first()?.1.clone();
    let f = body_of(&root("root_prepare"))?;
    let im = Val::obj(Obj::Mark(MARK_DYNIMG, vec![Val::I(dim("width", 0)), Val::I(dim("height", 0))]));
    let o = it.run_fn(State::new(), &f, vec![Val::sh(p), Val::sh(im)]);
    Some((it, o))
}
pub fn run_detect() -> Option<(Interp, Outs)> {
    let f = body_of(&root("root_detect"))?;
    let mut it = Interp::new();
    let o = it.run_fn(State::new(), &f, vec![Val::sh(Val::agg(vec![])), Val::sh(any_image(0))]);
    Some((it, o))
}
/// detect in an image of constant size and unknown pixels
pub fn detect_sized(w: i128, h: i128) -> Option<(Interp, Outs)> {
    let f = body_of(&root("root_detect"))?;
    let mut it = Interp::new();
    let mk = body_of(&root("root_new_detect"))?;
    let d = it.run_fn(State::new(), &mk, vec![]).first()?.1.clone();
    let px = Val::agg(vec![Val::vec(vec![Val::I(Int::of_atom(fresh_atom(0, 255, 0)))])]);
    let o = it.run_fn(State::new(), &f, vec![Val::sh(d), Val::sh(img(Int::C(w), Int::C(h), px))]);
    Some((it, o))
}
pub fn run_extract() -> Option<(Interp, Outs)> {
    let f = body_of(&root("root_extract"))?;
    let mut it = Interp::new();
    let o = it.run_fn(State::new(), &f, vec![Val::sh(Val::agg(vec![])), Val::sh(any_image(0)), any_location()]);
    Some((it, o))
}
/// prepare an image of constant size whose pixels are unknown
pub fn prepare_exact(bs: u32, ms: u32, w: i128, h: i128) -> Option<(Interp, Outs)> {
    let mk = body_of(&root("root_new_prepare"))?;
    let mut it = Interp::new();
    let p = it.run_fn(State::new(), &mk, vec![Val::c(bs as i128), Val::c(ms as i128)]);
    let p = p.first()?.1.clone();
    let f = body_of(&root("root_prepare"))?;
    let px = (0..w * h).map(|i| Val::I(Int::of_atom(grey(i)))).collect();
    let im = Val::obj(Obj::Mark(MARK_DYNIMG, vec![Val::c(w), Val::c(h), exact_img(w, h, px)]));
    let o = it.run_fn(State::new(), &f, vec![Val::sh(p), Val::sh(im)]);
    Some((it, o))
}
fn grey(i: i128) -> Atom {
    atom(Def::Input(format!("grey{}", i)), 0, 255, 0)
}
/// C20: every pixel of the prepared image is a comparison with a local mean
pub fn thresholds(bs: u32, ms: u32, w: i128, h: i128, rep: &mut Rep, p: &str) {
    let what = format!("BlockedMean::new({}, {}), image of {} by {} pixels", bs, ms, w, h);
    let Some((it, outs)) = prepare_exact(bs, ms, w, h) else {
        rep.und(p, "entry point not found");
        return;
    };
    rep.count(p, "images prepared", 1);
    let exact = it.unmod.is_empty() && !it.aborted;
    if outs.is_empty() {
        if exact {
            let why = it.ob.iter().filter(|(_, o)| o.fail > 0).map(|(k, o)| format!("{} in {}: {}", k.kind, k.func, o.detail)).next().unwrap_or_default();
            rep.viol(p, "preparing an image stops abnormally", &format!("{}: {}", what, why));
        } else {
            rep.und(p, &format!("{}: not resolved ({:?})", what, it.unmod.keys().next()));
        }
        return;
    }
    if outs.len() > 64 {
        rep.und(p, &format!("{}: too many paths", what));
        return;
    }
    let (bs, reach) = (bs as i128, (ms as i128 - 1) / 2);
    for (s, o) in &outs {
        let Some((ow, oh, px)) = exact_pixels(o) else {
            // dimensions alone
            rep.und(p, &format!("{}: pixels not resolved", what));
            continue;
        };
        if (ow, oh) != (w, h) {
            rep.viol(p, "the prepared image has other dimensions", &format!("{}: {} by {}", what, ow, oh));
            continue;
        }
        let npc: Vec<CondId> = s.pc.iter().map(|c| c.0).collect();
        for (k, v) in px.iter().enumerate() {
            let k = k as i128;
            let (x, y) = (k % w, k / w);
            rep.count(p, "pixels compared", 1);
            let Val::I(v) = v else { continue };
            let at = format!("{}, column {}, row {}", what, x, y);
            if v.loss() > 0 {
                rep.und(p, &format!("{}: a pixel is not resolved", what));
                break;
            }
            let mut cs = npc.clone();
            let mut leaves = vec![];
            conds_of(v, &mut cs, &mut leaves);
            if let Some(l) = leaves.iter().find(|l| **l != Some(0) && **l != Some(255)) {
                if l.is_some() || v.bounds() != (0, 255) || matches!(v, Int::P(_)) {
                    rep.viol(p, "a prepared pixel is neither black nor white", &format!("{}: {}", at, short(&Val::I(v.clone()))));
                } else {
                    rep.und(p, &format!("{}: a pixel is not resolved", what));
                }
                break;
            }
            if w < bs || h < bs {
                continue;
            }
            // the mean the pixel is compared with
            let mut ts = vec![];
            for c in &cs {
                crate::flt::cond_terms(*c, &mut ts);
            }
            let mut mean = None;
            let mut odd = false;
            for t in &ts {
                if let crate::flt::FT::Bin("div", a, b) = t.info().t {
                    match mean_of(crate::flt::Flt(a), crate::flt::Flt(b)) {
                        Some(m) if mean.is_none() => mean = Some((*t, m)),
                        _ => odd = true,
                    }
                }
            }
            let Some((mt, (sum, n))) = mean.filter(|_| !odd) else {
                if ts.is_empty() && cs.is_empty() {
                    rep.viol(p, "a prepared pixel does not depend on the image", &at);
                    break;
                }
                // another form: the pixels the comparison depends on, and its value for some of their sums
                let mut g = std::collections::BTreeSet::new();
                let known = cs.iter().all(|c| greys_of(*c, &mut g, 0));
                let bl: std::collections::BTreeSet<(i128, i128)> = g.iter().filter(|i| **i != k).map(|i| ((i % w) / bs, (i / w) / bs)).collect();
                if !known || bl.is_empty() {
                    rep.und(p, &format!("{}: the threshold is not resolved", what));
                    break;
                }
                let (x0, x1) = (bl.iter().map(|b| b.0).min().unwrap(), bl.iter().map(|b| b.0).max().unwrap());
                let (y0, y1) = (bl.iter().map(|b| b.1).min().unwrap(), bl.iter().map(|b| b.1).max().unwrap());
                let mut rect: Vec<i128> = vec![];
                for i in 0..w * h {
                    let b = ((i % w) / bs, (i / w) / bs);
                    if b.0 >= x0 && b.0 <= x1 && b.1 >= y0 && b.1 <= y1 {
                        rect.push(i);
                    }
                }
                if rect.iter().any(|i| !g.contains(i) && *i != k) {
                    rep.viol(p, "the threshold is not the mean of a rectangle of whole blocks", &format!("{}: it depends on {} of the {} pixels of blocks {}..={}, {}..={}", at, g.len(), rect.len(), x0, x1, y0, y1));
                    break;
                }
                let reached = x0 >= x / bs - reach && x1 <= x / bs + reach && y0 >= y / bs - reach && y1 <= y / bs + reach;
                if !reached {
                    rep.viol(p, "the threshold uses blocks out of reach", &format!("{}: blocks {}..={}, {}..={} for block {}, {}", at, x0, x1, y0, y1, x / bs, y / bs));
                    break;
                }
                match by_sums(&rect, k, s, v) {
                    Err(()) => {
                        rep.und(p, &format!("{}: comparison not resolved", what));
                        break;
                    }
                    Ok(Some((g, sum, r))) => {
                        rep.viol(p, "a prepared pixel is on the wrong side of its threshold", &format!("{}: grey value {} with mean {} gives {}", at, g, sum as f64 / rect.len() as f64, r));
                        return;
                    }
                    Ok(None) => {}
                }
                continue;
            };
            // a plain mean of a rectangle of whole blocks in reach
            if let Some((i, c)) = sum.iter().find(|(_, c)| *c != 1) {
                rep.viol(p, "the threshold is not a plain mean", &format!("{}: pixel {}, {} counts {} times", at, i % w, i / w, c));
                break;
            }
            if sum.len() as i128 != n {
                rep.viol(p, "the threshold is not a plain mean", &format!("{}: sum of {} pixels divided by {}", at, sum.len(), n));
                break;
            }
            let bl: std::collections::BTreeSet<(i128, i128)> = sum.iter().map(|(i, _)| ((i % w) / bs, (i / w) / bs)).collect();
            let (x0, x1) = (bl.iter().map(|b| b.0).min().unwrap(), bl.iter().map(|b| b.0).max().unwrap());
            let (y0, y1) = (bl.iter().map(|b| b.1).min().unwrap(), bl.iter().map(|b| b.1).max().unwrap());
            let full = (((x1 + 1) * bs).min(w) - x0 * bs) * (((y1 + 1) * bs).min(h) - y0 * bs);
            if full != n {
                rep.viol(p, "the threshold is not the mean of a rectangle of whole blocks", &format!("{}: {} of the {} pixels of blocks {}..={}, {}..={}", at, n, full, x0, x1, y0, y1));
                break;
            }
            if x0 < x / bs - reach || x1 > x / bs + reach || y0 < y / bs - reach || y1 > y / bs + reach {
                rep.viol(p, "the threshold uses blocks out of reach", &format!("{}: blocks {}..={}, {}..={} for block {}, {}", at, x0, x1, y0, y1, x / bs, y / bs));
                break;
            }
            if (x0 > (x / bs - reach).max(0) || y0 > (y / bs - reach).max(0)) || (x1 < (x / bs + reach - 1).min(w / bs - 1) || y1 < (y / bs + reach - 1).min(h / bs - 1)) {
                rep.viol(p, "the threshold leaves out blocks in reach", &format!("{}: blocks {}..={}, {}..={} for block {}, {}", at, x0, x1, y0, y1, x / bs, y / bs));
                break;
            }
            // the comparisons
            for m in [0.0, 3.0, 4.99, 5.0, 5.5, 100.0, 100.5, 249.0, 250.0, 250.01, 254.0] {
                for g in [0i128, 1, 3, 5, 6, 99, 100, 101, 249, 250, 251, 255] {
                    let a = Int::of_atom(grey(k));
                    let leaf = |t: crate::flt::Flt, d: &crate::flt::FT| {
                        if t == mt {
                            return Some(m);
                        }
                        match d {
                            crate::flt::FT::I2F(i) if *i == a => Some(g as f64),
                            _ => None,
                        }
                    };
                    let lit = |c: CondId| crate::flt::fcond(c, &leaf);
                    let atom = |x: Atom| if x == grey(k) { Some(g) } else { None };
                    let mut ev = Eval::new(&lit, &atom);
                    let here = s.pc.iter().map(|(c, b)| ev.cond(*c).map(|x| x == *b)).collect::<Vec<_>>();
                    if here.contains(&Some(false)) {
                        continue;
                    }
                    let want = if m > 250.0 || (m >= 5.0 && g as f64 > m) { 255 } else { 0 };
                    match ev.int(v) {
                        _ if here.contains(&None) => {}
                        Some(r) if r == want => {}
                        Some(r) => {
                            rep.viol(p, "a prepared pixel is on the wrong side of its threshold", &format!("{}: grey value {} with mean {} gives {}", at, g, m, r));
                            return;
                        }
                        None => {
                            rep.und(p, &format!("{}: comparison not resolved", what));
                            return;
                        }
                    }
                }
            }
        }
    }
}
/// conditions a value depends on and the constants it chooses from
fn conds_of(i: &Int, cs: &mut Vec<CondId>, leaves: &mut Vec<Option<i128>>) {
    match i {
        Int::C(c) => leaves.push(Some(*c)),
        Int::W(c, f, t) => {
            cs.push(*c);
            leaves.push(Some(*f));
            leaves.push(Some(*t));
        }
        Int::P(p) if p.len() == 1 && p[0].1 == 1 && p[0].0.len() == 1 => match atom_def(p[0].0[0]) {
            Def::Ite(c, f, t) => {
                cs.push(c);
                conds_of(&f, cs, leaves);
                conds_of(&t, cs, leaves);
            }
            _ => leaves.push(None),
        },
        Int::B(b) if b.len() == 8 && b.iter().all(|x| *x == b[0]) => {
            if let Bit::L(c, _) = &b[0] {
                cs.push(*c);
            }
            leaves.push(Some(0));
            leaves.push(Some(255));
        }
        _ => leaves.push(None),
    }
}
fn geval_int(i: &Int, vals: &dyn Fn(Atom) -> Option<i128>) -> Option<i128> {
    let lit = |c: CondId| match cond_def(c) {
        Cond::FCmp(..) => geval_cond(c, vals),
        _ => None,
    };
    Eval::new(&lit, vals).int(i)
}
fn geval_cond(c: CondId, vals: &dyn Fn(Atom) -> Option<i128>) -> Option<bool> {
    if let Cond::FCmp(..) = cond_def(c) {
        return crate::flt::fcond(c, &|_, d| match d {
            crate::flt::FT::I2F(i) => geval_int(i, vals).map(|x| x as f64),
            _ => None,
        });
    }
    let lit = |c: CondId| match cond_def(c) {
        Cond::FCmp(..) => geval_cond(c, vals),
        _ => None,
    };
    Eval::new(&lit, vals).cond(c)
}
/// the grey values a condition depends on; false if it depends on anything else
fn greys_of(c: CondId, out: &mut std::collections::BTreeSet<i128>, depth: u32) -> bool {
    let poly = |p: &Poly, out: &mut std::collections::BTreeSet<i128>| p.iter().all(|(m, _)| m.iter().all(|a| greys_at(*a, out, depth + 1)));
    if depth > 40 {
        return false;
    }
    match cond_def(c) {
        Cond::FCmp(_, a, b) => {
            let mut ts = vec![];
            crate::flt::subterms(Flt(a), &mut ts);
            crate::flt::subterms(Flt(b), &mut ts);
            ts.iter().all(|t| match t.info().t {
                crate::flt::FT::I2F(i) => greys_int(&i, out, depth + 1),
                crate::flt::FT::Fresh(_) | crate::flt::FT::In(_) => false,
                _ => true,
            })
        }
        Cond::And(a, _, b, _) => greys_of(a, out, depth + 1) && greys_of(b, out, depth + 1),
        Cond::Ge0(p) | Cond::Eq0(p) => poly(&p, out),
        _ => false,
    }
}
fn greys_int(i: &Int, out: &mut std::collections::BTreeSet<i128>, depth: u32) -> bool {
    match i {
        Int::C(_) => true,
        Int::P(p) => p.iter().all(|(m, _)| m.iter().all(|a| greys_at(*a, out, depth))),
        Int::W(c, ..) => greys_of(*c, out, depth + 1),
        _ => false,
    }
}
fn greys_at(a: Atom, out: &mut std::collections::BTreeSet<i128>, depth: u32) -> bool {
    if depth > 40 {
        return false;
    }
    let poly = |p: &Poly, out: &mut std::collections::BTreeSet<i128>| p.iter().all(|(m, _)| m.iter().all(|a| greys_at(*a, out, depth + 1)));
    match atom_def(a) {
        Def::Input(s) => match s.strip_prefix("grey").and_then(|x| x.parse().ok()) {
            Some(i) => {
                out.insert(i);
                true
            }
            None => false,
        },
        Def::Div(p, q) | Def::Rem(p, q) | Def::Min(p, q) | Def::Max(p, q) => poly(&p, out) && poly(&q, out),
        Def::Of(i) | Def::Wrap(i, ..) => greys_int(&i, out, depth + 1),
        Def::Ite(c, f, t) => greys_of(c, out, depth + 1) && greys_int(&f, out, depth + 1) && greys_int(&t, out, depth + 1),
        _ => false,
    }
}
/// compares a pixel with the rule for chosen grey values; (grey value, sum, result) of a difference
fn by_sums(rect: &[i128], k: i128, s: &State, v: &Int) -> Result<Option<(i128, i128, i128)>, ()> {
    let n = rect.len() as i128;
    let others: Vec<i128> = rect.iter().filter(|i| **i != k).cloned().collect();
    for sum in [5 * n - 1, 5 * n, 5 * n + 1, 100 * n, 100 * n + 1, 101 * n - 1, 250 * n, 250 * n + 1, 251 * n - 1, 251 * n] {
        let f = sum / n;
        for g in [f - 1, f, f + 1, f + 2] {
            // the others share the rest, evenly or not
            for skew in [0, 20] {
                let inside = others.len() < rect.len();
                let rest = if inside { sum - g } else { sum };
                let m = others.len() as i128;
                if g < 0 || m == 0 || rest < 0 || rest > 255 * m {
                    continue;
                }
                let mut val: std::collections::HashMap<i128, i128> = others.iter().enumerate().map(|(j, i)| (*i, rest / m + ((j as i128) < rest % m) as i128)).collect();
                for j in 0..others.len() / 2 {
                    let (a, b) = (others[j], others[others.len() - 1 - j]);
                    let d = skew.min(val[&a]).min(255 - val[&b]);
                    *val.get_mut(&a).unwrap() -= d;
                    *val.get_mut(&b).unwrap() += d;
                }
                val.insert(k, g);
                let vals = |a: Atom| match atom_def(a) {
                    Def::Input(s) => s.strip_prefix("grey").and_then(|x| x.parse::<i128>().ok()).map(|i| val.get(&i).cloned().unwrap_or(60)),
                    _ => None,
                };
                let here: Vec<Option<bool>> = s.pc.iter().map(|(c, b)| geval_cond(*c, &vals).map(|x| x == *b)).collect();
                if here.contains(&Some(false)) {
                    continue;
                }
                if here.contains(&None) {
                    return Err(());
                }
                let want = if sum > 250 * n || (sum >= 5 * n && g * n > sum) { 255 } else { 0 };
                match geval_int(v, &vals) {
                    Some(r) if r == want => {}
                    Some(r) => return Ok(Some((g, sum, r))),
                    None => return Err(()),
                }
            }
        }
    }
    Ok(None)
}
/// (pixels with weights, divisor) of a quotient of a sum of grey values and a constant
fn mean_of(a: crate::flt::Flt, b: crate::flt::Flt) -> Option<(Vec<(i128, i128)>, i128)> {
    let n = b.konst()?;
    let crate::flt::FT::I2F(i) = a.info().t else { return None };
    let mut r = vec![];
    let Int::P(poly) = &i else { return None };
    for (m, c) in poly.iter() {
        if m.len() != 1 {
            return None;
        }
        let Def::Input(s) = atom_def(m[0]) else { return None };
        r.push((s.strip_prefix("grey")?.parse().ok()?, *c));
    }
    if n != n.trunc() {
        return None;
    }
    Some((r, n as i128))
}
pub fn dbg(job: &str, _a: &[u32]) {
    let t = std::time::Instant::now();
    let Some((it, outs)) = (match job {
        "dprep" => run_prepare(),
        "dpx" => prepare_exact(5, 7, _a[0] as i128, _a[1] as i128),
        "ddsz" => detect_sized(_a[0] as i128, _a[1] as i128),
        "ddet" => run_detect(),
        _ => run_extract(),
    }) else {
        println!("no entry");
        return;
    };
    println!("{} outs, {} steps, {:?}, aborted {}", outs.len(), it.steps, t.elapsed(), it.aborted);
    for (s, v) in &outs {
        println!("  out pc {} loss {} {}", s.pc.len(), s.pc_loss(), short(v));
    }
    let (mut ok, mut bad) = (0, 0);
    for (k, o) in &it.ob {
        if o.fail == 0 {
            ok += 1;
        } else {
            bad += 1;
            println!("OB {} fail {} definite {} local {} {} {}: {}", o.seen, o.fail, o.definite, o.local, k.func, k.at, k.kind);
            println!("     {}", o.detail.chars().take(300).collect::<String>());
        }
    }
    println!("obligations {} proven, {} not", ok, bad);
    for a in _a.iter().skip(2) {
        println!("f{} = {}", a, crate::find_scen::fshow(crate::flt::Flt(*a), 7));
        let mut v = vec![];
        crate::flt::subterms(crate::flt::Flt(*a), &mut v);
        for t in v { let i = t.info(); println!("   {} [{},{}] {:?} loss {}", t.0, i.lo, i.hi, i.nan, i.loss); }
    }
    for (k, n) in &it.notes { println!("NOTE {} {}", k, n); }
    for (k, n) in &it.widened { println!("WIDENED {} {}", k, n); }
    for (k, n) in &it.unmod { println!("UNMOD {} {}", k, n); }
}
