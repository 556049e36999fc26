//! The judgement on three finder patterns: which symbol, if any, they belong to.
use crate::flt::*;
use crate::interp::*;
use crate::ir::*;
use crate::roots::*;
use crate::scen::Rep;
use crate::term::*;
use crate::val::*;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::ty::{GenericArgKind, RigidTy, Ty, TyKind};
use std::collections::{HashSet, VecDeque};
use std::rc::Rc;

fn adt(t: Ty) -> String {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => d.name().to_string().rsplit("::").next().unwrap_or("").to_string(),
        _ => String::new(),
    }
}
fn is_option_location(t: Ty) -> bool {
    if let TyKind::RigidTy(RigidTy::Adt(d, a)) = t.kind() {
        if d.name().to_string().ends_with("Option") {
            if let Some(GenericArgKind::Type(x)) = a.0.first() {
                return adt(*x) == "QRLocation";
            }
        }
    }
    false
}
/// an argument: points in order, numbers all the module size
fn argument(t: Ty, pts: &mut VecDeque<Val>, ms: &Val) -> Option<Val> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) => Some(Val::sh(argument(t, pts, ms)?)),
        TyKind::RigidTy(RigidTy::Float(_)) => Some(ms.clone()),
        TyKind::RigidTy(RigidTy::Adt(d, a)) => {
            if adt(t) == "Point" {
                return pts.pop_front();
            }
            let vs = d.variants();
            if vs.len() != 1 {
                return None;
            }
            let mut f = vec![];
            for x in vs[0].fields() {
                f.push(argument(x.ty_with_args(&a), pts, ms)?);
            }
            Some(Val::agg(f))
        }
        _ => None,
    }
}
/// the outermost function that judges three points
pub fn judge() -> Option<Rc<FnRef>> {
    let mut q: VecDeque<Rc<FnRef>> = [root("root_detect")].into();
    let mut seen: HashSet<usize> = q.iter().map(|f| f.id).collect();
    while let Some(f) = q.pop_front() {
        let Some(b) = body_of(&f) else { continue };
        if is_option_location(b.tys[0]) {
            let pts = [0, 1, 2].map(|_| Val::Un);
            let mut q = VecDeque::from(pts);
            let ok = (1..=b.nargs).all(|i| argument(b.tys[i], &mut q, &Val::Un).is_some());
            if ok && q.is_empty() {
                return Some(f);
            }
        }
        for g in mentioned(&b) {
            if g.krate == "bardecoder" && seen.insert(g.id) {
                q.push_back(g);
            }
        }
    }
    None
}
const N: [&str; 7] = ["a.x", "a.y", "b.x", "b.y", "c.x", "c.y", "m"];
pub fn run() -> Option<(Interp, Outs)> {
    let f = body_of(&judge()?)?;
    let inp = |s: &str| Val::F(Flt::input(s, f64::NEG_INFINITY, f64::INFINITY, true));
    let mut pts: VecDeque<Val> = (0..3).map(|k| Val::agg(vec![inp(N[2 * k]), inp(N[2 * k + 1])])).collect();
    let args = (1..=f.nargs).map(|i| argument(f.tys[i], &mut pts, &inp("m")).unwrap()).collect();
    let mut it = Interp::new();
    it.pin_all = true;
    it.max_parts = 100_000;
    let o = it.run_fn(State::new(), &f, args);
    Some((it, o))
}
pub fn dbg() {
    let Some((it, outs)) = run() else {
        println!("none");
        return;
    };
    println!("{} outs {} steps", outs.len(), it.steps);
    for (s, v) in outs.iter().take(40) {
        if let Val::Alt(a) = v {
            for x in a.iter() {
                println!("alt {:?} {}", x.g.map(|(c, b)| (cshow(c, 7), b)), x.e.var);
                if let Some(Val::Agg(l)) = x.e.f.first() {
                    if let Val::Agg(p) = &l[0] { if let Val::F(t) = &p[0] { println!("   {}", fshow(*t, 9)); } }
                    if let Val::I(i) = &l[4] { println!("   {:?}", i); }
                }
            }
        }
        println!("pc {} loss {} {}", s.pc.len(), s.pc_loss(), short(v));
    }
    for (k, n) in &it.unmod { println!("UNMOD {} {}", k, n); }
    for (k, o) in &it.ob { println!("OB {} {} {:?}", o.seen, o.fail, (&k.func, &k.at, &k.kind)); if o.fail > 0 { println!("   {}", o.detail); } }
}
pub fn fshow(t: Flt, d: u32) -> String {
    if d == 0 { return "..".into(); }
    match t.info().t {
        FT::C(b) => format!("{}", f64::from_bits(b)),
        FT::In(s) => s,
        FT::Fresh(n) => format!("fresh{}", n),
        FT::Bin(o, a, b) => format!("{}({},{})", o, fshow(Flt(a), d - 1), fshow(Flt(b), d - 1)),
        FT::Un(o, a) => format!("{}({})", o, fshow(Flt(a), d - 1)),
        FT::I2F(i) => format!("int {:?}", i),
        FT::Ite(c, a, b) => format!("[{}? {} : {}]", cshow(c, d - 1), fshow(Flt(b), d - 1), fshow(Flt(a), d - 1)),
    }
}
pub fn cshow(c: CondId, d: u32) -> String {
    if d == 0 { return "..".into(); }
    match cond_def(c) {
        Cond::FCmp(o, a, b) => format!("{} {} {}", fshow(Flt(a), d - 1), o, fshow(Flt(b), d - 1)),
        Cond::And(a, x, b, y) => format!("({}={} & {}={})", cshow(a, d - 1), x, cshow(b, d - 1), y),
        x => format!("{:?}", x),
    }
}
fn short_path(it: &Interp) -> String {
    it.unmod.keys().next().cloned().unwrap_or_default()
}
/// C21: the decision table over three points, its general facts and its entries for given triangles
pub fn located(rep: &mut Rep, p: &str, seed: u32, thorough: bool) {
    let Some((it, outs)) = run() else {
        rep.und(p, "no function judging three points found");
        return;
    };
    if it.aborted || !it.unmod.is_empty() || outs.iter().any(|(s, v)| s.pc_loss() > 0 || v.loss() > 0) || outs.len() > 20_000 {
        rep.und(p, &format!("the judgement on three points is not resolved {}", short_path(&it)));
        return;
    }
    rep.count(p, "paths of the judgement on three points", outs.len() as u64);
    let inp = |s: &str| Flt::input(s, f64::NEG_INFINITY, f64::INFINITY, true);
    let xs: Vec<Flt> = N.iter().map(|s| inp(s)).collect();
    // (path facts, None or (points by role, module size, version))
    let mut table: Vec<(Rc<Vec<Lit>>, Option<([usize; 3], Int)>)> = vec![];
    for (s, v) in &outs {
        let Val::En(e) = v else {
            rep.und(p, "a judgement is not resolved");
            return;
        };
        if e.var == 0 {
            table.push((s.pc.clone(), None));
            continue;
        }
        let Val::Agg(l) = &e.f[0] else { return };
        let mut role = [9usize; 3];
        for k in 0..3 {
            if let Val::Agg(q) = &l[k] {
                if let (Val::F(x), Val::F(y)) = (&q[0], &q[1]) {
                    if let Some(i) = (0..3).find(|i| xs[2 * i] == *x && xs[2 * i + 1] == *y) {
                        role[k] = i;
                    }
                }
            }
        }
        let mut r = role;
        r.sort();
        rep.count(p, "located symbols whose points are checked", 1);
        if r != [0, 1, 2] {
            rep.viol(p, "a located symbol's points are not the three finder patterns", &format!("top left, top right and bottom left are {:?} of the patterns given (9: none of them)", role));
            continue;
        }
        if l[3] != Val::F(xs[6]) {
            rep.item(p, "the module size of a located symbol is not that of its first pattern");
        }
        let Val::I(ver) = &l[4] else { continue };
        match s.decide(crate::ops::ge(ver, &Int::C(1))) {
            Some(true) => rep.count(p, "located symbols with a version of at least one", 1),
            _ if ver.bounds().1 < 1 => rep.viol(p, "a located symbol has version zero", &short(&l[4])),
            _ => rep.und(p, "a version is not bounded from below"),
        }
        table.push((s.pc.clone(), Some((role, ver.clone()))));
    }
    // evaluate the table
    let judge = |at: &[f64; 7]| -> Option<Option<([usize; 3], i128)>> {
        let leaf = |t: Flt, _: &FT| xs.iter().position(|x| *x == t).map(|i| at[i]);
        let f2i = |a: Atom| match atom_def(a) {
            Def::F2I(t, w, s) => feval(Flt(t), &leaf).and_then(|x| Flt::c(x).to_int(w, s).c()),
            _ => None,
        };
        let lit = |c: CondId| fcond(c, &leaf);
        let mut ev = Eval::new(&lit, &f2i);
        let mut known: std::collections::HashMap<CondId, Option<bool>> = Default::default();
        for (pc, r) in &table {
            let mut ok = Some(true);
            for (c, b) in pc.iter() {
                let x = *known.entry(*c).or_insert_with(|| ev.cond(*c));
                match x {
                    Some(x) if x == *b => {}
                    Some(_) => {
                        ok = Some(false);
                        break;
                    }
                    None => ok = None,
                }
            }
            match ok {
                Some(true) => {
                    return Some(match r {
                        None => None,
                        Some((role, v)) => Some((*role, ev.int(v)?)),
                    })
                }
                Some(false) => {}
                None => return None,
            }
        }
        None
    };
    let perms = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    // symbols: corner, end of the upper side, end of the left side
    let mut n = 0u32;
    for v in 1..=40u32 {
        for (ai, a) in (0..360).step_by(if thorough { 5 } else { 15 }).enumerate() {
            for (pi, perm) in perms.iter().enumerate() {
                n += 1;
                let r = (a as f64 + ((seed + n) % 7) as f64).to_radians();
                let m = [1.5, 2.0, 3.3, 5.0, 9.7][(v as usize + ai + pi) % 5];
                let len = (4 * v + 10) as f64 * m;
                let slack = 1.0 / (4 * v + 10) as f64;
                // sides up to 2 % apart, angle up to 2 degrees off, length up to one module off
                let (f, g) = ([0.0, 0.9, -0.9, 0.4][n as usize % 4], [0.0, 0.02, -0.02, 0.01, -0.01][n as usize % 5]);
                let (la, lb) = (len * (1.0 + f * slack), len * (1.0 + f * slack) * (1.0 + g));
                let off = [0.0f64, 2.0, -2.0][n as usize % 3].to_radians();
                let c = (300.0 + (n % 50) as f64, 280.0 - (n % 31) as f64);
                let pts = [c, (c.0 + la * r.cos(), c.1 + la * r.sin()), (c.0 - lb * (r + off).sin(), c.1 + lb * (r + off).cos())];
                // the side measured must round to this version
                if (f * slack).abs() + g.abs() > 1.9 * slack {
                    continue;
                }
                let q: Vec<(f64, f64)> = perm.iter().map(|i| pts[*i]).collect();
                let at = [q[0].0, q[0].1, q[1].0, q[1].1, q[2].0, q[2].1, m];
                rep.count(p, "triangles judged", 1);
                let want = [0, 1, 2].map(|k| perm.iter().position(|x| *x == k).unwrap());
                let d = || format!("corner {:.1?}, upper {:.1?}, left {:.1?}, {} pixels per module, patterns given in order {:?}", pts[0], pts[1], pts[2], m, perm);
                match judge(&at) {
                    None => rep.und(p, "a triangle's judgement cannot be evaluated"),
                    Some(None) => rep.viol(p, "three patterns of a symbol are not located", &format!("version {}: {}", v, d())),
                    Some(Some((role, ver))) => {
                        if role[0] != want[0] {
                            rep.viol(p, "the corner of a symbol is not its top left", &format!("version {}: {}", v, d()));
                        } else if role != want {
                            rep.viol(p, "top right and bottom left of a symbol are exchanged", &format!("version {}: {}", v, d()));
                        }
                        if ver != v as i128 {
                            rep.viol(p, "a symbol is located with another version", &format!("version {} instead of {}: {}", ver, v, d()));
                        }
                    }
                }
            }
        }
    }
    // triangles that are no symbol
    let mut x = seed.wrapping_mul(747796405).wrapping_add(2891336453);
    let mut rnd = || {
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        (x >> 8) as f64 / (1 << 24) as f64
    };
    let mut k = 0;
    while k < if thorough { 20000 } else { 3000 } {
        k += 1;
        let m = 1.0 + 6.0 * rnd();
        let pts: Vec<(f64, f64)> = (0..3).map(|_| (rnd() * 900.0, rnd() * 900.0)).collect();
        let far = (0..3).all(|i| {
            let (o, a, b) = (pts[i], pts[(i + 1) % 3], pts[(i + 2) % 3]);
            let (u, w) = ((a.0 - o.0, a.1 - o.1), (b.0 - o.0, b.1 - o.1));
            let (lu, lw) = (u.0.hypot(u.1), w.0.hypot(w.1));
            let sin = (u.0 * w.1 - u.1 * w.0).abs() / lu / lw;
            (lu - lw).abs() / lu.max(lw) > 0.3 || sin < 0.88
        });
        let at = if far {
            [pts[0].0, pts[0].1, pts[1].0, pts[1].1, pts[2].0, pts[2].1, m]
        } else {
            // right triangles too small for a symbol
            let len = m * (1.0 + 9.9 * rnd());
            let (s, c) = (rnd() * 6.3).sin_cos();
            let o = pts[0];
            let t = [(o.0, o.1), (o.0 + len * c, o.1 + len * s), (o.0 - len * s, o.1 + len * c)];
            let q = perms[k % 6].map(|i| t[i]);
            [q[0].0, q[0].1, q[1].0, q[1].1, q[2].0, q[2].1, m]
        };
        rep.count(p, "triangles judged", 1);
        match judge(&at) {
            None => rep.und(p, "a triangle's judgement cannot be evaluated"),
            Some(None) => {}
            Some(Some((_, v))) => rep.viol(p, if far { "patterns that form no square are located" } else { "patterns too close for a symbol are located" }, &format!("{:.1?} as version {}", at, v)),
        }
    }
}
