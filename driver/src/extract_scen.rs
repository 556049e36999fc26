//! Scenarios over the extractor: symbols drawn into images of constant geometry, their modules unknown.
use crate::flt::Flt;
use crate::interp::*;
use crate::ir::*;
use crate::natives::*;
use crate::roots::root;
use crate::scen::Rep;
use crate::term::*;
use crate::val::*;

#[derive(Clone, Debug)]
pub struct Geo {
    pub v: u32,
    /// module size in pixels
    pub m: f64,
    /// rotation in degrees
    pub rot: f64,
    /// the second axis points the other way
    pub mirror: bool,
    /// displacement of the alignment pattern, in modules
    pub al: (f64, f64),
    /// offset of the reported finder centres, in pixels
    pub off: (f64, f64),
    /// second axis longer by this factor
    pub stretch: f64,
}
pub struct Drawn {
    pub w: i128,
    pub h: i128,
    pub tl: (f64, f64),
    pub tr: (f64, f64),
    pub bl: (f64, f64),
    pub dx: (f64, f64),
    pub dy: (f64, f64),
    /// module drawn at each pixel; -1 outside of the symbol
    pub mods: Vec<i32>,
}
fn bilinear(d: &(f64, f64), e: &(f64, f64), k: &(f64, f64), u: f64, v: f64) -> (f64, f64) {
    (u * d.0 + v * e.0 + u * v * k.0, u * d.1 + v * e.1 + u * v * k.1)
}
pub fn draw(g: &Geo) -> Drawn {
    let side = crate::iso::side(g.v) as f64;
    let (s, c) = match g.rot as i64 {
        0 => (0.0, 1.0),
        90 => (1.0, 0.0),
        180 => (0.0, -1.0),
        270 => (-1.0, 0.0),
        _ => g.rot.to_radians().sin_cos(),
    };
    let dx = (g.m * c, g.m * s);
    let f = g.m * g.stretch * if g.mirror { -1.0 } else { 1.0 };
    let dy = (-s * f, c * f);
    let n = (side - 10.0) * (side - 10.0);
    let k = ((g.al.0 * dx.0 + g.al.1 * dy.0) / n, (g.al.0 * dx.1 + g.al.1 * dy.1) / n);
    // corners, with four modules of margin
    let far = side - 3.5 + 4.0;
    let cs: Vec<(f64, f64)> = [(-7.5, -7.5), (far, -7.5), (-7.5, far), (far, far)].iter().map(|(u, v)| bilinear(&dx, &dy, &k, *u, *v)).collect();
    let lo = (cs.iter().map(|p| p.0).fold(f64::MAX, f64::min), cs.iter().map(|p| p.1).fold(f64::MAX, f64::min));
    let hi = (cs.iter().map(|p| p.0).fold(f64::MIN, f64::max), cs.iter().map(|p| p.1).fold(f64::MIN, f64::max));
    // pixel i covers [i - 0.5, i + 0.5)
    let fit = |x: f64| if g.rot as i64 % 90 == 0 { (x - (3.5 * g.m - 0.5)).ceil() + 3.5 * g.m - 0.5 } else { x.ceil() };
    let tl = (fit(-lo.0), fit(-lo.1));
    let (w, h) = ((hi.0 + tl.0).ceil() as i128 + 1, (hi.1 + tl.1).ceil() as i128 + 1);
    let det = dx.0 * dy.1 - dx.1 * dy.0;
    let mut mods = Vec::with_capacity((w * h) as usize);
    for y in 0..h {
        for x in 0..w {
            let p = (x as f64 - tl.0, y as f64 - tl.1);
            let (mut u, mut v) = (0.0, 0.0);
            for _ in 0..12 {
                let q = (p.0 - u * v * k.0, p.1 - u * v * k.1);
                u = (q.0 * dy.1 - q.1 * dy.0) / det;
                v = (q.1 * dx.0 - q.0 * dx.1) / det;
                if g.al == (0.0, 0.0) {
                    break;
                }
            }
            let (c, r) = ((u + 3.5 + 1e-9).floor(), (v + 3.5 + 1e-9).floor());
            mods.push(if c >= 0.0 && r >= 0.0 && c < side && r < side { r as i32 * side as i32 + c as i32 } else { -1 });
        }
    }
    let o = |u: f64, v: f64| {
        let p = bilinear(&dx, &dy, &(0.0, 0.0), u, v);
        (tl.0 + p.0 + g.off.0, tl.1 + p.1 + g.off.1)
    };
    Drawn { w, h, tl: o(0.0, 0.0), tr: o(side - 7.0, 0.0), bl: o(0.0, side - 7.0), dx, dy, mods }
}
/// ring structure of an alignment pattern, None outside of it
fn align(v: u32, col: i32, row: i32) -> Option<i128> {
    if v < 2 {
        return None;
    }
    let c = crate::iso::side(v) as i32 - 7;
    let d = (col - c).abs().max((row - c).abs());
    match d {
        0 | 2 => Some(0),
        1 => Some(255),
        _ => None,
    }
}
fn noise(a: i32) -> i128 {
    let x = (a as u32).wrapping_mul(2654435761).rotate_left(13).wrapping_mul(40503);
    if x & 64 == 0 {
        0
    } else {
        255
    }
}
/// pixel values: each module unknown, except for the alignment pattern (and, with `near`, its surroundings)
pub fn pixels(g: &Geo, d: &Drawn, near: i32, blank: bool) -> (Vec<Val>, Vec<Val>) {
    let side = crate::iso::side(g.v) as i32;
    let m: Vec<Val> = (0..side * side)
        .map(|i| {
            let (c, r) = (i % side, i / side);
            let ac = side - 7;
            let dist = (c - ac).abs().max((r - ac).abs());
            match align(g.v, c, r) {
                Some(x) if !blank => Val::c(x),
                _ if g.v > 1 && dist <= near => {
                    if blank {
                        Val::c(255)
                    } else if dist == 3 {
                        Val::c(if (c + r) % 2 == 0 { 0 } else { 255 })
                    } else {
                        Val::c(noise(i))
                    }
                }
                _ => Val::I(Int::w(base(4, i as u32), 255, 0)),
            }
        })
        .collect();
    let px = d.mods.iter().map(|i| if *i < 0 { Val::c(255) } else { m[*i as usize].clone() }).collect();
    (px, m)
}
fn location(g: &Geo, d: &Drawn) -> Val {
    let p = |p: (f64, f64)| Val::agg(vec![Val::F(Flt::c(p.0)), Val::F(Flt::c(p.1))]);
    Val::agg(vec![p(d.tl), p(d.tr), p(d.bl), Val::F(Flt::c(g.m)), Val::c(g.v as i128)])
}
pub fn run(im: Val, loc: Val) -> Option<(Interp, Outs)> {
    let f = body_of(&root("root_extract"))?;
    let mk = body_of(&root("root_new_extract"))?;
    let mut it = Interp::new();
    let x = it.run_fn(State::new(), &mk, vec![]);
    let x = x.first()?.1.clone();
    let o = it.run_fn(State::new(), &f, vec![Val::sh(x), Val::sh(im), loc]);
    Some((it, o))
}
fn failing(it: &Interp) -> String {
    it.ob.iter().filter(|(_, o)| o.fail > 0).map(|(k, o)| format!("{} in {}: {}", k.kind, k.func, o.detail)).next().unwrap_or_default()
}
/// C23: the modules of a drawn symbol come back, row by row
pub fn sampled(g: &Geo, rep: &mut Rep, p: &str) {
    let d = draw(g);
    let near = if g.al == (0.0, 0.0) { 0 } else { 6 };
    let (px, m) = pixels(g, &d, near, false);
    let what = format!("version {} at {} pixels per module, rotated by {} degrees{}{}", g.v, g.m, g.rot, if g.mirror { ", mirrored" } else { "" }, if near > 0 { format!(", alignment pattern displaced by {:?} modules", g.al) } else { String::new() });
    let Some((it, outs)) = run(exact_img(d.w, d.h, px), location(g, &d)) else {
        rep.und(p, "entry point not found");
        return;
    };
    rep.count(p, "drawn symbols extracted", 1);
    if std::env::var("BV_DBG").is_ok() {
        println!("{} : {} outs {} steps {}", what, outs.len(), it.steps, it.ob.len());
        for (s, v) in outs.iter().take(3) { println!("   pc {} {}", s.pc.len(), short(v).chars().take(200).collect::<String>()); }
        for (k, n) in &it.unmod { println!("UNMOD {} {}", k, n); }
    }
    let exact = it.unmod.is_empty() && !it.aborted;
    if outs.is_empty() {
        if exact {
            rep.viol(p, "extraction stops abnormally", &format!("{}: {}", what, failing(&it)));
        } else {
            rep.und(p, &format!("{}: not resolved", what));
        }
        return;
    }
    let side = crate::iso::side(g.v);
    for (s, o) in &outs {
        if s.pc_loss() > 0 {
            rep.und(p, &format!("{}: a path is approximated", what));
            continue;
        }
        let Val::En(e) = o else {
            rep.und(p, &format!("{}: outcome not resolved", what));
            continue;
        };
        if e.var != 0 {
            rep.viol(p, "a symbol that lies in the image is not extracted", &format!("{}: {}", what, short(o)));
            continue;
        }
        let (data, v, sd) = match &e.f[0] {
            Val::Agg(a) if a.len() == 3 => (a[0].clone(), a[1].clone(), a[2].clone()),
            _ => {
                rep.und(p, &format!("{}: symbol data not resolved", what));
                continue;
            }
        };
        if v != Val::c(g.v as i128) || sd != Val::c(side as i128) {
            rep.viol(p, "version or side of the extracted data", &format!("{}: version {}, side {}", what, short(&v), short(&sd)));
        }
        let Val::Seq(q) = &data else {
            rep.und(p, &format!("{}: modules not resolved", what));
            continue;
        };
        let Seq::Ex(q) = q.as_ref() else {
            rep.und(p, &format!("{}: modules not resolved", what));
            continue;
        };
        if q.len() != m.len() {
            rep.viol(p, "number of extracted modules", &format!("{}: {} instead of {}", what, q.len(), m.len()));
            continue;
        }
        for (i, (a, b)) in q.iter().zip(&m).enumerate() {
            rep.count(p, "modules compared", 1);
            if a != b {
                if a.loss() > 0 {
                    rep.und(p, &format!("{}: module value not resolved", what));
                    break;
                }
                rep.viol(p, "an extracted module is not the one drawn there", &format!("{}: column {}, row {}: {} instead of {}", what, i as u32 % side, i as u32 / side, short(a), short(b)));
                break;
            }
        }
    }
}
/// C23: symbols without the pattern or partly outside of the image, unknown versions
pub fn refused(g: &Geo, kind: usize, rep: &mut Rep, p: &str) {
    let d = draw(g);
    let name = ["without alignment pattern", "right of the image", "below the image", "left of the image", "above the image", "unknown version"][kind];
    let what = format!("version {} at {} pixels per module, rotated by {} degrees, {}", g.v, g.m, g.rot, name);
    // search for the pattern among constant modules only
    let (px, m) = pixels(g, &d, if kind == 0 { 8 } else if g.v > 1 { 999 } else { 0 }, kind == 0);
    let half = g.m * (crate::iso::side(g.v) as f64) * 0.8;
    let mv = match kind {
        1 => (half, 0.0),
        2 => (0.0, half),
        3 => (-half, 0.0),
        4 => (0.0, -half),
        _ => (0.0, 0.0),
    };
    let mods = d.mods;
    let mut h = Drawn { mods: vec![], ..d };
    for q in [&mut h.tl, &mut h.tr, &mut h.bl] {
        q.0 += mv.0;
        q.1 += mv.1;
    }
    let vs: Vec<u32> = if kind == 5 { vec![0, 41, 42, 100, u32::MAX] } else { vec![g.v] };
    for v in vs {
        let g2 = Geo { v, ..g.clone() };
        let Some((it, outs)) = run(exact_img(h.w, h.h, px.clone()), location(&g2, &h)) else { return };
        rep.count(p, "unreadable symbols extracted", 1);
        if outs.is_empty() && it.unmod.is_empty() && !it.aborted {
            rep.viol(p, "extraction stops abnormally", &format!("{} {}: {}", what, v, failing(&it)));
        }
        for (s, o) in &outs {
            match o {
                _ if s.pc_loss() > 0 => rep.und(p, &format!("{}: a path is approximated", what)),
                Val::En(e) if e.var == 1 => {}
                // modules beyond an edge may be made up, the others may not
                Val::En(e) if kind >= 1 && kind <= 4 => {
                    let q = match &e.f[0] {
                        Val::Agg(a) if a.len() == 3 => match &a[0] {
                            Val::Seq(q) => match q.as_ref() {
                                Seq::Ex(v) => Some(v.clone()),
                                _ => None,
                            },
                            _ => None,
                        },
                        _ => None,
                    };
                    let Some(q) = q else {
                        rep.und(p, &format!("{}: outcome not resolved", what));
                        continue;
                    };
                    let side = crate::iso::side(g.v);
                    if q.len() != (side * side) as usize {
                        rep.viol(p, "number of extracted modules", &format!("{}: {} instead of {}", what, q.len(), side * side));
                    } else if g.v == 1 {
                        for (i, a) in q.iter().enumerate() {
                            let (u, w) = ((i as u32 % side) as f64 - 3.0, (i as u32 / side) as f64 - 3.0);
                            let at = (h.tl.0 + u * h.dx.0 + w * h.dy.0, h.tl.1 + u * h.dx.1 + w * h.dy.1);
                            if at.0 < 0.0 || at.1 < 0.0 || at.0 >= h.w as f64 || at.1 >= h.h as f64 || (at.0 - at.0.round()).abs() > 0.49 {
                                continue;
                            }
                            let k = mods[at.1.round() as usize * h.w as usize + at.0.round() as usize];
                            let want = if k < 0 { Val::c(255) } else { m[k as usize].clone() };
                            rep.count(p, "modules compared", 1);
                            if *a != want && a.loss() == 0 {
                                rep.viol(p, "an extracted module is not the one drawn there", &format!("{}: column {}, row {}: {} instead of {}", what, u + 3.0, w + 3.0, short(a), short(&want)));
                                break;
                            }
                        }
                    }
                }
                Val::En(_) => rep.viol(p, &format!("a symbol {} is extracted", name), &format!("{} {}", what, v)),
                _ => rep.und(p, &format!("{}: outcome not resolved", what)),
            }
        }
    }
}
pub fn jobs(thorough: bool, seed: u32) -> Vec<(Geo, usize)> {
    let g = |v: u32, m: f64, rot: f64| Geo { v, m, rot, mirror: false, al: (0.0, 0.0), off: (0.0, 0.0), stretch: 1.0 };
    let mut r: Vec<(Geo, usize)> = vec![];
    for v in 1..=40 {
        r.push((g(v, if v > 20 { 3.0 } else { 5.0 }, 0.0), 9));
    }
    let vs: &[u32] = if thorough { &[1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 14, 20, 27] } else { &[1, 2, 3, 5, 7, 10] };
    for (i, v) in vs.iter().enumerate() {
        for (j, a) in [5.0, 17.0, 30.0, 45.0, 63.0, 90.0, 128.0, 180.0, 222.0, 270.0, 301.0].iter().enumerate() {
            if !thorough && (i + j + seed as usize) % 2 == 1 && a % 90.0 != 0.0 {
                continue;
            }
            r.push((g(*v, 4.0 + ((i + j) % 4) as f64 * 1.5, *a), 9));
        }
        for rot in [0.0, 45.0, 200.0] {
            r.push((Geo { mirror: true, ..g(*v, 5.5, rot) }, 9));
        }
        for off in [(0.5, 0.5), (-0.5, 0.5), (0.5, -0.5), (-0.5, -0.5)] {
            r.push((Geo { off, ..g(*v, 4.0 + i as f64, 0.0) }, 9));
        }
        r.push((Geo { stretch: 1.25, ..g(*v, 5.0, 0.0) }, 9));
        r.push((Geo { stretch: 0.8, ..g(*v, 6.0, 0.0) }, 9));
        if *v > 1 {
            for (j, al) in [(0.5, 0.0), (0.0, 0.5), (-0.5, 0.5), (1.0, 0.0), (0.0, -1.0), (1.0, 1.0), (-1.0, 0.5), (-1.0, -1.0), (0.5, 1.0), (0.25, -0.25)].iter().enumerate() {
                if !thorough && (i + j) % 2 == 1 {
                    continue;
                }
                r.push((Geo { al: *al, ..g(*v, 7.0, 0.0) }, 9));
            }
            r.push((g(*v, 5.0, 0.0), 0));
            r.push((g(*v, 5.0, 30.0), 0));
        }
        for k in 1..=5 {
            r.push((g(*v, 4.0, 0.0), k));
        }
    }
    r
}
