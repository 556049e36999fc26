//! C02: the image stages never end abnormally.
use crate::flt::Flt;
use crate::interp::*;
use crate::ir::body_of;
use crate::natives::*;
use crate::scen::Rep;
use crate::term::*;
use crate::val::*;

/// an image of constant size, every pixel black or white
pub fn bw(w: i128, h: i128) -> Val {
    exact_img(w, h, (0..w * h).map(|i| Val::I(Int::w(base(4, i as u32), 255, 0))).collect())
}
pub fn place(tl: (f64, f64), tr: (f64, f64), bl: (f64, f64), m: f64, v: i128) -> Val {
    let p = |p: (f64, f64)| Val::agg(vec![Val::F(Flt::c(p.0)), Val::F(Flt::c(p.1))]);
    Val::agg(vec![p(tl), p(tr), p(bl), Val::F(Flt::c(m)), Val::c(v)])
}
fn unproven(it: &Interp, f: &mut dyn FnMut(&ObKey, &Ob)) {
    for (k, o) in &it.ob {
        if o.fail > 0 && o.local {
            f(k, o);
        }
    }
}
#[derive(Clone, Debug)]
pub struct Ext {
    pub w: i128,
    pub h: i128,
    pub tl: (f64, f64),
    pub tr: (f64, f64),
    pub bl: (f64, f64),
    pub v: i128,
}
/// the module size that a detector estimated, more or less
fn estimated(e: &Ext, m: f64) -> f64 {
    m * [1.0, 5.0, 0.2][(e.w + e.h) as usize % 3]
}
/// extraction at a constant place, all pixels unknown
pub fn extract_at(e: &Ext, rep: &mut Rep, p: &str) {
    let m = ((e.tr.0 - e.tl.0).powi(2) + (e.tr.1 - e.tl.1).powi(2)).sqrt() / (4.0 * e.v as f64 + 10.0);
    let m = estimated(e, m);
    let Some((it, outs)) = crate::extract_scen::run(bw(e.w, e.h), place(e.tl, e.tr, e.bl, m, e.v)) else {
        rep.und(p, "entry point not found");
        return;
    };
    rep.count(p, "places extracted", 1);
    rep.count(p, "obligations", it.ob.len() as u64);
    let what = format!("{:?}", e);
    if std::env::var("BV_DBG").is_ok() {
        println!("{} : {} outs {} steps", what, outs.len(), it.steps);
        for (k, n) in &it.unmod { println!("UNMOD {} {}", k, n); }
    }
    let exact = it.unmod.is_empty() && !it.aborted;
    if outs.is_empty() && exact {
        rep.viol(p, "extraction never returns", &what);
    }
    if !exact {
        rep.und(p, &format!("{}: {:?}", what, it.unmod.keys().next()));
    }
    unproven(&it, &mut |k, o| {
        if o.fail == 1 && o.definite && exact {
            rep.viol(p, &format!("{} in {}", k.kind, k.func), &format!("{}: {}", what, o.detail));
        } else {
            rep.und(p, &format!("{} in {} ({}): {}", k.kind, k.func, what, o.detail));
        }
    });
}
pub fn places() -> Vec<Ext> {
    let mut r = vec![];
    for v in [1i128, 2, 7] {
        let s = 4.0 * v as f64 + 10.0;
        for m in [1.0, 2.3] {
            let d = s * m;
            let far = (d + 10.0 * m).ceil();
            for (ox, oy) in [(4.0, 4.0), (0.0, 0.0), (3.0 * m, 3.0 * m), (d * 0.4, 4.0), (4.0, d * 0.4), (-d * 0.3, 4.0), (4.0, -d * 0.3)] {
                let q = |x: f64, y: f64| (ox + x, oy + y);
                for (tl, tr, bl) in [(q(0.0, 0.0), q(d, 0.0), q(0.0, d)), (q(d, d), q(0.0, d), q(d, 0.0)), (q(0.3 * d, 0.0), q(d, 0.3 * d), q(0.0, 0.7 * d))] {
                    let f = far as i128;
                    let mut sz = vec![(f, f), (f, (far * 0.7) as i128), ((far * 0.7) as i128, f), (f + 9, f), (f, f + 9)];
                    if v != 2 {
                        sz.truncate(3);
                    }
                    // images that end where the alignment pattern ends
                    if v == 2 && ox == oy {
                        let n = (s, s - 3.0);
                        let e = |t: f64, r: f64, b: f64| {
                            let (x, y) = ((r - t) / n.0, (b - t) / n.0);
                            t + n.1 * (x + y) + 2.0 * (x.abs() + y.abs())
                        };
                        let (x, y) = (e(tl.0, tr.0, bl.0).round() as i128, e(tl.1, tr.1, bl.1).round() as i128);
                        for k in 0..2 {
                            sz.push((f, y + k));
                            sz.push((x + k, f));
                            sz.push((x + k, y + 1 - k));
                        }
                    }
                    sz.retain(|(w, h)| *w > 0 && *h > 0);
                    for (w, h) in sz {
                        r.push(Ext { w, h, tl, tr, bl, v });
                    }
                }
            }
        }
    }
    r
}

/// detection in an image of constant size and unknown pixels; false if an access is not proven to be inside
pub fn detect_in(w: i128, h: i128, rep: &mut Rep, p: &str) {
    let Some((it, outs)) = crate::img_scen::detect_sized(w, h) else {
        rep.und(p, "entry point not found");
        return;
    };
    rep.count(p, "image sizes searched", 1);
    rep.count(p, "obligations", it.ob.len() as u64);
    let what = format!("image of {} by {} pixels", w, h);
    let exact = it.unmod.is_empty() && !it.aborted;
    if outs.is_empty() && exact {
        rep.viol(p, "detection never returns", &what);
    }
    if !exact {
        rep.und(p, &format!("detect: not resolved ({:?})", it.unmod.keys().next()));
    }
    unproven(&it, &mut |k, o| {
        if o.fail == 1 && o.definite && exact {
            rep.viol(p, &format!("{} in {}", k.kind, k.func), &format!("{}: {}", what, o.detail));
        } else if k.kind == "add-overflow" || k.kind == "mul-overflow" {
            rep.item(p, &format!("not decided: {} of pixel counts in {}", k.kind, k.func));
        } else {
            rep.und(p, &format!("detect: {} in {}: {}", k.kind, k.func, o.detail));
        }
    });
}
pub fn sizes(thorough: bool) -> Vec<(i128, i128)> {
    let mut r = vec![(0, 0), (1, 1), (2, 1), (1, 2), (9, 1), (1, 9), (7, 7), (8, 8), (21, 21), (40, 60), (61, 39), (320, 200), (1, 3000), (3000, 1), (2000, 3000), (65535, 7), (9, 65535), (40000, 40000)];
    if thorough {
        for i in 1..40 {
            r.push((i, 41 - i));
            r.push((i * 37, i * 53 + 1));
        }
    }
    r
}
/// constant images that contain what the detector looks for, at the edges of the image
pub fn witnesses() -> Vec<(String, i128, i128, Vec<bool>)> {
    let mut r: Vec<(String, i128, i128, Vec<bool>)> = vec![];
    let ring = |x: f64, y: f64, m: f64| {
        let d = (x.abs().max(y.abs()) / m - 0.5).ceil();
        d <= 1.0 || d == 3.0
    };
    for m in [1.0, 2.0, 3.0] {
        for (w, h) in [(14 * m as i128, 13 * m as i128), (12 * m as i128, 17 * m as i128)] {
        // one pattern, its centre on a grid that reaches beyond the edges
        for gx in 0..9 {
            for gy in 0..9 {
                let cx = (gx as f64 / 8.0 * (w as f64 - 1.0)).round().clamp(0.0, w as f64);
                let cy = (gy as f64 / 8.0 * (h as f64 - 1.0)).round().clamp(0.0, h as f64);
                let at = |e: f64, n: i128, g: i32| match g {
                    1 => 3.5 * m - 0.5,
                    7 => n as f64 - 3.5 * m - 0.5,
                    _ => e,
                };
                let (cx, cy) = (at(cx, w, gx), at(cy, h, gy));
                let px = (0..w * h).map(|i| ring((i % w) as f64 - cx, (i / w) as f64 - cy, m)).collect();
                r.push((format!("one finder pattern of {} pixels per module centred at {}, {} in {} by {} pixels", m, cx, cy, w, h), w, h, px));
            }
        }
        }
        // three patterns of a symbol of version 1 that fills the image, shifted beyond its edges
        let n = 21 * m as i128;
        for (sx, sy) in [(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, -1)] {
            let f = |i: i128| {
                let (x, y) = ((i % n - sx) as f64, (i / n - sy) as f64);
                let (a, b) = (3.5 * m - 0.5, 17.5 * m - 0.5);
                let near = |cx: f64, cy: f64| (x - cx).abs().max((y - cy).abs()) < 4.5 * m;
                for (cx, cy) in [(a, a), (b, a), (a, b)] {
                    if near(cx, cy) {
                        return ring(x - cx, y - cy, m);
                    }
                }
                ((x / m).floor() + (y / m).floor()) as i64 % 2 == 0
            };
            r.push((format!("three finder patterns of {} pixels per module filling {} by {} pixels, shifted by {}, {}", m, n, n, sx, sy), n, n, (0..n * n).map(f).collect()));
        }
    }
    // three patterns at all small distances, with something like modules between them
    for (m, n) in [(1.0, 44i128), (2.0, 76)] {
        for dist in 7..26 {
            let a = 5.0 * m + 2.0;
            let b = a + dist as f64 * m;
            if b + 4.0 * m > n as f64 {
                continue;
            }
            let f = |i: i128| {
                let (x, y) = ((i % n) as f64, (i / n) as f64);
                let mut near = false;
                for (cx, cy) in [(a, a), (b, a), (a, b)] {
                    let (u, v) = (x - cx, y - cy);
                    if ring(u, v, m) {
                        return true;
                    }
                    near |= u.abs().max(v.abs()) < 4.5 * m;
                }
                !near && ((x / m).floor() + (y / m).floor()) as i64 % 2 == 0
            };
            r.push((format!("three finder patterns of {} pixels per module, {} modules apart", m, dist), n, n, (0..n * n).map(f).collect()));
        }
    }
    // stripes with the proportions of a finder pattern
    for (w, h) in [(7, 7), (14, 9), (21, 21), (8, 30)] {
        for k in 0..3 {
            let f = |i: i128| {
                let d = [i % w, i / w, i % w + i / w][k];
                [true, false, true, true, true, false, true, false][(d % 8) as usize]
            };
            r.push((format!("stripes of kind {} in {} by {} pixels", k, w, h), w, h, (0..w * h).map(f).collect()));
        }
    }
    r
}
/// a constant image as counterexample to an obligation that is not proven
pub fn refute(n: &str, w: i128, h: i128, px: &[bool], rep: &mut Rep, p: &str) {
    let im = exact_img(w, h, px.iter().map(|d| Val::c(if *d { 0 } else { 255 })).collect());
    let Some(f) = body_of(&crate::roots::root("root_detect")) else { return };
    let Some(mk) = body_of(&crate::roots::root("root_new_detect")) else { return };
    let mut it = Interp::new();
    let Some((_, d)) = it.run_fn(State::new(), &mk, vec![]).pop() else { return };
    let outs = it.run_fn(State::new(), &f, vec![Val::sh(d), Val::sh(im)]);
    rep.count(p, "counterexamples tried", 1);
    if std::env::var("BV_DBG").is_ok() {
        println!("{} : {} outs {} steps {:?}", n, outs.len(), it.steps, it.unmod.keys().next());
        for (_, v) in outs.iter() { println!("    {}", short(v)); }
    }
    if !it.unmod.is_empty() || it.aborted {
        return;
    }
    unproven(&it, &mut |k, o| {
        if o.fail == 1 && o.definite {
            rep.viol(p, &format!("{} in {}", k.kind, k.func), &format!("{}: {}", n, o.detail));
        }
    });
    if outs.is_empty() {
        rep.viol(p, "detection stops abnormally", n);
    }
}
/// preparation of images of constant size
pub fn prepare_in(bs: u32, ms: u32, w: i128, h: i128, rep: &mut Rep, p: &str) {
    let Some((it, outs)) = crate::img_scen::prepare_exact(bs, ms, w, h) else {
        rep.und(p, "entry point not found");
        return;
    };
    rep.count(p, "image sizes prepared", 1);
    rep.count(p, "obligations", it.ob.len() as u64);
    let what = format!("BlockedMean::new({}, {}), image of {} by {} pixels", bs, ms, w, h);
    let exact = it.unmod.is_empty() && !it.aborted;
    if !exact {
        rep.und(p, &format!("{}: not resolved ({:?})", what, it.unmod.keys().next()));
    }
    unproven(&it, &mut |k, o| {
        if o.fail == 1 && o.definite && exact {
            rep.viol(p, &format!("{} in {}", k.kind, k.func), &format!("{}: {}", what, o.detail));
        } else {
            rep.und(p, &format!("{} in {} ({}): {}", k.kind, k.func, what, o.detail));
        }
    });
    if outs.is_empty() && exact {
        rep.viol(p, "preparing an image stops abnormally", &what);
    }
}

/// constant images as counterexamples for extraction at a place
pub fn refute_extract(e: &Ext, rep: &mut Rep, p: &str) {
    let m = ((e.tr.0 - e.tl.0).powi(2) + (e.tr.1 - e.tl.1).powi(2)).sqrt() / (4.0 * e.v as f64 + 10.0);
    let n = 4.0 * e.v as f64 + 10.0;
    let d = ((e.tr.0 - e.tl.0) / n, (e.tr.1 - e.tl.1) / n);
    let f = ((e.bl.0 - e.tl.0) / n, (e.bl.1 - e.tl.1) / n);
    let det = d.0 * f.1 - d.1 * f.0;
    // alignment patterns, displaced by modules, on noise; then plain images
    let mut kinds: Vec<(String, Vec<bool>)> = vec![];
    for (a, b) in [(0.0, 0.0), (2.0, 2.0), (-2.0, -2.0), (4.0, 0.0), (0.0, 4.0), (-3.0, 3.0), (3.0, -3.0)] {
        for bg in 0..3 {
            let c = n - 3.0 - 3.0;
            let px = (0..e.w * e.h)
                .map(|i| {
                    let q = ((i % e.w) as f64 - e.tl.0, (i / e.w) as f64 - e.tl.1);
                    let u = (q.0 * f.1 - q.1 * f.0) / det;
                    let v = (q.1 * d.0 - q.0 * d.1) / det;
                    let r = ((u - c - a).abs().max((v - c - b).abs()) - 0.5).ceil();
                    if r <= 2.0 {
                        return r != 1.0;
                    }
                    match bg {
                        0 => false,
                        1 => true,
                        _ => {
                            let x = ((u.round() as i64 * 131 + v.round() as i64 + 70000) as u32).wrapping_mul(2654435761);
                            x >> 13 & 1 == 0
                        }
                    }
                })
                .collect();
            kinds.push((format!("alignment pattern displaced by {}, {}, surroundings {}", a, b, ["light", "dark", "mixed"][bg]), px));
        }
    }
    for k in 0..5 {
        let at = |i: i128| match k {
            0 => false,
            1 => true,
            2 => (i % e.w) as f64 / m as f64 % 2.0 < 1.0,
            3 => (i / e.w) as f64 / m as f64 % 2.0 < 1.0,
            _ => (i % e.w + i / e.w) % 2 == 0,
        };
        kinds.push((["all light", "all dark", "columns", "rows", "chequered"][k].to_string(), (0..e.w * e.h).map(at).collect()));
    }
    for (n, px) in kinds {
        let im = exact_img(e.w, e.h, px.iter().map(|d| Val::c(if *d { 0 } else { 255 })).collect());
        let Some((it, outs)) = crate::extract_scen::run(im, place(e.tl, e.tr, e.bl, estimated(e, m), e.v)) else { return };
        rep.count(p, "counterexamples tried", 1);
        if !it.unmod.is_empty() || it.aborted {
            continue;
        }
        let what = format!("{:?}, {}", e, n);
        let mut bad = false;
        unproven(&it, &mut |k, o| {
            if o.fail == 1 && o.definite {
                bad = true;
                rep.viol(p, &format!("{} in {}", k.kind, k.func), &format!("{}: {}", what, o.detail));
            }
        });
        if outs.is_empty() && !bad {
            rep.viol(p, "extraction stops abnormally", &what);
        }
    }
}
