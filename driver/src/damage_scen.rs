//! Symbols with damaged codewords: all payloads at once, one error pattern each.
use crate::decode_scen::*;
use crate::interp::*;
use crate::ir::*;
use crate::iso;
use crate::ops;
use crate::roots::root;
use crate::scen::Rep;
use crate::term::*;
use crate::val::*;
use rustc_public::ty::Ty;
use std::rc::Rc;

/// record the payload, then go on with another one
pub struct SwapHook {
    pub id: usize,
    pub cap: Cap,
    pub with: Val,
}
impl Hooks for SwapHook {
    fn call(&mut self, it: &mut Interp, st: &mut State, f: &Rc<FnRef>, args: &mut Vec<Val>, _r: Ty) -> Option<Outs> {
        if f.id == self.id {
            let path = call_path(it, st);
            self.cap.borrow_mut().push((st.clone(), args.clone(), path));
            args[0] = self.with.clone();
        }
        None
    }
}
fn inv(b: Bit) -> Bit {
    ops::bit_xor_bit(b, Bit::O)
}
/// a code word of the standard plus the given errors (transmitted codeword, xor); all other
/// words of the standard are as unknown as their check words allow
pub fn build(v: u32, l: usize, m: u32, errs: &[(usize, u8)]) -> (Vec<Val>, Vec<Int>) {
    let s = iso::side(v);
    let pl = iso::placement(v);
    let words: Vec<Int> = pl.chunks(8).map(|w| Int::of_bits(w.iter().rev().map(|(x, y)| Bit::L(module_lit(v, *x, *y), iso::masked(m, *x, *y))).collect())).collect();
    forget_sums();
    for (b, ix) in iso::blocks(v, l).iter().zip(&iso::interleave(v, l)) {
        for j in 0..b.0 - b.1 {
            let mut sum = Int::C(0).lin();
            for (i, w) in ix.iter().enumerate() {
                sum = lin_add(&sum, &lin_scale(&words[*w].lin(), gf_pow((j * (b.0 - 1 - i as u32)) % 255)));
            }
            know_zero(&sum);
        }
    }
    let fb = iso::format_bits(l, m);
    let mut d = symbol(v, Some(&fb), Some(&fb));
    for (i, e) in errs {
        for (k, (x, y)) in pl[i * 8..i * 8 + 8].iter().enumerate() {
            if e >> (7 - k) & 1 == 1 {
                // pixel of the inverted module
                d[(y * s + x) as usize] = Val::I(Int::of_bits(vec![inv(Bit::L(module_lit(v, *x, *y), true)); 8]));
            }
        }
    }
    (d, words)
}
pub fn describe(v: u32, l: usize, m: u32, errs: &[(usize, u8)]) -> String {
    format!("version {} level {} mask {}, damage [{}]", v, iso::LVL_NAME[l], m, errs.iter().map(|(i, e)| format!("{}:{:02x}", i, e)).collect::<Vec<_>>().join(" "))
}
pub fn damaged(v: u32, l: usize, m: u32, errs: &[(usize, u8)], rep: &mut Rep, props: &[&str]) {
    damaged_any(v, l, m, errs, rep, props);
    if props.contains(&"C26") && rep.has_und("C26") {
        constants(v, l, m, errs, rep, &["C26"]);
    }
}
fn damaged_any(v: u32, l: usize, m: u32, errs: &[(usize, u8)], rep: &mut Rep, props: &[&str]) {
    let has = |p: &str| props.contains(&p);
    let bl = iso::blocks(v, l);
    let il = iso::interleave(v, l);
    let what = describe(v, l, m, errs);
    let (d, words) = build(v, l, m, errs);
    let cap: Cap = Default::default();
    let mut it = Interp::new();
    let Some(ch) = callee_of("root_chomp_new") else { return };
    it.hooks = Some(Box::new(SwapHook { id: ch.id, cap: cap.clone(), with: Val::vec(vec![]) }));
    let info = has("C11");
    let Some(f) = body_of(&root(if info { "root_decode_parts" } else { "root_decode" })) else { return };
    let outs = it.run_fn(State::new(), &f, vec![Val::sh(Val::agg(vec![])), Val::vec(d), Val::c(v as i128)]);
    forget_sums();
    for p in props {
        rep.count(p, "error patterns", 1);
        rep.count(p, "abstract steps", it.steps);
    }
    let caps = cap.borrow();
    let lossy = it.aborted || outs.iter().any(|o| o.0.pc_loss() > 0) || caps.iter().any(|c| c.0.pc_loss() > 0);
    if lossy || (outs.is_empty() && !it.unmod.is_empty()) {
        for p in props {
            rep.und(p, &format!("{}: precision lost", what));
        }
        return;
    }
    let want: Vec<&Int> = bl.iter().zip(&il).flat_map(|(b, i)| i[..b.1 as usize].iter().map(|k| &words[*k])).collect();
    if has("C26") {
        if caps.is_empty() {
            let why = outs.iter().map(|o| short(&o.1)).chain(it.ob.iter().filter(|o| o.1.fail > 0).map(|(k, o)| format!("{} in {}: {}", k.kind, k.func, o.detail))).next().unwrap_or_default();
            rep.viol("C26", "damage within the correction capacity is not repaired", &format!("{}: {}", what, why));
        }
        for (_, a, _) in caps.iter() {
            let Some(b) = bytes_of(&a[0]) else {
                rep.und("C26", &format!("{}: payload bytes not resolved", what));
                continue;
            };
            rep.count("C26", "payload bytes compared", b.len() as u64);
            if let Some(k) = (0..b.len().max(want.len())).find(|k| b.get(*k) != want.get(*k).copied()) {
                if b.get(k).map_or(false, |x| x.loss() > 0) {
                    rep.und("C26", &format!("{}: payload byte {} not resolved", what, k));
                } else {
                    rep.viol("C26", "damage within the correction capacity is repaired wrongly", &format!("{}: payload byte {} is {}", what, k, b.get(k).map(show_int).unwrap_or("missing".into())));
                }
            }
        }
    }
    if info {
        let bits: u32 = errs.iter().map(|e| e.1.count_ones()).sum();
        let expect = [("version", v as i128), ("error correction level", l as i128), ("number of data bits", want.len() as i128 * 8), ("number of wrong bits", bits as i128)];
        for (_, o) in &outs {
            let Val::En(e) = o else {
                rep.und("C11", &format!("{}: outcome not resolved", what));
                continue;
            };
            if e.var == 1 {
                rep.viol("C11", "repairable symbol without information", &format!("{}: {}", what, short(o)));
                continue;
            }
            let Val::Agg(a) = &e.f[0] else { continue };
            for (k, (n, w)) in expect.iter().enumerate() {
                rep.count("C11", "reported numbers compared", 1);
                if a[k + 1] != Val::c(*w) {
                    if a[k + 1].loss() > 0 {
                        rep.und("C11", &format!("{}: {} not resolved", what, n));
                    } else {
                        rep.viol("C11", &format!("reported {} is wrong", n), &format!("{}: {} instead of {}", what, short(&a[k + 1]), w));
                    }
                }
            }
        }
    }
}
/// outcome of one decoder on a symbol, its payload replaced by a short text
struct Seen {
    /// payload bytes and version on each way to the payload decoder
    pay: Vec<(Rc<Vec<Lit>>, Val)>,
    out: Vec<(Rc<Vec<Lit>>, Val)>,
    lossy: bool,
    why: String,
}
fn watch(name: &str, args: Vec<Val>, parts: bool) -> Option<Seen> {
    let big = args.get(2).map_or(false, |v| matches!(v, Val::I(Int::C(v)) if *v >= 10));
    let cap: Cap = Default::default();
    let mut it = Interp::new();
    it.autopin = true;
    let ch = callee_of("root_chomp_new")?;
    // byte mode, two bytes "Hi", end
    let text: &[i128] = if big { &[0x40, 0x00, 0x24, 0x86, 0x90] } else { &[0x40, 0x24, 0x86, 0x90] };
    let with = Val::vec(text.iter().map(|x| Val::c(*x)).collect());
    it.hooks = Some(Box::new(SwapHook { id: ch.id, cap: cap.clone(), with }));
    let f = body_of(&root(name))?;
    let outs = it.run_fn(State::new(), &f, args);
    let lossy = it.aborted || (!it.unmod.is_empty() && outs.is_empty());
    let why = it.unmod.keys().next().cloned().unwrap_or_default();
    let pay = cap.borrow().iter().map(|c| (c.0.pc.clone(), c.1[0].clone())).collect();
    let out = outs
        .iter()
        .map(|(s, o)| {
            let o = match o {
                // the text alone
                Val::En(e) if e.var == 0 && parts => match &e.f[0] {
                    Val::Agg(a) => Val::ok(a[0].clone()),
                    _ => o.clone(),
                },
                _ => o.clone(),
            };
            (s.pc.clone(), o)
        })
        .collect();
    Some(Seen { pay, out, lossy, why })
}
/// C10: both decoders on the same input
fn same(rep: &mut Rep, p: &str, what: &str, a: Option<Seen>, b: Option<Seen>, exact: bool) {
    let (Some(a), Some(b)) = (a, b) else {
        rep.und(p, &format!("{}: entry points not found", what));
        return;
    };
    rep.count(p, "inputs compared", 1);
    if a.lossy || b.lossy {
        rep.und(p, &format!("{}: precision lost {} {}", what, a.why, b.why));
        return;
    }
    let loss = |x: &Seen| x.out.iter().chain(x.pay.iter()).any(|(pc, v)| v.loss() > 0 || pc.iter().any(|c| cond_loss(c.0) > 0));
    if exact && (loss(&a) || loss(&b)) {
        rep.und(p, &format!("{}: precision lost", what));
        return;
    }
    let name = |v: &Val| match v {
        Val::En(e) if e.var == 0 => "text".to_string(),
        v => short(v),
    };
    if exact {
        rep.count(p, "payloads compared", a.pay.len() as u64);
        for (x, y, k) in [(&a, &b, "with information"), (&b, &a, "plain")] {
            for (pc, v) in &x.pay {
                if !y.pay.iter().any(|z| z.0 == *pc && z.1 == *v) {
                    rep.viol(p, &format!("the {} decoder hands on other payload bytes", k), &format!("{}: {}", what, short(v)));
                    return;
                }
            }
            for (_, v) in &x.out {
                if !y.out.iter().any(|z| z.1 == *v) {
                    rep.viol(p, &format!("the {} decoder has another outcome", k), &format!("{}: {}", what, short(v)));
                    return;
                }
            }
        }
    } else {
        // arbitrary damage: the kinds of outcome
        let kinds = |x: &Seen| x.out.iter().map(|o| name(&o.1)).collect::<std::collections::BTreeSet<_>>();
        let (k, l) = (kinds(&a), kinds(&b));
        if a.out.iter().chain(&b.out).any(|o| !matches!(o.1, Val::En(_)) || name(&o.1).contains('?')) {
            rep.und(p, &format!("{}: outcomes not resolved", what));
        } else if k != l {
            rep.viol(p, "the decoders have different kinds of outcomes", &format!("{}: {:?} and {:?}", what, k, l));
        }
    }
}
pub fn agree(v: u32, l: usize, m: u32, errs: &[(usize, u8)], rep: &mut Rep, p: &str) {
    let what = describe(v, l, m, errs);
    let one = |n: &str, parts: bool| {
        let (d, _) = build(v, l, m, errs);
        let r = watch(n, vec![Val::sh(Val::agg(vec![])), Val::vec(d), Val::c(v as i128)], parts);
        forget_sums();
        r
    };
    same(rep, p, &what, one("root_decode", false), one("root_decode_parts", true), true);
}
pub fn agree_other(rep: &mut Rep, p: &str) {
    let me = || Val::sh(Val::agg(vec![]));
    // an extraction error
    let e = Val::err(Val::agg(vec![Val::str("extraction error")]));
    let (a, b) = (watch("root_decode_raw", vec![me(), e.clone()], false), watch("root_decode_info_raw", vec![me(), e.clone()], true));
    same(rep, p, "an extraction error", a, b, true);
    // unreadable format information
    for v in [1, 7, 25] {
        let d = || Val::vec(symbol(v, Some(&bad_format()), Some(&bad_format())));
        let (a, b) = (watch("root_decode", vec![me(), d(), Val::c(v as i128)], false), watch("root_decode_parts", vec![me(), d(), Val::c(v as i128)], true));
        same(rep, p, &format!("version {}, unreadable format information", v), a, b, true);
    }
    // unknown versions
    for v in [0u32, 41] {
        let d = || Val::vec(vec![Val::c(0); ((4 * v + 17) * (4 * v + 17)) as usize]);
        let (a, b) = (watch("root_decode", vec![me(), d(), Val::c(v as i128)], false), watch("root_decode_parts", vec![me(), d(), Val::c(v as i128)], true));
        same(rep, p, &format!("version {}", v), a, b, true);
    }
    // arbitrary damage
    for (v, l) in [(1, 0), (1, 1), (1, 2), (1, 3), (2, 1), (3, 2)] {
        let fb = iso::format_bits(l, v);
        let d = || Val::vec(symbol(v, Some(&fb), Some(&fb)));
        let (a, b) = (watch("root_decode", vec![me(), d(), Val::c(v as i128)], false), watch("root_decode_parts", vec![me(), d(), Val::c(v as i128)], true));
        same(rep, p, &format!("version {} level {}, arbitrary damage", v, iso::LVL_NAME[l]), a, b, false);
    }
}
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}
/// `k` distinct damaged codewords of block `b`; with `zero` the errors add up to zero
pub fn pattern(r: &mut Rng, v: u32, l: usize, b: usize, k: u32, zero: bool) -> Vec<(usize, u8)> {
    let il = iso::interleave(v, l);
    let ix = &il[b];
    loop {
        let mut e: Vec<(usize, u8)> = vec![];
        while e.len() < k as usize {
            let i = ix[r.below(ix.len() as u64) as usize];
            if e.iter().all(|x| x.0 != i) {
                e.push((i, r.below(255) as u8 + 1));
            }
        }
        if zero {
            let x = e.iter().fold(0, |a, b| a ^ b.1) ^ e[0].1;
            if x == 0 {
                continue;
            }
            e[0].1 = x;
        }
        return e;
    }
}
pub fn jobs(seed: u64, thorough: bool) -> Vec<(u32, usize, u32, Vec<(usize, u8)>)> {
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let mut j = vec![];
    let n = if thorough { 8 } else { 1 };
    for l in 0..4usize {
        let b = iso::blocks(1, l)[0];
        // each codeword alone
        for i in 0..b.0 as usize {
            for _ in 0..n {
                j.push((1, l, r.below(8) as u32, vec![(i, r.below(255) as u8 + 1)]));
            }
        }
        for k in 2..=b.2 {
            for z in 0..(if k == b.2 { 12 } else { 4 }) * n {
                j.push((1, l, r.below(8) as u32, pattern(&mut r, 1, l, 0, k, z % 2 == 0)));
            }
        }
    }
    // several blocks, larger capacities
    for (v, l) in [(2, 3), (3, 2), (4, 1), (5, 2), (5, 3), (7, 0), (7, 3), (10, 0), (12, 3), (14, 1), (20, 3), (27, 0)] {
        let bl = iso::blocks(v, l);
        for t in 0..2 * n {
            let mut e = vec![];
            for (b, x) in bl.iter().enumerate() {
                let k = match (t, b % 3) {
                    (0, _) => x.2,
                    (_, 0) => 0,
                    (_, 1) => 1,
                    _ => x.2 / 2,
                };
                if k > 0 {
                    e.extend(pattern(&mut r, v, l, b, k, k > 1 && (b + t) % 2 == 1));
                }
            }
            j.push((v, l, r.below(8) as u32, e));
        }
    }
    j
}
/// every combination of version and level: the first and the last block damaged as far as they can be
pub fn full_jobs(seed: u64) -> Vec<(u32, usize, u32, Vec<(usize, u8)>)> {
    let mut r = Rng(seed.wrapping_mul(0xD1B54A32D192ED03) | 1);
    let mut j = vec![];
    for v in 2..=40 {
        for l in 0..4usize {
            let bl = iso::blocks(v, l);
            let mut e = pattern(&mut r, v, l, 0, bl[0].2, false);
            if bl.len() > 1 {
                e.extend(pattern(&mut r, v, l, bl.len() - 1, bl[bl.len() - 1].2, true));
            }
            j.push((v, l, r.below(8) as u32, e));
        }
    }
    j
}
/// C17: whatever was read, the bytes handed to the payload decoder are part of a word for which
/// every syndrome was compared with zero
pub fn checked_symbol(v: u32, l: usize, m: u32, rootn: &str, rep: &mut Rep, p: &str) {
    let fb = iso::format_bits(l, m);
    let what = format!("version {} level {} mask {} ({})", v, iso::LVL_NAME[l], m, rootn);
    let Some(r) = run_decode(rootn, v, symbol(v, Some(&fb), Some(&fb)), false) else {
        rep.und(p, "entry points not found");
        return;
    };
    rep.count(p, "symbols with arbitrary damage", 1);
    rep.count(p, "abstract steps", r.it.steps);
    if r.it.aborted || r.caps.is_empty() || !r.it.unmod.is_empty() {
        rep.und(p, &format!("{}: precision lost {:?}", what, r.it.unmod.keys().next()));
        return;
    }
    let bl = iso::blocks(v, l);
    for (st, a, path) in &r.caps {
        let tag = format!("{} [{}]", what, path);
        let Some(bytes) = bytes_of(&a[0]) else {
            rep.und(p, &format!("{}: payload bytes not resolved", tag));
            continue;
        };
        if bytes.len() as u32 != bl.iter().map(|b| b.1).sum::<u32>() {
            rep.und(p, &format!("{}: number of payload bytes not resolved", tag));
            continue;
        }
        rep.count(p, "ways to the payload decoder", 1);
        let facts: Vec<Rc<Lin>> = st
            .pc
            .iter()
            .filter(|x| x.1)
            .filter_map(|x| match cond_def(x.0) {
                Cond::LinEq0(l) => Some(l),
                _ => None,
            })
            .collect();
        let mut k = 0;
        for (bi, b) in bl.iter().enumerate() {
            let d: Vec<Lin> = bytes[k..k + b.1 as usize].iter().map(|x| x.lin()).collect();
            k += b.1 as usize;
            if d.iter().any(|x| x.t.len() != 1) {
                rep.und(p, &format!("{}: block {} has bytes that are no single terms", tag, bi));
                continue;
            }
            let n = b.0;
            let mut pos: std::collections::HashMap<Atom, u32> = Default::default();
            let mut missing = vec![];
            for j in 0..2 * b.2 {
                rep.count(p, "syndrome comparisons required", 1);
                let found = facts.iter().find(|f| {
                    if f.t.len() as u32 != n {
                        return false;
                    }
                    let co = |a: Atom| f.t.binary_search_by_key(&a, |x| x.0).ok().map(|i| f.t[i].1);
                    let Some(s) = co(d[0].t[0].0).map(|c| gf_mul(c, gf_inv(gf_mul(d[0].t[0].1, gf_pow(j * (n - 1) % 255))))) else { return false };
                    let data = (0..d.len()).all(|i| co(d[i].t[0].0) == Some(gf_mul(s, gf_mul(d[i].t[0].1, gf_pow(j * (n - 1 - i as u32) % 255)))));
                    if !data {
                        return false;
                    }
                    // the remaining terms: one for each other position
                    let si = gf_inv(s);
                    f.t.iter().filter(|x| d.iter().all(|y| y.t[0].0 != x.0)).all(|x| {
                        let c = gf_mul(x.1, si);
                        if j == 0 {
                            return c == 1;
                        }
                        match pos.get(&x.0) {
                            Some(i) => c == gf_pow(j * (n - 1 - i) % 255),
                            None => {
                                let i = (b.1..n).find(|i| c == gf_pow(j * (n - 1 - i) % 255) && !pos.values().any(|q| q == i));
                                i.map(|i| pos.insert(x.0, i)).is_some()
                            }
                        }
                    })
                });
                if found.is_none() {
                    missing.push(j);
                }
            }
            if missing.is_empty() {
                continue;
            }
            // comparisons hidden in other decisions?
            let mine: Vec<Atom> = d.iter().map(|x| x.t[0].0).collect();
            let hidden = st.pc.iter().any(|x| {
                !matches!(cond_def(x.0), Cond::LinEq0(_))
                    && lin_mentions(x.0).0.iter().any(|c| match cond_def(*c) {
                        Cond::LinEq0(l) => l.t.iter().any(|t| mine.contains(&t.0)) && !facts.contains(&l),
                        _ => false,
                    })
            });
            let d = format!("{}: block {}: {} of {} syndromes are not known to be zero (syndrome {} first)", tag, bi, missing.len(), 2 * b.2, missing[0]);
            if hidden {
                rep.und(p, &d);
            } else {
                rep.viol(p, "a block reaches the payload decoder without all its syndromes being zero", &d);
            }
        }
    }
}
/// what the judgement over all payloads leaves open: constants instead of unknown payloads
pub fn constants(v: u32, l: usize, m: u32, errs: &[(usize, u8)], rep: &mut Rep, ps: &[&str]) {
    let (bl, il, pl, s) = (iso::blocks(v, l), iso::interleave(v, l), iso::placement(v), iso::side(v));
    let n: usize = bl.iter().map(|b| b.1 as usize).sum();
    let mut r = Rng(0x51f3_7a11 ^ (v as u64) << 20 ^ (l as u64) << 8 ^ m as u64);
    let kinds: Vec<(&str, Vec<u8>)> = vec![
        ("padding behind a text", (0..n).map(|i| if i < n / 3 { 0x40 + i as u8 } else { [0xEC, 0x11][(i - n / 3) % 2] }).collect()),
        ("zeros", vec![0; n]),
        ("ones", vec![0xFF; n]),
        ("arbitrary bytes", (0..n).map(|_| r.next() as u8).collect()),
        ("zeros behind a text", (0..n).map(|i| if i < n / 2 { 0x31 } else { 0 }).collect()),
        ("zeros before a text", (0..n).map(|i| if i > n / 2 { 0x31 } else { 0 }).collect()),
        ("a last byte of 0x11", (0..n).map(|i| if i + 1 < n { 7 + i as u8 } else { 0x11 }).collect()),
        ("a last byte of 0xec", (0..n).map(|i| if i + 1 < n { 9 + i as u8 } else { 0xEC }).collect()),
        ("equal bytes", vec![0x20; n]),
    ];
    for (k, (name, data)) in kinds.into_iter().enumerate() {
        if v > 8 && (k as u32 + v + l as u32) % 3 != 0 {
            continue;
        }
        let mut words = vec![0u8; pl.len() / 8];
        let mut at = 0;
        for (b, ix) in bl.iter().zip(&il) {
            let t = (b.0 - b.1) as usize;
            let mut g = vec![1u8];
            for i in 0..t {
                let mut q = vec![0; g.len() + 1];
                for (j, c) in g.iter().enumerate() {
                    q[j] ^= c;
                    q[j + 1] ^= gf_mul(*c, gf_pow(i as u32));
                }
                g = q;
            }
            let mut w: Vec<u8> = data[at..at + b.1 as usize].to_vec();
            at += b.1 as usize;
            w.resize(b.0 as usize, 0);
            let mut rem = w.clone();
            for i in 0..b.1 as usize {
                let c = rem[i];
                for (j, x) in g.iter().enumerate() {
                    rem[i + j] ^= gf_mul(c, *x);
                }
            }
            w[b.1 as usize..].copy_from_slice(&rem[b.1 as usize..]);
            for (i, x) in ix.iter().zip(w) {
                words[*i] = x;
            }
        }
        for (i, e) in errs {
            words[*i] ^= e;
        }
        let fb = iso::format_bits(l, m);
        let mut d = symbol(v, Some(&fb), Some(&fb));
        for (i, w) in words.iter().enumerate() {
            for (j, (x, y)) in pl[i * 8..i * 8 + 8].iter().enumerate() {
                let dark = (w >> (7 - j) & 1 == 1) != iso::masked(m, *x, *y);
                d[(y * s + x) as usize] = Val::c(if dark { 0 } else { 255 });
            }
        }
        let Some(run) = run_decode("root_decode", v, d, false) else { return };
        for p in ps {
            rep.count(p, "counterexamples tried", 1);
        }
        if run.it.aborted || run.outs.iter().any(|o| o.0.pc_loss() > 0) {
            continue;
        }
        let what = format!("{}, payload: {}", describe(v, l, m, errs), name);
        let got: Vec<Option<Vec<u8>>> = run.caps.iter().map(|c| bytes_of(&c.1[0]).and_then(|b| b.iter().map(|x| x.c().map(|c| c as u8)).collect())).collect();
        if got.is_empty() && run.it.unmod.is_empty() {
            for p in ps {
                rep.viol(p, "a proper symbol does not reach the payload decoder", &what);
            }
        }
        if let [Some(g)] = &got[..] {
            if *g != data {
                for p in ps {
                    rep.viol(p, "other bytes than the data codewords reach the payload decoder", &what);
                }
            }
        }
    }
}
