//! C01: the decoder never ends abnormally.
use crate::decode_scen::*;
use crate::interp::*;
use crate::ir::body_of;
use crate::roots::root;
use crate::scen::Rep;
use crate::term::*;
use crate::val::*;

pub fn judge(it: &Interp, what: &str, rep: &mut Rep, p: &str) {
    let exact = it.unmod.is_empty() && !it.aborted;
    rep.count(p, "obligations", it.ob.len() as u64);
    rep.count(p, "abstract steps", it.steps);
    if !exact {
        rep.und(p, &format!("{}: not resolved ({:?})", what, it.unmod.keys().next()));
    }
    for (k, o) in &it.ob {
        if o.fail == 0 || !o.local {
            continue;
        }
        if o.fail == 1 && o.definite && exact {
            rep.viol(p, &format!("{} in {}", k.kind, k.func), &format!("{}: {}", what, o.detail));
        } else if what.ends_with("any length") && o.fail > 1 {
            rep.item(p, &format!("not decided for payloads of more than three bytes in general: {} in {}", k.kind, k.func));
        } else {
            rep.und(p, &format!("{} in {} ({}): {}", k.kind, k.func, what, o.detail));
        }
    }
    if std::env::var("BV_DBG").is_ok() {
        println!("{} steps {} obligations {}", what, it.steps, it.ob.len());
        for (k, n) in &it.notes { println!("NOTE {} {}", k, n); }
        for (k, n) in &it.unmod { println!("UNMOD {} {}", k, n); }
        for (k, o) in &it.ob {
            if o.fail > 0 {
                println!("  {} fail {} definite {} local {} {} {}: {}", k.func, o.fail, o.definite, o.local, k.kind, k.at, o.detail);
            }
        }
    }
}
/// everything up to the payload decoder, all modules unknown; the format information of level and mask, or unknown
pub fn modules(v: u32, f: Option<(usize, u32)>, rootn: &str, rep: &mut Rep, p: &str) {
    let d = match f {
        Some((l, m)) => {
            let fb = crate::iso::format_bits(l, m);
            symbol(v, Some(&fb), Some(&fb))
        }
        None => symbol(v, None, None),
    };
    let Some(r) = run_decode(rootn, v, d, false) else {
        rep.und(p, "entry points not found");
        return;
    };
    rep.count(p, "symbols", 1);
    let what = format!("{} version {} format {:?}", rootn, v, f.map(|f| (crate::iso::LVL_NAME[f.0], f.1)));
    judge(&r.it, &what, rep, p);
    if r.outs.is_empty() && r.caps.is_empty() && r.it.unmod.is_empty() && !r.it.aborted {
        rep.viol(p, "decoding never returns", &what);
    }
}
/// the payload decoder over any bytes: exactly `n` of them, or any number
pub fn payload(v: u32, n: Option<usize>, rep: &mut Rep, p: &str) {
    let Some(e) = crate::seg_scen::entry(v) else {
        rep.und(p, "payload decoder not found");
        return;
    };
    let Some(f) = body_of(&e.f) else { return };
    let byte = |k: u32| Val::I(Int::of_bits((0..8).map(|b| Bit::L(base(5, k * 8 + b), false)).collect()));
    let data = match n {
        Some(n) => Val::vec((0..n as u32).map(byte).collect()),
        None => Val::Seq(std::rc::Rc::new(Seq::Sum { len: Int::of_atom(fresh_atom(0, 1 << 40, 0)), el: Val::I(Int::of_atom(fresh_atom(0, 255, 0))) })),
    };
    let mut args = e.args.clone();
    args[e.at] = if e.by_ref { Val::sh(data) } else { data };
    let mut it = Interp::new();
    if n.is_some() {
        it.max_parts = 20_000;
        it.pin_all = true;
    }
    let outs = it.run_fn(State::new(), &f, args);
    rep.count(p, "payloads", 1);
    let what = format!("payload of version {}, {}", v, n.map(|n| format!("{} bytes", n)).unwrap_or("any length".into()));
    judge(&it, &what, rep, p);
    if outs.is_empty() && it.unmod.is_empty() && !it.aborted {
        rep.viol(p, "decoding a payload never returns", &what);
    }
    let _ = root;
}
/// everything up to the payload decoder, no damage
pub fn clean(v: u32, l: usize, m: u32, rep: &mut Rep, p: &str) {
    let rootn = ["root_decode", "root_decode_info"][(v as usize + l) % 2];
    let fb = crate::iso::format_bits(l, m);
    let Some(r) = run_decode(rootn, v, symbol(v, Some(&fb), Some(&fb)), true) else {
        rep.und(p, "entry points not found");
        return;
    };
    rep.count(p, "symbols", 1);
    let what = format!("{} version {} level {} mask {}", rootn, v, crate::iso::LVL_NAME[l], m);
    judge(&r.it, &what, rep, p);
    if r.outs.is_empty() && r.caps.is_empty() && r.it.unmod.is_empty() && !r.it.aborted {
        rep.viol(p, "decoding never returns", &what);
    }
}
/// a version the standard does not have
pub fn unknown_version(v: i128, side: i128, rep: &mut Rep, p: &str) {
    for rootn in ["root_decode", "root_decode_info"] {
        let Some(f) = body_of(&root(rootn)) else { return };
        let d: Vec<Val> = (0..side * side).map(|i| Val::I(Int::of_bits(vec![Bit::L(base(1, i as u32), true); 8]))).collect();
        let mut it = Interp::new();
        it.lin_zero = true;
        let outs = it.run_fn(State::new(), &f, vec![Val::sh(Val::agg(vec![])), Val::vec(d), Val::c(v)]);
        rep.count(p, "unknown versions", 1);
        let what = format!("{} version {}", rootn, v);
        judge(&it, &what, rep, p);
        if outs.is_empty() && it.unmod.is_empty() && !it.aborted {
            rep.viol(p, "decoding never returns", &what);
        }
    }
}
/// a symbol with the given errors, all payloads at once
pub fn damage(v: u32, l: usize, m: u32, errs: &[(usize, u8)], rootn: &str, rep: &mut Rep, p: &str) {
    let what = format!("{} {}", rootn, crate::damage_scen::describe(v, l, m, errs));
    let (d, _) = crate::damage_scen::build(v, l, m, errs);
    let (Some(ch), Some(f)) = (callee_of("root_chomp_new"), body_of(&root(rootn))) else { return };
    let mut it = Interp::new();
    let cap: Cap = Default::default();
    it.hooks = Some(Box::new(CapHook { id: ch.id, cap: cap.clone() }));
    let outs = it.run_fn(State::new(), &f, vec![Val::sh(Val::agg(vec![])), Val::vec(d), Val::c(v as i128)]);
    forget_sums();
    rep.count(p, "damaged symbols", 1);
    judge(&it, &what, rep, p);
    if outs.is_empty() && cap.borrow().is_empty() && it.unmod.is_empty() && !it.aborted {
        rep.viol(p, "decoding never returns", &what);
    }
}
/// damage that leaves chosen syndromes zero, or is beyond the correction capacity
pub fn hostile(seed: u64, deep: bool) -> Vec<(u32, usize, u32, Vec<(usize, u8)>)> {
    let mut r = crate::damage_scen::Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let mut j = vec![];
    for (v, l) in [(1u32, 0usize), (1, 1), (1, 2), (1, 3), (2, 3), (3, 2), (5, 1)] {
        let b = crate::iso::blocks(v, l)[0];
        let ix = &crate::iso::interleave(v, l)[0];
        let (n, t) = (b.0 as usize, 2 * b.2 as usize);
        // factors of the error polynomial: the syndromes that stay zero
        let mut zs: Vec<Vec<usize>> = vec![];
        for k in 0..=t {
            zs.push((0..k).collect());
            zs.push((k..t).collect());
            zs.push((0..t).filter(|i| *i != k).collect());
            if k > 0 && k <= 4 {
                zs.push((0..t).filter(|i| i % k == 0).collect());
                zs.push((0..t).filter(|i| i % k != 0).collect());
            }
        }
        for _ in 0..if deep { 30 } else { 4 } {
            let s = r.next();
            zs.push((0..t).filter(|i| s >> i & 1 == 1).collect());
        }
        for z in zs {
            let mut e = vec![r.below(255) as u8 + 1];
            for k in &z {
                // times (x - a^k)
                let mut q = vec![0; e.len() + 1];
                for (i, c) in e.iter().enumerate() {
                    q[i + 1] ^= c;
                    q[i] ^= gf_mul(*c, gf_pow(*k as u32));
                }
                e = q;
            }
            if e.len() > n {
                continue;
            }
            let off = r.below((n - e.len() + 1) as u64) as usize;
            // power i of x belongs to position n - 1 - i
            let errs = e.iter().enumerate().filter(|x| *x.1 != 0).map(|(i, c)| (ix[n - 1 - (i + off)], *c)).collect();
            j.push((v, l, r.below(8) as u32, errs));
        }
        // errors that look like a few errors, one of them outside of the block
        for far in [n, n + 1, n + 2, 200, 254] {
            for extra in 0..b.2.min(if deep { 8 } else { 3 }) {
                // the generator polynomial, lowest power first
                let mut g = vec![1u8];
                for k in 0..t {
                    let mut q = vec![0; g.len() + 1];
                    for (i, c) in g.iter().enumerate() {
                        q[i + 1] ^= c;
                        q[i] ^= gf_mul(*c, gf_pow(k as u32));
                    }
                    g = q;
                }
                let mut e = vec![0u8; far + 1];
                e[far] = r.below(255) as u8 + 1;
                for i in (t..=far).rev() {
                    let c = e[i];
                    for (k, x) in g.iter().enumerate() {
                        e[i - t + k] ^= gf_mul(c, *x);
                    }
                }
                e.resize(n, 0);
                for _ in 0..extra {
                    e[r.below(n as u64) as usize] ^= r.below(255) as u8 + 1;
                }
                let errs = e.iter().enumerate().filter(|x| *x.1 != 0).map(|(i, c)| (ix[n - 1 - i], *c)).collect();
                j.push((v, l, r.below(8) as u32, errs));
            }
        }
        for k in [b.2 + 1, b.2 + 2, 2 * b.2, 2 * b.2 + 1, b.0 / 2, b.0] {
            for z in 0..if deep { 20 } else { 3 } {
                if k <= b.0 {
                    j.push((v, l, r.below(8) as u32, crate::damage_scen::pattern(&mut r, v, l, 0, k, z == 1)));
                }
            }
        }
    }
    j
}
/// damaged format information, all format words at once
pub fn format_damage(e1: u32, e2: u32, few: Option<u32>, rep: &mut Rep, p: &str) {
    let v = 1;
    let s = crate::iso::side(v);
    let mut d = symbol(v, None, None);
    for (c, e) in [(1, e1), (2, e2)] {
        for ((x, y), b) in crate::iso::format_pos(v, c).iter().zip(format_word(e)) {
            d[(y * s + x) as usize] = Val::I(Int::of_bits(vec![crate::ops::bit_xor_bit(b, Bit::O); 8]));
        }
    }
    let facts: Vec<(CondId, bool)> = few.map(|n| (0..3).map(|k| (base(3, (n + k) % 5), n >> (5 + k) & 1 == 1)).collect()).unwrap_or_default();
    let Some(r) = run_decode_p("root_decode", v, d, true, 64, &facts) else { return };
    rep.count(p, "classes of format errors", 1);
    let what = format!("format copy 1 with error {:015b}, copy 2 with error {:015b}", e1, e2);
    judge(&r.it, &what, rep, p);
    if r.outs.is_empty() && r.caps.is_empty() && r.it.unmod.is_empty() && !r.it.aborted {
        rep.viol(p, "decoding never returns", &what);
    }
}
/// payloads of one version
pub fn streams(v: u32, deep: bool, rep: &mut Rep, p: &str) {
    let Some(e) = crate::seg_scen::entry(v) else {
        rep.und(p, "payload decoder not found");
        return;
    };
    let mut all = crate::seg_scen::streams(v, deep);
    all.extend(crate::seg_scen::long_streams(v, deep));
    for s in &all {
        crate::seg_scen::ends(&e, v, s, rep, p);
    }
}
