//! Scenarios over the whole decoding path: what reaches the payload decoder.
use crate::interp::*;
use crate::ir::*;
use crate::iso;
use crate::ops::{self, Tr};
use crate::roots::root;
use crate::scen::Rep;
use crate::term::*;
use crate::val::*;
use rustc_public::ty::Ty;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub type Cap = Rc<RefCell<Vec<(State, Vec<Val>, String)>>>;
/// record the arguments of a function and end the path there
pub struct CapHook {
    pub id: usize,
    pub cap: Cap,
}
impl Hooks for CapHook {
    fn call(&mut self, it: &mut Interp, st: &mut State, f: &Rc<FnRef>, args: &mut Vec<Val>, _r: Ty) -> Option<Outs> {
        if f.id == self.id {
            let path = call_path(it, st);
            self.cap.borrow_mut().push((st.clone(), args.clone(), path));
            return Some(vec![]);
        }
        None
    }
}
/// the call chain of a state, with source files
pub fn call_path(_it: &Interp, st: &State) -> String {
    st.fr
        .iter()
        .filter(|f| f.f.fr.krate == "bardecoder")
        .map(|f| {
            let a = f.f.blocks.first().map(|b| at(b.tm.1)).unwrap_or_default();
            let file = a.split(':').next().unwrap_or("").rsplit("/repo/").next().unwrap_or("").to_string();
            format!("{} ({})", f.f.fr.path.replace("bardecoder::", ""), file)
        })
        .collect::<Vec<_>>()
        .join(" > ")
}
/// the function a root calls directly
pub fn callee_of(name: &str) -> Option<Rc<FnRef>> {
    let b = body_of(&root(name))?;
    for bl in &b.blocks {
        if let Tm::Call { f: Callee::Fun(g), .. } = &bl.tm.0 {
            if g.krate == "bardecoder" {
                return Some(g.clone());
            }
        }
    }
    None
}
pub fn module_lit(v: u32, x: u32, y: u32) -> CondId {
    base(1, y * iso::side(v) + x)
}
pub fn module_of(v: u32, c: CondId) -> Option<(u32, u32)> {
    match cond_def(c) {
        Cond::Base(1, n) => Some((n % iso::side(v), n / iso::side(v))),
        _ => None,
    }
}
pub fn symbol(v: u32, copy1: Option<&[u8]>, copy2: Option<&[u8]>) -> Vec<Val> {
    let s = iso::side(v);
    // pixels: 0 is a dark module (bit 1), 255 a light one
    let mut d: Vec<Val> = (0..s * s).map(|i| Val::I(Int::of_bits(vec![Bit::L(base(1, i), true); 8]))).collect();
    for (c, b) in [(1, copy1), (2, copy2)] {
        if let Some(b) = b {
            for (k, (x, y)) in iso::format_pos(v, c).iter().enumerate() {
                d[(y * s + x) as usize] = Val::c(if b[k] == 1 { 0 } else { 255 });
            }
        }
    }
    d
}
pub struct Run {
    pub caps: Vec<(State, Vec<Val>, String)>,
    pub outs: Outs,
    pub lin: HashSet<CondId>,
    pub it: Interp,
}
pub fn run_decode(rootn: &str, v: u32, data: Vec<Val>, clean: bool) -> Option<Run> {
    run_decode_p(rootn, v, data, clean, 12, &[])
}
pub fn run_decode_p(rootn: &str, v: u32, data: Vec<Val>, clean: bool, parts: usize, facts: &[(CondId, bool)]) -> Option<Run> {
    let cap: Cap = Default::default();
    let mut it = Interp::new();
    it.lin_zero = clean;
    it.autopin = !clean;
    it.max_parts = parts;
    if parts > 12 {
        it.pin = (0..5).map(|k| base(3, k)).collect();
    }
    let ch = callee_of("root_chomp_new")?;
    it.hooks = Some(Box::new(CapHook { id: ch.id, cap: cap.clone() }));
    let f = body_of(&root(rootn))?;
    let mut st = State::new();
    for (c, b) in facts {
        st.assume(Tr::L(*c, !*b));
    }
    let outs = it.run_fn(st, &f, vec![Val::sh(Val::agg(vec![])), Val::vec(data), Val::c(v as i128)]);
    let caps = cap.borrow().clone();
    let lin = it.lin_seen.clone();
    Some(Run { caps, outs, lin, it })
}
fn other_format(l: usize, m: u32) -> Vec<u8> {
    iso::format_bits((l + 1) % 4, (m + 3) % 8)
}
pub fn bytes_of(v: &Val) -> Option<Vec<Int>> {
    match v {
        Val::Seq(s) => match s.as_ref() {
            Seq::Ex(v) => v
                .iter()
                .map(|x| match x {
                    Val::I(i) => Some(i.clone()),
                    _ => None,
                })
                .collect(),
            _ => None,
        },
        _ => None,
    }
}
/// one version, level and mask: everything between the symbol and the payload decoder.
/// `which` selects the copy of the format information that is intact.
pub fn clean_symbol(v: u32, l: usize, m: u32, which: u32, rep: &mut Rep, props: &[&str]) {
    clean_any(v, l, m, which, rep, props);
    let ps: Vec<&str> = props.iter().filter(|p| ["C12", "C13", "C14", "C22"].contains(p) && (rep.has_und(p) || std::env::var("BV_REFUTE").is_ok())).copied().collect();
    if !ps.is_empty() {
        crate::damage_scen::constants(v, l, m, &[], rep, &ps);
    }
}
fn clean_any(v: u32, l: usize, m: u32, which: u32, rep: &mut Rep, props: &[&str]) {
    let has = |p: &str| props.contains(&p);
    let tag = format!("version {} level {} mask {}", v, iso::LVL_NAME[l], m);
    let fb = iso::format_bits(l, m);
    let (c1, c2) = if which == 1 { (fb.clone(), other_format(l, m)) } else { (bad_format(), fb.clone()) };
    let Some(r) = run_decode("root_decode", v, symbol(v, Some(&c1), Some(&c2)), true) else {
        for p in props {
            rep.und(p, "entry points not found");
        }
        return;
    };
    for p in props {
        rep.count(p, "symbol configurations", 1);
        rep.count(p, "abstract steps", r.it.steps);
    }
    let place = |rep: &mut Rep, key: &str, detail: &str, ps: &[&str]| {
        for p in ps {
            if has(p) {
                rep.viol(p, key, detail);
            }
        }
    };
    if r.caps.is_empty() || r.it.aborted {
        let lossy = r.it.aborted || r.outs.iter().any(|(s, _)| s.pc_loss() >= 2) || (r.outs.is_empty() && !r.it.unmod.is_empty());
        if lossy {
            for p in props {
                rep.und(p, &format!("{}: payload not reached (precision lost)", tag));
            }
        } else {
            let why = r
                .outs
                .iter()
                .map(|(_, v)| short(v))
                .chain(r.it.ob.iter().filter(|o| o.1.fail > 0 && o.1.definite).map(|(k, o)| format!("{} at {} in {}: {}", k.kind, k.at, k.func, o.detail)))
                .next()
                .unwrap_or_default();
            place(rep, "symbol without errors is rejected", &format!("{}: intact symbol does not reach the payload decoder: {}", tag, why), &["C12", "C13", "C22", "C15", "C24"]);
        }
        return;
    }
    // expected codewords
    let pl = iso::placement(v);
    let mut at: HashMap<Vec<(u32, u32)>, usize> = HashMap::new();
    for (i, w) in pl.chunks(8).enumerate() {
        at.insert(w.to_vec(), i);
    }
    let bl = iso::blocks(v, l);
    let il = iso::interleave(v, l);
    let want: Vec<usize> = bl.iter().zip(&il).flat_map(|(b, i)| i[..b.1 as usize].to_vec()).collect();
    for (st, args, path) in &r.caps {
        for p in props {
            rep.item(p, &format!("payload call: {}", path));
        }
        let tag = format!("{} [{}]", tag, path);
        let Some(bytes) = bytes_of(&args[0]) else {
            for p in props {
                rep.und(p, &format!("{}: payload bytes not resolved", tag));
            }
            continue;
        };
        if st.pc_loss() > 0 || bytes.iter().any(|b| b.loss() > 0) {
            for p in props {
                rep.und(p, &format!("{}: payload bytes approximated", tag));
            }
            continue;
        }
        let mut seq: Vec<Option<usize>> = vec![];
        for (k, b) in bytes.iter().enumerate() {
            let mods: Option<Vec<((u32, u32), bool)>> = match b {
                Int::B(bits) if bits.len() == 8 => bits
                    .iter()
                    .rev()
                    .map(|x| match x {
                        Bit::L(c, n) => module_of(v, *c).map(|p| (p, *n)),
                        _ => None,
                    })
                    .collect(),
                _ => None,
            };
            let Some(mods) = mods else {
                place(rep, "payload byte is not eight modules", &format!("{}: byte {} of the payload is {}", tag, k, show_int(b)), &["C13"]);
                // polarity may still be judged bit by bit
                if let Int::B(bits) = b {
                    for x in bits.iter() {
                        if let Bit::L(c, n) = x {
                            if let Some((x, y)) = module_of(v, *c) {
                                if *n != iso::masked(m, x, y) {
                                    place(rep, "wrong mask polarity", &format!("{}: module column {} row {}", tag, x, y), &["C14", "C15"]);
                                }
                            }
                        }
                    }
                }
                seq.push(None);
                continue;
            };
            for ((x, y), n) in &mods {
                if has("C14") {
                    rep.count("C14", "module polarities compared", 1);
                }
                if *n != iso::masked(m, *x, *y) {
                    place(rep, &format!("wrong mask polarity for mask {}", m), &format!("{}: module column {} row {} is {}inverted in payload byte {}", tag, x, y, if *n { "" } else { "not " }, k), &["C14", "C15"]);
                }
            }
            let key: Vec<(u32, u32)> = mods.iter().map(|x| x.0).collect();
            match at.get(&key) {
                Some(i) => seq.push(Some(*i)),
                None => {
                    let bad = key.iter().find(|(x, y)| iso::function(v, *x, *y));
                    let d = match bad {
                        Some((x, y)) => format!("{}: payload byte {} uses function module column {} row {}", tag, k, x, y),
                        None => format!("{}: payload byte {} is made of modules {:?}, not a codeword of the standard placement", tag, k, key),
                    };
                    place(rep, "module placement differs from the standard", &d, &["C13", "C24"]);
                    seq.push(None);
                }
            }
        }
        if has("C13") {
            rep.count("C13", "payload bytes compared", bytes.len() as u64);
        }
        if bytes.len() != want.len() {
            place(rep, "wrong number of data codewords", &format!("{}: {} data codewords reach the payload decoder, the standard says {}", tag, bytes.len(), want.len()), &["C12", "C15"]);
        } else if seq.iter().all(|x| x.is_some()) {
            for (k, (a, b)) in seq.iter().zip(&want).enumerate() {
                rep.count("C22", "codeword positions compared", 1);
                if a.unwrap() != *b {
                    place(rep, "codewords delivered in the wrong order", &format!("{}: payload byte {} is transmitted codeword {}, expected {}", tag, k, a.unwrap(), b), &["C22"]);
                    break;
                }
            }
        }
        // parity checks assumed on the way: exactly the syndromes of every block
        if has("C12") || has("C17") {
            let words: Vec<Int> = pl
                .chunks(8)
                .map(|w| Int::of_bits(w.iter().rev().map(|(x, y)| Bit::L(module_lit(v, *x, *y), iso::masked(m, *x, *y))).collect()))
                .collect();
            let mut expect: HashMap<CondId, String> = HashMap::new();
            let mut more: HashSet<CondId> = HashSet::new();
            for (bi, (b, ix)) in bl.iter().zip(&il).enumerate() {
                for j in 0..b.0 - b.1 {
                    let mut s = Int::C(0).lin();
                    for (i, w) in ix.iter().enumerate() {
                        let e = (j * (b.0 - 1 - i as u32)) % 255;
                        s = lin_add(&s, &lin_scale(&words[*w].lin(), gf_pow(e)));
                    }
                    let c = cond(Cond::LinEq0(Rc::new(ops::lin_norm(s))));
                    if j < 2 * b.2 {
                        expect.insert(c, format!("block {} syndrome {}", bi, j));
                    } else {
                        more.insert(c);
                    }
                }
            }
            rep.count("C12", "syndrome forms compared", expect.len() as u64);
            rep.count("C17", "syndrome forms compared", expect.len() as u64);
            let mut miss: Vec<&String> = expect.iter().filter(|(c, _)| !r.lin.contains(c)).map(|x| x.1).collect();
            miss.sort();
            let extra = r.lin.iter().filter(|c| !expect.contains_key(c) && !more.contains(c)).count();
            if let Some(mm) = miss.first() {
                place(
                    rep,
                    "an intact block is accepted without checking every syndrome",
                    &format!("{}: {} of {} syndromes are never compared with zero ({} first)", tag, miss.len(), expect.len(), mm),
                    &["C12", "C17"],
                );
            }
            if extra > 0 && has("C12") {
                let d = format!("{}: {} parity checks that are not syndromes of the standard's blocks", tag, extra);
                place(rep, "blocks are checked against parity checks the standard does not define", &d, &["C12"]);
            }
        }
    }
    if r.caps.len() > 1 {
        for p in props {
            rep.count(p, "extra payload paths", r.caps.len() as u64 - 1);
        }
    }
}
/// fifteen bits at distance at least four from every format word
pub fn bad_format() -> Vec<u8> {
    let words: Vec<Vec<u8>> = (0..4).flat_map(|l| (0..8).map(move |m| iso::format_bits(l, m))).collect();
    for n in 0..1u32 << 15 {
        let b: Vec<u8> = (0..15).rev().map(|i| (n >> i & 1) as u8).collect();
        if words.iter().all(|w| w.iter().zip(&b).filter(|(x, y)| x != y).count() >= 5) {
            return b;
        }
    }
    vec![0; 15]
}

/// the fifteen bits of all format words at once: five unknown message bits, the rest their parities
pub fn format_word(err: u32) -> Vec<Bit> {
    let mut bits = vec![Bit::Z; 15];
    for k in 0..5 {
        // code word of one message bit
        let d = 1u32 << (4 - k);
        let mut rem = d;
        for _ in 0..10 {
            rem = (rem << 1) ^ ((rem >> 9) * 0x537);
        }
        let w = d << 10 | rem;
        for (i, b) in bits.iter_mut().enumerate() {
            if w >> (14 - i) & 1 == 1 {
                *b = ops::bit_xor_bit(*b, Bit::L(base(3, k), false));
            }
        }
    }
    for (i, b) in bits.iter_mut().enumerate() {
        if (0x5412 ^ err) >> (14 - i) & 1 == 1 {
            *b = ops::bit_xor_bit(*b, Bit::O);
        }
    }
    bits
}
/// one representative error for each of the 1024 classes of words, lightest first
pub fn error_classes() -> (Vec<u32>, Vec<u32>) {
    let synd = |w: u32| {
        let mut r = w;
        for i in (10..15).rev() {
            if r >> i & 1 == 1 {
                r ^= 0x537 << (i - 10);
            }
        }
        r
    };
    let mut all: Vec<u32> = (0..1 << 15).collect();
    all.sort_by_key(|w: &u32| (w.count_ones(), *w));
    let mut seen = HashSet::new();
    let (mut a, mut b) = (vec![], vec![]);
    for w in all {
        if seen.insert(synd(w)) {
            if w.count_ones() <= 3 {
                a.push(w)
            } else {
                b.push(w)
            }
        }
    }
    (a, b)
}
/// error patterns of both copies applied to every format word at once; None: out of reach of correction
pub fn format_symbol(e1: u32, e2: u32, ok: bool, few: Option<u32>, rep: &mut Rep) {
    let p = "C15";
    let v = 1;
    let s = iso::side(v);
    let tag = format!("format copy 1 with error {:015b}, copy 2 with error {:015b}", e1, e2);
    let mut d = symbol(v, None, None);
    for (c, e) in [(1, e1), (2, e2)] {
        for ((x, y), b) in iso::format_pos(v, c).iter().zip(format_word(e)) {
            d[(y * s + x) as usize] = Val::I(Int::of_bits(vec![ops::bit_xor_bit(b, Bit::O); 8]));
        }
    }
    let facts: Vec<(CondId, bool)> = few.map(|n| (0..3).map(|k| (base(3, (n + k) % 5), n >> (5 + k) & 1 == 1)).collect()).unwrap_or_default();
    let words = 32usize >> facts.len();
    let Some(r) = run_decode_p("root_decode", v, d, true, 64, &facts) else {
        rep.und(p, "entry points not found");
        return;
    };
    rep.count(p, "classes of format errors", 1);
    rep.count(p, "abstract steps", r.it.steps);
    let lossy = r.it.aborted || r.caps.iter().any(|c| c.0.pc_loss() > 0) || r.outs.iter().any(|o| o.0.pc_loss() > 0);
    if lossy {
        rep.und(p, &format!("{}: precision lost", tag));
        return;
    }
    if !ok {
        if !r.caps.is_empty() {
            rep.viol(p, "format information beyond correction is accepted", &tag);
        }
        return;
    }
    let mut seen: HashSet<u32> = HashSet::new();
    let pl = iso::placement(v);
    for (st, args, _) in &r.caps {
        let w: Option<Vec<bool>> = (0..5).map(|k| st.decide(Tr::L(base(3, k), false))).collect();
        let Some(w) = w else {
            rep.und(p, &format!("{}: format word not determined", tag));
            return;
        };
        let n = w.iter().fold(0, |a, b| a * 2 + *b as u32);
        let (l, m) = (iso::LVL.iter().position(|x| *x == n >> 3).unwrap(), n & 7);
        let word = format!("{}, word of level {} mask {}", tag, iso::LVL_NAME[l], m);
        let Some(b) = bytes_of(&args[0]) else {
            rep.und(p, &format!("{}: payload bytes not resolved", word));
            return;
        };
        let want: u32 = iso::blocks(v, l).iter().map(|b| b.1).sum();
        if b.len() as u32 != want {
            rep.viol(p, "corrected format names another level", &format!("{}: {} data codewords, expected {}", word, b.len(), want));
        }
        for (k, i) in b.iter().enumerate() {
            let exp: Vec<Bit> = pl[k * 8..k * 8 + 8].iter().rev().map(|(x, y)| Bit::L(module_lit(v, *x, *y), iso::masked(m, *x, *y))).collect();
            if i.loss() == 0 && *i != Int::of_bits(exp) {
                rep.viol(p, "corrected format names another mask", &format!("{}: payload byte {} is {}", word, k, show_int(i)));
                break;
            }
        }
        seen.insert(n);
        rep.count(p, "format words compared", 1);
    }
    if seen.len() != words {
        rep.viol(p, "format information within reach of correction is refused", &format!("{}: only {} of {} format words are accepted", tag, seen.len(), words));
    }
}
