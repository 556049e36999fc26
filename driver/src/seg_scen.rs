//! C18: the payload decoder over constructed bit streams.
use crate::decode_scen::*;
use crate::interp::*;
use crate::ir::*;
use crate::iso;
use crate::natives::full;
use crate::roots::root;
use crate::scen::Rep;
use crate::term::*;
use crate::val::*;
use rustc_public::ty::Ty;
use std::cell::RefCell;
use std::rc::Rc;

/// the function that turns payload bytes into text, as found on the way to the bit reader
pub struct Entry {
    pub f: Rc<FnRef>,
    pub args: Vec<Val>,
    pub at: usize,
    pub by_ref: bool,
}
struct EntryHook {
    chomp: usize,
    log: Vec<(Rc<FnRef>, Vec<Val>, Vec<Option<Val>>)>,
    found: Rc<RefCell<Option<Entry>>>,
}
impl Hooks for EntryHook {
    fn call(&mut self, it: &mut Interp, st: &mut State, f: &Rc<FnRef>, args: &mut Vec<Val>, _r: Ty) -> Option<Outs> {
        if f.krate != "bardecoder" {
            return None;
        }
        if f.id == self.chomp {
            let bytes = full(it, st, &args[0]);
            for (g, a, s) in &self.log {
                if !st.fr.iter().any(|x| x.f.fr.id == g.id) {
                    continue;
                }
                if let Some(at) = s.iter().position(|x| x.as_ref() == Some(&bytes)) {
                    *self.found.borrow_mut() = Some(Entry { f: g.clone(), args: a.clone(), at, by_ref: matches!(a[at], Val::Sh(_) | Val::Ref(_)) });
                    break;
                }
            }
            return Some(vec![]);
        }
        let seqs: Vec<Option<Val>> = args
            .iter()
            .map(|a| match full(it, st, a) {
                v @ Val::Seq(_) => Some(v),
                _ => None,
            })
            .collect();
        if seqs.iter().any(|x| x.is_some()) {
            // references into the frames of the caller do not outlive it
            let a: Vec<Val> = args.iter().map(|a| if let Val::Ref(_) = a { Val::sh(full(it, st, a)) } else { a.clone() }).collect();
            self.log.push((f.clone(), a, seqs));
        }
        None
    }
}
pub fn entry(v: u32) -> Option<Entry> {
    let found: Rc<RefCell<Option<Entry>>> = Default::default();
    let mut it = Interp::new();
    it.lin_zero = true;
    let ch = callee_of("root_chomp_new")?;
    it.hooks = Some(Box::new(EntryHook { chomp: ch.id, log: vec![], found: found.clone() }));
    let f = body_of(&root("root_decode"))?;
    let fb = iso::format_bits(0, 0);
    it.run_fn(State::new(), &f, vec![Val::sh(Val::agg(vec![])), Val::vec(symbol(v, Some(&fb), Some(&fb))), Val::c(v as i128)]);
    let r = found.borrow_mut().take();
    r
}

/// a bit of the stream: constant or unknown
#[derive(Clone, Copy, PartialEq)]
pub enum B {
    K(bool),
    S(usize),
}
#[derive(Clone)]
pub struct Stream {
    pub b: Vec<B>,
    pub n: usize,
    pub what: String,
}
impl Stream {
    fn new(what: &str) -> Stream {
        Stream { b: vec![], n: 0, what: what.to_string() }
    }
    fn put(mut self, v: u32, n: usize) -> Stream {
        for i in (0..n).rev() {
            self.b.push(B::K(v >> i & 1 == 1));
        }
        self
    }
    fn sym(mut self, n: usize) -> Stream {
        for _ in 0..n {
            self.b.push(B::S(self.n));
            self.n += 1;
        }
        self
    }
    fn byte_end(mut self) -> Stream {
        while self.b.len() % 8 != 0 {
            self.b.push(B::K(false));
        }
        self
    }
    fn cut(mut self, bytes: usize) -> Stream {
        self.b.truncate(bytes * 8);
        self
    }
}
pub fn count_bits(v: u32, mode: u32) -> usize {
    let c = if v < 10 { 0 } else if v < 27 { 1 } else { 2 };
    match mode {
        1 => [10, 12, 14][c],
        2 => [9, 11, 13][c],
        _ => [8, 16, 16][c],
    }
}
const ALNUM: &[u8; 45] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";
/// the text of a bit stream, `None` if it is not acceptable
pub fn reference(v: u32, b: &[bool]) -> Option<String> {
    let mut at = 0;
    let mut r = String::new();
    let take = |at: &mut usize, n: usize| -> Option<u32> {
        if *at + n > b.len() {
            return None;
        }
        let x = b[*at..*at + n].iter().fold(0, |a, x| a << 1 | *x as u32);
        *at += n;
        Some(x)
    };
    while at + 4 <= b.len() {
        let mode = take(&mut at, 4)?;
        if mode == 0 {
            break;
        }
        if ![1, 2, 4].contains(&mode) {
            return None;
        }
        let mut n = take(&mut at, count_bits(v, mode))? as usize;
        match mode {
            1 => {
                while n > 0 {
                    let k = n.min(3);
                    let x = take(&mut at, [0, 4, 7, 10][k])?;
                    if x >= 10u32.pow(k as u32) {
                        return None;
                    }
                    r.push_str(&format!("{:0w$}", x, w = k));
                    n -= k;
                }
            }
            2 => {
                while n > 0 {
                    let k = n.min(2);
                    let x = take(&mut at, [0, 6, 11][k])? as usize;
                    if x >= 45usize.pow(k as u32) {
                        return None;
                    }
                    if k == 2 {
                        r.push(ALNUM[x / 45] as char);
                    }
                    r.push(ALNUM[x % 45] as char);
                    n -= k;
                }
            }
            _ => {
                let mut t = vec![];
                for _ in 0..n {
                    t.push(take(&mut at, 8)? as u8);
                }
                if t.contains(&0xC3) {
                    r.push_str(&String::from_utf8(t).ok()?);
                } else {
                    r.extend(t.iter().map(|x| *x as char));
                }
            }
        }
    }
    Some(r)
}
fn pad(s: String, flags: u32, w: Option<u32>) -> String {
    let w = w.unwrap_or(0) as usize;
    let n = w.saturating_sub(s.chars().count());
    let fill = if flags >> 24 & 1 == 1 { '0' } else { ' ' };
    format!("{}{}", fill.to_string().repeat(n), s)
}
/// the text an abstract string stands for
pub fn text_at(ev: &mut Eval, s: &StrV) -> Option<String> {
    let mut r = String::new();
    for p in &s.p {
        match p {
            Part::Lit(t) => r.push_str(t),
            Part::Chr(i) => r.push(char::from_u32(ev.int(i)? as u32)?),
            Part::Fmt('d', fl, w, _, Val::I(i)) => r.push_str(&pad(format!("{}", ev.int(i)?), *fl, *w)),
            Part::Fmt('d', fl, w, _, Val::Str(t)) => {
                let t = text_at(ev, t)?;
                if fl >> 24 & 1 == 1 || w.is_some() {
                    return None;
                }
                r.push_str(&t)
            }
            Part::Bytes(Val::Seq(q)) => {
                let Seq::Ex(v) = q.as_ref() else { return None };
                let mut b = vec![];
                for x in v {
                    let Val::I(i) = x else { return None };
                    b.push(ev.int(i)? as u8);
                }
                r.push_str(&String::from_utf8(b).ok()?);
            }
            _ => return None,
        }
    }
    Some(r)
}
fn find_str(v: &Val) -> Option<Rc<StrV>> {
    match v {
        Val::Str(s) => Some(s.clone()),
        Val::Agg(a) => a.iter().find_map(find_str),
        Val::Sh(a) | Val::Bx(a) => find_str(a),
        _ => None,
    }
}
pub enum Got {
    Text(String),
    Err,
    Unknown,
}
fn outcome(ev: &mut Eval, v: &Val) -> Got {
    let e = match v {
        Val::En(e) => e.as_ref().clone(),
        Val::Alt(a) => {
            let mut r = None;
            for x in a.iter() {
                match x.g {
                    Some((c, b)) => match ev.cond(c) {
                        Some(y) if y == b => r = Some(x.e.clone()),
                        Some(_) => {}
                        None => return Got::Unknown,
                    },
                    None if a.len() == 1 => r = Some(x.e.clone()),
                    None => return Got::Unknown,
                }
            }
            match r {
                Some(e) => e,
                None => return Got::Unknown,
            }
        }
        _ => return Got::Unknown,
    };
    if e.var == 1 {
        return Got::Err;
    }
    match e.f.first().and_then(find_str).and_then(|s| text_at(ev, &s)) {
        Some(t) => Got::Text(t),
        None => Got::Unknown,
    }
}
/// every way a stream can end
pub fn ends(e: &Entry, v: u32, s: &Stream, rep: &mut Rep, p: &str) {
    let s = s.clone().byte_end();
    let Some(f) = body_of(&e.f) else { return };
    let bit = |x: &B| match x {
        B::K(false) => Bit::Z,
        B::K(true) => Bit::O,
        B::S(k) => Bit::L(base(6, *k as u32), false),
    };
    let bytes: Vec<Val> = s.b.chunks(8).map(|c| Val::I(Int::of_bits(c.iter().rev().map(bit).collect()))).collect();
    let mut args = e.args.clone();
    args[e.at] = if e.by_ref { Val::sh(Val::vec(bytes)) } else { Val::vec(bytes) };
    let mut it = Interp::new();
    it.max_parts = 3000;
    it.pin_all = true;
    let outs = it.run_fn(State::new(), &f, args);
    rep.count(p, "bit streams", 1);
    crate::robust_dec::judge(&it, &format!("payload of version {}: {}", v, s.what), rep, p);
    if outs.is_empty() && it.unmod.is_empty() && !it.aborted {
        rep.viol(p, "decoding a payload never returns", &format!("version {}: {}", v, s.what));
    }
}
pub fn check(e: &Entry, v: u32, s: &Stream, rep: &mut Rep, p: &str) {
    let s = s.clone().byte_end();
    let Some(f) = body_of(&e.f) else {
        rep.und(p, "payload decoder without a body");
        return;
    };
    let bit = |x: &B| match x {
        B::K(false) => Bit::Z,
        B::K(true) => Bit::O,
        B::S(k) => Bit::L(base(6, *k as u32), false),
    };
    let bytes: Vec<Val> = s.b.chunks(8).map(|c| Val::I(Int::of_bits(c.iter().rev().map(bit).collect()))).collect();
    let mut args = e.args.clone();
    args[e.at] = if e.by_ref { Val::sh(Val::vec(bytes)) } else { Val::vec(bytes) };
    let mut it = Interp::new();
    it.max_parts = 3000;
    it.pin_all = true;
    let outs = it.run_fn(State::new(), &f, args);
    rep.count(p, "bit streams", 1);
    rep.count(p, "abstract steps", it.steps);
    let tag = format!("version {}: {}", v, s.what);
    if it.aborted {
        rep.und(p, &format!("{}: analysis budget exhausted", tag));
        return;
    }
    for a in 0..1u32 << s.n {
        let lit = |c: CondId| match cond_def(c) {
            Cond::Base(6, k) => Some(a >> k & 1 == 1),
            _ => None,
        };
        let none = |_: Atom| None;
        let mut ev = Eval::new(&lit, &none);
        let bits: Vec<bool> = s.b.iter().map(|x| match x { B::K(b) => *b, B::S(k) => a >> k & 1 == 1 }).collect();
        let want = reference(v, &bits);
        let mut hit = None;
        let mut vague = false;
        for (st, r) in &outs {
            let mut ok = Some(true);
            for (c, b) in st.pc.iter() {
                match utf8_or(&mut ev, *c) {
                    Some(x) if x == *b => {}
                    Some(_) => {
                        ok = Some(false);
                        break;
                    }
                    None => ok = None,
                }
            }
            match ok {
                Some(true) => {
                    hit = Some(outcome(&mut ev, r));
                    break;
                }
                None => vague = true,
                _ => {}
            }
        }
        rep.count(p, "contents compared", 1);
        let show = || bits.chunks(8).map(|c| c.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>()).take(24).collect::<Vec<_>>().join(" ");
        match (hit, want) {
            (Some(Got::Unknown), _) => {
                rep.und(p, &format!("{}: outcome not resolved", tag));
                return;
            }
            (None, _) if vague || !it.unmod.is_empty() => {
                rep.und(p, &format!("{}: path not resolved {:?}", tag, it.unmod.keys().next()));
                return;
            }
            (None, w) => {
                let why = it.ob.iter().filter(|o| o.1.fail > 0).map(|(k, o)| format!("{} in {}: {}", k.kind, k.func, o.detail)).next().unwrap_or_default();
                rep.viol(p, "the payload decoder stops abnormally", &format!("{}; bits {}; expected {:?}; {}", tag, show(), w, why));
                return;
            }
            (Some(Got::Err), None) => {}
            (Some(Got::Text(t)), Some(w)) if t == w => {}
            (Some(g), w) => {
                let kind = s.what.split(':').next().unwrap_or("");
                let (key, g) = match (&g, &w) {
                    (Got::Text(t), None) => ("unacceptable data are decoded", format!("{:?}", t)),
                    (Got::Text(t), Some(_)) => ("the text differs from the encoded one", format!("{:?}", t)),
                    _ => ("acceptable data are refused", "an error".into()),
                };
                let cut = |s: String| s.chars().take(200).collect::<String>();
                rep.viol(p, &format!("{} ({})", key, kind), &format!("{}; bits {}; {} instead of {}", tag, show(), cut(g), cut(format!("{:?}", w))));
                return;
            }
        }
    }
}
/// conditions on the validity of UTF-8 text are decided from the bytes
fn utf8_or(ev: &mut Eval, c: CondId) -> Option<bool> {
    if let Some(bytes) = utf8_of(c) {
        let mut b = vec![];
        for i in &bytes {
            b.push(ev.int(i)? as u8);
        }
        return Some(String::from_utf8(b).is_ok());
    }
    ev.cond(c)
}
/// a segment with constant contents
fn seg(s: Stream, v: u32, mode: u32, n: usize, salt: u32) -> Stream {
    let mut s = s.put(mode, 4).put(n as u32, count_bits(v, mode));
    let mut k = 0;
    while k < n {
        let x = (k as u32 + 1).wrapping_mul(2654435761).wrapping_add(salt * 40503) >> 7;
        match mode {
            1 => {
                let g = (n - k).min(3);
                s = s.put(x % 10u32.pow(g as u32), [0, 4, 7, 10][g]);
                k += g;
            }
            2 => {
                let g = (n - k).min(2);
                s = s.put(x % 45u32.pow(g as u32), [0, 6, 11][g]);
                k += g;
            }
            _ => {
                s = s.put(x % 128, 8);
                k += 1;
            }
        }
    }
    s
}
pub fn streams(v: u32, deep: bool) -> Vec<Stream> {
    let mut r = vec![];
    let name = |m: u32| match m { 1 => "numeric", 2 => "alphanumeric", _ => "byte" };
    r.push(Stream::new("empty payload"));
    r.push(Stream::new("terminator: padding of unknown contents").put(0, 4).sym(10));
    // one segment whose last group is unknown
    for m in [1u32, 2, 4] {
        let g = [0, 3, 2, 0, 1][m as usize];
        let w: &[usize] = [&[][..], &[0, 4, 7, 10], &[0, 6, 11], &[], &[0, 8]][m as usize];
        let lens: Vec<usize> = if deep { (1..=8).collect() } else if m == 4 { vec![1, 3] } else { (1..=g + 2).collect() };
        for n in lens {
            // unknown last group
            let last = if n % g == 0 { g } else { n % g };
            let mut s = seg(Stream::new(&format!("{}: {} characters, the last {} unknown", name(m), n, last)), v, m, n, 1);
            let w1 = w[last];
            s.b.truncate(s.b.len() - w1);
            r.push(s.sym(w1).put(0, 4));
            // unknown first group
            if n > g {
                let mut s = seg(Stream::new(&format!("{}: {} characters, the first {} unknown", name(m), n, g)), v, m, n, 2);
                let at = 4 + count_bits(v, m);
                for k in 0..w[g] {
                    s.b[at + k] = B::S(k);
                }
                s.n = w[g];
                r.push(s.put(0, 4));
            }
        }
        // no characters at all
        r.push(Stream::new(&format!("{}: no characters", name(m))).put(m, 4).put(0, count_bits(v, m)).put(4, 4).put(1, count_bits(v, 4)).sym(8));
    }
    // bytes that may be text of more than one kind
    for (a, b) in [(0xC3u32, None), (0xE4, None), (0x41, Some(0xC3u32)), (0xC3, Some(0xA9))] {
        let s = Stream::new(&format!("byte: {:02x} and an unknown byte", a)).put(4, 4).put(2 + b.is_some() as u32, count_bits(v, 4)).put(a, 8);
        let s = if let Some(b) = b { s.put(b, 8) } else { s };
        r.push(s.sym(8).put(0, 4));
        let s = Stream::new(&format!("byte: an unknown byte and {:02x}", a)).put(4, 4).put(2 + b.is_some() as u32, count_bits(v, 4)).sym(8).put(a, 8);
        let s = if let Some(b) = b { s.put(b, 8) } else { s };
        r.push(s.put(0, 4));
    }
    // mode indicator
    for (n, x) in [(0, 0u32), (0, 1), (1, 0), (1, 1)] {
        let mut s = Stream::new("mode: unknown mode indicator");
        if n == 1 {
            s = seg(s, v, 1, 4, 3);
        }
        s = s.sym(4);
        for _ in 0..30 {
            s = s.put(x, 1);
        }
        r.push(s);
    }
    // payload ending within a segment
    for m in [1u32, 2, 4] {
        let n = if m == 4 { 3 } else { 7 };
        let s = seg(Stream::new(&format!("{}: payload ends early", name(m))), v, m, n, 5).byte_end();
        for k in 1..s.b.len() / 8 {
            r.push(s.clone().cut(k));
        }
    }
    // the last bits do not make up a mode indicator
    for m in [1u32, 2, 4] {
        for n in 1..9 {
            let s = seg(Stream::new(&format!("{}: {} characters fill the payload, the rest is unknown", name(m), n)), v, m, n, 6);
            let rest = (8 - s.b.len() % 8) % 8;
            if rest <= if deep { 7 } else { 3 } {
                r.push(s.sym(rest));
            }
        }
    }
    // several segments
    for a in [1u32, 2, 4] {
        for b in [1u32, 2, 4] {
            let what = format!("sequence: {} then {}", name(a), name(b));
            let (n, m) = (2 + a as usize % 3, 1 + b as usize % 3);
            r.push(seg(seg(Stream::new(&what), v, a, n, 7), v, b, m, 8).put(0, 4).sym(7));
            for c in [1u32, 2, 4] {
                if deep || (a + b + c) % 3 == v % 3 {
                    r.push(seg(seg(seg(Stream::new(&format!("{} then {}", what, name(c))), v, a, m, 9), v, b, n, 10), v, c, 3, 11));
                }
            }
        }
    }
    r
}
/// long segments around the limits of the counts
pub fn long_streams(v: u32, deep: bool) -> Vec<Stream> {
    let mut r = vec![];
    for m in [1u32, 2, 4] {
        let max = (1usize << count_bits(v, m)) - 1;
        let cap = if m == 1 { 7089 } else if m == 2 { 4296 } else { 2953 };
        let mut l = vec![63, 127, 128, 255, 256, 257, 511, 512, 1000, 1023];
        if deep || v % 9 == 4 {
            l.extend([1024, 2047, 2048, 2953, 4095, 4096, 4296, 7089]);
        }
        for n in l {
            if n <= max && n <= cap {
                let s = seg(Stream::new(&format!("{}: {} characters", ["", "numeric", "alphanumeric", "", "byte"][m as usize], n)), v, m, n, 12);
                r.push(s.put(4, 4).put(1, count_bits(v, 4)).sym(8));
            }
        }
    }
    r
}
pub fn versions(v: u32, deep: bool, rep: &mut Rep, p: &str) {
    let Some(e) = entry(v) else {
        rep.und(p, &format!("version {}: payload decoder not found", v));
        return;
    };
    rep.item(p, &format!("payload decoder {}", e.f.path));
    let class = [1, 9, 10, 26, 27, 40].contains(&v);
    let mut all = streams(v, deep);
    if !(class || deep) {
        all = all.into_iter().enumerate().filter(|(i, _)| (i + v as usize) % 5 == 0).map(|x| x.1).collect();
        // the widths of the counts differ from version to version
        for m in [1u32, 2, 4] {
            all.push(seg(seg(Stream::new("sequence: counts"), v, m, 5, 1), v, 4, 1, 2).put(0, 4));
        }
    }
    if class || deep {
        all.extend(long_streams(v, deep));
    }
    for s in &all {
        check(&e, v, s, rep, p);
    }
}
