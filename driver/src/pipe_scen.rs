//! The pipeline around arbitrary components: what is handed to whom, and what comes back.
use crate::decode_scen::callee_of;
use crate::flt::Flt;
use crate::interp::*;
use crate::ir::*;
use crate::roots::root;
use crate::scen::Rep;
use crate::term::*;
use crate::val::*;
use rustc_public::ty::Ty;
use std::rc::Rc;

pub fn tag(n: &str) -> Val {
    Val::I(Int::of_atom(atom(Def::Input(n.to_string()), 0, u32::MAX as i128, 0)))
}
pub fn comp(n: &str) -> Val {
    Val::agg(vec![tag(n)])
}
pub fn point(n: &str) -> Val {
    Val::agg(vec![Val::F(Flt::input(&format!("{}.x", n), f64::NEG_INFINITY, f64::INFINITY, true)), Val::F(Flt::input(&format!("{}.y", n), f64::NEG_INFINITY, f64::INFINITY, true))])
}
pub fn qrloc(n: &str) -> Val {
    Val::agg(vec![
        point(&format!("{}.tl", n)),
        point(&format!("{}.tr", n)),
        point(&format!("{}.bl", n)),
        Val::F(Flt::input(&format!("{}.ms", n), f64::NEG_INFINITY, f64::INFINITY, true)),
        tag(&format!("{}.v", n)),
    ])
}
fn qrdata(i: usize) -> Val {
    Val::agg(vec![Val::vec(vec![tag(&format!("data{}", i))]), tag(&format!("dv{}", i)), tag(&format!("ds{}", i))])
}
fn qrerr(i: usize, who: &str) -> Val {
    Val::agg(vec![Val::str(&format!("{} error {}", who, i))])
}
/// strip references, boxes, trait-object wrappers
fn bare(it: &Interp, st: &State, v: &Val) -> Val {
    match v {
        Val::Sh(x) | Val::Bx(x) | Val::Dyn(_, x) => bare(it, st, x),
        Val::Ref(r) => {
            let x = it.read_ref(st, r);
            bare(it, st, &x)
        }
        x => x.clone(),
    }
}
const CALL: u32 = 900;
const WRAP: u32 = 901;
/// what the user's components do
pub struct UserHook {
    pub n: usize,
    /// extraction fails for these locations, decoding for those
    pub ext_err: u128,
    pub dec_err: u128,
    pub many: bool,
}
fn log(st: &mut State, kind: &str, args: Vec<Val>) {
    let mut v = vec![Val::str(kind)];
    v.extend(args);
    Rc::make_mut(&mut st.ghost).push(Val::obj(Obj::Mark(CALL, v)));
}
impl Hooks for UserHook {
    fn call(&mut self, it: &mut Interp, st: &mut State, f: &Rc<FnRef>, args: &mut Vec<Val>, _r: Ty) -> Option<Outs> {
        if f.krate == "anyhow" {
            let a = args.iter().map(|a| bare(it, st, a)).collect();
            return Some(vec![(st.clone(), Val::obj(Obj::Mark(WRAP, a)))]);
        }
        if f.krate != "bvroots" {
            return None;
        }
        let kind = ["UserPrepare", "UserDetect", "UserExtract", "UserDecode"].iter().position(|k| f.path.contains(&format!("<{} as", k)) || f.path.contains(&format!("::{} as", k)))?;
        let a: Vec<Val> = args.iter().map(|a| bare(it, st, a)).collect();
        let ret = match kind {
            0 => comp("prepared"),
            1 => {
                if self.many {
                    let n = Int::of_atom(atom(Def::Input("count".into()), 1, 1 << 40, 0));
                    Val::Seq(Rc::new(Seq::Sum { len: n, el: Val::en(0, vec![qrloc("loc")]) }))
                } else {
                    Val::vec((0..self.n).map(|i| Val::en(0, vec![qrloc(&format!("loc{}", i))])).collect())
                }
            }
            2 => {
                let i = st.ghost.iter().filter(|g| is_call(g, "extract")).count();
                if self.ext_err >> i & 1 == 1 {
                    Val::err(qrerr(i, "extract"))
                } else {
                    Val::ok(qrdata(i))
                }
            }
            _ => {
                let i = st.ghost.iter().filter(|g| is_call(g, "decode")).count();
                if self.dec_err >> i & 1 == 1 {
                    Val::err(qrerr(i, "decode"))
                } else {
                    Val::ok(tag(&format!("result{}", i)))
                }
            }
        };
        log(st, ["prepare", "detect", "extract", "decode"][kind], a);
        Some(vec![(st.clone(), ret)])
    }
}
fn is_call(g: &Val, k: &str) -> bool {
    call_args(g).map_or(false, |(n, _)| n == k)
}
fn call_args(g: &Val) -> Option<(String, Vec<Val>)> {
    if let Val::Obj(o) = g {
        if let Obj::Mark(CALL, v) = o.as_ref() {
            if let Val::Str(s) = &v[0] {
                return Some((s.text()?, v[1..].to_vec()));
            }
        }
    }
    None
}
pub fn lossy_note(it: &Interp, outs: &Outs) -> bool {
    it.aborted || outs.iter().any(|o| o.0.pc_loss() >= 1)
}
/// a decoder value built through the builder from the four components
fn built(rep: &mut Rep, p: &str) -> Option<Val> {
    let f = body_of(&root("root_ub_chain"))?;
    let mut it = Interp::new();
    let outs = it.run_fn(State::new(), &f, vec![comp("P"), comp("D"), comp("E"), comp("C")]);
    if outs.len() != 1 || it.aborted {
        rep.und(p, &format!("building a decoder has {} outcomes", outs.len()));
        return None;
    }
    Some(outs[0].1.clone())
}
fn finals(it: &mut Interp, dec: Val, img: Val) -> Option<Outs> {
    let f = body_of(&callee_of("root_ub_run")?)?;
    Some(it.run_fn(State::new(), &f, vec![Val::sh(dec), Val::sh(img)]))
}
/// C06 and C07: run the pipeline for `n` locations with the given failures
pub fn pipeline(n: usize, ext_err: u128, dec_err: u128, rep: &mut Rep, prop: &str) {
    let Some(dec) = built(rep, prop) else { return };
    let mut it = Interp::new();
    it.hooks = Some(Box::new(UserHook { n, ext_err, dec_err, many: false }));
    let Some(outs) = finals(&mut it, dec, comp("image")) else {
        rep.und(prop, "entry points not found");
        return;
    };
    let what = format!("{} locations, extraction failing {:b}, decoding failing {:b}", n, ext_err, dec_err);
    rep.count(prop, "location scenarios", 1);
    rep.count(prop, "abstract steps", it.steps);
    if lossy_note(&it, &outs) {
        rep.und(prop, &format!("{}: precision lost", what));
        return;
    }
    if outs.is_empty() {
        let why = it.ob.iter().filter(|o| o.1.fail > 0).map(|(k, o)| format!("{} in {}: {}", k.kind, k.func, o.detail)).next().unwrap_or_default();
        if it.unmod.is_empty() || !why.is_empty() {
            rep.viol(prop, "the pipeline stops without a result", &format!("{}: {}", what, why));
        } else {
            rep.und(prop, &format!("{}: no outcome ({:?})", what, it.unmod.keys().next()));
        }
        return;
    }
    for (st, v) in &outs {
        let calls: Vec<(String, Vec<Val>)> = st.ghost.iter().filter_map(call_args).collect();
        let of = |k: &str| -> Vec<&Vec<Val>> { calls.iter().filter(|c| c.0 == k).map(|c| &c.1).collect() };
        let Some(res) = seq_of(v) else {
            rep.und(prop, &format!("{}: outcome list not resolved", what));
            continue;
        };
        if prop == "C07" {
            for (k, want) in [("prepare", 1), ("detect", 1), ("extract", n), ("decode", n)] {
                rep.count(prop, "component calls compared", of(k).len() as u64);
                if of(k).len() != want {
                    rep.viol(prop, &format!("{} component is called the wrong number of times", k), &format!("{}: {} calls, expected {}", what, of(k).len(), want));
                }
            }
            let exp = |k: &str, got: &Vec<Val>, want: Vec<Val>, rep: &mut Rep| {
                if *got != want {
                    if got.iter().any(|x| x.loss() > 0) {
                        rep.und(prop, &format!("{}: arguments of {} not resolved", what, k));
                    } else {
                        rep.viol(prop, &format!("{} component gets something else", k), &format!("{}: called with {}, expected {}", what, got.iter().map(short).collect::<Vec<_>>().join(", "), want.iter().map(short).collect::<Vec<_>>().join(", ")));
                    }
                }
            };
            for c in of("prepare") {
                exp("prepare", c, vec![comp("P"), comp("image")], rep);
            }
            for c in of("detect") {
                exp("detect", c, vec![comp("D"), comp("prepared")], rep);
            }
            // in any order, each location once, each extraction once
            let mut left: Vec<Vec<Val>> = (0..n).map(|i| vec![comp("E"), comp("prepared"), qrloc(&format!("loc{}", i))]).collect();
            for c in of("extract") {
                match left.iter().position(|w| w == c) {
                    Some(k) => {
                        left.remove(k);
                    }
                    None => exp("extract", c, left.first().cloned().unwrap_or_default(), rep),
                }
            }
            let mut left: Vec<Vec<Val>> = (0..n).map(|i| vec![comp("C"), if ext_err >> i & 1 == 1 { Val::err(qrerr(i, "extract")) } else { Val::ok(qrdata(i)) }]).collect();
            for c in of("decode") {
                match left.iter().position(|w| w == c) {
                    Some(k) => {
                        left.remove(k);
                    }
                    None => exp("decode", c, left.first().cloned().unwrap_or_default(), rep),
                }
            }
        } else {
            rep.count(prop, "outcomes compared", res.len() as u64);
            if res.len() != n {
                rep.viol(prop, "number of outcomes differs from the number of locations", &format!("{}: {} outcomes", what, res.len()));
                continue;
            }
            // which location the i-th decode call belongs to
            let dc = of("decode");
            let origin = |k: usize| -> Option<usize> {
                let d = &dc.get(k)?[1];
                (0..n).find(|i| *d == Val::ok(qrdata(*i)) || *d == Val::err(qrerr(*i, "extract")))
            };
            let ex = of("extract");
            let loc_of = |k: usize| -> Option<usize> { (0..n).find(|i| ex.get(k).map_or(false, |e| e.len() == 3 && e[2] == qrloc(&format!("loc{}", i)))) };
            for i in 0..n {
                // the decode call whose input came from location i
                let k = (0..dc.len()).find(|k| origin(*k).and_then(loc_of) == Some(i));
                let Some(k) = k else {
                    rep.viol(prop, "a location is not decoded", &format!("{}: location {}", what, i));
                    break;
                };
                let good = if dec_err >> k & 1 == 1 {
                    match &res[i] {
                        Val::En(e) if e.var == 1 => holds(&e.f[0], &qrerr(k, "decode")),
                        _ => false,
                    }
                } else {
                    res[i] == Val::ok(tag(&format!("result{}", k)))
                };
                if !good {
                    if res[i].loss() > 0 {
                        rep.und(prop, &format!("{}: outcome {} not resolved", what, i));
                    } else {
                        rep.viol(prop, "an outcome is not that of its location", &format!("{}: outcome {} is {}", what, i, short(&res[i])));
                    }
                    break;
                }
            }
        }
    }
}
/// value contains the given one
fn holds(v: &Val, w: &Val) -> bool {
    if v == w {
        return true;
    }
    match v {
        Val::Agg(a) => a.iter().any(|x| holds(x, w)),
        Val::En(e) => e.f.iter().any(|x| holds(x, w)),
        Val::Sh(x) | Val::Bx(x) | Val::Dyn(_, x) => holds(x, w),
        Val::Obj(o) => match o.as_ref() {
            Obj::Mark(_, a) => a.iter().any(|x| holds(x, w)),
            _ => false,
        },
        _ => false,
    }
}
fn seq_of(v: &Val) -> Option<Vec<Val>> {
    match v {
        Val::Seq(s) => match s.as_ref() {
            Seq::Ex(v) => Some(v.clone()),
            _ => None,
        },
        _ => None,
    }
}
/// any number of locations: as many outcomes as locations
pub fn pipeline_many(rep: &mut Rep, prop: &str) {
    let Some(dec) = built(rep, prop) else { return };
    let mut it = Interp::new();
    it.hooks = Some(Box::new(UserHook { n: 0, ext_err: 0, dec_err: 0, many: true }));
    let Some(outs) = finals(&mut it, dec, comp("image")) else { return };
    rep.count(prop, "abstract steps", it.steps);
    let n = Int::of_atom(atom(Def::Input("count".into()), 1, 1 << 40, 0));
    for (st, v) in &outs {
        match v {
            Val::Seq(s) => {
                let l = s.len();
                let d = crate::term::psub(&l.poly(), &n.poly());
                let eq = st.prove_ge0(&d) && st.prove_ge0(&pscale(&d, -1));
                if eq {
                    rep.item(prop, "any number of locations gives as many outcomes");
                    rep.count(prop, "unbounded scenarios", 1);
                } else {
                    rep.und(prop, &format!("any number of locations: {} outcomes", show_int(&l)));
                }
            }
            _ => rep.und(prop, "any number of locations: outcome list not resolved"),
        }
    }
}
pub fn dbg_many() {
    let mut rep = Rep::default();
    let dec = built(&mut rep, "x").unwrap();
    let mut it = Interp::new();
    it.hooks = Some(Box::new(UserHook { n: 0, ext_err: 0, dec_err: 0, many: true }));
    let outs = finals(&mut it, dec, comp("image")).unwrap();
    for (s, v) in &outs {
        println!("out {}", short(v));
        for (c, b) in s.pc.iter() {
            println!("      {} {:?}", b, cond_def(*c));
        }
        for (a, b) in s.bnd.iter() { println!("   {} {:?}", show_atom(*a, 0), b); }
    }
}
/// C09: records which component each step of a decoder uses
struct WhoHook;
impl Hooks for WhoHook {
    fn call(&mut self, it: &mut Interp, st: &mut State, f: &Rc<FnRef>, args: &mut Vec<Val>, _r: Ty) -> Option<Outs> {
        if f.krate == "anyhow" {
            return Some(vec![(st.clone(), Val::obj(Obj::Mark(WRAP, vec![])))]);
        }
        if f.krate != "bvroots" && f.krate != "bardecoder" {
            return None;
        }
        // <X as Trait<..>>::method
        let (ty, tr) = f.path.split_once(" as ").or_else(|| f.full.split_once(" as "))?;
        let ty = ty.trim_start_matches(|c: char| c == '<').rsplit("::").next()?.trim_start_matches('<').split('<').next()?.to_string();
        let tr = tr.split(|c: char| c == '<' || c == '>').next()?.rsplit("::").next()?.to_string();
        if !["Prepare", "Detect", "Extract", "Decode"].contains(&tr.as_str()) {
            return None;
        }
        let me = bare(it, st, &args[0]);
        let ret = match tr.as_str() {
            "Prepare" => tag("prepared"),
            "Detect" => Val::vec(vec![Val::en(0, vec![qrloc("loc0")])]),
            "Extract" => Val::ok(qrdata(0)),
            _ => Val::ok(tag("result")),
        };
        log(st, &tr, vec![Val::str(&ty), me]);
        Some(vec![(st.clone(), ret)])
    }
}
const ROLES: [&str; 4] = ["Prepare", "Detect", "Extract", "Decode"];
/// who is used for which role on every outcome; None: precision lost
fn users(it: &Interp, outs: &Outs) -> Option<Vec<Vec<(String, String, Val)>>> {
    if lossy_note(it, outs) {
        return None;
    }
    Some(
        outs.iter()
            .map(|(st, _)| {
                st.ghost
                    .iter()
                    .filter_map(call_args)
                    .map(|(k, a)| {
                        let t = match &a[0] {
                            Val::Str(s) => s.text().unwrap_or_default(),
                            _ => String::new(),
                        };
                        (k, t, a[1].clone())
                    })
                    .collect()
            })
            .collect(),
    )
}
fn check_users(rep: &mut Rep, prop: &str, what: &str, it: &Interp, outs: &Outs, want: &[(String, Val); 4]) {
    let Some(u) = users(it, outs) else {
        rep.und(prop, &format!("{}: precision lost", what));
        return;
    };
    if u.is_empty() {
        let why = it.ob.iter().filter(|o| o.1.fail > 0).map(|(k, o)| format!("{} in {}: {}", k.kind, k.func, o.detail)).next().unwrap_or_default();
        if it.unmod.is_empty() {
            rep.viol(prop, "a complete decoder cannot be built or run", &format!("{}: {}", what, why));
        } else {
            rep.und(prop, &format!("{}: no outcome ({:?})", what, it.unmod.keys().next()));
        }
        return;
    }
    for path in &u {
        for (i, r) in ROLES.iter().enumerate() {
            let mut seen = false;
            for (k, t, v) in path.iter().filter(|x| x.0 == *r) {
                seen = true;
                rep.count(prop, "components compared", 1);
                if *t != want[i].0 || *v != want[i].1 {
                    if v.loss() > 0 {
                        rep.und(prop, &format!("{}: {} component not resolved", what, k));
                    } else {
                        rep.viol(prop, &format!("wrong {} component", k.to_lowercase()), &format!("{}: {} {} instead of {} {}", what, t, short(v), want[i].0, short(&want[i].1)));
                    }
                }
            }
            if !seen {
                rep.viol(prop, &format!("no {} component is used", r.to_lowercase()), what);
            }
        }
    }
}
fn eval1(name: &str, args: Vec<Val>) -> Option<Val> {
    let f = body_of(&root(name))?;
    let mut it = Interp::new();
    let outs = it.run_fn(State::new(), &f, args);
    if outs.len() == 1 && !it.aborted {
        Some(outs[0].1.clone())
    } else {
        None
    }
}
pub fn builder(rep: &mut Rep, prop: &str) {
    let names = ["prepare", "detect", "qr"];
    // every sequence of up to four builder calls
    for n in 0..=4usize {
        for code in 0..3usize.pow(n as u32) {
            let ops: Vec<usize> = (0..n).map(|i| code / 3usize.pow(i as u32) % 3).collect();
            let what = format!("builder calls [{}]", ops.iter().map(|o| names[*o]).collect::<Vec<_>>().join(", "));
            let last = |k: usize| ops.iter().rposition(|o| *o == k);
            let mut v: Vec<Val> = ops.iter().map(|o| Val::c(*o as i128)).collect();
            v.resize(6, Val::c(0));
            let Some(f) = body_of(&root("root_ub_seq")) else { return };
            let mut it = Interp::new();
            let outs = it.run_fn(State::new(), &f, vec![Val::c(n as i128), Val::vec(v)]);
            rep.count(prop, "builder call sequences", 1);
            let complete = (0..3).all(|k| last(k).is_some());
            if lossy_note(&it, &outs) || (outs.is_empty() && !it.unmod.is_empty()) {
                rep.und(prop, &format!("{}: not resolved {:?}", what, it.unmod.keys().next()));
                continue;
            }
            if !complete {
                if !outs.is_empty() {
                    rep.viol(prop, "an incomplete decoder is built", &what);
                }
                continue;
            }
            if outs.len() != 1 {
                rep.viol(prop, "a complete decoder cannot be built or run", &format!("{}: {} outcomes", what, outs.len()));
                continue;
            }
            let mut it = Interp::new();
            it.hooks = Some(Box::new(WhoHook));
            let Some(r) = finals(&mut it, outs[0].1.clone(), comp("image")) else { continue };
            let c = |k: usize| Val::agg(vec![Val::c(last(k).unwrap() as i128)]);
            let want = [("UserPrepare".to_string(), c(0)), ("UserDetect".to_string(), c(1)), ("UserExtract".to_string(), c(2)), ("UserDecode".to_string(), c(2))];
            check_users(rep, prop, &what, &it, &r, &want);
        }
    }
    // default decoders and their customised forms
    let img = tag("image");
    let (Some(bm), Some(ls), Some(ex), Some(pl), Some(inf)) = (
        eval1("root_new_prepare", vec![Val::c(5), Val::c(7)]),
        eval1("root_new_detect", vec![]),
        eval1("root_new_extract", vec![]),
        eval1("root_new_plain", vec![]),
        eval1("root_new_info", vec![]),
    ) else {
        rep.und(prop, "constructors of the default components not resolved");
        return;
    };
    for info in [false, true] {
        let dec = if info { ("QRDecoderWithInfo".to_string(), inf.clone()) } else { ("QRDecoder".to_string(), pl.clone()) };
        let base = [("BlockedMean".to_string(), bm.clone()), ("LineScan".to_string(), ls.clone()), ("QRExtractor".to_string(), ex.clone()), dec];
        for mask in 0..9u32 {
            let (name, args) = if mask == 8 {
                (if info { "root_def_run_info" } else { "root_def_run" }, vec![Val::sh(img.clone())])
            } else {
                (if info { "root_def_custom_info" } else { "root_def_custom" }, vec![Val::c(mask as i128), comp("P"), comp("D"), comp("E"), comp("C"), Val::sh(img.clone())])
            };
            let Some(f) = body_of(&root(name)) else { continue };
            let mut it = Interp::new();
            it.hooks = Some(Box::new(WhoHook));
            let outs = it.run_fn(State::new(), &f, args);
            let mut want = base.clone();
            if mask < 8 {
                for (bit, i, t, v) in [(1, 0, "UserPrepare", "P"), (2, 1, "UserDetect", "D"), (4, 2, "UserExtract", "E"), (4, 3, "UserDecode", "C")] {
                    if mask & bit != 0 {
                        want[i] = (t.to_string(), comp(v));
                    }
                }
            }
            let what = format!("default decoder{}{}", if info { " with info" } else { "" }, if mask % 8 > 0 { format!(", replaced set {:03b}", mask) } else { String::new() });
            rep.count(prop, "default configurations", 1);
            check_users(rep, prop, &what, &it, &outs, &want);
        }
    }
}
/// C08: an extraction error passes through both decoders as it is
pub fn passed(rep: &mut Rep, prop: &str) {
    let opaque = Val::Str(Rc::new(StrV { p: vec![Part::Bytes(Val::Seq(Rc::new(Seq::Sum { len: Int::of_atom(fresh_atom(0, 1 << 40, 0)), el: Val::I(Int::of_atom(fresh_atom(0, 255, 0))) })))] }));
    let mut msgs = vec![("any message".to_string(), opaque)];
    for m in ["", "x", "Unable to find alignment pattern", "Unknown version 41", "Unknown version", "Error reading EC data", "Unknown mode", "Module at 3, 7 lies outside of the image"] {
        msgs.push((format!("the message {:?}", m), Val::str(m)));
    }
    for (name, dec) in [("root_decode_raw", "QRDecoder"), ("root_decode_info_raw", "QRDecoderWithInfo")] {
        for (what, m) in &msgs {
            let Some(f) = body_of(&root(name)) else {
                rep.und(prop, "entry points not found");
                return;
            };
            let e = Val::err(Val::agg(vec![m.clone()]));
            let mut it = Interp::new();
            let outs = it.run_fn(State::new(), &f, vec![Val::sh(Val::agg(vec![])), e.clone()]);
            rep.count(prop, "errors passed", 1);
            let what = format!("{} given an extraction error with {}", dec, what);
            let exact = it.unmod.is_empty() && !it.aborted;
            if outs.is_empty() && exact {
                rep.viol(prop, &format!("{} never returns an extraction error", dec), &what);
            }
            for (st, o) in &outs {
                if *o == e {
                    continue;
                }
                if exact && o.loss() == 0 && st.pc.iter().all(|c| cond_loss(c.0) == 0) && definitely_other(o, &e) {
                    rep.viol(prop, &format!("{} does not return the extraction error as it is", dec), &format!("{}: {:?}", what, o));
                } else {
                    rep.und(prop, &format!("{}: not resolved {:?}", what, it.unmod.keys().next()));
                }
            }
        }
    }
}
fn definitely_other(o: &Val, e: &Val) -> bool {
    match (o, e) {
        (Val::En(a), Val::En(b)) if a.var != b.var => true,
        (Val::En(a), Val::En(b)) => a.f.iter().zip(&b.f).any(|(x, y)| definitely_other(x, y)),
        (Val::Agg(a), Val::Agg(b)) => a.iter().zip(b.iter()).any(|(x, y)| definitely_other(x, y)),
        // texts of known parts
        (Val::Str(a), Val::Str(b)) => a != b && !a.p.iter().any(|p| matches!(p, Part::Opaque(_))),
        _ => false,
    }
}
