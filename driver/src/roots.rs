//! Access to the analysed program.
use crate::ir::*;
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::mono::Instance;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::rc::Rc;

/// function of the roots crate by name
pub fn root(name: &str) -> Rc<FnRef> {
    for it in rustc_public::all_local_items() {
        if it.name().to_string().rsplit("::").next() == Some(name) {
            if let Ok(i) = Instance::try_from(it) {
                return fnref(i);
            }
        }
    }
    panic!("no root {}", name)
}
pub fn all_roots() -> Vec<Rc<FnRef>> {
    let mut v = vec![];
    for it in rustc_public::all_local_items() {
        if it.name().to_string().contains("root_") {
            if let Ok(i) = Instance::try_from(it) {
                v.push(fnref(i));
            }
        }
    }
    v
}
/// functions and closures a body calls or creates
pub fn mentioned(b: &Func) -> Vec<Rc<FnRef>> {
    let mut v = vec![];
    for bl in &b.blocks {
        if let Tm::Call { f: Callee::Fun(g), .. } = &bl.tm.0 {
            v.push(g.clone());
        }
        for (s, _) in &bl.st {
            if let St::Assign(_, Rv::Agg(k, _, _)) = s {
                if let rustc_public::mir::AggregateKind::Closure(d, a) = k.as_ref() {
                    if let Ok(i) = Instance::resolve_closure(*d, a, rustc_public::ty::ClosureKind::FnMut) {
                        v.push(fnref(i));
                    }
                }
            }
        }
    }
    v
}
pub fn run(job: &str) -> i32 {
    match job {
        "dump" => {
            let mut q: VecDeque<Rc<FnRef>> = all_roots().into();
            let mut seen: HashSet<usize> = q.iter().map(|f| f.id).collect();
            let mut ext: BTreeMap<String, (String, usize)> = BTreeMap::new();
            while let Some(f) = q.pop_front() {
                let Some(b) = body_of(&f) else { continue };
                for bl in &b.blocks {
                    if bl.cleanup { continue }
                    if let Tm::Call { f: c, args, .. } = &bl.tm.0 {
                        let mut ts = vec![];
                        match c { Callee::Fun(g) => ts.push(g.clone()), Callee::Virtual(_, _, g) => { ext.entry(format!("VIRT {}", g.path)).or_insert((g.full.clone(), 0)).1 += 1; } _ => {} }
                        let _ = args;
                        for g in ts {
                            if g.krate == "bardecoder" || g.krate == "bvroots" {
                                if seen.insert(g.id) { q.push_back(g) }
                            } else {
                                let e = ext.entry(g.path.clone()).or_insert((g.full.clone(), 0));
                                e.1 += 1;
                            }
                        }
                    }
                    // closures and functions mentioned
                    for (s, _) in &bl.st {
                        if let St::Assign(_, Rv::Agg(k, _, _)) = s {
                            if let rustc_public::mir::AggregateKind::Closure(d, a) = k.as_ref() {
                                if let Ok(i) = Instance::resolve_closure(*d, a, rustc_public::ty::ClosureKind::FnMut) {
                                    let g = fnref(i);
                                    if seen.insert(g.id) { q.push_back(g) }
                                }
                            }
                        }
                    }
                }
            }
            for (k, v) in ext { println!("{}\t{}\t{}", k, v.1, v.0) }
            0
        }
        "t1" => {
            use crate::interp::*; use crate::term::*; use crate::val::*;
            let v: u32 = std::env::var("V").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let side = 4 * v + 17;
            let mut it = Interp::new();
            it.lin_zero = std::env::var("LZ").is_ok();
            let mut data: Vec<Val> = (0..side * side).map(|i| Val::I(Int::of_lit(base(1, i), false))).collect();
            if let Ok(lm) = std::env::var("FMT") {
                let lm: u32 = lm.parse().unwrap();
                let b = crate::iso::format_bits((lm / 8) as usize, lm % 8);
                for c in 1..=2 { for (k, (x, y)) in crate::iso::format_pos(v, c).iter().enumerate() { data[(y * side + x) as usize] = Val::c(b[k] as i128); } }
            }
            let f = body_of(&root("root_decode")).unwrap();
            struct H; impl Hooks for H { fn call(&mut self, _it: &mut Interp, st: &mut State, f: &Rc<FnRef>, args: &mut Vec<Val>, _ret: rustc_public::ty::Ty) -> Option<Outs> {
                if f.krate == "bardecoder" && std::env::var("CALLS").is_ok() && !f.path.contains("Index") { println!("CALL {} {}", f.path, args.iter().map(short).collect::<Vec<_>>().join(" | ")); }
                if f.path.ends_with("Chomp::new") { 
                    println!("CHOMP pc={} {}", st.pc.len(), short(&args[0]));
                    if let Val::Seq(s) = &args[0] { if let Seq::Ex(v) = s.as_ref() { for x in v.iter().take(3) { println!("  {:?}", x); } } }
                    return Some(vec![]); }
                None } }
            it.hooks = Some(Box::new(H));
            let t = std::time::Instant::now();
            let outs = it.run_fn(State::new(), &f, vec![Val::sh(Val::agg(vec![])), Val::vec(data), Val::c(v as i128)]);
            println!("outs {} time {:?} steps {}", outs.len(), t.elapsed(), it.steps);
            for (s, v) in outs.iter().take(20) { println!("  pc {} -> {}", s.pc.len(), short(v)); }
            for (k, n) in &it.unmod { println!("UNMOD {} {}", k, n); }
            for (k, n) in &it.notes { println!("NOTE {} {}", k, n); }
            for (k, n) in &it.widened { println!("WIDENED {} {}", k, n); }
            for (k, o) in &it.ob { if o.fail > 0 { println!("FAIL {} {:?} {}", o.fail, k, o.detail); } }
            0
        }
        _ if crate::jobs::dbg(job) => 0,
        _ => crate::jobs::run(job),
    }
}
pub fn dbg_run(name: &str, args: Vec<crate::val::Val>) {
    use crate::interp::*;
    let f = body_of(&root(name)).unwrap();
    let mut it = Interp::new();
    it.trace = std::env::var("TRACE").is_ok();
    let t = std::time::Instant::now();
    let outs = it.run_fn(State::new(), &f, args);
    println!("outs {} time {:?} steps {} aborted {}", outs.len(), t.elapsed(), it.steps, it.aborted);
    for (s, v) in outs.iter().take(20) { println!("  pc {} -> {}", s.pc.len(), short(v)); }
    for (k, n) in &it.unmod { println!("UNMOD {} {}", k, n); }
    for (k, n) in &it.notes { println!("NOTE {} {}", k, n); }
    for (k, n) in &it.widened { println!("WIDENED {} {}", k, n); }
    let (mut a, mut b) = (0, 0);
    for (k, o) in &it.ob { a += 1; if o.fail > 0 { b += 1; println!("FAIL {} def={} {} | {} | {} :: {}", o.fail, o.definite, k.func, k.at, k.kind, o.detail); } }
    println!("obligations {} failing {}", a, b);
}
