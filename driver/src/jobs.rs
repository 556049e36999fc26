//! One analysis job per property.
use crate::decode_scen::*;
use crate::scen::*;

fn thorough() -> bool {
    std::env::var("BV_TIER").map(|x| x == "thorough").unwrap_or(false)
}
fn seed() -> u32 {
    std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1)
}
pub fn run(prop: &str) -> i32 {
    let mut rep = Rep::default();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("BV_TRACE").is_ok() {
            eprintln!("{}", i);
        }
    }));
    let mut done = true;
    match prop {
        "C15" => {
            symbols(prop, &mut rep);
            format_errors(&mut rep);
        }
        "C06" | "C07" => {
            for n in 0..5usize {
                for e in 0..1u128 << n {
                    for d in 0..1u128 << n {
                        if n < 4 || e == 0 || d == 0 || e == d {
                            crate::pipe_scen::pipeline(n, e, d, &mut rep, prop);
                        }
                    }
                }
            }
            // longer lists with a few patterns of failures
            let mut x = seed() as u128 * 0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835 | 1;
            for n in [5usize, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 31, 32, 33, 50, 63, 64, 65, 100, 127] {
                let all = (1u128 << n) - 1;
                let mut next = || {
                    x = x.wrapping_mul(0x2360_ED05_1FC6_5DA4_4385_DF64_9FCC_F645).wrapping_add(0x5851_F42D_4C95_7F2D);
                    (x >> 1) & all
                };
                for (e, d) in [(0, 0), (next(), next()), (1 << (n - 1), 1), (all, 0)] {
                    crate::pipe_scen::pipeline(n, e, d, &mut rep, prop);
                }
            }
            if prop == "C06" {
                crate::pipe_scen::pipeline_many(&mut rep, prop);
            }
        }
        "C09" => crate::pipe_scen::builder(&mut rep, prop),
        "C26" | "C11" => {
            let mut j = crate::damage_scen::jobs(seed() as u64, thorough());
            if prop == "C26" {
                j.extend(crate::damage_scen::full_jobs(seed() as u64));
            }
            if prop == "C11" {
                j.extend((1..=40).flat_map(|v| (0..4).map(move |l| (v, l, (v + l as u32) % 8, vec![]))));
            }
            par(&mut rep, prop, j.len(), &|i| { let s = crate::iso::side(j[i].0) as u64; s * s }, &|i, r| {
                let (v, l, m, e) = &j[i];
                crate::damage_scen::damaged(*v, *l, *m, e, r, &[prop]);
            });
        }
        "C08" => crate::pipe_scen::passed(&mut rep, prop),
        "C10" => {
            let mut j: Vec<_> = crate::damage_scen::jobs(seed() as u64, thorough()).into_iter().filter(|x| x.0 < 10).enumerate().filter(|x| thorough() || x.0 % 3 == 0).map(|x| x.1).collect();
            for v in 1..=40u32 {
                for l in 0..4 {
                    if thorough() || (v + l as u32) % 4 == seed() % 4 {
                        j.push((v, l, (v * 3 + seed()) % 8, vec![]));
                    }
                }
            }
            par(&mut rep, prop, j.len() + 1, &|i| if i == j.len() { 10000 } else { let s = crate::iso::side(j[i].0) as u64; s * s }, &|i, r| {
                if i == j.len() {
                    return crate::damage_scen::agree_other(r, prop);
                }
                let (v, l, m, e) = &j[i];
                crate::damage_scen::agree(*v, *l, *m, e, r, prop);
            });
        }
        "C19" => {
            let n = if thorough() { 9 } else { 6 };
            let long: &[usize] = if thorough() { &[17, 64, 255, 256, 1000, 2956, 8200] } else { &[17, 64, 255, 256, 1000, 2956] };
            par(&mut rep, prop, n + long.len(), &|i| if i < n { (i * i) as u64 } else { long[i - n] as u64 }, &|i, r| {
                if i < n {
                    crate::util_scen::chomp(i, r, prop)
                } else {
                    crate::util_scen::chomp_long(long[i - n], r, prop)
                }
            });
        }
        "C18" => {
            par(&mut rep, prop, 40, &|i| if [0, 8, 9, 25, 26, 39].contains(&i) { 100 } else { 10 + i as u64 / 2 }, &|i, r| crate::seg_scen::versions(i as u32 + 1, thorough(), r, prop));
        }
        "C16" => crate::gfcheck::fields(&mut rep, prop),
        "C17" => {
            let mut j = vec![];
            for l in 0..4usize {
                for (k, r) in ["root_decode", "root_decode_parts"].iter().enumerate() {
                    j.push((1u32, l, (seed() + l as u32) % 8, *r));
                    if k == 0 || thorough() {
                        j.push((2, l, (seed() + 3 + l as u32) % 8, *r));
                    }
                }
            }
            for (v, l) in [(3, 0), (3, 2), (4, 1), (4, 2), (5, 0), (5, 1), (4, 0), (3, 1)] {
                j.push((v, l, (v + seed()) % 8, "root_decode"));
            }
            par(&mut rep, prop, j.len(), &|i| j[i].0 as u64, &|i, r| {
                let (v, l, m, n) = j[i];
                crate::damage_scen::checked_symbol(v, l, m, n, r, prop);
            });
            symbols(prop, &mut rep);
        }
        "C23" => {
            let j = crate::extract_scen::jobs(thorough(), seed());
            par(&mut rep, prop, j.len(), &|i| { let s = crate::iso::side(j[i].0.v) as u64; s * s }, &|i, r| match &j[i] {
                (g, 9) => crate::extract_scen::sampled(g, r, prop),
                (g, k) => crate::extract_scen::refused(g, *k, r, prop),
            });
        }
        "C01" => {
            use crate::robust_dec as rd;
            let (near, far) = crate::decode_scen::error_classes();
            let mut f: Vec<(u32, u32, bool)> = vec![];
            for (i, a) in near.iter().enumerate() {
                f.push((*a, far[i % far.len()], true));
                f.push((far[(i * 7 + seed() as usize) % far.len()], *a, true));
            }
            for (i, b) in far.iter().enumerate() {
                f.push((*b, far[(i * 11 + 3) % far.len()], false));
            }
            let s = seed() as usize;
            let f: Vec<_> = f.into_iter().enumerate().filter(|(i, _)| thorough() || (i + s) % 4 == 0).map(|x| x.1).collect();
            par(&mut rep, prop, f.len(), &|_| 1, &|i, r| rd::format_damage(f[i].0, f[i].1, if thorough() || !f[i].2 { None } else { Some(i as u32 + seed()) }, r, prop));
            let h = rd::hostile(seed() as u64, thorough());
            par(&mut rep, prop, h.len(), &|i| h[i].0 as u64, &|i, r| rd::damage(h[i].0, h[i].1, h[i].2, &h[i].3, if i % 4 == 0 { "root_decode_info" } else { "root_decode" }, r, prop));
            let n = if thorough() { 160 } else { 40 };
            par(&mut rep, prop, n, &|i| { let s = crate::iso::side(i as u32 % 40 + 1) as u64; s * s }, &|i, r| {
                let v = i as u32 % 40 + 1;
                rd::clean(v, (v as usize / 2 + i / 40) % 4, (v / 4 + seed()) % 8, r, prop)
            });
            let u: Vec<(i128, i128)> = vec![(0, 17), (41, 181), (42, 185), (45, 197), (50, 217), (100, 417)];
            par(&mut rep, prop, u.len(), &|i| u[i].1 as u64, &|i, r| rd::unknown_version(u[i].0, u[i].1, r, prop));
            let mut y: Vec<(u32, i32)> = vec![];
            for v in 1..=40 {
                for n in -2..5 {
                    if n >= 0 || [1, 9, 10, 26, 27, 40].contains(&v) {
                        y.push((v, n));
                    }
                }
            }
            y.retain(|(v, n)| *n < 4 || *v > 9);
            par(&mut rep, prop, y.len(), &|i| if y[i].1 < 0 { 50 } else { 1 << y[i].1 }, &|i, r| match y[i] {
                (v, -2) => rd::streams(v, thorough(), r, prop),
                (v, -1) => rd::payload(v, None, r, prop),
                (v, n) => rd::payload(v, Some(n as usize), r, prop),
            });
        }
        "C02" => {
            use crate::robust_scen as rs;
            let e = rs::places();
            par(&mut rep, prop, e.len(), &|i| e[i].v as u64, &|i, r| rs::extract_at(&e[i], r, prop));
            if rep.lines.iter().any(|l| l.starts_with("U")) || std::env::var("BV_REFUTE").is_ok() {
                par(&mut rep, prop, e.len(), &|i| e[i].v as u64, &|i, r| rs::refute_extract(&e[i], r, prop));
            }
            let d = rs::sizes(thorough());
            par(&mut rep, prop, d.len(), &|_| 1, &|i, r| rs::detect_in(d[i].0, d[i].1, r, prop));
            let mut q: Vec<(u32, u32, i128, i128)> = vec![];
            for n in 0..if thorough() { 24 } else { 13 } {
                for m in 0..if thorough() { 24 } else { 13 } {
                    q.push((5, 7, n, m));
                }
            }
            for (b, m) in [(1, 1), (1, 3), (2, 2), (3, 9), (7, 4), (8, 8), (40, 3)] {
                for (x, y) in [(0, 0), (1, 1), (1, 20), (20, 1), (21, 17), (16, 24)] {
                    q.push((b, m, x, y));
                }
            }
            par(&mut rep, prop, q.len(), &|i| (q[i].2 * q[i].3) as u64, &|i, r| rs::prepare_in(q[i].0, q[i].1, q[i].2, q[i].3, r, prop));
            if rep.lines.iter().any(|l| l.starts_with("U") && l.contains("detect")) || std::env::var("BV_REFUTE").is_ok() {
                let w = rs::witnesses();
                par(&mut rep, prop, w.len(), &|i| w[i].3.len() as u64, &|i, r| rs::refute(&w[i].0, w[i].1, w[i].2, &w[i].3, r, prop));
            }
        }
        "C04" => crate::effects::run(&mut rep, prop),
        // the compiler has judged the crate by now
        "C27" => crate::effects::safe(&mut rep, prop),
        "C05" => configured(prop, &mut rep),
        "C20" => {
            let mut j: Vec<(u32, u32, i128, i128)> = vec![];
            for (w, h) in [(1, 1), (4, 9), (9, 4), (5, 5), (7, 12), (12, 7), (20, 20), (50, 20), (20, 50), (48, 33), (61, 23), (23, 61), (64, 64), (3, 40), (40, 3), (100, 11), (11, 100)] {
                j.push((5, 7, w, h));
            }
            // beyond what fits into eight or sixteen bits
            for (w, h) in [(300, 9), (9, 300), (1300, 6), (6, 1300)] {
                j.push((5, 7, w, h));
            }
            for (b, m) in [(1, 3), (2, 4), (3, 3), (4, 5), (8, 7), (10, 3), (16, 9), (7, 11), (5, 6)] {
                j.push((b, m, 37, 29));
                j.push((b, m, 16, 33));
            }
            if thorough() {
                for n in 1..60 {
                    j.push((5, 7, n, 61 - n));
                    j.push((1 + n as u32 % 9, 2 + n as u32 / 6, 40 + n, 70 - n));
                }
                j.push((5, 7, 150, 120));
                j.push((5, 7, 66000, 1));
                j.push((5, 7, 1, 66000));
            }
            par(&mut rep, prop, j.len(), &|i| (j[i].2 * j[i].3) as u64, &|i, r| crate::img_scen::thresholds(j[i].0, j[i].1, j[i].2, j[i].3, r, prop));
        }
        "C21" => crate::find_scen::located(&mut rep, prop, seed(), thorough()),
        "C25" => {
            for op in 0..8 {
                crate::util_scen::vectors(op, &mut rep, prop);
            }
        }
        "C24" => {
            par(&mut rep, prop, 40, &|i| ((i + 5) * (i + 5)) as u64, &|i, r| crate::util_scen::symbol_data(i as u32 + 1, r, prop));
            symbols(prop, &mut rep);
        }
        "C12" | "C13" | "C14" | "C22" => symbols(prop, &mut rep),
        _ => done = false,
    }
    if !done {
        return 2;
    }
    print!("{}", rep.text());
    println!("DONE\t{}", prop);
    0
}
/// C05: the judgements on the stages, in another configuration
fn configured(prop: &str, rep: &mut Rep) {
    use crate::robust_scen as rs;
    let s = seed() as usize;
    // extraction
    let mut j = crate::extract_scen::jobs(thorough(), seed());
    let max = if thorough() { 20 } else { 7 };
    j.retain(|x| x.0.v <= max);
    let j: Vec<_> = j.into_iter().enumerate().filter(|(i, x)| thorough() || x.0.v <= 1 || (i + s) % 3 == 0).map(|x| x.1).collect();
    par(rep, prop, j.len(), &|i| j[i].0.v as u64, &|i, r| match &j[i] {
        (g, 9) => crate::extract_scen::sampled(g, r, prop),
        (g, k) => crate::extract_scen::refused(g, *k, r, prop),
    });
    let e = rs::places();
    let e: Vec<_> = e.into_iter().enumerate().filter(|(i, e)| thorough() || e.v <= 1 || (i + s) % 3 == 0).map(|x| x.1).collect();
    par(rep, prop, e.len(), &|i| e[i].v as u64, &|i, r| rs::extract_at(&e[i], r, prop));
    if rep.has_und(prop) || std::env::var("BV_REFUTE").is_ok() {
        par(rep, prop, e.len(), &|i| e[i].v as u64, &|i, r| rs::refute_extract(&e[i], r, prop));
    }
    // detection
    crate::find_scen::located(rep, prop, seed(), false);
    let d = rs::sizes(false);
    par(rep, prop, d.len(), &|_| 1, &|i, r| rs::detect_in(d[i].0, d[i].1, r, prop));
    // preparation
    let q = [(5, 7, 12, 9), (5, 7, 1, 1), (2, 4, 17, 11), (5, 7, 40, 33)];
    par(rep, prop, q.len(), &|i| (q[i].2 * q[i].3) as u64, &|i, r| crate::img_scen::thresholds(q[i].0, q[i].1, q[i].2, q[i].3, r, prop));
    // decoding
    let j: Vec<_> = crate::damage_scen::jobs(seed() as u64, false).into_iter().filter(|x| x.0 < 8).enumerate().filter(|x| x.0 % 6 == s % 6).map(|x| x.1).collect();
    par(rep, prop, j.len(), &|i| j[i].0 as u64, &|i, r| {
        let mut q = Rep::default();
        crate::damage_scen::damaged(j[i].0, j[i].1, j[i].2, &j[i].3, &mut q, &["C11", "C26"]);
        r.merge_as(&q, prop);
    });
    par(rep, prop, 10, &|i| i as u64, &|i, r| crate::seg_scen::versions([1, 2, 5, 9, 10, 11, 26, 27, 33, 40][i], false, r, prop));
    let mut k: Vec<(u32, usize, u32, u32)> = vec![];
    for m in 0..8 {
        k.push(([1, 2, 7, 10, 14, 5, 4, 6][m as usize], m as usize % 4, m, 1 + m % 2));
    }
    par(rep, prop, k.len(), &|i| k[i].0 as u64, &|i, r| {
        let mut q = Rep::default();
        clean_symbol(k[i].0, k[i].1, k[i].2, k[i].3, &mut q, &["C12", "C13", "C14", "C15", "C22"]);
        r.merge_as(&q, prop);
    });
}
fn format_errors(rep: &mut Rep) {
    let (good, bad) = error_classes();
    let s = seed() as usize;
    let mut jobs: Vec<(u32, u32, bool)> = vec![];
    for (i, e) in good.iter().enumerate() {
        jobs.push((*e, bad[(i * 7 + s) % bad.len()], true));
        if thorough() || i < 16 || (i + s) % 8 == 0 {
            jobs.push((bad[(i * 11 + s) % bad.len()], *e, true));
        }
    }
    for (i, e) in bad.iter().enumerate() {
        jobs.push((*e, bad[(i * 5 + s) % bad.len()], false));
    }
    par(rep, "C15", jobs.len(), &|i| if jobs[i].2 { 100 } else { 1 }, &|i, r| {
        let (a, b, ok) = jobs[i];
        let few = if thorough() || !ok || a.count_ones().min(b.count_ones()) < 2 { None } else { Some(i as u32 + s as u32) };
        format_symbol(a, b, ok, few, r);
    });
}
fn symbols(prop: &str, rep: &mut Rep) {
    let s = seed();
    // (version, level, mask, intact format copy)
    let mut jobs: Vec<(u32, usize, u32, u32)> = vec![];
    let rot = |v: u32, l: usize| (v + l as u32 * 3 + s) % 8;
    match prop {
        "C14" => {
            for m in 0..8 {
                for v in [1, 2, 5, 7, 14, 25, 40] {
                    jobs.push((v, (m as usize + v as usize) % 4, m, 1));
                }
            }
        }
        "C15" => {
            for l in 0..4 {
                for m in 0..8 {
                    jobs.push((1, l, m, 1));
                    jobs.push((1, l, m, 2));
                    jobs.push((7, l, m, 1 + (m + l as u32) % 2));
                }
            }
            for v in [2, 14, 21, 27, 33, 40] {
                jobs.push((v, (v % 4) as usize, v % 8, 2));
            }
        }
        "C12" | "C17" => {
            for v in 1..=40 {
                for l in 0..4 {
                    jobs.push((v, l, rot(v, l), 1));
                }
            }
        }
        "C22" => {
            for v in 1..=40 {
                for l in 0..4 {
                    if true {
                        jobs.push((v, l, rot(v, l), 1));
                    }
                }
            }
        }
        _ => {
            for v in 1..=40 {
                jobs.push((v, (v as usize + s as usize) % 4, rot(v, 0), 1));
            }
        }
    }
    if thorough() {
        for v in 1..=40 {
            for m in 0..8 {
                jobs.push((v, (v + m) as usize % 4, m, 1 + m % 2));
            }
        }
    }
    jobs.sort();
    jobs.dedup();
    par(rep, prop, jobs.len(), &|i| { let s = crate::iso::side(jobs[i].0) as u64; s * s }, &|i, r| {
        let (v, l, m, w) = jobs[i];
        clean_symbol(v, l, m, w, r, &[prop]);
    });
}
pub fn dbg(job: &str) -> bool {
    let a: Vec<u32> = std::env::var("A").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect();
    match job {
        "dfmt" => {
            let v = 1;
            let s = crate::iso::side(v);
            let mut d = symbol(v, None, None);
            for (c, e) in [(1, a[0]), (2, a[1])] {
                for ((x, y), b) in crate::iso::format_pos(v, c).iter().zip(format_word(e)) {
                    d[(y * s + x) as usize] = crate::val::Val::I(crate::term::Int::of_bits(vec![crate::ops::bit_xor_bit(b, crate::term::Bit::O); 8]));
                }
            }
            let r = run_decode_p("root_decode", v, d, true, 64, &[]).unwrap();
            show_run(&r);
        }
        "dcln" => crate::robust_dec::clean(a[0], a[1] as usize, a[2], &mut Rep::default(), "C01"),
        "dver" => crate::robust_dec::unknown_version(a[0] as i128, a[1] as i128, &mut Rep::default(), "C01"),
        "dmod" => crate::robust_dec::modules(a[0], if a[1] < 4 { Some((a[1] as usize, a[2])) } else { None }, if a[2] > 7 { "root_decode_info" } else { "root_decode" }, &mut Rep::default(), "C01"),
        "dpay" => crate::robust_dec::payload(a[0], if a[1] < 9999 { Some(a[1] as usize) } else { None }, &mut Rep::default(), "C01"),
        "drob" => {
            let e = &crate::robust_scen::places()[a[0] as usize];
            let (it, _) = crate::extract_scen::run(crate::robust_scen::bw(e.w, e.h), crate::robust_scen::place(e.tl, e.tr, e.bl, 1.0, e.v)).unwrap();
            println!("{:?} steps {}", e, it.steps);
            for (k, o) in &it.ob {
                if o.fail > 0 {
                    println!("OB {} fail {} definite {} {} {}: {} {}", o.seen, o.fail, o.definite, k.func, k.at, k.kind, o.detail);
                    if let Some(i) = o.detail.find("int(f") {
                        let n: u32 = o.detail[i + 5..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap();
                        println!("  {}", crate::find_scen::fshow(crate::flt::Flt(n), 7));
                        let mut v = vec![];
                        crate::flt::subterms(crate::flt::Flt(n), &mut v);
                        for t in v { let i = t.info(); println!("   {} [{},{}] {:?} loss {}", t.0, i.lo, i.hi, i.nan, i.loss); }
                    }
                }
            }
        }
        "dprep" | "ddsz" | "dpx" | "ddet" | "dext" => crate::img_scen::dbg(job, &a),
        "ddirty" => {
            let fb = crate::iso::format_bits(a[1] as usize, 0);
            let r = run_decode("root_decode", a[0], symbol(a[0], Some(&fb), Some(&fb)), false).unwrap();
            println!("outs {} caps {} steps {} aborted {}", r.outs.len(), r.caps.len(), r.it.steps, r.it.aborted);
            for (s, v, _) in &r.caps {
                println!(" cap loss {} pc {}", s.pc_loss(), s.pc.len());
                for (c, b) in s.pc.iter() {
                    let d = crate::term::cond_def(*c);
                    println!("   {} loss {} {}", b, crate::term::cond_loss(*c), match d { crate::term::Cond::LinEq0(l) => format!("lin {} terms k {}", l.t.len(), l.k), x => format!("{:?}", x).chars().take(150).collect() });
                }
                if let Some(b) = bytes_of(&v[0]) { for x in b.iter().take(3) { println!("   byte loss {} {}", x.loss(), match x { crate::term::Int::B(_) => "bits", crate::term::Int::P(_) => "poly", _ => "other" }); } }
            }
            for (k, n) in &r.it.notes { println!("NOTE {} {}", k, n); }
            for (k, n) in &r.it.widened { println!("WIDENED {} {}", k, n); }
            for (k, n) in &r.it.unmod { println!("UNMOD {} {}", k, n); }
        }
        "dfind" => crate::find_scen::dbg(),
        "dmany" => crate::pipe_scen::dbg_many(),
        _ => return false,
    }
    true
}
fn show_run(r: &Run) {
    println!("outs {} caps {} steps {} aborted {}", r.outs.len(), r.caps.len(), r.it.steps, r.it.aborted);
    for (s, v) in r.outs.iter().take(20) {
        println!("  out pc {} loss {} -> {}", s.pc.len(), s.pc_loss(), crate::interp::short(v));
        for (c, b) in s.pc.iter() {
            println!("      {} {:?} loss {}", b, crate::term::cond_def(*c), crate::term::cond_loss(*c));
        }
    }
    for (s, v, _) in r.caps.iter().take(40) {
        println!("  cap pc {} loss {} -> {}", s.pc.len(), s.pc_loss(), v.iter().map(crate::interp::short).collect::<Vec<_>>().join(" | "));
        for (c, b) in s.pc.iter() {
            println!("      {} {:?} loss {}", b, crate::term::cond_def(*c), crate::term::cond_loss(*c));
        }
    }
    for (k, n) in &r.it.unmod { println!("UNMOD {} {}", k, n); }
    for (k, n) in &r.it.notes { println!("NOTE {} {}", k, n); }
    for (k, n) in &r.it.widened { println!("WIDENED {} {}", k, n); }
    for (k, o) in &r.it.ob { if o.fail > 0 { println!("FAIL {} def={} {} | {} | {} :: {}", o.fail, o.definite, k.func, k.at, k.kind, o.detail); } }
}
