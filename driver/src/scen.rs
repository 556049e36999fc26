//! Reports and the parallel runner.
use std::collections::BTreeMap;
use std::io::{Read, Write};

#[derive(Default)]
pub struct Rep {
    pub lines: Vec<String>,
    pub n: BTreeMap<(String, String), u64>,
    seen: std::collections::HashSet<String>,
}
fn clean(s: &str) -> String {
    s.replace(['\t', '\n', '\r'], " ")
}
impl Rep {
    /// a violation: stable key, explanation
    pub fn viol(&mut self, prop: &str, key: &str, detail: &str) {
        let k = format!("V\t{}\t{}", prop, clean(key));
        if self.seen.insert(k.clone()) {
            self.lines.push(format!("{}\t{}", k, clean(detail)));
        }
    }
    /// something the analysis could not decide; reported, never an alarm
    pub fn und(&mut self, prop: &str, what: &str) {
        let k = format!("U\t{}\t{}", prop, clean(what));
        if self.seen.insert(k.clone()) {
            self.lines.push(k);
        }
    }
    pub fn has_und(&self, prop: &str) -> bool {
        self.lines.iter().any(|l| l.split('\t').take(2).eq(["U", prop]))
    }
    /// an analysed item worth listing
    pub fn item(&mut self, prop: &str, what: &str) {
        let k = format!("I\t{}\t{}", prop, clean(what));
        if self.seen.insert(k.clone()) {
            self.lines.push(k);
        }
    }
    pub fn count(&mut self, prop: &str, what: &str, n: u64) {
        *self.n.entry((prop.to_string(), what.to_string())).or_insert(0) += n;
    }
    pub fn merge_text(&mut self, t: &str) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("N\t") {
                let p: Vec<&str> = r.split('\t').collect();
                if p.len() == 3 {
                    self.count(p[0], p[1], p[2].parse().unwrap_or(0));
                }
            } else if !l.is_empty() {
                let k: String = if l.starts_with('V') { l.splitn(4, '\t').take(3).collect::<Vec<_>>().join("\t") } else { l.to_string() };
                if self.seen.insert(k) {
                    self.lines.push(l.to_string());
                }
            }
        }
    }
    /// the reports of another property's judgement
    pub fn merge_as(&mut self, q: &Rep, prop: &str) {
        let mut t = String::new();
        for l in q.text().lines() {
            let mut f: Vec<&str> = l.splitn(3, '\t').collect();
            f[1] = prop;
            t.push_str(&f.join("\t"));
            t.push('\n');
        }
        self.merge_text(&t);
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for l in &self.lines {
            s.push_str(l);
            s.push('\n');
        }
        for ((p, w), n) in &self.n {
            s.push_str(&format!("N\t{}\t{}\t{}\n", p, w, n));
        }
        s
    }
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
}
fn resident_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4 / 1024
}
/// run jobs 0..n over worker processes; `cost` orders them (expensive first)
pub fn par(rep: &mut Rep, prop: &str, n: usize, cost: &dyn Fn(usize) -> u64, job: &dyn Fn(usize, &mut Rep)) {
    let began = std::time::Instant::now();
    let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8).min(n.max(1));
    let mut ids: Vec<usize> = (0..n).collect();
    ids.sort_by_key(|i| std::cmp::Reverse(cost(*i)));
    let dir = std::env::temp_dir().join(format!("bv-{}-{}", std::process::id(), prop));
    let _ = std::fs::create_dir_all(&dir);
    let mut kids = vec![];
    // longest first; each worker takes the next job from a pipe
    let mut fds = [0i32; 2];
    unsafe {
        pipe(fds.as_mut_ptr());
    }
    let mut first: Vec<usize> = vec![];
    for (k, i) in ids.iter().enumerate() {
        // what the pipe may not hold is dealt out beforehand
        if k < 12_000 {
            let b = (*i as u32).to_ne_bytes();
            unsafe {
                write(fds[1], b.as_ptr(), 4);
            }
        } else {
            first.push(*i);
        }
    }
    unsafe {
        close(fds[1]);
    }
    let start = |w: usize, dealt: bool| {
        let _ = std::io::stdout().flush();
        let pid = unsafe { fork() };
        if pid == 0 {
            let mut mine: Vec<usize> = first.iter().enumerate().filter(|(k, _)| dealt && k % workers == w).map(|(_, i)| *i).collect();
            loop {
                // terms are never freed: a fresh process takes over
                if mine.is_empty() && resident_mb() > 1_500 {
                    unsafe { _exit(7) }
                }
                let mut b = [0u8; 4];
                let i = match mine.pop() {
                    Some(i) => i,
                    None if unsafe { read(fds[0], b.as_mut_ptr(), 4) } == 4 => u32::from_ne_bytes(b) as usize,
                    None => break,
                };
                let mut r = Rep::default();
                let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| job(i, &mut r))).is_ok();
                if !ok {
                    r.und(prop, &format!("analysis of job {} stopped", i));
                    r.count(prop, "crashed jobs", 1);
                }
                r.count(prop, "jobs", 1);
                let p = dir.join(format!("{}", i));
                if let Ok(mut f) = std::fs::File::create(&p) {
                    let _ = f.write_all(r.text().as_bytes());
                    let _ = f.write_all(b"END\n");
                }
            }
            unsafe { _exit(0) }
        }
        pid
    };
    for w in 0..workers {
        kids.push((w, start(w, true)));
    }
    while !kids.is_empty() {
        let mut st = 0;
        let pid = unsafe { waitpid(-1, &mut st, 0) };
        if pid < 0 {
            break;
        }
        if let Some(k) = kids.iter().position(|(_, p)| *p == pid) {
            let (w, _) = kids.remove(k);
            if st & 0x7f == 0 && st >> 8 & 0xff == 7 || st & 0x7f != 0 {
                kids.push((w, start(w, false)));
            }
        }
    }
    unsafe {
        close(fds[0]);
    }
    for i in 0..n {
        let p = dir.join(format!("{}", i));
        let mut t = String::new();
        let ok = std::fs::File::open(&p).and_then(|mut f| f.read_to_string(&mut t)).is_ok();
        if ok && t.ends_with("END\n") {
            rep.merge_text(&t[..t.len() - 4]);
        } else {
            rep.und(prop, &format!("analysis of job {} gave no answer", i));
            rep.count(prop, "crashed jobs", 1);
        }
        let _ = std::fs::remove_file(&p);
    }
    let _ = std::fs::remove_dir(&dir);
    if std::env::var("BV_TIME").is_ok() {
        eprintln!("{} jobs in {:?}", n, began.elapsed());
    }
}
