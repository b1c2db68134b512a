//! Case runner: deterministic cases, panics and hangs caught, replay files.
use std::cell::RefCell;
use std::collections::HashSet;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x9E3779B97F4A7C15); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! eq {
    ($a:expr, $b:expr, $($m:tt)*) => { match (&$a, &$b) { (a, b) => if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); } } };
}

thread_local! { static PANIC: RefCell<Option<String>> = RefCell::new(None); }

pub struct Failure { pub family: String, pub index: u64, pub desc: String, pub msg: String }

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub replay: Option<(String, u64)>,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<(String, String)>,
    pub families: Vec<(String, u64, u64)>,
    pub failures: Vec<Failure>,
    pub start: Instant,
    pub budget: Duration,
    progress: Option<std::fs::File>,
    watch: Arc<Watch>,
}

struct Watch { beat: AtomicU64, info: Mutex<(String, u64)> }

/// Per case: random numbers, and a log that says what the case did.
pub struct Case { pub rng: Rng, pub log: Vec<String>, pub nontrivial: bool, pub thorough: bool, pub index: u64 }
impl Case {
    pub fn log(&mut self, s: String) { if self.log.len() < 4000 { self.log.push(s); } }
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool, replay: Option<(String, u64)>, progress: Option<std::path::PathBuf>, budget: u64) -> Ctx {
        std::panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, msg)));
        }));
        let watch = Arc::new(Watch { beat: AtomicU64::new(0), info: Mutex::new((String::new(), 0)) });
        let w = watch.clone();
        // a case that does not end within this time is a hang
        std::thread::spawn(move || {
            let mut last = (0u64, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let b = w.beat.load(Ordering::SeqCst);
                if b != last.0 { last = (b, Instant::now()); }
                else if b != 0 && last.1.elapsed() > Duration::from_secs(60) {
                    eprintln!("HANG in {:?}", w.info.lock().unwrap());
                    std::process::exit(99);
                }
            }
        });
        Ctx { prop: prop.into(), seed, thorough, replay, evaluations: 0, distinct: HashSet::new(), samples: vec![], families: vec![],
              failures: vec![], start: Instant::now(), budget: Duration::from_secs(budget), progress: progress.map(|p| std::fs::File::create(p).expect("progress file")), watch }
    }

    /// Runs cases 0..n of a family (n of them in the quick tier, m in the thorough one).
    pub fn family<F: FnMut(&mut Case) -> Res>(&mut self, name: &str, quick: u64, thorough: u64, mut f: F) {
        let total = if self.thorough { thorough } else { thorough.min(quick * 12) };
        let (lo, hi) = match &self.replay {
            Some((fam, idx)) => if fam == name { (*idx, *idx + 1) } else { return },
            None => (0, total),
        };
        let t0 = Instant::now();
        let slice = if self.thorough { self.budget } else { self.budget / 2 };
        let (mut done, mut failed) = (0, 0);
        for index in lo..hi {
            if self.replay.is_none() && (self.start.elapsed() > self.budget || t0.elapsed() > slice) { break; }
            let seed = self.seed.wrapping_mul(0x2545F4914F6CDD1D) ^ hash_str(&self.prop) ^ hash_str(name).rotate_left(17) ^ index.wrapping_mul(0x9E3779B97F4A7C15);
            let mut case = Case { rng: Rng::new(seed), log: vec![], nontrivial: true, thorough: self.thorough, index };
            if let Some(p) = &self.progress {
                // for the driver, should this process be killed by this very case
                let _ = p.write_all_at(format!("{:<40} {:>20}\n", name, index).as_bytes(), 0);
            }
            *self.watch.info.lock().unwrap() = (name.to_string(), index);
            self.watch.beat.fetch_add(1, Ordering::SeqCst);
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
            self.evaluations += 1;
            done += 1;
            let text = case.log.join("\n");
            if case.nontrivial { self.distinct.insert(hash_str(&text) ^ if text.is_empty() { seed } else { 0 } ^ hash_str(name)); }
            let err = match r {
                Ok(Ok(())) => None,
                Ok(Err(e)) => Some(e),
                Err(_) => Some(PANIC.with(|p| p.borrow_mut().take()).unwrap_or("panic".into())),
            };
            if self.samples.iter().filter(|(f, _)| f == name).count() < 1 && !text.is_empty() {
                let mut s = text.clone();
                if s.len() > 1200 { let mut k = 1200; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); s.push_str(" ..."); }
                self.samples.push((name.into(), s));
            }
            if self.replay.is_some() { println!("case {} {}:\n{}\n--> {}", name, index, text, err.as_deref().unwrap_or("ok")); }
            if let Some(msg) = err {
                failed += 1;
                self.failures.push(Failure { family: name.into(), index, desc: text, msg });
                if failed >= 3 { break; }
            }
        }
        self.watch.beat.store(0, Ordering::SeqCst);
        self.families.push((name.into(), done, failed));
    }

    pub fn report(&self) -> String {
        let mut o = String::from("{");
        o.push_str(&format!("\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},", esc(&self.prop), self.seed, self.evaluations, self.distinct.len()));
        o.push_str("\"families\":[");
        o.push_str(&self.families.iter().map(|(n, d, f)| format!("{{\"family\":{},\"cases\":{},\"failed\":{}}}", esc(n), d, f)).collect::<Vec<_>>().join(","));
        o.push_str("],\"samples\":[");
        o.push_str(&self.samples.iter().map(|(n, d)| format!("{{\"family\":{},\"case\":{}}}", esc(n), esc(d))).collect::<Vec<_>>().join(","));
        o.push_str("],\"failures\":[");
        o.push_str(&self.failures.iter().map(|f| format!("{{\"family\":{},\"index\":{},\"case\":{},\"message\":{}}}", esc(&f.family), f.index, esc(&f.desc), esc(&f.msg))).collect::<Vec<_>>().join(","));
        o.push_str("]}\n");
        o
    }
}

/// Strings as users have them: mostly short, sometimes awkward.
pub fn word(r: &mut Rng) -> String {
    const W: &[&str] = &["a", "b", "current", "N", "V", "NP", "naïve", "日本", "x y", "a<b", "&amp;", "\"q\"", "it's", "]]>", "A", "ß", "😀", "é", "e\u{301}", "-", "/", "pos/x", "a/b", "1", "0", "None", "", " ", "tab\tx", "#", "http://x.y/z?a=1&b=2", "UPPER", "upper"];
    if r.chance(1, 6) {
        let n = r.below(12);
        (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
    } else { r.pick(W).to_string() }
}
pub fn nonempty(r: &mut Rng) -> String { loop { let w = word(r); if !w.trim().is_empty() { return w; } } }
pub fn textish(r: &mut Rng) -> String {
    let n = r.range(1, 3);
    let mut s = String::new();
    for i in 0..n { if i > 0 { s.push(' '); } s.push_str(&nonempty(r)); }
    if r.chance(1, 12) { s = format!(" {} ", s); }
    if r.chance(1, 20) { s.push_str("\nline2"); }
    if r.chance(1, 25) { s.push_str(r.pick(&["\n", "\t", " \n ", "\u{a0}", ".", "\r\n"])); }
    s
}
pub fn ident(r: &mut Rng, n: usize) -> String { format!("id.{}", r.below(n)) }

pub fn write_file(path: &str, data: &str) { let mut f = std::fs::File::create(path).expect("create"); f.write_all(data.as_bytes()).expect("write"); }
