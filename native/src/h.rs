//! Support for executable contracts run on the real code.
use std::collections::{HashMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub static BEAT: AtomicU64 = AtomicU64::new(0);
pub static PANICS: AtomicU64 = AtomicU64::new(0);
pub static LAST_AT: Mutex<String> = Mutex::new(String::new());
pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
static DONE: AtomicBool = AtomicBool::new(false);

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn chance(&mut self, pct: u64) -> bool { self.below(100) < pct }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.below(i as u64 + 1) as usize; v.swap(i, j); }
    }
}

pub struct Cx {
    pub prop: String,
    pub thorough: bool,
    pub rng: Rng,
    pub seed: u64,
    pub evaluated: u64,
    distinct: HashSet<u64>,
    pub samples: Vec<String>,
    reported: HashMap<String, u32>,
    pub counts: std::collections::BTreeMap<String, u64>,
    pub bounds: Vec<String>,
    pub start: Instant,
    pub scratch: PathBuf,
    nscratch: u64,
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars().take(1500) {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

pub fn at(s: &str) {
    BEAT.fetch_add(1, Ordering::Relaxed);
    let mut g = match LAST_AT.lock() { Ok(g) => g, Err(p) => p.into_inner() };
    g.clear();
    g.push_str(&s.chars().take(600).collect::<String>());
}

pub fn last_panic() -> String { LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default() }

/// Runs `f`, turning a panic of this thread into Err.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else { "panic".into() }
    })
}

impl Cx {
    pub fn new(prop: &str, tier: &str, seed: u64, hang_secs: u64) -> Self {
        std::panic::set_hook(Box::new(|info| {
            PANICS.fetch_add(1, Ordering::Relaxed);
            let msg = info.payload().downcast_ref::<String>().cloned()
                .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if let Ok(mut g) = LAST_PANIC.lock() { *g = format!("{msg} at {loc}"); }
            if std::env::var("VPANIC").is_ok() { eprintln!("PANIC {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture()); }
        }));
        std::thread::spawn(move || {
            let mut last = 0; let mut since = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(200));
                if DONE.load(Ordering::Relaxed) { return; }
                let b = BEAT.load(Ordering::Relaxed);
                if b != last { last = b; since = Instant::now(); }
                if since.elapsed() > Duration::from_secs(hang_secs) {
                    let g = match LAST_AT.lock() { Ok(g) => g.clone(), Err(p) => p.into_inner().clone() };
                    let key = g.split('|').next().unwrap_or("").trim().replace(' ', "_");
                    println!("FAIL {{\"fn\":\"{}\",\"contract\":\"the call returns in bounded time\",\"input\":\"{}\",\"got\":\"no progress for {} s\",\"key\":\"hang:{}\"}}",
                        esc(&key), esc(&g), hang_secs, esc(&key));
                    println!("RESULT {{\"evaluated\":0,\"distinct\":0,\"hung\":true}}");
                    std::process::exit(4);
                }
            }
        });
        let scratch = std::env::var("VSCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir().join(format!("vn-{}", std::process::id())));
        std::fs::create_dir_all(&scratch).unwrap();
        Cx { prop: prop.into(), thorough: tier == "thorough", rng: Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x5EED), seed,
             evaluated: 0, distinct: HashSet::new(), samples: vec![], reported: HashMap::new(), counts: Default::default(), bounds: vec![],
             start: Instant::now(), scratch, nscratch: 0 }
    }
    pub fn dir(&mut self) -> PathBuf {
        self.nscratch += 1;
        let d = self.scratch.join(format!("d{}", self.nscratch));
        std::fs::create_dir_all(&d).unwrap();
        d
    }
    pub fn elapsed(&self) -> f64 { self.start.elapsed().as_secs_f64() }
    pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
    pub fn bound(&mut self, s: &str) { self.bounds.push(s.into()); }

    /// One evaluation of an executable contract.
    pub fn ck(&mut self, func: &str, contract: &str, key: &str, input: impl FnOnce() -> String, ok: bool, got: impl FnOnce() -> String) -> bool {
        self.evaluated += 1;
        *self.counts.entry(func.to_string()).or_default() += 1;
        if ok {
            let i = input();
            let mut h = DefaultHasher::new();
            (func, contract, &i).hash(&mut h);
            if self.distinct.insert(h.finish()) && self.samples.len() < 12 && self.distinct.len() % 97 == 1 {
                self.samples.push(format!("{func}: {}", i.chars().take(160).collect::<String>()));
            }
        } else {
            self.fail(func, contract, key, &input(), &got());
        }
        ok
    }
    pub fn fail(&mut self, func: &str, contract: &str, key: &str, input: &str, got: &str) {
        let n = self.reported.entry(key.to_string()).or_default();
        *n += 1;
        if *n <= 2 {
            println!("FAIL {{\"fn\":\"{}\",\"contract\":\"{}\",\"key\":\"{}\",\"input\":\"{}\",\"got\":\"{}\"}}", esc(func), esc(contract), esc(key), esc(input), esc(got));
        }
    }
    pub fn finish(self) {
        DONE.store(true, Ordering::Relaxed);
        let j = |v: &Vec<String>| v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",");
        let c = self.counts.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(",");
        let r = self.reported.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(",");
        println!("RESULT {{\"evaluated\":{},\"distinct\":{},\"rule\":\"one evaluation = one executable contract (pre/postcondition or reference comparison) checked on one call or statement sequence of the real code; distinct = distinct (function, contract, input)\",\"samples\":[{}],\"bounds\":[{}],\"per_function\":{{{}}},\"failed_keys\":{{{}}}}}",
            self.evaluated, self.distinct.len(), j(&self.samples), j(&self.bounds), c, r);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(0);
    }
}
