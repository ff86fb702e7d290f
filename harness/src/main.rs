//! Runs the real crate against a reference model on generated inputs, one property at a time.
//! harness PROP --seed N --cases N --secs S --out FILE [--trace FILE]
mod checks;
mod model;
mod path;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static CUR: Mutex<String> = Mutex::new(String::new());
static TICK: AtomicU64 = AtomicU64::new(0);
static PANIC: Mutex<String> = Mutex::new(String::new());

pub struct Ctx {
    pub rng: model::Rng,
    pub thorough: bool,
    evals: u64,
    seen: HashSet<u64>,
    samples: Vec<String>,
    fail: Option<(String, String)>,
    end: Instant,
    cases: u64,
    trace: Option<std::fs::File>,
}
impl Ctx {
    /// More random cases wanted?
    pub fn more(&self, share: u64) -> bool { self.fail.is_none() && self.evals < self.cases * share / 100 && Instant::now() < self.end }
    pub fn failed(&self) -> bool { self.fail.is_some() }
    pub fn evals(&self) -> u64 { self.evals }
    pub fn case(&mut self, desc: impl FnOnce() -> String, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) {
        if self.fail.is_some() { return; }
        self.evals += 1;
        let mut d = desc();
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            std::hash::Hash::hash(&d, &mut h);
            self.seen.insert(std::hash::Hasher::finish(&h));
        }
        if d.len() > 4000 { let mut n = 4000; while !d.is_char_boundary(n) { n -= 1 } d.truncate(n); d.push_str("…"); }
        if let Some(t) = &mut self.trace { use std::io::{Seek, Write}; t.set_len(0).ok(); t.rewind().ok(); t.write_all(d.as_bytes()).ok(); }
        if nontrivial && (self.samples.is_empty() || (self.samples.len() < 5 && self.evals % 97 == 0)) { self.samples.push(d.chars().take(400).collect()); }
        *CUR.lock().unwrap() = d;
        TICK.fetch_add(1, Ordering::SeqCst);
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => self.fail = Some((CUR.lock().unwrap().clone(), e)),
            Err(_) => self.fail = Some((CUR.lock().unwrap().clone(), format!("panic: {}", PANIC.lock().unwrap()))),
        }
    }
}
fn report(out: &str, prop: &str, seed: u64, c: &Ctx, hang: Option<String>) {
    let fail = match (&c.fail, hang) {
        (_, Some(h)) => serde_json::json!({"input": h, "what": "no answer within 60 s"}),
        (Some((i, w)), _) => serde_json::json!({"input": i, "what": w.chars().take(4000).collect::<String>()}),
        _ => serde_json::Value::Null,
    };
    let v = serde_json::json!({"property": prop, "seed": seed, "evaluations": c.evals, "distinct_nontrivial": c.seen.len(), "samples": c.samples, "failure": fail});
    std::fs::write(out, v.to_string()).unwrap();
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let prop = a[1].clone();
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let cases: u64 = opt("--cases").and_then(|s| s.parse().ok()).unwrap_or(20000);
    let secs: u64 = opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(20);
    let out = opt("--out").unwrap_or("/dev/stdout".into());
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        *PANIC.lock().unwrap() = format!("{} at {}", m, i.location().map(|l| l.to_string()).unwrap_or_default());
    }));
    if let Some(h) = opt("--hints").and_then(|f| std::fs::read_to_string(f).ok()).and_then(|t| serde_json::from_str::<(Vec<u64>, Vec<String>)>(&t).ok()) { model::HINTS.set(h).ok(); }
    let mut c = Ctx {
        rng: model::Rng::new(seed),
        thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
        evals: 0,
        seen: HashSet::new(),
        samples: vec![],
        fail: None,
        end: Instant::now() + Duration::from_secs(secs),
        cases,
        trace: opt("--trace").map(|f| std::fs::File::create(f).unwrap()),
    };
    let (o2, p2) = (out.clone(), prop.clone());
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let t = TICK.load(Ordering::SeqCst);
            if t != last.0 { last = (t, Instant::now()) }
            if t > 0 && last.1.elapsed() > Duration::from_secs(60) {
                let cur = CUR.lock().unwrap().clone();
                let v = serde_json::json!({"property": p2, "seed": seed, "evaluations": t, "distinct_nontrivial": 1, "samples": [], "failure": {"input": cur, "what": "no answer within 60 s"}});
                std::fs::write(&o2, v.to_string()).unwrap();
                std::process::exit(1);
            }
        }
    });
    // an ordinary stack, a little wider because this build is not optimised
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || { checks::run(&prop, &mut c); (c, prop) }).unwrap();
    match h.join() {
        Ok((c, prop)) => {
            report(&out, &prop, seed, &c, None);
            std::process::exit(if c.fail.is_some() { 1 } else { 0 });
        }
        Err(_) => { eprintln!("harness error: {}", PANIC.lock().unwrap()); std::process::exit(3) }
    }
}
