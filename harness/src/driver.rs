//! Seeded driver shared by the bounded stand-ins and the counterexample search.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What one case said.
pub enum Out {
    /// Held, but exercised nothing of the property (for example: text rejected).
    Trivial,
    /// Held on a case that exercises the property.
    Held,
    /// Broken: what was expected and what was seen.
    Broken(String),
}
pub trait Prop: Sync {
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    /// The case of a seed, as text that determines it completely.
    fn make(&self, seed: u64) -> String;
    /// Judge a case.
    fn check(&self, case: &str) -> Out;
    /// Curated cases, always run first.
    fn fixed(&self) -> Vec<String> { vec![] }
    /// Cases are free text that may be cut down while they still fail.
    fn shrinkable(&self) -> bool { true }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"'); o
}
pub fn guarded(p: &dyn Prop, case: &str) -> Out {
    match catch_unwind(AssertUnwindSafe(|| p.check(case))) {
        Ok(o) => o,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Out::Broken(format!("panic: {m}"))
        }
    }
}
fn h(s: &str) -> u64 { let mut x = 0xcbf29ce484222325u64; for b in s.bytes() { x = (x ^ b as u64).wrapping_mul(0x100000001b3); } x }
pub struct Report { pub evals: u64, pub distinct: u64, pub samples: Vec<String>, pub broken: Vec<(String, String)>, pub secs: f64 }

pub fn shrink(p: &dyn Prop, case: String) -> String {
    let mut c: Vec<char> = case.chars().collect();
    let t0 = Instant::now();
    let fails = |c: &[char]| { let s: String = c.iter().collect(); matches!(guarded(p, &s), Out::Broken(_)) };
    let mut step = c.len() / 2;
    while step > 0 && t0.elapsed() < Duration::from_secs(10) {
        let mut i = 0;
        while i + step <= c.len() && t0.elapsed() < Duration::from_secs(10) {
            let mut d = c.clone(); d.drain(i..i + step);
            if fails(&d) { c = d } else { i += step.max(1) }
        }
        if step == 1 { break }
        step = (step / 2).max(1);
    }
    c.into_iter().collect()
}

pub fn run(p: &dyn Prop, known: &HashSet<String>, base: u64, secs: f64, max: u64, threads: usize, hangfile: &str) -> Report {
    let t0 = Instant::now();
    let evals = AtomicU64::new(0);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let distinct = Mutex::new(HashSet::<u64>::new());
    let samples = Mutex::new(Vec::<String>::new());
    let broken = Mutex::new(Vec::<(String, String)>::new());
    let fixed = p.fixed();
    let current: Vec<Mutex<Option<(Instant, String)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let done = AtomicBool::new(false);
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..threads {
            let (evals, next, stop, distinct, samples, broken, fixed, current) = (&evals, &next, &stop, &distinct, &samples, &broken, &fixed, &current);
            let th = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                let mut local = HashSet::new();
                loop {
                    if stop.load(Ordering::Relaxed) { break }
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    let isfixed = (k as usize) < fixed.len();
                    if !isfixed && (t0.elapsed().as_secs_f64() > secs || k >= max) { break }
                    let case = if isfixed { fixed[k as usize].clone() } else { p.make(base.wrapping_mul(1_000_003).wrapping_add(k)) };
                    *current[t].lock().unwrap() = Some((Instant::now(), case.clone()));
                    let o = guarded(p, &case);
                    *current[t].lock().unwrap() = None;
                    evals.fetch_add(1, Ordering::Relaxed);
                    match o {
                        Out::Trivial => {}
                        Out::Held => {
                            if local.insert(h(&case)) && local.len() % 997 == 3 {
                                let mut s = samples.lock().unwrap();
                                if s.len() < 6 && case.len() < 300 { s.push(case) }
                            }
                        }
                        Out::Broken(why) => {
                            if known.contains(&case) { continue }
                            let (c, why) = if p.shrinkable() { let c = shrink(p, case.clone()); match guarded(p, &c) { Out::Broken(w) if !known.contains(&c) => (c, w), _ => (case, why) } } else { (case, why) };
                            let mut b = broken.lock().unwrap();
                            b.push((c, why));
                            if b.len() >= 3 { stop.store(true, Ordering::Relaxed) }
                        }
                    }
                }
                distinct.lock().unwrap().extend(local);
            }).unwrap();
            hs.push(th);
        }
        // Watchdog: a case that runs for 30 s counts as not terminating.
        let current = &current;
        let hangfile = hangfile.to_string();
        let done = &done;
        sc.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                for c in current.iter() {
                    if let Some((t, case)) = &*c.lock().unwrap() {
                        if t.elapsed() > Duration::from_secs(30) {
                            let _ = std::fs::write(&hangfile, case);
                            std::process::exit(77);
                        }
                    }
                }
            }
        });
        for th in hs { let _ = th.join(); }
        done.store(true, Ordering::Relaxed);
    });
    let d = distinct.lock().unwrap().len() as u64;
    Report { evals: evals.into_inner(), distinct: d, samples: samples.into_inner().unwrap(), broken: broken.into_inner().unwrap(), secs: t0.elapsed().as_secs_f64() }
}
