//! Command line: `run ID --seed N --secs S --out F --known F --hang F`, `replay ID FILE`.
use crate::driver::*;
use std::collections::HashSet;
pub fn main(find: impl Fn(&str) -> Option<Box<dyn Prop>>) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string());
    let id = a.get(2).cloned().unwrap_or_default();
    let p = find(&id).unwrap_or_else(|| { eprintln!("no driver for {id}"); std::process::exit(2) });
    match a[1].as_str() {
        "run" => {
            let known: HashSet<String> = std::fs::read_to_string(opt("--known", "/dev/null")).unwrap_or_default().split('\u{1e}').map(|s| s.to_string()).collect();
            let single = opt("--trace", "");
            if !single.is_empty() {
                // Crash search: run cases one at a time, noting each before it runs.
                let base: u64 = opt("--seed", "1").parse().unwrap();
                let fixed = p.fixed();
                for k in 0..opt("--max", "1000000").parse::<u64>().unwrap() {
                    let case = if (k as usize) < fixed.len() { fixed[k as usize].clone() } else { p.make(base.wrapping_mul(1_000_003).wrapping_add(k)) };
                    std::fs::write(&single, &case).unwrap();
                    let _ = guarded(&*p, &case);
                }
                return;
            }
            let r = run(&*p, &known, opt("--seed", "1").parse().unwrap(), opt("--secs", "10").parse().unwrap(), opt("--max", "1000000000").parse().unwrap(), opt("--threads", "8").parse().unwrap(), &opt("--hang", "/dev/null"));
            let mut o = format!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"secs\":{},\"rule\":{},\"samples\":[{}],\"broken\":[", r.evals, r.distinct, r.secs, js(p.rule()), r.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
            o.push_str(&r.broken.iter().map(|(c, w)| format!("{{\"case\":{},\"why\":{}}}", js(c), js(w))).collect::<Vec<_>>().join(","));
            o.push_str("]}");
            std::fs::write(opt("--out", "/dev/stdout"), o).unwrap();
        }
        "replay" => {
            let case = std::fs::read_to_string(&a[3]).unwrap();
            match guarded(&*p, &case) { Out::Broken(w) => { println!("BROKEN {w}"); std::process::exit(1) } Out::Held => println!("held"), Out::Trivial => println!("held (trivially)") }
        }
        "make" => { let s: u64 = a[3].parse().unwrap(); println!("{}", p.make(s)); }
        _ => std::process::exit(2),
    }
}
