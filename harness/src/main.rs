//! `kh replay <harness> <hex,hex,...>`: run one harness on recorded inputs.
//! `kh search <property> <seconds> <seed>`: bounded random search of every harness of a property.
//! `kh list <property>`
use kh::src::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

const LIMIT: Duration = Duration::from_secs(20);

enum Outcome { Pass, Discarded, Fail(String) }

fn run_one(f: fn(&mut NativeSrc), s: &mut NativeSrc) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| f(s))) {
        Ok(()) => Outcome::Pass,
        Err(e) => {
            if e.downcast_ref::<Discard>().is_some() { return Outcome::Discarded; }
            let m = e.downcast_ref::<String>().cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            Outcome::Fail(m)
        }
    }
}

fn hex(log: &[Vec<u8>]) -> String {
    log.iter().map(|b| b.iter().map(|x| format!("{:02x}", x)).collect::<String>()).collect::<Vec<_>>().join(",")
}

fn unhex(s: &str) -> Vec<Vec<u8>> {
    s.split(',').filter(|x| !x.is_empty())
        .map(|w| (0..w.len() / 2).map(|i| u8::from_str_radix(&w[2 * i..2 * i + 2], 16).unwrap()).collect()).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verbose = std::env::var("KH_VERBOSE").is_ok();
    let loc = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = loc.clone();
    std::panic::set_hook(Box::new(move |i| {
        if i.payload().downcast_ref::<Discard>().is_none() {
            *l2.lock().unwrap() = i.location().map(|l| l.to_string()).unwrap_or_default();
            if verbose { eprintln!("{i}"); }
        }
    }));
    match a[1].as_str() {
        "list" => for (p, n, _) in kh::all() { if a[2] == p { println!("{n}"); } },
        "replay" => {
            let (_, _, f) = *kh::all().iter().find(|e| format!("{}::{}", e.0, e.1).eq_ignore_ascii_case(&a[2])).expect("no such harness");
            let mut s = NativeSrc::new(1);
            match a[3].strip_prefix("seed:") {
                Some(n) => s = NativeSrc::new(n.parse().unwrap()),
                None => s.replay = Some(unhex(&a[3]).into()),
            }
            std::thread::spawn(|| { std::thread::sleep(LIMIT); println!("FAIL does not finish within {LIMIT:?}"); std::process::exit(1) });
            match run_one(f, &mut s) {
                Outcome::Pass => { kh::cleanup(); println!("PASS"); }
                Outcome::Discarded => { kh::cleanup(); println!("DISCARDED"); std::process::exit(2) }
                Outcome::Fail(m) => { kh::cleanup(); println!("FAIL {} at {}", m.replace('\n', " "), loc.lock().unwrap()); std::process::exit(1) }
            }
        }
        "search" => {
            let secs: f64 = a[3].parse().unwrap();
            let seed: u64 = a[4].parse().unwrap();
            let hs: Vec<_> = kh::all().into_iter().filter(|e| e.0 == a[2]).collect();
            assert!(!hs.is_empty(), "no harness for {}", a[2]);
            let slice = Duration::from_secs_f64(secs / hs.len() as f64);
            let mut failed = false;
            let now = std::sync::Arc::new(std::sync::Mutex::new((String::new(), 0u64, Instant::now())));
            let n2 = now.clone();
            std::thread::spawn(move || {
                // A run that does not end is a failure of that input.
                loop {
                    std::thread::sleep(Duration::from_millis(500));
                    let g = n2.lock().unwrap();
                    if !g.0.is_empty() && g.2.elapsed() > LIMIT {
                        println!("FOUND {} seed:{} does not finish within {LIMIT:?}", g.0, g.1);
                        std::process::exit(1)
                    }
                }
            });
            let trace = std::env::var("KH_TRACE").ok();
            for (p, n, f) in hs {
                let (mut runs, mut disc, mut i) = (0u64, 0u64, 0u64);
                let t0 = Instant::now();
                let mut found = None;
                *now.lock().unwrap() = (format!("{p}::{n}"), 0, Instant::now());
                // At least 2000 attempts, whatever the clock says.
                while i < 2000 || t0.elapsed() < slice {
                    i += 1;
                    let sd = seed.wrapping_mul(1_000_003).wrapping_add(i);
                    let mut s = NativeSrc::new(sd);
                    { let mut g = now.lock().unwrap(); g.1 = sd; g.2 = Instant::now(); }
                    if let Some(t) = &trace { std::fs::write(t, format!("{p}::{n} seed:{sd}")).unwrap(); }
                    match run_one(f, &mut s) {
                        Outcome::Pass => runs += 1,
                        Outcome::Discarded => disc += 1,
                        Outcome::Fail(m) => { found = Some((hex(&s.log), m)); break; }
                    }
                }
                match found {
                    None => println!("SEARCHED {p}::{n} runs={runs} discarded={disc}"),
                    Some((h, m)) => {
                        failed = true;
                        println!("FOUND {p}::{n} {h} {} at {}", m.replace('\n', " "), loc.lock().unwrap());
                    }
                }
            }
            kh::cleanup();
            if failed { std::process::exit(1) }
        }
        x => panic!("unknown command {x}"),
    }
}
