//! native list
//! native sample NAME CASES SEED MILLIS   run the contract on generated inputs (bounded stand-in)
//! native replay NAME FILE                replay the concrete input of a counterexample
use std::panic;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use verif_harness::{nd, CONTRACTS};

fn find(name: &str) -> fn() {
    CONTRACTS
        .iter()
        .flat_map(|l| l.iter())
        .find(|(_, n, _)| n.strip_prefix("verif_harness::").unwrap_or(n) == name)
        .unwrap_or_else(|| {
            eprintln!("unknown contract {name}");
            std::process::exit(3)
        })
        .2
}

fn run_one(f: fn()) -> Result<bool, String> {
    nd::LOG.lock().unwrap().clear();
    match panic::catch_unwind(f) {
        Ok(()) => Ok(true),
        Err(e) if e.is::<nd::Discard>() => Ok(false),
        Err(e) => Err(e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())),
    }
}

static CASE: AtomicU64 = AtomicU64::new(0);
static CASE_START: AtomicU64 = AtomicU64::new(0);

/// A case that does not come back within this time counts as not terminating.
const HANG_MS: u64 = 60_000;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let loc = Arc::new(Mutex::new(String::new()));
    let l2 = loc.clone();
    panic::set_hook(Box::new(move |i| {
        if let Some(l) = i.location() {
            *l2.lock().unwrap() = format!("{}:{}", l.file(), l.line());
        }
    }));
    let t = std::time::Instant::now();
    if a.len() > 2 {
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = t.elapsed().as_millis() as u64;
            if now.saturating_sub(CASE_START.load(SeqCst)) > HANG_MS {
                nd::report_and_exit(&format!(
                    "case {} did not terminate within {} s",
                    CASE.load(SeqCst),
                    HANG_MS / 1000
                ));
            }
        });
    }
    // Deep recursion in the code under contract is a finding, not a crash of the harness.
    let work = move || match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for l in CONTRACTS {
                for (k, n, _) in l.iter() {
                    println!("{k} {}", n.strip_prefix("verif_harness::").unwrap_or(n));
                }
            }
        }
        Some("sample") => {
            let f = find(&a[2]);
            let cases: u64 = a[3].parse().unwrap();
            let seed: u64 = a[4].parse().unwrap();
            let millis: u128 = a[5].parse().unwrap();
            let (mut ok, mut disc, mut distinct) = (0u64, 0u64, std::collections::HashSet::new());
            let mut first = String::new();
            for i in 0..cases.saturating_mul(20) {
                if ok >= cases || t.elapsed().as_millis() > millis {
                    break;
                }
                CASE.store(i, SeqCst);
                CASE_START.store(t.elapsed().as_millis() as u64, SeqCst);
                nd::SRC.with(|s| {
                    *s.borrow_mut() = nd::Source::Rng(seed.wrapping_mul(0x1000003).wrapping_add(i))
                });
                match run_one(f) {
                    Ok(true) => {
                        ok += 1;
                        use std::hash::{Hash, Hasher};
                        let l = nd::LOG.lock().unwrap();
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        l.hash(&mut h);
                        distinct.insert(h.finish());
                        if first.is_empty() && !l.is_empty() {
                            first = l
                                .iter()
                                .take(24)
                                .map(|b| b.iter().map(|x| format!("{x:02x}")).collect::<String>())
                                .collect::<Vec<_>>()
                                .join(" ");
                        }
                        if l.is_empty() {
                            break; // no inputs: one execution is exhaustive
                        }
                    }
                    Ok(false) => disc += 1,
                    Err(m) => {
                        nd::report_and_exit(&format!("at {}: {m}", loc.lock().unwrap()));
                    }
                }
            }
            println!("OK cases={ok} discarded={disc} distinct={} first={first}", distinct.len());
        }
        Some("replay") => {
            let f = find(&a[2]);
            let text = std::fs::read_to_string(&a[3]).unwrap();
            let line = text
                .lines()
                .find_map(|l| l.strip_prefix("INPUT "))
                .unwrap_or("");
            let vals: Vec<Vec<u8>> = line
                .split_whitespace()
                .map(|w| {
                    (0..w.len() / 2)
                        .map(|i| u8::from_str_radix(&w[2 * i..2 * i + 2], 16).unwrap())
                        .collect()
                })
                .collect();
            nd::SRC.with(|s| *s.borrow_mut() = nd::Source::Replay(vals, 0));
            match run_one(f) {
                Ok(true) => println!("HOLDS"),
                Ok(false) => println!("DISCARDED: the input does not satisfy the precondition"),
                Err(m) => nd::report_and_exit(&format!("at {}: {m}", loc.lock().unwrap())),
            }
        }
        _ => std::process::exit(3),
    };
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(work)
        .unwrap()
        .join()
        .unwrap();
}
