mod gen;
mod md;
mod props;
mod spec;

use props::Case;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Ok(true): a case that exercised the property; Ok(false): its precondition does not hold
fn run(p: &str, c: &Case) -> Result<bool, String> {
    match catch_unwind(AssertUnwindSafe(|| props::check(p, c))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panicked: {}", m))
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("HARNESS_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if a.len() == 4 && a[1] == "replay" {
        let c: Case = serde_json::from_str(&std::fs::read_to_string(&a[3]).unwrap()).unwrap();
        match run(&a[2], &c) {
            Ok(b) => println!("holds (exercised: {})", b),
            Err(e) => {
                println!("FAILS {}", e);
                std::process::exit(1);
            }
        }
        return;
    }
    // harness <property> <seed> <tier> <out.json> <seconds>
    let (p, seed, tier, out) = (a[1].clone(), a[2].parse::<u64>().unwrap(), a[3].clone(), a[4].clone());
    let budget = Duration::from_secs(a[5].parse().unwrap());
    let thorough = tier == "thorough";
    let t0 = Instant::now();
    let evals = AtomicU64::new(0);
    let hits = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(usize, Case, String)>> = Mutex::new(None);
    let samples: Mutex<Vec<serde_json::Value>> = Mutex::new(vec![]);
    let complete = AtomicBool::new(true);
    let report = |i: usize, c: &Case, e: String| {
        let mut f = found.lock().unwrap();
        if f.as_ref().map_or(true, |x| c.weight() < x.1.weight()) {
            *f = Some((i, c.clone(), e));
        }
        stop.store(true, Ordering::SeqCst);
    };
    // the small cases, all of them
    let small = props::small(&p, thorough);
    let n = small.len();
    let next = AtomicUsize::new(0);
    let nthreads = 8;
    let rand_target: u64 = if thorough { 20_000_000 } else { 1_500_000 };
    let rand_done = AtomicU64::new(0);
    std::thread::scope(|s| {
        for th in 0..nthreads {
            let (p, small, next, evals, hits, stop, report, samples, complete, rand_done) =
                (&p, &small, &next, &evals, &hits, &stop, &report, &samples, &complete, &rand_done);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        if t0.elapsed() > budget * 2 / 3 {
                            complete.store(false, Ordering::SeqCst);
                            break;
                        }
                        small.each(i, &mut |c: &Case| {
                            evals.fetch_add(1, Ordering::Relaxed);
                            match run(p, c) {
                                Ok(true) => {
                                    hits.fetch_add(1, Ordering::Relaxed);
                                }
                                Ok(false) => {}
                                Err(e) => report(i, c, e),
                            }
                            !stop.load(Ordering::Relaxed)
                        });
                    }
                    let mut r = gen::Rng::new(seed.wrapping_mul(1000).wrapping_add(th));
                    let mut k = 0u64;
                    while k < rand_target / nthreads && !stop.load(Ordering::SeqCst) && t0.elapsed() < budget {
                        k += 1;
                        let c = match catch_unwind(AssertUnwindSafe(|| props::random(p, &mut r))) {
                            Ok(c) => c,
                            Err(_) => continue,
                        };
                        evals.fetch_add(1, Ordering::Relaxed);
                        rand_done.fetch_add(1, Ordering::Relaxed);
                        match run(p, &c) {
                            Ok(true) => {
                                let h = hits.fetch_add(1, Ordering::Relaxed);
                                if h % 5000 == 7 {
                                    let mut s = samples.lock().unwrap();
                                    if s.len() < 3 {
                                        s.push(serde_json::to_value(&c).unwrap_or_default());
                                    }
                                }
                            }
                            Ok(false) => {}
                            Err(e) => report(usize::MAX, &c, e),
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut found = found.into_inner().unwrap();
    if let Some((i, c, e)) = found.take() {
        let (c, e) = props::shrink(c, e, &|c| run(&p, c).err());
        found = Some((i, c, e));
    }
    let v = serde_json::json!({
        "property": p, "evaluations": evals.into_inner(), "exercised": hits.into_inner(), "random": rand_done.into_inner(),
        "small_groups": n, "small_complete": complete.into_inner() && found.is_none(), "wall_s": t0.elapsed().as_secs_f64(),
        "samples": *samples.lock().unwrap(), "small_rule": small.rule,
        "violation": found.as_ref().map(|(_, c, e)| serde_json::json!({"error": e, "case": c, "text": c.describe()})),
    });
    std::fs::write(&out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    if found.is_some() {
        std::process::exit(1);
    }
}
