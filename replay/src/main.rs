//! Concrete runs of the real code: random histories of operations on one channel, polled by hand on one
//! thread, watched by oracles for the properties (see DESIGN.md, "Replay").  Usage:
//!     replay PROPERTY SEED SECONDS [known]
//! prints "FAIL property=Cxx seed=N ..." and the history when a history breaks the property, and "runs=N".
#![allow(dead_code)]
mod fixed;
mod world;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let seed: u64 = a[2].parse().unwrap();
    let secs: f64 = a[3].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    if a.get(4).map(|s| s.as_str()) == Some("known") {
        return fixed::known();
    }
    if let Some(s) = a.get(4) {
        // one history, in full
        let (f, t) = world::run(s.parse().unwrap(), &Arc::new(Mutex::new(vec![])), false);
        println!("{}", t.join("\n"));
        println!("{f:?}");
        return;
    }
    let mut bad: Vec<String> = vec![];
    for (p, name, r) in fixed::all() {
        if p == prop || prop == "ALL" {
            if let Err(e) = r() {
                bad.push(format!("scenario {name}: {e}"));
            }
        }
    }
    for b in &bad {
        println!("FAIL property={prop} {b}");
    }
    if !bad.is_empty() {
        std::process::exit(1);
    }
    let stop = Arc::new(AtomicBool::new(false));
    let runs = Arc::new(AtomicU64::new(0));
    let (tx, rx) = mpsc::channel::<String>();
    let t0 = Instant::now();
    let beat: Vec<_> = (0..8).map(|_| Arc::new((AtomicU64::new(0), AtomicU64::new(0), Arc::new(Mutex::new(vec![]))))).collect();
    for th in 0..8u64 {
        let (stop, runs, tx, prop, beat) = (stop.clone(), runs.clone(), tx.clone(), prop.clone(), beat[th as usize].clone());
        std::thread::spawn(move || {
            let mut n = seed * 1_000_003 + th * 100_000_007;
            while !stop.load(SeqCst) {
                n += 1;
                beat.1.store(n, SeqCst);
                beat.0.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                let trace: world::Trace = beat.2.clone();
                trace.lock().unwrap().clear();
                let r = catch_unwind(AssertUnwindSafe(|| world::run(n, &trace, prop == "C24" || prop == "ALL")));
                let (f, t) = match r {
                    Ok(x) => x,
                    Err(e) => {
                        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        let mut t = trace.lock().unwrap_or_else(|e| e.into_inner()).clone();
                        t.push(format!("panic: {m}"));
                        (vec![("C25", format!("panic: {m}"))], t)
                    }
                };
                runs.fetch_add(1, SeqCst);
                if let Some((_, d)) = f.iter().find(|x| x.0 == prop || prop == "ALL") {
                    let _ = tx.send(format!("FAIL property={prop} seed={n} {d}\n  {}", t.join("\n  ")));
                    return;
                }
            }
        });
    }
    drop(tx);
    let mut out = None;
    loop {
        if let Ok(m) = rx.recv_timeout(Duration::from_millis(200)) {
            out = Some(m);
            break;
        }
        let now = t0.elapsed().as_millis() as u64;
        if prop == "C24" {
            for b in &beat {
                let s = b.0.load(SeqCst);
                if s != 0 && now > s + 20_000 {
                    out = Some(format!("FAIL property=C24 seed={} the operation never returns (deadlock)\n  {}", b.1.load(SeqCst), b.2.lock().unwrap().join("\n  ")));
                }
            }
            if out.is_some() {
                break;
            }
        }
        if t0.elapsed().as_secs_f64() > secs {
            break;
        }
    }
    stop.store(true, SeqCst);
    println!("runs={}", runs.load(SeqCst));
    if let Some(m) = out {
        println!("{m}");
        std::process::exit(1);
    }
    std::process::exit(0);
}
