//! Runs the operation table outside the monitor: in a fresh process, under AddressSanitizer,
//! ThreadSanitizer or Miri.
//!   probe ops SEED START COUNT hostile|plain      one line "index hash" per operation
//!   probe one SEED FAMILY MEMBER                  the hash of one call
//!   probe near SEED START COUNT ORDER             one line "index hash" per family of near-equal calls
//!   probe run SEED COUNT hostile|plain            COUNT rounds of every operation, prints a total
//!   probe threads SEED COUNT NTHREADS             concurrent rounds over shared objects
use monitor::api::*;
use monitor::rng::{mix, Rng};

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let n = |i: usize| -> u64 { a.get(i).and_then(|s| s.parse().ok()).unwrap_or_else(|| panic!("probe: bad argument {i}")) };
    let (nops, nfam) = (NAMES.len() as u64, NEAR.len() as u64);
    match a.first().map(|s| s.as_str()) {
        Some("ops") => {
            let hostile = a[4] == "hostile";
            for i in n(2)..n(2) + n(3) {
                println!("{i} {:016x}", op((i % nops) as usize, mix(n(1), i), hostile, shared()));
            }
        }
        Some("one") => {
            let k = n(2) as usize;
            println!("{k} {:016x}", near_eval(k, &family(k, n(1))[n(3) as usize], shared()));
        }
        Some("near") => {
            let (seed, start, count, order) = (n(1), n(2), n(3), n(4));
            let mut idx: Vec<u64> = (start..start + count).collect();
            let mut r = Rng::new(order);
            for i in (1..idx.len()).rev() {
                idx.swap(i, r.below(i as u64 + 1) as usize);
            }
            for i in idx {
                let k = (i % nfam) as usize;
                let f = family(k, mix(seed, i));
                match near_history(k, &f, mix(order, i), shared()) {
                    Ok(v) => println!("{i} {:016x}", v.iter().fold(0u64, |a, b| mix(a, *b))),
                    Err(e) => {
                        println!("DIFFERENT {} {:?}", NEAR[k], f[e.0]);
                        std::process::exit(9);
                    }
                }
            }
        }
        Some("run") => {
            let hostile = a[3] == "hostile";
            let mut h = 0u64;
            for i in 0..n(2) {
                for k in 0..nops {
                    h ^= op(k as usize, mix(n(1), i), hostile, shared());
                }
            }
            println!("operations {} hash {h:016x}", n(2) * nops);
        }
        Some("threads") => {
            let (seed, count, nt) = (n(1), n(2), n(3));
            // items: count rounds of every operation, then of two members of every family
            let (t1, t2) = (count * nops, count * nfam * 2);
            let fams: Vec<Vec<Vec<f64>>> = (0..count * nfam).map(|i| family((i % nfam) as usize, mix(seed, i))).collect();
            let eval = |i: u64| -> u64 {
                if i < t1 {
                    op((i % nops) as usize, mix(seed, i), false, shared())
                } else {
                    let j = i - t1;
                    near_eval(((j / 2) % nfam) as usize, &fams[(j / 2) as usize][(j % 2) as usize], shared())
                }
            };
            let total = t1 + t2;
            let barrier = std::sync::Barrier::new(nt as usize);
            let logs = std::sync::Mutex::new(vec![]);
            std::thread::scope(|s| {
                for t in 0..nt {
                    let (eval, barrier, logs) = (&eval, &barrier, &logs);
                    s.spawn(move || {
                        let mut r = Rng::new(mix(seed, 1000 + t));
                        let mut log = vec![];
                        barrier.wait();
                        let off = r.below(total);
                        for j in 0..total {
                            // every item, from a random start, half of the time hand in hand with the others
                            let i = if r.bool() { j } else { (j + off) % total };
                            log.push((i, eval(i)));
                            if r.chance(0.05) {
                                std::thread::yield_now();
                            }
                        }
                        logs.lock().unwrap().push(log);
                    });
                }
            });
            let mut calls = 0;
            for log in logs.into_inner().unwrap() {
                for (i, h) in log {
                    calls += 1;
                    // Miri varies the last bits of transcendental functions on purpose
                    if !cfg!(miri) && h != eval(i) {
                        println!("DIFFERENT item {i} seed {seed} of {t1} operations and {t2} near-equal calls");
                        std::process::exit(9);
                    }
                }
            }
            println!("calls {calls} threads {nt}");
        }
        _ => panic!("probe: usage"),
    }
}
