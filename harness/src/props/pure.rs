//! C33 purity across histories, threads and processes; C34 no crash on any input.
use crate::api::*;
use crate::fw::*;
use crate::rng::{mix, Rng};
use std::collections::HashMap;
use std::process::Command;
use std::sync::{Barrier, Mutex};

fn nops() -> u64 {
    NAMES.len() as u64
}
fn nfam() -> u64 {
    NEAR.len() as u64
}

// ---------------------------------------------------------------- C33
/// A family of nearly equal calls, in two histories, the second on a new thread
fn c33_near(c: &mut Ctx) -> R {
    let k = (c.idx % nfam()) as usize;
    let seed = c.rng.u64();
    let fam = family(k, seed);
    c.key(seed);
    c.class(NEAR[k]);
    c.desc(|| format!("{}: {fam:?}", NEAR[k]));
    let sh = shared();
    let what = |e: (usize, u64, u64)| -> Fail {
        Fail { sig: "result depends on history".into(), msg: format!("{} {:?} gives two results in one history; family {fam:?}", NEAR[k], fam[e.0]) }
    };
    let a = near_history(k, &fam, mix(seed, 1), sh).map_err(what)?;
    let (f2, s2) = (fam.clone(), mix(seed, 2));
    let b = std::thread::spawn(move || near_history(k, &f2, s2, shared())).join();
    let b = match b {
        Ok(b) => b.map_err(what)?,
        Err(_) => return fail("panic", format!("panic in {} family {fam:?}", NEAR[k])),
    };
    for i in 0..fam.len() {
        c.event();
        if a[i] != b[i] {
            return fail("result depends on history", format!("{} {:?} differs between two histories of the family {fam:?}", NEAR[k], fam[i]));
        }
    }
    Ok(())
}
/// Different computations for one date, in two orders, the second on a new thread
fn c33_same_date(c: &mut Ctx) -> R {
    let seed = c.rng.u64();
    let list = same_date(seed);
    c.key(seed);
    c.class("many computations for one date");
    c.desc(|| format!("{list:?}"));
    let n = list.len();
    let go = |order: u64, list: &[(usize, Vec<f64>)]| -> Vec<u64> {
        let mut r = Rng::new(mix(seed, order));
        let mut seq: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            seq.swap(i, r.below(i as u64 + 1) as usize);
        }
        let mut out = vec![0; n];
        for i in seq {
            out[i] = near_eval(list[i].0, &list[i].1, shared());
        }
        out
    };
    let a = go(1, &list);
    let b = std::thread::scope(|s| s.spawn(|| go(2, &list)).join());
    let Ok(b) = b else {
        return fail("panic", format!("panic in one of {list:?}"));
    };
    for i in 0..n {
        c.event();
        if a[i] != b[i] {
            return fail("result depends on history", format!("{} {:?} differs when computed before and after others for the same date", NEAR[list[i].0], list[i].1));
        }
    }
    Ok(())
}
/// A list of unrelated operations, replayed in another order with hostile calls in between
fn c33_mixed(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let sh = shared();
    let n = 44usize;
    let list: Vec<(usize, u64)> = (0..n).map(|i| (i % nops() as usize, r.u64())).collect();
    let first: Vec<u64> = list.iter().map(|&(k, s)| op(k, s, false, sh)).collect();
    c.key(list[0].1);
    let mut seq: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        seq.swap(i, r.below(i as u64 + 1) as usize);
    }
    c.desc(|| format!("{n} operations over {} kinds, replayed in order {seq:?}", nops()));
    c.class("replayed in another order");
    for i in seq {
        if r.chance(0.3) {
            let k = r.below(nops()) as usize;
            let _ = op(k, r.u64(), true, sh);
            c.class("hostile call in between");
        }
        let (k, s) = list[i];
        c.event();
        if op(k, s, false, sh) != first[i] {
            return fail("result depends on history", format!("operation '{}' seed {s} differs when replayed", NAMES[k]));
        }
    }
    Ok(())
}
/// Concurrent callers of the same operations over shared objects
fn c33_threads(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let seed = r.u64();
    let nt = *r.pick(&[2usize, 3, 4, 8, 8, 16]);
    c.key(seed);
    let fams: Vec<(usize, Vec<Vec<f64>>)> = (0..4).map(|i| {
        let k = r.below(nfam()) as usize;
        (k, family(k, mix(seed, i)))
    }).collect();
    let ops: Vec<(usize, u64)> = (0..12).map(|_| (r.below(nops()) as usize, r.u64())).collect();
    let total = 32 + ops.len();
    let eval = |i: usize| -> u64 {
        if i < 32 {
            let (k, f) = &fams[i / 8];
            near_eval(*k, &f[i % 8], shared())
        } else {
            let (k, s) = ops[i - 32];
            op(k, s, false, shared())
        }
    };
    let barrier = Barrier::new(nt);
    let logs: Mutex<Vec<Vec<(usize, u64)>>> = Mutex::new(vec![]);
    let crashed = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for t in 0..nt {
            let (eval, barrier, logs, crashed) = (&eval, &barrier, &logs, &crashed);
            s.spawn(move || {
                let mut r = Rng::new(mix(seed, 500 + t as u64));
                let mut log = Vec::with_capacity(3 * total);
                barrier.wait();
                let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    for _ in 0..3 * total {
                        let i = r.below(total as u64) as usize;
                        log.push((i, eval(i)));
                        match r.below(12) {
                            0 => std::thread::yield_now(),
                            1 => {
                                for _ in 0..r.below(300) {
                                    std::hint::spin_loop();
                                }
                            }
                            _ => {}
                        }
                    }
                }));
                if o.is_err() {
                    crashed.store(true, std::sync::atomic::Ordering::Relaxed);
                }
                logs.lock().unwrap().push(log);
            });
        }
    });
    if crashed.load(std::sync::atomic::Ordering::Relaxed) {
        return fail("panic", format!("a call panics when {nt} threads call concurrently (seed {seed})"));
    }
    c.class("concurrent callers");
    c.desc(|| format!("{nt} threads, {} calls each over {total} shared call descriptions", 3 * total));
    // offline check of the recorded logs against a later sequential run
    let want: Vec<u64> = (0..total).map(eval).collect();
    for log in logs.into_inner().unwrap() {
        for (i, h) in log {
            c.event();
            if h != want[i] {
                let name = if i < 32 { NEAR[fams[i / 8].0] } else { NAMES[ops[i - 32].0] };
                return fail("result depends on other threads", format!("'{name}' gives another result under {nt} threads (seed {seed} item {i})"));
            }
        }
    }
    Ok(())
}

fn probe(env: &str) -> Vec<String> {
    let v = std::env::var(env).unwrap_or_else(|_| panic!("harness: {env} is not set; run through run.sh"));
    v.split_whitespace().map(|s| s.to_string()).collect()
}
struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    out: String,
    err: String,
}
fn run_probe(env: &str, args: &[String], miri_flags: &str) -> Ran {
    use std::os::unix::process::ExitStatusExt;
    let cmd = probe(env);
    let mut k = Command::new(&cmd[0]);
    k.args(&cmd[1..]).args(args);
    if let Ok(d) = std::env::var("HARNESS_DIR") {
        k.current_dir(d);
    }
    if env == "PROBE_MIRI" {
        k.env("CARGO_TARGET_DIR", std::env::var("MIRI_TARGET").expect("MIRI_TARGET"));
        k.env("RUSTUP_TOOLCHAIN", "nightly");
        k.env("MIRIFLAGS", miri_flags);
    }
    k.env("RUST_BACKTRACE", "0").env("ASAN_OPTIONS", "detect_leaks=1:abort_on_error=0:exitcode=99").env("TSAN_OPTIONS", "exitcode=66:halt_on_error=1");
    let o = k.output().unwrap_or_else(|e| panic!("harness: cannot run {cmd:?}: {e}"));
    Ran {
        code: o.status.code(),
        signal: o.status.signal(),
        out: String::from_utf8_lossy(&o.stdout).into_owned(),
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}
fn tail(s: &str) -> String {
    let keep: Vec<&str> = s
        .lines()
        .filter(|l| {
            ["panicked", "ERROR", "WARNING", "Undefined", "error:", "race", "overflow", "DIFFERENT", "-->", "#0", "#1", "#2", "unsafe precondition", "Location"]
                .iter()
                .any(|k| l.contains(k))
        })
        .take(12)
        .collect();
    if keep.is_empty() {
        s.chars().take(600).collect()
    } else {
        keep.join(" | ")
    }
}
/// Judge a probe run: a report of the instrumentation, a panic or a death by signal is a violation;
/// a tool that did not do its work is a failure of the harness.
fn judge(c: &mut Ctx, tool: &'static str, args: &[String], r: &Ran) -> R {
    c.event();
    c.desc(|| format!("{tool}: probe {} -> {:?} {}", args.join(" "), r.code, r.out.lines().last().unwrap_or("")));
    let bad = [
        ("DIFFERENT", &r.out),
        ("panicked at", &r.err),
        ("AddressSanitizer", &r.err),
        ("LeakSanitizer", &r.err),
        ("ThreadSanitizer", &r.err),
        ("Undefined Behavior", &r.err),
        ("Data race", &r.err),
        ("unsafe precondition", &r.err),
        ("stack overflow", &r.err),
    ];
    // a panic of the probe itself is not the library's
    if r.err.contains("probe: ") {
        panic!("harness: {tool} probe: {}", tail(&r.err));
    }
    for (k, text) in bad {
        if text.contains(k) {
            return fail(tool, format!("{tool} reports on 'probe {}': {} {}", args.join(" "), tail(&r.out), tail(&r.err)));
        }
    }
    if let Some(s) = r.signal {
        if [4, 6, 7, 8, 11].contains(&s) {
            return fail(tool, format!("{tool}: 'probe {}' died of signal {s}: {}", args.join(" "), tail(&r.err)));
        }
    }
    if r.code != Some(0) {
        panic!("harness: {tool} 'probe {}' ended with {:?}/{:?}: {}", args.join(" "), r.code, r.signal, tail(&r.err));
    }
    Ok(())
}
fn sv(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}
fn lines(out: &str) -> HashMap<u64, String> {
    out.lines().filter_map(|l| l.split_once(' ')).filter_map(|(i, h)| i.parse().ok().map(|i: u64| (i, h.to_string()))).collect()
}
/// The same calls in fresh processes, in other orders, against this process
fn c33_process(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let seed = r.u64();
    c.key(seed);
    let n = 5 * nfam();
    let sh = shared();
    let mut here: HashMap<u64, u64> = HashMap::new();
    for i in 0..n {
        let k = (i % nfam()) as usize;
        let f = family(k, mix(seed, i));
        match near_history(k, &f, mix(seed, 9), sh) {
            Ok(v) => {
                let h = v.iter().fold(0u64, |a, b| mix(a, *b));
                here.insert(i, h);
            }
            Err(e) => return fail("result depends on history", format!("{} {:?}", NEAR[k], f[e.0])),
        }
    }
    for order in 0..3u64 {
        let a = sv(&["near", &seed.to_string(), "0", &n.to_string(), &mix(seed, 100 + order).to_string()]);
        let o = run_probe("PROBE", &a, "");
        judge(c, "fresh process", &a, &o)?;
        let got = lines(&o.out);
        if got.len() as u64 != n {
            panic!("harness: probe printed {} of {n} lines", got.len());
        }
        for i in 0..n {
            c.event();
            if got[&i] != format!("{:016x}", here[&i]) {
                let k = (i % nfam()) as usize;
                return fail("result depends on the process", format!("'{}' family {:?} differs in a fresh process", NEAR[k], family(k, mix(seed, i))));
            }
        }
    }
    c.class("fresh processes");
    let a = sv(&["ops", &seed.to_string(), "0", &(3 * nops()).to_string(), "plain"]);
    let o = run_probe("PROBE", &a, "");
    judge(c, "fresh process", &a, &o)?;
    let got = lines(&o.out);
    for i in (0..3 * nops()).rev() {
        c.event();
        let k = (i % nops()) as usize;
        if got.get(&i) != Some(&format!("{:016x}", op(k, mix(seed, i), false, sh))) {
            return fail("result depends on the process", format!("operation '{}' seed {}", NAMES[k], mix(seed, i)));
        }
    }
    Ok(())
}
/// One call alone in a fresh process against the same call in this one, which has run many others
fn c33_lone(c: &mut Ctx) -> R {
    let i = c.idx;
    let seed = c.rng.u64();
    c.key(seed);
    let total = nops() + nfam();
    let sh = shared();
    let what;
    let (a, here) = if i % total < nops() {
        let k = (i % total) as usize;
        what = NAMES[k];
        // the probe derives the kind from the index and the arguments from both
        let a = sv(&["ops", &seed.to_string(), &k.to_string(), "1", "plain"]);
        (a, op(k, mix(seed, k as u64), false, sh))
    } else {
        let k = (i % total - nops()) as usize;
        what = NEAR[k];
        let m = c.rng.below(8);
        let a = sv(&["one", &seed.to_string(), &k.to_string(), &m.to_string()]);
        (a, near_eval(k, &family(k, seed)[m as usize], sh))
    };
    let o = run_probe("PROBE", &a, "");
    judge(c, "fresh process", &a, &o)?;
    let got = o.out.split_whitespace().nth(1).unwrap_or_else(|| panic!("harness: probe {a:?} printed {:?}", o.out)).to_string();
    c.class("lone calls");
    c.event();
    c.check("same result as the first call of a process", got == format!("{here:016x}"), || format!("'{what}' differs when it is the first call of a process: probe {}", a.join(" ")))
}
fn c33_tsan(c: &mut Ctx) -> R {
    let s = c.rng.below(1 << 40).to_string();
    c.key(c.idx);
    let nt = ["2", "4", "8"][(c.idx % 3) as usize];
    let a = sv(&["threads", &s, if c.tier == Tier::Quick { "60" } else { "1200" }, nt]);
    let o = run_probe("PROBE_TSAN", &a, "");
    judge(c, "ThreadSanitizer", &a, &o)?;
    c.class("ThreadSanitizer run");
    Ok(())
}
fn c33_miri(c: &mut Ctx) -> R {
    let s = c.rng.below(1 << 40).to_string();
    c.key(c.idx);
    let a = sv(&["threads", &s, "1", if c.tier == Tier::Quick { "2" } else { "3" }]);
    let flags = format!("-Zmiri-seed={}", c.rng.below(1 << 20));
    let o = run_probe("PROBE_MIRI", &a, &flags);
    judge(c, "Miri", &a, &o)?;
    c.class("Miri threads run");
    Ok(())
}
pub fn c33() -> Prop {
    Prop {
        id: "C33",
        rule: "each case is one history: a family of 8 nearly equal calls in two orders and two threads, 44 operations replayed in another order, a set of concurrent callers, or a set of fresh processes; distinct by seed",
        suites: vec![
            suite("near-equal calls", c33_near, 6_000, 400_000),
            suite("replayed histories", c33_mixed, 800, 60_000),
            suite("one date", c33_same_date, 1_500, 60_000),
            serial("concurrent callers", c33_threads, 1_200, 60_000),
            procs("fresh processes", c33_process, 16, 400),
            procs("lone calls", c33_lone, 2_580, 43_000),
            procs("ThreadSanitizer", c33_tsan, 6, 48),
            procs("Miri", c33_miri, 2, 16),
        ],
        need: &[
            "replayed in another order", "hostile call in between", "concurrent callers", "fresh processes", "lone calls", "many computations for one date", "ThreadSanitizer run",
            "Miri threads run", "nutation", "Earth ephemeris", "celestial to terrestrial", "delta_at", "Sun angle", "shared Sun calculator",
        ],
        assumptions: &["schedules are those the operating system, injected yields and spins, and Miri's scheduler produce"],
    }
}

// ---------------------------------------------------------------- C34
fn c34_hostile(c: &mut Ctx) -> R {
    let k = (c.idx % nops()) as usize;
    let seed = c.rng.u64();
    c.key(seed);
    c.event();
    c.class(NAMES[k]);
    c.desc(|| format!("'{}' with hostile arguments, seed {seed}", NAMES[k]));
    std::hint::black_box(op(k, seed, true, shared()));
    Ok(())
}
fn c34_plain(c: &mut Ctx) -> R {
    let k = (c.idx % nops()) as usize;
    let seed = c.rng.u64();
    c.key(seed);
    c.event();
    c.class("ordinary arguments");
    std::hint::black_box(op(k, seed, false, shared()));
    Ok(())
}
/// Takes so many bytes and then fails, as a full disk or a closed pipe does
struct Limited {
    room: usize,
    got: String,
}
impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.got.len() + s.len() > self.room {
            return Err(std::fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}
fn c34_writer(c: &mut Ctx) -> R {
    use std::fmt::{Display, Write};
    use tofas::{calendar::*, ellipsoid::*};
    use tofas_extras::sun_angle::*;
    let mut r = c.rng.clone();
    c.key(c.idx);
    let date = GregorianDate { year: r.int(-4799, 9999) as i32, month: r.int(1, 12) as i32, day: r.int(1, 28) as i32 };
    let hms = HMS { hour: r.below(24) as u8, minute: r.below(60) as u8, second: r.range(0.0, 59.0) };
    let g = Geodetic360 { lon: r.range(-180.0, 180.0), lat: r.range(-90.0, 90.0), height: r.range(-1e3, 1e6) };
    let parameters = SunAngleParameters { date: GregorianDate { year: r.int(1960, 2099) as i32, ..date }, time: hms, position: g };
    let result;
    let (what, x): (&'static str, Box<dyn Display + '_>) = match c.idx % 6 {
        0 => ("date into a failing writer", Box::new(date)),
        1 => ("time into a failing writer", Box::new(hms)),
        2 => ("date and time into a failing writer", Box::new(GregorianDateHMS { date, hms })),
        3 => ("degrees into a failing writer", Box::new(g)),
        4 => ("radians into a failing writer", Box::new(Geodetic::from(g))),
        _ => {
            result = SunAngleCalculator::new(&parameters).compute(r.range(-1e4, 1e4));
            ("Sun report into a failing writer", Box::new(SunAngleResultBundle { parameters: &parameters, result: &result }))
        }
    };
    c.class(what);
    let full = x.to_string();
    let room = r.below(full.len() as u64 + 3) as usize;
    let mut w = Limited { room, got: String::new() };
    let o = write!(w, "{x}");
    c.desc(|| format!("{what}: {room} bytes of {}", full.len()));
    c.check("a failing writer is reported", o.is_ok() == (room >= full.len()), || format!("{what}: room {room} of {} gives {o:?}", full.len()))?;
    c.check("what was written is the start of the text", full.starts_with(&w.got), || format!("{what}: {:?} of {full:?}", w.got))
}
fn c34_asan(c: &mut Ctx) -> R {
    let s = c.rng.below(1 << 40).to_string();
    c.key(c.idx);
    let a = sv(&["run", &s, if c.tier == Tier::Quick { "20000" } else { "300000" }, if c.idx % 4 == 3 { "plain" } else { "hostile" }]);
    let o = run_probe("PROBE_ASAN", &a, "");
    judge(c, "AddressSanitizer", &a, &o)?;
    c.class("AddressSanitizer run");
    Ok(())
}
fn c34_miri(c: &mut Ctx) -> R {
    let s = c.rng.below(1 << 40).to_string();
    c.key(c.idx);
    let a = sv(&["run", &s, if c.tier == Tier::Quick { "3" } else { "40" }, if c.idx % 4 == 3 { "plain" } else { "hostile" }]);
    let flags = format!("-Zmiri-seed={}", c.rng.below(1 << 20));
    let o = run_probe("PROBE_MIRI", &a, &flags);
    judge(c, "Miri", &a, &o)?;
    c.class("Miri run");
    Ok(())
}
pub fn c34() -> Prop {
    Prop {
        id: "C34",
        rule: "each case is one operation of the public interface with arguments from one seed, or one run of the operation table under a sanitizer or interpreter; distinct by seed",
        suites: vec![
            suite("hostile calls", c34_hostile, 150_000, 10_000_000),
            suite("ordinary calls", c34_plain, 40_000, 2_000_000),
            suite("failing writers", c34_writer, 50_000, 2_000_000),
            procs("AddressSanitizer", c34_asan, 8, 64),
            procs("Miri", c34_miri, 4, 24),
        ],
        need: &[
            "GregorianDate::new/to_julian/text", "hand-built date", "GregorianDate::from_julian", "GregorianDateHMS", "HMS", "delta_at",
            "time scales", "ellipsoid converter", "geodetic text and degrees", "vectors", "matrices", "anp and fundamental arguments",
            "nutation", "precession and obliquity", "precession-nutation", "CIO locator", "celestial to intermediate", "pole to matrix",
            "celestial to terrestrial", "rotation angle and polar motion", "Earth ephemeris", "Sun angle", "ordinary arguments",
            "AddressSanitizer run", "Miri run", "date into a failing writer", "time into a failing writer",
            "date and time into a failing writer", "degrees into a failing writer", "radians into a failing writer", "Sun report into a failing writer",
        ],
        assumptions: &[
            "first pass built with integer overflow checks and debug assertions on, second without",
            "excluded: rotation axes above 2, degree normalisation of non-finite angles, Sun-angle parameters with an invalid date or time",
        ],
    }
}
