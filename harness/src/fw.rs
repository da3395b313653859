//! Monitor framework: seeded cases, event counting, verdicts, replay files, evidence.
use crate::rng::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Fail {
    /// Stable signature of the kind of failure, matched against the known-findings file
    pub sig: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(sig: &str, mut msg: String) -> Result<T, Fail> {
    clip(&mut msg);
    Err(Fail { sig: sig.to_string(), msg })
}

/// Keep evidence and reports readable
fn clip(s: &mut String) {
    if s.len() > 2000 {
        let cut = (0..=2000).rev().find(|&i| s.is_char_boundary(i)).unwrap_or(0);
        s.truncate(cut);
        s.push_str("...");
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub rng: Rng,
    pub idx: u64,
    pub seed: u64,
    pub tier: Tier,
    pub verbose: bool,
    /// Set by suites that visit consecutive days: the day (from J2000) of this case
    pub day: Option<i64>,
    events: u64,
    classes: BTreeMap<&'static str, u64>,
    metrics: BTreeMap<&'static str, (f64, f64)>,
    hash: u64,
    trivial: bool,
    desc: Vec<String>,
    soft: Vec<Fail>,
}

impl Ctx {
    fn new(tier: Tier, seed: u64) -> Self {
        Ctx {
            rng: Rng::new(0),
            idx: 0,
            seed,
            tier,
            verbose: false,
            day: None,
            events: 0,
            classes: BTreeMap::new(),
            metrics: BTreeMap::new(),
            hash: 0,
            trivial: false,
            desc: vec![],
            soft: vec![],
        }
    }
    fn begin(&mut self, suite: &str, idx: u64) {
        let h = mix(mix(self.seed, hash_str(suite)), idx);
        self.rng = Rng::new(h);
        self.idx = idx;
        self.day = None;
        self.hash = hash_str(suite);
        self.trivial = false;
        self.desc.clear();
        self.soft.clear();
    }
    /// One oracle decision was made
    pub fn event(&mut self) {
        self.events += 1;
    }
    /// Count that an input/state class was reached
    pub fn class(&mut self, name: &'static str) {
        *self.classes.entry(name).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, c: bool, name: &'static str) {
        if c {
            self.class(name)
        }
    }
    /// Identify the input of this case (for counting distinct inputs)
    pub fn key(&mut self, x: u64) {
        self.hash = mix(self.hash, x);
    }
    pub fn keyf(&mut self, xs: &[f64]) {
        for x in xs {
            self.hash = mix(self.hash, x.to_bits());
        }
    }
    pub fn trivial(&mut self) {
        self.trivial = true;
    }
    pub fn desc<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            let mut s = f();
            clip(&mut s);
            self.desc.push(s);
        }
    }
    /// A failure that does not stop the case (used for listed findings)
    pub fn soft(&mut self, sig: &str, msg: String) {
        if self.soft.len() < 16 {
            self.soft.push(Fail { sig: sig.to_string(), msg });
        }
    }
    /// Record error against tolerance and decide
    pub fn close(&mut self, what: &'static str, got: f64, want: f64, tol: f64) -> R {
        self.events += 1;
        let e = (got - want).abs();
        if got.to_bits() == want.to_bits() {
            return Ok(());
        }
        let r = e / tol;
        let m = self.metrics.entry(what).or_insert((0.0, 0.0));
        if r > m.0 {
            *m = (r, e);
        }
        if e <= tol {
            Ok(())
        } else {
            fail(what, format!("{what}: got {got:?} want {want:?} error {e:e} tolerance {tol:e}"))
        }
    }
    pub fn check<F: FnOnce() -> String>(&mut self, what: &'static str, ok: bool, msg: F) -> R {
        self.events += 1;
        if ok {
            Ok(())
        } else {
            fail(what, format!("{what}: {}", msg()))
        }
    }
}

pub type CaseFn = fn(&mut Ctx) -> R;

pub struct Suite {
    pub name: &'static str,
    pub f: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    /// The indices enumerate a finite space completely
    pub exhaustive: bool,
    /// One thread only (used where the case itself runs threads)
    pub serial: bool,
    /// Runs child processes: few, expensive, described in full
    pub procs: bool,
}

impl Suite {
    /// Runs a build of its own, whatever the build of the monitor
    fn sanitizer(&self) -> bool {
        self.procs && ["ThreadSanitizer", "AddressSanitizer", "Miri"].contains(&self.name)
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub suites: Vec<Suite>,
    /// Classes that must have been reached for a verdict
    pub need: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

/// Case counts in the tables are for about a second; these set the time spent per check.
const QUICK_SCALE: u64 = 20;
const THOROUGH_SCALE: u64 = 10;
/// Distinct inputs are counted exactly up to this many per worker and suite (a lower bound beyond)
const MAX_KEYS: usize = 8_000_000;

pub fn suite(name: &'static str, f: CaseFn, quick: u64, thorough: u64) -> Suite {
    Suite { name, f, quick: quick * QUICK_SCALE, thorough: thorough * THOROUGH_SCALE, exhaustive: false, serial: false, procs: false }
}
pub fn exhaustive(name: &'static str, f: CaseFn, quick: u64, thorough: u64) -> Suite {
    Suite { name, f, quick, thorough, exhaustive: true, serial: false, procs: false }
}
pub fn serial(name: &'static str, f: CaseFn, quick: u64, thorough: u64) -> Suite {
    Suite { name, f, quick, thorough, exhaustive: false, serial: true, procs: false }
}

/// One case per day (or year) of a range; the rest of the case is drawn
pub fn each(name: &'static str, f: CaseFn, quick: u64, thorough: u64) -> Suite {
    Suite { name, f, quick, thorough, exhaustive: false, serial: false, procs: false }
}

/// Cases that run child processes, side by side
pub fn procs(name: &'static str, f: CaseFn, quick: u64, thorough: u64) -> Suite {
    Suite { name, f, quick, thorough, exhaustive: false, serial: false, procs: true }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String,String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub fn last_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

// A crash that cannot unwind (abort, segmentation fault) is reported by the process itself.
thread_local! {
    static CURRENT: std::cell::Cell<(usize, u64)> = const { std::cell::Cell::new((usize::MAX, 0)) };
}
static LAST_SUITE: AtomicU64 = AtomicU64::new(u64::MAX);
static LAST_CASE: AtomicU64 = AtomicU64::new(0);
struct CrashInfo {
    root: String,
    prop: &'static str,
    suites: Vec<&'static str>,
    tier: Tier,
    seed: u64,
}
static CRASH: std::sync::OnceLock<CrashInfo> = std::sync::OnceLock::new();
#[repr(C)]
struct Sigaction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, new: *const Sigaction, old: *mut Sigaction) -> i32;
    fn _exit(code: i32) -> !;
}
extern "C" fn on_crash(sig: i32) {
    let (mut si, mut idx) = CURRENT.with(|c| c.get());
    if si == usize::MAX {
        // a helper thread of a case: name the case last begun
        si = LAST_SUITE.load(Ordering::Relaxed) as usize;
        idx = LAST_CASE.load(Ordering::Relaxed);
    }
    if let Some(k) = CRASH.get() {
        let (loc, msg) = LAST_PANIC.try_with(|p| p.try_borrow().ok().and_then(|p| p.clone())).ok().flatten().unwrap_or_default();
        if si < k.suites.len() {
            let f = Found {
                suite: k.suites[si],
                idx,
                fail: Fail { sig: "crash".into(), msg: format!("the process died of signal {sig} {loc} {msg}") },
                desc: vec![],
            };
            let path = write_replay(&k.root, k.prop, k.tier, k.seed, &f, 0);
            println!("VIOLATION property={} replay={path}", k.prop);
            println!("  suite {} case {}: [crash] {}", f.suite, f.idx, f.fail.msg);
            use std::io::Write;
            let _ = std::io::stdout().flush();
            unsafe { _exit(1) }
        }
    }
    unsafe { _exit(2) }
}
fn install_crash_handler(p: &Prop, tier: Tier, seed: u64, root: &str) {
    let _ = CRASH.set(CrashInfo { root: root.into(), prop: p.id, suites: p.suites.iter().map(|s| s.name).collect(), tier, seed });
    // SA_ONSTACK | SA_NODEFER: Rust gives every thread an alternate stack
    let a = Sigaction { handler: on_crash as *const () as usize, mask: [0; 16], flags: 0x0800_0000 | 0x4000_0000, restorer: 0 };
    for s in [4, 6, 7, 8, 11] {
        unsafe { sigaction(s, &a, std::ptr::null_mut()) };
    }
}

pub enum Outcome {
    Ok,
    Fail(Fail),
    /// The harness itself failed: never a verdict
    Harness(String),
}

fn run_case(f: CaseFn, c: &mut Ctx) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| f(c))) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(e)) => Outcome::Fail(e),
        Err(_) => {
            let (loc, msg) = last_panic();
            if loc.starts_with("src/") || loc.contains("/verif/harness/") {
                Outcome::Harness(format!("harness panic at {loc}: {msg}"))
            } else {
                Outcome::Fail(Fail { sig: "panic".into(), msg: format!("panic in the code under test at {loc}: {msg}") })
            }
        }
    }
}

#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut Timespec) -> i32;
}
fn my_clock() -> i32 {
    let mut c = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
    c
}
fn cpu_s(clock: i32) -> f64 {
    let mut t = Timespec { s: 0, n: 0 };
    if unsafe { clock_gettime(clock, &mut t) } != 0 {
        return 0.0;
    }
    t.s as f64 + t.n as f64 * 1e-9
}

/// What a worker is doing, for the watchdog
struct Slot {
    clock: i32,
    case: AtomicU64,
    done: AtomicBool,
}

/// The second pass runs the same monitors on the library as its users build it (cargo's default release
/// profile: no overflow checks, no debug assertions), on every fourth chunk of cases of every suite.
pub fn shipped() -> bool {
    std::env::var("VERIF_BUILD").is_ok_and(|v| v == "shipped")
}

/// A single case costs at most a few milliseconds of processor time; one that has used this much
/// of its own thread's processor time (not wall-clock time) is not going to return.
const HANG_CPU_S: f64 = 60.0;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

pub struct Known {
    pub prop: String,
    pub sig: String,
    pub text: String,
}

pub fn load_known(root: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                let mut it = rest.splitn(3, ' ');
                let (Some(p), Some(s), Some(t)) = (it.next(), it.next(), it.next()) else { continue };
                let (Some(p), Some(s)) = (p.strip_prefix("property="), s.strip_prefix("sig=")) else { continue };
                v.push(Known { prop: p.into(), sig: s.into(), text: t.into() });
            }
        }
    }
    v
}

struct Found {
    suite: &'static str,
    idx: u64,
    fail: Fail,
    desc: Vec<String>,
}

fn write_replay(root: &str, prop: &str, tier: Tier, seed: u64, f: &Found, n: usize) -> String {
    let dir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{n}.txt");
    let build = if shipped() { "shipped" } else { "checked" };
    let mut s = format!(
        "property={prop}\nbuild={build}\nsuite={}\nindex={}\nseed={seed}\ntier={tier:?}\nsignature={}\nmessage={}\n",
        f.suite, f.idx, f.fail.sig, f.fail.msg
    );
    s.push_str(&format!("literals={}\n", crate::dict::fresh_list()));
    for d in &f.desc {
        s.push_str(&format!("input: {d}\n"));
    }
    s.push_str("# re-run: bash /verif/run.sh replay <this file>\n");
    let _ = std::fs::write(&path, s);
    path
}

/// Re-run a single case verbosely
pub fn replay(p: &Prop, suite: &str, idx: u64, seed: u64, tier: Tier) -> i32 {
    install_panic_hook();
    let Some(s) = p.suites.iter().find(|s| s.name == suite) else {
        eprintln!("no suite {suite}");
        return 2;
    };
    let mut c = Ctx::new(tier, seed);
    c.verbose = true;
    c.begin(s.name, idx);
    let o = run_case(s.f, &mut c);
    for d in &c.desc {
        println!("input: {d}");
    }
    for f in &c.soft {
        println!("listed-kind failure {}: {}", f.sig, f.msg);
    }
    match o {
        Outcome::Ok => {
            println!("held");
            0
        }
        Outcome::Fail(f) => {
            println!("VIOLATED [{}] {}", f.sig, f.msg);
            1
        }
        Outcome::Harness(m) => {
            println!("{m}");
            2
        }
    }
}

pub fn run(p: &Prop, tier: Tier, seed: u64, root: &str, extra: &str) -> i32 {
    let t0 = Instant::now();
    install_panic_hook();
    let known = load_known(root);
    let nthreads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let shipped = shipped();
    // Different inputs from the first pass
    let seed = if shipped { seed.wrapping_add(1_000_003) } else { seed };
    install_crash_handler(p, tier, seed, root);
    let deadline_s = match (tier, shipped) {
        (Tier::Quick, false) => 520.0,
        (Tier::Quick, true) => 240.0,
        (_, false) => 3000.0,
        (_, true) => 1500.0,
    };
    // On a slow machine sampled suites stop early here (each keeps at least one chunk per worker); the evidence says so
    let soft_s = match (tier, shipped) {
        (Tier::Quick, false) => 300.0,
        (Tier::Quick, true) => 100.0,
        (_, false) => 2400.0,
        (_, true) => 800.0,
    };
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let known_hits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let harness_err: Mutex<Option<String>> = Mutex::new(None);
    let mut events = 0u64;
    let mut evals = 0u64;
    let mut distinct = 0u64;
    let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut metrics: BTreeMap<&'static str, (f64, f64)> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut suites_json = vec![];
    for (si, s) in p.suites.iter().enumerate() {
        if shipped && s.sanitizer() {
            continue;
        }
        let n = if tier == Tier::Quick { s.quick } else { s.thorough };
        let n = if s.exhaustive { n } else { ((n as f64 * scale).ceil() as u64).max(1) };
        let nt = if s.serial { 1 } else { nthreads.min(n as usize).max(1) };
        let pdesc: Mutex<Vec<String>> = Mutex::new(vec![]);
        let chunk = (n / (nt as u64 * 64)).clamp(1, 4096);
        let stride = if shipped { 4 } else { 1 };
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let ts = Instant::now();
        LAST_SUITE.store(si as u64, Ordering::Relaxed);
        // Samples: the first case and one further on, described in full
        for k in [0u64, n / 3] {
            if s.procs {
                break;
            }
            let mut c = Ctx::new(tier, seed);
            c.verbose = true;
            c.begin(s.name, k);
            CURRENT.with(|x| x.set((si, k)));
            let _ = run_case(s.f, &mut c);
            if !c.desc.is_empty() && samples.len() < 24 {
                samples.push(format!("{}[{}]: {}", s.name, k, c.desc.join("; ")));
            }
            if n < 3 {
                break;
            }
        }
        let slots: Mutex<Vec<std::sync::Arc<Slot>>> = Mutex::new(vec![]);
        let finished = AtomicBool::new(false);
        let results: Vec<(Ctx, u64, Vec<u64>)> = std::thread::scope(|sc| {
            let mut hs = vec![];
            for _ in 0..nt {
                hs.push(sc.spawn(|| {
                    let slot = std::sync::Arc::new(Slot { clock: my_clock(), case: AtomicU64::new(0), done: AtomicBool::new(false) });
                    slots.lock().unwrap().push(slot.clone());
                    let mut c = Ctx::new(tier, seed);
                    c.verbose = s.procs;
                    let mut cnt = 0;
                    let mut keys: Vec<u64> = vec![];
                    'outer: while !stop.load(Ordering::Relaxed) {
                        if cnt > 0 && !s.exhaustive && t0.elapsed().as_secs_f64() > soft_s {
                            break;
                        }
                        let a = next.fetch_add(chunk * stride, Ordering::Relaxed);
                        if a >= n {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            slot.case.store(i + 1, Ordering::Relaxed);
                            c.begin(s.name, i);
                            CURRENT.with(|x| x.set((si, i)));
                            if s.serial {
                                LAST_CASE.store(i, Ordering::Relaxed);
                            }
                            let o = run_case(s.f, &mut c);
                            cnt += 1;
                            if s.procs && i < 4 {
                                pdesc.lock().unwrap().push(format!("{}[{i}]: {}", s.name, c.desc.join("; ")));
                            }
                            if !c.trivial && keys.len() < MAX_KEYS {
                                keys.push(c.hash);
                            }
                            let mut fails: Vec<Fail> = std::mem::take(&mut c.soft);
                            match o {
                                Outcome::Ok => {}
                                Outcome::Fail(f) => fails.push(f),
                                Outcome::Harness(m) => {
                                    *harness_err.lock().unwrap() = Some(format!("suite {} case {i}: {m}", s.name));
                                    stop.store(true, Ordering::Relaxed);
                                    break 'outer;
                                }
                            }
                            for f in fails {
                                if known.iter().any(|k| k.prop == p.id && k.sig == f.sig) {
                                    *known_hits.lock().unwrap().entry(f.sig).or_insert(0) += 1;
                                    continue;
                                }
                                let mut v = found.lock().unwrap();
                                if v.len() < 64 {
                                    v.push(Found { suite: s.name, idx: i, fail: f, desc: vec![] });
                                } else {
                                    stop.store(true, Ordering::Relaxed);
                                    break 'outer;
                                }
                            }
                        }
                    }
                    slot.done.store(true, Ordering::Relaxed);
                    (c, cnt, keys)
                }));
            }
            // Watchdog: hang (processor time of one case) is a violation; wall clock is inconclusive.
            let (slots, finished, found, s) = (&slots, &finished, &found, &s);
            sc.spawn(move || {
                let mut last: Vec<(u64, f64)> = vec![];
                while !finished.load(Ordering::Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    let v = slots.lock().unwrap();
                    last.resize(v.len(), (0, 0.0));
                    for (i, sl) in v.iter().enumerate() {
                        if sl.done.load(Ordering::Relaxed) {
                            continue;
                        }
                        let k = sl.case.load(Ordering::Relaxed);
                        let t = cpu_s(sl.clock);
                        if k != last[i].0 {
                            last[i] = (k, t);
                        } else if k > 0 && t - last[i].1 > HANG_CPU_S && !s.serial {
                            let mut c = Ctx::new(tier, seed);
                            c.begin(s.name, k - 1);
                            let f = Found {
                                suite: s.name,
                                idx: k - 1,
                                fail: Fail { sig: "hang".into(), msg: format!("one case used over {HANG_CPU_S} s of processor time") },
                                desc: vec![],
                            };
                            let path = write_replay(root, p.id, tier, seed, &f, 0);
                            println!("VIOLATION property={} replay={path}", p.id);
                            std::process::exit(1);
                        }
                    }
                    drop(v);
                    if t0.elapsed().as_secs_f64() > deadline_s {
                        if !found.lock().unwrap().is_empty() {
                            let v = found.lock().unwrap();
                            let path = write_replay(root, p.id, tier, seed, &v[0], 0);
                            println!("VIOLATION property={} replay={path}", p.id);
                            std::process::exit(1);
                        }
                        println!("INCONCLUSIVE property={} wall clock limit in suite {}", p.id, s.name);
                        std::process::exit(3);
                    }
                }
            });
            let r: Vec<_> = hs.into_iter().map(|h| h.join().expect("worker")).collect();
            finished.store(true, Ordering::Relaxed);
            r
        });
        samples.append(&mut pdesc.into_inner().unwrap());
        let mut keys: Vec<u64> = vec![];
        let mut cnt = 0;
        for (c, n, mut k) in results {
            cnt += n;
            events += c.events;
            for (a, b) in c.classes {
                *classes.entry(a).or_insert(0) += b;
            }
            for (a, b) in c.metrics {
                let m = metrics.entry(a).or_insert((0.0, 0.0));
                if b.0 > m.0 {
                    *m = b;
                }
            }
            keys.append(&mut k);
        }
        keys.sort_unstable();
        keys.dedup();
        evals += cnt;
        distinct += keys.len() as u64;
        suites_json.push(format!(
            "{{\"suite\":\"{}\",\"planned\":{n},\"cases\":{},\"distinct\":{},\"exhaustive\":{},\"wall_s\":{:.2}}}",
            s.name,
            cnt,
            keys.len(),
            s.exhaustive,
            ts.elapsed().as_secs_f64()
        ));
        if harness_err.lock().unwrap().is_some() || !found.lock().unwrap().is_empty() {
            break;
        }
    }
    let found = found.into_inner().unwrap();
    let known_hits = known_hits.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    if shipped {
        // Adds to the evidence the first pass wrote
        let path = format!("{root}/evidence/{}.json", p.id);
        let ev = std::fs::read_to_string(&path).unwrap_or_default();
        let add = format!(
            ",\n  \"second_pass\":{{\"build\":\"cargo release profile without overflow checks and debug assertions\",\"seed\":{seed},\"evaluations\":{evals},\"distinct_nontrivial\":{distinct},\"oracle_decisions\":{events},\"suites\":[{}],\"wall_s\":{wall:.2}}}\n }},\n \"assumptions\"",
            suites_json.join(",")
        );
        let ev = ev.replacen("\n },\n \"assumptions\"", &add, 1).replacen("\"violations\":0", &format!("\"violations\":{}", found.len()), 1);
        if let Err(e) = std::fs::write(&path, ev) {
            println!("cannot write evidence: {e}");
            return 2;
        }
        if !found.is_empty() {
            report(p, tier, seed, root, found);
            return 1;
        }
        if let Some(m) = harness_err.into_inner().unwrap() {
            println!("HARNESS ERROR property={} {m}", p.id);
            return 2;
        }
        println!("HELD property={} in the release build too: cases={evals} decisions={events} wall={wall:.1}s", p.id);
        return 0;
    }
    // Evidence
    let cls: Vec<String> = classes.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect();
    let met: Vec<String> = metrics
        .iter()
        .map(|(k, v)| format!("\"{}\":{{\"worst_error_over_tolerance\":{:.3e},\"worst_error\":{:.3e}}}", esc(k), fin(v.0), fin(v.1)))
        .collect();
    let smp: Vec<String> = samples.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let ass: Vec<String> = p.assumptions.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let kn: Vec<String> = known_hits.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect();
    let missing: Vec<&str> = p.need.iter().filter(|k| classes.get(**k).copied().unwrap_or(0) == 0).copied().collect();
    let nfresh = crate::dict::fresh_count();
    let ev = format!(
        "{{\n \"property\":\"{}\",\n \"tier\":\"{}\",\n \"seed\":{},\n \"level\":\"exploration\",\n \"coverage\":{{\n  \"evaluations\":{},\n  \"distinct_nontrivial\":{},\n  \"rule\":\"{}\",\n  \"samples\":[{}],\n  \"oracle_decisions\":{},\n  \"literals_new_to_the_tree\":{nfresh},\n  \"suites\":[{}],\n  \"input_classes_seen\":{{{}}},\n  \"error_margins\":{{{}}},\n  \"known_finding_hits\":{{{}}}{}\n }},\n \"assumptions\":[{}],\n \"wall_s\":{:.2},\n \"violations\":{}\n}}\n",
        p.id,
        if tier == Tier::Quick { "quick" } else { "thorough" },
        seed,
        evals,
        distinct,
        esc(p.rule),
        smp.join(","),
        events,
        suites_json.join(","),
        cls.join(","),
        met.join(","),
        kn.join(","),
        extra,
        ass.join(","),
        wall,
        found.len()
    );
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    if let Err(e) = std::fs::write(format!("{root}/evidence/{}.json", p.id), ev) {
        println!("cannot write evidence: {e}");
        return 2;
    }
    for k in &known {
        if k.prop == p.id && known_hits.contains_key(&k.sig) {
            println!("KNOWN-FINDING: property={} {}", p.id, k.text);
        }
    }
    if !found.is_empty() {
        report(p, tier, seed, root, found);
        return 1;
    }
    if let Some(m) = harness_err.into_inner().unwrap() {
        println!("HARNESS ERROR property={} {m}", p.id);
        return 2;
    }
    if !missing.is_empty() {
        println!("INCONCLUSIVE property={} classes never reached: {missing:?}", p.id);
        return 3;
    }
    println!(
        "HELD property={} in the checked build: tier={tier:?} seed={seed} cases={evals} distinct={distinct} decisions={events} wall={wall:.1}s",
        p.id
    );
    0
}

fn report(p: &Prop, tier: Tier, seed: u64, root: &str, mut found: Vec<Found>) {
    found.sort_by_key(|f| f.idx);
    // one replay file per signature
    let mut sigs: Vec<String> = vec![];
    for f in found.iter_mut() {
        if sigs.contains(&f.fail.sig) || sigs.len() >= 8 {
            continue;
        }
        sigs.push(f.fail.sig.clone());
        if let Some(s) = p.suites.iter().find(|s| s.name == f.suite) {
            if f.fail.sig != "hang" {
                let mut c = Ctx::new(tier, seed);
                c.verbose = true;
                c.begin(s.name, f.idx);
                let _ = run_case(s.f, &mut c);
                f.desc = c.desc.clone();
            }
        }
        let path = write_replay(root, p.id, tier, seed, f, sigs.len());
        println!("VIOLATION property={} replay={path}", p.id);
        println!("  suite {} case {}: [{}] {}", f.suite, f.idx, f.fail.sig, f.fail.msg);
        for d in f.desc.iter().take(6) {
            println!("  input: {d}");
        }
    }
}

fn fin(x: f64) -> f64 {
    if x.is_finite() {
        x
    } else {
        1e300
    }
}
