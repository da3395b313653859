//! C35 the command-line tools, observed at the process boundary.
use super::sun::{params, shift};
use crate::dd::{dd, two_sum};
use crate::fw::*;
use crate::refm::cal;
use crate::rng::{ulp, Rng};
use std::io::Read;
use std::process::{Command, Stdio};
use tofas::calendar::{GregorianDate, HMS};
use tofas::ellipsoid::Geodetic360;
use tofas_extras::sun_angle::*;

struct Out {
    ok: bool,
    text: String,
    err: String,
    args: String,
    unbounded: bool,
    signal: Option<i32>,
}
const LIMIT: u64 = 4 << 20;

fn tool(name: &str, args: &[String]) -> Out {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    extern "C" {
        fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    }
    let exe = std::env::current_exe().expect("own path").with_file_name(name);
    let mut k = Command::new(&exe);
    k.args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0").env_remove("CLICOLOR");
    unsafe {
        // processor time only: a tool that never returns is killed, a slow machine is not blamed
        k.pre_exec(|| {
            let l = [20u64, 20u64];
            setrlimit(0, &l);
            Ok(())
        });
    }
    let mut p = k.spawn().unwrap_or_else(|e| panic!("harness: cannot run {}: {e}", exe.display()));
    let mut so = vec![];
    let mut stdout = p.stdout.take().expect("stdout");
    let _ = (&mut stdout).take(LIMIT).read_to_end(&mut so);
    let unbounded = so.len() as u64 >= LIMIT;
    if unbounded {
        let _ = p.kill();
    }
    drop(stdout);
    let mut se = vec![];
    let _ = p.stderr.take().expect("stderr").take(1 << 16).read_to_end(&mut se);
    let st = p.wait().expect("wait");
    Out {
        ok: st.success(),
        text: String::from_utf8_lossy(&so).into_owned(),
        err: String::from_utf8_lossy(&se).into_owned(),
        args: format!("{name} {}", args.join(" ")),
        unbounded,
        signal: st.signal(),
    }
}
fn bounded(o: &Out) -> R {
    if o.unbounded || o.signal.is_some() {
        return fail("never ends", format!("'{}' prints without end or uses 20 s of processor time or dies of a signal ({:?})", o.args, o.signal));
    }
    Ok(())
}
/// The value after "Label:", by label
fn field<'a>(o: &'a Out, label: &str) -> Result<&'a str, Fail> {
    let p = format!("{label}:");
    let v: Vec<&str> = o.text.lines().filter_map(|l| l.strip_prefix(&p)).collect();
    if v.len() != 1 {
        return fail("line missing or repeated", format!("'{}' has {} lines '{label}:' in {:?} (stderr {:?})", o.args, v.len(), o.text, o.err));
    }
    Ok(v[0].trim())
}
fn num(o: &Out, label: &str) -> Result<f64, Fail> {
    let s = field(o, label)?;
    s.parse().or_else(|_| fail("not a number", format!("'{}': {label}: {s:?}", o.args)))
}
/// Shuffle the options
fn spell(r: &mut Rng, head: &[&str], opts: &[(&str, String)]) -> Vec<String> {
    let mut v: Vec<&(&str, String)> = opts.iter().collect();
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
    let mut a: Vec<String> = head.iter().map(|s| s.to_string()).collect();
    for (k, x) in v {
        if x.is_empty() {
            a.push(k.to_string());
        } else {
            a.push(k.to_string());
            a.push(x.clone());
        }
    }
    a
}
fn civil(r: &mut Rng) -> (i64, i64, i64) {
    let y = match r.below(8) {
        2 => r.logu(1e4, 2.6e6) as i64,
        0 | 3 => r.int(-4799, 9999),
        1 => *r.pick(&[1900, 2000, 2100, 1600, 0, -4, -4799, 9999, 10000, 12345]),
        _ => r.int(1800, 2200),
    };
    let m = r.int(1, 12);
    (y, m, if r.chance(0.3) { cal::month_len(y, m) } else { r.int(1, cal::month_len(y, m)) })
}
fn near(c: &mut Ctx, o: &Out, what: &'static str, got: f64, want: f64, tol: f64) -> R {
    c.close(what, got, want, tol).map_err(|mut f| {
        f.msg.push_str(&format!(" from '{}' printing {:?}", o.args, o.text));
        f
    })
}
/// HH:MM:SS.ffffff in seconds; the seconds may have been rounded up to 60 (listed under C32)
fn clock(o: &Out) -> Result<f64, Fail> {
    let s = field(o, "Time")?;
    let p: Vec<&str> = s.split(':').collect();
    let bad = || fail("time layout", format!("'{}': {s:?}", o.args));
    if p.len() != 3 || p[0].len() != 2 || p[1].len() != 2 || p[2].len() != 9 {
        return bad();
    }
    match (p[0].parse::<u32>(), p[1].parse::<u32>(), p[2].parse::<f64>()) {
        (Ok(h), Ok(m), Ok(x)) if h < 24 && m < 60 && (0.0..=60.0).contains(&x) => Ok(h as f64 * 3600.0 + m as f64 * 60.0 + x),
        _ => bad(),
    }
}
fn text_date(y: i64, m: i64, d: i64) -> String {
    let s = format!("{:03}", y.abs());
    if y < 0 {
        format!("-{s}-{m:02}-{d:02}")
    } else {
        format!("{y:04}-{m:02}-{d:02}")
    }
}
fn gregorian(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let (y, m, d) = civil(&mut r);
    let mut o: Vec<(&str, String)> = vec![("--year", y.to_string()), ("--month", m.to_string()), ("--day", d.to_string())];
    let (mut h, mut mi, mut s) = (12i64, 0i64, 0.0f64);
    if r.chance(0.8) {
        h = r.int(0, 23);
        o.push(("--hour", h.to_string()));
    }
    if r.chance(0.7) {
        mi = r.int(0, 59);
        o.push(("--minute", mi.to_string()));
    }
    if r.chance(0.7) {
        let t = if r.bool() { format!("{}", r.below(60)) } else { format!("{}.{:03}", r.below(60), r.below(1000)) };
        s = t.parse().expect("seconds");
        o.push(("--second", t));
    }
    let head = *r.pick(&["g", "gregorian"]);
    let a = spell(&mut r, &[head], &o);
    let out = tool("julian_tool", &a);
    c.keyf(&[y as f64, (m * 40 + d) as f64, (h * 60 + mi) as f64, s]);
    c.desc(|| format!("{} -> {:?}", out.args, out.text));
    c.class("gregorian");
    c.class_if(y < 0, "negative year");
    bounded(&out)?;
    c.check("valid date accepted", out.ok, || format!("'{}': {}", out.args, out.err))?;
    let g = field(&out, "Gregorian date")?;
    c.check("date echoed", g == text_date(y, m, d), || format!("'{}' prints {g:?}", out.args))?;
    let w = s + mi as f64 * 60.0 + h as f64 * 3600.0;
    let t = clock(&out)?;
    near(c, &out, "time echoed (s)", t, w, 0.51e-6)?;
    let f = num(&out, "Fraction of day")?;
    near(c, &out, "fraction of day", f, w / 86400.0, 0.501e-6)?;
    let jd = cal::mjd(y, m, d) as f64 + 2400000.5 + w / 86400.0;
    let j = num(&out, "Julian date")?;
    near(c, &out, "Julian date", j, jd, 0.501e-6 + 3.0 * ulp(jd))
}
fn julian(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let (y, m, d) = civil(&mut r);
    let day = cal::mjd(y, m, d) as f64 + 2400000.5;
    let fr = match r.below(4) {
        0 => 0.0,
        1 => 0.5,
        2 => r.below(86400) as f64 / 86400.0,
        3 if r.bool() => {
            // at and around whole minutes, and the ends of the day
            let k = r.below(1441) as f64 / 1440.0;
            let e = r.sign() * r.logu(1e-16, 1e-5);
            (k + e).clamp(0.0, 1.0 - 1e-16)
        }
        _ => r.f(),
    };
    let (a, b) = match r.below(6) {
        0 => (day + fr, 0.0),
        1 => (day, fr),
        2 => (fr, day),
        3 => (2400000.5, day - 2400000.5 + fr),
        4 => (day + 1.0, fr - 1.0),
        _ => (2451545.0, day - 2451545.0 + fr),
    };
    let mut o = vec![("--jd", format!("{a:?}"))];
    if b != 0.0 || r.bool() {
        o.push(("--jd2", format!("{b:?}")));
    } else {
        c.class("second part omitted");
    }
    let head = *r.pick(&["j", "julian"]);
    let args = spell(&mut r, &[head], &o);
    let out = tool("julian_tool", &args);
    c.keyf(&[a, b]);
    c.desc(|| format!("{} -> {:?}", out.args, out.text));
    c.class("julian");
    bounded(&out)?;
    c.check("valid Julian date accepted", out.ok, || format!("'{}': {}", out.args, out.err))?;
    let j = num(&out, "Julian date")?;
    near(c, &out, "Julian date echoed", j, a + b, 2.0 * ulp(a + b) + 0.6e-14)?;
    let f = num(&out, "Fraction of day")?;
    c.check("fraction in [0,1)", (0.0..1.0).contains(&f), || format!("'{}' prints {:?}", out.args, out.text))?;
    let g = field(&out, "Gregorian date")?;
    // parse with the sign of the year
    let (neg, rest) = match g.strip_prefix('-') {
        Some(x) => (-1, x),
        None => (1, g),
    };
    let p: Vec<i64> = rest.split('-').filter_map(|x| x.parse().ok()).collect();
    c.check("date text", p.len() == 3 && text_date(neg * p[0], p[1], p[2]) == g && cal::valid(neg * p[0], p[1], p[2]), || format!("'{}' prints {g:?}", out.args))?;
    let n = cal::mjd(neg * p[0], p[1], p[2]) as f64;
    let e = (dd(n) + 2400000.5 + f - two_sum(a, b)).f();
    near(c, &out, "instant (days)", e, 0.0, super::cal::tol_parts(a, b))?;
    let t = clock(&out)?;
    near(c, &out, "time (s)", t, f * 86400.0, 0.51e-6)
}
/// Malformed command lines: no result, non-zero status
fn refuse(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let (y, m, d) = civil(&mut r);
    let good: Vec<(&str, String)> = vec![("--year", y.to_string()), ("--month", m.to_string()), ("--day", d.to_string())];
    let z = |a: &[&str]| -> Vec<String> { a.iter().map(|s| s.to_string()).collect() };
    let junk = *r.pick(&["x", "", "1.5.2", "--", "0x10", "12,5", "NaNs"]);
    let kind = r.below(15);
    let (exe, args): (&str, Vec<String>) = match kind {
        0 => {
            c.class("invalid date");
            let (mm, dd) = *r.pick(&[(0, 1), (13, 1), (2, 30), (4, 31), (1, 0), (1, 32), (-1, 5), (12, -3)]);
            ("julian_tool", spell(&mut r, &["g"], &[("--year", y.to_string()), ("--month", mm.to_string()), ("--day", dd.to_string())]))
        }
        1 => {
            c.class("invalid date");
            let yy = *r.pick(&[1900, 2100, 2023, 1, -4]) / 4 * 4 + 1;
            ("julian_tool", spell(&mut r, &["g"], &[("--year", yy.to_string()), ("--month", "2".into()), ("--day", "29".into())]))
        }
        2 => {
            c.class("invalid date");
            ("julian_tool", spell(&mut r, &["g"], &[("--year", "-4800".into()), ("--month", m.to_string()), ("--day", d.to_string())]))
        }
        3 => {
            c.class("missing argument");
            let mut g = good.clone();
            g.remove(r.below(3) as usize);
            ("julian_tool", spell(&mut r, &["g"], &g))
        }
        4 => {
            c.class("not a number");
            let mut g = good.clone();
            let i = r.below(3) as usize;
            g[i].1 = if junk.is_empty() { "?".into() } else { junk.into() };
            ("julian_tool", spell(&mut r, &["gregorian"], &g))
        }
        5 => {
            c.class("not a number");
            let o = *r.pick(&["--hour", "--minute"]);
            let mut g = good.clone();
            g.push((o, r.pick(&["256", "-1", "1.5", "noon"]).to_string()));
            ("julian_tool", spell(&mut r, &["g"], &g))
        }
        6 => {
            c.class("unknown argument");
            let g = good.clone();
            let mut a = spell(&mut r, &["g"], &g);
            match r.below(3) {
                0 => a.extend(z(&[*r.pick(&["--hours", "--sec", "--jd", "--zone"]), "3"])),
                1 => a.push("--hour=3".into()),
                _ => a.push("extra".into()),
            }
            ("julian_tool", a)
        }
        7 => {
            c.class("out of range");
            let v = *r.pick(&["-32000.5", "1000000001", "1e300", "-1e10", "nan", "inf", "-inf"]);
            ("julian_tool", spell(&mut r, &["j"], &[("--jd", v.into())]))
        }
        8 => {
            c.class("missing argument");
            ("julian_tool", if r.bool() { z(&["j"]) } else { z(&["j", "--jd2", "0.5"]) })
        }
        9 => {
            c.class("unknown argument");
            let o = *r.pick(&["--jd3", "extra", "--year", "--verbose"]);
            ("julian_tool", z(&["j", "--jd", "2451545.0", o]))
        }
        10 => {
            c.class("unknown command");
            ("julian_tool", if r.bool() { z(&[]) } else { z(&[*r.pick(&["mayan", "G", "gregor", "help"]), "--jd", "2451545.0"]) })
        }
        11 => {
            c.class("invalid date");
            let (mm, dd) = *r.pick(&[(0, 1), (13, 1), (2, 30), (4, 31), (1, 0), (1, 32)]);
            ("sun_angle_tool", spell(&mut r, &[], &[("--month", mm.to_string()), ("--day", dd.to_string())]))
        }
        13 => {
            c.class("scan without progress");
            let st = *r.pick(&["0", "-60", "-0.5", "-0"]);
            ("sun_angle_tool", spell(&mut r, &[], &[("--scan", String::new()), ("--delta_step", st.into())]))
        }
        12 => {
            c.class("unknown argument");
            let o = *r.pick(&["--latitude", "extra", "--minute", "--second", "--help"]);
            ("sun_angle_tool", z(&["--lat", "10", o]))
        }
        _ => {
            c.class("not a number");
            let o = *r.pick(&["--lat", "--lon", "--height", "--year", "--sec", "--delta0", "--delta_step"]);
            ("sun_angle_tool", z(&[o, if junk.is_empty() { "?" } else { junk }]))
        }
    };
    c.key(crate::rng::hash_str(&args.join("\u{1}")));
    let out = tool(exe, &args);
    c.desc(|| format!("{} -> {} {:?}", out.args, out.ok, out.text));
    // listed findings: these two kinds only, by their own signature
    let listed = match kind {
        6 => "gregorian-extra-args-ignored",
        13 => "scan-without-progress-never-ends",
        _ => "",
    };
    if kind == 13 && out.unbounded {
        c.soft(listed, format!("'{}' prints without end", out.args));
        return Ok(());
    }
    bounded(&out)?;
    let result = if kind >= 11 { "Sun Zenith" } else { "Gregorian date:" };
    if out.ok || out.text.contains(result) {
        let msg = format!("'{}' exits {} and prints {:?}", out.args, if out.ok { "with success" } else { "with failure" }, out.text);
        if kind == 6 {
            c.soft(listed, msg);
            return Ok(());
        }
        return fail("accepted malformed command", msg);
    }
    c.check("says why", !out.err.trim().is_empty(), || format!("'{}' fails without a message", out.args))
}
fn sun(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = params(&mut r, 1961, 2099);
    let mut o: Vec<(&str, String)> = vec![];
    let dflt = SunAngleParameters {
        date: GregorianDate { year: 2007, month: 4, day: 5 },
        time: HMS { hour: 0, minute: 0, second: 0.0 },
        position: Geodetic360 { lat: 0.0, lon: -120.0, height: 0.0 },
    };
    let mut q = dflt.clone();
    let all = r.chance(0.6);
    if all || r.bool() {
        // the date as a whole, so that it stays a valid one
        q.date = p.date;
        o.push(("--year", p.date.year.to_string()));
        o.push(("--month", p.date.month.to_string()));
        o.push(("--day", p.date.day.to_string()));
    }
    if all || r.bool() {
        q.time.hour = p.time.hour;
        o.push(("--hour", p.time.hour.to_string()));
    }
    if all || r.bool() {
        q.time.minute = p.time.minute;
        o.push(("--min", p.time.minute.to_string()));
    }
    if all || r.bool() {
        q.time.second = p.time.second;
        o.push(("--sec", format!("{:?}", p.time.second)));
    }
    if all || r.bool() {
        q.position.lat = p.position.lat;
        o.push(("--lat", format!("{:?}", p.position.lat)));
    }
    if all || r.bool() {
        q.position.lon = p.position.lon;
        o.push(("--lon", format!("{:?}", p.position.lon)));
    }
    if all || r.bool() {
        q.position.height = p.position.height;
        o.push(("--height", format!("{:?}", p.position.height)));
    }
    c.class_if(!all, "defaults");
    let scan = r.chance(0.4);
    let mut steps = vec![-600.0];
    if scan {
        // offsets exact in binary, so that the number of blocks does not depend on rounding
        let step = *r.pick(&[60.0, 1.0, 0.25, 3600.0, 7.5, 86400.0]);
        let n = r.int(0, 12);
        let d0 = r.int(-40, 40) as f64 * step + *r.pick(&[0.0, 0.5]);
        let d1 = d0 + n as f64 * step + *r.pick(&[0.0, 0.125, step * 0.5]);
        o.push(("--scan", String::new()));
        o.push(("--delta0", format!("{d0:?}")));
        o.push(("--delta1", format!("{d1:?}")));
        o.push(("--delta_step", format!("{step:?}")));
        steps = (0..=n).map(|k| d0 + k as f64 * step).collect();
        c.class("scan");
    } else {
        c.class("single");
        if r.bool() {
            let d0 = shift(&mut r);
            o.push(("--delta0", format!("{d0:?}")));
            o.push(("--delta1", format!("{:?}", d0 + 1.0)));
            steps = vec![d0];
        }
    }
    let a = spell(&mut r, &[], &o);
    c.key(crate::rng::hash_str(&a.join(" ")));
    let out = tool("sun_angle_tool", &a);
    c.desc(|| format!("{} -> {} blocks", out.args, out.text.matches("Sun Zenith angle").count()));
    bounded(&out)?;
    c.check("valid arguments accepted", out.ok, || format!("'{}': {}", out.args, out.err))?;
    let calc = SunAngleCalculator::new(&q);
    let mut want: Vec<String> = vec![];
    for s in &steps {
        let res = calc.compute(*s);
        let text = format!("{}", SunAngleResultBundle { parameters: &q, result: &res });
        want.extend(text.lines().map(|l| l.to_string()));
    }
    let got: Vec<&str> = out.text.lines().filter(|l| !l.trim().is_empty() && !l.starts_with("Will scan")).collect();
    c.check("one block per step", got.iter().filter(|l| l.starts_with("Sun Zenith angle")).count() == steps.len(), || {
        format!("'{}' prints {} blocks, {} steps asked", out.args, got.iter().filter(|l| l.starts_with("Sun Zenith angle")).count(), steps.len())
    })?;
    for (g, w) in got.iter().zip(&want) {
        c.check("the library's report", g == w, || format!("'{}' prints {g:?}, the library says {w:?}", out.args))?;
    }
    c.check("nothing else", got.len() == want.len(), || format!("'{}' prints {:?}", out.args, out.text))
}
pub fn c35() -> Prop {
    Prop {
        id: "C35",
        rule: "each case is one process run with one command line; distinct by command line",
        suites: vec![
            procs("julian_tool gregorian", gregorian, 8_000, 80_000),
            procs("julian_tool julian", julian, 8_000, 80_000),
            procs("sun_angle_tool", sun, 3_000, 60_000),
            procs("malformed command lines", refuse, 3_000, 40_000),
        ],
        need: &[
            "gregorian", "negative year", "julian", "second part omitted", "invalid date", "missing argument", "not a number",
            "unknown argument", "out of range", "unknown command", "scan without progress", "defaults", "scan", "single",
        ],
        assumptions: &[
            "scan steps are positive and exact in binary; times of day given to the tools are valid",
            "an out-of-range Julian date is echoed before it is refused; 'no result' means no calendar date",
        ],
    }
}
