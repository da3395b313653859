//! C30 Sun zenith angle, C31 self-consistency and history, C36 report.
use crate::dd::{dd, two_sum, Dd};
use crate::fw::*;
use crate::gen::*;
use crate::refm::{astro, cal, epv, geo};
use crate::rng::{ulp, Rng};
use std::f64::consts::PI;
use tofas::calendar::{GregorianDate, HMS};

/// Astronomical unit (m), IAU 2012
const AUM: f64 = 149597870700.0;
use tofas::ellipsoid::Geodetic360;
use tofas_extras::sun_angle::*;

pub const DUT1: f64 = -0.072073685;
pub const XP: f64 = 0.0349282 * astro::AS;
pub const YP: f64 = 0.4833163 * astro::AS;

fn with<T>(r: Result<T, Fail>, s: impl FnOnce() -> String) -> Result<T, Fail> {
    r.map_err(|mut f| {
        f.msg.push_str(" for ");
        f.msg.push_str(&s());
        f
    })
}

pub fn params(r: &mut Rng, y0: i64, y1: i64) -> SunAngleParameters {
    let y = r.int(y0, y1);
    let m = r.int(1, 12);
    let d = match r.below(4) {
        0 => 1,
        1 => cal::month_len(y, m),
        _ => r.int(1, cal::month_len(y, m)),
    };
    let (h, mi) = match r.below(6) {
        0 => (0, 0),
        1 => (23, 59),
        2 => (*r.pick(&[0, 6, 12, 18, 12, 3]), 0),
        3 => {
            // a fraction of the day
            let m = (r.range(0.0, 1.0) * 1440.0) as i64;
            (m / 60 % 24, m % 60)
        }
        _ => (r.int(0, 23), r.int(0, 59)),
    };
    let s = match r.below(5) {
        0 | 4 => 0.0,
        1 => r.range(0.0, 59.999999),
        2 => r.below(60) as f64,
        _ => r.below(60000) as f64 / 1000.0,
    };
    // inside one of the leap seconds there were
    let (y, m, d, h, mi, s) = if y0 <= 1972 && y1 >= 2017 && r.chance(0.03) {
        let days: Vec<i64> = cal::step_days().into_iter().filter(|n| *n > 41317).collect();
        let (y, m, d) = cal::from_mjd(*r.pick(&days) - 1);
        let u = 60.25 + 0.7 * r.f();
        (y, m, d, 23, 59, *r.pick(&[60.0, 60.5, u, 60.999]))
    } else {
        (y, m, d, h, mi, s)
    };
    let lat = match r.below(7) {
        0 => *r.pick(&[0.0, 90.0, -90.0, 23.4393, -23.4393, 66.56]),
        1 => r.int(-90, 90) as f64,
        _ => r.range(-90.0, 90.0),
    };
    let lon = match r.below(7) {
        0 => *r.pick(&[0.0, 180.0, -180.0, 90.0, -90.0]),
        1 => r.range(-720.0, 720.0),
        _ => r.range(-180.0, 180.0),
    };
    let height = match r.below(4) {
        0 => 0.0,
        1 => r.range(-500.0, 9000.0),
        2 => r.range(0.0, 400e3),
        _ => r.range(-100.0, 100.0),
    };
    SunAngleParameters {
        date: GregorianDate { year: y as i32, month: m as i32, day: d as i32 },
        time: HMS { hour: h as u8, minute: mi as u8, second: s },
        position: Geodetic360 { lat, lon, height },
    }
}
/// Days of 1960-2099, all of them, from MJD 36934
const DAYS140: u64 = 51_135;
fn on_day(c: &Ctx, p: &mut SunAngleParameters) {
    if let Some(n) = c.day {
        let (y, m, d) = cal::from_mjd(n);
        p.date = GregorianDate { year: y as i32, month: m as i32, day: d as i32 };
        if p.time.second >= 60.0 {
            p.time.second -= 1.0;
        }
    }
}
macro_rules! each_day {
    ($name:ident, $case:ident) => {
        fn $name(c: &mut Ctx) -> R {
            c.day = Some(36934 + (c.idx % DAYS140) as i64);
            $case(c)
        }
    };
}
each_day!(c30_day, c30_case);
each_day!(c31_day, c31_fields);
pub fn shift(r: &mut Rng) -> f64 {
    match r.below(8) {
        // years
        7 => r.sign() * r.logu(3e7, 3e9),
        0 => 0.0,
        1 => r.range(-600.0, 600.0),
        2 => r.int(-3600, 3600) as f64,
        3 => r.range(-86400.0, 86400.0),
        4 => r.sign() * r.logu(1e-6, 10.0),
        5 => r.int(-30, 30) as f64 * 86400.0,
        _ => r.range(-86400.0 * 400.0, 86400.0 * 400.0),
    }
}
fn keyp(c: &mut Ctx, p: &SunAngleParameters, s: f64) {
    c.keyf(&[p.date.year as f64, (p.date.month * 40 + p.date.day) as f64, p.time.hour as f64 * 60.0 + p.time.minute as f64, p.time.second]);
    c.keyf(&[p.position.lat, p.position.lon, p.position.height, s]);
}
/// Days from J2000 of the requested UTC instant, and the reference intermediate values
pub struct Truth {
    pub day: i64,
    pub fr: Dd,
    pub utc: Dd,
    pub dat: f64,
    pub tt: Dd,
    pub ut1: Dd,
    pub elong: f64,
    pub phi: f64,
}
pub fn truth(p: &SunAngleParameters, s: f64) -> Truth {
    let day = cal::mjd(p.date.year as i64, p.date.month as i64, p.date.day as i64);
    let fr = (dd(p.time.second) + (p.time.hour as f64 * 3600.0 + p.time.minute as f64 * 60.0)) / 86400.0;
    let utc = dd(day as f64) - 51544.5 + fr + dd(s) / 86400.0;
    let dat = cal::tai_utc(day, fr.f().min(1.0)).unwrap_or(0.0);
    let tt = utc + (dd(dat) + 32.184) / 86400.0;
    let ut1 = utc + dd(DUT1) / 86400.0;
    let d2r = crate::dd::PI1 / 180.0;
    Truth { day, fr, utc, dat, tt, ut1, elong: (d2r * p.position.lon).f(), phi: (d2r * p.position.lat).f() }
}
/// Well-conditioned angle between directions
pub fn angle(a: [f64; 3], b: [f64; 3]) -> f64 {
    let (na, nb) = (geo::norm(a), geo::norm(b));
    let u = [a[0] / na, a[1] / na, a[2] / na];
    let v = [b[0] / nb, b[1] / nb, b[2] / nb];
    let d = geo::norm([u[0] - v[0], u[1] - v[1], u[2] - v[2]]);
    let s = geo::norm([u[0] + v[0], u[1] + v[1], u[2] + v[2]]);
    2.0 * d.atan2(s)
}
/// What the arccosine in the last step may lose
fn acos_slack(z: f64) -> f64 {
    (20.0 * EPS / z.sin().abs().max(1e-300)).min(1e-7)
}

// ---------------------------------------------------------------- C30
fn c30_case(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let mut p = params(&mut r, 1960, 2099);
    on_day(c, &mut p);
    let s = shift(&mut r);
    keyp(c, &p, s);
    let calc = SunAngleCalculator::new(&p);
    let q = calc.compute(s);
    let t = truth(&p, s);
    let ds = || format!("{p:?} shift {s:?}");
    c.desc(|| format!("{p:?} shift {s:?}: sza {:?} deg", q.sza.to_degrees()));
    c.check("zenith angle in [0,pi]", q.sza >= 0.0 && q.sza <= PI, || format!("{p:?} {s:?}: {:?}", q.sza))?;
    // an independent low-precision Sun
    let (ra, dec) = astro::sun_radec(t.tt.f());
    let h = astro::gmst(t.utc.f()) + t.elong - ra;
    let (e, n) = ([dec.cos() * h.cos(), -dec.cos() * h.sin(), dec.sin()], [t.phi.cos(), 0.0, t.phi.sin()]);
    let low = angle(e, n);
    with(c.close("low-precision Sun (rad)", q.sza, low, 0.03f64.to_radians()), ds)?;
    // the full pipeline
    let v = epv::earth(t.tt);
    let m = astro::c2t(t.tt / 36525.0, t.ut1, XP, YP);
    let sun = astro::mv(&m, &[-v.ph[0] * AUM, -v.ph[1] * AUM, -v.ph[2] * AUM]);
    let z = angle(geo::normal(t.elong, t.phi), sun);
    with(c.close("full pipeline (rad)", q.sza, z, 1e-9 + acos_slack(z)), ds)?;
    c.class(if z < PI / 2.0 { "day" } else { "night" });
    c.class_if(p.position.lat < 0.0, "southern hemisphere");
    c.class_if(p.position.lon < 0.0, "west");
    c.class_if(p.position.lat.abs() == 90.0, "pole");
    c.class_if(p.date.year < 1972, "drift era");
    c.class_if(s != 0.0, "shifted");
    c.class_if(p.time.second >= 60.0, "inside a leap second");
    c.class_if(z < 0.02 || z > PI - 0.02, "near zenith or nadir");
    Ok(())
}
/// Place the site under the Sun, or opposite: the arccosine's weak ends
fn c30_subsolar(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let mut p = params(&mut r, 1965, 2095);
    let s = shift(&mut r);
    let t = truth(&p, s);
    let v = epv::earth(t.tt);
    let m = astro::c2t(t.tt / 36525.0, t.ut1, XP, YP);
    let sun = astro::mv(&m, &[-v.ph[0], -v.ph[1], -v.ph[2]]);
    let sg = r.sign();
    let lon = (sg * sun[1]).atan2(sg * sun[0]).to_degrees();
    let lat = (sg * sun[2] / geo::norm(sun)).asin().to_degrees();
    let off = if r.chance(0.3) { 0.0 } else { r.logu(1e-10, 1.0) };
    p.position.lon = lon + off * r.range(-1.0, 1.0);
    p.position.lat = lat + off * r.range(-1.0, 1.0);
    keyp(c, &p, s);
    let q = SunAngleCalculator::new(&p).compute(s);
    let t = truth(&p, s);
    let z = angle(geo::normal(t.elong, t.phi), sun);
    c.class(if sg > 0.0 { "near zenith or nadir" } else { "night" });
    c.desc(|| format!("{p:?} shift {s:?}: sza {:?}", q.sza));
    c.check("zenith angle in [0,pi]", q.sza >= 0.0 && q.sza <= PI, || format!("{p:?} {s:?}: {:?}", q.sza))?;
    with(c.close("near zenith or nadir (rad)", q.sza, z, 1e-9 + acos_slack(z)), || format!("{p:?} shift {s:?}"))
}
pub fn c30() -> Prop {
    Prop {
        id: "C30",
        rule: "each case is one place, time and shift; distinct by bits",
        suites: vec![each("every day 1960-2099", c30_day, DAYS140, 10 * DAYS140), suite("places and times", c30_case, 16_000, 500_000), suite("under the Sun", c30_subsolar, 6_000, 200_000)],
        need: &["day", "night", "southern hemisphere", "west", "pole", "drift era", "shifted", "near zenith or nadir", "inside a leap second"],
        assumptions: &["UT1-UTC and polar motion are the fixed values the library states (good for 2007)", "TDB is taken as TT, as the library does"],
    }
}

// ---------------------------------------------------------------- C31
pub fn bits(q: &SunAngleResult) -> Vec<u64> {
    let mut v = vec![q.jd0, q.jd1, q.delta_s, q.dat, q.era, q.sza];
    v.extend(q.p);
    v.extend(q.earth);
    v.extend(q.sun_e);
    let (a, b) = q.utc.0;
    v.extend([a, b]);
    let (a, b) = q.tai.0;
    v.extend([a, b]);
    let (a, b) = q.tt.0;
    v.extend([a, b]);
    let (a, b) = q.ut1.0;
    v.extend([a, b]);
    v.iter().map(|x| x.to_bits()).collect()
}
fn instant(p: (f64, f64)) -> Dd {
    two_sum(p.0, -DJ00) + p.1
}
fn c31_fields(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let mut p = if r.chance(0.8) { params(&mut r, 1960, 2099) } else { params(&mut r, 1600, 2400) };
    on_day(c, &mut p);
    let s = shift(&mut r);
    keyp(c, &p, s);
    let q = SunAngleCalculator::new(&p).compute(s);
    let t = truth(&p, s);
    let ds = || format!("{p:?} shift {s:?}");
    c.desc(|| format!("{p:?} shift {s:?}: {q:?}"));
    c.class_if(p.date.year < 1960, "before 1960");
    c.class_if(s != 0.0, "shifted");
    c.class_if(p.time.second >= 60.0, "inside a leap second");
    c.check("shift reported", q.delta_s.to_bits() == s.to_bits(), || format!("{s:?} -> {:?}", q.delta_s))?;
    let res = 3.0 * (ulp(t.day as f64) + ulp(t.day as f64 + s / 86400.0)) + 4.0 * ulp(s / 86400.0);
    with(c.close("Julian date parts (days)", (instant((q.jd0, q.jd1)) - t.utc).f(), 0.0, res), ds)?;
    with(c.close("UTC (days)", (instant(q.utc.0) - t.utc).f(), 0.0, res), ds)?;
    with(c.close("TAI-UTC (s)", q.dat, t.dat, 1e-9), ds)?;
    with(c.close("TAI (days)", (instant(q.tai.0) - instant(q.utc.0) - dd(q.dat) / 86400.0).f(), 0.0, res), ds)?;
    with(c.close("TT (days)", (instant(q.tt.0) - instant(q.tai.0) - dd(32.184) / 86400.0).f(), 0.0, res), ds)?;
    with(c.close("UT1 (days)", (instant(q.ut1.0) - instant(q.utc.0) - dd(DUT1) / 86400.0).f(), 0.0, res), ds)?;
    let ud = Date2 { d1: q.ut1.0 .0, d2: q.ut1.0 .1, kind: "" };
    let de = (dd(q.era) - astro::era(ud.days())).rem_near(crate::dd::PI2).f();
    with(c.close("rotation angle (rad)", de, 0.0, super::frames::era_tol(&ud)), ds)?;
    let site = geo::forward(6378137.0, 1.0 / 298.257223563, t.elong, t.phi, p.position.height);
    with(c.close("site position (m)", geo::dist(site, q.p), 0.0, 1e-8 + 1e-15 * p.position.lon.abs() * 6.4e6), ds)?;
    let td = Date2 { d1: q.tt.0 .0, d2: q.tt.0 .1, kind: "" };
    let v = epv::earth(td.days());
    let g = (td.days().f().abs() / 36525.0).max(1.0);
    let w = (0..3).map(|k| (v.ph[k] - q.earth[k]).abs()).fold(0.0, f64::max);
    with(c.close("Earth position (AU)", w, 0.0, 1e-12 * g + 0.02 * td.res()), ds)?;
    let m = astro::c2t(td.centuries(), ud.days(), XP, YP);
    let sun = astro::mv(&m, &[-q.earth[0] * AUM, -q.earth[1] * AUM, -q.earth[2] * AUM]);
    with(c.close("Sun position (relative)", geo::dist(sun, q.sun_e) / AUM, 0.0, 2e-11 * g), ds)?;
    let z = angle(geo::normal(t.elong, t.phi), q.sun_e);
    with(c.close("zenith angle (rad)", q.sza, z, 1e-12 + 1e-15 * p.position.lon.abs() + acos_slack(z)), ds)
}
/// A pool of calculators, called in a random interleaved order with repetitions
fn c31_history(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let ps: Vec<SunAngleParameters> = (0..3).map(|_| params(&mut r, 1961, 2099)).collect();
    let calcs: Vec<SunAngleCalculator> = ps.iter().map(SunAngleCalculator::new).collect();
    let shifts: Vec<f64> = (0..3).map(|_| shift(&mut r)).collect();
    keyp(c, &ps[0], shifts[0]);
    let mut first: Vec<Option<Vec<u64>>> = vec![None; 9];
    let mut repeats = 0;
    for _ in 0..24 {
        let (i, j) = (r.below(3) as usize, r.below(3) as usize);
        let b = bits(&calcs[i].compute(shifts[j]));
        c.event();
        match &first[i * 3 + j] {
            None => first[i * 3 + j] = Some(b),
            Some(f) => {
                repeats += 1;
                if *f != b {
                    return fail("repetition gives another result", format!("{:?} shift {:?}", ps[i], shifts[j]));
                }
            }
        }
        if r.chance(0.2) {
            // a new calculator for the same parameters, and a different one in between
            let other = params(&mut r, 1961, 2099);
            let _ = SunAngleCalculator::new(&other).compute(shift(&mut r));
            let b = bits(&SunAngleCalculator::new(&ps[i]).compute(shifts[j]));
            c.class("fresh calculator agrees");
            if first[i * 3 + j].as_ref().map(|f| *f != b).unwrap_or(false) {
                return fail("a fresh calculator gives another result", format!("{:?} shift {:?}", ps[i], shifts[j]));
            }
        }
    }
    c.class_if(repeats > 0, "repeated after other calls");
    c.desc(|| format!("3 calculators x 3 shifts, 24 calls, {repeats} repeats; first {:?}", ps[0]));
    Ok(())
}
/// Shifting equals building for the shifted time
fn c31_shift(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let p = params(&mut r, 1972, 2099);
    let t0 = p.time.hour as i64 * 3600 + p.time.minute as i64 * 60;
    // a shifted time in the same UTC day, so that TAI-UTC is the same
    let t1 = r.int(0, 86399);
    let s1 = (t1 % 60) as f64 + if r.bool() { r.f() * 0.999 } else { 0.0 };
    let mut p1 = p.clone();
    p1.time = HMS { hour: (t1 / 3600) as u8, minute: (t1 / 60 % 60) as u8, second: s1 };
    let delta = (t1 / 60 * 60 - t0) as f64 + (s1 - p.time.second);
    keyp(c, &p, delta);
    let a = SunAngleCalculator::new(&p).compute(delta);
    let b = SunAngleCalculator::new(&p1).compute(0.0);
    c.desc(|| format!("{p:?} shifted by {delta:?} s against {:?}", p1.time));
    c.class("shift against rebuilt");
    let ds = || format!("{p:?} shifted by {delta:?} s against {:?}", p1.time);
    let res = 4.0 * ulp(6e4) + 1e-15;
    with(c.close("UTC of the shifted time (days)", (instant(a.utc.0) - instant(b.utc.0)).f(), 0.0, res), ds)?;
    with(c.close("TT of the shifted time (days)", (instant(a.tt.0) - instant(b.tt.0)).f(), 0.0, res), ds)?;
    with(c.close("UT1 of the shifted time (days)", (instant(a.ut1.0) - instant(b.ut1.0)).f(), 0.0, res), ds)?;
    with(c.close("zenith angle of the shifted time (rad)", a.sza, b.sza, 1e-9 + 2.0 * acos_slack(a.sza)), ds)?;
    // two shifts in a row on one calculator are not cumulative
    let calc = SunAngleCalculator::new(&p);
    let _ = calc.compute(delta * 0.5);
    let q = calc.compute(delta);
    c.check("shifts do not accumulate", bits(&q) == bits(&a), || format!("{p:?} {delta:?}"))?;
    // default parameters
    if c.idx % 64 == 0 {
        let d = SunAngleParameters::default();
        let ok = (d.date.year, d.date.month, d.date.day, d.time.hour, d.time.minute) == (2007, 4, 5, 0, 0)
            && d.time.second == 0.0
            && (d.position.lat, d.position.lon, d.position.height) == (0.0, -120.0, 0.0);
        c.check("default parameters", ok, || format!("{d:?}"))?;
    }
    Ok(())
}
pub fn c31() -> Prop {
    Prop {
        id: "C31",
        rule: "each case is one place, time and shift, or one call history of 24 calls over 3 calculators; distinct by bits",
        suites: vec![
            each("every day 1960-2099", c31_day, DAYS140, 10 * DAYS140),
            suite("fields", c31_fields, 10_000, 400_000),
            suite("histories", c31_history, 1_500, 40_000),
            suite("shifts", c31_shift, 8_000, 200_000),
        ],
        need: &["before 1960", "shifted", "inside a leap second", "fresh calculator agrees", "repeated after other calls", "shift against rebuilt"],
        assumptions: &["UT1-UTC and polar motion are the fixed values the library states"],
    }
}

// ---------------------------------------------------------------- C36
fn numbers(s: &str) -> Vec<(String, f64)> {
    let mut v = vec![];
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let st = i;
        if (b[i] == '+' || b[i] == '-') && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
            i += 1;
        }
        if b[i].is_ascii_digit() {
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == '.') {
                i += 1;
            }
            let t: String = b[st..i].iter().collect();
            if let Ok(x) = t.trim_end_matches('.').parse() {
                v.push((t, x));
            }
        } else {
            i = st + 1;
        }
    }
    v
}
fn decimals(t: &str) -> i32 {
    t.split_once('.').map(|(_, f)| f.len() as i32).unwrap_or(0)
}
fn shows(c: &mut Ctx, label: &str, t: &(String, f64), x: f64, k: i32) -> R {
    c.event();
    let half = 0.5 * 10f64.powi(-k);
    if decimals(&t.0) != k || (t.1 - x).abs() > half * (1.0 + 1e-9) + 2.0 * ulp(x) {
        return fail("value under its label", format!("{label}: '{}' for {x:?} ({k} decimals)", t.0));
    }
    Ok(())
}
/// Check the text of one report against the result it came from
pub fn check_report(c: &mut Ctx, text: &str, p: &SunAngleParameters, q: &SunAngleResult) -> R {
    let mut lines = std::collections::BTreeMap::new();
    let mut last = String::new();
    let all: Vec<&str> = text.lines().collect();
    for l in &all {
        if l.starts_with(' ') {
            lines.insert(format!("{last}#2"), l.trim().to_string());
        } else if let Some((a, b)) = l.split_once(':') {
            if lines.contains_key(a) {
                return fail("label printed twice", format!("'{a}' in {text}"));
            }
            lines.insert(a.to_string(), b.trim().to_string());
            last = a.to_string();
        } else {
            return fail("line without a label", format!("'{l}'"));
        }
    }
    let labels = [
        "Date", "Time", "Julian date", "Position", "Position#2", "UTC", "Delta AT", "TAI", "TT", "UT1", "ERA", "Earth position (AU)",
        "Sun position (m)", "Sun Zenith angle",
    ];
    c.check("labels", lines.len() == labels.len() && labels.iter().all(|l| lines.contains_key(*l)), || format!("{:?}", lines.keys()))?;
    let want = |l: &str| lines.get(l).cloned().unwrap_or_default();
    c.check("date line", want("Date") == format!("{}", p.date), || want("Date"))?;
    let time = want("Time");
    let Some((hms, sh)) = time.split_once(' ') else {
        return fail("time line", time);
    };
    c.check("time of day", hms == format!("{}", p.time), || time.clone())?;
    c.check("shift has its sign and unit", sh.ends_with('s') && (sh.contains('+') || sh.contains('-')), || time.clone())?;
    let num = |c: &mut Ctx, label: &str, text: &str, xs: &[(f64, i32)]| -> R {
        let v = numbers(text);
        if v.len() != xs.len() {
            return fail("numbers on the line", format!("{label}: '{text}' has {} numbers, expected {}", v.len(), xs.len()));
        }
        for (t, (x, k)) in v.iter().zip(xs) {
            shows(c, label, t, *x, *k)?;
        }
        Ok(())
    };
    num(c, "shift", sh, &[(q.delta_s, 6)])?;
    num(c, "Julian date", &want("Julian date"), &[(q.jd0 + q.jd1, 6), (q.jd0, 6), (q.jd1, 6)])?;
    num(c, "Position", &want("Position"), &[(p.position.lat, 6), (p.position.lon, 6), (p.position.height, 2)])?;
    let xyz = |l: &str| -> Result<(), Fail> {
        let s = want(l);
        let (x, y, z) = (s.find("X="), s.find("Y="), s.find("Z="));
        if x.is_some() && x < y && y < z {
            Ok(())
        } else {
            fail("vector axes", format!("{l}: '{s}'"))
        }
    };
    xyz("Position#2")?;
    xyz("Earth position (AU)")?;
    xyz("Sun position (m)")?;
    num(c, "site", &want("Position#2"), &[(q.p[0], 1), (q.p[1], 1), (q.p[2], 1)])?;
    num(c, "UTC", &want("UTC"), &[(q.utc.0 .0 + q.utc.0 .1, 6)])?;
    num(c, "Delta AT", &want("Delta AT"), &[(q.dat, 6)])?;
    num(c, "TAI", &want("TAI"), &[(q.tai.0 .0 + q.tai.0 .1, 6)])?;
    num(c, "TT", &want("TT"), &[(q.tt.0 .0 + q.tt.0 .1, 6)])?;
    num(c, "UT1", &want("UT1"), &[(q.ut1.0 .0 + q.ut1.0 .1, 6)])?;
    num(c, "ERA", &want("ERA"), &[(q.era.to_degrees(), 6)])?;
    num(c, "Earth position", &want("Earth position (AU)"), &[(q.earth[0], 13), (q.earth[1], 13), (q.earth[2], 13)])?;
    num(c, "Sun position", &want("Sun position (m)"), &[(q.sun_e[0], 0), (q.sun_e[1], 0), (q.sun_e[2], 0)])?;
    let z = q.sza.to_degrees();
    let l = want("Sun Zenith angle");
    num(c, "zenith angle and elevation", &l, &[(z, 2), (90.0 - z, 2)])?;
    let v = numbers(&l);
    c.check("elevation complements the zenith angle", (v[0].1 + v[1].1 - 90.0).abs() < 0.0101, || l.clone())?;
    c.check("degree signs", l.matches('°').count() == 2 && want("ERA").ends_with('°'), || text.to_string())
}
fn c36_case(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let y0 = if r.bool() { 1950 } else { 1600 };
    let p = params(&mut r, y0, 2399);
    let s = shift(&mut r);
    keyp(c, &p, s);
    let q = SunAngleCalculator::new(&p).compute(s);
    let t = format!("{}", SunAngleResultBundle { parameters: &p, result: &q });
    c.desc(|| t.clone());
    c.class(if q.sza > PI / 2.0 { "Sun below the horizon" } else { "Sun above the horizon" });
    c.class_if(s < 0.0, "negative shift");
    check_report(c, &t, &p, &q)
}
/// Any field values, so that no two lines can be confused
fn c36_synthetic(c: &mut Ctx) -> R {
    use tofas::time::{TAI, TT, UT1, UTC};
    let mut r = c.rng.clone();
    let p = params(&mut r, 1600, 2399);
    let d = |r: &mut Rng| (2400000.5, r.range(-1e5, 1e5));
    let q = SunAngleResult {
        jd0: 2400000.5 + r.int(-1000, 1000) as f64,
        jd1: r.range(-1e5, 1e5),
        delta_s: r.sign() * r.logu(1e-3, 1e8),
        p: [r.range(-7e6, 7e6), r.range(-7e6, 7e6), r.range(-7e6, 7e6)],
        utc: UTC(d(&mut r)),
        dat: r.range(0.0, 40.0),
        tai: TAI(d(&mut r)),
        tt: TT(d(&mut r)),
        ut1: UT1(d(&mut r)),
        era: r.range(0.0, 6.28),
        earth: [r.range(-1.1, 1.1), r.range(-1.1, 1.1), r.range(-1.1, 1.1)],
        sun_e: [r.range(-1.6e11, 1.6e11), r.range(-1.6e11, 1.6e11), r.range(-1.6e11, 1.6e11)],
        sza: r.range(0.0, PI),
    };
    c.keyf(&[q.jd1, q.sza]);
    let t = format!("{}", SunAngleResultBundle { parameters: &p, result: &q });
    c.desc(|| t.clone());
    c.class("independent field values");
    check_report(c, &t, &p, &q)
}
pub fn c36() -> Prop {
    Prop {
        id: "C36",
        rule: "each case is one printed report; distinct by its inputs",
        suites: vec![suite("computed results", c36_case, 12_000, 300_000), suite("synthetic results", c36_synthetic, 60_000, 2_000_000)],
        need: &["Sun below the horizon", "Sun above the horizon", "negative shift", "independent field values"],
        assumptions: &[],
    }
}
