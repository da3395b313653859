//! C01-C06 calendar, C32 text.
use crate::dd::{dd, two_sum, Dd};
use crate::fw::*;
use crate::refm::cal;
use crate::rng::{ulp, ulps, Rng};
use tofas::calendar::{CalendarError, GregorianDate, GregorianDateHMS, HMS};
use tofas::ellipsoid::{Geodetic, Geodetic360};

const YMIN: i64 = -4799;
const Z: f64 = 2400000.5;
// as published, not as the library has them
const DJ_MIN: f64 = -32000.0;
const DJ_MAX: f64 = 1e9;

// ---------------------------------------------------------------- C01
fn day_case(c: &mut Ctx, y: i64, m: i64, d: i64, n: i64) -> R {
    let g = match GregorianDate::new(y as i32, m as i32, d as i32) {
        Ok(g) => g,
        Err(e) => return fail("valid-date-rejected", format!("new({y},{m},{d}) rejected: {e}")),
    };
    let (a, b) = g.to_julian();
    c.desc(|| format!("{y}-{m}-{d} -> ({a:?}, {b:?})"));
    c.check("first part is the MJD zero point", a == Z, || format!("{y}-{m}-{d} gave {a:?}"))?;
    c.check("second part is the day number", b == n as f64, || format!("{y}-{m}-{d} gave {b:?}, expected {n}"))
}
/// Every day of one year, counted on from the day before
fn c01_year(c: &mut Ctx) -> R {
    let y = YMIN + c.idx as i64;
    c.key(c.idx);
    c.class_if(y < 0, "negative year");
    c.class_if(y % 100 == 0 && y % 400 != 0, "common century year");
    c.class_if(y % 400 == 0, "leap century year");
    c.class_if(cal::leap(y), "leap year");
    let mut n = cal::mjd(y, 1, 1);
    for m in 1..=12 {
        for d in 1..=cal::month_len(y, m) {
            day_case(c, y, m, d, n)?;
            n += 1;
        }
    }
    c.check("next year starts the next day", n == cal::mjd(y + 1, 1, 1), || format!("year {y}"))?;
    Ok(())
}
fn far_year(r: &mut Rng) -> i64 {
    let top = i32::MAX as i64;
    match r.below(8) {
        0 => top - r.int(0, 400),
        1 => 400 * r.int(15, top / 400) + r.int(-1, 1),
        2 => 100 * r.int(60, top / 100) + r.int(-1, 1),
        3 => r.logu(6000.0, top as f64) as i64,
        4 => (1i64 << r.int(13, 30)) + r.int(-2, 2),
        5 => r.int(1_300_000, 1_600_000),
        6 => 2147483647 / 1461 + r.int(-5000, 5000),
        _ => r.int(6000, top),
    }
}
fn c01_far(c: &mut Ctx) -> R {
    let y = far_year(&mut c.rng).min(i32::MAX as i64);
    let m = c.rng.int(1, 12);
    let l = cal::month_len(y, m);
    let d = *c.rng.pick(&[1, 2, 15, l - 1, l]);
    c.key((y * 1000 + m * 40 + d) as u64);
    c.class("far future year");
    c.class_if(y > 1_470_000, "beyond 32-bit day arithmetic");
    day_case(c, y, m, d, cal::mjd(y, m, d))
}
pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "each case is one calendar year (every day of it converted and counted) or one far-future date; distinct by year or date",
        suites: vec![exhaustive("every day of years -4799..", c01_year, 10800, 30000), suite("far years", c01_far, 200_000, 8_000_000)],
        need: &["negative year", "common century year", "leap century year", "far future year", "beyond 32-bit day arithmetic"],
        assumptions: &["days between year 6001 (quick) or 25200 (thorough) and the 32-bit limit are sampled, not enumerated"],
    }
}

// ---------------------------------------------------------------- C02
fn new_case(c: &mut Ctx, y: i64, m: i64, d: i64) -> R {
    let ok = y >= YMIN && cal::valid(y, m, d);
    let r = GregorianDate::new(y as i32, m as i32, d as i32);
    c.event();
    match r {
        Ok(g) => {
            if !ok {
                return fail("invalid date accepted", format!("new({y},{m},{d}) accepted"));
            }
            if (g.year as i64, g.month as i64, g.day as i64) != (y, m, d) {
                return fail("fields changed", format!("new({y},{m},{d}) gave {g:?}"));
            }
        }
        Err(e) => {
            if ok {
                return fail("valid date rejected", format!("new({y},{m},{d}): {e}"));
            }
            let right = match e {
                CalendarError::BadYear => y < YMIN,
                CalendarError::BadMonth => !(1..=12).contains(&m),
                // the day is wrong for the month, or cannot be right in any month
                CalendarError::BadDay => d < 1 || d > 31 || ((1..=12).contains(&m) && d > cal::month_len(y, m)),
                _ => false,
            };
            if !right {
                return fail("error names a right field", format!("new({y},{m},{d}): {e}"));
            }
        }
    }
    Ok(())
}
fn c02_grid(c: &mut Ctx) -> R {
    let y = -4900 + c.idx as i64;
    c.key(c.idx);
    c.class_if(y < YMIN, "year below minimum");
    c.class_if(y >= YMIN && cal::leap(y), "leap year");
    c.class_if(y >= YMIN && !cal::leap(y), "common year");
    c.desc(|| format!("year {y}: months -1..14, days -1..33"));
    for m in -1..=14 {
        for d in -1..=33 {
            new_case(c, y, m, d)?;
        }
    }
    Ok(())
}
fn c02_wild(c: &mut Ctx) -> R {
    let ext = [i32::MIN as i64, i32::MIN as i64 + 1, -1, 0, 1, 255, 256, 257, 65536, i32::MAX as i64, i32::MAX as i64 - 1, 4294967];
    let r = &mut c.rng;
    let y = match r.below(4) {
        0 => *r.pick(&ext),
        1 => r.int(-4810, -4790),
        2 => far_year(r).min(i32::MAX as i64),
        _ => r.int(i32::MIN as i64, i32::MAX as i64),
    };
    let m = match r.below(3) {
        0 => *r.pick(&ext),
        1 => r.int(i32::MIN as i64, i32::MAX as i64),
        _ => r.int(1, 12),
    };
    let d = match r.below(4) {
        0 => *r.pick(&ext),
        1 => r.int(i32::MIN as i64, i32::MAX as i64),
        2 => r.int(28, 32),
        _ => r.int(1, 31),
    };
    c.key(crate::rng::mix(y as u64, crate::rng::mix(m as u64, d as u64)));
    c.class("extreme fields");
    c.desc(|| format!("new({y},{m},{d})"));
    new_case(c, y, m, d)
}
pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "each case is one year with all months -1..14 and days -1..33, or one extreme triple; distinct by year or triple",
        suites: vec![exhaustive("grid of years -4900..", c02_grid, 9000, 60000), suite("extreme fields", c02_wild, 2_000_000, 40_000_000)],
        need: &["year below minimum", "leap year", "common year", "extreme fields"],
        assumptions: &["when several fields are wrong, an error naming any one of them is accepted"],
    }
}

// ---------------------------------------------------------------- C03
/// Two parts summing (nearly) to jd, exercising every split shape
pub fn split_any(r: &mut Rng, jd: f64) -> (f64, f64) {
    match r.below(14) {
        0 => (jd, 0.0),
        1 => (0.0, jd),
        2 => (2451545.0, jd - 2451545.0),
        3 => (jd - 2451545.0, 2451545.0),
        4 => (2400000.5, jd - 2400000.5),
        5 => (jd - 2400000.5, 2400000.5),
        6 => {
            let a = (jd - 0.5).floor() + 0.5;
            (a, r.f())
        }
        7 => {
            let a = (jd - 0.5).floor() + 0.5;
            (r.f(), a)
        }
        8 => (jd.round(), r.range(-0.5, 0.5)),
        9 => (jd / 2.0, jd / 2.0),
        10 => {
            let u = r.range(-1e9, 1e9);
            (u, jd - u)
        }
        11 => {
            let u = r.range(-3.0, 3.0);
            (jd - u, u)
        }
        12 => {
            let u = r.sign() * r.logu(1e-20, 1e-3);
            (jd, u)
        }
        _ => {
            let u = r.sign() * r.logu(1.0, 1e9);
            (u, jd - u)
        }
    }
}
fn jd_any(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => r.range(-32000.0, 1e9),
        1 => (r.int(-32000, 1_000_000_000) as f64 + *r.pick(&[0.5, 0.5, 0.0, 0.25, 0.75])).min(DJ_MAX),
        2 => {
            // around a midnight
            let n = r.int(-32000, 5_000_000) as f64 + 0.5;
            r.jitter(n, 3)
        }
        3 => r.int(-32000, 5_000_000) as f64,
        4 => r.range(2415020.0, 2488070.0),
        5 => {
            // around a month start
            let y = r.int(-4799, 12000);
            let m = r.int(1, 12);
            let n = cal::mjd(y, m, 1) as f64 + Z;
            n + r.int(-2, 2) as f64 + *r.pick(&[0.0, 0.0, 1e-9, -1e-9, 0.25, 0.5])
        }
        6 => {
            // end of February / of the year
            let y = *r.pick(&[4i64, 100, 400, 1]) * r.int(-40, 30);
            let n = cal::mjd(y, *r.pick(&[3, 1]), 1) as f64 + Z;
            n + r.range(-1.5, 1.5)
        }
        7 => r.sign().min(0.0) * r.logu(1e-12, 32000.0) + if r.bool() { 0.0 } else { 0.5 },
        8 => r.logu(1.0, 1e9),
        _ => {
            let y = far_year(r);
            let y = y % 2_700_000;
            (cal::mjd(y, r.int(1, 12), 1) as f64 + Z + r.range(-1.0, 1.0)).min(1e9)
        }
    }
}
pub fn tol_parts(d1: f64, d2: f64) -> f64 {
    let num = d1.min(d2);
    let mag = if d1.abs() < d2.abs() { d1 } else { d2 };
    1e-15 + 2.0 * ulp(num).max(ulp(mag))
}
fn jd_case(c: &mut Ctx, d1: f64, d2: f64) -> R {
    let ex = two_sum(d1, d2);
    let out = GregorianDate::from_julian(d1, d2);
    c.desc(|| format!("from_julian({d1:?},{d2:?}) = {out:?}"));
    // whole parts add up exactly and leave no doubt
    let doubt = d1.fract() != 0.0 || d2.fract() != 0.0;
    let edge = doubt && ((ex.f() - DJ_MIN).abs() <= 2.0 * ulp(DJ_MIN).max(ulp(d1)) || (ex.f() - DJ_MAX).abs() <= 2.0 * ulp(DJ_MAX).max(ulp(d1)));
    let inside = ex.f() >= DJ_MIN && ex.f() <= DJ_MAX;
    c.event();
    match out {
        Err(e) => {
            if inside && !edge {
                return fail("in-range Julian date rejected", format!("({d1:?},{d2:?}): {e}"));
            }
            c.check("error kind", matches!(e, CalendarError::BadJulian), || format!("({d1:?},{d2:?}): {e}"))?;
            c.class("rejected");
            Ok(())
        }
        Ok((g, f)) => {
            if !(inside || edge) {
                return fail("out-of-range Julian date accepted", format!("({d1:?},{d2:?}) -> {g:?} {f:?}"));
            }
            let (y, m, d) = (g.year as i64, g.month as i64, g.day as i64);
            c.check("month and day are real", cal::valid(y, m, d), || format!("({d1:?},{d2:?}) -> {g:?}"))?;
            c.check("fraction in [0,1)", f >= 0.0 && f < 1.0, || format!("({d1:?},{d2:?}) -> {g:?} {f:?}"))?;
            let got: Dd = dd(cal::mjd(y, m, d) as f64) + Z + f;
            let e = (got - ex).f();
            c.class_if(ex.f() < 0.0, "negative Julian date");
            c.class_if(d1 < d2, "smaller part first");
            c.class_if(d1 < 0.0 || d2 < 0.0, "negative part");
            c.class_if(f == 0.0, "exact midnight");
            c.class_if(f > 0.999999999, "just before midnight");
            c.class_if(ex.f() > 5.4e8, "beyond 32-bit day arithmetic");
            c.close("instant (days)", e, 0.0, tol_parts(d1, d2)).map_err(|mut x| {
                x.msg.push_str(&format!(" from_julian({d1:?},{d2:?}) -> {g:?} {f:?}"));
                x
            })
        }
    }
}
fn c03_any(c: &mut Ctx) -> R {
    let jd = jd_any(&mut c.rng);
    let (d1, d2) = split_any(&mut c.rng, jd);
    c.keyf(&[d1, d2]);
    jd_case(c, d1, d2)
}
/// Every day of the range in whole-day steps, at midnight and noon
fn c03_days(c: &mut Ctx) -> R {
    c.key(c.idx);
    let base = -32000 + 100 * c.idx as i64;
    for k in 0..100 {
        let n = (base + k) as f64;
        if n >= DJ_MAX {
            break;
        }
        match k % 3 {
            0 => jd_case(c, n + 0.5, 0.0)?,
            1 => jd_case(c, Z, n - 2400000.0)?,
            _ => jd_case(c, n, 0.5)?,
        }
        jd_case(c, n, c.idx as f64 / 65536.0 % 1.0)?;
    }
    Ok(())
}
fn c03_reject(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let (d1, d2) = match r.below(8) {
        0 => (r.wild(), r.wild()),
        1 => (f64::NAN, r.wild()),
        2 => (r.wild(), f64::NAN),
        3 => (f64::INFINITY, f64::NEG_INFINITY),
        4 => (DJ_MAX + r.logu(1e-3, 1e12), r.range(0.0, 1.0)),
        5 => (DJ_MIN - r.logu(1e-3, 1e12), r.range(-1.0, 0.0)),
        6 => {
            let u = r.sign() * r.logu(1.0, 1e15);
            (u, -u + r.range(-33000.0, -31000.0))
        }
        _ => {
            let b = *r.pick(&[DJ_MIN, DJ_MAX]);
            let o = match r.below(3) {
                0 => r.int(-3, 3) as f64,
                _ => r.sign() * r.logu(1e-9, 1e3),
            };
            match r.below(3) {
                0 => (o, b),
                1 => (b / 2.0, b / 2.0 + o),
                _ => (b, o),
            }
        }
    };
    c.keyf(&[d1, d2]);
    c.class_if(d1 + d2 == DJ_MIN || d1 + d2 == DJ_MAX, "exactly on the edge");
    if d1.is_nan() || d2.is_nan() || !(d1 + d2).is_finite() {
        c.class("NaN or infinite");
        let o = GregorianDate::from_julian(d1, d2);
        return c.check("NaN and infinity are rejected", matches!(o, Err(CalendarError::BadJulian)), || {
            format!("({d1:?},{d2:?}) -> {o:?}")
        });
    }
    if d1.abs().max(d2.abs()) > 1e18 {
        // cancelling huge parts cannot be resolved: only the verdict is checked
        let s = d1 + d2;
        let o = GregorianDate::from_julian(d1, d2);
        let inside = s >= DJ_MIN && s <= DJ_MAX;
        return c.check("range verdict", inside == o.is_ok(), || format!("({d1:?},{d2:?}) -> {o:?}"));
    }
    jd_case(c, d1, d2)
}
pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "each case is one two-part Julian date, or 100 consecutive days; distinct by the bits of both parts",
        suites: vec![
            exhaustive("every day from -32000 in three splits", c03_days, 60_000, 1_000_000),
            suite("splits", c03_any, 4_000_000, 100_000_000),
            suite("range and non-numbers", c03_reject, 1_000_000, 20_000_000),
        ],
        need: &[
            "exactly on the edge",
            "negative Julian date",
            "smaller part first",
            "negative part",
            "exact midnight",
            "just before midnight",
            "beyond 32-bit day arithmetic",
            "rejected",
            "NaN or infinite",
        ],
        assumptions: &["sums within rounding of the range limits may go either way"],
    }
}

// ---------------------------------------------------------------- C04
fn midnight_split(r: &mut Rng, n: i64) -> (f64, f64) {
    let m = n as f64;
    match r.below(9) {
        0 => (Z, m),
        1 => (m, Z),
        2 => (m + Z, 0.0),
        3 => (0.0, m + Z),
        4 => (2451545.0, m - 51544.5),
        5 => (m - 51544.5, 2451545.0),
        6 => {
            let u = r.int(-100000, 100000) as f64 * 0.25;
            (m + Z - u, u)
        }
        7 => ((m + Z) / 2.0, (m + Z) / 2.0),
        _ => (m + Z + 0.5, -0.5),
    }
}
fn c04_back(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let y = match r.below(4) {
        0 => r.int(YMIN, 6000),
        1 => r.int(1800, 2200),
        2 => r.int(6000, 2_700_000),
        _ => 100 * r.int(-47, 200),
    };
    let m = r.int(1, 12);
    let d = if r.chance(0.4) { cal::month_len(y, m) } else { r.int(1, cal::month_len(y, m)) };
    c.key((y * 1000 + m * 40 + d) as u64);
    let g = match GregorianDate::new(y as i32, m as i32, d as i32) {
        Ok(g) => g,
        Err(e) => return fail("valid-date-rejected", format!("{y}-{m}-{d}: {e}")),
    };
    let (a, b) = g.to_julian();
    let n = cal::mjd(y, m, d);
    if n as f64 + Z > DJ_MAX - 1.0 {
        c.trivial();
        return Ok(());
    }
    c.class_if(y > 6000, "far future year");
    c.class_if(y < 0, "negative year");
    let s = [(a, b), midnight_split(&mut c.rng, n), midnight_split(&mut c.rng, n)];
    for (a, b) in s {
        let o = GregorianDate::from_julian(a, b);
        c.desc(|| format!("{y}-{m}-{d} as ({a:?},{b:?}) -> {o:?}"));
        c.check("midnight comes back as the same date, fraction zero", matches!(&o, Ok((q,f)) if *q==g && *f==0.0), || {
            format!("{y}-{m}-{d} as ({a:?},{b:?}) -> {o:?}")
        })?;
    }
    // and the other way: a whole-day Julian date survives the trip through the calendar
    let o = GregorianDate::from_julian(a, b + 0.0);
    if let Ok((q, _)) = o {
        let (p1, p2) = q.to_julian();
        c.check("same Julian date after a round trip", p1 + p2 == a + b, || format!("{y}-{m}-{d}: {p1:?}+{p2:?}"))?;
    }
    Ok(())
}
/// Day-by-day and ulp-by-ulp increasing instants, one split shape per sequence
fn c04_order(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let n = r.int(-2_400_000 - 31_000, 4_000_000);
    let kind = r.below(6);
    let step: f64 = match r.below(6) {
        0 => 0.0, // ulps
        1 => 1e-9,
        2 => 1.0 / 86400.0,
        3 => 0.1,
        4 => 1.0,
        _ => 30.4,
    };
    let start = match r.below(3) {
        0 => 0.0,
        1 => r.range(-1.0, 1.0),
        _ => -8.0 * step,
    };
    c.class(match kind {
        0 => "whole JD sequence",
        1 => "MJD sequence",
        2 => "date+fraction sequence",
        3 => "fraction first sequence",
        4 => "J2000 sequence",
        _ => "negative fraction sequence",
    });
    c.class_if(step == 0.0, "adjacent doubles across midnight");
    let m = n as f64;
    let mut last: Option<((i32, i32, i32, f64), (f64, f64))> = None;
    c.keyf(&[m, step, start, kind as f64]);
    for k in 0..40 {
        let x = start + step * k as f64;
        let parts = match kind {
            0 => (m + Z + x, 0.0),
            1 => (Z, m + x),
            2 => (m + Z, x),
            3 => (x, m + Z),
            4 => (2451545.0, m - 51544.5 + x),
            _ => (m + Z + 1.0, x - 1.0),
        };
        let parts = if step == 0.0 {
            // the moving part, one double at a time, crossing the midnight
            match kind {
                0 => (ulps(m + Z, k - 20), 0.0),
                1 => (Z, ulps(m, k - 20)),
                2 => (m + Z, ulps(0.0, k - 20)),
                3 => (ulps(1.0, k - 20), m + Z),
                4 => (2451545.0, ulps(m - 51544.5, k - 20)),
                _ => (m + Z + 1.0, ulps(-1.0, k - 20)),
            }
        } else {
            parts
        };
        let o = match GregorianDate::from_julian(parts.0, parts.1) {
            Ok((g, f)) => (g.year, g.month, g.day, f),
            Err(_) => {
                if (parts.0 + parts.1) < DJ_MIN || (parts.0 + parts.1) > DJ_MAX {
                    continue;
                }
                return fail("in-range Julian date rejected", format!("{parts:?}"));
            }
        };
        if let Some((p, pp)) = last {
            c.check("calendar never goes backwards", o >= p, || format!("{pp:?} -> {p:?}, then {parts:?} -> {o:?}"))?;
        }
        if k < 2 {
            c.desc(|| format!("{parts:?} -> {o:?}"));
        }
        last = Some((o, parts));
    }
    Ok(())
}
/// Instants in random splits, compared whenever they differ by more than the parts resolve
fn c04_mixed(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let base = jd_any(&mut r);
    let mut v: Vec<(Dd, f64, (i32, i32, i32, f64), (f64, f64))> = vec![];
    for _ in 0..12 {
        let jd = base + r.sign() * r.logu(1e-12, 40.0);
        let (a, b) = split_any(&mut r, jd);
        let ex = two_sum(a, b);
        if ex.f() < DJ_MIN + 1.0 || ex.f() > DJ_MAX - 1.0 {
            continue;
        }
        match GregorianDate::from_julian(a, b) {
            Ok((g, f)) => v.push((ex, tol_parts(a, b), (g.year, g.month, g.day, f), (a, b))),
            Err(e) => return fail("in-range Julian date rejected", format!("({a:?},{b:?}): {e}")),
        }
    }
    c.keyf(&[base, v.len() as f64]);
    for i in 0..v.len() {
        for j in 0..v.len() {
            let d = (v[j].0 - v[i].0).f();
            if d > v[i].1 + v[j].1 {
                c.class("ordered pair of different splits");
                c.check("order kept between splits", v[j].2 >= v[i].2, || format!("{:?} -> {:?} but {:?} -> {:?}", v[i].3, v[i].2, v[j].3, v[j].2))?;
            }
        }
    }
    Ok(())
}
pub fn c04() -> Prop {
    Prop {
        id: "C04",
        rule: "each case is one date in several midnight splits, one increasing sequence of 40 instants, or 12 instants in mixed splits",
        suites: vec![
            suite("round trip", c04_back, 1_500_000, 40_000_000),
            suite("increasing sequences", c04_order, 300_000, 6_000_000),
            suite("mixed splits", c04_mixed, 300_000, 6_000_000),
        ],
        need: &["far future year", "negative year", "adjacent doubles across midnight", "ordered pair of different splits", "fraction first sequence"],
        assumptions: &["instants in different splits are ordered only when they differ by more than the parts resolve"],
    }
}

// ---------------------------------------------------------------- C05
fn frac_any(r: &mut Rng) -> f64 {
    match r.below(11) {
        0 => r.f(),
        9 => {
            // fractions of a second that a clock shows exactly
            let q = *r.pick(&[2u64, 4, 5, 8, 10, 100, 1000, 1_000_000]);
            r.below(86400 * q) as f64 / (86400 * q) as f64
        }
        10 => r.below(172_801) as f64 / 172_800.0,
        1 => r.below(86400) as f64 / 86400.0,
        2 => {
            let x = r.below(86401) as f64 / 86400.0;
            r.jitter(x, 3)
        }
        3 => r.below(24) as f64 / 24.0,
        4 => {
            let x = r.below(1440) as f64 / 1440.0;
            r.jitter(x, 2)
        }
        5 => 1.0 - r.logu(1e-17, 1.0),
        6 => r.logu(1e-320, 1.0),
        7 => {
            let x = *r.pick(&[0.0, 0.5, 1.0, 0.25, 0.75]);
            r.jitter(x, 4)
        }
        _ => r.below(1 << 30) as f64 / (1u64 << 30) as f64,
    }
}
fn frac_case(c: &mut Ctx, f: f64) -> R {
    let o = HMS::from_fraction_of_day(f);
    c.desc(|| format!("from_fraction_of_day({f:?}) = {o:?}"));
    c.event();
    if !(f >= 0.0 && f <= 1.0) {
        c.class("rejected fraction");
        return c.check("bad fraction is rejected", matches!(o, Err(CalendarError::BadFract)), || format!("{f:?} -> {o:?}"));
    }
    let h = match o {
        Ok(h) => h,
        Err(e) => return fail("good fraction rejected", format!("{f:?}: {e}")),
    };
    let worth = dd(h.second) + (h.minute as f64 * 60.0 + h.hour as f64 * 3600.0);
    if f < 1.0 {
        c.check("valid clock reading", h.hour <= 23 && h.minute <= 59 && h.second >= 0.0 && h.second < 60.0, || format!("{f:?} -> {h:?}"))?;
    } else {
        c.class("whole day");
    }
    let want = crate::dd::two_prod(f, 86400.0);
    c.close("time of day (s)", (worth - want).f(), 0.0, 1e-10)?;
    let back = h.to_fraction_of_day();
    c.close("round trip (day)", back, f, 2e-15)
}
fn c05_frac(c: &mut Ctx) -> R {
    let f = frac_any(&mut c.rng);
    c.keyf(&[f]);
    c.class_if(f > 0.9999999999, "last instants of the day");
    frac_case(c, f)
}
/// Every half second of the day, and its neighbours
fn c05_half(c: &mut Ctx) -> R {
    let (i, j) = (c.idx / 3, c.idx % 3);
    let x = i as f64 / 172_800.0;
    let f = match j {
        0 => x,
        1 => f64::from_bits(x.to_bits() + 1),
        _ => f64::from_bits(x.to_bits().saturating_sub(1)),
    };
    c.keyf(&[f]);
    c.class("half second of the day");
    frac_case(c, f)
}
fn c05_wild(c: &mut Ctx) -> R {
    let f = match c.rng.below(3) {
        0 => c.rng.wild(),
        1 => -c.rng.logu(1e-320, 1e3),
        _ => 1.0 + c.rng.logu(1e-16, 1e3),
    };
    c.keyf(&[f]);
    frac_case(c, f)
}
fn c05_clock(c: &mut Ctx) -> R {
    // every whole second of the day, with several sub-second parts
    let t = c.idx % 86400;
    let (h, m, s) = ((t / 3600) as u8, (t / 60 % 60) as u8, (t % 60) as f64);
    let sub = match (c.idx / 86400) % 6 {
        0 => 0.0,
        1 => c.rng.f(),
        2 => 1.0 - c.rng.logu(1e-14, 1.0),
        3 => 0.5,
        4 => c.rng.below(1000) as f64 / 1000.0,
        _ => c.rng.logu(1e-14, 1.0),
    };
    // a leap second reads 60 in the last minute of some hours
    let s = if s == 59.0 && c.rng.chance(0.2) { 60.0 } else { s } + sub;
    c.class_if(s >= 60.0, "leap second reading");
    c.keyf(&[h as f64, m as f64, s]);
    let hms = HMS::new(h, m, s);
    c.check("fields kept", hms.hour == h && hms.minute == m && hms.second == s, || format!("{hms:?}"))?;
    let f = hms.to_fraction_of_day();
    let want = (dd(s) + (h as f64 * 3600.0 + m as f64 * 60.0)) / 86400.0;
    c.desc(|| format!("{h}:{m}:{s:?} -> {f:?}"));
    c.close("fraction of day", (dd(f) - want).f(), 0.0, 1e-15)?;
    c.class("clock reading");
    if sub == 0.0 && s < 60.0 {
        // a whole second: reading it back is within the resolution of the fraction
        let o = HMS::from_fraction_of_day(f);
        match o {
            Ok(q) => {
                let w = q.second + q.minute as f64 * 60.0 + q.hour as f64 * 3600.0;
                c.close("whole second back (s)", w, t as f64, 1e-10)?;
            }
            Err(e) => return fail("good fraction rejected", format!("{f:?}: {e}")),
        }
    }
    Ok(())
}
pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "each case is one fraction of day or one clock reading; distinct by bits",
        suites: vec![
            exhaustive("every second of the day", c05_clock, 12 * 86400, 240 * 86400),
            each("every half second of the day", c05_half, 3 * 172_801, 3 * 172_801),
            suite("fractions", c05_frac, 4_000_000, 100_000_000),
            suite("bad fractions", c05_wild, 1_000_000, 10_000_000),
        ],
        need: &["whole day", "rejected fraction", "last instants of the day", "clock reading", "half second of the day", "leap second reading"],
        assumptions: &[],
    }
}

// ---------------------------------------------------------------- C06
fn c06_from(c: &mut Ctx) -> R {
    let jd = jd_any(&mut c.rng);
    let (d1, d2) = split_any(&mut c.rng, jd);
    c.keyf(&[d1, d2]);
    let o = GregorianDateHMS::from_julian(d1, d2);
    let g = GregorianDate::from_julian(d1, d2);
    c.desc(|| format!("({d1:?},{d2:?}) -> {o:?}"));
    c.event();
    match (o, g) {
        (Err(e), Err(_)) => {
            c.class("rejected");
            c.check("error kind", matches!(e, CalendarError::BadJulian), || format!("({d1:?},{d2:?}): {e}"))
        }
        (Ok(o), Ok((g, f))) => {
            c.check("date half agrees", o.date == g, || format!("({d1:?},{d2:?}) {o:?} vs {g:?}"))?;
            let (h, m, s) = (o.hms.hour, o.hms.minute, o.hms.second);
            c.check("valid clock reading", h <= 23 && m <= 59 && s >= 0.0 && s < 60.0, || format!("({d1:?},{d2:?}) {o:?}"))?;
            let worth = s + m as f64 * 60.0 + h as f64 * 3600.0;
            c.close("time half (s)", worth, f * 86400.0, 1e-10)?;
            // instant through the combined value
            let ex = two_sum(d1, d2);
            let got = dd(cal::mjd(g.year as i64, g.month as i64, g.day as i64) as f64) + Z + dd(worth) / 86400.0;
            c.close("instant (days)", (got - ex).f(), 0.0, tol_parts(d1, d2) + 1e-15)?;
            let (j1, j2) = o.to_julian();
            let e = (two_sum(j1, j2) - ex).f();
            let n = cal::mjd(g.year as i64, g.month as i64, g.day as i64) as f64;
            c.class_if(n.abs() < 100000.0, "within 100000 days of 1858");
            if n.abs() < 100000.0 && tol_parts(d1, d2) < 1e-12 {
                c.close("round trip near 1858 (s)", e * 86400.0, 0.0, 2e-6)?;
            }
            c.close("round trip (days)", e, 0.0, tol_parts(d1, d2) + ulp(n) + 2e-15)
        }
        (o, g) => fail("verdicts differ", format!("({d1:?},{d2:?}) combined {o:?}, separate {g:?}")),
    }
}
fn c06_to(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let y = match r.below(3) {
        0 => r.int(YMIN, 4000),
        1 => r.int(1700, 2200),
        _ => r.int(4000, 2_000_000),
    };
    let m = r.int(1, 12);
    let d = if r.chance(0.4) { cal::month_len(y, m) } else { r.int(1, cal::month_len(y, m)) };
    let (h, mi) = match r.below(4) {
        0 => (0, 0),
        1 => (23, 59),
        _ => (r.int(0, 23), r.int(0, 59)),
    };
    let s = match r.below(6) {
        0 => 0.0,
        1 => 59.999999,
        2 => r.range(0.0, 60.0),
        3 => r.below(120) as f64 * 0.5,
        4 => r.range(60.0, 61.0),
        _ => r.below(60) as f64,
    };
    c.keyf(&[y as f64, (m * 40 + d) as f64, (h * 60 + mi) as f64, s]);
    to_case(c, y, m, d, h, mi, s)
}
/// Every day of a long span, at a time of day that varies
fn c06_days(c: &mut Ctx) -> R {
    let n = c.idx as i64 - 150_000;
    let (y, m, d) = cal::from_mjd(n);
    let (h, mi, s) = match c.rng.below(4) {
        0 => (0, 0, 0.0),
        1 => (12, 0, 0.0),
        2 => (23, 59, 59.5),
        _ => (c.rng.int(0, 23), c.rng.int(0, 59), c.rng.below(600) as f64 * 0.1),
    };
    c.key(c.idx);
    c.class("every day, date-time to Julian");
    to_case(c, y, m, d, h, mi, s)
}
/// Every whole second of the day on days near and far
fn c06_seconds(c: &mut Ctx) -> R {
    let t = (c.idx % 86400) as i64;
    let n = match c.idx / 86400 % 3 {
        0 => 51544,
        1 => c.rng.int(-90_000, 90_000),
        _ => c.rng.int(-2_000_000, 900_000_000),
    };
    let (y, m, d) = cal::from_mjd(n);
    c.keyf(&[n as f64, t as f64]);
    let s = (t % 60) as f64 + if c.rng.bool() { 0.5 } else { 0.0 };
    to_case(c, y, m, d, t / 3600, t / 60 % 60, s)
}
fn to_case(c: &mut Ctx, y: i64, m: i64, d: i64, h: i64, mi: i64, s: f64) -> R {
    c.class_if(s >= 60.0, "leap second to Julian");
    let Ok(date) = GregorianDate::new(y as i32, m as i32, d as i32) else {
        return fail("valid-date-rejected", format!("{y}-{m}-{d}"));
    };
    let v = GregorianDateHMS { date, hms: HMS::new(h as u8, mi as u8, s) };
    let (j1, j2) = v.to_julian();
    let n = cal::mjd(y, m, d) as f64;
    let want = dd(n) + Z + (dd(s) + (h * 3600 + mi * 60) as f64) / 86400.0;
    c.desc(|| format!("{v:?} -> ({j1:?},{j2:?})"));
    c.class("date-time to Julian");
    c.close("Julian date (days)", (two_sum(j1, j2) - want).f(), 0.0, 2.0 * ulp(n.abs() + 1.0) + 1e-15)?;
    let (d1, d2) = date.to_julian();
    c.close("composition of the halves", (two_sum(j1, j2) - two_sum(d1, d2) - v.hms.to_fraction_of_day()).f(), 0.0, 2.0 * ulp(n.abs() + 1.0) + 1e-15)?;
    let b = match GregorianDateHMS::from_julian(j1, j2) {
        Ok(b) => b,
        Err(e) => return fail("round trip rejected", format!("{v:?}: {e}")),
    };
    let (k1, k2) = b.to_julian();
    c.close("back (days)", (two_sum(k1, k2) - two_sum(j1, j2)).f(), 0.0, 2.0 * ulp(n) + 2e-15)?;
    if n.abs() < 100000.0 {
        let w = (dd(cal::mjd(b.date.year as i64, b.date.month as i64, b.date.day as i64) as f64) - n) * 86400.0
            + (b.hms.second + b.hms.minute as f64 * 60.0 + b.hms.hour as f64 * 3600.0)
            - (s + (h * 3600 + mi * 60) as f64);
        c.close("fields back near 1858 (s)", w.f(), 0.0, 2e-6)?;
    }
    Ok(())
}
fn c06_reject(c: &mut Ctx) -> R {
    let (a, b) = (c.rng.wild(), c.rng.wild());
    c.keyf(&[a, b]);
    let o = GregorianDateHMS::from_julian(a, b);
    let s = a + b;
    c.desc(|| format!("({a:?},{b:?}) -> {o:?}"));
    if s.is_nan() || s < DJ_MIN - 1.0 || s > DJ_MAX + 1.0 {
        c.class("rejected");
        return c.check("out-of-range is rejected", matches!(o, Err(CalendarError::BadJulian)), || format!("({a:?},{b:?}) -> {o:?}"));
    }
    Ok(())
}
pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "each case is one two-part Julian date or one date and time; distinct by bits",
        suites: vec![
            suite("from Julian", c06_from, 2_000_000, 50_000_000),
            suite("to Julian", c06_to, 2_000_000, 50_000_000),
            each("every day to Julian", c06_days, 300_000, 300_000),
            each("every second to Julian", c06_seconds, 3 * 86400, 30 * 86400),
            suite("hostile parts", c06_reject, 300_000, 5_000_000),
        ],
        need: &["rejected", "within 100000 days of 1858", "date-time to Julian", "every day, date-time to Julian", "leap second to Julian"],
        assumptions: &[],
    }
}

// ---------------------------------------------------------------- C32
/// Exact decimal rounding check: text is x printed to k decimals, half a unit at most away
fn num_ok(text: &str, x: f64, k: i32) -> Result<(), String> {
    num_within(text, x, k, 0.0)
}
fn num_within(text: &str, x: f64, k: i32, slack: f64) -> Result<(), String> {
    let body = text.trim_start_matches(['+', '-']);
    let mut it = body.splitn(2, '.');
    let (i, f) = (it.next().unwrap_or(""), it.next());
    if i.is_empty() || !i.bytes().all(|b| b.is_ascii_digit()) {
        return Err(format!("'{text}' is not a number"));
    }
    if k > 0 && !f.map(|f| f.len() == k as usize && f.bytes().all(|b| b.is_ascii_digit())).unwrap_or(false) {
        return Err(format!("'{text}' does not have {k} decimals"));
    }
    let v: f64 = text.parse().map_err(|_| format!("'{text}' does not parse"))?;
    let half = 0.5 * 10f64.powi(-k);
    if (v - x).abs() <= half * (1.0 + 1e-9) + ulp(x) + slack {
        Ok(())
    } else {
        Err(format!("'{text}' shows {v:?} for {x:?}"))
    }
}
fn date_text(y: i64, m: i64, d: i64) -> String {
    let a = y.unsigned_abs().to_string();
    // documented width: four characters, sign included
    let w = if y < 0 { 3 } else { 4 };
    let mut s = String::new();
    if y < 0 {
        s.push('-');
    }
    for _ in a.len()..w {
        s.push('0');
    }
    s.push_str(&a);
    s.push('-');
    s.push_str(if m < 10 { "0" } else { "" });
    s.push_str(&m.to_string());
    s.push('-');
    s.push_str(if d < 10 { "0" } else { "" });
    s.push_str(&d.to_string());
    s
}
fn c32_date(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let y = match r.below(4) {
        0 => r.int(YMIN, 1000),
        1 => r.int(0, 9999),
        2 => r.int(10000, i32::MAX as i64),
        _ => r.int(-100, 100),
    };
    let m = r.int(1, 12);
    let d = r.int(1, cal::month_len(y, m));
    c.key((y * 1000 + m * 40 + d) as u64);
    date_case(c, y, m, d)
}
/// Every date of years -4799 to 9999
fn c32_every(c: &mut Ctx) -> R {
    let (y, m, d) = cal::from_mjd(c.idx as i64 + cal::mjd(YMIN, 1, 1));
    c.key((y * 1000 + m * 40 + d) as u64);
    date_case(c, y, m, d)
}
fn date_case(c: &mut Ctx, y: i64, m: i64, d: i64) -> R {
    let Ok(g) = GregorianDate::new(y as i32, m as i32, d as i32) else {
        return fail("valid-date-rejected", format!("{y}-{m}-{d}"));
    };
    let s = format!("{g}");
    c.desc(|| format!("{y} {m} {d} prints {s}"));
    c.class_if(y < 0, "negative year text");
    c.class_if(y > 9999, "wide year text");
    c.check("date text", s == date_text(y, m, d), || format!("{y} {m} {d} prints '{s}'"))?;
    // and reads back
    let (body, neg) = match s.strip_prefix('-') {
        Some(b) => (b, true),
        None => (s.as_str(), false),
    };
    let p: Vec<i64> = body.split('-').map(|x| x.parse().unwrap_or(i64::MIN)).collect();
    c.check("date reads back", p.len() == 3 && (if neg { -p[0] } else { p[0] }) == y && p[1] == m && p[2] == d, || format!("'{s}'"))
}
fn hms_text(c: &mut Ctx, h: u8, m: u8, s: f64, text: &str) -> R {
    let b: Vec<&str> = text.split(':').collect();
    if b.len() != 3 || b[0].len() != 2 || b[1].len() != 2 || b[2].len() != 9 || b[2].as_bytes()[2] != b'.' {
        return fail("layout HH:MM:SS.ffffff", format!("{h}:{m}:{s:?} prints '{text}'"));
    }
    c.check("hour and minute", b[0].parse() == Ok(h) && b[1].parse() == Ok(m), || format!("{h}:{m}:{s:?} prints '{text}'"))?;
    if let Err(e) = num_ok(b[2], s, 6) {
        return fail("seconds", format!("{h}:{m}:{s:?} prints '{text}': {e}"));
    }
    c.event();
    if b[2] == "60.000000" && s < 60.0 && s >= 59.9999995 {
        c.soft("hms-seconds-60-by-rounding", format!("{h}:{m}:{s:?} prints '{text}'"));
        return Ok(());
    }
    if s >= 60.0 {
        c.class("leap second text");
        return Ok(());
    }
    c.check("seconds below 60", b[2].parse::<f64>().map(|v| v < 60.0).unwrap_or(false), || format!("{h}:{m}:{s:?} prints '{text}'"))
}
fn c32_hms(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let (h, m) = (r.int(0, 23) as u8, r.int(0, 59) as u8);
    let s = if c.idx == 0 {
        59.9999996
    } else {
        match r.below(9) {
            0 => r.below(60) as f64,
            7 => r.below(120) as f64 * 0.5,
            8 => r.range(60.0, 61.0),
            1 => r.range(0.0, 60.0),
            2 => r.range(0.0, 10.0),
            3 => r.range(9.999999, 10.000001),
            4 => r.logu(1e-9, 1.0),
            5 => 60.0 - r.logu(4e-7, 1e-3),
            _ => r.below(60_000_000) as f64 / 1e6,
        }
    };
    c.keyf(&[h as f64, m as f64, s]);
    let t = format!("{}", HMS::new(h, m, s));
    c.desc(|| format!("{h}:{m}:{s:?} prints {t}"));
    c.class_if(s < 10.0, "seconds below ten");
    c.class_if(s > 59.999, "end of minute");
    hms_text(c, h, m, s, &t)
}
fn c32_seconds(c: &mut Ctx) -> R {
    let t = c.idx % 86400;
    let (h, m) = ((t / 3600) as u8, (t / 60 % 60) as u8);
    let s = (t % 60) as f64
        + match c.idx / 86400 % 3 {
            0 => 0.0,
            1 => 0.5,
            _ => c.rng.below(1000) as f64 / 1000.0,
        };
    c.keyf(&[h as f64, m as f64, s]);
    let t = format!("{}", HMS::new(h, m, s));
    c.desc(|| format!("{h}:{m}:{s:?} prints {t}"));
    hms_text(c, h, m, s, &t)
}
fn c32_both(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let (y, m) = (r.int(-4799, 20000), r.int(1, 12));
    let d = r.int(1, cal::month_len(y, m));
    let (h, mi, s) = (r.int(0, 23) as u8, r.int(0, 59) as u8, r.range(0.0, 59.999999));
    c.keyf(&[y as f64, (m * 40 + d) as f64, s]);
    let v = GregorianDateHMS { date: GregorianDate { year: y as i32, month: m as i32, day: d as i32 }, hms: HMS::new(h, mi, s) };
    let t = format!("{v}");
    c.desc(|| format!("{v:?} prints {t}"));
    let Some((a, b)) = t.split_once(' ') else {
        return fail("date-time layout", format!("{v:?} prints '{t}'"));
    };
    c.check("date half text", a == date_text(y, m, d), || format!("{v:?} prints '{t}'"))?;
    c.class("combined text");
    let b = b.to_string();
    hms_text(c, h, mi, s, &b)
}
/// slack: degrees the angles may have moved in a conversion before they were printed
pub fn coord_text(c: &mut Ctx, t: &str, lat: f64, lon: f64, h: f64, slack: f64) -> R {
    let p: Vec<&str> = t.split(',').collect();
    if p.len() != 3 {
        return fail("three coordinates", format!("'{t}'"));
    }
    for (q, x, k, w, slack, name) in [(p[0], lat, 6, 10, slack, "latitude"), (p[1], lon, 6, 11, slack, "longitude"), (p[2], h, 2, 9, 0.0, "height")] {
        c.event();
        // the date line, reached from either side
        let x = if slack > 0.0 && name == "longitude" && x.abs() > 180.0 - slack { if q.starts_with('-') { -x.abs() } else { x.abs() } } else { x };
        if !(q.starts_with('+') || q.starts_with('-')) || q.len() < w {
            return fail("signed fixed-width coordinate", format!("{name} '{q}' in '{t}'"));
        }
        if let Err(e) = num_within(q, x, k, slack) {
            return fail("coordinate text", format!("{name} in '{t}': {e}"));
        }
        if x.abs() > slack && q.starts_with('-') != (x < 0.0) {
            return fail("coordinate sign", format!("{name} {x:?} in '{t}'"));
        }
    }
    Ok(())
}
fn c32_geo(c: &mut Ctx) -> R {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let lat = match r.below(4) {
        0 => *r.pick(&[0.0, 90.0, -90.0, 45.0]),
        1 => r.sign() * r.logu(1e-7, 90.0),
        _ => r.range(-90.0, 90.0),
    };
    let lon = match r.below(4) {
        0 => *r.pick(&[0.0, 180.0, -180.0, 90.0]),
        1 => r.sign() * r.logu(1e-7, 180.0),
        2 => r.range(-720.0, 720.0),
        _ => r.range(-180.0, 180.0),
    };
    let h = match r.below(5) {
        0 => 0.0,
        4 => r.sign() * r.logu(1e9, 1e15),
        1 => r.range(-11000.0, 9000.0),
        2 => r.sign() * r.logu(1e-3, 1e9),
        _ => r.range(-100.0, 100.0),
    };
    c.keyf(&[lat, lon, h]);
    let g = Geodetic360 { lat, lon, height: h };
    let t = format!("{g}");
    c.desc(|| format!("{g:?} prints {t}"));
    c.class("degree coordinates text");
    coord_text(c, &t, lat, lon, h, 0.0)?;
    // in radians: the text shows degrees
    // (longitudes beyond the date line are wrapped, which C13 judges)
    let lon = lon % 180.0;
    let q = if r.bool() { 0.999 } else { 1.0 };
    let (phi, elong) = ((lat * q).to_radians(), (lon * q).to_radians());
    let q = Geodetic { elong, phi, height: h };
    let t = format!("{q}");
    c.desc(|| format!("{q:?} prints {t}"));
    c.class("radian coordinates text");
    coord_text(c, &t, phi.to_degrees(), elong.to_degrees(), h, 1e-12)
}
pub fn c32() -> Prop {
    Prop {
        id: "C32",
        rule: "each case is one printed value; distinct by its fields",
        suites: vec![
            suite("dates", c32_date, 500_000, 8_000_000),
            each("every date", c32_every, 5_405_223, 5_405_223),
            each("every second", c32_seconds, 3 * 86400, 30 * 86400),
            suite("times", c32_hms, 500_000, 8_000_000),
            suite("date-times", c32_both, 300_000, 4_000_000),
            suite("coordinates", c32_geo, 300_000, 4_000_000),
        ],
        need: &["leap second text", "negative year text", "wide year text", "seconds below ten", "end of minute", "combined text", "degree coordinates text", "radian coordinates text"],
        assumptions: &["negative years print with the sign inside the four-character width, as the format in the code documents"],
    }
}
