//! C37 refusals name what was wrong; values compare by their fields.
use crate::fw::R;
use crate::fw::*;
use crate::refm::cal;
use std::error::Error;
use tofas::calendar::{GregorianDate, GregorianDateHMS, HMS};
use tofas::delta_at::DeltaAt;
use tofas::ellipsoid::{Ellipsoid, EllipsoidConverter, Geodetic, Geodetic360};

/// The message names a quantity that is really wrong
fn named(c: &mut Ctx, e: &dyn Error, wrong: &[&'static str]) -> R {
    let t = e.to_string();
    let low = t.to_lowercase();
    c.check("one line of text", !t.trim().is_empty() && !t.contains('\n'), || format!("message '{t}'"))?;
    c.check("names what is wrong", wrong.iter().any(|w| low.contains(w)), || format!("message '{t}' while the wrong ones are {wrong:?}"))?;
    c.check("same text twice", t == format!("{e}"), || format!("'{t}' then '{e}'"))
}

fn c37_refusals(c: &mut Ctx) -> R {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    match r.below(5) {
        0 | 1 => {
            let y = match r.below(4) {
                0 => r.int(-5000, -4700),
                1 => r.int(i32::MIN as i64, i32::MAX as i64),
                _ => r.int(-4799, 4000),
            } as i32;
            let m = if r.bool() { r.int(1, 12) } else { r.int(-3, 16) } as i32;
            let d = match r.below(4) {
                0 => r.int(27, 33),
                1 => r.int(-2, 2),
                2 => r.int(i32::MIN as i64, i32::MAX as i64),
                _ => r.int(1, 28),
            } as i32;
            c.key(((y as u64) << 32) ^ ((m as u64 & 0xff) << 24) ^ d as u64);
            c.desc(|| format!("date {y} {m} {d}"));
            let mut wrong = vec![];
            if (y as i64) < -4799 {
                wrong.push("year");
            }
            if !(1..=12).contains(&m) {
                wrong.push("month");
            }
            let len = if (1..=12).contains(&m) { cal::month_len(y as i64, m as i64) } else { 31 };
            if d < 1 || d as i64 > len {
                wrong.push("day");
            }
            match GregorianDate::new(y, m, d) {
                // acceptance is C02's
                Ok(_) => Ok(()),
                Err(e) => {
                    c.class("date refused");
                    // day of an impossible month: judged with the month
                    if !(1..=12).contains(&m) && !wrong.contains(&"day") {
                        wrong.push("day");
                    }
                    named(c, &e, &wrong)
                }
            }
        }
        2 => {
            let x = r.wild();
            let z = if r.bool() { 0.0 } else { r.wild() };
            c.keyf(&[x, z]);
            c.desc(|| format!("Julian date {x:?} {z:?}"));
            if let Err(e) = GregorianDate::from_julian(x, z) {
                c.class("Julian date refused");
                named(c, &e, &["julian"])?;
            }
            if let Err(e) = GregorianDateHMS::from_julian(x, z) {
                named(c, &e, &["julian"])?;
            }
            Ok(())
        }
        3 => {
            let f = match r.below(3) {
                0 => r.wild(),
                1 => r.range(-2.0, 0.0) - 1e-300,
                _ => 1.0 + r.logu(1e-15, 10.0),
            };
            c.keyf(&[f]);
            c.desc(|| format!("fraction {f:?}"));
            if let Err(e) = HMS::from_fraction_of_day(f) {
                c.class("fraction refused");
                named(c, &e, &["fraction"])?;
            }
            let y = r.int(1955, 2100) as i32;
            let g = GregorianDate { year: y, month: r.int(1, 12) as i32, day: r.int(1, 28) as i32 };
            if let Err(e) = g.delta_at(f) {
                c.class("delta-AT refused");
                named(c, &e, &["fraction"])?;
            }
            Ok(())
        }
        _ => {
            let a = if r.bool() { r.logu(1e-3, 1e9) } else { r.wild() };
            let f = match r.below(3) {
                0 => r.range(0.0, 1.0),
                1 => r.range(-1.0, 2.0),
                _ => r.wild(),
            };
            c.keyf(&[a, f]);
            c.desc(|| format!("ellipsoid a={a:?} f={f:?}"));
            let mut wrong = vec![];
            if !(a > 0.0) {
                wrong.push("radius");
            }
            if !(f >= 0.0 && f < 1.0) {
                wrong.push("flattening");
            }
            match EllipsoidConverter::new(&Ellipsoid { a, f }) {
                Ok(_) => Ok(()),
                // so flat that the polar radius vanishes: a message of its own
                Err(e) if wrong.is_empty() => {
                    c.class("polar radius vanishes");
                    c.check("one line of text", !e.to_string().trim().is_empty(), || format!("{e:?} has no text"))
                }
                Err(e) => {
                    c.class("ellipsoid refused");
                    named(c, &e, &wrong)
                }
            }
        }
    }
}

/// A nearby value, or the same, or another
fn vary(r: &mut crate::rng::Rng, x: f64) -> f64 {
    match r.below(8) {
        0 => crate::rng::ulps(x, 1),
        1 => crate::rng::ulps(x, -1),
        2 => -x,
        3 => x + r.sign() * r.logu(1e-12, 1.0),
        4 => r.wild(),
        5 => x + 360.0,
        _ => x,
    }
}
fn c37_equality(c: &mut Ctx) -> R {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    if r.below(4) == 0 {
        // hand-built dates may be any three numbers
        let y = r.int(-5000, 5000) as i32;
        let a = GregorianDate { year: y, month: r.int(0, 13) as i32, day: r.int(0, 32) as i32 };
        let mut b = a;
        c.check("a copy is equal", a == b, || format!("{a:?}"))?;
        for f in [&mut b.year, &mut b.month, &mut b.day] {
            match r.below(6) {
                0 => *f += 1,
                1 => *f -= 1,
                2 => *f = r.int(-30, 30) as i32,
                3 => *f = -*f,
                _ => {}
            }
        }
        if r.below(8) == 0 {
            // the same day counted from the next month
            b = GregorianDate { year: y, month: 2, day: 30 };
            let a2 = GregorianDate { year: y, month: 3, day: 30 - cal::month_len(y as i64, 2) as i32 };
            c.check("other fields, other date", a2 != b, || format!("{a2:?} equals {b:?}"))?;
        }
        let same = a.year == b.year && a.month == b.month && a.day == b.day;
        c.key(((a.year as u64) << 40) ^ ((b.year as u64 & 0xffff) << 24) ^ ((a.month as u64 & 0xff) << 16) ^ ((b.month as u64 & 0xff) << 8) ^ a.day as u64 ^ (b.day as u64) << 56);
        c.desc(|| format!("{a:?} {b:?}"));
        c.class(if same { "equal dates" } else { "different dates" });
        c.check("dates compare by fields", (a == b) == same, || format!("{a:?} == {b:?} is {}", a == b))?;
        c.check("equality is symmetric", (a == b) == (b == a), || format!("{a:?} {b:?}"))?;
        return c.check("unequal is not equal", (a != b) != (a == b), || format!("{a:?} {b:?}"));
    }
    let mut p = [r.range(-360.0, 360.0), r.range(-90.0, 90.0), r.range(-1000.0, 9000.0)];
    if r.below(4) == 0 {
        let i = r.below(3) as usize;
        p[i] = *r.pick(&[0.0, -0.0, 180.0, -180.0, 90.0, f64::NAN, f64::INFINITY]);
    }
    let mut q = p;
    if r.chance(0.7) {
        let i = r.below(3) as usize;
        q[i] = vary(r, q[i]);
    }
    let same = p.iter().zip(&q).all(|(a, b)| a == b);
    c.keyf(&[p[0], p[1], p[2], q[0], q[1], q[2]]);
    c.desc(|| format!("{p:?} {q:?}"));
    c.class(if same { "equal coordinates" } else { "different coordinates" });
    let (g, h) = (Geodetic { elong: p[0], phi: p[1], height: p[2] }, Geodetic { elong: q[0], phi: q[1], height: q[2] });
    c.check("radian coordinates compare by fields", (g == h) == same && (h == g) == same && (g != h) != same, || format!("{g:?} {h:?}"))?;
    let (g, h) = (Geodetic360 { lon: p[0], lat: p[1], height: p[2] }, Geodetic360 { lon: q[0], lat: q[1], height: q[2] });
    c.check("degree coordinates compare by fields", (g == h) == same && (h == g) == same && (g != h) != same, || format!("{g:?} {h:?}"))?;
    let (g, h) = (Ellipsoid { a: p[0], f: p[1] }, Ellipsoid { a: q[0], f: q[1] });
    let same = p[0] == q[0] && p[1] == q[1];
    c.check("ellipsoids compare by fields", (g == h) == same && (h == g) == same && (g != h) != same, || format!("{g:?} {h:?}"))
}

pub fn c37() -> Prop {
    Prop {
        id: "C37",
        rule: "each case is one refused call or one compared pair; distinct by its numbers",
        suites: vec![suite("refusals", c37_refusals, 300_000, 6_000_000), suite("equality", c37_equality, 300_000, 6_000_000)],
        need: &[
            "date refused", "Julian date refused", "fraction refused", "delta-AT refused", "ellipsoid refused", "equal dates", "different dates", "equal coordinates",
            "different coordinates",
        ],
        assumptions: &["day of an impossible month is not judged by itself"],
    }
}
