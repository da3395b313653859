//! C09 exported constants and elementary functions.
use crate::dd::{dd, two_prod, Dd, PI1, PI2};
use crate::fw::R;
use crate::fw::*;
use crate::gen::EPS;
use crate::rng::Rng;
use std::f64::consts::{FRAC_PI_2, PI};
use tofas::common as tc;

/// (sin, cos) in double-double by its own reduction and power series: no library trigonometry
fn sincos_dd(x: Dd) -> (Dd, Dd) {
    let half = Dd { h: PI1.h / 2.0, l: PI1.l / 2.0 };
    let r = x.rem_near(PI2);
    let q = (r / half).h.round();
    let r = r - half * q;
    let r2 = r * r;
    let (mut s, mut c) = (dd(0.0), dd(0.0));
    // Horner from the 28th power: (pi/4)^28/28! is below 1e-32
    for k in (2..=29).rev() {
        let d = (k * (k - 1)) as f64;
        if k % 2 == 1 {
            s = (dd(1.0) - s) * r2 / d;
        } else {
            c = (dd(1.0) - c) * r2 / d;
        }
    }
    let (s, c) = (r * (dd(1.0) - s), dd(1.0) - c);
    match (q as i64).rem_euclid(4) {
        0 => (s, c),
        1 => (c, -s),
        2 => (-s, -c),
        _ => (-c, s),
    }
}

fn c09_constants(c: &mut Ctx) -> R {
    // published value of each, as the decimal or the exact quotient it stands for
    let pi = 3.141592653589793238_f64;
    let list: &[(&'static str, f64, f64)] = &[
        ("PI", tc::PI, pi),
        ("TWO_PI", tc::TWO_PI, 6.283185307179586477),
        ("DEGREE", tc::DEGREE, 0.01745329251994329577),
        ("EPSILON", tc::EPSILON, 2.220446049250313e-16),
        ("AS2R", tc::AS2R, 4.848136811095359935899141e-6),
        ("MAS2R", tc::MAS2R, 4.848136811095359935899141e-9),
        ("TURNAS", tc::TURNAS, 1296000.0),
        ("D2S", tofas::time::D2S, 86400.0),
        ("DJY", tofas::time::DJY, 365.25),
        ("DJ00", tofas::time::DJ00, 2451545.0),
        ("DJC", tofas::time::DJC, 36525.0),
        ("DTAT", tofas::time::DTAT, 0.0003725),
        ("AUM", tofas::earth::AUM, 149597870700.0),
        ("MJD_ZERO", tofas::calendar::MJD_ZERO, 2400000.5),
        ("DJ_MIN", tofas::calendar::DJ_MIN, -32000.0),
        ("DJ_MAX", tofas::calendar::DJ_MAX, 1e9),
        ("YEAR_MIN", tofas::calendar::YEAR_MIN as f64, -4799.0),
    ];
    let (name, got, want) = list[c.idx as usize % list.len()];
    c.key(c.idx);
    c.desc(|| format!("{name} = {got:?}"));
    c.class("constant");
    c.close(name, got, want, 2.0 * EPS * want.abs())
}

fn arg(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => r.sign() * r.logu(1e-300, 1.0),
        1 => r.range(-1.0, 1.0),
        2 => r.range(-7.0, 7.0),
        3 => r.sign() * r.logu(1.0, 1e9),
        4 => {
            let x = r.int(-40, 40) as f64 * FRAC_PI_2 / 2.0;
            r.jitter(x, 3)
        }
        5 => {
            let x = r.int(-2000, 2000) as f64 * 0.5;
            r.jitter(x, 3)
        }
        _ => r.wild(),
    }
}

fn c09_functions(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let x = arg(&mut r);
    c.keyf(&[x]);
    c.desc(|| format!("x = {x:?}"));
    // exact ones: any double at all
    c.check("abs", tc::abs(x).to_bits() == x.to_bits() & !(1 << 63) || x.is_nan(), || format!("abs({x:?}) = {:?}", tc::abs(x)))?;
    let same = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan());
    c.check("square", same(tc::sq(x), x * x) || (tc::sq(x) - x * x).abs() <= 2.0 * EPS * (x * x), || format!("sq({x:?}) = {:?}", tc::sq(x)))?;
    let (f, n, s) = (tc::floor(x), tc::round(x), tc::sqrt(x));
    if x.is_nan() {
        c.class("not a number");
        let y = [tc::abs(x), tc::sq(x), f, n, s, tc::sin(x), tc::cos(x), tc::tan(x), tc::asin(x), tc::acos(x), tc::atan(x), tc::atan2(x, 1.0), tc::atan2(1.0, x)];
        return c.check("no number from no number", y.iter().all(|y| y.is_nan()), || format!("{y:?}"));
    }
    // whole numbers next to x by integer conversion, below the size where every double is whole
    if x.abs() < 4503599627370496.0 {
        let t = x as i64;
        let fr = x - t as f64;
        let fl = if fr < 0.0 { t - 1 } else { t };
        let rd = if fr >= 0.5 { t + 1 } else if fr <= -0.5 { t - 1 } else { t };
        c.check("floor", f == fl as f64, || format!("floor({x:?}) = {f:?}, want {fl}"))?;
        c.check("round", n == rd as f64, || format!("round({x:?}) = {n:?}, want {rd}"))?;
        c.class_if(fr.abs() == 0.5, "tie");
        c.class_if(fr == 0.0, "whole number");
        c.class_if(fr < 0.0, "negative with a fraction");
    } else {
        c.class("beyond the fractions");
        c.check("floor", same(f, x), || format!("floor({x:?}) = {f:?}"))?;
        c.check("round", same(n, x), || format!("round({x:?}) = {n:?}"))?;
    }
    if x < 0.0 {
        c.check("square root of a negative", s.is_nan(), || format!("sqrt({x:?}) = {s:?}"))?;
    } else if x == 0.0 || x.is_infinite() {
        c.check("square root of zero and infinity", s == x, || format!("sqrt({x:?}) = {s:?}"))?;
    } else {
        // scaled by an even power of two into the range where products are exact pairs
        let (mut m, mut w) = (x, s);
        while m < 1e-100 {
            m *= 2f64.powi(100);
            w *= 2f64.powi(50);
        }
        while m > 1e100 {
            m *= 2f64.powi(-100);
            w *= 2f64.powi(-50);
        }
        let e = ((two_prod(w, w) - m).f() / m).abs();
        c.close("square root", e, 0.0, 4.0 * EPS)?;
    }
    if x.is_finite() && x.abs() < 1e9 {
        let (sd, cd) = sincos_dd(dd(x));
        let red = 1e-31 * (1.0 + x.abs());
        let t = (sd / cd).f();
        let (sr, cr) = (sd.f(), cd.f());
        c.close("sine", tc::sin(x), sr, 4.0 * EPS * sr.abs() + red)?;
        c.close("cosine", tc::cos(x), cr, 4.0 * EPS * cr.abs() + red)?;
        c.close("tangent", tc::tan(x), t, 8.0 * EPS * t.abs() + red * (1.0 + t * t))?;
        c.class("trigonometry");
    }
    let at = tc::atan(x);
    c.check("arc tangent within a quarter turn", at.abs() <= FRAC_PI_2 && (at < 0.0) == (x < 0.0), || format!("atan({x:?}) = {at:?}"))?;
    if x.is_finite() {
        let (a, b) = sincos_dd(dd(at));
        let h = x.abs().max(1.0);
        let d = (a * (1.0 / h) - b * (x / h)).f() * h / x.hypot(1.0);
        c.close("arc tangent", d, 0.0, 4.0 * EPS * (at.abs() + f64::MIN_POSITIVE) + 2.0 * EPS * x.abs().min(1.0))?;
    } else {
        c.close("arc tangent of infinity", at.abs(), FRAC_PI_2, 2.0 * EPS)?;
    }
    // inverse functions, on their domain and off it
    let u = if r.chance(0.7) {
        match r.below(4) {
            0 => r.range(-1.0, 1.0),
            1 => r.sign() * (1.0 - r.logu(1e-16, 1.0)),
            2 => r.sign() * r.logu(1e-20, 1.0),
            _ => *r.pick(&[0.0, 1.0, -1.0, 0.5, -0.5]),
        }
    } else {
        x
    };
    let (asn, acs) = (tc::asin(u), tc::acos(u));
    c.desc(|| format!("u = {u:?} asin {asn:?} acos {acs:?}"));
    if u.abs() > 1.0 {
        c.class("off the domain");
        c.check("no angle has this sine", asn.is_nan() && acs.is_nan(), || format!("{u:?}: {asn:?} {acs:?}"))?;
    } else {
        c.check("range of the inverses", asn.abs() <= FRAC_PI_2 && (0.0..=PI).contains(&acs), || format!("{u:?}: {asn:?} {acs:?}"))?;
        let (a, b) = sincos_dd(dd(asn));
        c.close("arc sine", (a - u).f(), 0.0, 4.0 * EPS * (asn * b.f()).abs() + 3.0 * EPS * u.abs())?;
        let (a, b) = sincos_dd(dd(acs));
        c.close("arc cosine", (b - u).f(), 0.0, 4.0 * EPS * (acs * a.f()).abs() + 3.0 * EPS * (u.abs() + 0.1))?;
        c.class("inverse functions");
        if u.abs() == 1.0 || u == 0.0 {
            c.close("arc sine of a corner", asn, u * FRAC_PI_2, 4.0 * EPS)?;
            c.close("arc cosine of a corner", acs, (1.0 - u) * FRAC_PI_2, 4.0 * EPS)?;
        }
    }
    Ok(())
}

fn c09_atan2(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let s = if r.bool() { 1.0 } else { r.logu(1e-150, 1e150) };
    let part = |r: &mut Rng| match r.below(6) {
        0 => 0.0,
        1 => r.int(-3, 3) as f64,
        2 => r.sign() * r.logu(1e-30, 1.0),
        _ => r.range(-1.0, 1.0),
    };
    let (y0, x0) = (part(&mut r), part(&mut r));
    let (y, x) = (s * y0, s * x0);
    c.keyf(&[y, x]);
    let t = tc::atan2(y, x);
    c.desc(|| format!("atan2({y:?}, {x:?}) = {t:?}"));
    c.check("within half a turn", t.abs() <= PI, || format!("atan2({y:?}, {x:?}) = {t:?}"))?;
    if y == 0.0 {
        c.class("on the axis");
        return c.close("on the axis", t.abs(), if x < 0.0 { PI } else { 0.0 }, 2.0 * EPS);
    }
    c.check("side of the axis", (t > 0.0) == (y > 0.0), || format!("atan2({y:?}, {x:?}) = {t:?}"))?;
    c.class(match (y > 0.0, x >= 0.0) {
        (true, true) => "quadrant 1",
        (true, false) => "quadrant 2",
        (false, false) => "quadrant 3",
        (false, true) => "quadrant 4",
    });
    let m = y0.abs().max(x0.abs());
    let (y1, x1) = (y0 / m, x0 / m);
    let h = y1.hypot(x1);
    let (a, b) = sincos_dd(dd(t));
    c.check("same direction", (a * y1 + b * x1).f() > 0.0, || format!("atan2({y:?}, {x:?}) = {t:?}"))?;
    let cross = (a * x1 - b * y1).f() / h;
    c.close("angle of the point", cross, 0.0, 4.0 * EPS * t.abs() + 4.0 * EPS * (y1 / h).abs())
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "constants: each one; functions: each case is one argument (a pair for atan2); distinct by bits",
        suites: vec![
            exhaustive("constants", c09_constants, 17, 17),
            suite("functions", c09_functions, 300_000, 30_000_000),
            suite("atan2", c09_atan2, 400_000, 40_000_000),
        ],
        need: &[
            "constant", "not a number", "tie", "whole number", "negative with a fraction", "beyond the fractions", "trigonometry", "off the domain",
            "inverse functions", "on the axis", "quadrant 1", "quadrant 2", "quadrant 3", "quadrant 4",
        ],
        assumptions: &["trigonometric functions of angles beyond 1e9 rad are not judged"],
    }
}
