//! C17-C25: fundamental arguments, nutation, precession, locator, Earth rotation, frame matrices.
use crate::dd::{dd, Dd, PI2};
use crate::fw::*;
use crate::gen::*;
use crate::refm::astro::{self, maxdiff, mul, ortho, rx, rz, ID, M};
use crate::rng::Rng;
use std::f64::consts::PI;
use tofas::common::Mat3;
use tofas::earth;
use tofas::frames;
use tofas::fundargs;
use tofas::locator;
use tofas::time::{TT, UT1};

/// A TT date within ten centuries, with the class counters every frame property reports
fn tt10(c: &mut Ctx) -> (Date2, TT, Dd) {
    let d = match c.day {
        Some(day) => date_of_day(&mut c.rng, day),
        None => date2(&mut c.rng, SPAN_10CY),
    };
    let d = nudge(&mut c.rng, d);
    c.keyf(&[d.d1, d.d2]);
    c.class(d.kind);
    let t = d.centuries();
    c.class(if t.f() < -1.0 {
        "before 1900"
    } else if t.f() < 0.0 {
        "1900-2000"
    } else if t.f() <= 1.0 {
        "2000-2100"
    } else {
        "after 2100"
    });
    (d, TT(d.t()), t)
}
/// Days within ten centuries, all of them
pub const DAYS: u64 = 730_498;
macro_rules! each_day {
    ($name:ident, $case:ident) => {
        fn $name(c: &mut Ctx) -> R {
            c.day = Some((c.idx % DAYS) as i64 - DAYS as i64 / 2);
            $case(c)
        }
    };
}
each_day!(c18_day, c18_case);
each_day!(c19_day, c19_case);
each_day!(c20_day, c20_date);
each_day!(c21_day, c21_case);
each_day!(c22_day, c22_date);
each_day!(c23_day, c23_any);
each_day!(c25_day, c25_date);

const ERAS: [&str; 4] = ["before 1900", "1900-2000", "2000-2100", "after 2100"];
const _: () = assert!(ERAS.len() == 4);

fn with<T>(r: Result<T, Fail>, s: impl FnOnce() -> String) -> Result<T, Fail> {
    r.map_err(|mut f| {
        f.msg.push_str(" for ");
        f.msg.push_str(&s());
        f
    })
}

// ---------------------------------------------------------------- C17
fn c17_case(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let t: f64 = match r.below(7) {
        0 => r.int(-100, 100) as f64,
        1 => r.range(-1.0, 1.0),
        2 => r.sign() * r.logu(1e-12, 100.0),
        3 => r.range(-10.0, 10.0),
        4 => r.int(-3652500, 3652500) as f64 / 36525.0,
        _ => r.range(-100.0, 100.0),
    };
    c.keyf(&[t]);
    let f: [(&'static str, fn(f64) -> f64); 8] = [
        ("l", fundargs::l03),
        ("l'", fundargs::lp03),
        ("F", fundargs::f03),
        ("D", fundargs::d03),
        ("Om", fundargs::om03),
        ("Venus", fundargs::ve03),
        ("Earth", fundargs::e03),
        ("precession", fundargs::pa03),
    ];
    c.class(if t < 0.0 { "before J2000" } else { "after J2000" });
    c.class_if(t.abs() > 10.0, "beyond ten centuries");
    let rate = [1.72e9, 1.3e8, 1.74e9, 1.61e9, 7e6];
    for (k, (name, g)) in f.iter().enumerate() {
        let got = g(t);
        let w = astro::arg(k, dd(t));
        if k == 0 {
            c.desc(|| format!("t={t:?}: {name}={got:?}"));
        }
        let a = t.abs();
        // rounding of the unreduced phase, in radians
        let tol = match k {
            0..=4 => 4.0 * EPS * (rate[k] * a + 1.3e6 + 40.0 * a * a + 0.06 * a * a * a) * astro::AS + 1e-15,
            5 => 4.0 * EPS * (1021.4 * a + 7.0),
            6 => 4.0 * EPS * (628.4 * a + 7.0),
            _ => 4.0 * EPS * (0.03 * a) + 1e-18,
        };
        if k == 7 {
            with(c.close("accumulated precession", got, w.f(), tol), || format!("t={t:?}"))?;
            continue;
        }
        // same direction
        let d = (dd(got) - w).rem_near(PI2).f();
        let tol = tol + 1e-15;
        with(c.close("argument modulo a turn", d, 0.0, tol), || format!("{name}({t:?}) = {got:?}"))?;
        // within one turn, sign of the remainder
        with(c.check("within one turn of zero", got.abs() <= 2.0 * PI * (1.0 + 2.0 * EPS), || format!("{name}({t:?}) = {got:?}")), || name.to_string())?;
        let sign_ok = if w.f() > tol { got >= 0.0 } else if w.f() < -tol { got <= 0.0 } else { true };
        c.check("sign of the remainder", sign_ok, || format!("{name}({t:?}) = {got:?}, unreduced {:?}", w.f()))?;
    }
    Ok(())
}
pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "each case is one time, all eight arguments; distinct by bits",
        suites: vec![suite("arguments", c17_case, 1_000_000, 20_000_000)],
        need: &["before J2000", "after J2000", "beyond ten centuries"],
        assumptions: &["tolerance is the rounding of the unreduced phase"],
    }
}

// ---------------------------------------------------------------- C18
fn c18_case(c: &mut Ctx) -> R {
    let (d, tt, t) = tt10(c);
    let (p, e) = frames::nutation(tt);
    let (wp, we) = astro::nutation(t);
    c.desc(|| format!("{d:?}: dpsi={p:?} deps={e:?}"));
    let tol = 1e-15 + 1e-5 * d.res();
    with(c.close("dpsi (rad)", p, wp, tol), || format!("{d:?}"))?;
    with(c.close("deps (rad)", e, we, tol), || format!("{d:?}"))?;
    c.check("dpsi bounded", p.abs() < 20.0 * astro::AS, || format!("{d:?} dpsi={p:?}"))?;
    c.check("deps bounded", e.abs() < 11.0 * astro::AS, || format!("{d:?} deps={e:?}"))
}
pub fn c18() -> Prop {
    Prop {
        id: "C18",
        rule: "each case is one two-part date; distinct by bits",
        suites: vec![each("every day", c18_day, 5 * DAYS, 20 * DAYS), suite("nutation", c18_case, 120_000, 3_000_000)],
        need: &ERAS,
        assumptions: &["the reference coefficients are the SOFA nut00b ones, frozen and cross-checked against SOFA test values"],
    }
}

// ---------------------------------------------------------------- C19
fn c19_case(c: &mut Ctx) -> R {
    let (d, tt, t) = tt10(c);
    let slack = 0.003 * d.res() / 36525.0 * 36525.0 / 100.0; // 0.025 rad/century at most
    let eps = frames::mean_obliquity(tt);
    c.desc(|| format!("{d:?}: eps={eps:?}"));
    let ds = || format!("{d:?}");
    with(c.close("mean obliquity (rad)", eps, astro::obliquity80(t), 1e-15 + slack), ds)?;
    let (a, b) = frames::precession_rate(tt);
    let (wa, wb) = astro::rates(t);
    with(c.close("precession rate, longitude", a, wa, 1e-18 + slack), ds)?;
    with(c.close("precession rate, obliquity", b, wb, 1e-18 + slack), ds)?;
    let (b1, b2, b3) = frames::frame_bias();
    c.close("frame bias, longitude", b1, astro::BIAS.0, 1e-21)?;
    c.close("frame bias, obliquity", b2, astro::BIAS.1, 1e-21)?;
    c.close("frame bias, right ascension", b3, astro::BIAS.2, 1e-21)?;
    let (rb, rp, rbp) = frames::bias_and_precession(tt);
    let (wb, wp) = (astro::bias(), astro::precession(t));
    with(c.close("bias matrix", maxdiff(&rb, &wb), 0.0, 1e-15), ds)?;
    with(c.close("precession matrix", maxdiff(&rp, &wp), 0.0, 3e-15 + slack), ds)?;
    with(c.close("bias-precession matrix", maxdiff(&rbp, &mul(&wp, &wb)), 0.0, 3e-15 + slack), ds)?;
    with(c.close("product", maxdiff(&rbp, &mul(&rp, &rb)), 0.0, 1e-15), ds)?;
    for m in [&rb, &rp, &rbp] {
        with(c.close("orthonormal, determinant +1", ortho(m), 0.0, 3e-15), ds)?;
    }
    Ok(())
}
pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "each case is one two-part date; distinct by bits",
        suites: vec![each("every day", c19_day, 10 * DAYS, 20 * DAYS), suite("precession", c19_case, 300_000, 8_000_000)],
        need: &ERAS,
        assumptions: &[],
    }
}

// ---------------------------------------------------------------- C20
fn small(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => 0.0,
        1 => r.range(-1e-4, 1e-4),
        2 => r.sign() * r.logu(1e-12, 1.0),
        _ => r.range(-3.2, 3.2),
    }
}
fn c20_matrix(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let e = if r.bool() { r.range(0.40, 0.42) } else { r.range(-7.0, 7.0) };
    let (p, q) = (small(r), small(r));
    let (e, p, q) = match r.below(20) {
        0 => (0.0, p, q),
        1 => (e, p, p),
        2 => (e, p, -p),
        3 => (e, p, -e),
        4 => (q, p, e),
        _ => (e, p, q),
    };
    c.keyf(&[e, p, q]);
    c.class("any nutation angles");
    let m = frames::nutation_matrix(e, p, q);
    c.desc(|| format!("nutation_matrix({e:?},{p:?},{q:?}) = {m:?}"));
    c.close("nutation matrix", maxdiff(&m, &astro::nutmat(e, p, q)), 0.0, 1e-15)?;
    c.close("orthonormal, determinant +1", ortho(&m), 0.0, 4e-15)?;
    if p == 0.0 && q == 0.0 {
        c.class("no nutation");
        c.close("no nutation is the identity", maxdiff(&m, &ID), 0.0, 1e-15)?;
    }
    Ok(())
}
fn c20_date(c: &mut Ctx) -> R {
    let (d, tt, t) = tt10(c);
    let slack = 1e-4 * d.res();
    let ds = || format!("{d:?}");
    let m = frames::precession_nutation(tt);
    c.desc(|| format!("{d:?}: {m:?}"));
    with(c.close("bias-precession-nutation", maxdiff(&m, &astro::bpn(t)), 0.0, 4e-15 + slack), ds)?;
    with(c.close("orthonormal, determinant +1", ortho(&m), 0.0, 4e-15), ds)?;
    // composed of the published parts, with the corrected obliquity
    let (dpsi, deps) = frames::nutation(tt);
    let epsa = frames::mean_obliquity(tt) + frames::precession_rate(tt).1;
    let (rb, rp, rbp) = frames::bias_and_precession(tt);
    let n = frames::nutation_matrix(epsa, dpsi, deps);
    with(c.close("nutation times bias-precession", maxdiff(&m, &mul(&n, &rbp)), 0.0, 2e-15), ds)?;
    with(c.close("nutation times precession times bias", maxdiff(&m, &mul(&n, &mul(&rp, &rb))), 0.0, 3e-15), ds)?;
    let (x, y) = frames::xy_from_bpn(&m);
    c.check("pole is the third row", x == m[2][0] && y == m[2][1], || format!("{d:?}: {x:?},{y:?} {m:?}"))?;
    let pn: frames::PrecessionNutation = tt.into();
    c.check("stated nutation in longitude", pn.dpsi == dpsi, || format!("{d:?}: {} vs {dpsi}", pn.dpsi))?;
    let p = small(&mut c.rng);
    let q = small(&mut c.rng);
    let pn = frames::PrecessionNutation::from_tt_with_nutation(tt, p, q);
    c.check("given nutation in longitude", pn.dpsi == p, || format!("{d:?}: {} vs {p}", pn.dpsi))?;
    // the matrix is private: only the debug form shows it
    if c.idx % 4 != 0 {
        return Ok(());
    }
    if let Some(m) = debug_matrix(&format!("{pn:?}"), "rbpn") {
        c.class("matrix of a given nutation");
        let n = frames::nutation_matrix(epsa, p, q);
        c.desc(|| format!("{d:?}, nutation {p:?} {q:?} given: {m:?}"));
        with(c.close("given nutation times bias-precession", maxdiff(&m, &mul(&n, &rbp)), 0.0, 3e-15), ds)?;
    }
    Ok(())
}
/// The 3x3 matrix after "name: " in a debug text
fn debug_matrix(t: &str, name: &str) -> Option<M> {
    let i = t.match_indices(name).map(|(i, _)| i).find(|&i| {
        let before = t[..i].chars().next_back();
        !before.is_some_and(|c| c.is_alphanumeric() || c == '_') && t[i + name.len()..].starts_with(": [[")
    })?;
    let mut v = vec![];
    for x in t[i + name.len() + 4..].split(|c: char| ",[] ".contains(c)).filter(|x| !x.is_empty()) {
        v.push(x.parse::<f64>().ok()?);
        if v.len() == 9 {
            return Some([[v[0], v[1], v[2]], [v[3], v[4], v[5]], [v[6], v[7], v[8]]]);
        }
    }
    None
}
fn c20_pole(c: &mut Ctx) -> R {
    let mut m = [[0.0; 3]; 3];
    for row in m.iter_mut() {
        for x in row.iter_mut() {
            *x = c.rng.wild();
        }
        c.keyf(row);
    }
    c.class("pole of any matrix");
    let (x, y) = frames::xy_from_bpn(&m);
    c.desc(|| format!("{m:?} -> {x:?},{y:?}"));
    c.check("pole extraction", x.to_bits() == m[2][0].to_bits() && y.to_bits() == m[2][1].to_bits(), || format!("{m:?} -> {x:?},{y:?}"))
}
pub fn c20() -> Prop {
    Prop {
        id: "C20",
        rule: "each case is one date, one triple of angles or one matrix; distinct by bits",
        suites: vec![
            each("every day", c20_day, 5 * DAYS, 20 * DAYS),
            suite("dates", c20_date, 80_000, 2_000_000),
            suite("nutation matrix", c20_matrix, 1_000_000, 20_000_000),
            suite("pole extraction", c20_pole, 100_000, 1_000_000),
        ],
        need: &["before 1900", "1900-2000", "2000-2100", "after 2100", "any nutation angles", "no nutation", "pole of any matrix"],
        assumptions: &["the matrices inside PrecessionNutation are private: dpsi and the final matrix are observed (for a given nutation in the debug text, where it shows the matrix)"],
    }
}

// ---------------------------------------------------------------- C21
fn pole_any(r: &mut Rng) -> (f64, f64) {
    match r.below(6) {
        0 => (0.0, 0.0),
        1 => (r.range(-1e-3, 1e-3), r.range(-1e-3, 1e-3)),
        2 => (r.range(-0.1, 0.1), r.range(-0.1, 0.1)),
        3 => (r.sign() * r.logu(1e-15, 1.0), 0.0),
        4 => (0.0, r.sign() * r.logu(1e-15, 1.0)),
        _ => (r.range(-1.0, 1.0), r.range(-1.0, 1.0)),
    }
}
fn c21_case(c: &mut Ctx) -> R {
    let (d, tt, t) = tt10(c);
    let (x, y) = pole_any(&mut c.rng);
    c.keyf(&[x, y]);
    let s = locator::cio(tt, x, y);
    c.desc(|| format!("{d:?} x={x:?} y={y:?}: s={s:?}"));
    let ds = || format!("{d:?} x={x:?} y={y:?}");
    let series = astro::s_series(t);
    let tol = 1e-17 + 4.0 * EPS * (series.abs() + (x * y).abs()) + 1e-8 * d.res();
    with(c.close("locator (rad)", s, (dd(series) - crate::dd::two_prod(x, y) * 0.5).f(), tol), ds)?;
    let s2 = locator::cio(tt, y, x);
    with(c.close("symmetric in the pole coordinates", s2, s, 4.0 * EPS * (x * y).abs()), ds)?;
    let s3 = locator::cio(tt, 2.0 * x, 0.5 * y);
    with(c.close("depends on the product only", s3, s, 4.0 * EPS * (x * y).abs()), ds)?;
    let s0 = locator::cio(tt, 0.0, y);
    with(c.close("series alone when a coordinate is zero", s0, series, tol), ds)?;
    c.class_if(x == 0.0 && y == 0.0, "pole at the origin");
    c.class_if(x * y < 0.0, "negative product");
    Ok(())
}
pub fn c21() -> Prop {
    Prop {
        id: "C21",
        rule: "each case is one two-part date and one pole; distinct by bits",
        suites: vec![each("every day", c21_day, 4 * DAYS, 20 * DAYS), suite("locator", c21_case, 100_000, 3_000_000)],
        need: &["before 1900", "1900-2000", "2000-2100", "after 2100", "pole at the origin", "negative product"],
        assumptions: &["the reference coefficients are the SOFA s00 ones, frozen and cross-checked against SOFA test values"],
    }
}

// ---------------------------------------------------------------- C22
fn c22_xys(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let (x, y) = match r.below(6) {
        0 => (0.0, 0.0),
        1 => (r.sign() * r.logu(1e-12, 1e-2), r.sign() * r.logu(1e-12, 1e-2)),
        2 => (r.range(-1e-3, 1e-3), r.range(-1e-3, 1e-3)),
        3 => (r.range(-0.99, 0.99), 0.0),
        4 => (0.0, r.range(-0.99, 0.99)),
        _ => {
            // also close to the edge of the disc
            let q = if r.chance(0.2) { 1.0 - r.logu(1e-9, 1e-2) } else { r.range(0.0, 0.99) };
            let a = r.range(-PI, PI);
            (q * a.cos(), q * a.sin())
        }
    };
    // equal or opposite coordinates
    let (x, y) = match r.below(20) {
        0 => (x / 1.5, x / 1.5),
        1 => (x / 1.5, -x / 1.5),
        _ => (x, y),
    };
    let s = match r.below(4) {
        0 => 0.0,
        1 => r.range(-1e-6, 1e-6),
        2 => r.sign() * r.logu(1e-15, 1.0),
        _ => r.range(-7.0, 7.0),
    };
    c.keyf(&[x, y, s]);
    let m = frames::celestial_to_intermediate_from_xys(x, y, s);
    c.desc(|| format!("x={x:?} y={y:?} s={s:?}: {m:?}"));
    let ds = || format!("x={x:?} y={y:?} s={s:?}");
    c.class_if(x == 0.0 && y == 0.0, "pole at the origin");
    c.class_if(x < 0.0 && y < 0.0, "third-quadrant pole");
    c.class_if(x.hypot(y) > 0.5, "far pole");
    let z2 = ((dd(1.0) - dd(x) * x) - dd(y) * y).f();
    let tol = 4e-15 / z2.sqrt();
    c.class_if(z2 < 1e-3, "pole near the equator");
    with(c.close("orthonormal, determinant +1", ortho(&m), 0.0, 5e-15), ds)?;
    with(c.close("third row X", m[2][0], x, tol), ds)?;
    with(c.close("third row Y", m[2][1], y, tol), ds)?;
    with(c.close("third row Z", m[2][2], z2.sqrt(), tol), ds)?;
    with(c.close("turned by the locator", maxdiff(&m, &astro::c2i_xys(x, y, s)), 0.0, tol), ds)?;
    let m0 = frames::celestial_to_intermediate_from_xys(x, y, 0.0);
    with(c.close("locator is a turn about the pole", maxdiff(&m, &mul(&rz(-s), &m0)), 0.0, 6e-15), ds)
}
fn c22_date(c: &mut Ctx) -> R {
    let (d, tt, t) = tt10(c);
    let ds = || format!("{d:?}");
    let m = frames::celestial_to_intermediate(tt);
    c.desc(|| format!("{d:?}: {m:?}"));
    let slack = 1e-4 * d.res();
    with(c.close("reference", maxdiff(&m, &astro::c2i(t)), 0.0, 5e-15 + slack), ds)?;
    with(c.close("orthonormal, determinant +1", ortho(&m), 0.0, 4e-15), ds)?;
    let b = frames::precession_nutation(tt);
    let (x, y) = frames::xy_from_bpn(&b);
    let m1 = frames::celestial_to_intermediate_with_bpn(tt, &b);
    let m2 = frames::celestial_to_intermediate_with_bpn_and_xy(tt, x, y);
    let m3 = frames::celestial_to_intermediate_from_xys(x, y, locator::cio(tt, x, y));
    with(c.close("from the precession-nutation matrix", maxdiff(&m, &m1), 0.0, 1e-15), ds)?;
    with(c.close("from X and Y", maxdiff(&m, &m2), 0.0, 1e-15), ds)?;
    with(c.close("from X, Y and s", maxdiff(&m, &m3), 0.0, 1e-15), ds)?;
    with(c.close("carries the pole", (m[2][0] - x).abs().max((m[2][1] - y).abs()), 0.0, 1e-15), ds)?;
    // a pole of its own
    let (x, y) = (c.rng.range(-0.3, 0.3), c.rng.range(-0.3, 0.3));
    let m = frames::celestial_to_intermediate_with_bpn_and_xy(tt, x, y);
    let s = (dd(astro::s_series(t)) - crate::dd::two_prod(x, y) * 0.5).f();
    with(c.close("any pole on a date", maxdiff(&m, &astro::c2i_xys(x, y, s)), 0.0, 3e-15), ds)?;
    // and any matrix whose third row is that pole
    let q = mul(&rx(y), &astro::c2i_xys(x, 0.0, 0.0));
    let mq = frames::celestial_to_intermediate_with_bpn(tt, &q);
    let s = (dd(astro::s_series(t)) - crate::dd::two_prod(q[2][0], q[2][1]) * 0.5).f();
    with(c.close("any matrix on a date", maxdiff(&mq, &astro::c2i_xys(q[2][0], q[2][1], s)), 0.0, 3e-15), ds)
}
pub fn c22() -> Prop {
    Prop {
        id: "C22",
        rule: "each case is one pole and locator, or one date; distinct by bits",
        suites: vec![
            suite("pole and locator", c22_xys, 500_000, 20_000_000),
            each("every day", c22_day, DAYS, 20 * DAYS),
            suite("dates", c22_date, 40_000, 1_000_000),
        ],
        need: &["before 1900", "1900-2000", "2000-2100", "after 2100", "pole at the origin", "third-quadrant pole", "far pole", "pole near the equator"],
        assumptions: &["poles up to 0.99 from the axis"],
    }
}

// ---------------------------------------------------------------- C23
pub fn era_tol(d: &Date2) -> f64 {
    let days = d.days().f().abs();
    let a = d.d1.abs().max(d.d2.abs());
    // the daily fraction is exact; the slow 0.0027 turn per day part carries the rounding
    let part = 2.0 * PI * 0.00274 * EPS * (a + days + DJ00);
    2e-15 + part.min(2e-11) + 2.0 * PI * EPS * (4.0 + 2.0 * 0.00274 * days)
}
fn era_case(c: &mut Ctx, d: &Date2) -> R {
    let e = earth::rotation_angle(UT1(d.t()));
    let w = astro::era(d.days());
    c.desc(|| format!("{d:?}: era={e:?}"));
    c.check("in [0,2pi)", e >= 0.0 && e < 2.0 * PI, || format!("{d:?}: {e:?}"))?;
    let diff = (dd(e) - w).rem_near(PI2).f();
    with(c.close("rotation angle (rad)", diff, 0.0, era_tol(d)), || format!("{d:?}: {e:?} vs {:?}", w.f()))?;
    let o = earth::rotation_angle(UT1((d.d2, d.d1)));
    let diff = (dd(o) - e).rem_near(PI2).f();
    with(c.close("order of the parts", diff, 0.0, 1e-15 + 2.0 * era_tol(d)), || format!("{d:?}: {e:?} vs {o:?}"))
}
fn c23_any(c: &mut Ctx) -> R {
    let span = if c.rng.bool() { SPAN_100CY } else { SPAN_10CY };
    let d = match c.day {
        Some(day) => date_of_day(&mut c.rng, day),
        None => date2(&mut c.rng, span),
    };
    let d = nudge(&mut c.rng, d);
    c.keyf(&[d.d1, d.d2]);
    c.class(d.kind);
    c.class_if(d.days().f() < 0.0, "before J2000");
    c.class_if(d.days().f().abs() > 365250.0, "beyond ten centuries");
    era_case(c, &d)
}
/// Dates chosen so that the angle is next to zero
fn c23_zero(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let k = 1.00273781191135448;
    let n = r.int(-40000, 40000) as f64;
    let day = (n - 0.7790572732640) / k + r.sign() * r.logu(1e-17, 1e-6);
    let base = day.floor();
    let f = day - base;
    let d = match r.below(4) {
        0 => Date2 { d1: DJ00, d2: day, kind: "j2000" },
        1 => Date2 { d1: DJ00 + base, d2: f, kind: "date_fraction" },
        2 => Date2 { d1: f, d2: DJ00 + base, kind: "j2000_swapped" },
        _ => Date2 { d1: 2400000.5, d2: day + 51544.5, kind: "mjd" },
    };
    c.keyf(&[d.d1, d.d2]);
    c.class("next to a whole turn");
    era_case(c, &d)
}
fn c23_linear(c: &mut Ctx) -> R {
    // advancing UT1 by h advances the angle by the rate times h
    let r = &mut c.rng;
    let d0 = r.int(-36525, 36525) as f64;
    let f0 = r.f();
    let h = r.sign() * r.logu(1e-8, 30.0);
    c.keyf(&[d0, f0, h]);
    let a = earth::rotation_angle(UT1((DJ00 + d0, f0)));
    let b = earth::rotation_angle(UT1((DJ00 + d0, f0 + h)));
    let hh = (f0 + h) - f0;
    let w = dd(hh) * Dd { h: 1.00273781191135448, l: -1.0e-16 } * PI2;
    let e = (dd(b) - a - w).rem_near(PI2).f();
    c.desc(|| format!("UT1 {d0:?}+{f0:?} step {h:?}"));
    c.class("linear step");
    c.close("angle advances linearly (rad)", e, 0.0, 2e-12)
}
pub fn c23() -> Prop {
    Prop {
        id: "C23",
        rule: "each case is one two-part date (both orders) or one step; distinct by bits",
        suites: vec![
            each("every day", c23_day, 10 * DAYS, 20 * DAYS),
            suite("dates and splits", c23_any, 2_000_000, 60_000_000),
            suite("next to a whole turn", c23_zero, 500_000, 10_000_000),
            suite("linear steps", c23_linear, 500_000, 10_000_000),
        ],
        need: &[
            "before J2000", "beyond ten centuries", "next to a whole turn", "linear step", "jd_whole", "j2000", "mjd", "date_fraction",
            "jd_second_part", "uneven", "negative_part", "halves", "large_opposite",
        ],
        assumptions: &[],
    }
}

// ---------------------------------------------------------------- C24
fn c24_case(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let mut a = || match r.below(5) {
        0 => 0.0,
        1 => r.range(-5e-6, 5e-6),
        2 => r.sign() * r.logu(1e-15, 1.0),
        3 => r.range(-7.0, 7.0),
        _ => r.range(-1e-3, 1e-3),
    };
    let (x, y, s) = (a(), a(), a());
    // equal or opposite coordinates
    let (y, s) = match r.below(20) {
        0 => (x, s),
        1 => (-x, s),
        2 => (y, x),
        _ => (y, s),
    };
    c.keyf(&[x, y, s]);
    let m = earth::polar_motion_matrix(x, y, s);
    c.desc(|| format!("pom({x:?},{y:?},{s:?}) = {m:?}"));
    c.class(match (x > 0.0, y > 0.0, s > 0.0) {
        (true, true, true) => "+++",
        (false, false, false) => "---",
        _ => "mixed signs",
    });
    c.close("three rotations", maxdiff(&m, &astro::pom(x, y, s)), 0.0, 1e-15)?;
    // closed form of the outer entries
    let ((sx, cx), (sy, cy), (ss, cs)) = (x.sin_cos(), y.sin_cos(), s.sin_cos());
    let w: M = [
        [cx * cs, cx * ss, sx],
        [-cy * ss + sy * sx * cs, cy * cs + sy * sx * ss, -sy * cx],
        [-sy * ss - cy * sx * cs, sy * cs - cy * sx * ss, cy * cx],
    ];
    c.close("closed form", maxdiff(&m, &w), 0.0, 1e-15)?;
    c.close("orthonormal, determinant +1", ortho(&m), 0.0, 4e-15)?;
    if x == 0.0 && y == 0.0 && s == 0.0 {
        c.class("all zero");
        c.check("identity for zero", maxdiff(&m, &ID) == 0.0, || format!("{m:?}"))?;
    }
    Ok(())
}
pub fn c24() -> Prop {
    Prop {
        id: "C24",
        rule: "each case is one triple of angles; distinct by bits",
        suites: vec![suite("polar motion", c24_case, 1_000_000, 30_000_000)],
        need: &["+++", "---", "mixed signs", "all zero"],
        assumptions: &[],
    }
}

// ---------------------------------------------------------------- C25
fn pm(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => 0.0,
        1 => r.range(-4e-6, 4e-6),
        2 => r.sign() * r.logu(1e-12, 1e-3),
        _ => r.range(-0.5, 0.5),
    }
}
fn c25_date(c: &mut Ctx) -> R {
    let (d, tt, t) = tt10(c);
    let mut r = c.rng.clone();
    let u = if r.chance(0.7) {
        // realistic: UT1 a minute or so behind TT, in its own split
        let x = d.days().f() - r.range(-120.0, 7200.0) / 86400.0;
        let n = (x * 1048576.0) as i64;
        let k = r.below(12) as usize;
        let mut u = split_grid(&mut r, n, k);
        if r.bool() && k != 0 && k != 4 {
            u.d2 += r.range(-1e-6, 1e-6);
        }
        u
    } else {
        date2(&mut r, SPAN_10CY)
    };
    let (xp, yp) = (pm(&mut r), pm(&mut r));
    c.keyf(&[u.d1, u.d2, xp, yp]);
    let ut1 = UT1(u.t());
    let m = frames::celestial_to_terrestrial(tt, ut1, xp, yp);
    c.desc(|| format!("tt={d:?} ut1={u:?} xp={xp:?} yp={yp:?}: {m:?}"));
    let ds = || format!("tt={d:?} ut1={u:?} xp={xp:?} yp={yp:?}");
    let tol = 1e-14 + 1e-4 * d.res() + 2.0 * era_tol(&u);
    with(c.close("reference", maxdiff(&m, &astro::c2t(t, u.days(), xp, yp)), 0.0, tol), ds)?;
    with(c.close("orthonormal, determinant +1", ortho(&m), 0.0, 5e-15), ds)?;
    let rc2i = frames::celestial_to_intermediate(tt);
    let era = earth::rotation_angle(ut1);
    let w = mul(&astro::pom(xp, yp, 0.0), &mul(&rz(era), &rc2i));
    with(c.close("polar motion, spin, intermediate frame", maxdiff(&m, &w), 0.0, 3e-15), ds)?;
    // TT does not reach the spin, UT1 does not reach the intermediate frame
    let d2 = date2(&mut r, 36525.0);
    let m2 = frames::celestial_to_terrestrial(TT(d2.t()), ut1, xp, yp);
    let w = mul(&astro::pom(xp, yp, 0.0), &mul(&rz(era), &frames::celestial_to_intermediate(TT(d2.t()))));
    with(c.close("TT moves only the intermediate frame", maxdiff(&m2, &w), 0.0, 3e-15), ds)?;
    let m3 = frames::celestial_to_terrestrial(tt, UT1(d2.t()), xp, yp);
    let w = mul(&astro::pom(xp, yp, 0.0), &mul(&rz(earth::rotation_angle(UT1(d2.t()))), &rc2i));
    with(c.close("UT1 moves only the spin", maxdiff(&m3, &w), 0.0, 3e-15), ds)?;
    c.class_if(xp != 0.0 && yp != 0.0, "polar motion");
    c.class_if(xp == 0.0 && yp == 0.0, "no polar motion");
    Ok(())
}
fn c25_parts(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let mut m = || -> M {
        let mut a = [[0.0; 3]; 3];
        for row in a.iter_mut() {
            for x in row.iter_mut() {
                *x = r.range(-2.0, 2.0);
            }
        }
        if r.bool() {
            a = mul(&rx(a[0][0]), &mul(&rz(a[0][1]), &rx(a[0][2])));
        }
        a
    };
    let (a, b) = (m(), m());
    let era = c.rng.range(-10.0, 10.0);
    for q in [&a, &b] {
        for row in q.iter() {
            c.keyf(row);
        }
    }
    c.class("any component matrices");
    let g: Mat3 = frames::celestial_to_terrestrial_from_cio_components(&a, era, &b);
    c.desc(|| format!("rc2i={a:?} era={era:?} rpom={b:?}"));
    c.close("component form", maxdiff(&g, &mul(&b, &mul(&rz(era), &a))), 0.0, 3e-14)
}
pub fn c25() -> Prop {
    Prop {
        id: "C25",
        rule: "each case is one TT, UT1 and polar motion, or one pair of component matrices; distinct by bits",
        suites: vec![
            each("every day", c25_day, DAYS, 10 * DAYS),
            suite("dates", c25_date, 40_000, 1_000_000),
            suite("components", c25_parts, 200_000, 4_000_000),
        ],
        need: &["before 1900", "1900-2000", "2000-2100", "after 2100", "polar motion", "no polar motion", "any component matrices"],
        assumptions: &["the TIO locator s' is taken as zero, as the IAU 2000B routine does"],
    }
}
