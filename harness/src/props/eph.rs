//! C26-C28 Earth ephemeris, C29 independence of the split.
use crate::fw::*;
use crate::gen::*;
use crate::refm::epv;
use crate::rng::ulp;
use tofas::earth::*;
use tofas::frames;
use tofas::locator;
use tofas::time::{TDB, TT, UT1};
use crate::refm::astro::maxdiff;

fn with<T>(r: Result<T, Fail>, s: impl FnOnce() -> String) -> Result<T, Fail> {
    r.map_err(|mut f| {
        f.msg.push_str(" for ");
        f.msg.push_str(&s());
        f
    })
}
fn tdb(c: &mut Ctx, span: f64) -> Date2 {
    let d = match c.day {
        Some(day) => date_of_day(&mut c.rng, day),
        None => date2(&mut c.rng, span),
    };
    let d = nudge(&mut c.rng, d);
    c.keyf(&[d.d1, d.d2]);
    c.class(d.kind);
    let t = d.days().f();
    c.class(if t < -36525.0 {
        "before 1900"
    } else if t < 0.0 {
        "1900-2000"
    } else if t <= 36525.0 {
        "2000-2100"
    } else {
        "after 2100"
    });
    d
}
/// Mostly 1900-2100, some within 10 centuries, some within 100
fn tdb_any(c: &mut Ctx) -> Date2 {
    let span = match c.rng.below(20) {
        0..=12 => 36524.0,
        13..=16 => SPAN_10CY,
        _ => SPAN_100CY,
    };
    let d = tdb(c, span);
    c.class_if(d.days().f().abs() > SPAN_10CY, "beyond 10 centuries");
    d
}
/// Days of 1900-2100, all of them
const DAYS200: u64 = 73_048;
macro_rules! each_day {
    ($name:ident, $case:ident) => {
        fn $name(c: &mut Ctx) -> R {
            c.day = Some((c.idx % DAYS200) as i64 - DAYS200 as i64 / 2);
            $case(c)
        }
    };
}
each_day!(c26_day, c26_case);
each_day!(c27_day, c27_series);
each_day!(c29_day, c29_pair);
fn worst(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    (0..3).map(|k| (a[k] - b[k]).abs()).fold(0.0, |m, x| if x > m || x.is_nan() { x } else { m })
}
fn grow(d: &Date2) -> f64 {
    (d.days().f().abs() / 36525.0).max(1.0)
}

// ---------------------------------------------------------------- C26
fn c26_case(c: &mut Ctx) -> R {
    let d = tdb_any(c);
    let e = EarthPosVel::from(TDB(d.t()));
    let w = epv::earth(d.days());
    c.desc(|| format!("{d:?}: heliocentric {:?} barycentric {:?}", e.heliocentric.p, e.barycentric.p));
    let tol = 1e-12 * grow(&d) + 0.02 * d.res();
    with(c.close("heliocentric position (AU)", worst(&e.heliocentric.p, &w.ph), 0.0, tol), || format!("{d:?}"))?;
    with(c.close("barycentric position (AU)", worst(&e.barycentric.p, &w.pb), 0.0, tol), || format!("{d:?}"))
}
/// Physical bounds any Earth orbit obeys
fn c26_orbit(c: &mut Ctx) -> R {
    let d = tdb(c, 36524.0);
    let e = EarthPosVel::from(TDB(d.t()));
    let r = crate::refm::geo::norm(e.heliocentric.p);
    let s = crate::refm::geo::dist(e.heliocentric.p, e.barycentric.p);
    c.desc(|| format!("{d:?}: distance {r:?} AU, Sun from barycentre {s:?} AU"));
    c.class("orbit bounds");
    c.check("distance from the Sun", r > 0.983 && r < 1.0171, || format!("{d:?}: {r:?}"))?;
    c.check("Sun within 2.5 radii of the barycentre", s < 0.0117, || format!("{d:?}: {s:?}"))
}
pub fn c26() -> Prop {
    Prop {
        id: "C26",
        rule: "each case is one two-part date; distinct by bits",
        suites: vec![each("every day 1900-2100", c26_day, 6 * DAYS200, 10 * DAYS200), suite("series", c26_case, 12_000, 600_000), suite("orbit", c26_orbit, 20_000, 400_000)],
        need: &["before 1900", "1900-2000", "2000-2100", "after 2100", "beyond 10 centuries", "orbit bounds"],
        assumptions: &["the reference table is generated from the SOFA Fortran source epv00.for, phases evaluated in double-double"],
    }
}

// ---------------------------------------------------------------- C27
fn c27_series(c: &mut Ctx) -> R {
    let d = tdb_any(c);
    let e = EarthPosVel::from(TDB(d.t()));
    let w = epv::earth(d.days());
    c.desc(|| format!("{d:?}: heliocentric {:?} barycentric {:?} AU/day", e.heliocentric.v, e.barycentric.v));
    let tol = 1e-13 * grow(&d) + 3e-4 * d.res();
    with(c.close("heliocentric velocity (AU/day)", worst(&e.heliocentric.v, &w.vh), 0.0, tol), || format!("{d:?}"))?;
    with(c.close("barycentric velocity (AU/day)", worst(&e.barycentric.v, &w.vb), 0.0, tol), || format!("{d:?}"))
}
fn c27_fd(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let span = if r.bool() { 36524.0 } else { SPAN_10CY };
    let x = r.range(-span, span);
    let x = (x * 1024.0).round() / 1024.0;
    c.keyf(&[x]);
    let h = 0.03125; // exact in binary
    let at = |k: i32| EarthPosVel::from(TDB((DJ00, x + h * k as f64)));
    let e0 = at(0);
    let p: Vec<EarthPosVel> = [-3, -2, -1, 1, 2, 3].iter().map(|k| at(*k)).collect();
    c.desc(|| format!("J2000{x:+}: v={:?}", e0.heliocentric.v));
    c.class(if x.abs() > 36525.0 { "derivative outside 1900-2100" } else { "derivative inside 1900-2100" });
    // sixth-order central difference
    let d6 = |f: &dyn Fn(&EarthPosVel) -> f64| (-f(&p[0]) + 9.0 * f(&p[1]) - 45.0 * f(&p[2]) + 45.0 * f(&p[3]) - 9.0 * f(&p[4]) + f(&p[5])) / (60.0 * h);
    for k in 0..3 {
        let v = d6(&|e| e.heliocentric.p[k]);
        with(c.close("heliocentric derivative (AU/day)", e0.heliocentric.v[k], v, 1e-9), || format!("J2000{x:+} axis {k}"))?;
        let v = d6(&|e| e.barycentric.p[k]);
        with(c.close("barycentric derivative (AU/day)", e0.barycentric.v[k], v, 1e-9), || format!("J2000{x:+} axis {k}"))?;
    }
    Ok(())
}
pub fn c27() -> Prop {
    Prop {
        id: "C27",
        rule: "each case is one date; distinct by bits",
        suites: vec![each("every day 1900-2100", c27_day, DAYS200, 10 * DAYS200), suite("series", c27_series, 12_000, 600_000), suite("finite differences", c27_fd, 20_000, 400_000)],
        need: &["before 1900", "1900-2000", "2000-2100", "after 2100", "beyond 10 centuries", "derivative outside 1900-2100", "derivative inside 1900-2100"],
        assumptions: &[],
    }
}

// ---------------------------------------------------------------- C28
fn c28_case(c: &mut Ctx) -> R {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let edge = 36525.0;
    let d = match r.below(6) {
        0 | 1 => {
            // around the edge, in every split
            let q = 1048576.0;
            let n = (r.sign() * edge * q) as i64 + r.int(-200, 200) * if r.bool() { 1 } else { 1048576 };
            let k = r.below(12) as usize;
            split_grid(r, n, k)
        }
        2 => {
            let s = r.sign();
            let o = r.sign() * r.logu(1e-11, 1.0);
            if r.bool() {
                Date2 { d1: DJ00 + s * edge, d2: o, kind: "edge plus a little" }
            } else {
                Date2 { d1: DJ00, d2: s * edge + o, kind: "edge plus a little" }
            }
        }
        3 => {
            let x = r.sign() * r.logu(36525.0, 3e7);
            let k = r.below(10) as usize;
            // or as far away as one likes
            let far = r.sign() * r.logu(1e7, 1e100);
            match r.below(6) {
                0 => return c28_one(c, Date2 { d1: DJ00, d2: far, kind: "far away" }),
                1 => return c28_one(c, Date2 { d1: far, d2: DJ00, kind: "far away" }),
                _ => {}
            }
            split_grid(r, ((x.clamp(-1.6e7, 1.6e7)) * 1048576.0) as i64, k)
        }
        _ => date2(r, SPAN_10CY),
    };
    c28_one(c, d)
}
fn c28_one(c: &mut Ctx, d: Date2) -> R {
    let edge = 36525.0;
    c.keyf(&[d.d1, d.d2]);
    c.class(d.kind);
    let t = d.days();
    let out = (t.abs() - edge).f();
    let e = EarthPosVel::from(TDB(d.t()));
    c.desc(|| format!("{d:?}: {} days beyond, warning {:?}", out, e.warning));
    let fin = [e.heliocentric.p, e.heliocentric.v, e.barycentric.p, e.barycentric.v].iter().flatten().all(|x| x.is_finite());
    c.check("positions and velocities finite", fin, || format!("{d:?}: {e:?}"))?;
    // closer to the edge than the split resolves, either answer is right
    let res = d.res() + 4.0 * ulp(edge);
    c.event();
    if out > res {
        c.class("outside");
        c.class_if(out < 1.0, "just outside");
        return c.check("warning outside 1900-2100", matches!(e.warning, Some(EarthPosVelWarning::DateOutOfRange)), || format!("{d:?}"));
    }
    if out < -res {
        c.class("inside");
        c.class_if(out > -1.0, "just inside");
        return c.check("no warning inside 1900-2100", e.warning.is_none(), || format!("{d:?}"));
    }
    c.class("on the edge");
    Ok(())
}
pub fn c28() -> Prop {
    Prop {
        id: "C28",
        rule: "each case is one two-part date; distinct by bits",
        suites: vec![suite("dates", c28_case, 60_000, 1_500_000)],
        need: &["outside", "inside", "just outside", "just inside", "edge plus a little", "far away"],
        assumptions: &["exactly on the edge, or closer than the split resolves, either answer is accepted"],
    }
}

// ---------------------------------------------------------------- C29
fn c29_pair(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let span = if r.bool() { 36525.0 } else { SPAN_10CY };
    let n = match c.day {
        Some(day) => day * 1048576 + r.int(0, 1048575),
        None => (r.range(-span, span) * 1048576.0) as i64,
    };
    let n = if r.chance(0.3) { n / 524288 * 524288 } else { n };
    let (k1, k2) = (r.below(12) as usize, r.below(12) as usize);
    let a = split_grid(&mut r, n, k1);
    let b = split_grid(&mut r, n, k2);
    c.keyf(&[a.d1, a.d2, b.d1, b.d2]);
    c.class(a.kind);
    c.class(b.kind);
    c.desc(|| format!("{a:?} and {b:?}"));
    let same = (a.days() - b.days()).f();
    if same != 0.0 {
        return fail("harness", format!("splits differ: {a:?} {b:?}"));
    }
    c.class_if(k1 == k2, "same shape");
    let res = a.res() + b.res();
    let ds = || format!("{a:?} and {b:?}");
    let (ta, tb) = (TT(a.t()), TT(b.t()));
    let ((p, e), (p2, e2)) = (frames::nutation(ta), frames::nutation(tb));
    with(c.close("nutation in longitude", p, p2, 1e-15 + 1e-5 * res), ds)?;
    with(c.close("nutation in obliquity", e, e2, 1e-15 + 1e-5 * res), ds)?;
    with(c.close("mean obliquity", frames::mean_obliquity(ta), frames::mean_obliquity(tb), 1e-15 + 1e-8 * res), ds)?;
    let (r1, r2) = (frames::precession_rate(ta), frames::precession_rate(tb));
    with(c.close("precession rate", (r1.0 - r2.0).abs().max((r1.1 - r2.1).abs()), 0.0, 1e-19 + 1e-9 * res), ds)?;
    let (x, y) = (frames::bias_and_precession(ta), frames::bias_and_precession(tb));
    with(c.close("precession matrix", maxdiff(&x.1, &y.1), 0.0, 3e-15 + 1e-5 * res), ds)?;
    with(c.close("bias-precession matrix", maxdiff(&x.2, &y.2), 0.0, 3e-15 + 1e-5 * res), ds)?;
    with(c.close("precession-nutation matrix", maxdiff(&frames::precession_nutation(ta), &frames::precession_nutation(tb)), 0.0, 4e-15 + 1e-4 * res), ds)?;
    with(c.close("locator", locator::cio(ta, 1e-4, -2e-4), locator::cio(tb, 1e-4, -2e-4), 1e-17 + 1e-8 * res), ds)?;
    with(
        c.close("celestial-to-intermediate", maxdiff(&frames::celestial_to_intermediate(ta), &frames::celestial_to_intermediate(tb)), 0.0, 5e-15 + 1e-4 * res),
        ds,
    )?;
    // UT1 quantities
    let (ea, eb) = (rotation_angle(UT1(a.t())), rotation_angle(UT1(b.t())));
    let de = (ea - eb + std::f64::consts::PI).rem_euclid(2.0 * std::f64::consts::PI) - std::f64::consts::PI;
    let et = super::frames::era_tol(&a) + super::frames::era_tol(&b);
    with(c.close("rotation angle", de, 0.0, et + 2e-15), ds)?;
    let m = |t: TT, u: UT1| frames::celestial_to_terrestrial(t, u, 2e-6, -1e-6);
    with(
        c.close("celestial-to-terrestrial", maxdiff(&m(ta, UT1(b.t())), &m(tb, UT1(a.t()))), 0.0, 5e-15 + 1e-4 * res + 2.0 * et),
        ds,
    )?;
    // TDB quantities
    let (va, vb) = (EarthPosVel::from(TDB(a.t())), EarthPosVel::from(TDB(b.t())));
    let g = grow(&a);
    with(c.close("heliocentric position", worst(&va.heliocentric.p, &vb.heliocentric.p), 0.0, 1e-12 * g + 0.02 * res), ds)?;
    with(c.close("barycentric position", worst(&va.barycentric.p, &vb.barycentric.p), 0.0, 1e-12 * g + 0.02 * res), ds)?;
    with(c.close("heliocentric velocity", worst(&va.heliocentric.v, &vb.heliocentric.v), 0.0, 1e-13 * g + 4e-4 * res), ds)?;
    with(c.close("barycentric velocity", worst(&va.barycentric.v, &vb.barycentric.v), 0.0, 1e-13 * g + 4e-4 * res), ds)?;
    if ((a.days().abs() - 36525.0).f()).abs() > res {
        c.check("ephemeris warning", va.warning.is_some() == vb.warning.is_some(), || format!("{a:?} {b:?}"))?;
    }
    // calendar date of the instant
    use tofas::calendar::GregorianDate;
    if let (Ok((d1, f1)), Ok((d2, f2))) = (GregorianDate::from_julian(a.d1, a.d2), GregorianDate::from_julian(b.d1, b.d2)) {
        let n = |d: GregorianDate, f: f64| crate::refm::cal::mjd(d.year as i64, d.month as i64, d.day as i64) as f64 + f;
        let tol = super::cal::tol_parts(a.d1, a.d2) + super::cal::tol_parts(b.d1, b.d2);
        with(c.close("calendar date", n(d1, f1), n(d2, f2), tol + 1e-11), ds)?;
    } else {
        return fail("in-range Julian date rejected", format!("{a:?} {b:?}"));
    }
    Ok(())
}
/// Splits that hold far more than a whole Julian date can: a nanosecond must be seen
fn c29_fine(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let n = r.int(-36525, 36525) as f64;
    let h = r.range(1.0, 100.0) * 1e-9 / 86400.0 * 1000.0; // microseconds
    c.keyf(&[n, h]);
    c.class("fine step");
    let shapes: [(f64, f64, f64, f64, &'static str); 4] = [
        (DJ00, n, DJ00, n + h, "J2000"),
        (2400000.5, n + 51544.5, 2400000.5, n + 51544.5 + h, "MJD"),
        (DJ00 + n, 0.25, DJ00 + n, 0.25 + h, "date first"),
        (0.25, DJ00 + n, 0.25 + h, DJ00 + n, "fraction first"),
    ];
    for (a, b, p, q, name) in shapes {
        let real = ((p - a) + (q - b)) * 1.00273781191135448 * 2.0 * std::f64::consts::PI;
        let (e0, e1) = (rotation_angle(UT1((a, b))), rotation_angle(UT1((p, q))));
        let d = (e1 - e0 + 9.0).rem_euclid(2.0 * std::f64::consts::PI) - 9.0;
        let d = if d < -3.2 { d + 2.0 * std::f64::consts::PI } else { d };
        c.desc(|| format!("{name}: step {h:e} day moves the angle {d:e}"));
        with(c.close("a microsecond turns the Earth", d, real, 1e-12), || format!("{name} {a:?},{b:?} -> {p:?},{q:?}"))?;
        if name != "fraction first" {
            // ERA alone accepts any order precisely; the TT/TDB models refer the first part to J2000
            let (v0, v1) = (EarthPosVel::from(TDB((a, b))), EarthPosVel::from(TDB((p, q))));
            for k in 0..3 {
                let w = v0.heliocentric.v[k] * ((p - a) + (q - b));
                with(c.close("a microsecond moves the Earth", v1.heliocentric.p[k] - v0.heliocentric.p[k], w, 1.5e-12), || name.to_string())?;
            }
        }
    }
    Ok(())
}
pub fn c29() -> Prop {
    Prop {
        id: "C29",
        rule: "each case is one instant in two exact splits, all quantities compared, or one fine step in four splits; distinct by bits",
        suites: vec![each("every day 1900-2100", c29_day, DAYS200, 10 * DAYS200), suite("pairs of splits", c29_pair, 30_000, 800_000), suite("fine steps", c29_fine, 20_000, 400_000)],
        need: &KINDS,
        assumptions: &[
            "instants on a grid of 2^-20 day, which every split shape represents exactly",
            "resolution: the part of larger magnitude is first referred to J2000, then the other is added",
        ],
    }
}
