//! C07 TAI-UTC, C08 time scales.
use crate::dd::{dd, two_sum, Dd};
use crate::fw::*;
use crate::gen::*;
use crate::refm::cal;
use crate::rng::{ulp, Rng};
use tofas::calendar::GregorianDate;
use tofas::delta_at::{DeltaAt, DeltaAtError};
use tofas::time::*;

fn dat_case(c: &mut Ctx, y: i64, m: i64, d: i64, fd: f64) -> R {
    let Ok(g) = GregorianDate::new(y as i32, m as i32, d as i32) else {
        return fail("valid-date-rejected", format!("{y}-{m}-{d}"));
    };
    let o = g.delta_at(fd);
    c.desc(|| format!("{y}-{m}-{d} fd={fd:?} -> {o:?}"));
    c.event();
    if !(fd >= 0.0 && fd <= 1.0) {
        c.class("bad fraction");
        return c.check("bad fraction is rejected", matches!(o, Err(DeltaAtError::BadFract)), || format!("{y}-{m}-{d} fd={fd:?} -> {o:?}"));
    }
    let o = match o {
        Ok(o) => o,
        Err(e) => return fail("good fraction rejected", format!("{y}-{m}-{d} fd={fd:?}: {e}")),
    };
    let want = cal::tai_utc(cal::mjd(y, m, d), fd);
    match (o, want) {
        (None, None) => {
            c.class("before 1960");
            Ok(())
        }
        (Some(a), Some(w)) => {
            c.class_if(y < 1972, "drift era");
            c.class_if(y >= 1972 && y < 2017, "leap-second era");
            c.class_if(y >= 2017, "after the last step");
            c.close("TAI-UTC (s)", a, w, 1e-9).map_err(|mut f| {
                f.msg.push_str(&format!(" at {y}-{m}-{d} fd={fd:?}"));
                f
            })
        }
        (o, w) => fail("presence of a value", format!("{y}-{m}-{d}: {o:?}, expected {w:?}")),
    }
}
/// Every day of one month, at the start, the end and inside the day
fn c07_month(c: &mut Ctx) -> R {
    let (y, m) = (1955 + (c.idx / 12) as i64, 1 + (c.idx % 12) as i64);
    c.key(c.idx);
    for d in 1..=cal::month_len(y, m) {
        for fd in [0.0, 1.0, 0.5, 1.0 - 1e-16, 5e-324, c.rng.f()] {
            dat_case(c, y, m, d, fd)?;
        }
    }
    // the history changes only where the reference says
    c.class_if(cal::step_days().contains(&cal::mjd(y, m, 1)), "month with a step");
    Ok(())
}
fn c07_any(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let y = match r.below(6) {
        0 => r.int(-4799, 1959),
        1 => r.int(1958, 1973),
        2 => r.int(2016, 2100),
        3 => r.int(2100, i32::MAX as i64),
        4 => *r.pick(&[i32::MAX as i64, i32::MAX as i64 / 12 + 1, 178_956_971, 1_500_000, i32::MAX as i64 / 12]),
        _ => r.int(1960, 2030),
    };
    let m = r.int(1, 12);
    let d = r.int(1, cal::month_len(y, m));
    let fd = match r.below(4) {
        0 => r.wild(),
        1 => r.range(-1.0, 2.0),
        _ => r.f(),
    };
    c.keyf(&[y as f64, (m * 40 + d) as f64, fd]);
    c.class_if(y > 178_956_970, "year beyond 32-bit month count");
    c.class_if(fd.is_nan(), "NaN fraction");
    dat_case(c, y, m, d, fd)
}
/// Continuity of the drift: within one era the value moves by the stated rate
fn c07_walk(c: &mut Ctx) -> R {
    let n0 = c.rng.int(36934, 41316 - 40);
    c.key(n0 as u64);
    let mut last: Option<(f64, f64)> = None;
    for k in 0..40 {
        let (y, m, d) = cal::from_mjd(n0 + k);
        let g = GregorianDate { year: y as i32, month: m as i32, day: d as i32 };
        let (a, b) = match (g.delta_at(0.0), g.delta_at(1.0)) {
            (Ok(Some(a)), Ok(Some(b))) => (a, b),
            o => return fail("presence of a value", format!("{g:?} {o:?}")),
        };
        if let Some((_, pb)) = last {
            let step = cal::step_days().contains(&(n0 + k));
            c.event();
            if !step && (a - pb).abs() > 2e-9 {
                return fail("value continuous inside an era", format!("{g:?}: {pb:?} then {a:?}"));
            }
        }
        last = Some((a, b));
    }
    c.class("drift continuity");
    Ok(())
}
pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "each case is one month (all days, six fractions), one date and fraction, or 40 consecutive days; distinct by month or bits",
        suites: vec![
            exhaustive("every day 1955-2154", c07_month, 200 * 12, 200 * 12),
            suite("any date and fraction", c07_any, 2_000_000, 40_000_000),
            suite("drift walk", c07_walk, 4000, 40_000),
        ],
        need: &[
            "before 1960",
            "drift era",
            "leap-second era",
            "after the last step",
            "bad fraction",
            "NaN fraction",
            "month with a step",
            "year beyond 32-bit month count",
            "drift continuity",
        ],
        assumptions: &["the reference history is the IERS/SOFA table as published up to the 2017 step"],
    }
}

// ---------------------------------------------------------------- C08
fn offset(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => 0.0,
        8 => r.sign() * r.logu(1e-13, 1e-6),
        // days and weeks, as for the drift of distant epochs
        9 => r.sign() * r.logu(1e4, 1e7),
        1 => r.sign() * r.logu(1e-9, 1.0),
        2 => r.range(-100.0, 100.0),
        3 => *r.pick(&[32.184, -32.184, 37.0, 64.0, -37.0, 1.0, -1.0]),
        4 => r.sign() * r.logu(1.0, 1e5),
        5 => r.range(-2e-3, 2e-3),
        6 => -r.range(0.0, 70.0),
        _ => r.range(0.0, 70.0),
    }
}
/// Parts in either order; the tie and near-tie cases included
fn parts(r: &mut Rng) -> (f64, f64, &'static str) {
    match r.below(8) {
        0 => {
            let x = r.range(-10.0, 10.0);
            (x, x, "equal parts")
        }
        1 => {
            let x = r.range(0.0, 3e6);
            (x, r.jitter(x, 1), "nearly equal parts")
        }
        _ => {
            let d = date2(r, 400_000.0);
            (d.d1, d.d2, d.kind)
        }
    }
}
fn shift_tol(d1: f64, d2: f64, off_days: f64) -> f64 {
    // the numerically or absolutely smaller part takes the offset: allow its rounding
    let num = d1.min(d2);
    let mag = if d1.abs() < d2.abs() { d1 } else { d2 };
    1.5 * (ulp(num).max(ulp(num + off_days))).max(ulp(mag).max(ulp(mag + off_days))) + 1e-19
}
fn shifted(c: &mut Ctx, what: &'static str, from: (f64, f64), to: (f64, f64), off_s: Dd) -> R {
    let off = off_s / 86400.0;
    let e = (two_sum(to.0, to.1) - two_sum(from.0, from.1) - off).f();
    let tol = shift_tol(from.0, from.1, off.f()) + 4.0 * ulp(off.f());
    c.close(what, e, 0.0, tol).map_err(|mut f| {
        f.msg.push_str(&format!(" {from:?} -> {to:?} offset {} s", off_s.f()));
        f
    })
}
fn c08_case(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let (a, b, kind) = parts(&mut r);
    let o = offset(&mut r);
    c.keyf(&[a, b, o]);
    let swap = r.bool();
    let (a, b) = if swap { (b, a) } else { (a, b) };
    c.class(kind);
    c.class(if a > b { "larger part first" } else { "larger part second" });
    c.class(if o < 0.0 { "negative offset" } else { "offset of zero or more" });
    c.class_if(a.min(b).abs() < 1.0 && a.max(b) > 1e6, "precise date and fraction");
    let TAI(x) = TAI::from_utc_delta_at(UTC((a, b)), o);
    c.desc(|| format!("UTC({a:?},{b:?}) + {o:?} s -> TAI{x:?}"));
    shifted(c, "UTC to TAI (days)", (a, b), x, dd(o))?;
    let TT(x) = TT::from(TAI((a, b)));
    shifted(c, "TAI to TT (days)", (a, b), x, dd(32.184))?;
    let TDB(x) = TDB::from_tt(TT((a, b)), o);
    shifted(c, "TT to TDB (days)", (a, b), x, dd(o))?;
    let UT1(x) = UT1::from_tt(TT((a, b)), o);
    c.desc(|| format!("TT({a:?},{b:?}) dt={o:?} -> UT1{x:?}"));
    shifted(c, "TT to UT1 (days)", (a, b), x, dd(-o))?;
    let TT(y) = TT::from_ut1(UT1((a, b)), o);
    shifted(c, "UT1 to TT (days)", (a, b), y, dd(o))?;
    let TT(z) = TT::from_ut1(UT1(x), o);
    let e = (two_sum(z.0, z.1) - two_sum(a, b)).f();
    c.close("TT to UT1 to TT (days)", e, 0.0, 2.0 * shift_tol(a, b, o / 86400.0) + 2.0 * shift_tol(x.0, x.1, o / 86400.0))?;
    let UT1(w) = UT1::from_tt(TT(y), o);
    let e = (two_sum(w.0, w.1) - two_sum(a, b)).f();
    c.close("UT1 to TT to UT1 (days)", e, 0.0, 2.0 * shift_tol(a, b, o / 86400.0) + 2.0 * shift_tol(y.0, y.1, o / 86400.0))?;
    let s = two_sum(a, b).f();
    let tt = 2.0 * ulp(s);
    c.close("UTC total", UTC((a, b)).total(), s, tt)?;
    c.close("TAI total", TAI((a, b)).total(), s, tt)?;
    c.close("TT total", TT((a, b)).total(), s, tt)?;
    c.close("UT1 total", UT1((a, b)).total(), s, tt)
}
/// A chain UTC -> TAI -> TT -> (TDB, UT1) over successive instants keeps intervals
fn c08_chain(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let day = r.int(2430000, 2500000) as f64 + 0.5;
    let (dat, dt, dtr) = (r.int(10, 37) as f64, r.range(30.0, 80.0), r.range(-2e-3, 2e-3));
    c.keyf(&[day, dat, dt, dtr]);
    for k in 0..10 {
        let f = k as f64 / 10.0 + r.f() * 0.05;
        let first = r.bool();
        let p = if first { (day, f) } else { (f, day) };
        let tai = TAI::from_utc_delta_at(UTC(p), dat);
        let tt: TT = tai.into();
        let tdb = TDB::from_tt(tt, dtr);
        let ut1 = UT1::from_tt(tt, dt);
        let TDB(q) = tdb;
        let UT1(u) = ut1;
        let w = |s: Dd| two_sum(day, f) + s / 86400.0;
        c.close("chain to TDB (days)", (two_sum(q.0, q.1) - w(dd(dat) + 32.184 + dtr)).f(), 0.0, 2e-15)?;
        c.close("chain to UT1 (days)", (two_sum(u.0, u.1) - w(dd(dat) + 32.184 - dt)).f(), 0.0, 2e-15)?;
        c.class(if first { "chain, day first" } else { "chain, fraction first" });
        c.desc(|| format!("UTC{p:?} dat={dat} -> TDB{q:?} UT1{u:?}"));
    }
    Ok(())
}
pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "each case is one two-part time with one offset through all conversions, or ten instants through the whole chain; distinct by bits",
        suites: vec![suite("each conversion", c08_case, 2_000_000, 40_000_000), suite("chains", c08_chain, 200_000, 4_000_000)],
        need: &[
            "equal parts",
            "larger part first",
            "larger part second",
            "negative offset",
            "precise date and fraction",
            "chain, day first",
            "chain, fraction first",
        ],
        assumptions: &[],
    }
}
