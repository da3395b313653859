//! Proleptic Gregorian calendar and leap-second history.

pub fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 => {
            if leap(y) {
                29
            } else {
                28
            }
        }
        _ => 31,
    }
}
pub fn valid(y: i64, m: i64, d: i64) -> bool {
    (1..=12).contains(&m) && d >= 1 && d <= month_len(y, m)
}
/// Modified Julian Date of 0h (era arithmetic: 400-year cycles from 0000-03-01)
pub fn mjd(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    // days from 0000-03-01, MJD of which is -678881
    era * 146097 + doe - 678881
}
pub fn from_mjd(n: i64) -> (i64, i64, i64) {
    let z = n + 678881;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    (y, m, d)
}

/// UTC pre-1972: (first MJD, offset at reference s, reference MJD, rate s/day)
const DRIFT: &[(i64, f64, f64, f64)] = &[
    (36934, 1.417818, 37300.0, 0.001296),   // 1960-01-01
    (37300, 1.422818, 37300.0, 0.001296),   // 1961-01-01
    (37512, 1.372818, 37300.0, 0.001296),   // 1961-08-01
    (37665, 1.845858, 37665.0, 0.0011232),  // 1962-01-01
    (38334, 1.945858, 37665.0, 0.0011232),  // 1963-11-01
    (38395, 3.240130, 38761.0, 0.001296),   // 1964-01-01
    (38486, 3.340130, 38761.0, 0.001296),   // 1964-04-01
    (38639, 3.440130, 38761.0, 0.001296),   // 1964-09-01
    (38761, 3.540130, 38761.0, 0.001296),   // 1965-01-01
    (38820, 3.640130, 38761.0, 0.001296),   // 1965-03-01
    (38942, 3.740130, 38761.0, 0.001296),   // 1965-07-01
    (39004, 3.840130, 38761.0, 0.001296),   // 1965-09-01
    (39126, 4.313170, 39126.0, 0.002592),   // 1966-01-01
    (39887, 4.213170, 39126.0, 0.002592),   // 1968-02-01
];
/// MJDs at which the whole-second TAI-UTC becomes 10, 11, 12, ... (IERS Bulletin C / NTP epochs)
const STEPS: &[i64] = &[
    41317, 41499, 41683, 42048, 42413, 42778, 43144, 43509, 43874, 44239, 44786, 45151, 45516, 46247, 47161,
    47892, 48257, 48804, 49169, 49534, 50083, 50630, 51179, 53736, 54832, 56109, 57204, 57754,
];
/// TAI-UTC at MJD n plus fraction fd; None before 1960
pub fn tai_utc(n: i64, fd: f64) -> Option<f64> {
    if n >= STEPS[0] {
        let k = STEPS.iter().filter(|s| **s <= n).count();
        return Some(9.0 + k as f64);
    }
    let d = DRIFT.iter().filter(|d| d.0 <= n).last()?;
    Some(d.1 + ((n as f64 - d.2) + fd) * d.3)
}
pub fn step_days() -> Vec<i64> {
    DRIFT.iter().map(|d| d.0).chain(STEPS.iter().copied()).collect()
}

pub fn selftest() -> Result<(), String> {
    // Days counted one by one from -4800-01-01 against the closed forms
    let (mut y, mut m, mut d) = (-4801i64, 1i64, 1i64);
    let mut n = mjd(y, m, d);
    for _ in 0..3_000_000 {
        if mjd(y, m, d) != n || from_mjd(n) != (y, m, d) {
            return Err(format!("reference calendar {y}-{m}-{d} {n}"));
        }
        n += 1;
        d += 1;
        if d > month_len(y, m) {
            d = 1;
            m += 1;
            if m > 12 {
                m = 1;
                y += 1;
            }
        }
    }
    for (a, b) in [((2000, 1, 1), 51544), ((1858, 11, 17), 0), ((2017, 1, 1), 57754), ((1972, 1, 1), 41317), ((-4712, 1, 1), -2400001 + 38)] {
        if mjd(a.0, a.1, a.2) != b {
            return Err(format!("anchor {a:?} {}", mjd(a.0, a.1, a.2)));
        }
    }
    for s in step_days() {
        let (_, _, d) = from_mjd(s);
        if d != 1 {
            return Err(format!("step {s}"));
        }
    }
    Ok(())
}
