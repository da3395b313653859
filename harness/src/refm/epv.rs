//! Earth ephemeris series (SOFA epv00), evaluated with double-double phases.
use super::epv_tables::*;
use crate::dd::{dd, Dd};

pub struct Pv {
    pub ph: [f64; 3],
    pub vh: [f64; 3],
    pub pb: [f64; 3],
    pub vb: [f64; 3],
}

/// Position and rate (per Julian year) of sum over terms of a*t^n*cos(b+ct)
fn series(terms: Terms, n: i32, t: Dd) -> (Dd, Dd) {
    let tf = t.f();
    let (tn, tn1) = match n {
        0 => (1.0, 0.0),
        1 => (tf, 1.0),
        _ => (tf * tf, 2.0 * tf),
    };
    let mut p = dd(0.0);
    let mut v = dd(0.0);
    for &(a, b, c) in terms.iter().rev() {
        let (s, co) = (t * c + b).sincos();
        p = p + a * tn * co;
        v = v + a * (tn1 * co - tn * c * s);
    }
    (p, v)
}

fn rot(x: [f64; 3]) -> [f64; 3] {
    // Ecliptic J2000 to ICRF, SOFA's fixed orientation
    let m = [
        [1.0, 0.000000211284, -0.000000091603],
        [-0.000000230286, 0.917482137087, -0.397776982902],
        [0.0, 0.397776982902, 0.917482137087],
    ];
    let mut r = [0.0; 3];
    for i in 0..3 {
        r[i] = m[i][0] * x[0] + m[i][1] * x[1] + m[i][2] * x[2];
    }
    r
}

/// days: TDB days from J2000
pub fn earth(days: Dd) -> Pv {
    let t = days / 365.25;
    let e: [[Terms; 3]; 3] = [[E0_X, E0_Y, E0_Z], [E1_X, E1_Y, E1_Z], [E2_X, E2_Y, E2_Z]];
    let s: [[Terms; 3]; 3] = [[S0_X, S0_Y, S0_Z], [S1_X, S1_Y, S1_Z], [S2_X, S2_Y, S2_Z]];
    let mut r = [[0.0; 3]; 4];
    for k in 0..3 {
        let (mut p, mut v) = (dd(0.0), dd(0.0));
        for n in (0..3).rev() {
            let (a, b) = series(e[n][k], n as i32, t);
            p = p + a;
            v = v + b;
        }
        let (mut q, mut w) = (dd(0.0), dd(0.0));
        for n in (0..3).rev() {
            let (a, b) = series(s[n][k], n as i32, t);
            q = q + a;
            w = w + b;
        }
        r[0][k] = p.f();
        r[1][k] = v.f() / 365.25;
        r[2][k] = (p + q).f();
        r[3][k] = (v + w).f() / 365.25;
    }
    Pv { ph: rot(r[0]), vh: rot(r[1]), pb: rot(r[2]), vb: rot(r[3]) }
}
