//! IAU 2000 fundamental arguments, nutation, precession, locator, rotation (reference).
use super::tables::*;
use crate::dd::{dd, poly, Dd, PI1, PI2};

pub type M = [[f64; 3]; 3];

/// Arcseconds to radians
pub fn as2r() -> Dd {
    PI1 / 648000.0
}
pub const AS: f64 = 4.848136811095359935899141e-6;

const FA: [[f64; 5]; 5] = [
    [485868.249036, 1717915923.2178, 31.8792, 0.051635, -0.00024470],
    [1287104.793048, 129596581.0481, -0.5532, 0.000136, -0.00001149],
    [335779.526232, 1739527262.8478, -12.7512, -0.001037, 0.00000417],
    [1072260.703692, 1602961601.2090, -6.3706, 0.006593, -0.00003169],
    [450160.398036, -6962890.5431, 7.4722, 0.007702, -0.00005939],
];

/// Lunisolar argument k (l, l', F, D, Om) in arcseconds, unreduced
pub fn arg_as(k: usize, t: Dd) -> Dd {
    poly(t, &FA[k])
}
/// Unreduced argument in radians: k = 0..4 lunisolar, 5 Venus, 6 Earth, 7 precession
pub fn arg(k: usize, t: Dd) -> Dd {
    match k {
        0..=4 => arg_as(k, t) * as2r(),
        5 => poly(t, &[3.176146697, 1021.3285546211]),
        6 => poly(t, &[1.753470314, 628.3075849991]),
        _ => poly(t, &[0.0, 0.024381750, 0.00000538691]),
    }
}

/// IAU 2000B nutation (dpsi, deps)
pub fn nutation(t: Dd) -> (f64, f64) {
    let c: [[f64; 2]; 5] = [
        [485868.249036, 1717915923.2178],
        [1287104.79305, 129596581.0481],
        [335779.526232, 1739527262.8478],
        [1072260.70369, 1602961601.2090],
        [450160.398036, -6962890.5431],
    ];
    // arguments in turns, exact reduction
    let a: Vec<Dd> = c.iter().map(|c| (poly(t, c)).rem_near(dd(1296000.0)) * as2r()).collect();
    let tf = t.f();
    let (mut dp, mut de) = (dd(0.0), dd(0.0));
    for (n, c) in NUT.iter() {
        let mut p = dd(0.0);
        for j in 0..5 {
            p = p + a[j] * n[j] as f64;
        }
        let (s, co) = p.sincos();
        dp = dp + ((c[0] + c[1] * tf) * s + c[2] * co);
        de = de + ((c[3] + c[4] * tf) * co + c[5] * s);
    }
    let u = as2r() / 1e7;
    ((dp * u).f() - 0.135e-3 * AS, (de * u).f() + 0.388e-3 * AS)
}

pub fn obliquity80(t: Dd) -> f64 {
    (poly(t, &[84381.448, -46.8150, -0.00059, 0.001813]) * as2r()).f()
}
pub fn rates(t: Dd) -> (f64, f64) {
    let t = t.f();
    (-0.29965 * AS * t, -0.02524 * AS * t)
}
pub const BIAS: (f64, f64, f64) = (-0.041775 * AS, -0.0068192 * AS, -0.0146 * AS);

pub fn rx(a: f64) -> M {
    let (s, c) = a.sin_cos();
    [[1.0, 0.0, 0.0], [0.0, c, s], [0.0, -s, c]]
}
pub fn ry(a: f64) -> M {
    let (s, c) = a.sin_cos();
    [[c, 0.0, -s], [0.0, 1.0, 0.0], [s, 0.0, c]]
}
pub fn rz(a: f64) -> M {
    let (s, c) = a.sin_cos();
    [[c, s, 0.0], [-s, c, 0.0], [0.0, 0.0, 1.0]]
}
pub fn mul(a: &M, b: &M) -> M {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = (dd(a[i][0]) * b[0][j] + dd(a[i][1]) * b[1][j] + dd(a[i][2]) * b[2][j]).f();
        }
    }
    r
}
pub fn tr(a: &M) -> M {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[j][i];
        }
    }
    r
}
pub fn mv(a: &M, v: &[f64; 3]) -> [f64; 3] {
    let mut r = [0.0; 3];
    for i in 0..3 {
        r[i] = (dd(a[i][0]) * v[0] + dd(a[i][1]) * v[1] + dd(a[i][2]) * v[2]).f();
    }
    r
}
pub fn det(m: &M) -> f64 {
    m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
}
pub fn maxdiff(a: &M, b: &M) -> f64 {
    let mut e = 0.0f64;
    for i in 0..3 {
        for j in 0..3 {
            let d = (a[i][j] - b[i][j]).abs();
            if !(d <= e) {
                e = d;
            }
        }
    }
    e
}
pub const ID: M = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
/// Largest departure from orthonormality, and of the determinant from +1
pub fn ortho(m: &M) -> f64 {
    let mut e = (det(m) - 1.0).abs();
    for i in 0..3 {
        for j in 0..3 {
            let mut s = dd(0.0);
            for k in 0..3 {
                s = s + crate::dd::two_prod(m[i][k], m[j][k]);
            }
            let d = (s.f() - ID[i][j]).abs();
            if !(d <= e) {
                e = d;
            }
        }
    }
    e
}

pub fn bias() -> M {
    let (dpsibi, depsbi, dra0) = BIAS;
    let eps0 = 84381.448 * AS;
    mul(&rx(-depsbi), &mul(&ry(dpsibi * eps0.sin()), &rz(dra0)))
}
pub fn precession(t: Dd) -> M {
    let eps0 = 84381.448 * AS;
    let (dpsipr, depspr) = rates(t);
    let psia = (poly(t, &[0.0, 5038.7784, -1.07259, -0.001147]) * as2r()).f() + dpsipr;
    let oma = (poly(t, &[84381.448, 0.0, 0.05127, -0.007726]) * as2r()).f() + depspr;
    let chia = (poly(t, &[0.0, 10.5526, -2.38064, -0.001125]) * as2r()).f();
    mul(&rz(chia), &mul(&rx(-oma), &mul(&rz(-psia), &rx(eps0))))
}
pub fn nutmat(epsa: f64, dpsi: f64, deps: f64) -> M {
    // closed form of Rx(-(eps+deps)) Rz(-dpsi) Rx(eps)
    let (se, ce) = epsa.sin_cos();
    let (st, ct) = (epsa + deps).sin_cos();
    let (sp, cp) = dpsi.sin_cos();
    [
        [cp, -sp * ce, -sp * se],
        [sp * ct, cp * ce * ct + se * st, cp * se * ct - ce * st],
        [sp * st, cp * ce * st - se * ct, cp * se * st + ce * ct],
    ]
}
pub fn bpn_with(t: Dd, dpsi: f64, deps: f64) -> M {
    let epsa = obliquity80(t) + rates(t).1;
    mul(&nutmat(epsa, dpsi, deps), &mul(&precession(t), &bias()))
}
pub fn bpn(t: Dd) -> M {
    let (dpsi, deps) = nutation(t);
    bpn_with(t, dpsi, deps)
}

/// CIO locator series: s + XY/2 (rad)
pub fn s_series(t: Dd) -> f64 {
    let a: Vec<Dd> = (0..8).map(|k| arg(k, t).rem_near(PI2)).collect();
    let sp = [94e-6, 3808.35e-6, -119.94e-6, -72574.09e-6, 27.70e-6, 15.61e-6];
    let tabs: [&[([i32; 8], f64, f64)]; 5] = [S0, S1, S2, S3, S4];
    let mut r = dd(0.0);
    for k in (0..6).rev() {
        let mut w = dd(sp[k]);
        if k < 5 {
            for (n, s, c) in tabs[k] {
                let mut p = dd(0.0);
                for j in 0..8 {
                    p = p + a[j] * n[j] as f64;
                }
                let (si, co) = p.sincos();
                w = w + (s * si + c * co);
            }
        }
        r = r * t + w;
    }
    (r * as2r()).f()
}

/// Celestial-to-intermediate matrix for pole (x,y) and locator s, closed form (IERS Conventions 5.10)
pub fn c2i_xys(x: f64, y: f64, s: f64) -> M {
    let z = ((dd(1.0) - dd(x) * x) - dd(y) * y).sqrt();
    let a = dd(1.0) / (z + 1.0);
    let q = [
        [(dd(1.0) - a * x * x).f(), (-(a * x * y)).f(), -x],
        [(-(a * x * y)).f(), (dd(1.0) - a * y * y).f(), -y],
        [x, y, z.f()],
    ];
    mul(&rz(-s), &q)
}
pub fn c2i(t: Dd) -> M {
    let m = bpn(t);
    let (x, y) = (m[2][0], m[2][1]);
    let s = (dd(s_series(t)) - dd(x) * y * 0.5).f();
    c2i_xys(x, y, s)
}

/// Earth rotation angle, in [0,2pi)
pub fn era(days: Dd) -> Dd {
    // decimal constants with their second halves
    let turns = days + days * Dd { h: 0.00273781191135448, l: 1.19696e-19 } + Dd { h: 0.7790572732640, l: 1.6885e-17 };
    let f = turns - turns.floor();
    f * PI2
}

pub fn pom(xp: f64, yp: f64, sp: f64) -> M {
    mul(&rx(-yp), &mul(&ry(-xp), &rz(sp)))
}
pub fn c2t(tt: Dd, ut1: Dd, xp: f64, yp: f64) -> M {
    mul(&pom(xp, yp, 0.0), &mul(&rz(era(ut1).f()), &c2i(tt)))
}

/// Low-precision Sun (Meeus ch. 25): geometric apparent-free (no aberration) right ascension and
/// declination, mean equinox of date, rad. days: TT from J2000.
pub fn sun_radec(days: f64) -> (f64, f64) {
    let t = days / 36525.0;
    let l0 = 280.46646 + 36000.76983 * t + 0.0003032 * t * t;
    let m = (357.52911 + 35999.05029 * t - 0.0001537 * t * t).to_radians();
    let c = (1.914602 - 0.004817 * t - 0.000014 * t * t) * m.sin()
        + (0.019993 - 0.000101 * t) * (2.0 * m).sin()
        + 0.000289 * (3.0 * m).sin();
    let lam = (l0 + c).to_radians();
    let eps = (23.439291111 - 0.0130042 * t).to_radians();
    ((eps.cos() * lam.sin()).atan2(lam.cos()), (eps.sin() * lam.sin()).asin())
}
/// Greenwich mean sidereal time (Meeus ch. 12), rad. days: UT from J2000
pub fn gmst(days: f64) -> f64 {
    let t = days / 36525.0;
    (280.46061837 + 360.98564736629 * days + 0.000387933 * t * t).to_radians()
}
