//! Ellipsoid geometry.
use crate::dd::{dd, Dd};

/// Surface point of geodetic latitude/longitude plus height along the normal, in double-double.
/// The sine and cosine are those of the given double angles.
pub fn forward(a: f64, f: f64, elong: f64, phi: f64, h: f64) -> [f64; 3] {
    let (sp, cp) = dd(phi).sincos();
    let (sl, cl) = dd(elong).sincos();
    let w = (dd(1.0) - f) * (dd(1.0) - f);
    let d = dd(cp) * cp + w * sp * sp;
    let n = dd(a) / d.sqrt();
    let r: Dd = (n + h) * cp;
    [(r * cl).f(), (r * sl).f(), ((w * n + h) * sp).f()]
}

pub fn normal(elong: f64, phi: f64) -> [f64; 3] {
    let (sp, cp) = dd(phi).sincos();
    let (sl, cl) = dd(elong).sincos();
    [cp * cl, cp * sl, sp]
}

pub fn dist(a: [f64; 3], b: [f64; 3]) -> f64 {
    let d = [a[0] - b[0], a[1] - b[1], a[2] - b[2]];
    norm(d)
}
/// Norm, safe from over/underflow
pub fn norm(d: [f64; 3]) -> f64 {
    let m = d[0].abs().max(d[1].abs()).max(d[2].abs());
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    let s: f64 = d.iter().map(|x| (x / m) * (x / m)).sum();
    m * s.sqrt()
}
