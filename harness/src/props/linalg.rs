//! C14-C16 vectors, matrices, angles.
use crate::dd::{dd, two_prod, Dd, PI2};
use crate::fw::*;
use crate::fw::R;
use crate::gen::EPS;
use crate::refm::astro::{maxdiff, mul, mv, ortho, rx, ry, rz, tr, ID, M};
use crate::refm::geo;
use crate::rng::Rng;
use std::f64::consts::PI;
use tofas::common::*;

fn vec_any(r: &mut Rng) -> [f64; 3] {
    let s = match r.below(4) {
        0 => 1.0,
        1 => r.logu(1e-130, 1e145),
        2 => r.logu(1e-6, 1e9),
        _ => 1.0,
    };
    let v = match r.below(6) {
        0 => {
            let mut v = [0.0; 3];
            v[r.below(3) as usize] = s * r.sign();
            v
        }
        1 => [s * r.int(-3, 3) as f64, s * r.int(-3, 3) as f64, s * r.int(-3, 3) as f64],
        2 => [s * r.range(-1.0, 1.0), 0.0, s * r.range(-1.0, 1.0)],
        3 => [s * r.sign() * r.logu(1e-12, 1.0), s * r.range(-1.0, 1.0), s * r.sign() * r.logu(1e-12, 1.0)],
        _ => [s * r.range(-1.0, 1.0), s * r.range(-1.0, 1.0), s * r.range(-1.0, 1.0)],
    };
    // squares must not vanish
    v.map(|x| if x.abs() < 1e-145 { 0.0 } else { x })
}
fn ddot(a: [f64; 3], b: [f64; 3]) -> Dd {
    two_prod(a[0], b[0]) + two_prod(a[1], b[1]) + two_prod(a[2], b[2])
}
fn unit(a: [f64; 3]) -> [Dd; 3] {
    let m = a[0].abs().max(a[1].abs()).max(a[2].abs());
    let s = [a[0] / m, a[1] / m, a[2] / m];
    let n = ddot(s, s).sqrt();
    [dd(s[0]) / n, dd(s[1]) / n, dd(s[2]) / n]
}
/// True angle, well conditioned everywhere
fn angle_ref(a: [f64; 3], b: [f64; 3]) -> f64 {
    let (u, v) = (unit(a), unit(b));
    let (mut p, mut m) = (dd(0.0), dd(0.0));
    for k in 0..3 {
        let d = u[k] - v[k];
        let s = u[k] + v[k];
        p = p + d * d;
        m = m + s * s;
    }
    2.0 * p.sqrt().f().atan2(m.sqrt().f())
}

fn c14_ops(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let (a, b) = (vec_any(&mut r), vec_any(&mut r));
    let k = match r.below(4) {
        0 => 0.0,
        1 => -1.0,
        2 => r.sign() * r.logu(1e-50, 1e50),
        _ => r.range(-10.0, 10.0),
    };
    c.keyf(&a);
    c.keyf(&b);
    c.desc(|| format!("a={a:?} b={b:?} k={k:?}"));
    let (s, d, n, sc) = (a.add(b), a.sub(b), a.neg(), a.scale(k));
    for i in 0..3 {
        c.close("sum", s[i], a[i] + b[i], 2.0 * EPS * (a[i].abs() + b[i].abs()) + 1e-320)?;
        c.close("difference", d[i], a[i] - b[i], 2.0 * EPS * (a[i].abs() + b[i].abs()) + 1e-320)?;
        c.check("negation", n[i] == -a[i], || format!("{a:?} -> {n:?}"))?;
        c.close("scaling", sc[i], k * a[i], 2.0 * EPS * (k * a[i]).abs() + 1e-320)?;
    }
    let dot = ddot(a, b).f();
    let mag = (a[0] * b[0]).abs() + (a[1] * b[1]).abs() + (a[2] * b[2]).abs();
    c.close("dot product", a.dot(b), dot, 6.0 * EPS * mag + 1e-318)?;
    c.close("dot product is symmetric", b.dot(a), a.dot(b), 4.0 * EPS * mag + 1e-318)?;
    let nn = geo::norm(a);
    c.close("norm", a.norm(), nn, 8.0 * EPS * nn)?;
    if nn > 0.0 {
        let u = a.normalize();
        let w = unit(a);
        for i in 0..3 {
            c.close("unit vector", u[i], w[i].f(), 6.0 * EPS)?;
        }
        c.close("unit length", u.norm(), 1.0, 10.0 * EPS)?;
        c.class("normalised");
    } else {
        c.class("zero vector");
    }
    Ok(())
}
fn c14_angle(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let a = vec_any(&mut r);
    if geo::norm(a) == 0.0 {
        c.trivial();
        return Ok(());
    }
    let (b, kind) = match r.below(8) {
        0 => (a, "parallel"),
        1 => {
            let k = r.logu(1e-6, 1e6);
            ([k * a[0], k * a[1], k * a[2]], "parallel")
        }
        2 => ([-a[0], -a[1], -a[2]], "opposite"),
        3 => {
            let k = -r.logu(1e-6, 1e6);
            ([k * a[0], k * a[1], k * a[2]], "opposite")
        }
        4 | 5 => {
            // a small known turn away from parallel or opposite
            let n = geo::norm(a);
            let t = vec_any(&mut r);
            let tn = geo::norm(t).max(1e-300);
            let e = r.logu(1e-16, 1e-2);
            let s = r.sign();
            let mut v = [0.0; 3];
            for i in 0..3 {
                v[i] = s * a[i] / n + e * t[i] / tn;
            }
            (v, if s > 0.0 { "nearly parallel" } else { "nearly opposite" })
        }
        _ => (vec_any(&mut r), "general"),
    };
    if !(geo::norm(b) > 0.0) {
        c.trivial();
        return Ok(());
    }
    c.keyf(&a);
    c.keyf(&b);
    c.class(kind);
    let t = a.angle(b);
    let w = angle_ref(a, b);
    c.desc(|| format!("angle({a:?},{b:?}) = {t:?}, true {w:?}"));
    c.check("angle is a number in [0,pi]", t >= 0.0 && t <= PI, || format!("angle({a:?},{b:?}) = {t:?}"))?;
    // arccos of a cosine rounded by a few eps loses eps/sin(angle)
    let tol = (8.0 * EPS / w.sin().abs().max(1e-300)).min(1e-7).max(1e-15);
    c.close("angle", t, w, tol)?;
    if w > 1e-3 && w < PI - 1e-3 {
        c.close("angle away from 0 and pi", t, w, 1e-12)?;
        c.class("well-conditioned angle");
    }
    c.close("angle is symmetric", b.angle(a), t, 2.0 * tol)?;
    let k = r.logu(1e-6, 1e6);
    let a2 = [k * a[0], k * a[1], k * a[2]];
    if geo::norm(a2) > 0.0 {
        c.close("angle ignores positive scaling", a2.angle(b), t, 2.0 * tol)?;
    }
    match kind {
        "parallel" => c.close("parallel vectors", t, 0.0, 1e-7),
        "opposite" => c.close("opposite vectors", t, PI, 1e-7),
        _ => Ok(()),
    }
}
pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "each case is one pair of vectors (and a scalar); distinct by bits",
        suites: vec![suite("operations", c14_ops, 2_000_000, 40_000_000), suite("angles", c14_angle, 2_000_000, 40_000_000)],
        need: &["normalised", "zero vector", "parallel", "opposite", "nearly parallel", "nearly opposite", "general", "well-conditioned angle"],
        assumptions: &["components up to 1e145, lengths from 1e-130: squares neither overflow nor vanish"],
    }
}

// ---------------------------------------------------------------- C15
fn ang_any(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => *r.pick(&[0.0, PI, -PI, PI / 2.0, -PI / 2.0, 2.0 * PI]),
        1 => r.sign() * r.logu(1e-20, 1.0),
        2 => r.range(-100.0, 100.0),
        3 => { let top = if r.bool() { 1e6 } else { 1e12 }; r.sign() * r.logu(1.0, top) }
        _ => r.range(-7.0, 7.0),
    }
}
fn mat_any(r: &mut Rng) -> M {
    let mut m = [[0.0; 3]; 3];
    let k = r.below(4);
    let s = if k == 3 { r.logu(1e-20, 1e20) } else { 1.0 };
    for row in m.iter_mut() {
        for x in row.iter_mut() {
            *x = match k {
                0 => r.int(-4, 4) as f64,
                _ => s * r.range(-1.0, 1.0),
            };
        }
    }
    if k == 1 {
        m = mul(&rx(r.range(-7.0, 7.0)), &mul(&ry(r.range(-7.0, 7.0)), &rz(r.range(-7.0, 7.0))));
    }
    m
}
fn mnorm(m: &M) -> f64 {
    m.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()))
}
fn c15_alg(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let (a, b) = (mat_any(&mut r), mat_any(&mut r));
    let v = vec_any(&mut r);
    for x in [&a, &b] {
        for row in x.iter() {
            c.keyf(row);
        }
    }
    c.desc(|| format!("A={a:?} B={b:?} v={v:?}"));
    let (na, nb, nv) = (mnorm(&a), mnorm(&b), geo::norm(v));
    let p = a.compose(&b);
    c.close("composition", maxdiff(&p, &mul(&a, &b)), 0.0, 4.0 * EPS * 3.0 * na * nb + 1e-320)?;
    let t = a.transpose();
    c.check("transpose", t == tr(&a), || format!("{a:?} -> {t:?}"))?;
    c.check("identity", Mat3::identity() == ID, || "identity".into())?;
    c.check("zero", Mat3::zero() == [[0.0; 3]; 3], || "zero".into())?;
    c.check("identity is neutral on the left", Mat3::identity().compose(&a) == a, || format!("{a:?}"))?;
    c.check("identity is neutral on the right", a.compose(&Mat3::identity()) == a, || format!("{a:?}"))?;
    let w = mv(&tr(&a), &v);
    let u = a.apply(v);
    c.close("application", geo::dist(u, w), 0.0, 8.0 * EPS * 3.0 * na * nv + 1e-320)?;
    let x = p.apply(v);
    let y = b.apply(a.apply(v));
    c.close("applying a composition", geo::dist(x, y), 0.0, 30.0 * EPS * 9.0 * na * nb * nv + 1e-318)?;
    let z = tr(&p);
    c.close("transpose of a composition", maxdiff(&z, &b.transpose().compose(&a.transpose())), 0.0, 8.0 * EPS * 3.0 * na * nb + 1e-320)?;
    c.class("general matrices");
    Ok(())
}
fn c15_rot(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let ax = r.below(3) as usize;
    let (t1, t2) = (ang_any(&mut r), ang_any(&mut r));
    c.keyf(&[ax as f64, t1, t2]);
    let rf = |t: f64| match ax {
        0 => rx(t),
        1 => ry(t),
        _ => rz(t),
    };
    c.class(match ax {
        0 => "axis 0",
        1 => "axis 1",
        _ => "axis 2",
    });
    let a = Mat3::rotation(ax, t1);
    c.desc(|| format!("rotation({ax},{t1:?}) = {a:?}"));
    c.close("elementary rotation", maxdiff(&a, &rf(t1)), 0.0, 5e-16)?;
    c.close("orthonormal, determinant +1", ortho(&a), 0.0, 3e-15)?;
    let b = Mat3::rotation(ax, t2);
    let s = Mat3::rotation(ax, t1 + t2);
    c.close("additive", maxdiff(&a.compose(&b), &s), 0.0, 2e-15 + 2.0 * EPS * (t1.abs() + t2.abs()))?;
    c.close("inverse by transpose", maxdiff(&a.compose(&a.transpose()), &ID), 0.0, 1.5e-15)?;
    c.close("inverse by negative angle", maxdiff(&a.transpose(), &Mat3::rotation(ax, -t1)), 0.0, 1e-16)?;
    let v = vec_any(&mut r);
    let n = geo::norm(v);
    c.close("length preserved (relative)", if n > 0.0 { geo::norm(a.apply(v)) / n } else { 1.0 }, 1.0, 2e-15)?;
    c.check("axis component untouched", a.apply(v)[ax] == v[ax], || format!("{v:?}"))
}
pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "each case is one pair of matrices and a vector, or one rotation axis with two angles; distinct by bits",
        suites: vec![suite("matrix algebra", c15_alg, 1_000_000, 20_000_000), suite("rotations", c15_rot, 2_000_000, 40_000_000)],
        need: &["general matrices", "axis 0", "axis 1", "axis 2"],
        assumptions: &["apply() is fixed to the convention the code has (result[i] = sum M[k][i] v[k])"],
    }
}

// ---------------------------------------------------------------- C16
fn c16_case(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let a = match r.below(10) {
        0 => *r.pick(&[0.0, -0.0, 2.0 * PI, -2.0 * PI, PI, -PI, 4.0 * PI, -4.0 * PI, 5e-324, -5e-324]),
        1 => -r.logu(1e-320, 1e-10),
        2 => {
            let k = r.int(-1000, 1000) as f64 * (2.0 * PI);
            r.jitter(k, 3)
        }
        3 => r.range(0.0, 2.0 * PI),
        4 => r.sign() * r.logu(1e-300, 1e300),
        5 => r.sign() * r.logu(1.0, 1e9),
        6 => f64::from_bits(r.u64()),
        7 => r.jitter(2.0 * PI, 4),
        8 => r.range(-2.0 * PI, 0.0),
        _ => r.range(-50.0, 50.0),
    };
    if !a.is_finite() {
        c.trivial();
        return Ok(());
    }
    c.keyf(&[a]);
    let w = anp(a);
    c.desc(|| format!("anp({a:?}) = {w:?}"));
    c.class_if(a < 0.0 && a > -1e-10, "tiny negative angle");
    c.class_if(a.abs() > 1e6, "many turns");
    c.class_if(a < 0.0, "negative angle");
    c.class_if(a >= 0.0 && a < 2.0 * PI, "already in range");
    c.check("in [0,2pi)", w >= 0.0 && w < 2.0 * PI, || format!("anp({a:?}) = {w:?}"))?;
    let again = anp(w);
    c.check("normalising twice changes nothing", again == w, || format!("anp({a:?}) = {w:?}, again {again:?}"))?;
    if a >= 0.0 && a < 2.0 * PI {
        return c.check("already in range: unchanged", w == a, || format!("anp({a:?}) = {w:?}"));
    }
    // whole number of turns away, to within the rounding of the angle
    if a.abs() < 1e15 {
        let d = (dd(w) - a).rem_near(PI2).f();
        c.close("same angle", d, 0.0, 1e-15 * (1.0 + a.abs()))?;
        // and of the turn as the double it is: exact reduction
        let d = (dd(w) - a).rem_near(dd(2.0 * PI)).f();
        c.close("same angle modulo the double turn", d, 0.0, 1e-15 * (1.0 + a.abs()))?;
    }
    Ok(())
}
pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "each case is one angle; distinct by bits",
        suites: vec![suite("angles", c16_case, 4_000_000, 200_000_000)],
        need: &["tiny negative angle", "many turns", "negative angle", "already in range"],
        assumptions: &["beyond 1e15 rad only the range and idempotence are checked: the rounding of the angle exceeds a turn"],
    }
}
