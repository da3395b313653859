//! C10-C13 ellipsoid and geodetic coordinates.
use crate::dd::{dd, Dd};
use crate::fw::*;
use crate::gen::EPS;
use crate::refm::geo;
use crate::rng::Rng;
use std::f64::consts::{FRAC_PI_2, PI};
use tofas::ellipsoid::{Ellipsoid, EllipsoidConverter, EllipsoidError, Geodetic, Geodetic360};

/// As published, not as the library has it
const WGS84: Ellipsoid = Ellipsoid { a: 6378137.0, f: 1.0 / 298.257223563 };

fn ell_any(r: &mut Rng) -> Ellipsoid {
    match r.below(6) {
        0 => WGS84,
        1 => Ellipsoid { a: 6378136.0, f: 1.0 / 298.257 },
        2 => Ellipsoid { a: r.logu(1e-3, 1e9), f: 0.0 },
        3 => Ellipsoid { a: r.logu(1e-3, 1e9), f: r.logu(1e-12, 0.5) },
        4 => Ellipsoid { a: r.logu(1e5, 1e8), f: r.range(0.0, 0.2) },
        _ => Ellipsoid { a: r.logu(1.0, 1e8), f: r.range(0.0, 0.99) },
    }
}

// ---------------------------------------------------------------- C10
fn c10_case(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let a = match r.below(6) {
        0 => r.wild(),
        1 => *r.pick(&[0.0, -0.0, f64::NAN, f64::NEG_INFINITY, -1.0, 5e-324, -5e-324]),
        2 => -r.logu(1e-300, 1e300),
        _ => r.logu(1e-300, 1e300),
    };
    let f = match r.below(7) {
        0 => r.wild(),
        1 => *r.pick(&[0.0, -0.0, 1.0, f64::NAN, f64::INFINITY, -1.0, 2.0, 0.5, 5e-324, -5e-324]),
        2 => 1.0 + r.sign() * r.logu(1e-16, 1.0),
        3 => -r.logu(1e-320, 1e3),
        4 => 1.0 - r.logu(1e-6, 1.0),
        _ => r.f(),
    };
    c.keyf(&[a, f]);
    let e = Ellipsoid { a, f };
    let o = EllipsoidConverter::new(&e);
    let (aok, fok) = (a > 0.0, f >= 0.0 && f < 1.0);
    c.desc(|| format!("new({e:?}) -> {}", match &o { Ok(_) => "ok".to_string(), Err(e) => e.to_string() }));
    c.class_if(!aok, "bad radius");
    c.class_if(!fok, "bad flattening");
    c.class_if(!aok && !fok, "both bad");
    c.class_if(a.is_nan() || f.is_nan(), "NaN parameter");
    c.class_if(aok && fok, "good ellipsoid");
    c.event();
    match o {
        Ok(cv) => {
            if !(aok && fok) {
                return fail("meaningless ellipsoid accepted", format!("{e:?}"));
            }
            let q = cv.ellipsoid();
            c.check("ellipsoid kept", q.a.to_bits() == a.to_bits() && q.f.to_bits() == f.to_bits(), || format!("{e:?} -> {q:?}"))
        }
        Err(k) => {
            if aok && fok {
                // only a flattening so close to 1 that the polar radius vanishes may be refused
                return c.check("good ellipsoid rejected", f > 1.0 - 2e-8 && matches!(k, EllipsoidError::BadEccentricity), || format!("{e:?}: {k}"));
            }
            let right = match k {
                EllipsoidError::InvalidRadius => !aok,
                EllipsoidError::InvalidFlattening => !fok,
                _ => false,
            };
            c.check("error names a wrong parameter", right, || format!("{e:?}: {k}"))
        }
    }
}
/// The predefined ellipsoid
fn c10_wgs84(c: &mut Ctx) -> R {
    let e = tofas::ellipsoid::WGS84;
    c.key(0);
    c.class("predefined WGS84");
    c.desc(|| format!("{e:?}"));
    c.close("WGS84 equatorial radius (m)", e.a, WGS84.a, 0.0)?;
    c.close("WGS84 inverse flattening", 1.0 / e.f, 298.257223563, 1e-12)?;
    match EllipsoidConverter::new(&e) {
        Ok(cv) => c.check("ellipsoid kept", *cv.ellipsoid() == e, || format!("{:?}", cv.ellipsoid())),
        Err(k) => fail("good ellipsoid rejected", format!("WGS84: {k}")),
    }
}
pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "each case is one ellipsoid; distinct by bits",
        suites: vec![exhaustive("WGS84", c10_wgs84, 1, 1), suite("ellipsoids", c10_case, 2_000_000, 40_000_000)],
        need: &["predefined WGS84", "bad radius", "bad flattening", "both bad", "NaN parameter", "good ellipsoid"],
        assumptions: &["an infinite radius counts as positive", "flattening above 1-2e-8 may be refused as having no polar radius"],
    }
}

// ---------------------------------------------------------------- C11
fn lat_any(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1 => FRAC_PI_2,
        2 => -FRAC_PI_2,
        3 => r.sign() * r.logu(1e-12, 1.0),
        4 => r.sign() * (FRAC_PI_2 - r.logu(1e-12, 1.0)),
        5 => r.int(-90, 90) as f64 * (PI / 180.0),
        _ => r.range(-FRAC_PI_2, FRAC_PI_2),
    }
}
fn lon_any(r: &mut Rng) -> f64 {
    match r.below(9) {
        0 => 0.0,
        1 => *r.pick(&[PI, -PI, FRAC_PI_2, -FRAC_PI_2]),
        2 => r.sign() * r.logu(1e-15, 1.0),
        3 => r.sign() * (PI - r.logu(1e-14, 1.0)),
        4 => r.range(-20.0, 20.0),
        5 => r.sign() * r.logu(1.0, 1e8),
        _ => r.range(-PI, PI),
    }
}
fn height_any(r: &mut Rng, a: f64) -> f64 {
    a * match r.below(8) {
        5 => -r.logu(1e-2, 3.0),
        6 => r.logu(1e6, 1e12),
        0 => 0.0,
        1 => r.range(-0.0015, 0.0015),
        2 => r.logu(1e-9, 1.0),
        3 => -r.logu(1e-9, 1.5e-2),
        4 => r.logu(1.0, 1e6),
        _ => r.range(0.0, 10.0),
    }
}
fn c11_case(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let e = ell_any(r);
    let (lon, lat) = (lon_any(r), lat_any(r));
    let h = height_any(r, e.a);
    c.keyf(&[e.a, e.f, lon, lat, h]);
    let Ok(cv) = EllipsoidConverter::new(&e) else {
        return fail("good ellipsoid rejected", format!("{e:?}"));
    };
    let g = Geodetic { elong: lon, phi: lat, height: h };
    let p = match cv.geodetic_to_geocentric(&g) {
        Ok(p) => p,
        Err(x) => return fail("coordinates rejected", format!("{e:?} {g:?}: {x}")),
    };
    let w = geo::forward(e.a, e.f, lon, lat, h);
    c.desc(|| format!("{e:?} {g:?} -> {p:?}"));
    c.class_if(e.f == 0.0, "sphere");
    c.class_if(e.f > 0.1, "strongly flattened");
    c.class_if(lat.abs() == FRAC_PI_2, "pole");
    c.class_if(lat == 0.0, "equator");
    c.class_if(h < 0.0, "below the surface");
    c.class_if(h > e.a, "far above");
    c.class_if(e == WGS84, "WGS84");
    // the radius of curvature is at most a/(1-f)
    let size = e.a / (1.0 - e.f) + h.abs();
    let scale = geo::norm(p).max(e.a * (1.0 - e.f));
    let tol = 6.0 * EPS * scale + 2.0 * EPS * size;
    c.close("point (relative)", geo::dist(p, w) / scale, 0.0, tol / scale)?;
    let z = g.zenith();
    let n = geo::normal(lon, lat);
    c.close("zenith is the unit normal", geo::dist(z, n), 0.0, 1e-15)?;
    c.close("zenith has unit length", geo::norm(z), 1.0, 2e-15)?;
    // moving along the zenith
    let dh = e.a * 1e-3;
    if let Ok(q) = cv.geodetic_to_geocentric(&Geodetic { height: h + dh, ..g }) {
        let dh = (h + dh) - h;
        let m = [p[0] + dh * z[0], p[1] + dh * z[1], p[2] + dh * z[2]];
        c.close("height moves along the normal (relative)", geo::dist(q, m) / scale, 0.0, 2.0 * tol / scale)?;
    }
    if h == 0.0 && e.f < 0.99 {
        // on the surface: (x²+y²)/a² + z²/b² = 1
        let b = dd(e.a) * (dd(1.0) - e.f);
        let (x, y, zz): (Dd, Dd, Dd) = (dd(p[0]) / e.a, dd(p[1]) / e.a, dd(p[2]) / b);
        let s = x * x + y * y + zz * zz;
        c.close("surface equation", s.f(), 1.0, 4e-15 / (1.0 - e.f))?;
        c.class("surface point");
    }
    Ok(())
}
pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "each case is one ellipsoid and one set of coordinates; distinct by bits",
        suites: vec![suite("coordinates", c11_case, 2_000_000, 40_000_000)],
        need: &["sphere", "strongly flattened", "pole", "equator", "below the surface", "far above", "WGS84", "surface point"],
        assumptions: &["flattening sampled up to 0.99, radius 1e-3 to 1e9"],
    }
}

// ---------------------------------------------------------------- C12
/// Accuracy of the one-step method (m): rounding near the Earth, its own truncation far above
fn inv_tol(h: f64, n: f64) -> f64 {
    let q = h.abs() / (h.abs() + 6378137.0);
    1e-7 + 3e-3 * q * q * q + 4e-15 * n
}
fn earth_ell(r: &mut Rng) -> Ellipsoid {
    match r.below(7) {
        5 => Ellipsoid { a: 6371000.0, f: 0.0 },
        6 => Ellipsoid { a: r.range(6.3e6, 6.5e6), f: r.range(0.0, 1.0 / 295.0) },
        0 => Ellipsoid { a: 6378137.0, f: 1.0 / 298.257222101 }, // GRS80
        1 => Ellipsoid { a: 6378135.0, f: 1.0 / 298.26 },        // WGS72
        _ => WGS84,
    }
}
fn point(r: &mut Rng, e: &Ellipsoid) -> ([f64; 3], &'static str) {
    let b = e.a * (1.0 - e.f);
    let rad = match r.below(5) {
        0 => e.a * r.range(0.985, 1.02),
        1 => e.a + r.range(-1e4, 1e5),
        2 => { let top = if r.bool() { 1e5 } else { 1e10 }; e.a * r.logu(1.0, top) }
        3 => e.a * r.logu(1.0, 1e3),
        _ => e.a * r.range(0.99, 7.0),
    };
    match r.below(12) {
        0 => ([0.0, 0.0, r.sign() * (b + r.range(-1e5, 1e7))], "rotation axis"),
        1 => ([rad, 0.0, 0.0], "equator x axis"),
        2 => ([-rad, 0.0, 0.0], "date line"),
        3 => ([-rad, -0.0, 0.0], "date line"),
        4 => ([0.0, r.sign() * rad, 0.0], "equator y axis"),
        5 => {
            let p = r.logu(1e-12, 1e3);
            let l = r.range(-PI, PI);
            ([p * l.cos(), p * l.sin(), r.sign() * (b + r.range(-1e5, 1e6))], "near the axis")
        }
        6 => {
            let l = r.range(-PI, PI);
            ([rad * l.cos(), rad * l.sin(), r.sign() * r.logu(1e-9, 1e3)], "near the equator")
        }
        7 => ([rad * r.sign(), r.sign() * r.logu(1e-9, 1e3), r.range(-1e6, 1e6)], "near a meridian plane"),
        8 => {
            // exact points of the surface
            let (lo, la) = (lon_any(r), lat_any(r));
            (geo::forward(e.a, e.f, lo, la, 0.0), "surface")
        }
        9 => {
            let (lo, la) = (lon_any(r), lat_any(r));
            (geo::forward(e.a, e.f, lo, la, r.range(-100e3, 9000.0)), "underground to mountain")
        }
        _ => {
            let z = r.range(-1.0, 1.0);
            let l = r.range(-PI, PI);
            let s = (1.0f64 - z * z).sqrt();
            ([rad * s * l.cos(), rad * s * l.sin(), rad * z], "space")
        }
    }
}
fn c12_point(c: &mut Ctx) -> R {
    let e = earth_ell(&mut c.rng);
    let (p, kind) = point(&mut c.rng, &e);
    // keep to points at least -100 km high
    let n = geo::norm(p);
    c.keyf(&p);
    c.class(kind);
    c.class(match (p[0] < 0.0, p[1] < 0.0) {
        (false, false) => "quadrant 1",
        (true, false) => "quadrant 2",
        (true, true) => "quadrant 3",
        (false, true) => "quadrant 4",
    });
    c.class_if(p[2] < 0.0, "southern hemisphere");
    let Ok(cv) = EllipsoidConverter::new(&e) else {
        return fail("good ellipsoid rejected", format!("{e:?}"));
    };
    let g = cv.geocentric_to_geodetic(&p);
    c.desc(|| format!("{p:?} ({kind}) -> {g:?}"));
    c.check("longitude in [-pi,pi]", g.elong >= -PI && g.elong <= PI, || format!("{p:?} -> {g:?}"))?;
    c.check("latitude in [-pi/2,pi/2]", g.phi >= -FRAC_PI_2 && g.phi <= FRAC_PI_2, || format!("{p:?} -> {g:?}"))?;
    let q = geo::forward(e.a, e.f, g.elong, g.phi, g.height);
    c.close("denotes the same point (m)", geo::dist(p, q), 0.0, inv_tol(g.height, n)).map_err(|mut f| {
        f.msg.push_str(&format!(" {p:?} -> {g:?}"));
        f
    })?;
    c.class_if(g.height < 0.0, "below the surface");
    // the meridian of the point: exact enough wherever the point is off the axis
    let rho = p[0].hypot(p[1]);
    if rho > 1e-3 {
        let (s, co) = g.elong.sin_cos();
        c.close("meridian (rad)", (co * p[1] - s * p[0]) / rho, 0.0, 1e-15)?;
        c.check("right half plane", co * p[0] + s * p[1] > 0.0, || format!("{p:?} -> {g:?}"))?;
    }
    c.check("hemisphere", if p[2] < 0.0 { g.phi <= 0.0 } else { g.phi >= 0.0 }, || format!("{p:?} -> {g:?}"))?;
    // and the repository's own inverse agrees
    match cv.geodetic_to_geocentric(&g) {
        Ok(q) => c.close("there and back (m)", geo::dist(p, q), 0.0, inv_tol(g.height, 1.5 * n)),
        Err(x) => fail("coordinates rejected", format!("{g:?}: {x}")),
    }
}
/// Ellipsoids of any size and flattening up to 0.1: planets, other units, unit bodies
fn c12_body(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let f = match r.below(6) {
        0 => 0.0,
        1 => r.logu(1e-12, 1e-3),
        2 => *r.pick(&[1.0 / 298.257223563, 1.0 / 169.89, 1.0 / 15.41, 1.0 / 10.208, 1.0 / 43.6, 0.1]),
        _ => r.range(0.0, 0.1),
    };
    let a = match r.below(5) {
        0 => 1.0,
        1 => *r.pick(&[6378.137, 6378137.0, 3396.19e3, 71492e3, 1738.1, 6.378137e9]),
        2 => r.range(0.1, 10.0),
        _ => r.logu(1e-3, 1e9),
    };
    let e = Ellipsoid { a, f };
    let (lon, lat) = (lon_any(r).clamp(-PI, PI), lat_any(r));
    let h = a * match r.below(5) {
        0 => 0.0,
        1 | 2 => r.range(-0.016, 0.016),
        3 => r.logu(1e-6, 10.0),
        _ => { let top = if r.bool() { 1e5 } else { 1e10 }; r.logu(1.0, top) }
    };
    c.keyf(&[a, f, lon, lat, h]);
    c.class_if(a == 1.0, "unit body");
    c.class_if(a < 1.0, "body smaller than one unit");
    c.class_if(a > 1e7, "body larger than the Earth");
    c.class_if(f == 0.0, "any sphere");
    c.class_if(f > 0.05, "giant planet flattening");
    let Ok(cv) = EllipsoidConverter::new(&e) else {
        return fail("good ellipsoid rejected", format!("{e:?}"));
    };
    let p = geo::forward(a, f, lon, lat, h);
    let n = geo::norm(p);
    let g = cv.geocentric_to_geodetic(&p);
    c.desc(|| format!("{e:?} {p:?} -> {g:?}"));
    c.check("longitude in [-pi,pi]", g.elong >= -PI && g.elong <= PI, || format!("{e:?} {p:?} -> {g:?}"))?;
    c.check("latitude in [-pi/2,pi/2]", g.phi >= -FRAC_PI_2 && g.phi <= FRAC_PI_2, || format!("{e:?} {p:?} -> {g:?}"))?;
    let q = h.abs() / (h.abs() + a);
    let tol = 6.0 * f.powi(4) * q * q * q + 2e-14 + 6e-15 * n / a;
    let back = geo::forward(a, f, g.elong, g.phi, g.height);
    c.close("denotes the same point (radii)", geo::dist(p, back) / a, 0.0, tol).map_err(|mut x| {
        x.msg.push_str(&format!(" {e:?} {p:?} -> {g:?}"));
        x
    })?;
    c.close("height back (radii)", (g.height - h) / a, 0.0, tol)?;
    let rho = p[0].hypot(p[1]);
    if rho > 1e-9 * a {
        let (s, co) = g.elong.sin_cos();
        c.close("meridian (rad)", (co * p[1] - s * p[0]) / rho, 0.0, 1e-15)?;
        c.check("right half plane", co * p[0] + s * p[1] > 0.0, || format!("{e:?} {p:?} -> {g:?}"))?;
    }
    c.check("hemisphere", if p[2] < 0.0 { g.phi <= 0.0 } else { g.phi >= 0.0 }, || format!("{e:?} {p:?} -> {g:?}"))
}
fn c12_coords(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let e = earth_ell(r);
    let (lon, lat) = (lon_any(r).clamp(-PI, PI), lat_any(r));
    let h = match r.below(4) {
        0 => 0.0,
        1 => r.range(-100e3, 100e3),
        2 => r.logu(1.0, 4e8),
        _ => r.logu(1e5, 1e12),
    };
    c.keyf(&[lon, lat, h]);
    let Ok(cv) = EllipsoidConverter::new(&e) else {
        return fail("good ellipsoid rejected", format!("{e:?}"));
    };
    let g = Geodetic { elong: lon, phi: lat, height: h };
    let p = match cv.geodetic_to_geocentric(&g) {
        Ok(p) => p,
        Err(x) => return fail("coordinates rejected", format!("{g:?}: {x}")),
    };
    let q = cv.geocentric_to_geodetic(&p);
    c.desc(|| format!("{g:?} -> {p:?} -> {q:?}"));
    c.class("geodetic round trip");
    let n = geo::norm(p);
    c.close("height back (m)", q.height, h, 1e-7 + 4e-15 * n)?;
    // lengths on the ground for the angles
    c.close("latitude back (m)", (q.phi - lat) * n, 0.0, inv_tol(h, n))?;
    let dl = {
        let d = (q.elong - lon).rem_euclid(2.0 * PI);
        d.min(2.0 * PI - d)
    };
    c.close("longitude back (m)", dl * p[0].hypot(p[1]), 0.0, 1e-7 + 4e-15 * n)?;
    let rho = p[0].hypot(p[1]);
    if rho > 1.0 {
        c.close("longitude back (rad)", dl, 0.0, 2e-15)?;
    }
    Ok(())
}
pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "each case is one point of space or one set of coordinates on an Earth ellipsoid; distinct by bits",
        suites: vec![
            suite("points", c12_point, 3_000_000, 80_000_000),
            suite("other bodies", c12_body, 1_500_000, 40_000_000),
            suite("round trip", c12_coords, 2_000_000, 40_000_000),
        ],
        need: &[
            "rotation axis", "equator x axis", "date line", "equator y axis", "near the axis", "near the equator",
            "near a meridian plane", "surface", "underground to mountain", "space", "quadrant 1", "quadrant 2",
            "quadrant 3", "quadrant 4", "southern hemisphere", "below the surface", "geodetic round trip",
            "unit body", "body smaller than one unit", "body larger than the Earth", "any sphere", "giant planet flattening",
        ],
        assumptions: &["Earth-like ellipsoids (WGS84, GRS80, WGS72, the sphere, flattenings up to 1/295; distances to 1e12 m) and bodies of radius 1e-3 to 1e9 flattened up to 0.1"],
    }
}

// ---------------------------------------------------------------- C13
fn wrap_err(a_deg: f64, b: f64) -> f64 {
    let d = (a_deg - b).rem_euclid(360.0);
    d.min(360.0 - d)
}
fn c13_deg(c: &mut Ctx) -> R {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let lat = match r.below(6) {
        0 => 90.0,
        1 => -90.0,
        2 => *r.pick(&[0.0, -0.0, 45.0, -45.0, 30.0]),
        3 => {
            let s = r.sign() * 90.0;
            let x = r.jitter(s, 4);
            x.clamp(-90.0, 90.0)
        }
        4 => r.int(-9000, 9000) as f64 / 100.0,
        _ => r.range(-90.0, 90.0),
    };
    let lon = match r.below(7) {
        0 => *r.pick(&[180.0, -180.0, 0.0, -0.0, 90.0, 360.0, -360.0, 540.0]),
        1 => r.range(-180.0, 180.0),
        2 => r.range(-1000.0, 1000.0),
        3 => {
            let s = r.sign() * 180.0;
            r.jitter(s, 4)
        }
        4 => r.sign() * r.logu(1e-12, 1e-3),
        5 => match r.below(4) {
            0 => r.sign() * r.logu(360.0, 1e300),
            1 => r.sign() * r.logu(1e8, 1e14),
            // whole and half turns, many of them
            2 => 180.0 * r.sign() * r.logu(1.0, 1e12).round(),
            _ => r.sign() * r.logu(360.0, 1e8),
        },
        _ => r.int(-720, 720) as f64,
    };
    let h = r.wild();
    c.keyf(&[lat, lon]);
    let g = Geodetic360 { lon, lat, height: h };
    let q: Geodetic = if r.bool() { g.into() } else { (&g).into() };
    let b: Geodetic360 = if r.bool() { q.into() } else { (&q).into() };
    c.desc(|| format!("{g:?} -> {q:?} -> {b:?}"));
    c.class_if(lat == 90.0, "north pole");
    c.class_if(lat == -90.0, "south pole");
    c.class_if(lon.abs() > 180.0, "more than half a turn");
    c.class_if(lon.abs() == 180.0, "date line");
    c.check("height kept", q.height.to_bits() == h.to_bits() && b.height.to_bits() == h.to_bits(), || format!("{g:?} {q:?} {b:?}"))?;
    let pi180 = crate::dd::PI1 / 180.0;
    c.close("latitude in radians", (dd(q.phi) - pi180 * lat).f(), 0.0, 3.0 * EPS * (lat.abs() * PI / 180.0) + 1e-300)?;
    c.close("longitude in radians", (dd(q.elong) - pi180 * lon).f(), 0.0, 3.0 * EPS * (lon.abs() * PI / 180.0) + 1e-300)?;
    c.check("degree ranges", b.lon >= -180.0 && b.lon <= 180.0 && b.lat >= -90.0 && b.lat <= 90.0, || format!("{g:?} -> {b:?}"))?;
    c.close("latitude back (deg)", b.lat, lat, 4.0 * EPS * 90.0)?;
    c.close("longitude direction back (deg)", wrap_err(b.lon, lon), 0.0, 4.0 * EPS * (lon.abs() + 360.0))
}
fn c13_rad(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let phi = lat_any(r);
    let elong = match r.below(4) {
        0 => lon_any(r),
        1 => r.sign() * r.logu(1e-300, 1e-6),
        2 => match r.below(3) {
            0 => r.sign() * r.logu(1.0, 1e290),
            1 => r.sign() * r.logu(1e8, 1e13),
            _ => r.sign() * r.logu(1.0, 1e8),
        },
        _ => PI * r.int(-20, 20) as f64 / 2.0,
    };
    let h = r.wild();
    c.keyf(&[phi, elong]);
    let g = Geodetic { elong, phi, height: h };
    let b: Geodetic360 = g.into();
    c.desc(|| format!("{g:?} -> {b:?}"));
    c.class("from radians");
    c.class_if(phi == FRAC_PI_2, "north pole in radians");
    c.class_if(phi == -FRAC_PI_2, "south pole in radians");
    c.check("height kept", b.height.to_bits() == h.to_bits(), || format!("{g:?} {b:?}"))?;
    c.check("degree ranges", b.lon >= -180.0 && b.lon <= 180.0 && b.lat >= -90.0 && b.lat <= 90.0, || format!("{g:?} -> {b:?}"))?;
    let deg = dd(180.0) / crate::dd::PI1;
    c.close("latitude in degrees", (deg * phi - b.lat).f(), 0.0, 4.0 * EPS * 90.0)?;
    let d = (deg * elong - b.lon).rem_near(dd(360.0)).f();
    c.close("longitude in degrees", d, 0.0, 4.0 * EPS * (elong.abs() * 57.3 + 360.0))?;
    let q: Geodetic = b.into();
    c.close("latitude back (rad)", q.phi, phi, 4.0 * EPS * FRAC_PI_2)?;
    let d = (dd(q.elong) - elong).rem_near(crate::dd::PI2).f();
    c.close("longitude back (rad)", d, 0.0, 4.0 * EPS * (elong.abs() + 2.0 * PI))
}
/// Beyond the poles only the ranges, the height and the longitude are promised
fn c13_beyond(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let phi = match r.below(4) {
        0 => r.sign() * r.range(FRAC_PI_2, 10.0),
        1 => r.sign() * r.logu(FRAC_PI_2, 1e290),
        2 => FRAC_PI_2 * r.int(-40, 40) as f64,
        _ => {
            let k = FRAC_PI_2 * r.int(-9, 9) as f64;
            r.jitter(k, 3)
        }
    };
    let elong = if r.bool() { lon_any(r) } else { r.sign() * r.logu(1e-300, 1e290) };
    let h = r.wild();
    c.keyf(&[phi, elong]);
    let g = Geodetic { elong, phi, height: h };
    let b: Geodetic360 = if c.idx % 2 == 0 { g.into() } else { (&g).into() };
    c.desc(|| format!("{g:?} -> {b:?}"));
    c.class_if(phi.abs() > FRAC_PI_2 + 1e-9, "beyond the poles");
    c.check("height kept", b.height.to_bits() == h.to_bits(), || format!("{g:?} {b:?}"))?;
    c.check("degree ranges", b.lon >= -180.0 && b.lon <= 180.0 && b.lat >= -90.0 && b.lat <= 90.0, || format!("{g:?} -> {b:?}"))?;
    let d = (dd(180.0) / crate::dd::PI1 * elong - b.lon).rem_near(dd(360.0)).f();
    c.close("longitude in degrees", d, 0.0, 4.0 * EPS * (elong.abs() * 57.3 + 360.0))
}
pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "each case is one set of coordinates; distinct by bits",
        suites: vec![suite("degrees", c13_deg, 2_000_000, 40_000_000), suite("radians", c13_rad, 2_000_000, 40_000_000), suite("beyond the poles", c13_beyond, 500_000, 5_000_000)],
        need: &["north pole", "south pole", "beyond the poles", "more than half a turn", "date line", "from radians", "north pole in radians", "south pole in radians"],
        assumptions: &["of latitudes beyond the poles only the range of the result is judged"],
    }
}
