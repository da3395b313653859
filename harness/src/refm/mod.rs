//! Reference models, written independently of the code under test and with frozen tables.
pub mod astro;
pub mod cal;
pub mod epv;
mod epv_tables;
pub mod geo;
pub mod tables;

use crate::dd::{dd, Dd};

/// Published SOFA test values (t_sofa_c), against the reference models only.
pub fn anchors() -> Vec<(&'static str, f64, f64, f64)> {
    let day = |mjd: f64| -> Dd { dd(mjd) - 51544.5 };
    let cy = |mjd: f64| day(mjd) / 36525.0;
    let mut v: Vec<(&'static str, f64, f64, f64)> = vec![];
    let fa = [
        5.132369751108684150,
        6.226797973505507345,
        0.2597711366745499518,
        1.946709205396925672,
        -5.973618440951302183,
        3.424900460533758000,
        1.744713738913081846,
        0.01950884762240000000,
    ];
    for (k, want) in fa.iter().enumerate() {
        let got = astro::arg(k, dd(0.8));
        v.push(("fundamental argument", (got - *want).rem_near(crate::dd::PI2).f(), 0.0, 1e-12));
    }
    let (p, e) = astro::nutation(cy(53736.0));
    v.push(("nut00b dpsi", p, -0.9632552291148362783e-5, 1e-13));
    v.push(("nut00b deps", e, 0.4063197106621159367e-4, 1e-13));
    let (x, y) = (0.5791308486706011000e-3, 0.4020579816732961219e-4);
    v.push(("s00", astro::s_series(cy(53736.0)) - x * y / 2.0, -0.1220036263270905693e-7, 1e-18));
    v.push(("obl80", astro::obliquity80(cy(54388.0)), 0.4090751347643816218, 1e-14));
    v.push(("era00", astro::era(day(54388.0)).f(), 0.4022837240028158102, 1e-12));
    v.push(("pr00 dpsipr", astro::rates(cy(53736.0)).0, -0.8716465172668347629e-7, 1e-22));
    v.push(("pr00 depspr", astro::rates(cy(53736.0)).1, -0.7342018386722813087e-8, 1e-22));
    v.push(("bi00 dpsibi", astro::BIAS.0, -0.2025309152835086613e-6, 1e-15));
    v.push(("bi00 depsbi", astro::BIAS.1, -0.3306041454222147847e-7, 1e-15));
    v.push(("bi00 dra", astro::BIAS.2, -0.7078279744199225506e-7, 1e-15));
    let m = astro::bpn(cy(50123.9999));
    v.push(("pnm00b 00", m[0][0], 0.9999995832776208280, 1e-12));
    v.push(("pnm00b 01", m[0][1], 0.8372401264429654837e-3, 1e-14));
    let m = astro::c2i(cy(53736.0));
    v.push(("c2i00b 00", m[0][0], 0.9999998323040954356, 1e-12));
    v.push(("c2i00b 20", m[2][0], 0.5791301929950208873e-3, 1e-12));
    let m = astro::c2t(cy(53736.0), day(53736.0), 2.55060238e-7, 1.860359247e-6);
    v.push(("c2t00b 00", m[0][0], -0.1810332128439678965, 1e-12));
    v.push(("c2t00b 01", m[0][1], 0.9834769806913872359, 1e-12));
    let e = epv::earth(day(53411.52501161));
    let w = [
        [-0.7757238809297706813, 0.5598052241363340596, 0.2426998466481686993],
        [-0.1091891824147313846e-1, -0.1247187268440845008e-1, -0.5407569418065039061e-2],
        [-0.7714104440491111971, 0.5598412061824171323, 0.2425996277722452400],
        [-0.1091874268116823295e-1, -0.1246525461732861538e-1, -0.5404773180966231279e-2],
    ];
    for i in 0..3 {
        v.push(("epv00 ph", e.ph[i], w[0][i], 1e-14));
        v.push(("epv00 vh", e.vh[i], w[1][i], 1e-15));
        v.push(("epv00 pb", e.pb[i], w[2][i], 1e-14));
        v.push(("epv00 vb", e.vb[i], w[3][i], 1e-15));
    }
    let q = geo::forward(6378137.0, 1.0 / 298.257223563, 3.1, -0.5, 2500.0);
    for (g, w) in q.iter().zip([-5599000.5577049947, 233011.67223479203, -3040909.4706983363]) {
        v.push(("gd2gc", *g, w, 1e-7));
    }
    v
}

pub fn selftest() -> i32 {
    let mut bad = 0;
    if let Err(e) = cal::selftest() {
        println!("FAILED {e}");
        bad = 1;
    }
    for (n, g, w, t) in anchors() {
        let ok = (g - w).abs() <= t;
        if !ok {
            bad = 1;
        }
        println!("{} {n}: {g:?} {w:?} error {:e} tolerance {t:e}", if ok { "ok" } else { "FAILED" }, g - w);
    }
    bad
}
