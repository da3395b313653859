//! One table of operations covering the public interface, driven by seeds. Used for purity
//! (same seed, same result bits, whatever the history or thread) and for crash/UB monitoring
//! (hostile inputs), natively, under the sanitizers and under Miri.
use crate::gen::{date2, DJ00};
use crate::rng::{mix, Rng};
use tofas::calendar::*;
use tofas::common::*;
use tofas::delta_at::DeltaAt;
use tofas::earth::{self, EarthPosVel};
use tofas::ellipsoid::*;
use tofas::frames;
use tofas::fundargs;
use tofas::locator;
use tofas::time::*;
use tofas_extras::sun_angle::*;

/// Accumulates result bits (NaN payloads and signs are not results)
pub struct Acc(pub u64);
impl Acc {
    pub fn f(&mut self, x: f64) {
        self.0 = mix(self.0, if x.is_nan() { 0x7ff8_0000_0000_0001 } else { x.to_bits() });
    }
    pub fn v(&mut self, x: &[f64]) {
        for y in x {
            self.f(*y);
        }
    }
    pub fn m(&mut self, x: &[[f64; 3]; 3]) {
        for y in x {
            self.v(y);
        }
    }
    pub fn i(&mut self, x: i64) {
        self.0 = mix(self.0, x as u64);
    }
    pub fn s(&mut self, x: &str) {
        self.0 = mix(self.0, crate::rng::hash_str(x));
    }
}

pub const NAMES: [&str; 22] = [
    "GregorianDate::new/to_julian/text",
    "hand-built date",
    "GregorianDate::from_julian",
    "GregorianDateHMS",
    "HMS",
    "delta_at",
    "time scales",
    "ellipsoid converter",
    "geodetic text and degrees",
    "vectors",
    "matrices",
    "anp and fundamental arguments",
    "nutation",
    "precession and obliquity",
    "precession-nutation",
    "CIO locator",
    "celestial to intermediate",
    "pole to matrix",
    "celestial to terrestrial",
    "rotation angle and polar motion",
    "Earth ephemeris",
    "Sun angle",
];

fn num(r: &mut Rng, hostile: bool, a: f64, b: f64) -> f64 {
    if hostile && r.chance(0.6) {
        r.wild()
    } else {
        r.range(a, b)
    }
}
fn int(r: &mut Rng, hostile: bool, a: i64, b: i64) -> i32 {
    if hostile && r.chance(0.5) {
        match r.below(4) {
            0 => *r.pick(&[i32::MIN, i32::MIN + 1, -1, 0, 1, i32::MAX, i32::MAX - 1, 65536, -65536]),
            1 => r.int(-5000, 5000) as i32,
            2 => r.u64() as i32,
            _ => r.int(-20, 40) as i32,
        }
    } else {
        r.int(a, b) as i32
    }
}
fn two(r: &mut Rng, hostile: bool) -> (f64, f64) {
    if hostile && r.chance(0.7) {
        let (a, b) = (r.wild(), r.wild());
        match r.below(4) {
            0 => (a, b),
            1 => (DJ00, a),
            2 => (a, DJ00),
            _ => (a, -a),
        }
    } else {
        date2(r, 365249.0).t()
    }
}

/// Shared, immutable objects used concurrently by every thread. Each is made when first used, so
/// that the first call of a process is whatever the history says it is.
pub struct Shared {
    conv: std::sync::OnceLock<EllipsoidConverter>,
    calcs: [std::sync::OnceLock<SunAngleCalculator>; 3],
}
impl Shared {
    pub fn new() -> Self {
        Shared { conv: Default::default(), calcs: Default::default() }
    }
    pub fn conv(&self) -> &EllipsoidConverter {
        self.conv.get_or_init(|| EllipsoidConverter::new(&WGS84).expect("WGS84"))
    }
    pub fn calc(&self, i: usize) -> &SunAngleCalculator {
        self.calcs[i % 3].get_or_init(|| {
            let mut r = Rng::new(mix(99, (i % 3) as u64));
            SunAngleCalculator::new(&crate::props::sun::params(&mut r, 1961, 2099))
        })
    }
}

/// Answers whether a type is Sync without requiring it to be (the inherent constant wins over the trait's)
struct IsSync<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait NotSync {
    const SYNC: bool = false;
}
impl<T> NotSync for IsSync<T> {}
#[allow(dead_code)]
impl<T: Sync> IsSync<T> {
    const SYNC: bool = true;
}
struct Holder(Box<Shared>);
// Sound: a Shared crosses threads only when it is Sync; otherwise each thread reaches its own only.
unsafe impl Send for Holder {}
unsafe impl Sync for Holder {}

/// The objects the operations use: the same ones for every thread as long as the library's types
/// allow it (they do today), otherwise one set per thread.
pub fn shared() -> &'static Shared {
    use std::sync::{Mutex, OnceLock};
    fn of(h: &Holder) -> &'static Shared {
        // the boxes live in statics that are never emptied
        unsafe { &*(&*h.0 as *const Shared) }
    }
    if <IsSync<Shared>>::SYNC {
        static ONE: OnceLock<Holder> = OnceLock::new();
        of(ONE.get_or_init(|| Holder(Box::new(Shared::new()))))
    } else {
        static ALL: Mutex<Vec<Holder>> = Mutex::new(vec![]);
        thread_local! {
            static MINE: &'static Shared = {
                let h = Holder(Box::new(Shared::new()));
                let r = of(&h);
                ALL.lock().unwrap().push(h);
                r
            };
        }
        MINE.with(|m| *m)
    }
}

pub fn op(k: usize, seed: u64, hostile: bool, sh: &Shared) -> u64 {
    let mut r = Rng::new(mix(seed, k as u64));
    let r = &mut r;
    let mut a = Acc(k as u64);
    match k {
        0 => {
            let (y, m, d) = (int(r, hostile, -4799, 9999), int(r, hostile, 1, 12), int(r, hostile, 1, 31));
            match GregorianDate::new(y, m, d) {
                Ok(g) => {
                    let (p, q) = g.to_julian();
                    a.v(&[p, q]);
                    a.s(&format!("{g} {g:?}"));
                }
                Err(e) => a.s(&format!("{e} {e:?}")),
            }
        }
        1 => {
            let g = GregorianDate { year: int(r, hostile, 1900, 2100), month: int(r, hostile, 1, 12), day: int(r, hostile, 1, 31) };
            let (p, q) = g.to_julian();
            a.v(&[p, q]);
            a.s(&format!("{g}"));
            let h = GregorianDateHMS { date: g, hms: HMS::new(r.u64() as u8, r.u64() as u8, num(r, hostile, 0.0, 60.0)) };
            let (p, q) = h.to_julian();
            a.v(&[p, q]);
            a.s(&format!("{h}"));
            match g.delta_at(num(r, hostile, 0.0, 1.0)) {
                Ok(Some(x)) => a.f(x),
                Ok(None) => a.i(1),
                Err(e) => a.s(&format!("{e}")),
            }
        }
        2 => {
            let (x, y) = two(r, hostile);
            match GregorianDate::from_julian(x, y) {
                Ok((g, f)) => {
                    a.f(f);
                    a.s(&format!("{g}"));
                    let (p, q) = g.to_julian();
                    a.v(&[p, q]);
                }
                Err(e) => a.s(&format!("{e}")),
            }
        }
        3 => {
            let (x, y) = two(r, hostile);
            match GregorianDateHMS::from_julian(x, y) {
                Ok(g) => {
                    a.s(&format!("{g}"));
                    let (p, q) = g.to_julian();
                    a.v(&[p, q]);
                }
                Err(e) => a.s(&format!("{e}")),
            }
        }
        4 => {
            match HMS::from_fraction_of_day(num(r, hostile, 0.0, 1.0)) {
                Ok(h) => {
                    a.f(h.to_fraction_of_day());
                    a.s(&format!("{h} {h:?}"));
                }
                Err(e) => a.s(&format!("{e}")),
            }
            let h = HMS::new(r.u64() as u8, r.u64() as u8, num(r, hostile, 0.0, 60.0));
            a.f(h.to_fraction_of_day());
            a.s(&format!("{h}"));
        }
        5 => {
            let y = int(r, hostile, 1955, 2030);
            let g = GregorianDate { year: y, month: r.int(1, 12) as i32, day: r.int(1, 28) as i32 };
            match g.delta_at(num(r, hostile, 0.0, 1.0)) {
                Ok(Some(x)) => a.f(x),
                Ok(None) => a.i(1),
                Err(e) => a.s(&format!("{e}")),
            }
        }
        6 => {
            let p = two(r, hostile);
            let o = num(r, hostile, -100.0, 100.0);
            let TT(x) = TT::from_ut1(UT1(p), o);
            a.v(&[x.0, x.1]);
            let t = TAI::from_utc_delta_at(UTC(p), o);
            a.v(&[t.0 .0, t.0 .1, t.total()]);
            let t = TT::from(TAI(p));
            a.v(&[t.0 .0, t.0 .1, t.total()]);
            let TDB(x) = TDB::from_tt(TT(p), o);
            a.v(&[x.0, x.1]);
            let t = UT1::from_tt(TT(p), o);
            a.v(&[t.0 .0, t.0 .1, t.total(), UTC(p).total()]);
        }
        7 => {
            let mut e = Ellipsoid { a: num(r, hostile, 6e6, 7e6), f: num(r, hostile, 0.0, 0.01) };
            if r.bool() {
                (e.a, e.f) = *r.pick(&EARTHS);
            }
            let g = Geodetic { elong: num(r, hostile, -4.0, 4.0), phi: num(r, hostile, -1.6, 1.6), height: num(r, hostile, -1e4, 1e6) };
            let p = [num(r, hostile, -7e6, 7e6), num(r, hostile, -7e6, 7e6), num(r, hostile, -7e6, 7e6)];
            match EllipsoidConverter::new(&e) {
                Ok(c) => {
                    match c.geodetic_to_geocentric(&g) {
                        Ok(q) => a.v(&q),
                        Err(e) => a.s(&format!("{e}")),
                    }
                    let q = c.geocentric_to_geodetic(&p);
                    a.v(&[q.elong, q.phi, q.height]);
                    a.f(c.ellipsoid().a);
                }
                Err(e) => a.s(&format!("{e}")),
            }
            // and the shared converter
            if let Ok(q) = sh.conv().geodetic_to_geocentric(&g) {
                a.v(&q);
            }
            let q = sh.conv().geocentric_to_geodetic(&p);
            a.v(&[q.elong, q.phi, q.height]);
        }
        8 => {
            let mut g = Geodetic360 { lon: num(r, hostile, -180.0, 180.0), lat: num(r, hostile, -90.0, 90.0), height: num(r, hostile, -1e4, 1e6) };
            a.s(&format!("{g}"));
            let q: Geodetic = g.into();
            a.v(&[q.elong, q.phi, q.height]);
            a.v(&q.zenith());
            // normalising non-finite angles is outside the guarantee
            if !(q.elong.abs() < 1e300 && q.phi.abs() < 1e300) {
                g.lon = 12.0;
                g.lat = 34.0;
            }
            let q: Geodetic = (&g).into();
            let b: Geodetic360 = (&q).into();
            a.v(&[b.lon, b.lat, b.height]);
            a.s(&format!("{q}"));
        }
        9 => {
            let v = [num(r, hostile, -2.0, 2.0), num(r, hostile, -2.0, 2.0), num(r, hostile, -2.0, 2.0)];
            let w = [num(r, hostile, -2.0, 2.0), num(r, hostile, -2.0, 2.0), num(r, hostile, -2.0, 2.0)];
            a.v(&v.add(w));
            a.v(&v.sub(w));
            a.v(&v.neg());
            a.v(&v.scale(w[0]));
            a.v(&v.normalize());
            a.v(&[v.norm(), v.dot(w), v.angle(w), w.angle(v), v.angle(v)]);
        }
        10 => {
            let t = num(r, hostile, -7.0, 7.0);
            let u = num(r, hostile, -7.0, 7.0);
            let m = Mat3::rotation(r.below(3) as usize, t);
            let n = Mat3::rotation(r.below(3) as usize, u);
            a.m(&m);
            a.m(&m.compose(&n));
            a.m(&m.transpose());
            a.v(&m.apply([t, u, 1.0]));
            a.m(&Mat3::identity());
            a.m(&Mat3::zero());
        }
        11 => {
            a.f(anp(num(r, hostile, -100.0, 100.0)));
            let t = num(r, hostile, -10.0, 10.0);
            a.v(&[
                fundargs::l03(t),
                fundargs::lp03(t),
                fundargs::f03(t),
                fundargs::d03(t),
                fundargs::om03(t),
                fundargs::ve03(t),
                fundargs::e03(t),
                fundargs::pa03(t),
            ]);
        }
        12 => {
            let (p, e) = frames::nutation(TT(two(r, hostile)));
            a.v(&[p, e]);
        }
        13 => {
            let t = TT(two(r, hostile));
            let (p, e) = frames::precession_rate(t);
            a.v(&[p, e, frames::mean_obliquity(t)]);
            let (x, y, z) = frames::bias_and_precession(t);
            a.m(&x);
            a.m(&y);
            a.m(&z);
            let (x, y, z) = frames::frame_bias();
            a.v(&[x, y, z]);
        }
        14 => {
            let t = TT(two(r, hostile));
            a.m(&frames::precession_nutation(t));
            let p = frames::PrecessionNutation::from_tt_with_nutation(t, num(r, hostile, -1e-4, 1e-4), num(r, hostile, -1e-4, 1e-4));
            a.f(p.dpsi);
            a.s(&format!("{p:?}"));
        }
        15 => a.f(locator::cio(TT(two(r, hostile)), num(r, hostile, -1e-3, 1e-3), num(r, hostile, -1e-3, 1e-3))),
        16 => {
            let t = TT(two(r, hostile));
            a.m(&frames::celestial_to_intermediate(t));
            let mut m = [[0.0; 3]; 3];
            for x in m.iter_mut().flatten() {
                *x = num(r, hostile, -1.0, 1.0);
            }
            a.m(&frames::celestial_to_intermediate_with_bpn(t, &m));
            let (x, y) = frames::xy_from_bpn(&m);
            a.v(&[x, y]);
        }
        17 => {
            let (x, y, s) = (num(r, hostile, -0.7, 0.7), num(r, hostile, -0.7, 0.7), num(r, hostile, -7.0, 7.0));
            a.m(&frames::celestial_to_intermediate_from_xys(x, y, s));
            a.m(&frames::celestial_to_intermediate_with_bpn_and_xy(TT(two(r, hostile)), x, y));
            a.m(&frames::nutation_matrix(x, y, s));
        }
        18 => {
            let (t, u) = (TT(two(r, hostile)), UT1(two(r, hostile)));
            let (x, y) = (num(r, hostile, -1e-5, 1e-5), num(r, hostile, -1e-5, 1e-5));
            let m = frames::celestial_to_terrestrial(t, u, x, y);
            a.m(&m);
            a.m(&frames::celestial_to_terrestrial_from_cio_components(&m, num(r, hostile, -7.0, 7.0), &m.transpose()));
        }
        19 => {
            a.f(earth::rotation_angle(UT1(two(r, hostile))));
            a.m(&earth::polar_motion_matrix(num(r, hostile, -1.0, 1.0), num(r, hostile, -1.0, 1.0), num(r, hostile, -1.0, 1.0)));
        }
        20 => {
            let e = EarthPosVel::from(TDB(two(r, hostile)));
            a.v(&e.heliocentric.p);
            a.v(&e.heliocentric.v);
            a.v(&e.barycentric.p);
            a.v(&e.barycentric.v);
            a.i(e.warning.is_some() as i64);
            if hostile {
                a.s(&format!("{e:?}"));
            }
        }
        _ => {
            let mut p = crate::props::sun::params(r, 1950, 2100);
            if hostile {
                p.date.year = int(r, true, 1900, 2100);
                let f = |x: f64| if x.is_finite() && x.abs() < 1e15 { x } else { 1.0 };
                p.position = Geodetic360 { lon: f(r.wild()), lat: f(r.wild()), height: r.wild() };
            }
            let s = num(r, hostile, -1e4, 1e4);
            let c = SunAngleCalculator::new(&p);
            let q = c.compute(s);
            a.v(&[q.jd0, q.jd1, q.delta_s, q.dat, q.era, q.sza]);
            a.v(&q.p);
            a.v(&q.earth);
            a.v(&q.sun_e);
            a.s(&format!("{}", SunAngleResultBundle { parameters: &p, result: &q }));
            // and a shared calculator
            let q = sh.calc(r.below(3) as usize).compute(s);
            a.v(&[q.sza, q.era, q.jd1]);
        }
    }
    a.0
}

// ---------------------------------------------------------------- near collisions
/// Functions of flat argument lists, for histories of nearly equal calls: what a cache keyed too
/// coarsely, or state left over from the previous call, would confuse.
pub const NEAR: [&str; 21] = [
    "nutation",
    "precession-nutation",
    "precession and obliquity",
    "CIO locator",
    "celestial to intermediate",
    "celestial to intermediate with pole",
    "celestial to terrestrial",
    "rotation angle",
    "polar motion",
    "Earth ephemeris",
    "delta_at",
    "date to Julian",
    "Julian to date",
    "fraction of day",
    "ellipsoid converter",
    "degrees and text",
    "fundamental arguments",
    "Sun angle",
    "shared Sun calculator",
    "nutation given",
    "time scales",
];

/// Ellipsoids in use for the Earth, and the sphere
const EARTHS: [(f64, f64); 8] = [
    (6378137.0, 1.0 / 298.257223563),
    (6378137.0, 1.0 / 298.257222101),
    (6378135.0, 1.0 / 298.26),
    (6378388.0, 1.0 / 297.0),
    (6378249.145, 1.0 / 293.465),
    (6377397.155, 1.0 / 299.1528128),
    (6377563.396, 1.0 / 299.3249646),
    (6371000.0, 0.0),
];

fn near_base(k: usize, r: &mut Rng) -> Vec<f64> {
    let d = date2(r, 36524.0);
    let (x, y) = d.t();
    let civil = [r.int(1960, 2030) as f64, r.int(1, 12) as f64, r.int(1, 28) as f64];
    match k {
        0 | 1 | 2 | 4 | 7 | 9 | 12 => vec![x, y],
        3 | 5 => vec![x, y, r.range(-1e-3, 1e-3), r.range(-1e-3, 1e-3)],
        6 => {
            let u = if r.bool() { d } else { date2(r, 36524.0) };
            vec![x, y, u.d1, u.d2, r.range(-3e-6, 3e-6), r.range(-3e-6, 3e-6)]
        }
        8 => vec![r.range(-3e-6, 3e-6), r.range(-3e-6, 3e-6), r.range(-1e-6, 1e-6)],
        10 => vec![civil[0], civil[1], civil[2], r.f()],
        11 => civil.to_vec(),
        13 => vec![r.f()],
        14 => vec![
            *r.pick(&[6378137.0, 6371000.0, 1.0, 6378388.0, 6378249.145]),
            *r.pick(&[1.0 / 298.257223563, 0.0, 0.1, 1.0 / 297.0, 1.0 / 293.465, 1.0 / 299.1528128]),
            r.range(-3.2, 3.2),
            r.range(-1.6, 1.6),
            r.range(-1e4, 1e6),
        ],
        15 => vec![r.range(-180.0, 180.0), r.range(-90.0, 90.0), r.range(-1e4, 1e6)],
        16 => vec![r.range(-10.0, 10.0)],
        17 => vec![
            civil[0],
            civil[1],
            civil[2],
            r.int(0, 23) as f64,
            r.int(0, 59) as f64,
            r.range(0.0, 60.0),
            r.range(-90.0, 90.0),
            r.range(-180.0, 180.0),
            r.range(-400.0, 9000.0),
            r.range(-1e4, 1e4),
        ],
        18 => vec![r.below(3) as f64, r.range(-1e4, 1e4)],
        19 => vec![x, y, r.range(-1e-4, 1e-4), r.range(-1e-4, 1e-4)],
        _ => vec![x, y, r.range(-100.0, 100.0)],
    }
}
fn near_variant(k: usize, base: &[f64], r: &mut Rng) -> Vec<f64> {
    let mut a = base.to_vec();
    if r.chance(0.1) && a.len() >= 2 {
        // whole Julian date kept, split changed, or the first two arguments exchanged
        if r.bool() {
            a.swap(0, 1);
        } else {
            let u = r.int(-400, 400) as f64 + 0.5;
            a[0] += u;
            a[1] -= u;
        }
        return a;
    }
    if r.chance(0.15) && a.len() >= 2 {
        // two arguments changed so that a key made of both may stay the same
        let i = r.below(a.len() as u64) as usize;
        let j = (i + 1 + r.below(a.len() as u64 - 1) as usize) % a.len();
        match r.below(6) {
            0 => a.swap(i, j),
            1 => {
                let n = *r.pick(&[1, 1, 2, 1 << 10, 1 << 20]);
                a[i] = crate::rng::ulps(a[i], n);
                a[j] = crate::rng::ulps(a[j], -n);
            }
            2 => {
                a[i] = -a[i];
                a[j] = -a[j];
            }
            3 => {
                // the same bits flipped in both
                let m = 1u64 << r.below(52);
                a[i] = f64::from_bits(a[i].to_bits() ^ m);
                a[j] = f64::from_bits(a[j].to_bits() ^ m);
            }
            4 => {
                let u = r.int(-400, 400) as f64 * 0.5;
                a[i] += u;
                a[j] -= u;
            }
            _ => {
                let u = 2.0f64.powi(r.int(-6, 6) as i32);
                a[i] *= u;
                a[j] /= u;
            }
        }
        if k == 18 {
            a[0] = (a[0].abs() as u64 % 3) as f64;
        }
        return a;
    }
    let j = r.below(a.len() as u64) as usize;
    a[j] = match r.below(9) {
        0 => crate::rng::ulps(a[j], *r.pick(&[-1, 1])),
        1 => a[j] * (1.0 + 1e-9 * r.sign()),
        2 => a[j] + r.sign() * 1e-6,
        3 => a[j] + r.sign() * 1e-3,
        4 => a[j] + r.sign() * 0.1,
        5 => a[j] + r.sign(),
        6 => -a[j],
        7 => a[j] * 1.01,
        _ => near_base(k, r)[j],
    };
    a
}
/// Different computations for one and the same date (and for a near one)
pub fn same_date(seed: u64) -> Vec<(usize, Vec<f64>)> {
    let mut r = Rng::new(mix(seed, 9100));
    let (mut x, mut y) = date2(&mut r, 36524.0).t();
    let mut v = vec![];
    let (p, q) = (r.range(-1e-3, 1e-3), r.range(-1e-3, 1e-3));
    for _ in 0..2 {
        for k in [0usize, 1, 2, 3, 4, 5, 6, 7, 9, 12, 19, 19, 20] {
            let mut a = near_base(k, &mut r);
            a[0] = x;
            a[1] = y;
            if matches!(k, 3 | 5) {
                a[2] = p;
                a[3] = q;
            }
            if k == 6 && r.chance(0.6) {
                a[2] = x;
                a[3] = y;
            }
            v.push((k, a));
        }
        match r.below(4) {
            0 => std::mem::swap(&mut x, &mut y),
            1 => y += 1e-6,
            2 => y = -y,
            _ => {
                let u = r.int(-9, 9) as f64 + 0.5;
                x += u;
                y -= u;
            }
        }
    }
    v
}
/// The base case and seven near relatives
pub fn family(k: usize, seed: u64) -> Vec<Vec<f64>> {
    let mut r = Rng::new(mix(seed, 7000 + k as u64));
    let b = near_base(k, &mut r);
    let mut v = vec![b.clone()];
    for _ in 0..7 {
        let from = if r.chance(0.3) { v[r.below(v.len() as u64) as usize].clone() } else { b.clone() };
        v.push(near_variant(k, &from, &mut r));
    }
    v
}
pub fn near_eval(k: usize, x: &[f64], sh: &Shared) -> u64 {
    let mut a = Acc(k as u64);
    let tt = || TT((x[0], x[1]));
    match k {
        0 => {
            let (p, e) = frames::nutation(tt());
            a.v(&[p, e]);
        }
        1 => a.m(&frames::precession_nutation(tt())),
        2 => {
            let (p, e) = frames::precession_rate(tt());
            a.v(&[p, e, frames::mean_obliquity(tt())]);
            let (x, y, z) = frames::bias_and_precession(tt());
            a.m(&x);
            a.m(&y);
            a.m(&z);
        }
        3 => a.f(locator::cio(tt(), x[2], x[3])),
        4 => a.m(&frames::celestial_to_intermediate(tt())),
        5 => {
            a.m(&frames::celestial_to_intermediate_with_bpn_and_xy(tt(), x[2], x[3]));
            a.m(&frames::celestial_to_intermediate_from_xys(x[2], x[3], 1e-3));
        }
        6 => a.m(&frames::celestial_to_terrestrial(tt(), UT1((x[2], x[3])), x[4], x[5])),
        7 => a.f(earth::rotation_angle(UT1((x[0], x[1])))),
        8 => a.m(&earth::polar_motion_matrix(x[0], x[1], x[2])),
        9 => {
            let e = EarthPosVel::from(TDB((x[0], x[1])));
            a.v(&e.heliocentric.p);
            a.v(&e.heliocentric.v);
            a.v(&e.barycentric.p);
            a.v(&e.barycentric.v);
            a.i(e.warning.is_some() as i64);
        }
        10 => {
            let g = GregorianDate { year: x[0] as i32, month: x[1] as i32, day: x[2] as i32 };
            match g.delta_at(x[3]) {
                Ok(Some(d)) => a.f(d),
                Ok(None) => a.i(1),
                Err(e) => a.s(&format!("{e}")),
            }
        }
        11 => match GregorianDate::new(x[0] as i32, x[1] as i32, x[2] as i32) {
            Ok(g) => {
                let (p, q) = g.to_julian();
                a.v(&[p, q]);
                a.s(&format!("{g}"));
            }
            Err(e) => a.s(&format!("{e}")),
        },
        12 => match GregorianDateHMS::from_julian(x[0], x[1]) {
            Ok(g) => {
                a.s(&format!("{g}"));
                let (p, q) = g.to_julian();
                a.v(&[p, q]);
            }
            Err(e) => a.s(&format!("{e}")),
        },
        13 => match HMS::from_fraction_of_day(x[0]) {
            Ok(h) => {
                a.f(h.to_fraction_of_day());
                a.s(&format!("{h}"));
            }
            Err(e) => a.s(&format!("{e}")),
        },
        14 => match EllipsoidConverter::new(&Ellipsoid { a: x[0], f: x[1] }) {
            Ok(c) => {
                for c in [&c, sh.conv()] {
                    match c.geodetic_to_geocentric(&Geodetic { elong: x[2], phi: x[3], height: x[4] }) {
                        Ok(q) => {
                            a.v(&q);
                            let g = c.geocentric_to_geodetic(&q);
                            a.v(&[g.elong, g.phi, g.height]);
                        }
                        Err(e) => a.s(&format!("{e}")),
                    }
                }
            }
            Err(e) => a.s(&format!("{e}")),
        },
        15 => {
            let g = Geodetic360 { lon: x[0], lat: x[1], height: x[2] };
            a.s(&format!("{g}"));
            let q: Geodetic = g.into();
            a.v(&[q.elong, q.phi, q.height]);
            a.v(&q.zenith());
            let b: Geodetic360 = (&q).into();
            a.v(&[b.lon, b.lat, b.height]);
        }
        16 => {
            let t = x[0];
            a.v(&[anp(t)]);
            a.v(&[fundargs::l03(t), fundargs::lp03(t), fundargs::f03(t), fundargs::d03(t)]);
            a.v(&[fundargs::om03(t), fundargs::ve03(t), fundargs::e03(t), fundargs::pa03(t)]);
        }
        17 => {
            let date = GregorianDate { year: x[0] as i32, month: x[1] as i32, day: x[2] as i32 };
            if GregorianDate::new(date.year, date.month, date.day).is_ok() {
                let p = SunAngleParameters {
                    date,
                    time: HMS { hour: x[3].clamp(0.0, 23.0) as u8, minute: x[4].clamp(0.0, 59.0) as u8, second: x[5].clamp(0.0, 59.999) },
                    position: Geodetic360 { lat: x[6], lon: x[7], height: x[8] },
                };
                for q in crate::props::sun::bits(&SunAngleCalculator::new(&p).compute(x[9])) {
                    a.i(q as i64);
                }
            }
        }
        18 => {
            for q in crate::props::sun::bits(&sh.calc(x[0].abs() as usize).compute(x[1])) {
                a.i(q as i64);
            }
        }
        19 => {
            let p = frames::PrecessionNutation::from_tt_with_nutation(tt(), x[2], x[3]);
            a.s(&format!("{p:?}"));
            a.m(&frames::nutation_matrix(0.4, x[2], x[3]));
        }
        _ => {
            let TT(p) = TT::from_ut1(UT1((x[0], x[1])), x[2]);
            a.v(&[p.0, p.1]);
            let t = TAI::from_utc_delta_at(UTC((x[0], x[1])), x[2]);
            a.v(&[t.0 .0, t.0 .1, t.total()]);
            let t = TT::from(TAI((x[0], x[1])));
            a.v(&[t.0 .0, t.0 .1]);
            let TDB(p) = TDB::from_tt(tt(), x[2]);
            a.v(&[p.0, p.1]);
            let t = UT1::from_tt(tt(), x[2]);
            a.v(&[t.0 .0, t.0 .1]);
        }
    }
    a.0
}
/// Evaluate family members in the order a seed gives, each at least once; results by member.
/// Different results for the same member are reported as Err.
pub fn near_history(k: usize, fam: &[Vec<f64>], order: u64, sh: &Shared) -> Result<Vec<u64>, (usize, u64, u64)> {
    let mut r = Rng::new(mix(order, 31));
    let n = fam.len();
    let mut out: Vec<Option<u64>> = vec![None; n];
    let mut seq: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        seq.swap(i, r.below(i as u64 + 1) as usize);
    }
    for _ in 0..n {
        seq.push(r.below(n as u64) as usize);
    }
    for i in seq {
        let h = near_eval(k, &fam[i], sh);
        match out[i] {
            None => out[i] = Some(h),
            Some(o) if o != h => return Err((i, o, h)),
            _ => {}
        }
    }
    Ok(out.into_iter().flatten().collect())
}
