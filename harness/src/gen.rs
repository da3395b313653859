//! Workload generators shared by several properties.
use crate::dd::{two_sum, Dd};
use crate::rng::Rng;

pub const DJ00: f64 = 2451545.0;
pub const EPS: f64 = f64::EPSILON;

/// A two-part date handed to the code under test
#[derive(Clone, Copy, Debug)]
pub struct Date2 {
    pub d1: f64,
    pub d2: f64,
    pub kind: &'static str,
}

impl Date2 {
    pub fn t(&self) -> (f64, f64) {
        (self.d1, self.d2)
    }
    /// Exact instant, days from J2000
    pub fn days(&self) -> Dd {
        let a = two_sum(self.d1, -DJ00);
        a + self.d2
    }
    pub fn centuries(&self) -> Dd {
        self.days() / 36525.0
    }
    /// What the documented combination of the parts can lose (days): the first part is
    /// referred to J2000, then the second is added.
    pub fn res(&self) -> f64 {
        if self.d1.abs() >= self.d2.abs() {
            2.0 * EPS * ((self.d1 - DJ00).abs() + self.d2.abs())
        } else {
            2.0 * EPS * (self.d1.abs() + DJ00 + self.d2.abs())
        }
    }
}

pub const KINDS: [&str; 12] = [
    "jd_whole",
    "j2000",
    "mjd",
    "date_fraction",
    "jd_second_part",
    "j2000_swapped",
    "mjd_swapped",
    "uneven",
    "negative_part",
    "halves",
    "large_opposite",
    "rounded_day",
];

/// Split the instant DJ00+x, x a multiple of 2^-20 day (|x| < 2^24), exactly
pub fn split_grid(r: &mut Rng, n: i64, kind: usize) -> Date2 {
    let q = 1048576.0;
    let x = n as f64 / q;
    let jd = DJ00 + x;
    let (d1, d2) = match kind {
        0 => (jd, 0.0),
        1 => (DJ00, x),
        2 => (2400000.5, x + 51544.5),
        3 => {
            let a = (jd - 0.5).floor() + 0.5;
            (a, jd - a)
        }
        4 => (0.0, jd),
        5 => (x, DJ00),
        6 => (x + 51544.5, 2400000.5),
        7 => {
            let u = r.int(-4000 * 1048576, 4000 * 1048576) as f64 / q;
            (DJ00 + u, x - u)
        }
        8 => {
            let u = r.int(0, 400000) as f64 + 0.25;
            if r.bool() {
                (jd + u, -u)
            } else {
                (-u, jd + u)
            }
        }
        9 => (jd / 2.0, jd / 2.0),
        10 => {
            let u = r.int(5_000_000, 15_000_000) as f64;
            if r.bool() {
                (u, jd - u)
            } else {
                (jd - u, u)
            }
        }
        _ => (jd.round(), jd - jd.round()),
    };
    Date2 { d1, d2, kind: KINDS[kind] }
}

/// A two-part date within `span` days of J2000, fine-grained
pub fn date2(r: &mut Rng, span: f64) -> Date2 {
    let x = match r.below(8) {
        0 => r.int(-(span as i64), span as i64) as f64,
        1 => r.int(-(span as i64), span as i64) as f64 + 0.5,
        2 => r.sign() * r.logu(1e-9, span),
        3 => r.range(-36525.0f64.min(span), 36525.0f64.min(span)),
        4 => r.range(-0.9, 1.1).min(span) * span.min(36525.0),
        _ => r.range(-span, span),
    };
    date2_at(r, x.clamp(-span, span))
}

/// Some instant of the given day (from J2000): its start, its middle or anywhere
pub fn date_of_day(r: &mut Rng, day: i64) -> Date2 {
    let f = match r.below(4) {
        0 => 0.0,
        1 => 0.5,
        _ => r.f(),
    };
    date2_at(r, day as f64 + f)
}

/// The instant DJ00+x in some split; half of the time with finer fractions
pub fn date2_at(r: &mut Rng, x: f64) -> Date2 {
    let kind = r.below(12) as usize;
    if r.bool() {
        // fine fractions, which only the precise splits can hold
        let jd = DJ00 + x;
        let (d1, d2) = match kind {
            0 => (jd, 0.0),
            1 => (DJ00, x),
            2 => (2400000.5, x + 51544.5),
            3 => {
                let a = (jd - 0.5).floor() + 0.5;
                (a, r.f())
            }
            4 => (0.0, jd),
            5 => (x, DJ00),
            6 => (x + 51544.5, 2400000.5),
            7 => {
                let u = r.range(-4000.0, 4000.0);
                (DJ00 + u, x - u)
            }
            8 => {
                let u = r.range(0.0, 400000.0);
                if r.bool() {
                    (jd + u, -u)
                } else {
                    (-u, jd + u)
                }
            }
            9 => (jd / 2.0, jd / 2.0),
            10 => {
                let u = r.int(5_000_000, 15_000_000) as f64;
                if r.bool() {
                    (u, jd - u)
                } else {
                    (jd - u, u)
                }
            }
            _ => (jd.round(), r.range(-0.5, 0.5)),
        };
        Date2 { d1, d2, kind: KINDS[kind] }
    } else {
        let n = (x * 1048576.0) as i64;
        split_grid(r, n, kind)
    }
}

pub const SPAN_10CY: f64 = 365250.0 - 1.0;
pub const SPAN_100CY: f64 = 3652500.0 - 1.0;

/// The same instant nudged below the resolution of double parts (for tiny offsets)
pub fn nudge(r: &mut Rng, d: Date2) -> Date2 {
    let mut d = d;
    if r.chance(0.2) {
        d.d2 += r.sign() * r.logu(1e-16, 1e-6);
    }
    d
}
