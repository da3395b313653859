//! Seeded generator (xoshiro256**), and the boundary-biased draws shared by the workloads.
use crate::dict;

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    /// The latest draws: now and then one comes again, for another parameter
    seen: [f64; 4],
    at: usize,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(32).wrapping_mul(0x9e3779b97f4a7c15);
    splitmix(&mut x)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Rng { s, seen: [0.0; 4], at: 0 }
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in [0,n)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    fn keep(&mut self, x: f64) -> f64 {
        self.seen[self.at & 3] = x;
        self.at += 1;
        x
    }
    /// Rarely a boundary of the dictionary or an earlier draw
    #[inline]
    fn special(&mut self, u: u64, a: f64, b: f64) -> Option<f64> {
        if u & 0x78 == 0 {
            dict::special(self, u, a, b)
        } else if u & 0x7f == 8 {
            self.echo(u, a, b)
        } else {
            None
        }
    }
    #[cold]
    fn echo(&mut self, u: u64, a: f64, b: f64) -> Option<f64> {
        // an end of the interval, or zero
        match (u >> 43) & 15 {
            0 => return Some(a),
            1 => return Some(b),
            2 | 3 if a <= 0.0 && b >= 0.0 => return Some(0.0),
            _ => {}
        }
        let n = self.at.min(4) as u64;
        if n == 0 {
            return None;
        }
        let x = self.seen[((u >> 32) % n) as usize];
        let x = match (u >> 40) & 7 {
            0 | 1 => -x,
            2 if x != 0.0 => ulps(x, 1),
            3 if x != 0.0 => ulps(x, -1),
            _ => x,
        } + 0.0;
        (x >= a && x <= b && (x == 0.0 || x.abs() > 1e-40)).then_some(x)
    }
    /// Uniform in [a,b]
    pub fn int(&mut self, a: i64, b: i64) -> i64 {
        if b - a > 20 {
            let u = self.u64();
            if let Some(x) = self.special(u, a as f64, b as f64) {
                let k = x.round() as i64;
                if (a..=b).contains(&k) {
                    return k;
                }
            }
        }
        let k = a + self.below((b - a) as u64 + 1) as i64;
        self.keep(k as f64);
        k
    }
    /// Uniform in [0,1), nothing special
    pub fn raw(&mut self) -> f64 {
        (self.u64() >> 11) as f64 * (1.0 / 9007199254740992.0)
    }
    /// Uniform in [0,1)
    pub fn f(&mut self) -> f64 {
        let u = self.u64();
        if let Some(x) = self.special(u, 0.0, 1.0 - f64::EPSILON) {
            return x;
        }
        self.keep((u >> 11) as f64 * (1.0 / 9007199254740992.0))
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        let u = self.u64();
        if let Some(x) = self.special(u, a, b) {
            return x;
        }
        self.keep(a + (b - a) * ((u >> 11) as f64 * (1.0 / 9007199254740992.0)))
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.raw() < p
    }
    pub fn sign(&mut self) -> f64 {
        if self.bool() {
            1.0
        } else {
            -1.0
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Log-uniform magnitude in [a,b]
    pub fn logu(&mut self, a: f64, b: f64) -> f64 {
        let u = self.u64();
        if let Some(x) = self.special(u, a, b) {
            return x;
        }
        self.keep((a.ln() + (b.ln() - a.ln()) * ((u >> 11) as f64 * (1.0 / 9007199254740992.0))).exp())
    }
    /// x moved by a few ulps
    pub fn jitter(&mut self, x: f64, n: i64) -> f64 {
        let k = self.int(-n, n);
        ulps(x, k)
    }
    /// Any bit pattern, biased to special values
    pub fn wild(&mut self) -> f64 {
        match self.below(10) {
            0 => *self.pick(SPECIALS),
            1 => {
                let s = *self.pick(SPECIALS);
                self.jitter(s, 3)
            }
            2 => f64::from_bits(self.u64()),
            3 => self.int(-1000, 1000) as f64,
            4 => self.int(-4000, 4000) as f64 * 0.25,
            5 => self.range(-1.0, 1.0),
            6 => self.sign() * self.logu(1e-300, 1e300),
            7 => self.sign() * self.logu(1e-9, 1e9),
            8 => 2451545.0 + self.range(-1e6, 1e6),
            _ => self.range(-7.0, 7.0),
        }
    }
}

pub const SPECIALS: &[f64] = &[
    0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 24.0, 59.0, 60.0, 90.0, -90.0, 180.0, -180.0, 360.0, -360.0,
    86400.0, 86399.0, 365.25, 36525.0, -36525.0, 2400000.5, 2451545.0, 2451544.5, -32000.0, 1e9,
    std::f64::consts::PI, -std::f64::consts::PI, std::f64::consts::FRAC_PI_2, -std::f64::consts::FRAC_PI_2,
    2.0 * std::f64::consts::PI, -2.0 * std::f64::consts::PI, f64::MIN_POSITIVE, 5e-324, -5e-324,
    1e-20, -1e-20, f64::EPSILON, -f64::EPSILON, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0,
    4294967295.0, 4294967296.0, 9.3e18, -9.3e18, 1e19, 4503599627370496.0, 9007199254740992.0,
    f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e150, -1e150, 1e300, -1e300,
];

/// x moved by k representable values (finite x)
pub fn ulps(x: f64, k: i64) -> f64 {
    if !x.is_finite() {
        return x;
    }
    let b = x.to_bits() as i64;
    let o = if b < 0 { i64::MIN.wrapping_sub(b) } else { b };
    let o = o.saturating_add(k);
    let b = if o < 0 { i64::MIN.wrapping_sub(o) } else { o };
    let y = f64::from_bits(b as u64);
    if y.is_finite() {
        y
    } else {
        x
    }
}

/// Spacing of doubles at |x|
pub fn ulp(x: f64) -> f64 {
    let x = x.abs();
    if x < f64::MIN_POSITIVE {
        return 5e-324;
    }
    f64::from_bits(x.to_bits() + 1) - x
}
