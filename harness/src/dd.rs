//! Double-double arithmetic (about 31 digits) for the reference models.
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dd {
    pub h: f64,
    pub l: f64,
}

pub fn two_sum(a: f64, b: f64) -> Dd {
    let s = a + b;
    let bb = s - a;
    let e = (a - (s - bb)) + (b - bb);
    Dd { h: s, l: e }
}
fn quick(a: f64, b: f64) -> Dd {
    let s = a + b;
    Dd { h: s, l: b - (s - a) }
}
pub fn two_prod(a: f64, b: f64) -> Dd {
    let p = a * b;
    Dd { h: p, l: a.mul_add(b, -p) }
}
pub const fn dd(h: f64) -> Dd {
    Dd { h, l: 0.0 }
}
pub const PI2: Dd = Dd { h: 6.283185307179586, l: 2.4492935982947064e-16 };
pub const PI1: Dd = Dd { h: 3.141592653589793, l: 1.2246467991473532e-16 };

impl Dd {
    pub fn f(self) -> f64 {
        self.h + self.l
    }
    pub fn abs(self) -> Dd {
        if self.h < 0.0 || (self.h == 0.0 && self.l < 0.0) {
            -self
        } else {
            self
        }
    }
    pub fn lt(self, o: Dd) -> bool {
        let d = self - o;
        d.h < 0.0 || (d.h == 0.0 && d.l < 0.0)
    }
    pub fn floor(self) -> Dd {
        let f = self.h.floor();
        if f == self.h {
            quick(f, self.l.floor())
        } else {
            dd(f)
        }
    }
    pub fn sqrt(self) -> Dd {
        if self.h <= 0.0 {
            return dd(0.0);
        }
        let x = self.h.sqrt();
        let r = self - two_prod(x, x);
        quick(x, r.h / (2.0 * x))
    }
    /// The multiple of m nearest zero distance: self - m*round(self/m)
    pub fn rem_near(self, m: Dd) -> Dd {
        let k = (self / m).h.round();
        self - m * k
    }
    /// (sin, cos) to about 1e-16 absolute
    pub fn sincos(self) -> (f64, f64) {
        let r = self.rem_near(PI2);
        let (s, c) = r.h.sin_cos();
        (s + c * r.l, c - s * r.l)
    }
}
impl Add for Dd {
    type Output = Dd;
    fn add(self, o: Dd) -> Dd {
        let s = two_sum(self.h, o.h);
        let t = two_sum(self.l, o.l);
        let s = quick(s.h, s.l + t.h);
        quick(s.h, s.l + t.l)
    }
}
impl Add<f64> for Dd {
    type Output = Dd;
    fn add(self, o: f64) -> Dd {
        self + dd(o)
    }
}
impl Neg for Dd {
    type Output = Dd;
    fn neg(self) -> Dd {
        Dd { h: -self.h, l: -self.l }
    }
}
impl Sub for Dd {
    type Output = Dd;
    fn sub(self, o: Dd) -> Dd {
        self + (-o)
    }
}
impl Sub<f64> for Dd {
    type Output = Dd;
    fn sub(self, o: f64) -> Dd {
        self + dd(-o)
    }
}
impl Mul for Dd {
    type Output = Dd;
    fn mul(self, o: Dd) -> Dd {
        let p = two_prod(self.h, o.h);
        quick(p.h, p.l + (self.h * o.l + self.l * o.h))
    }
}
impl Mul<f64> for Dd {
    type Output = Dd;
    fn mul(self, o: f64) -> Dd {
        let p = two_prod(self.h, o);
        quick(p.h, p.l + self.l * o)
    }
}
impl Div for Dd {
    type Output = Dd;
    fn div(self, o: Dd) -> Dd {
        let q1 = self.h / o.h;
        let r = self - o * q1;
        let q2 = r.h / o.h;
        let r = r - o * q2;
        let q3 = r.h / o.h;
        quick(q1, q2) + q3
    }
}
impl Div<f64> for Dd {
    type Output = Dd;
    fn div(self, o: f64) -> Dd {
        self / dd(o)
    }
}
/// Polynomial in dd, coefficients from degree 0 up
pub fn poly(t: Dd, c: &[f64]) -> Dd {
    let mut r = dd(0.0);
    for k in c.iter().rev() {
        r = r * t + *k;
    }
    r
}
