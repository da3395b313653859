//! The monitors, one function per property.
pub mod cal;
pub mod cli;
pub mod elem;
pub mod eph;
pub mod frames;
pub mod geo;
pub mod linalg;
pub mod pure;
pub mod sun;
pub mod timep;
pub mod values;

use crate::fw::Prop;

pub fn all() -> Vec<Prop> {
    vec![
        cal::c01(),
        cal::c02(),
        cal::c03(),
        cal::c04(),
        cal::c05(),
        cal::c06(),
        timep::c07(),
        timep::c08(),
        elem::c09(),
        geo::c10(),
        geo::c11(),
        geo::c12(),
        geo::c13(),
        linalg::c14(),
        linalg::c15(),
        linalg::c16(),
        frames::c17(),
        frames::c18(),
        frames::c19(),
        frames::c20(),
        frames::c21(),
        frames::c22(),
        frames::c23(),
        frames::c24(),
        frames::c25(),
        eph::c26(),
        eph::c27(),
        eph::c28(),
        eph::c29(),
        sun::c30(),
        sun::c31(),
        cal::c32(),
        pure::c33(),
        pure::c34(),
        cli::c35(),
        sun::c36(),
        values::c37(),
    ]
}
