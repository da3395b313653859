//! A dictionary of boundary values for the workload generators: the numeric literals of the source
//! under test, as they are and in the usual other units. It only steers which inputs are tried; no
//! verdict depends on it. Literals that were not in the tree the harness was calibrated on are
//! tried far more often: a change usually brings its own boundaries along.
use crate::rng::{ulps, Rng};
use std::collections::BTreeSet;
use std::sync::OnceLock;

struct Dict {
    /// Sorted
    fresh: Vec<f64>,
    /// The fresh literals as written, of both signs
    raw: Vec<f64>,
    base: Vec<f64>,
    fresh_literals: Vec<f64>,
}
static DICT: OnceLock<Dict> = OnceLock::new();
const CALIBRATED: &str = include_str!("base_literals.txt");
const FILES: &[&str] = &[
    "tofas/src/calendar.rs",
    "tofas/src/common.rs",
    "tofas/src/delta_at.rs",
    "tofas/src/earth.rs",
    "tofas/src/ellipsoid.rs",
    "tofas/src/epv00_data.rs",
    "tofas/src/frames.rs",
    "tofas/src/fundargs.rs",
    "tofas/src/lib.rs",
    "tofas/src/locator.rs",
    "tofas/src/time.rs",
    "tofas_extras/src/lib.rs",
    "tofas_extras/src/sun_angle.rs",
    "tofas_extras/examples/julian_tool.rs",
    "tofas_extras/examples/sun_angle_tool.rs",
];

/// Numeric literals of one line of Rust (comments and texts left out)
fn literals(line: &str, out: &mut Vec<f64>) {
    let line = line.split("//").next().unwrap_or("");
    let b: Vec<char> = line.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '"' {
            i += 1;
            while i < b.len() && b[i] != '"' {
                i += if b[i] == '\\' { 2 } else { 1 };
            }
            i += 1;
            continue;
        }
        if b[i].is_alphabetic() || b[i] == '_' {
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            continue;
        }
        if b[i].is_ascii_digit() {
            let mut s = String::new();
            if b[i] == '0' && i + 1 < b.len() && "xbo".contains(b[i + 1]) {
                let radix = match b[i + 1] {
                    'x' => 16,
                    'b' => 2,
                    _ => 8,
                };
                i += 2;
                while i < b.len() && (b[i].is_digit(radix) || b[i] == '_') {
                    if b[i] != '_' {
                        s.push(b[i]);
                    }
                    i += 1;
                }
                if let Ok(v) = u64::from_str_radix(&s, radix) {
                    out.push(v as f64);
                    out.push(f64::from_bits(v));
                }
            } else {
                while i < b.len() {
                    let c = b[i];
                    let exp = s.ends_with('e') || s.ends_with('E');
                    let next_ok = |k: usize| k < b.len() && (b[k].is_ascii_digit() || ((b[k] == '-' || b[k] == '+') && k + 1 < b.len() && b[k + 1].is_ascii_digit()));
                    if c.is_ascii_digit() || ((c == '-' || c == '+') && exp) {
                        s.push(c);
                    } else if c == '.' && !s.contains('.') && !(i + 1 < b.len() && (b[i + 1] == '.' || b[i + 1].is_alphabetic())) {
                        s.push(c);
                    } else if (c == 'e' || c == 'E') && !s.contains('e') && next_ok(i + 1) {
                        s.push('e');
                    } else if c != '_' {
                        break;
                    }
                    i += 1;
                }
                if let Ok(v) = s.parse::<f64>() {
                    out.push(v);
                }
            }
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            continue;
        }
        i += 1;
    }
}

/// Where the harness takes the library from
fn crates_dir() -> Option<String> {
    let d = std::env::var("HARNESS_DIR").ok()?;
    let t = std::fs::read_to_string(format!("{d}/Cargo.toml")).ok()?;
    let l = t.lines().find(|l| l.starts_with("tofas ="))?;
    let p = l.split('"').nth(1)?;
    Some(p.strip_suffix("/tofas")?.to_string())
}

/// All literals, and those outside tables
fn harvest() -> (Vec<f64>, Vec<f64>) {
    let (mut all, mut plain) = (vec![], vec![]);
    if let Some(d) = crates_dir() {
        for f in FILES {
            for l in std::fs::read_to_string(format!("{d}/{f}")).unwrap_or_default().lines() {
                let mut v = vec![];
                literals(l, &mut v);
                all.extend(&v);
                if v.len() < 4 && !f.contains("_data") {
                    plain.extend(&v);
                }
            }
        }
    }
    (all, plain)
}

/// The list for base_literals.txt
pub fn print_literals() {
    let s: BTreeSet<u64> = harvest().0.iter().map(|x| x.to_bits()).collect();
    for x in s {
        println!("{x:x}");
    }
}

/// Neither infinities, nor values whose products underflow, nor negative zeros
fn tidy(v: &mut Vec<f64>) {
    v.retain(|x| x.is_finite() && (*x == 0.0 || x.abs() > 1e-40));
    for x in v.iter_mut() {
        *x += 0.0;
    }
}
/// A literal in every unit the interfaces take
fn spread(ls: &[f64]) -> Vec<f64> {
    let deg = std::f64::consts::PI / 180.0;
    let pi = std::f64::consts::PI;
    let units = [
        1.0, 86400.0, 3600.0, 60.0, 24.0, 1440.0, 365.25, 365.0, 36525.0, 365250.0, deg, deg / 3600.0, pi, 2.0 * pi, 1e3, 1e6, 149597870700.0, 6378137.0,
        15.0, 360.0, 0.5,
    ];
    let mut v = vec![];
    for &l in ls {
        if !l.is_finite() {
            continue;
        }
        for u in units {
            for x in [l * u, l / u] {
                v.push(x);
                v.push(-x);
            }
        }
        v.extend([l - 2451545.0, l - 51544.5, l - 2400000.5, l + 2451545.0, l + 2400000.5, (l - 2000.0) * 365.25, (l - 2000.0) * 365.25 + 0.5]);
        if l.fract() == 0.0 && l.abs() < 1e9 {
            v.extend([l - 1.0, l + 1.0, 2000.0 + l, 2000.0 - l, 1.0 - l]);
        }
        if l > 0.0 {
            v.extend([l.sqrt(), l * l]);
        }
        if l.abs() <= 1.0 {
            v.extend([l.asin(), l.acos(), l.asin() / deg, l.acos() / deg, 1.0 - l, l - 1.0]);
        }
        v.extend([l.atan(), l.sin(), l.cos(), pi - l, pi / 2.0 - l, 2.0 * pi - l, 90.0 - l, 180.0 - l, l - 180.0, 360.0 - l]);
    }
    tidy(&mut v);
    v.sort_by(|a, b| a.total_cmp(b));
    v.dedup();
    v
}

fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        if cfg!(miri) {
            return Dict { fresh: vec![], raw: vec![], base: vec![], fresh_literals: vec![] };
        }
        let known: std::collections::HashSet<u64> = CALIBRATED.lines().filter_map(|l| u64::from_str_radix(l.trim(), 16).ok()).collect();
        let uniq = |v: Vec<f64>| -> Vec<f64> {
            let s: BTreeSet<u64> = v.iter().map(|x| x.to_bits()).collect();
            s.into_iter().map(f64::from_bits).collect()
        };
        let (all, plain) = harvest();
        let fresh_literals = match std::env::var("VERIF_LITERALS") {
            // a replay brings the list of its run
            Ok(s) => s.split(',').filter_map(|x| u64::from_str_radix(x, 16).ok()).map(f64::from_bits).collect(),
            Err(_) => uniq(all.into_iter().filter(|x| !known.contains(&x.to_bits())).take(4000).collect()),
        };
        let plain = uniq(plain.into_iter().filter(|x| known.contains(&x.to_bits())).collect());
        let mut raw: Vec<f64> = fresh_literals.iter().copied().flat_map(|x| [x, -x]).collect();
        tidy(&mut raw);
        raw.sort_by(|a, b| a.total_cmp(b));
        Dict { fresh: spread(&fresh_literals), raw, base: spread(&plain), fresh_literals }
    })
}

/// For the replay file
pub fn fresh_list() -> String {
    dict().fresh_literals.iter().map(|x| format!("{:x}", x.to_bits())).collect::<Vec<_>>().join(",")
}
pub fn fresh_count() -> usize {
    dict().fresh_literals.len()
}

fn within(v: &[f64], a: f64, b: f64) -> &[f64] {
    let i = v.partition_point(|x| *x < a);
    let j = v.partition_point(|x| *x <= b);
    if i < j {
        &v[i..j]
    } else {
        &[]
    }
}

/// Called for every draw with some random bits of the draw itself; rarely answers a value in [a,b]
#[inline]
pub fn special(r: &mut Rng, bits: u64, a: f64, b: f64) -> Option<f64> {
    // one draw in 16 from the fresh list (if there is one), one in a thousand from the base list
    match bits & 0x7f {
        0..=7 if !dict().raw.is_empty() => draw(r, true, a, b),
        0 if bits & 0x380 == 0 => draw(r, false, a, b),
        _ => None,
    }
}
#[cold]
fn draw(r: &mut Rng, fresh: bool, a: f64, b: f64) -> Option<f64> {
    let d = dict();
    let mut v = within(if fresh { &d.raw } else { &d.base }, a, b);
    if fresh && (v.is_empty() || r.bool()) {
        v = within(&d.fresh, a, b);
    }
    if v.is_empty() {
        return None;
    }
    let x = v[r.below(v.len() as u64) as usize];
    let y = match r.below(8) {
        0..=2 => x,
        3 | 4 if x != 0.0 => {
            let k = r.below(7) as i64 - 3;
            ulps(x, k)
        }
        _ => {
            let e = (r.raw() * 25.0 - 27.0).exp();
            let s = if r.bool() { 1.0 } else { -1.0 };
            x + s * e * if r.bool() { x.abs() } else { 1.0 }
        }
    };
    Some(if y >= a && y <= b { y } else { x })
}
