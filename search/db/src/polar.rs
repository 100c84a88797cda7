//! P21: the two forms of an imaginary number
use crate::gen::*;
use crate::ints::{interesting, Num, N};
use crate::*;
use sourisdb::types::imaginary::Imaginary;
use sourisdb::types::integer::Integer;
use std::f64::consts::PI;

fn bits(a: &Imaginary, b: &Imaginary) -> bool {
    match (a, b) {
        (Imaginary::PolarForm { modulus, argument }, Imaginary::PolarForm { modulus: m, argument: g }) => modulus.to_bits() == m.to_bits() && argument.to_bits() == g.to_bits(),
        (Imaginary::CartesianForm { real, imaginary }, Imaginary::CartesianForm { real: r, imaginary: i }) => int_num(*real) == int_num(*r) && int_num(*imaginary) == int_num(*i) && real == r && imaginary == i,
        _ => false,
    }
}
/// p is the point (x, y)
fn check_point(p: &Imaginary, x: f64, y: f64) -> R {
    let Imaginary::PolarForm { modulus: m, argument: a } = *p else { return Err(format!("{p:?} is not in polar form")) };
    let h = x.hypot(y);
    if !h.is_finite() { return Ok(()); }
    ensure(m >= 0.0 && m.is_finite(), || format!("the modulus is {m}"))?;
    ensure((-PI..=PI).contains(&a), || format!("the argument is {a}"))?;
    let tol = h * 1e-14 + 1e-320;
    ensure((m - h).abs() <= tol, || format!("the modulus is {m} instead of {h}"))?;
    ensure((m * a.cos() - x).abs() <= tol && (m * a.sin() - y).abs() <= tol, || format!("{m} e^({a}i) is {} and {}i instead of {x} and {y}i", m * a.cos(), m * a.sin()))
}
/// the whole number a float comes to
fn whole(x: f64) -> Option<Num> {
    if !x.is_finite() || x.fract().abs() > f64::EPSILON { return None; }
    let t = x.trunc();
    if t < 0.0 { if t >= -(2f64.powi(127)) { Some(Num::i(t as i128)) } else { None } } else if t < 2f64.powi(128) { Some(Num::u(t as u128)) } else { None }
}
fn check_polar(m: f64, a: f64) -> R {
    let p = Imaginary::PolarForm { modulus: m, argument: a };
    let q = p.to_polar_form();
    ensure(bits(&p, &q), || format!("in polar form it is {q:?}"))?;
    let want = (whole(m * a.cos()), whole(m * a.sin()));
    match (p.to_cartesian_form(), want) {
        (Ok(Imaginary::CartesianForm { real, imaginary }), (Some(x), Some(y))) => ensure(int_num(real) == x && int_num(imaginary) == y, || format!("came to {real} and {imaginary}i instead of {} and {}i", m * a.cos(), m * a.sin())),
        (Err((q, _)), (None, _) | (_, None)) => ensure(bits(&p, &q), || format!("was returned as {q:?}")),
        (r, _) => Err(format!("came to {r:?}, but the parts are {} and {}i", m * a.cos(), m * a.sin())),
    }
}
fn check_cartesian(real: Integer, imaginary: Integer) -> R {
    let c = Imaginary::CartesianForm { real, imaginary };
    match c.to_cartesian_form() { Ok(d) if bits(&c, &d) => {} r => return Err(format!("in cartesian form it is {r:?}")) }
    let (x, y) = (num_f64(real), num_f64(imaginary));
    check_point(&c.to_polar_form(), x, y)
}
fn num_f64(i: Integer) -> f64 { match u128::try_from(i) { Ok(u) => u as f64, Err(_) => i128::try_from(i).unwrap_or_default() as f64 } }

pub fn p21(t: &mut T) {
    let lits = t.lits.clone();
    let mut fs = vec![0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 3.0, -4.0, 5.0, 12.0, -13.0, 1e-300, -1e-300, 5e-324, -5e-324, f64::MIN_POSITIVE, 1e-8, 1e8, -1e16, 1e155, -1e155, 1e300, -1e300, f64::EPSILON, PI, -PI, PI / 2.0, -PI / 2.0, PI / 4.0, 3.0 * PI / 4.0, 2.0 * PI, 3.0 * PI, -2.0 * PI, 255.0, 256.0, 9007199254740993.0, 2f64.powi(63), 2f64.powi(64), -(2f64.powi(63)), 2f64.powi(127), -(2f64.powi(127)), 2f64.powi(128)];
    for f in lits.floats.iter().copied().chain(lits.ints.iter().map(|i| *i as f64)) { for g in [f, -f, f + 1.0, f - 1.0, f * (1.0 + f64::EPSILON), f * (1.0 - f64::EPSILON)] { if g.is_finite() && fs.len() < 260 { fs.push(g); } } }
    let all: Vec<f64> = fs.iter().copied().chain([f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN, f64::MAX, f64::MIN]).collect();
    for &x in &fs { for &y in &fs {
        t.sub("polar from cartesian"); t.case(|| format!("polar_from_cartesian({x:?}, {y:?})"), || check_point(&Imaginary::polar_from_cartesian(x, y), x, y));
    } }
    for &m in &all { for &a in &all { t.sub("polar"); t.case(|| format!("PolarForm {{ modulus: {m:?}, argument: {a:?} }}"), || check_polar(m, a)); } }
    t.sub("cartesian");
    let small: Vec<N> = [0i128, 1, -1, 3, -4, 5, -128, 127, 255, 256, 1 << 70, -(1 << 70), i128::MAX, i128::MIN].into_iter().flat_map(|n| N::all_of(Num::i(n))).chain([N::U128(u128::MAX)]).collect();
    for n in interesting(t) { for v in N::all_of(n) { for w in [small[0], small[small.len() / 3], small[small.len() - 1], v] { let (i, k) = (v.int(), w.int()); t.case(|| format!("CartesianForm {i:?}, {k:?}"), || check_cartesian(i, k)); t.case(|| format!("CartesianForm {k:?}, {i:?}"), || check_cartesian(k, i)); } } }
    for v in &small { for w in &small { let (i, k) = (v.int(), w.int()); t.case(|| format!("CartesianForm {i:?}, {k:?}"), || check_cartesian(i, k)); } }
    for x in -60i64..=60 { for y in -60i64..=60 {
        t.sub("cartesian"); t.case(|| format!("CartesianForm {x}, {y}"), || check_cartesian(x.into(), y.into()));
        t.sub("polar"); let p = (x as f64).hypot(y as f64); let a = (y as f64).atan2(x as f64); for (m, b) in [(p, a), (-p, a), (p, a + PI), (p, a - 2.0 * PI), (x as f64, y as f64), (x as f64, y as f64 * PI / 12.0)] { t.case(|| format!("PolarForm {{ modulus: {m:?}, argument: {b:?} }}"), || check_polar(m, b)); }
    } }
    while t.time_left() {
        let (x, y) = (t.rng.next(), t.rng.next());
        let (f, g) = match t.rng.below(4) { 0 => (f64::from_bits(x), f64::from_bits(y)), 1 => (x as i64 as f64 / 2f64.powi((y % 90) as i32), y as i64 as f64 / 2f64.powi((x % 90) as i32)), 2 => ((x % 4001) as f64 - 2000.0, (y % 4001) as f64 - 2000.0), _ => (*t.rng.pick(&fs), f64::from_bits((y & 0x000f_ffff_ffff_ffff) | ((1015 + x % 20) << 52) | (y & 1) << 63)) };
        t.sub("polar from cartesian"); if f.is_finite() && g.is_finite() { for (a, b) in [(f, g), (g, f)] { t.case(|| format!("polar_from_cartesian({a:?}, {b:?})"), || check_point(&Imaginary::polar_from_cartesian(a, b), a, b)); } }
        t.sub("polar"); for (m, a) in [(f, g), (g, f), (f.hypot(g), g.atan2(f))] { t.case(|| format!("PolarForm {{ modulus: {m:?}, argument: {a:?} }}"), || check_polar(m, a)); }
        t.sub("cartesian"); let (a, b) = (rand_int(&mut t.rng, &lits), rand_int(&mut t.rng, &lits)); t.case(|| format!("CartesianForm {a:?}, {b:?}"), || check_cartesian(a, b));
    }
}
