use crate::*;
use sourisdb::chrono::{NaiveDate, NaiveDateTime, NaiveTime, Timelike};
use sourisdb::chrono_tz::{Tz, TZ_VARIANTS};
use sourisdb::hashbrown::HashMap;
use sourisdb::serde_json::{self, Value as SJ};
use sourisdb::types::{binary::BinaryData, imaginary::Imaginary, integer::Integer};
use sourisdb::values::Value;
use std::net::{Ipv4Addr, Ipv6Addr};

pub fn show(v: &[u8]) -> String {
    if v.len() > 40 {
        // as runs
        let mut s = format!("{} bytes as runs: ", v.len());
        let mut i = 0; let mut n = 0;
        while i < v.len() && n < 300 { let mut j = i; while j < v.len() && v[j] == v[i] { j += 1; } s += &format!("{}x{} ", v[i], j - i); i = j; n += 1; }
        if i < v.len() { s += "…"; }
        s
    } else { format!("{v:?}") }
}
pub fn lit_lens(l: &Lits, max: usize) -> Vec<usize> {
    let mut v = vec![];
    for i in l.ints.iter().take(60) { for d in -1..=1i128 { if let Ok(n) = usize::try_from(i.saturating_add(d)) { if n <= max { v.push(n); } } } }
    v.sort(); v.dedup(); v
}
pub fn lit_chars(l: &Lits) -> Vec<char> {
    let mut v: Vec<char> = l.strs.iter().take(60).flat_map(|s| s.chars().take(4)).collect();
    for i in l.ints.iter().take(60) { for d in -1..=1i128 { v.extend(u32::try_from(i.saturating_add(d)).ok().and_then(char::from_u32)); } }
    v.sort(); v.dedup(); v
}
pub fn rand_bytes(r: &mut Rng, l: &Lits) -> Vec<u8> {
    let lens = lit_lens(l, 3000);
    let n = match r.below(8) { 0 => r.below(4), 1 | 2 => r.below(20), 3 => r.below(100), 4 => r.below(400), 5 => 230 + r.below(40), 6 if !lens.is_empty() => *r.pick(&lens), _ => r.below(1500) };
    let alpha: Vec<u8> = { let k = match r.below(4) { 0 => 1, 1 => 2, 2 => 1 + r.below(6), _ => 256 }; if k == 256 { (0..=255).collect() } else { (0..k).map(|_| if !l.ints.is_empty() && r.below(3) == 0 { *r.pick(&l.ints) as u8 } else { r.next() as u8 }).collect() } };
    let mut v: Vec<u8> = vec![];
    while v.len() < n {
        match r.below(4) {
            0 => { let b = *r.pick(&alpha); let k = match r.below(5) { 0 => 253 + r.below(5), 1 => r.below(600), _ => r.below(9) }; v.extend(std::iter::repeat(b).take(k)); }
            1 if v.len() > 4 => { let s = r.below(v.len()); let e = (s + r.below(40)).min(v.len()); let p = v[s..e].to_vec(); v.extend(p); }
            _ => v.push(*r.pick(&alpha)),
        }
    }
    v.truncate(n);
    v
}
pub fn rand_string(r: &mut Rng, l: &Lits) -> String {
    if !l.strs.is_empty() && r.below(6) == 0 { let mut s = r.pick(&l.strs).clone(); if r.below(3) == 0 { s += "x"; } return s; }
    let n = match r.below(6) { 0 => 0, 1 => 1, 2 => r.below(300), 3 => 235 + r.below(10), _ => r.below(14) };
    let lc = lit_chars(l);
    let kind = r.below(5);
    (0..n).map(|_| match kind {
        0 => 'a', 1 => (b'a' + r.below(3) as u8) as char, 2 => (32 + r.below(95) as u8) as char,
        3 => *r.pick(&['\0', '\u{1}', 'a', '"', '\\', '\n', 'é', 'ß', '\u{ff}', '中', '\u{d7ff}', '\u{e000}', '\u{ffff}', '🖖', '\u{10ffff}']),
        _ => loop { if !lc.is_empty() && r.below(4) == 0 { break *r.pick(&lc); } if let Some(c) = char::from_u32(r.next() as u32 % 0x11_0000) { break c; } },
    }).collect()
}
pub fn rand_int(r: &mut Rng, l: &Lits) -> Integer {
    let n = if !l.ints.is_empty() && r.below(5) == 0 { crate::ints::Num::i(*r.pick(&l.ints)) } else { crate::ints::random_num(r) };
    let all = crate::ints::N::all_of(n);
    r.pick(&all).int()
}
pub fn rand_f64(r: &mut Rng) -> f64 {
    match r.below(6) { 0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 5e-324, 1e300, -2.5]), 1 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]), 2 => (r.below(2001) as f64) - 1000.0, _ => f64::from_bits(r.next()) }
}
pub fn rand_ts(r: &mut Rng, l: &Lits, leap: bool) -> NaiveDateTime {
    let li = |r: &mut Rng| -> Option<i128> { if l.ints.is_empty() { None } else { Some(*r.pick(&l.ints)) } };
    loop {
        let year = match r.below(6) { 0 => r.below(4000) as i32 - 1000, 1 => *r.pick(&[-262142, 262141, 0, -1, 1, 9999, 10000, -9999, 1970, 2000, 239, 240, 255, 256, -16, -17, -256, -257, -240]), 2 => r.next() as i32 % 262_000, 3 => li(r).unwrap_or(2024) as i32, _ => 1900 + r.below(200) as i32 };
        let Some(d) = NaiveDate::from_ymd_opt(year, 1 + r.below(12) as u32, 1 + r.below(31) as u32) else { continue };
        let ns = match r.below(6) { 0 => 0, 1 => 999_999_999, 2 => r.below(1000) as u32, 3 => r.below(1000) as u32 * 1_000_000, 4 => li(r).unwrap_or(0).rem_euclid(1_000_000_000) as u32, _ => r.below(1_000_000_000) as u32 };
        let ns = if leap && r.below(4) == 0 { ns + 1_000_000_000 } else { ns };
        let sec = if r.below(4) == 0 { 59 } else { r.below(60) as u32 };
        let Some(t) = NaiveTime::from_hms_opt(r.below(24) as u32, if r.below(4) == 0 { 59 } else { r.below(60) as u32 }, sec).and_then(|t| t.with_nanosecond(ns)) else { continue };
        return NaiveDateTime::new(d, t);
    }
}
/// whether serde_json itself reads back the text it writes for this number (see KNOWN_FINDINGS)
pub fn json_float_ok(f: f64) -> bool { serde_json::from_str::<SJ>(&SJ::from(f).to_string()).ok() == Some(SJ::from(f)) }
pub fn rand_sj(r: &mut Rng, l: &Lits, d: usize) -> SJ {
    match r.below(if d == 0 { 6 } else { 9 }) {
        0 => SJ::Null, 1 => SJ::Bool(r.flip()),
        2 => SJ::from(r.next()), 3 => SJ::from(r.next() as i64 >> r.below(64)),
        4 => { let f = rand_f64(r); if f.is_finite() && json_float_ok(f) { SJ::from(f) } else { SJ::from(0.5) } }
        5 => SJ::String(rand_string(r, l)),
        6 | 7 => { let n = r.below(5); SJ::Array((0..n).map(|_| rand_sj(r, l, d - 1)).collect()) }
        _ => { let n = r.below(5); SJ::Object((0..n).map(|_| (rand_string(r, l), rand_sj(r, l, d - 1))).collect()) }
    }
}
pub fn rand_imag(r: &mut Rng, l: &Lits) -> Imaginary {
    if r.flip() { Imaginary::CartesianForm { real: rand_int(r, l), imaginary: rand_int(r, l) } } else { Imaginary::PolarForm { modulus: rand_f64(r), argument: rand_f64(r) } }
}
pub fn rand_ip6(r: &mut Rng) -> Ipv6Addr { let mut s = [0u16; 8]; for x in &mut s { *x = match r.below(4) { 0 => 0, 1 => r.below(256) as u16, _ => r.next() as u16 } } Ipv6Addr::from(s) }
pub fn rand_tz(r: &mut Rng) -> Tz { *r.pick(&TZ_VARIANTS) }
pub fn rand_char(r: &mut Rng, l: &Lits) -> char {
    let lc = lit_chars(l);
    match r.below(4) { 0 => *r.pick(&['\0', '\u{1}', 'a', '\u{ef}', '\u{f0}', '\u{ff}', '\u{100}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}']), 1 if !lc.is_empty() => *r.pick(&lc), _ => loop { if let Some(c) = char::from_u32(r.next() as u32 % 0x11_0000) { break c; } } }
}
pub fn rand_scalar(r: &mut Rng, l: &Lits) -> Value {
    match r.below(10) {
        0 => Value::Character(rand_char(r, l)), 1 => Value::Boolean(r.flip()), 2 | 3 => Value::Integer(rand_int(r, l)), 4 => Value::Imaginary(rand_imag(r, l)),
        5 => Value::Timestamp(rand_ts(r, l, true)), 6 => Value::Null(()), 7 => Value::SingleFloat(match r.below(4) { 0 => rand_f64(r) as f32, _ => f32::from_bits(r.next() as u32) }),
        8 => Value::DoubleFloat(rand_f64(r)), _ => if r.flip() { Value::Ipv4Addr(Ipv4Addr::from(r.next() as u32)) } else { Value::Ipv6Addr(rand_ip6(r)) },
    }
}
pub fn list_len(r: &mut Rng) -> usize { match r.below(12) { 0 => 0, 1 => 1, 2 => 6, 3 => 7, 4 => 8, 5 => r.below(20), 6 => if r.below(40) == 0 { 239 + r.below(20) } else { 5 }, _ => r.below(5) } }
pub fn rand_value(r: &mut Rng, l: &Lits, d: usize) -> Value {
    match r.below(if d == 0 { 8 } else { 12 }) {
        0 | 1 => Value::String(rand_string(r, l)), 2 => Value::Binary(BinaryData({ let mut b = rand_bytes(r, l); b.truncate(700); b })), 3 => Value::JSON(rand_sj(r, l, 3)), 4 => Value::Timezone(rand_tz(r)),
        5..=7 => rand_scalar(r, l),
        8 | 9 => { let n = list_len(r); Value::Array((0..n).map(|_| rand_value(r, l, d - 1)).collect()) }
        _ => { let n = list_len(r); Value::Map((0..n).map(|k| (if r.flip() { format!("{k}") } else { rand_string(r, l) }, rand_value(r, l, d - 1))).collect::<HashMap<_, _>>()) }
    }
}
pub fn int_num(i: Integer) -> crate::ints::Num { match u128::try_from(i) { Ok(u) => crate::ints::Num::u(u), Err(_) => crate::ints::Num::i(i128::try_from(i).unwrap_or(12345678901234567890)) } }
/// the same kind and contents, bit for bit
pub fn same(a: &Value, b: &Value) -> bool {
    let f = |x: f64, y: f64| x.to_bits() == y.to_bits();
    let i = |x: Integer, y: Integer| int_num(x) == int_num(y) && x == y;
    match (a, b) {
        (Value::Character(x), Value::Character(y)) => x == y, (Value::String(x), Value::String(y)) => x == y, (Value::Binary(x), Value::Binary(y)) => x.0 == y.0,
        (Value::Boolean(x), Value::Boolean(y)) => x == y, (Value::Integer(x), Value::Integer(y)) => i(*x, *y),
        (Value::Imaginary(Imaginary::CartesianForm { real, imaginary }), Value::Imaginary(Imaginary::CartesianForm { real: r2, imaginary: i2 })) => i(*real, *r2) && i(*imaginary, *i2),
        (Value::Imaginary(Imaginary::PolarForm { modulus, argument }), Value::Imaginary(Imaginary::PolarForm { modulus: m2, argument: a2 })) => f(*modulus, *m2) && f(*argument, *a2),
        (Value::Timestamp(x), Value::Timestamp(y)) => x == y && x.nanosecond() == y.nanosecond(), (Value::JSON(x), Value::JSON(y)) => x == y, (Value::Null(()), Value::Null(())) => true,
        (Value::SingleFloat(x), Value::SingleFloat(y)) => x.to_bits() == y.to_bits(), (Value::DoubleFloat(x), Value::DoubleFloat(y)) => f(*x, *y),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (Value::Map(x), Value::Map(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).map_or(false, |q| same(p, q))),
        (Value::Timezone(x), Value::Timezone(y)) => x == y, (Value::Ipv4Addr(x), Value::Ipv4Addr(y)) => x.octets() == y.octets(), (Value::Ipv6Addr(x), Value::Ipv6Addr(y)) => x.octets() == y.octets(),
        _ => false,
    }
}
