use crate::*;
use sourisdb::types::integer::{FloatToIntegerConversionError as FE, Integer, SignedState};
use sourisdb::utilities::cursor::Cursor;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// A native value of one of the twelve types.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum N { U8(u8), U16(u16), U32(u32), U64(u64), Us(usize), U128(u128), I8(i8), I16(i16), I32(i32), I64(i64), Is(isize), I128(i128) }
use N::*;

/// sign and magnitude, so that all of u128 and i128 fit
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd)]
pub struct Num { pub neg: bool, pub mag: u128 }
impl Num {
    pub fn u(m: u128) -> Num { Num { neg: false, mag: m } }
    pub fn i(v: i128) -> Num { Num { neg: v < 0, mag: v.unsigned_abs() } }
    pub fn as_u128(self) -> Option<u128> { if self.neg { None } else { Some(self.mag) } }
    pub fn as_i128(self) -> Option<i128> {
        if self.neg { if self.mag <= 1 << 127 { Some((self.mag as i128).wrapping_neg()) } else { None } } else { i128::try_from(self.mag).ok() }
    }
}

macro_rules! all { ($m:ident) => { $m!(U8 u8, U16 u16, U32 u32, U64 u64, Us usize, U128 u128, I8 i8, I16 i16, I32 i32, I64 i64, Is isize, I128 i128) } }

impl N {
    pub fn num(self) -> Num {
        match self {
            U8(v) => Num::u(v as u128), U16(v) => Num::u(v as u128), U32(v) => Num::u(v as u128), U64(v) => Num::u(v as u128), Us(v) => Num::u(v as u128), U128(v) => Num::u(v),
            I8(v) => Num::i(v as i128), I16(v) => Num::i(v as i128), I32(v) => Num::i(v as i128), I64(v) => Num::i(v as i128), Is(v) => Num::i(v as i128), I128(v) => Num::i(v),
        }
    }
    pub fn int(self) -> Integer {
        macro_rules! m { ($($v:ident $t:ident),*) => { match self { $($v(x) => Integer::from(x)),* } } }
        all!(m)
    }
    pub fn named(self) -> Integer {
        macro_rules! m { ($($v:ident $t:ident),*) => { match self { $($v(x) => Integer::$t(x)),* } } }
        all!(m)
    }
    pub fn unsigned(self) -> bool { matches!(self, U8(_) | U16(_) | U32(_) | U64(_) | Us(_) | U128(_)) }
    /// every native type this number fits in
    pub fn all_of(n: Num) -> Vec<N> {
        let mut v = vec![];
        macro_rules! m { ($($v:ident $t:ident),*) => { $(
            if let Some(x) = n.as_u128().and_then(|x| <$t>::try_from(x).ok()).or_else(|| n.as_i128().and_then(|x| <$t>::try_from(x).ok())) { v.push($v(x)); }
        )* } }
        all!(m);
        v
    }
}

/// converts to every native type, and compares with what the number says
pub fn check_natives(i: Integer, n: Num) -> R {
    macro_rules! m { ($($v:ident $t:ident),*) => { $(
        let want: Option<$t> = n.as_u128().and_then(|x| <$t>::try_from(x).ok()).or_else(|| n.as_i128().and_then(|x| <$t>::try_from(x).ok()));
        let got = <$t>::try_from(i).ok();
        if want != got { return Err(format!("as {}: expected {:?}, got {:?}", stringify!($t), want, got)); }
    )* } }
    all!(m);
    Ok(())
}

pub fn interesting(t: &mut T) -> Vec<Num> {
    let mut v: Vec<Num> = vec![];
    let mut add = |m: u128| { for d in 0..=2u128 { for s in [m.wrapping_add(d), m.wrapping_sub(d)] { v.push(Num::u(s)); if s <= 1 << 127 { v.push(Num { neg: s != 0, mag: s }); } } } };
    for b in 0..128 { add(1 << b); }
    for k in [0u128, 15, 16, 17, 100, 127, 128, 200, 238, 239, 240, 241, 254, 255, 256, 257, 300, 511, 512, 65534, 65535, 65536, u128::MAX, i128::MAX as u128] { add(k); }
    // all bytes equal, single bytes, holes
    for b in [1u128, 0x7F, 0x80, 0xEF, 0xF0, 0xFF] { let mut x = 0u128; for k in 0..16 { add(b << (8 * k)); x |= b << (8 * k); add(x); add(!x); } }
    for l in t.lits.ints.clone() { add(l.unsigned_abs()); }
    v
}
pub fn random_num(r: &mut Rng) -> Num {
    let bits = r.below(129);
    let mut m = if bits == 0 { 0 } else { r.u128() >> (128 - bits) };
    match r.below(6) { 0 => m |= m << 8 & (0xFF00), 1 => { let k = 8 * r.below(16); m |= 0xFF << k } 2 => { let k = 8 * r.below(16); m &= !(0xFF << k) } _ => {} }
    let neg = r.flip() && m <= 1 << 127 && m != 0;
    Num { neg, mag: m }
}

fn natives(t: &mut T, mut f: impl FnMut(&mut T, N)) {
    for x in 0..=u16::MAX { f(t, U16(x)); f(t, I16(x as i16)); if x < 256 { f(t, U8(x as u8)); f(t, I8(x as u8 as i8)); } }
    for n in interesting(t) { for v in N::all_of(n) { f(t, v); } }
    while t.time_left() { let n = random_num(&mut t.rng); for v in N::all_of(n) { f(t, v); } }
}

pub fn p01(t: &mut T) {
    t.sub("native -> Integer -> native");
    natives(t, |t, v| t.case(|| format!("{v:?}"), || { check_natives(v.int(), v.num())?; check_natives(v.named(), v.num()).map_err(|e| format!("named constructor: {e}")) }));
}

fn min_bytes(n: Num) -> usize { // bytes needed in the unsigned or (given the sign) two's complement form
    if n.neg { let x = n.mag - 1; (16 - x.leading_zeros() as usize / 8).max(1) } else { (16 - n.mag.leading_zeros() as usize / 8).max(1) }
}

pub fn p02(t: &mut T) {
    t.sub("serialised Integer");
    natives(t, |t, v| {
        let junk = t.rng.next().to_le_bytes();
        let junk = junk[..(junk[7] % 8) as usize].to_vec();
        t.case(|| format!("{v:?} followed by {junk:?}"), || {
            let i = v.int();
            let (ss, bytes) = i.ser();
            let n = v.num();
            ensure((ss == SignedState::SignedNegative) == n.neg, || format!("sign state {ss:?}"))?;
            if !n.neg && n.mag <= 239 { ensure(bytes.len() == 1, || format!("not one byte: {bytes:?}"))?; }
            ensure(bytes.len() <= 1 + min_bytes(n), || format!("too long: {bytes:?}"))?;
            for cut in 0..bytes.len() {
                let part = bytes[..cut].to_vec();
                ensure(Integer::deser(ss, &mut Cursor::new(&part)).is_err(), || format!("cut to {part:?} was accepted"))?;
            }
            let mut all = vec![7, 7, 7];
            all.extend(&bytes);
            all.extend(&junk);
            let mut c = Cursor::new(&all);
            c.set_pos(3);
            let back = Integer::deser(ss, &mut c).map_err(|e| format!("{bytes:?} -> {e}"))?;
            ensure(c.pos() == 3 + bytes.len(), || format!("wrote {bytes:?}, read {} bytes", c.pos() - 3))?;
            ensure(back == i && i == back, || format!("{bytes:?} read back as {back:?}"))?;
            check_natives(back, n).map_err(|e| format!("after {bytes:?}: {e}"))?;
            ensure(back.ser().1 == bytes && back.ser().0 == ss, || format!("serialised again as {:?}", back.ser()))
        })
    });
}

pub fn hash(x: &impl Hash) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

fn reread(i: Integer) -> Integer { let (s, b) = i.ser(); Integer::deser(s, &mut Cursor::new(&b)).unwrap() }

fn check_pair(a: N, b: N) -> R {
    let (na, nb) = (a.num(), b.num());
    for (x, y) in [(a.int(), b.int()), (reread(a.int()), b.int()), (a.int(), reread(b.int())), (reread(a.int()), reread(b.int()))] {
        ensure((x == y) == (na == nb), || format!("equality is {} for {x:?} and {y:?}", x == y))?;
        if x == y { ensure(hash(&x) == hash(&y), || format!("equal but hashes differ: {x:?} {y:?}"))?; }
        ensure(x.is_negative() == na.neg && x.is_positive() != na.neg, || format!("sign of {x:?}"))?;
        if a.unsigned() && b.unsigned() {
            let (p, q) = (na.mag, nb.mag);
            for (op, want) in [("+", p.checked_add(q)), ("-", p.checked_sub(q)), ("*", p.checked_mul(q)), ("/", p.checked_div(q))] {
                if let Some(w) = want { let g = op_of(op, x, y); check_natives(g, Num::u(w)).map_err(|e| format!("{p} {op} {q}: {e}"))?; ensure(g == Integer::from(w), || format!("{p} {op} {q} is not equal"))?; }
            }
        } else if let Some((p, q)) = na.as_i128().zip(nb.as_i128()) {
            for (op, want) in [("+", p.checked_add(q)), ("-", p.checked_sub(q)), ("*", p.checked_mul(q)), ("/", p.checked_div(q))] {
                if let Some(w) = want { let g = op_of(op, x, y); check_natives(g, Num::i(w)).map_err(|e| format!("{p} {op} {q}: {e}"))?; ensure(g == Integer::from(w), || format!("{p} {op} {q} is not equal"))?; }
            }
        }
    }
    Ok(())
}
fn op_of(op: &str, x: Integer, y: Integer) -> Integer { match op { "+" => x + y, "-" => x - y, "*" => x * y, _ => x / y } }

pub fn p03(t: &mut T) {
    t.sub("pairs of Integers");
    let mut pool: Vec<N> = vec![];
    for n in [-300i128, -257, -256, -255, -240, -239, -129, -128, -127, -17, -16, -2, -1, 0, 1, 2, 3, 16, 100, 127, 128, 200, 239, 240, 255, 256, 65535, 65536, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, i128::MAX, i128::MIN, i128::MIN + 1] { pool.extend(N::all_of(Num::i(n))); }
    pool.extend(N::all_of(Num::u(u128::MAX)));
    pool.extend(N::all_of(Num::u(1 << 127)));
    for l in t.lits.ints.clone().into_iter().take(40) { pool.extend(N::all_of(Num::i(l)).into_iter().take(12)); }
    for &a in &pool { for &b in &pool { t.case(|| format!("{a:?} and {b:?}"), || check_pair(a, b)); } }
    let int = interesting(t);
    while t.time_left() {
        let n = if t.rng.flip() { *t.rng.pick(&int) } else { random_num(&mut t.rng) };
        let m = match t.rng.below(5) { 0 => n, 1 => Num { neg: false, mag: n.mag }, 2 if n.mag <= 1 << 127 => Num { neg: n.mag != 0, mag: n.mag }, 3 => *t.rng.pick(&int), _ => random_num(&mut t.rng) };
        for a in N::all_of(n) { for b in N::all_of(m) { if t.rng.below(4) == 0 { t.case(|| format!("{a:?} and {b:?}"), || check_pair(a, b)); } } }
    }
}

fn check_float(x: f64, eps: f64, got: Result<Integer, FE>) -> R {
    let lim = 2f64.powi(127);
    let d = format!("{x:?} (bits {:#x})", x.to_bits());
    let exact = |i: Integer| -> R {
        // the number as sign and magnitude, exactly
        let m = x.abs();
        let mag = if m == 0.0 { 0u128 } else {
            let b = m.to_bits(); let e = (b >> 52) as i32 - 1075; let f = ((b & ((1 << 52) - 1)) | (1 << 52)) as u128;
            if e >= 0 { f << e } else { f >> (-e).min(127) }
        };
        check_natives(i, Num { neg: x < 0.0 && mag != 0, mag }).map_err(|e| format!("{d} -> {i:?}: {e}"))
    };
    if !x.is_finite() { return ensure(matches!(got, Err(FE::NotFinite)), || format!("{d} -> {got:?}")); }
    let fr = (x - x.trunc()).abs();
    if fr > eps { return ensure(matches!(got, Err(FE::DecimalsNotSupported(_))), || format!("{d} -> {got:?}")); }
    if x < -lim || x >= 2.0 * lim { return ensure(matches!(got, Err(FE::TooLarge)), || format!("{d} -> {got:?}")); }
    match got {
        Ok(i) => exact(i),
        // below the epsilon nothing is promised but that no other number comes out
        Err(_) if fr > 0.0 => Ok(()),
        Err(e) => Err(format!("{d} -> {e:?}")),
    }
}
fn c64(x: f64) -> R { check_float(x, f64::EPSILON, Integer::try_from(x)) }
fn c32(x: f32) -> R { check_float(f64::from(x), f64::from(f32::EPSILON), Integer::try_from(x)) }

fn to_floats(x: N) -> R {
    let n = x.num();
    let (d, f) = if n.neg { (-(n.mag as f64), -(n.mag as f32)) } else { (n.mag as f64, n.mag as f32) };
    let (a, b) = (f64::from(x.int()), f32::from(x.int()));
    if a.to_bits() != d.to_bits() { return Err(format!("as f64: expected {d:?}, got {a:?}")); }
    if b.to_bits() != f.to_bits() { return Err(format!("as f32: expected {f:?}, got {b:?}")); }
    Ok(())
}
pub fn p04(t: &mut T) {
    t.sub("floats");
    let mut pool: Vec<f64> = vec![0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 0.5, 1.5, 0.1, 1e300];
    for e in -70..=130 { for k in 1..=3 { pool.push(2f64.powi(e) * k as f64); pool.push(2f64.powi(e) + 0.5); pool.push(2f64.powi(e) - 0.5); pool.push(2f64.powi(e) + 1.0); pool.push(2f64.powi(e) - 1.0); } }
    for l in &t.lits.ints { pool.push(*l as f64); }
    pool.extend(t.lits.floats.iter());
    let mut more = vec![];
    for &x in &pool { for k in -3i64..=3 { more.push(f64::from_bits((x.to_bits() as i64).wrapping_add(k) as u64)); } }
    for x in more { for y in [x, -x] { t.case(|| format!("{y:?}f64 (bits {:#x})", y.to_bits()), || c64(y)); let z = y as f32; for k in -2i32..=2 { let z = f32::from_bits((z.to_bits() as i32).wrapping_add(k) as u32); t.case(|| format!("{z:?}f32 (bits {:#x})", z.to_bits()), || c32(z)); } } }
    for i in 0..=70000i64 { for y in [i as f64, -(i as f64), i as f64 / 64.0] { t.case(|| format!("{y:?}f64"), || c64(y)); t.case(|| format!("{y:?}f32"), || c32(y as f32)); } }
    t.sub("to floats");
    let mut nums = vec![0u128, 1, 255, 256, u64::MAX as u128, u128::MAX, i128::MAX as u128];
    for e in 1..128 { for f in [0u128, 1, 2, 3] { for k in [0u128, 1, 2] { let v = 1u128 << e; nums.extend([v + k, v.wrapping_sub(k), v | (v >> 24).wrapping_mul(f) | k, v | (v >> 25) * f, v | (v >> 53) * f, v | (v >> 54) * f, v | (v >> 54) * f | k]); } } }
    nums.extend(t.lits.ints.iter().map(|l| *l as u128));
    for m in nums { for n in [Num::u(m), Num { neg: m != 0, mag: m }] { for x in N::all_of(n) { t.case(|| format!("{x:?}"), || to_floats(x)); } } }
    t.sub("floats");
    while t.time_left() {
        { let n = random_num(&mut t.rng); for x in N::all_of(n) { t.case(|| format!("{x:?}"), || to_floats(x)); } }
        let b = t.rng.next();
        let x = match t.rng.below(3) { 0 => f64::from_bits(b), 1 => f64::from_bits((b & !(0x7FF << 52)) | ((1023 + t.rng.below(135) as u64) << 52)), _ => { let n = random_num(&mut t.rng); if n.neg { -(n.mag as f64) } else { n.mag as f64 } } };
        t.case(|| format!("{x:?}f64 (bits {:#x})", x.to_bits()), || c64(x));
        let z = match t.rng.below(3) { 0 => f32::from_bits(b as u32), 1 => x as f32, _ => f32::from_bits((b as u32 & !(0xFF << 23)) | ((127 + t.rng.below(129) as u32) << 23)) };
        t.case(|| format!("{z:?}f32 (bits {:#x})", z.to_bits()), || c32(z));
    }
}
