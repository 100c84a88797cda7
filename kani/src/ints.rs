use core::cmp::Ordering;
use sourisdb::types::integer::{Integer, SignedState};
use sourisdb::utilities::cursor::Cursor;

/// The mathematical number an integer holds: every number of all twelve types fits.
#[derive(Copy, Clone, PartialEq, Eq)]
pub struct Num {
    pub neg: bool,
    /// two's complement, extended with the sign
    pub bits: u128,
}

pub trait Native: Copy + kani::Arbitrary {
    fn num(self) -> Num;
    /// whether a number is one of this type's
    fn fits(n: Num) -> bool;
    fn int(self) -> Integer;
    fn back(i: Integer) -> Option<Num>;
}
impl Num {
    /// the fewest bytes (one at least) which hold the number when they are extended with the sign
    fn bytes(self) -> usize {
        let fill = if self.neg { u128::MAX } else { 0 };
        let mut k = 1;
        while k < 16 {
            if (self.bits >> (8 * k)) == (fill >> (8 * k)) { return k; }
            k += 1;
        }
        16
    }
}

macro_rules! native {
    ($signed:expr; $($t:ty),+) => { $(
        impl Native for $t {
            #[allow(unused_comparisons)]
            fn num(self) -> Num { Num { neg: self < 0, bits: self as u128 } }
            fn fits(n: Num) -> bool {
                if n.neg {
                    //n.bits as i128 is the number
                    $signed && (n.bits as i128) >= (<$t>::MIN as i128) && (n.bits as i128) < 0
                } else {
                    n.bits <= (<$t>::MAX as u128)
                }
            }
            fn int(self) -> Integer { Integer::from(self) }
            fn back(i: Integer) -> Option<Num> { match <$t>::try_from(i) { Ok(v) => Some(v.num()), Err(e) => { core::mem::forget(e); None } } }
        }
    )+ };
}
native!(true; i8, i16, i32, i64, i128, isize);
native!(false; u8, u16, u32, u64, u128, usize);

fn ss_of(k: u8) -> SignedState {
    match k { 0 => SignedState::Unsigned, 1 => SignedState::SignedPositive, _ => SignedState::SignedNegative }
}

/// The same number once it has been written and read.
fn read_back(i: Integer) -> Integer {
    let (ss, bytes) = i.ser();
    Integer::deser(ss, &mut Cursor::new(&bytes)).unwrap()
}

fn converts<U: Native>(i: Integer, n: Num) {
    match U::back(i) {
        Some(v) => assert!(v == n, "a conversion gave another number"),
        None => assert!(!U::fits(n), "a number which fits was refused"),
    }
}

fn length_of(i: Integer, n: Num) {
    let (_, bytes) = i.ser();
    let len = bytes.len();
    assert!(len >= 1 && len <= n.bytes() + 1, "more than one byte more than needed");
    if !n.neg && n.bits < 240 { assert!(len == 1, "0 to 239 take one byte"); }
    kani::cover!(n.bits > 239 || n.neg);
    core::mem::forget(bytes);
}
fn cut_of(i: Integer) {
    let (ss, bytes) = i.ser();
    let k: usize = kani::any();
    kani::assume(k < bytes.len());
    let r = Integer::deser(ss, &mut Cursor::new(&&bytes[..k]));
    assert!(r.is_err(), "cut bytes were read");
    core::mem::forget(r);
    core::mem::forget(bytes);
}
fn wire_of(i: Integer) -> Integer {
    let (ss, mut bytes) = i.ser();
    //whatever follows
    bytes.push(kani::any());
    let mut c = Cursor::new(&bytes);
    let Ok(j) = Integer::deser(ss, &mut c) else { panic!("could not be read back") };
    assert!(c.items_remaining() == 1, "not exactly the bytes written");
    assert!(j == i, "not equal");
    core::mem::forget(bytes);
    j
}

/// One of the twelve conversions, of any number.
fn any_int() -> (Integer, Num, bool) {
    fn one<T: Native>(unsigned: bool) -> (Integer, Num, bool) { let x: T = kani::any(); (x.int(), x.num(), unsigned) }
    match kani::any::<u8>() {
        0 => one::<u8>(true), 1 => one::<u16>(true), 2 => one::<u32>(true), 3 => one::<u64>(true),
        4 => one::<u128>(true), 5 => one::<usize>(true),
        6 => one::<i8>(false), 7 => one::<i16>(false), 8 => one::<i32>(false), 9 => one::<i64>(false),
        10 => one::<i128>(false), _ => one::<isize>(false),
    }
}

struct H(u64);
impl core::hash::Hasher for H {
    fn finish(&self) -> u64 { self.0 }
    //order and content matter: distinct inputs of the hash give distinct states in most cases
    fn write(&mut self, b: &[u8]) { let mut k = 0; while k < b.len() { self.0 = self.0.rotate_left(5) ^ (b[k] as u64 + 1); k += 1; } }
}
fn hash(i: &Integer) -> u64 { let mut h = H(7); core::hash::Hash::hash(i, &mut h); core::hash::Hasher::finish(&h) }

/// From any of the twelve types.
pub mod from_any {
    use super::*;
    macro_rules! targets { ($($d:ident $r:ident $u:ty),+) => { $(
        #[kani::proof] #[kani::unwind(18)] fn $d() { let (i, n, _) = any_int(); converts::<$u>(i, n); kani::cover!(<$u as Native>::fits(n)); }
        #[kani::proof] #[kani::unwind(18)] fn $r() { let (i, n, _) = any_int(); converts::<$u>(read_back(i), n); kani::cover!(<$u as Native>::fits(n)); }
    )+ }; }
    targets!(p01_u8 p01r_u8 u8, p01_u16 p01r_u16 u16, p01_u32 p01r_u32 u32, p01_u64 p01r_u64 u64, p01_u128 p01r_u128 u128, p01_usize p01r_usize usize,
        p01_i8 p01r_i8 i8, p01_i16 p01r_i16 i16, p01_i32 p01r_i32 i32, p01_i64 p01r_i64 i64, p01_i128 p01r_i128 i128, p01_isize p01r_isize isize);
    #[kani::proof] #[kani::unwind(18)] fn p02_length() { let (i, n, _) = any_int(); length_of(i, n); }
    #[kani::proof] #[kani::unwind(18)] fn p02_cut() { cut_of(any_int().0); }
    #[kani::proof] #[kani::unwind(18)] fn p02_wire() { let (i, n, _) = any_int(); let j = wire_of(i); assert!(number(j, n), "another number"); kani::cover!(n.bits > 100); }
}

#[kani::proof]
#[kani::unwind(18)]
fn p03_eq_hash() {
    let (a, n, _) = any_int();
    let (b, m, _) = any_int();
    assert!((a == b) == (n == m), "equality disagrees with the numbers");
    if n == m { assert!(hash(&a) == hash(&b), "equal integers hash differently"); }
    assert!(a.is_negative() == n.neg && a.is_positive() != n.neg, "sign disagrees");
    kani::cover!(n == m && n.bits > 1000);
    kani::cover!(n != m);
}

#[kani::proof]
#[kani::unwind(18)]
fn p03_eq_read() {
    let (a, n, _) = any_int();
    let r = read_back(a);
    assert!(r == a && a == r && hash(&r) == hash(&a), "serialising changed equality or hash");
    assert!(r.is_negative() == n.neg, "serialising changed the sign");
    kani::cover!(n.bits > 1000);
}

fn number(i: Integer, n: Num) -> bool {
    if n.neg { i128::back(i) == Some(n) } else { u128::back(i) == Some(n) }
}

/// Operands of every number of two types; the result is compared with `==`, which p03_eq_hash
/// shows to be equality of the numbers.
macro_rules! arith {
    ($($name:ident $f:ident $op:tt),+) => { $( mod $name {
        use super::*;
        #[kani::proof]
        #[kani::unwind(18)]
        fn p03_uu() {
            let (a, b): (u128, u128) = (kani::any(), kani::any());
            let Some(r) = a.$f(b) else { return };
            assert!(Integer::from(a) $op Integer::from(b) == Integer::from(r), "not the mathematical result");
            kani::cover!(r > 300);
        }
        #[kani::proof]
        #[kani::unwind(18)]
        fn p03_ii() {
            let (a, b): (i128, i128) = (kani::any(), kani::any());
            let Some(r) = a.$f(b) else { return };
            assert!(Integer::from(a) $op Integer::from(b) == Integer::from(r), "not the mathematical result");
            kani::cover!(r < -300);
        }
        #[kani::proof]
        #[kani::unwind(18)]
        fn p03_ui() {
            let (a, b): (u128, i128) = (kani::any(), kani::any());
            kani::assume(a <= i128::MAX as u128);
            let Some(r) = (a as i128).$f(b) else { return };
            assert!(Integer::from(a) $op Integer::from(b) == Integer::from(r), "not the mathematical result");
            kani::cover!(r < -300);
        }
        #[kani::proof]
        #[kani::unwind(18)]
        fn p03_iu() {
            let (a, b): (i128, u128) = (kani::any(), kani::any());
            kani::assume(b <= i128::MAX as u128);
            let Some(r) = a.$f(b as i128) else { return };
            assert!(Integer::from(a) $op Integer::from(b) == Integer::from(r), "not the mathematical result");
            kani::cover!(r < -300);
        }
    } )+ };
}
arith!(add checked_add +, sub checked_sub -, mul checked_mul *, div checked_div /);

fn exponent_ok(e: i32) -> bool { e < 128 }

#[kani::proof]
#[kani::unwind(18)]
fn p04_f64() {
    let x: f64 = f64::from_bits(kani::any());
    let r = Integer::try_from(x);
    //the exact value from the bits: (-1)^s * m * 2^e
    let bits = x.to_bits();
    let neg = bits >> 63 == 1;
    let be = ((bits >> 52) & 0x7ff) as i32;
    let frac = bits & ((1 << 52) - 1);
    whole(r, neg, be == 0x7ff, if be == 0 { frac } else { frac | (1 << 52) } as u128, if be == 0 { -1074 } else { be - 1075 }, -52);
    kani::cover!(x > 1.0e30);
    kani::cover!(x < -1.0e30);
}

#[kani::proof]
#[kani::unwind(18)]
fn p04_f32() {
    let x: f32 = f32::from_bits(kani::any());
    let r = Integer::try_from(x);
    let bits = x.to_bits();
    let neg = bits >> 31 == 1;
    let be = ((bits >> 23) & 0xff) as i32;
    let frac = (bits & ((1 << 23) - 1)) as u128;
    whole(r, neg, be == 0xff, if be == 0 { frac } else { frac | (1 << 23) }, if be == 0 { -149 } else { be - 150 }, -23);
    kani::cover!(x > 1.0e30);
    kani::cover!(x < -1.0e30);
}

// The other way, to the nearest float.  Integers made from smaller types are the same as those made from the number as one of these (P01, P03).
#[kani::proof]
#[kani::unwind(18)]
fn p04_unsigned_to_floats() {
    let n: u128 = kani::any();
    let i = Integer::from(n);
    assert!(f64::from(i).to_bits() == (n as f64).to_bits(), "another f64");
    assert!(f32::from(i).to_bits() == (n as f32).to_bits(), "another f32");
}

#[kani::proof]
#[kani::unwind(18)]
fn p04_signed_to_floats() {
    let n: i128 = kani::any();
    let i = Integer::from(n);
    assert!(f64::from(i).to_bits() == (n as f64).to_bits(), "another f64");
    assert!(f32::from(i).to_bits() == (n as f32).to_bits(), "another f32");
}

use sourisdb::types::integer::FloatToIntegerConversionError as E;

/// `m * 2^e` with its sign is the number; `eps` is the exponent of the machine epsilon.
fn whole(r: Result<Integer, E>, neg: bool, special: bool, m: u128, e: i32, eps: i32) {
    if special { assert!(matches!(r, Err(E::NotFinite)), "not finite"); return; }
    if e >= 0 {
        //whole
        let top = 128 - m.leading_zeros() as i32; //bits of m
        if m == 0 { assert!(is(r, false, 0)); return; }
        let fits = if neg { top + e <= 127 || (top + e == 128 && m.count_ones() == 1) } else { exponent_ok(top + e - 1) };
        if !fits { assert!(matches!(r, Err(E::TooLarge)), "out of range"); return; }
        let v = m << e;
        assert!(is(r, neg, if neg { v.wrapping_neg() } else { v }), "another number");
        return;
    }
    let down = (-e) as u32;
    let (w, f) = if down >= 128 { (0, m) } else { (m >> down, m & ((1u128 << down) - 1)) };
    if f == 0 {
        assert!(is(r, neg && w != 0, if neg { w.wrapping_neg() } else { w }), "another number");
        return;
    }
    //a fraction of f * 2^e, refused when it is greater than 2^eps
    let big = {
        let up = eps - e; //f * 2^e > 2^eps iff f > 2^up
        if up < 0 { true } else if up >= 64 { false } else { f > (1u128 << up) }
    };
    if big { assert!(matches!(r, Err(E::DecimalsNotSupported(_))), "a fraction was accepted"); }
    else {
        //at most epsilon away from a whole number: that number, or refused
        match r { Ok(_) => assert!(is(r, neg && w != 0, if neg { w.wrapping_neg() } else { w }), "another number"), Err(E::DecimalsNotSupported(_)) => {}, Err(_) => panic!("the wrong error") }
    }
}

fn is(r: Result<Integer, E>, neg: bool, bits: u128) -> bool {
    match r { Ok(i) => number(i, Num { neg, bits }), Err(_) => false }
}

#[allow(dead_code)]
fn unused(_: Ordering, _: SignedState) { let _ = ss_of(0); }
