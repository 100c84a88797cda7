//! Facts about floats which the contracts of equality and hashing take for granted, for every bit pattern.
use core::num::FpCategory;
macro_rules! facts { ($name:ident, $t:ty, $n:expr, $u:ty, $mant:expr, $exp:expr) => {
    #[kani::proof]
    fn $name() {
        let (a, b): ($u, $u) = (kani::any(), kani::any());
        let (x, y) = (<$t>::from_bits(a), <$t>::from_bits(b));
        let m: $u = (1 << $mant) - 1;
        let e: $u = (1 << $exp) - 1;
        let nan = |v: $u| (v >> $mant) & e == e && v & m != 0;
        let zero = |v: $u| v << 1 == 0;
        assert!((x == y) == (!nan(a) && !nan(b) && (a == b || zero(a) && zero(b))), "equality of floats");
        let class = if (a >> $mant) & e == e { if a & m == 0 { FpCategory::Infinite } else { FpCategory::Nan } }
            else if (a >> $mant) & e == 0 { if a & m == 0 { FpCategory::Zero } else { FpCategory::Subnormal } } else { FpCategory::Normal };
        assert!(x.classify() == class, "class of floats");
        if !nan(a) { assert!((x + 0.0).to_bits() == if zero(a) { 0 } else { a }, "adding 0.0"); }
        let by = x.to_le_bytes();
        let mut i = 0;
        while i < $n { assert!(by[i] == (a >> (8 * i)) as u8, "bytes"); i += 1; }
        assert!(<$t>::from_le_bytes(by).to_bits() == a, "bytes and back");
    }
} }
facts!(facts64, f64, 8, u64, 52, 11);
facts!(facts32, f32, 4, u32, 23, 8);

#[kani::proof]
fn widen() {
    let x = f32::from_bits(kani::any());
    assert!(f64::from(x).is_finite() == x.is_finite(), "a float which is widened is finite if it was");
}
