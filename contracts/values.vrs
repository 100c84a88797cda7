//! needs core cursor integer bits errors maps huffman rle binary imaginary
use crate::core::*;
use crate::cursor::*;
use crate::integer::*;
use crate::integer::Integer;
use crate::bits::*;
use crate::errors::*;
use crate::huffman::*;
use crate::binary::*;
use crate::imaginary::*;
use alloc::vec;
use alloc::vec::Vec;
use alloc::string::String;
use vstd::std_specs::iter::IteratorSpec;
use vstd::utf8::{encode_utf8, decode_utf8, valid_utf8};

// ---- what is assumed of the types of other crates
// A map with keys which are equal when what they stand for (for strings: their characters) is the same.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K: View, V>(core::marker::PhantomData<(K, V)>);
impl<K: View, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K::V, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K::V, V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v), { unimplemented!() }
}
// a map is larger than the values in it
pub broadcast axiom fn axiom_map_decreases<K: View, V>(m: HashMap<K, V>, k: K::V)
    requires m@.contains_key(k)
    ensures #[trigger] (decreases_to!(m => m@[k]));
#[verifier::external_body]
#[derive(Debug)]
pub struct FromUtf8Error;
#[verifier::external_body]
#[derive(Debug)]
pub struct SJError;
pub mod chrono_tz { use vstd::prelude::*; verus! { #[verifier::external_body] #[derive(Debug)] pub struct ParseError; } }
#[verifier::external_body]
pub fn string_from_utf8(v: Vec<u8>) -> (r: Result<String, FromUtf8Error>) ensures r is Ok == valid_utf8(v@), r is Ok ==> r->Ok_0@ == decode_utf8(v@), { unimplemented!() }
#[verifier::external_body]
pub fn string_from(s: &str) -> (r: String) ensures r@ == s@, { unimplemented!() }
// No string in memory has 2^54 bytes or characters (16 pebibytes).
#[verifier::external_body]
pub proof fn axiom_memory_str(s: &String) ensures s@.len() <= 0x40_0000_0000_0000, encode_utf8(s@).len() <= 0x40_0000_0000_0000 {}
pub assume_specification[ char::from_u32 ](n: u32) -> (r: Option<char>) ensures r is Some == (n < 0xd800 || 0xe000 <= n <= 0x10ffff), r is Some ==> r->0 as u32 == n;
pub assume_specification<'a, T: Copy, E>[ Result::<&'a T, E>::copied ](o: Result<&'a T, E>) -> (r: Result<T, E>)
    ensures r == (match o { Ok(x) => Ok::<T, E>(*x), Err(e) => Err(e) });
#[verifier::external_body]
pub fn u16_from_le(b: [u8; 2]) -> (r: u16) ensures r == b@[0] + 256 * b@[1], { u16::from_le_bytes(b) }

// chrono: dates and times are made of numbers in their ranges
pub uninterp spec fn is_date(y: int, m: int, d: int) -> bool;
pub open spec fn is_time(h: int, m: int, s: int) -> bool { 0 <= h < 24 && 0 <= m < 60 && 0 <= s < 60 }
#[verifier::external_body]
pub struct NaiveDate;
#[verifier::external_body]
pub struct NaiveTime;
#[verifier::external_body]
pub struct NaiveDateTime;
impl NaiveDate {
    pub uninterp spec fn view(&self) -> (int, int, int);
    #[verifier::external_body]
    pub fn year(&self) -> (r: i32) ensures r == self@.0, is_date(self@.0, self@.1, self@.2), { unimplemented!() }
    #[verifier::external_body]
    pub fn month(&self) -> (r: u32) ensures r == self@.1, { unimplemented!() }
    #[verifier::external_body]
    pub fn day(&self) -> (r: u32) ensures r == self@.2, { unimplemented!() }
    #[verifier::external_body]
    pub fn from_ymd_opt(y: i32, m: u32, d: u32) -> (r: Option<NaiveDate>) ensures r is Some == is_date(y as int, m as int, d as int), r is Some ==> r->0@ == (y as int, m as int, d as int), { unimplemented!() }
}
impl NaiveTime {
    pub uninterp spec fn view(&self) -> (int, int, int, int);
    #[verifier::external_body]
    pub fn hour(&self) -> (r: u32) ensures r == self@.0, is_time(self@.0, self@.1, self@.2), 0 <= self@.3 < 2_000_000_000, { unimplemented!() }
    #[verifier::external_body]
    pub fn minute(&self) -> (r: u32) ensures r == self@.1, { unimplemented!() }
    #[verifier::external_body]
    pub fn second(&self) -> (r: u32) ensures r == self@.2, { unimplemented!() }
    #[verifier::external_body]
    pub fn nanosecond(&self) -> (r: u32) ensures r == self@.3, { unimplemented!() }
    #[verifier::external_body]
    pub fn from_hms_opt(h: u32, m: u32, s: u32) -> (r: Option<NaiveTime>) ensures r is Some == is_time(h as int, m as int, s as int), r is Some ==> r->0@ == (h as int, m as int, s as int, 0int), { unimplemented!() }
    #[verifier::external_body]
    pub fn with_nanosecond(&self, n: u32) -> (r: Option<NaiveTime>) ensures r is Some == (n < 2_000_000_000), r is Some ==> r->0@ == (self@.0, self@.1, self@.2, n as int), { unimplemented!() }
}
pub fn opt_with_nanosecond(t: Option<NaiveTime>, n: u32) -> (r: Option<NaiveTime>)
    ensures match t { Some(x) => r is Some == (n < 2_000_000_000) && (r is Some ==> r->0@ == (x@.0, x@.1, x@.2, n as int)), None => r is None },
{ match t { Some(t) => t.with_nanosecond(n), None => None } }
impl NaiveDateTime {
    pub uninterp spec fn view(&self) -> ((int, int, int), (int, int, int, int));
    #[verifier::external_body]
    pub fn date(&self) -> (r: NaiveDate) ensures r@ == self@.0, { unimplemented!() }
    #[verifier::external_body]
    pub fn time(&self) -> (r: NaiveTime) ensures r@ == self@.1, { unimplemented!() }
    #[verifier::external_body]
    pub fn new(d: NaiveDate, t: NaiveTime) -> (r: NaiveDateTime) ensures r@ == (d@, t@), { unimplemented!() }
}
// chrono_tz: timezones have names, by which they are found again
pub uninterp spec fn is_tz(s: Seq<char>) -> bool;
#[verifier::external_body]
pub struct Tz;
impl Tz {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &'static str) ensures r@ == self@, is_tz(self@), { unimplemented!() }
    #[verifier::external_body]
    pub fn from_str(s: &String) -> (r: Result<Tz, chrono_tz::ParseError>) ensures r is Ok == is_tz(s@), r is Ok ==> r->Ok_0@ == s@, { unimplemented!() }
}
// serde_json: what was printed is read back (a float perhaps changed in its last bit: json_like is equality up to that)
#[verifier::external_body]
pub struct SJ;
pub uninterp spec fn json_text(v: SJ, s: Seq<char>) -> bool;
#[verifier::external_body]
pub struct Number;
pub type SJMap = HashMap<String, SJValue>;
pub enum SJValue { Null, Bool(bool), Number(Number), String(String), Array(Vec<SJValue>), Object(SJMap) }
impl SJValue {
    pub uninterp spec fn view(&self) -> SJ;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures json_text(self@, r@), { unimplemented!() }
}
pub mod serde_json { use vstd::prelude::*; use super::*; verus! {
    #[verifier::external_body]
    pub fn from_str(s: &String) -> (r: Result<SJValue, SJError>) ensures forall|v: SJ| #[trigger] json_text(v, s@) ==> r is Ok && r->Ok_0@ == v, { unimplemented!() }
} }
pub open spec fn four(a: u8, b: u8, c: u8, d: u8) -> Seq<u8> { seq![a, b, c, d] }
pub open spec fn eight(a: u16, b: u16, c: u16, d: u16, e: u16, f: u16, g: u16, h: u16) -> Seq<u16> { seq![a, b, c, d, e, f, g, h] }
pub proof fn lemma_four(o: Seq<u8>) requires o.len() == 4 ensures o == four(o[0], o[1], o[2], o[3]) { assert(o =~= seq![o[0], o[1], o[2], o[3]]); }
pub proof fn lemma_eight_seq(o: Seq<u16>) requires o.len() == 8 ensures o == eight(o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7])
{ let e = eight(o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7]); assert(e.len() == 8); assert(e[0] == o[0] && e[1] == o[1] && e[2] == o[2] && e[3] == o[3] && e[4] == o[4] && e[5] == o[5] && e[6] == o[6] && e[7] == o[7]); assert(e =~= o); }
pub proof fn lemma_le16(a: Seq<u16>, j: int) requires 0 <= j < a.len() ensures a[j] as int == le16(a)[2 * j] + 256 * le16(a)[2 * j + 1]
{ assert((2 * j) / 2 == j && (2 * j) % 2 == 0 && (2 * j + 1) / 2 == j && (2 * j + 1) % 2 == 1); }
pub proof fn lemma_eight(a: Seq<u16>, o: Seq<u16>, b: Seq<u8>)
    requires a.len() == 8, o.len() == 8, b == le16(a), forall|j: int| 0 <= j < 8 ==> #[trigger] o[j] as int == b[2 * j] + 256 * b[2 * j + 1]
    ensures a == o, a == eight(o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7])
{
    hide(le16); hide(eight); lemma_eight_seq(o);
    assert forall|j: int| 0 <= j < 8 implies a[j] == o[j] by { lemma_le16(a, j); }
    assert(a =~= o);
}
#[verifier::external_body]
pub struct Ipv4Addr;
impl Ipv4Addr {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn octets(&self) -> (r: [u8; 4]) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body]
    pub fn new(a: u8, b: u8, c: u8, d: u8) -> (r: Ipv4Addr) ensures r@ == four(a, b, c, d), { unimplemented!() }
}
#[verifier::external_body]
pub struct Ipv6Addr;
impl Ipv6Addr {
    pub uninterp spec fn view(&self) -> Seq<u16>;
    #[verifier::external_body]
    pub fn segments(&self) -> (r: [u16; 8]) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body]
    pub fn new(a: u16, b: u16, c: u16, d: u16, e: u16, f: u16, g: u16, h: u16) -> (r: Ipv6Addr) ensures r@ == eight(a, b, c, d, e, f, g, h), { unimplemented!() }
}
pub open spec fn le16(s: Seq<u16>) -> Seq<u8> { Seq::new(2 * s.len(), |i: int| if i % 2 == 0 { (s[i / 2] % 256) as u8 } else { (s[i / 2] / 256) as u8 }) }
// `into_iter().flat_map(u16::to_le_bytes)`
#[verifier::external_body]
pub fn flat_le16(s: [u16; 8]) -> (r: Vec<u8>) ensures r@ == le16(s@), { unimplemented!() }

// ---- the kinds of values
//@src crates/sourisdb/src/types/integer.rs
pub open spec fn ss_byte(s: SignedState) -> u8 { match s { SignedState::Unsigned => 0, SignedState::SignedPositive => 1, SignedState::SignedNegative => 2 } }
impl vstd::std_specs::convert::FromSpecImpl<SignedState> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: SignedState) -> u8 { ss_byte(v) }
}
impl From<SignedState> for u8 {
//@fn impl From<SignedState> for u8 | from nopub
        ensures r == ss_byte(value),
//@end
}
impl vstd::std_specs::convert::TryFromSpecImpl<u8> for SignedState {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: u8) -> Result<Self, IntegerSerError> { arbitrary() }
}
impl TryFrom<u8> for SignedState {
    type Error = IntegerSerError;
//@fn impl TryFrom<u8> for SignedState | try_from nopub
        ensures forall|c: SignedState| #[trigger] ss_byte(c) == value ==> r is Ok && r->Ok_0 == c, value > 2 ==> r is Err,
//@end
}
//@src crates/sourisdb/src/values.rs
#[derive(Copy, Clone, Debug, Eq, PartialEq, Structural)]
//@item - | enum ValueTy
#[derive(Copy, Clone, Debug)]
//@item - | enum InvalidDeserialisationStateError
#[derive(Debug)]
//@item - | enum InvalidSourisTypeError
#[derive(Debug)]
//@item - | enum ValueSerError
//@each t=IntegerSerError | t=FromUtf8Error | t=SJError | t=chrono_tz::ParseError | t=BinarySerError | t=HuffmanSerError | t=InvalidDeserialisationStateError
impl vstd::std_specs::convert::FromSpecImpl<${t}> for ValueSerError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: ${t}) -> Self { arbitrary() }
}
impl From<${t}> for ValueSerError {
//@fn impl From<${t}> for ValueSerError | from nopub
//@end
}
//@endeach
pub open spec fn ty_byte(t: ValueTy) -> u8 {
    match t { ValueTy::Character => 0, ValueTy::String => 1, ValueTy::Binary => 2, ValueTy::Boolean => 3, ValueTy::Integer => 4, ValueTy::Imaginary => 5, ValueTy::Timestamp => 6, ValueTy::JSON => 7,
        ValueTy::Map => 8, ValueTy::Null => 9, ValueTy::DoubleFloat => 10, ValueTy::Array => 11, ValueTy::Timezone => 12, ValueTy::Ipv4Addr => 13, ValueTy::Ipv6Addr => 14, ValueTy::SingleFloat => 15 }
}
impl vstd::std_specs::convert::FromSpecImpl<ValueTy> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ValueTy) -> u8 { ty_byte(v) }
}
impl From<ValueTy> for u8 {
//@fn impl From<ValueTy> for u8 | from nopub
        ensures r == ty_byte(value),
//@end
}
impl vstd::std_specs::convert::TryFromSpecImpl<u8> for ValueTy {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: u8) -> Result<Self, ValueSerError> { arbitrary() }
}
impl TryFrom<u8> for ValueTy {
    type Error = ValueSerError;
//@fn impl TryFrom<u8> for ValueTy | try_from nopub
        ensures forall|c: ValueTy| #[trigger] ty_byte(c) == value ==> r is Ok && r->Ok_0 == c, value > 15 ==> r is Err, value <= 15 ==> r is Ok, r is Ok ==> ty_byte(r->Ok_0) == value,
//@end
}
//@item - | enum Value

// ---- what a value is, whatever memory it is in
pub ghost enum IM { Cart(SignedState, Seq<u8>, SignedState, Seq<u8>), Polar(Seq<u8>, Seq<u8>) }
pub open spec fn im(i: Imaginary) -> IM {
    match i { Imaginary::CartesianForm { re, imaginary } => IM::Cart(re.signed_state, re.content@, imaginary.signed_state, imaginary.content@), Imaginary::PolarForm { modulus, argument } => IM::Polar(f64_le(modulus), f64_le(argument)) }
}
pub ghost enum M {
    Char(char), Str(Seq<char>), Bin(Seq<u8>), Bool(bool), Int(SignedState, Seq<u8>), Imag(IM), Time((int, int, int), (int, int, int, int)), Json(SJ), Null, F32(Seq<u8>), F64(Seq<u8>),
    Arr(Seq<M>), Map(Map<Seq<char>, M>), Tz(Seq<char>), V4(Seq<u8>), V6(Seq<u16>),
}
pub open spec fn model(v: Value) -> M decreases v via model_dec
{
    match v {
        Value::Character(c) => M::Char(c), Value::String(s) => M::Str(s@), Value::Binary(b) => M::Bin(b.0@), Value::Boolean(b) => M::Bool(b), Value::Integer(i) => M::Int(i.signed_state, i.content@),
        Value::Imaginary(i) => M::Imag(im(i)), Value::Timestamp(t) => M::Time(t@.0, t@.1), Value::JSON(j) => M::Json(j@), Value::Null(_) => M::Null, Value::SingleFloat(f) => M::F32(f32_le(f)), Value::DoubleFloat(f) => M::F64(f64_le(f)),
        Value::Array(a) => M::Arr(Seq::new(a.len() as nat, |i: int| if 0 <= i < a.len() { model(a[i]) } else { M::Null })),
        Value::Map(m) => M::Map(Map::new(m@.dom(), |k: Seq<char>| if m@.contains_key(k) { model(m@[k]) } else { M::Null })),
        Value::Timezone(t) => M::Tz(t@), Value::Ipv4Addr(a) => M::V4(a@), Value::Ipv6Addr(a) => M::V6(a@),
    }
}
#[via_fn]
proof fn model_dec(v: Value) { broadcast use axiom_map_decreases; }
/// the Integers inside are well formed, as every Integer which was made is
pub open spec fn val_wf(v: Value) -> bool decreases v via val_wf_dec
{
    match v {
        Value::Integer(i) => i.wf(), Value::Imaginary(i) => i.wf(),
        Value::Array(a) => forall|i: int| 0 <= i < a.len() ==> val_wf(#[trigger] a[i]),
        Value::Map(m) => forall|k: Seq<char>| #[trigger] m@.contains_key(k) ==> val_wf(m@[k]),
        _ => true,
    }
}
#[via_fn]
proof fn val_wf_dec(v: Value) { broadcast use axiom_map_decreases; }
/// how a value is nested (a map is more than its keys, and so on)
pub ghost enum Sk { Leaf, Wrap(Box<Sk>), Many(Seq<Sk>), Named(Map<Seq<char>, Sk>, Box<Sk>) }
pub open spec fn sk(m: M) -> Sk decreases m
{
    match m {
        M::Json(_) => Sk::Wrap(Box::new(Sk::Leaf)), M::Tz(_) => Sk::Wrap(Box::new(Sk::Leaf)),
        M::Arr(s) => Sk::Many(Seq::new(s.len(), |i: int| if 0 <= i < s.len() { sk(s[i]) } else { Sk::Leaf })),
        M::Map(mm) => Sk::Named(Map::new(mm.dom(), |k: Seq<char>| if mm.contains_key(k) { sk(mm[k]) } else { Sk::Leaf }), Box::new(Sk::Leaf)),
        _ => Sk::Leaf,
    }
}
/// a value takes at most n places of the stack while it is read (an array takes one and a map two more than what is in them)
pub open spec fn fits(m: M, n: int) -> bool decreases m
{
    match m {
        M::Json(_) => n >= 1, M::Tz(_) => n >= 1,
        M::Arr(s) => n >= 1 && forall|i: int| 0 <= i < s.len() ==> fits(#[trigger] s[i], n - 1),
        M::Map(mm) => n >= 2 && forall|k: Seq<char>| #[trigger] mm.contains_key(k) ==> fits(mm[k], n - 2),
        _ => n >= 0,
    }
}

// ---- the bytes of a value
pub open spec fn tagb(t: u8, l: u8) -> u8 { (t << 4) | l }
pub proof fn lemma_tag()
    ensures
        forall|t: u8, l: u8| #![trigger tagb(t, l)] t < 16 && l < 16 ==> (tagb(t, l) & 0b1111_0000) >> 4 == t && tagb(t, l) & 0b1111 == l && tagb(t, l) & 0b1 == l & 0b1 && tagb(t, l) & 0b11 == l & 0b11 && tagb(t, l) & 0b1110 == l & 0b1110,
        forall|t: u8| t < 16 ==> #[trigger] tagb(t, 0) == t << 4,
        forall|n: u8| n < 7 ==> #[trigger] (n << 1) < 16 && (n << 1) & 1 == 0 && ((n << 1) & 0b1110) >> 1 == n,
        forall|b: u8| #[trigger] ((b & 0b1111_0000) >> 4) < 16, forall|b: u8| #[trigger] (b & 0b1111) < 16,
        forall|b: u8| b < 3 ==> #[trigger] (b & 0b11) == b, 0u8 & 1 == 0, 1u8 & 1 == 1,
{
    assert(forall|t: u8, l: u8| t < 16 && l < 16 ==> (((t << 4) | l) & 0b1111_0000) >> 4 == t && ((t << 4) | l) & 0b1111 == l && ((t << 4) | l) & 0b1 == l & 0b1 && ((t << 4) | l) & 0b11 == l & 0b11 && ((t << 4) | l) & 0b1110 == l & 0b1110) by (bit_vector);
    assert(forall|t: u8| t < 16 ==> (t << 4) | 0 == t << 4) by (bit_vector);
    assert(forall|n: u8| n < 7 ==> #[trigger] (n << 1) < 16 && (n << 1) & 1 == 0 && ((n << 1) & 0b1110) >> 1 == n) by (bit_vector);
    assert(forall|b: u8| #[trigger] ((b & 0b1111_0000) >> 4) < 16) by (bit_vector);
    assert(forall|b: u8| #[trigger] (b & 0b1111) < 16) by (bit_vector);
    assert(forall|b: u8| b < 3 ==> #[trigger] (b & 0b11) == b) by (bit_vector);
    assert(0u8 & 1 == 0 && 1u8 & 1 == 1) by (bit_vector);
}
/// what a property is about (some properties are proved with this narrowed: to bytes which are an encoding, or to scalars)
pub open spec fn asked(good: bool, refused: bool, m: M) -> bool { true }
pub open spec fn scalar(m: M) -> bool { !(m is Str || m is Bin || m is Json || m is Map || m is Arr || m is Tz) }
pub open spec fn refused(h: Option<&Huffman<char>>, rest: Seq<u8>) -> bool { h is None && rest.len() > 0 && rest[0] == tagb(1, 1) }
pub open spec fn root_of(h: Option<&Huffman<char>>) -> Option<Node<char>> { match h { Some(x) => Some(x.root), None => None } }
pub open spec fn bits_of(o: Seq<u8>, s: Seq<char>, n: Node<char>, b: Bits) -> bool { b.wf() && o == bits_enc(b@) && run(n, b@) == Some((s, Seq::<bool>::empty())) }
/// o, after the byte b, stands for the text s
pub open spec fn text_body(b: u8, o: Seq<u8>, s: Seq<char>, root: Option<Node<char>>) -> bool {
    ||| b == tagb(1, 0) && encode_utf8(s).len() <= usize::MAX && o == uenc(encode_utf8(s).len() as int) + encode_utf8(s)
    ||| b == tagb(1, 1) && root is Some && exists|x: Bits| #[trigger] bits_of(o, s, root->0, x)
}
pub open spec fn is_text(out: Seq<u8>, s: Seq<char>, root: Option<Node<char>>) -> bool { out.len() > 0 && text_body(out[0], out.skip(1), s, root) }
/// the start of an array or a map
pub open spec fn head(t: u8, n: int) -> Seq<u8> { if n < 7 { seq![tagb(t, (n as u8) << 1)] } else { seq![tagb(t, 1)] + uenc(n) } }
pub open spec fn flat(s: Seq<Seq<u8>>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { flat(s.drop_last()) + s.last() } }
pub type Entry = (Seq<char>, (Seq<u8>, Seq<u8>));
pub open spec fn pairs(e: Seq<Entry>) -> Seq<Seq<u8>> { Seq::new(e.len(), |i: int| e[i].1.0 + e[i].1.1) }
/// the entries e are those of mm which are not of done, each once
pub open spec fn covers(e: Seq<Entry>, mm: Map<Seq<char>, M>, done: Set<Seq<char>>) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> mm.contains_key((#[trigger] e[i]).0) && !done.contains(e[i].0)
    &&& forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j ==> (#[trigger] e[i]).0 != (#[trigger] e[j]).0
    &&& forall|k: Seq<char>| #[trigger] mm.contains_key(k) && !done.contains(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k
}
pub open spec fn is_int(i: Integer, ss: SignedState, c: Seq<u8>) -> bool { i.wf() && i.signed_state == ss && i.content@ == c }
pub open spec fn time_enc(y: Integer, d: (int, int, int), t: (int, int, int, int)) -> Seq<u8> {
    seq![tagb(6, ss_byte(y.signed_state))] + (y.enc() + (uenc(d.1) + (uenc(d.2) + (uenc(t.0) + (uenc(t.1) + (uenc(t.2) + uenc(t.3)))))))
}
pub open spec fn is_moment(d: (int, int, int), t: (int, int, int, int)) -> bool {
    is_date(d.0, d.1, d.2) && i32::MIN <= d.0 <= i32::MAX && 0 <= d.1 <= u32::MAX && 0 <= d.2 <= u32::MAX && is_time(t.0, t.1, t.2) && 0 <= t.3 < 2_000_000_000
}
/// out is what m may be stored as, with the tree of which root is the root
pub open spec fn is_enc(out: Seq<u8>, m: M, root: Option<Node<char>>) -> bool decreases m
{
    match m {
        M::Char(ch) => out == seq![tagb(0, 0)] + uenc(ch as int),
        M::Str(s) => is_text(out, s, root),
        M::Bin(x) => exists|c: BinaryCompression, o: Seq<u8>| #[trigger] is_binary(c, o, x) && out == seq![tagb(2, comp_byte(c))] + o,
        M::Bool(b) => out == seq![tagb(3, if b { 1 } else { 0 })],
        M::Int(ss, cont) => exists|n: Integer| #[trigger] is_int(n, ss, cont) && out == seq![tagb(4, ss_byte(ss))] + n.enc(),
        M::Imag(x) => exists|i: Imaginary| i.wf() && #[trigger] im(i) == x && out == seq![tagb(5, i.magic())] + i.enc(),
        M::Time(d, t) => is_moment(d, t) && exists|y: Integer| y.canon() && y.value() == d.0 && #[trigger] time_enc(y, d, t) == out,
        M::Json(j) => exists|s: Seq<char>, o: Seq<u8>| #[trigger] json_text(j, s) && #[trigger] is_text(o, s, root) && out == seq![tagb(7, 0)] + o,
        M::Map(mm) => mm.dom().len() <= usize::MAX && exists|e: Seq<Entry>| covers(e, mm, Set::empty()) && out == head(8, e.len() as int) + #[trigger] flat(pairs(e)) && e.len() == mm.dom().len()
            && forall|i: int| 0 <= i < e.len() && mm.contains_key(e[i].0) ==> is_text(#[trigger] e[i].1.0, e[i].0, root) && is_enc(e[i].1.1, mm[e[i].0], root),
        M::Null => out == seq![tagb(9, 0)],
        M::F64(b) => b.len() == 8 && out == seq![tagb(10, 0)] + b,
        M::Arr(s) => s.len() <= usize::MAX && exists|p: Seq<Seq<u8>>| p.len() == s.len() && out == head(11, s.len() as int) + #[trigger] flat(p)
            && forall|i: int| 0 <= i < s.len() ==> is_enc(#[trigger] p[i], s[i], root),
        M::Tz(s) => is_tz(s) && exists|o: Seq<u8>| #[trigger] is_text(o, s, root) && out == seq![tagb(12, 0)] + o,
        M::V4(a) => a.len() == 4 && out == seq![tagb(13, 0)] + a,
        M::V6(a) => a.len() == 8 && out == seq![tagb(14, 0)] + le16(a),
        M::F32(b) => b.len() == 4 && out == seq![tagb(15, 0)] + b,
    }
}
// two clones and a clone of a map's entries, in some order
#[verifier::external_body]
pub fn clone_values(a: &Vec<Value>) -> (r: Vec<Value>)
    ensures r@.len() == a@.len(), forall|i: int| 0 <= i < r@.len() ==> model(#[trigger] r@[i]) == model(a@[i]) && val_wf(r@[i]) == val_wf(a@[i]),
{ unimplemented!() }
#[verifier::external_body]
pub fn clone_entries(m: &HashMap<String, Value>) -> (r: Vec<(String, Value)>)
    ensures r@.len() == m@.dom().len(),
        forall|i: int| 0 <= i < r@.len() ==> m@.contains_key((#[trigger] r@[i]).0@) && model(r@[i].1) == model(m@[r@[i].0@]) && val_wf(r@[i].1) == val_wf(m@[r@[i].0@]),
        forall|i: int, j: int| 0 <= i < r@.len() && 0 <= j < r@.len() && i != j ==> (#[trigger] r@[i]).0@ != (#[trigger] r@[j]).0@,
        forall|k: Seq<char>| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == k,
{ unimplemented!() }
pub fn encoded(h: Option<&Huffman<char>>, s: &String) -> (r: Option<Bits>)
    requires h is Some ==> h->0.wf(),
    ensures r is Some ==> h is Some && r->0.wf() && run(h->0.root, r->0@) == Some((s@, Seq::<bool>::empty())),
{
    proof { axiom_memory_str(s); }
    match h { Some(x) => { let r = x.encode_string(s.as_str()); proof { if r is Ok { x.lemma_round(x, s@); } } r.ok() } None => None }
}
pub proof fn lemma_char_val(c: char) ensures (c as u32) as int == c as int {}

pub proof fn lemma_sk_map(mm: Map<Seq<char>, M>, k: Seq<char>) requires mm.contains_key(k) ensures decreases_to!(sk(M::Map(mm)) => sk(mm[k])), decreases_to!(sk(M::Map(mm)) => Sk::Leaf)
{ let s = sk(M::Map(mm)); assert(s is Named); assert(s->Named_0.contains_key(k)); assert(s->Named_0[k] == sk(mm[k])); assert(decreases_to!(s->Named_0 => s->Named_0[k])); assert(decreases_to!(s => s->Named_0)); assert(decreases_to!(s => *s->Named_1)); }
pub proof fn lemma_sk_arr(a: Seq<M>, i: int) requires 0 <= i < a.len() ensures decreases_to!(sk(M::Arr(a)) => sk(a[i]))
{ let s = sk(M::Arr(a)); assert(s is Many); assert(s->Many_0[i] == sk(a[i])); assert(decreases_to!(s->Many_0 => s->Many_0[i])); assert(decreases_to!(s => s->Many_0)); }
pub proof fn lemma_sk_text(m: M) requires m is Json || m is Tz ensures decreases_to!(sk(m) => Sk::Leaf)
{ let s = sk(m); assert(s is Wrap); assert(decreases_to!(s => *s->Wrap_0)); }
pub proof fn lemma_enc_bin(c: BinaryCompression, o: Seq<u8>, x: Seq<u8>, root: Option<Node<char>>) requires is_binary(c, o, x) ensures is_enc(seq![tagb(2, comp_byte(c))] + o, M::Bin(x), root) { let m = M::Bin(x); assert(m is Bin && m->Bin_0 == x); }
pub proof fn lemma_enc_json(j: SJ, t: Seq<char>, o: Seq<u8>, root: Option<Node<char>>) requires json_text(j, t), is_text(o, t, root) ensures is_enc(seq![tagb(7, 0)] + o, M::Json(j), root) { let m = M::Json(j); assert(m is Json && m->Json_0 == j); }
pub proof fn lemma_enc_int(i: Integer, root: Option<Node<char>>) requires i.wf() ensures is_enc(seq![tagb(4, ss_byte(i.signed_state))] + i.enc(), M::Int(i.signed_state, i.content@), root) { assert(is_int(i, i.signed_state, i.content@)); let m = M::Int(i.signed_state, i.content@); assert(m is Int && m->Int_0 == i.signed_state && m->Int_1 == i.content@); }
pub proof fn lemma_enc_tz(s: Seq<char>, o: Seq<u8>, root: Option<Node<char>>) requires is_text(o, s, root), is_tz(s) ensures is_enc(seq![tagb(12, 0)] + o, M::Tz(s), root) { }
pub proof fn lemma_enc_map(e: Seq<Entry>, mm: Map<Seq<char>, M>, root: Option<Node<char>>)
    requires covers(e, mm, Set::empty()), e.len() == mm.dom().len() <= usize::MAX, forall|i: int| 0 <= i < e.len() ==> is_text(#[trigger] e[i].1.0, e[i].0, root) && is_enc(e[i].1.1, mm[e[i].0], root)
    ensures is_enc(head(8, e.len() as int) + flat(pairs(e)), M::Map(mm), root) { }
pub proof fn lemma_enc_arr(p: Seq<Seq<u8>>, s: Seq<M>, root: Option<Node<char>>)
    requires p.len() == s.len() <= usize::MAX, forall|i: int| 0 <= i < s.len() ==> is_enc(#[trigger] p[i], s[i], root)
    ensures is_enc(head(11, s.len() as int) + flat(p), M::Arr(s), root) { }
pub proof fn lemma_enc_str(s: Seq<char>, o: Seq<u8>, root: Option<Node<char>>) ensures is_text(o, s, root) == is_enc(o, M::Str(s), root) { let m = M::Str(s); assert(m is Str && m->Str_0 == s); }
pub proof fn lemma_enc_strs() ensures forall|s: Seq<char>, o: Seq<u8>, root: Option<Node<char>>| #[trigger] is_enc(o, M::Str(s), root) == is_text(o, s, root)
{ assert forall|s: Seq<char>, o: Seq<u8>, root: Option<Node<char>>| #[trigger] is_enc(o, M::Str(s), root) == is_text(o, s, root) by { lemma_enc_str(s, o, root); } }
pub proof fn lemma_enc_coded(s: Seq<char>, x: Bits, o: Seq<u8>, root: Option<Node<char>>)
    requires root is Some, bits_of(o, s, root->0, x) ensures is_enc(seq![tagb(1, 1)] + o, M::Str(s), root)
{ let r = seq![tagb(1, 1)] + o; assert(r.skip(1) =~= o); assert(is_text(r, s, root)); lemma_enc_str(s, r, root); }
pub proof fn lemma_enc_plain(s: Seq<char>, root: Option<Node<char>>)
    requires encode_utf8(s).len() <= usize::MAX ensures is_enc(seq![tagb(1, 0)] + (uenc(encode_utf8(s).len() as int) + encode_utf8(s)), M::Str(s), root)
{ let r = seq![tagb(1, 0)] + (uenc(encode_utf8(s).len() as int) + encode_utf8(s)); assert(r.skip(1) =~= uenc(encode_utf8(s).len() as int) + encode_utf8(s)); assert(is_text(r, s, root)); lemma_enc_str(s, r, root); }
pub proof fn lemma_enc_char(c: char, root: Option<Node<char>>) ensures is_enc(seq![tagb(0, 0)] + uenc(c as int), M::Char(c), root) { let m = M::Char(c); assert(m is Char && m->Char_0 == c); }
pub proof fn lemma_enc_bool(b: bool, root: Option<Node<char>>) ensures is_enc(seq![tagb(3, if b { 1 } else { 0 })], M::Bool(b), root) { let m = M::Bool(b); assert(m is Bool && m->Bool_0 == b); }
pub proof fn lemma_enc_imag(i: Imaginary, root: Option<Node<char>>) requires i.wf() ensures is_enc(seq![tagb(5, i.magic())] + i.enc(), M::Imag(im(i)), root) { let m = M::Imag(im(i)); assert(m is Imag && m->Imag_0 == im(i)); }
pub proof fn lemma_enc_time(y: Integer, d: (int, int, int), t: (int, int, int, int), root: Option<Node<char>>) requires is_moment(d, t), y.canon(), y.value() == d.0 ensures is_enc(time_enc(y, d, t), M::Time(d, t), root) { let m = M::Time(d, t); assert(m is Time && m->Time_0 == d && m->Time_1 == t); }
pub proof fn lemma_enc_null(root: Option<Node<char>>) ensures is_enc(seq![tagb(9, 0)], M::Null, root) { let m = M::Null; assert(m is Null); }
pub proof fn lemma_enc_f32(x: Seq<u8>, root: Option<Node<char>>) requires x.len() == 4 ensures is_enc(seq![tagb(15, 0)] + x, M::F32(x), root) { let m = M::F32(x); assert(m is F32 && m->F32_0 == x); }
pub proof fn lemma_enc_f64(x: Seq<u8>, root: Option<Node<char>>) requires x.len() == 8 ensures is_enc(seq![tagb(10, 0)] + x, M::F64(x), root) { let m = M::F64(x); assert(m is F64 && m->F64_0 == x); }
pub proof fn lemma_enc_v4(x: Seq<u8>, root: Option<Node<char>>) requires x.len() == 4 ensures is_enc(seq![tagb(13, 0)] + x, M::V4(x), root) { let m = M::V4(x); assert(m is V4 && m->V4_0 == x); }
pub proof fn lemma_enc_v6(x: Seq<u16>, root: Option<Node<char>>) requires x.len() == 8 ensures is_enc(seq![tagb(14, 0)] + le16(x), M::V6(x), root) { let m = M::V6(x); assert(m is V6 && m->V6_0 == x); }
pub proof fn lemma_flat_push(p: Seq<Seq<u8>>, o: Seq<u8>) ensures flat(p.push(o)) == flat(p) + o { assert(p.push(o).drop_last() =~= p); }
/// what a value stands for, unfolded once
pub proof fn lemma_model(v: Value)
    requires val_wf(v)
    ensures match v {
        Value::Character(c) => model(v) == M::Char(c), Value::String(s) => model(v) == M::Str(s@), Value::Binary(b) => model(v) == M::Bin(b.0@), Value::Boolean(b) => model(v) == M::Bool(b),
        Value::Integer(i) => i.wf() && model(v) == M::Int(i.signed_state, i.content@), Value::Imaginary(i) => i.wf() && model(v) == M::Imag(im(i)), Value::Timestamp(t) => model(v) == M::Time(t@.0, t@.1),
        Value::JSON(j) => model(v) == M::Json(j@), Value::Null(_) => model(v) == M::Null, Value::SingleFloat(f) => model(v) == M::F32(f32_le(f)), Value::DoubleFloat(f) => model(v) == M::F64(f64_le(f)),
        Value::Array(a) => model(v) is Arr && model(v)->Arr_0.len() == a@.len() && forall|i: int| 0 <= i < a@.len() ==> model(#[trigger] a@[i]) == model(v)->Arr_0[i] && val_wf(a@[i]),
        Value::Map(h) => model(v) is Map && model(v)->Map_0.dom() == h@.dom() && forall|k: Seq<char>| #[trigger] h@.contains_key(k) ==> model(h@[k]) == model(v)->Map_0[k] && val_wf(h@[k]),
        Value::Timezone(t) => model(v) == M::Tz(t@), Value::Ipv4Addr(a) => model(v) == M::V4(a@), Value::Ipv6Addr(a) => model(v) == M::V6(a@),
    }
{ match v { Value::Map(h) => { assert(model(v)->Map_0.dom() =~= h@.dom()); } _ => {} } }
pub proof fn lemma_strs() ensures forall|s: String| #[trigger] model(Value::String(s)) == M::Str(s@), forall|s: String| #[trigger] val_wf(Value::String(s)), forall|s: Seq<char>| #[trigger] sk(M::Str(s)) == Sk::Leaf { }
impl Value {
//@fn impl Value | as_ty
        ensures match *self { Value::Character(_) => r == ValueTy::Character, Value::String(_) => r == ValueTy::String, Value::Binary(_) => r == ValueTy::Binary, Value::Boolean(_) => r == ValueTy::Boolean, Value::Integer(_) => r == ValueTy::Integer, Value::Imaginary(_) => r == ValueTy::Imaginary,
            Value::Timestamp(_) => r == ValueTy::Timestamp, Value::JSON(_) => r == ValueTy::JSON, Value::Map(_) => r == ValueTy::Map, Value::Array(_) => r == ValueTy::Array, Value::DoubleFloat(_) => r == ValueTy::DoubleFloat, Value::Null(_) => r == ValueTy::Null, Value::Timezone(_) => r == ValueTy::Timezone,
            Value::Ipv4Addr(_) => r == ValueTy::Ipv4Addr, Value::Ipv6Addr(_) => r == ValueTy::Ipv6Addr, Value::SingleFloat(_) => r == ValueTy::SingleFloat },
//@end
//@fn impl Value | ser
        requires val_wf(*self), huffman is Some ==> huffman->0.wf(), asked(true, false, model(*self)),
        ensures is_enc(r@, model(*self), root_of(huffman)),
        decreases sk(model(*self)),
//@rw `huffman.and_then(|x| x.encode_string(s).ok())` => `encoded(huffman, s)` -- Option::and_then written out
//@rw `s.as_bytes()` => `s.as_str().as_bytes()` -- String's bytes are its str's
//@rw `str_bytes.iter()` => `str_bytes`
//@rw `.iter()` => `.as_slice()` -- extending by references to bytes
//@rw `.extend(` => `.extend_any(` -- Vec's extend
//@rw `u8::from(*b)` => `(if *b { 1u8 } else { 0u8 })` -- std's conversion
//@rw `for (k, v) in m.clone()` => `let entries = clone_entries(m); for (k, v) in entries` -- a clone of a map is walked through in some order
//@rw `for v in a.clone()` => `let elements = clone_values(a); for v in elements` -- a clone of the elements
//@rw `name.into()` => `string_from(name)` -- std's conversion
//@rw `a.segments().into_iter().flat_map(u16::to_le_bytes)` => `flat_le16(a.segments())` -- the bytes of the segments in order
//@attr #[verifier::spinoff_prover] #[verifier::rlimit(150)]
//@entry
        hide(is_enc); hide(flat); hide(covers); hide(is_binary); hide(text_body); hide(model); hide(val_wf); hide(uenc); hide(Integer::enc);
        let ghost root = root_of(huffman); let ghost m0 = model(*self);
        proof { lemma_model(*self); lemma_strs(); lemma_enc_strs(); lemma_tag(); lemma_uenc_all(); lemma_pow_values(); assert(1usize << 3 == 8) by (bit_vector); }
//@after `res.extend_any(bytes.as_slice())` #0
                proof { lemma_enc_char(*ch, root); lemma_char_val(*ch); assert(res@ =~= seq![tagb(0, 0)] + uenc(*ch as int)); assert(is_enc(res@, m0, root)); }
//@after `res.extend_any(sered)`
                    proof { let o = sered@; assert(res@ =~= seq![tagb(1, 1)] + o); assert(bits_of(o, s@, root->0, huffman_encoded)); lemma_enc_coded(s@, huffman_encoded, o, root); assert(is_enc(res@, m0, root)); }
//@after `res.extend_any(str_bytes)`
                    proof { axiom_memory_str(s); let u = encode_utf8(s@); assert(str_bytes@ == u); assert(res@ =~= seq![tagb(1, 0)] + (uenc(u.len() as int) + u)); lemma_enc_plain(s@, root); assert(is_enc(res@, m0, root)); }
//@after `res.extend_any(bytes.as_slice())` #1
                proof { lemma_enc_bin(ct, bytes@, b.0@, root); assert(m0 == M::Bin(b.0@)); assert(is_binary(ct, bytes@, b.0@)); assert(res@ =~= seq![tagb(2, comp_byte(ct))] + bytes@); assert(is_enc(res@, m0, root)); }
//@after `res.push(ty)` #4
                proof { lemma_enc_bool(*b, root); assert(res@ =~= seq![tagb(3, if *b { 1 } else { 0 })]); assert(is_enc(res@, m0, root)); }
//@after `res.extend_any(bytes.as_slice())` #2
                proof { lemma_enc_int(*i, root); assert(i.wf()); assert(m0 == M::Int(i.signed_state, i.content@)); assert(is_int(*i, i.signed_state, i.content@)); assert(res@ =~= seq![tagb(4, ss_byte(i.signed_state))] + i.enc()); assert(is_enc(res@, m0, root)); }
//@after `res.extend_any(bytes)`
                proof { lemma_enc_imag(*i, root); assert(res@ =~= seq![tagb(5, i.magic())] + i.enc()); assert(is_enc(res@, m0, root)); }
//@after `res.extend_any(nanos.as_slice())`
                proof { let y = choose|y: Integer| y.canon() && y.value() == date@.0 && y.enc() == year@ && y.signed_state == year_ss; lemma_enc_time(y, date@, time@, root); assert(res@ =~= time_enc(y, date@, time@)); assert(is_enc(res@, m0, root)); }
//@before `res.extend_any(Value::String(v.to_string())`
                let ghost n0 = res@.len() as int; proof { lemma_sk_text(m0); }
//@after `res.extend_any(Value::String(v.to_string())`
                proof { let o = res@.skip(n0); let t = choose|t: Seq<char>| #[trigger] json_text(v@, t) && is_enc(o, M::Str(t), root); assert(is_text(o, t, root)); lemma_enc_json(v@, t, o, root); assert(res@ =~= seq![tagb(7, 0)] + o); assert(m0 == M::Json(v@)); assert(is_enc(res@, m0, root)); }
//@after `res.push(ty)` #9
                proof { lemma_enc_null(root); assert(res@ =~= seq![tagb(9, 0)]); assert(is_enc(res@, m0, root)); }
//@after `res.extend_any(f.to_le_bytes())` #0
                proof { lemma_enc_f32(f32_le(*f), root); assert(res@ =~= seq![tagb(15, 0)] + f32_le(*f)); assert(is_enc(res@, m0, root)); }
//@after `res.extend_any(f.to_le_bytes())` #1
                proof { lemma_enc_f64(f64_le(*f), root); assert(res@ =~= seq![tagb(10, 0)] + f64_le(*f)); assert(is_enc(res@, m0, root)); }
//@before `let entries =`
                let ghost mm = m0->Map_0; let ghost n = m@.dom().len() as int;
                let ghost h0 = res@; let ghost mut e: Seq<Entry> = seq![];
                proof { assert(mm.dom() =~= m@.dom()); assert(h0 =~= head(8, n)); reveal(flat); assert(flat(pairs(e)) =~= seq![]); assert(h0 + flat(pairs(e)) =~= h0); }
//@after `let entries =`
                let ghost es = entries@;
//@iter 0 it
//@loop 0
                    invariant it.seq() == es, e.len() == it.index(), asked(true, false, m0), m0 == M::Map(mm), m0 == model(*self), mm.dom() == m@.dom(), es.len() == n, n == m@.dom().len(), huffman is Some ==> huffman->0.wf(), root == root_of(huffman),
                        forall|i: int| 0 <= i < es.len() ==> mm.contains_key((#[trigger] es[i]).0@) && model(es[i].1) == mm[es[i].0@] && val_wf(es[i].1),
                        forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).0 == es[i].0@ && is_text(e[i].1.0, e[i].0, root) && is_enc(e[i].1.1, mm[e[i].0], root),
                        res@ == h0 + flat(pairs(e)),
//@into 0
                    let ghost kk = k@; let ghost mv = model(v); let ghost n0 = res@.len() as int; let ghost ix = it.index() as int; let ghost res0 = res@;
                    proof { lemma_strs(); lemma_enc_strs(); assert(es[ix] == (k, v)); lemma_sk_map(mm, kk); }
//@after `res.extend_any(Value::String(k)`
                    let ghost o1 = res@.skip(n0); let ghost n1 = res@.len() as int;
//@endof 0
                    proof {
                        let o2 = res@.skip(n1); let e1 = e.push((kk, (o1, o2)));
                        assert(is_text(o1, kk, root)); assert(is_enc(o2, mm[kk], root));
                        assert(pairs(e1) =~= pairs(e).push(o1 + o2)); lemma_flat_push(pairs(e), o1 + o2);
                        assert(res@ =~= res0 + (o1 + o2)); assert(res@ =~= h0 + flat(pairs(e1)));
                        e = e1;
                    }
//@after `for (k, v) in entries`
                proof { assert(covers(e, mm, Set::empty())) by { reveal(covers); assert forall|k: Seq<char>| #[trigger] mm.contains_key(k) implies exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k by { assert(m@.contains_key(k)); let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0@ == k; assert(e[i].0 == k); } }
                    lemma_enc_map(e, mm, root); assert(is_enc(res@, m0, root)); }
//@before `let elements =`
                let ghost ms = m0->Arr_0; let ghost n = a@.len() as int;
                let ghost h0 = res@; let ghost mut p: Seq<Seq<u8>> = seq![];
                proof { assert(h0 =~= head(11, n)); reveal(flat); assert(h0 + flat(p) =~= h0); }
//@after `let elements =`
                let ghost es = elements@;
//@iter 1 it
//@loop 1
                    invariant it.seq() == es, p.len() == it.index(), asked(true, false, m0), m0 == M::Arr(ms), m0 == model(*self), es.len() == n, ms.len() == n, huffman is Some ==> huffman->0.wf(), root == root_of(huffman),
                        forall|i: int| 0 <= i < es.len() ==> model(#[trigger] es[i]) == ms[i] && val_wf(es[i]),
                        forall|i: int| 0 <= i < p.len() ==> is_enc(#[trigger] p[i], ms[i], root),
                        res@ == h0 + flat(p),
//@into 1
                    let ghost n0 = res@.len() as int; let ghost ix = it.index() as int; let ghost res0 = res@;
                    proof { assert(es[ix] == v); lemma_sk_arr(ms, ix); }
//@endof 1
                    proof { let o = res@.skip(n0); assert(is_enc(o, ms[ix], root)); lemma_flat_push(p, o); assert(res@ =~= res0 + o); assert(res@ =~= h0 + flat(p.push(o))); p = p.push(o); }
//@after `for v in elements`
                proof { lemma_enc_arr(p, ms, root); assert(is_enc(res@, m0, root)); }
//@before `res.extend_any(Value::String(string_from(name))`
                let ghost n0 = res@.len() as int; proof { lemma_sk_text(m0); }
//@after `res.extend_any(Value::String(string_from(name))`
                proof { let o = res@.skip(n0); assert(is_enc(o, M::Str(tz@), root)); assert(is_text(o, tz@, root)); lemma_enc_tz(tz@, o, root); assert(res@ =~= seq![tagb(12, 0)] + o); assert(is_enc(res@, m0, root)); }
//@after `res.extend_any(a.octets())`
                proof { lemma_enc_v4(a@, root); assert(res@ =~= seq![tagb(13, 0)] + a@); assert(is_enc(res@, m0, root)); }
//@after `res.extend_any(flat_le16(a.segments()))`
                proof { lemma_enc_v6(a@, root); assert(res@ =~= seq![tagb(14, 0)] + le16(a@)); assert(is_enc(res@, m0, root)); }
//@end
//@fn impl Value | deser_array_or_map_len sig `fn deser_array_or_map_len(byte: u8, input: &mut Cursor<u8>, expected_type: ValueTy) -> (r: Result<usize, ValueSerError>)`
        requires old(input).wf(),
        ensures final(input).wf(), final(input).data() == old(input).data(), old(input).pos <= final(input).pos,
            forall|n: int| 0 <= n <= usize::MAX && #[trigger] head(ty_byte(expected_type), n).is_prefix_of(seq![byte] + old(input).rest()) ==> r is Ok && r->Ok_0 == n && final(input).pos + 1 == old(input).pos + head(ty_byte(expected_type), n).len(),
//@entry
        let ghost rest = input.rest(); let ghost tb = ty_byte(expected_type);
        proof {
            lemma_tag(); lemma_ud_read_all(rest);
            assert forall|n: int| 0 <= n <= usize::MAX && #[trigger] head(tb, n).is_prefix_of(seq![byte] + rest) implies
                if n < 7 { byte == tagb(tb, (n as u8) << 1) && head(tb, n).len() == 1 } else { byte == tagb(tb, 1) && ud_canon(rest) && ud_val(rest) == n && dec_len(rest) + 1 == head(tb, n).len() } by { lemma_head(byte, rest, tb, n); }
        }
//@end
}
pub proof fn lemma_head(byte: u8, rest: Seq<u8>, tb: u8, n: int)
    requires 0 <= n <= usize::MAX, head(tb, n).is_prefix_of(seq![byte] + rest), tb < 16
    ensures if n < 7 { byte == tagb(tb, (n as u8) << 1) && head(tb, n).len() == 1 } else { byte == tagb(tb, 1) && ud_canon(rest) && ud_val(rest) == n && dec_len(rest) + 1 == head(tb, n).len() }
{
    let a = seq![byte] + rest;
    assert(head(tb, n)[0] == a[0]);
    if n >= 7 {
        lemma_prefix(seq![tagb(tb, 1)], uenc(n), a); assert(a.skip(1) =~= rest); assert(uenc(n) + Seq::<u8>::empty() =~= uenc(n));
        lemma_pow_values(); lemma_u_prefix(n, Seq::empty(), rest);
    }
}
pub proof fn lemma_text(b: u8, o: Seq<u8>, s: Seq<char>, root: Option<Node<char>>, rest: Seq<u8>)
    requires text_body(b, o, s, root), o.is_prefix_of(rest)
    ensures ud_canon(rest), 0 <= ud_val(rest) <= usize::MAX, b == tagb(1, 0) || b == tagb(1, 1),
        b == tagb(1, 0) ==> ud_val(rest) == encode_utf8(s).len() && dec_len(rest) + ud_val(rest) == o.len() <= rest.len() && rest.subrange(dec_len(rest), dec_len(rest) + ud_val(rest)) == encode_utf8(s)
            && valid_utf8(encode_utf8(s)) && decode_utf8(encode_utf8(s)) == s,
        b == tagb(1, 1) ==> root is Some && ({ let nb = (ud_val(rest) + 7) / 8; dec_len(rest) + nb == o.len() <= rest.len()
            && run(root->0, Seq::new(ud_val(rest) as nat, |i: int| bit_at(rest.subrange(dec_len(rest), dec_len(rest) + nb), i))) == Some((s, Seq::<bool>::empty())) }),
{
    broadcast use vstd::utf8::group_utf8_lib;
    lemma_pow_values(); lemma_tag();
    let u = encode_utf8(s);
    if b == tagb(1, 0) && u.len() <= usize::MAX && o == uenc(u.len() as int) + u {
        lemma_u_prefix(u.len() as int, u, rest);
        assert(rest.subrange(dec_len(rest), dec_len(rest) + u.len()) =~= u);
        assert(tagb(1, 0) & 1 != tagb(1, 1) & 1);
    } else {
        let x = choose|x: Bits| #[trigger] bits_of(o, s, root->0, x);
        lemma_bits_round(x, rest);
        assert(tagb(1, 0) & 1 != tagb(1, 1) & 1);
    }
}
//@fn impl Value :: fn deser | parse_string id values::parse_string sig `fn parse_string(byte: u8, bytes: &mut Cursor<u8>, huffman: Option<&Huffman<char>>, g: Ghost<(Seq<u8>, Seq<char>)>) -> (r: Result<String, ValueSerError>)`
    requires old(bytes).wf(), asked(g@.0.is_prefix_of(old(bytes).rest()) && text_body(byte, g@.0, g@.1, root_of(huffman)), huffman is None && byte & 0b1 == 1, M::Str(g@.1)),
    ensures final(bytes).wf(), final(bytes).data() == old(bytes).data(), old(bytes).pos <= final(bytes).pos,
        g@.0.is_prefix_of(old(bytes).rest()) && text_body(byte, g@.0, g@.1, root_of(huffman)) ==> r is Ok && r->Ok_0@ == g@.1 && final(bytes).pos == old(bytes).pos + g@.0.len(),
        huffman is None && byte & 0b1 == 1 ==> r is Err,
//@rw `String::from_utf8(str_bytes)` => `string_from_utf8(str_bytes)` -- std's conversion of UTF-8
//@rw `bytes.read(len).ok_or(ValueSerError::NotEnoughBytes)?.to_vec()` => `to_vec_u8(bytes.read(len).ok_or(ValueSerError::NotEnoughBytes)?)` -- copying a slice
//@entry
    let ghost rest = bytes.rest(); let ghost good = g@.0.is_prefix_of(rest) && text_body(byte, g@.0, g@.1, root_of(huffman));
    proof {
        lemma_tag(); lemma_ud_read_all(rest);
        assert(byte & 1 == 0 || byte & 1 == 1) by (bit_vector);
        if good { lemma_text(byte, g@.0, g@.1, root_of(huffman), rest); }
    }
//@after `let str_bytes =`
        proof { if good { assert(str_bytes@ =~= rest.subrange(dec_len(rest), dec_len(rest) + ud_val(rest))); } }
//@end
//@item impl Value :: fn deser | enum ParseResult
/// what is left after a number
#[verifier::opaque]
pub open spec fn aft(r: Seq<u8>) -> Seq<u8> { r.skip(dec_len(r)) }
pub proof fn lemma_rest(c: Cursor<u8>) ensures c.rest() == c.data().skip(c.pos as int) { }
pub proof fn lemma_aft(d: Seq<u8>, p: int)
    requires 0 <= p <= d.len()
    ensures 0 <= dec_len(d.skip(p)), p + dec_len(d.skip(p)) <= d.len() ==> aft(d.skip(p)) == d.skip(p + dec_len(d.skip(p)))
{ reveal(aft); if p + dec_len(d.skip(p)) <= d.len() { assert(aft(d.skip(p)) =~= d.skip(p + dec_len(d.skip(p)))); } }
/// the numbers of a moment, one after the other
pub open spec fn time_reads(y: Integer, d: (int, int, int), t: (int, int, int, int), r1: Seq<u8>, len: int) -> bool {
    let r2 = aft(r1); let r3 = aft(r2); let r4 = aft(r3); let r5 = aft(r4); let r6 = aft(r5); let r7 = aft(r6);
    &&& dec_some(r1) && forall|r: Integer| #[trigger] r.is_dec(y.signed_state, r1) ==> r.canon() && r.value() == d.0
    &&& ud_canon(r2) && ud_val(r2) == d.1 && ud_canon(r3) && ud_val(r3) == d.2 && ud_canon(r4) && ud_val(r4) == t.0 && ud_canon(r5) && ud_val(r5) == t.1 && ud_canon(r6) && ud_val(r6) == t.2 && ud_canon(r7) && ud_val(r7) == t.3
    &&& len == 1 + dec_len(r1) + dec_len(r2) + dec_len(r3) + dec_len(r4) + dec_len(r5) + dec_len(r6) + dec_len(r7)
}
pub proof fn lemma_u_then(v: int, tail: Seq<u8>, rest: Seq<u8>)
    requires 0 <= v < pow256(16), (uenc(v) + tail).is_prefix_of(rest)
    ensures ud_canon(rest), ud_val(rest) == v, dec_len(rest) == uenc(v).len(), tail.is_prefix_of(rest.skip(dec_len(rest)))
{ lemma_prefix(uenc(v), tail, rest); lemma_u_prefix(v, tail, rest); }
pub proof fn lemma_time(y: Integer, d: (int, int, int), t: (int, int, int, int), rest: Seq<u8>)
    requires y.canon(), y.value() == d.0, is_moment(d, t), time_enc(y, d, t).is_prefix_of(rest)
    ensures time_reads(y, d, t, rest.skip(1), time_enc(y, d, t).len() as int), rest.len() > 0, rest[0] == tagb(6, ss_byte(y.signed_state))
{
    reveal(aft); lemma_pow_values(); lemma_pow_mono(4, 16); 
    let e = Seq::<u8>::empty();
    let t7 = uenc(t.3); let t6 = uenc(t.2) + t7; let t5 = uenc(t.1) + t6; let t4 = uenc(t.0) + t5; let t3 = uenc(d.2) + t4; let t2 = uenc(d.1) + t3; let t1 = y.enc() + t2;
    assert(time_enc(y, d, t)[0] == rest[0]);
    lemma_prefix(seq![tagb(6, ss_byte(y.signed_state))], t1, rest);
    let r1 = rest.skip(1); lemma_prefix(y.enc(), t2, r1); y.lemma_round(r1);
    let r2 = aft(r1); lemma_u_then(d.1, t3, r2);
    let r3 = aft(r2); lemma_u_then(d.2, t4, r3);
    let r4 = aft(r3); lemma_u_then(t.0, t5, r4);
    let r5 = aft(r4); lemma_u_then(t.1, t6, r5);
    let r6 = aft(r5); lemma_u_then(t.2, t7, r6);
    let r7 = aft(r6); assert(t7 + e =~= t7); lemma_u_then(t.3, e, r7);
}
pub open spec fn kind_of(m: M) -> u8 {
    match m { M::Char(_) => 0, M::Str(_) => 1, M::Bin(_) => 2, M::Bool(_) => 3, M::Int(_, _) => 4, M::Imag(_) => 5, M::Time(_, _) => 6, M::Json(_) => 7, M::Map(_) => 8, M::Null => 9, M::F64(_) => 10, M::Arr(_) => 11, M::Tz(_) => 12, M::V4(_) => 13, M::V6(_) => 14, M::F32(_) => 15 }
}
/// what the bytes after the first one are, by kind
pub open spec fn prim_reads(out: Seq<u8>, m: M, root: Option<Node<char>>, b: u8, r1: Seq<u8>) -> bool {
    match m {
        M::Char(c) => b == tagb(0, 0) && ud_canon(r1) && ud_val(r1) == c as int && 1 + dec_len(r1) == out.len(),
        M::Str(s) => (b == tagb(1, 0) || b == tagb(1, 1)) && text_body(b, out.skip(1), s, root) && out.skip(1).is_prefix_of(r1),
        M::Bin(x) => exists|c: BinaryCompression, o: Seq<u8>| #[trigger] is_binary(c, o, x) && b == tagb(2, comp_byte(c)) && o.is_prefix_of(r1) && 1 + o.len() == out.len(),
        M::Bool(x) => b == tagb(3, if x { 1 } else { 0 }) && out.len() == 1,
        M::Int(ss, c) => b == tagb(4, ss_byte(ss)) && dec_some(r1) && 1 + dec_len(r1) == out.len() && forall|r: Integer| #[trigger] r.is_dec(ss, r1) ==> r.signed_state == ss && r.content@ == c,
        M::Imag(x) => exists|i: Imaginary| #[trigger] im(i) == x && b == tagb(5, i.magic()) && i.written(i.magic(), r1) && 1 + i.enc().len() == out.len(),
        M::Time(d, t) => is_moment(d, t) && exists|y: Integer| b == tagb(6, ss_byte(y.signed_state)) && #[trigger] time_reads(y, d, t, r1, out.len() as int),
        M::Json(j) => b == tagb(7, 0),
        M::Map(mm) => head(8, mm.dom().len() as int).is_prefix_of(seq![b] + r1) && mm.dom().len() <= usize::MAX,
        M::Null => b == tagb(9, 0) && out.len() == 1,
        M::F64(x) => b == tagb(10, 0) && r1.len() >= 8 && r1.subrange(0, 8) == x && out.len() == 9,
        M::Arr(s) => head(11, s.len() as int).is_prefix_of(seq![b] + r1) && s.len() <= usize::MAX,
        M::Tz(s) => b == tagb(12, 0),
        M::V4(a) => b == tagb(13, 0) && a.len() == 4 && r1.len() >= 4 && r1.subrange(0, 4) == a && out.len() == 5,
        M::V6(a) => b == tagb(14, 0) && a.len() == 8 && r1.len() >= 16 && r1.subrange(0, 16) == le16(a) && out.len() == 17,
        M::F32(x) => b == tagb(15, 0) && r1.len() >= 4 && r1.subrange(0, 4) == x && out.len() == 5,
    }
}
pub proof fn lemma_one(t: u8, a: Seq<u8>, rest: Seq<u8>)
    requires (seq![t] + a).is_prefix_of(rest)
    ensures rest.len() > 0, rest[0] == t, a.is_prefix_of(rest.skip(1)), a.len() < rest.len(), rest.skip(1).subrange(0, a.len() as int) == a
{ let e = seq![t] + a; assert(e[0] == rest[0]); lemma_prefix(seq![t], a, rest); assert(rest.skip(1).subrange(0, a.len() as int) =~= a); }
pub proof fn lemma_head_first(t: u8, n: int) requires 0 <= n, t < 16 ensures head(t, n).len() > 0, (head(t, n)[0] & 0b1111_0000) >> 4 == t
{ lemma_tag(); if n < 7 { assert((n as u8) << 1 < 16); } }
pub proof fn lemma_prim(out: Seq<u8>, m: M, root: Option<Node<char>>, rest: Seq<u8>)
    requires is_enc(out, m, root), out.is_prefix_of(rest)
    ensures rest.len() > 0, out.len() > 0, rest[0] == out[0], prim_reads(out, m, root, rest[0], rest.skip(1)), kind_of(m) == (rest[0] & 0b1111_0000) >> 4
{
    lemma_pow_values(); lemma_pow_mono(4, 16); lemma_tag();
    let r1 = rest.skip(1); let e = Seq::<u8>::empty();
    if rest.len() > 0 { assert(seq![rest[0]] + r1 =~= rest); }
    match m {
        M::Char(c) => { lemma_one(tagb(0, 0), uenc(c as int), rest); assert(uenc(c as int) + e =~= uenc(c as int)); lemma_u_then(c as int, e, r1); }
        M::Str(s) => { assert(out[0] == rest[0]); assert(seq![out[0]] + out.skip(1) =~= out); lemma_one(out[0], out.skip(1), rest); }
        M::Bin(x) => { let (c, o) = choose|c: BinaryCompression, o: Seq<u8>| #[trigger] is_binary(c, o, x) && out == seq![tagb(2, comp_byte(c))] + o; lemma_one(tagb(2, comp_byte(c)), o, rest); assert(is_binary(c, o, x)); }
        M::Bool(b) => { assert(out + e =~= out); lemma_one(tagb(3, if b { 1 } else { 0 }), e, rest); }
        M::Int(ss, c) => { let i = choose|i: Integer| #[trigger] is_int(i, ss, c) && out == seq![tagb(4, ss_byte(ss))] + i.enc(); lemma_one(tagb(4, ss_byte(ss)), i.enc(), rest); i.lemma_round(r1); }
        M::Imag(x) => { let i = choose|i: Imaginary| i.wf() && #[trigger] im(i) == x && out == seq![tagb(5, i.magic())] + i.enc(); lemma_one(tagb(5, i.magic()), i.enc(), rest); assert(i.written(i.magic(), r1)); }
        M::Time(d, t) => { let y = choose|y: Integer| y.canon() && y.value() == d.0 && #[trigger] time_enc(y, d, t) == out; lemma_time(y, d, t, rest); }
        M::Json(j) => { let (s, o) = choose|s: Seq<char>, o: Seq<u8>| #[trigger] json_text(j, s) && #[trigger] is_text(o, s, root) && out == seq![tagb(7, 0)] + o; lemma_one(tagb(7, 0), o, rest); }
        M::Map(mm) => { let ee = choose|ee: Seq<Entry>| covers(ee, mm, Set::empty()) && out == head(8, ee.len() as int) + #[trigger] flat(pairs(ee)) && ee.len() == mm.dom().len();
            lemma_head_first(8, ee.len() as int); lemma_prefix(head(8, ee.len() as int), flat(pairs(ee)), rest); assert(out[0] == rest[0]); }
        M::Null => { assert(out + e =~= out); lemma_one(tagb(9, 0), e, rest); }
        M::F64(b) => { lemma_one(tagb(10, 0), b, rest); }
        M::Arr(s) => { let p = choose|p: Seq<Seq<u8>>| p.len() == s.len() && out == head(11, s.len() as int) + #[trigger] flat(p);
            lemma_head_first(11, s.len() as int); lemma_prefix(head(11, s.len() as int), flat(p), rest); assert(out[0] == rest[0]); }
        M::Tz(s) => { let o = choose|o: Seq<u8>| #[trigger] is_text(o, s, root) && out == seq![tagb(12, 0)] + o; lemma_one(tagb(12, 0), o, rest); }
        M::V4(a) => { lemma_one(tagb(13, 0), a, rest); }
        M::V6(a) => { lemma_one(tagb(14, 0), le16(a), rest); }
        M::F32(b) => { lemma_one(tagb(15, 0), b, rest); }
    }
}
pub open spec fn parsed(r: ParseResult, m: M, n: int, out: Seq<u8>) -> bool {
    match m {
        M::Arr(s) => r == ParseResult::NewArray(s.len() as usize) && n == head(11, s.len() as int).len(),
        M::Map(mm) => r == ParseResult::NewMap(mm.dom().len() as usize) && n == head(8, mm.dom().len() as int).len(),
        M::Json(_) => r is Json && n == 1,
        M::Tz(_) => r is Timezone && n == 1,
        _ => r is Value && model(r->Value_0) == m && n == out.len(),
    }
}
//@fn impl Value :: fn deser | parse_primitive id values::parse_primitive sig `fn parse_primitive(bytes: &mut Cursor<u8>, huffman: Option<&Huffman<char>>, g: Ghost<(Seq<u8>, M)>) -> (r: Result<ParseResult, ValueSerError>)`
    requires old(bytes).wf(), asked(g@.0.is_prefix_of(old(bytes).rest()) && is_enc(g@.0, g@.1, root_of(huffman)), refused(huffman, old(bytes).rest()), g@.1),
    ensures final(bytes).wf(), final(bytes).data() == old(bytes).data(), r is Ok ==> old(bytes).pos < final(bytes).pos, refused(huffman, old(bytes).rest()) ==> r is Err, old(bytes).pos <= final(bytes).pos,
        r is Ok && r->Ok_0 is Value ==> val_wf(r->Ok_0->Value_0),
        g@.0.is_prefix_of(old(bytes).rest()) && is_enc(g@.0, g@.1, root_of(huffman)) ==> r is Ok && parsed(r->Ok_0, g@.1, final(bytes).pos - old(bytes).pos, g@.0),
//@attr #[verifier::rlimit(60)]
//@rw? `int` => `int_` -- a name Verus uses itself
//@rw `NaiveTime::from_hms_opt(hour, min, sec).and_then(|time| time.with_nanosecond(ns))` => `opt_with_nanosecond(NaiveTime::from_hms_opt(hour, min, sec), ns)` -- Option::and_then written out
//@rw `parse_string(byte, bytes, huffman)` => `parse_string(byte, bytes, huffman, Ghost(gs))` -- a ghost argument (what the bytes may stand for)
//@rw `let Some([a, b, c, d]) = bytes.read_exact() else` => `let Some(abcd) = bytes.read_exact::<4>() else` -- an array pattern written out
//@rw `*a, *b, *c, *d` => `abcd[0], abcd[1], abcd[2], abcd[3]`
//@rw `let [a, b, c, d, e, f, g, h] = octets;` => `` -- an array pattern written out
//@rw `a, b, c, d, e, f, g, h` => `octets[0], octets[1], octets[2], octets[3], octets[4], octets[5], octets[6], octets[7]`
//@rw `u16::from_le_bytes` => `u16_from_le` -- std's conversion
//@attr #[verifier::rlimit(150)] #[verifier::spinoff_prover]
//@entry
    hide(four); hide(eight); hide(le16); hide(uenc); hide(is_enc); hide(flat); hide(covers); hide(is_binary); hide(text_body); hide(Cursor::rest); hide(prim_reads); hide(time_reads);
    let ghost rest = bytes.rest(); let ghost r1 = rest.skip(1); let ghost root = root_of(huffman); let ghost out = g@.0; let ghost m = g@.1;
    let ghost good = out.is_prefix_of(rest) && is_enc(out, m, root); let ghost d = bytes.data(); let ghost p0 = bytes.pos;
    let ghost gs = (out.skip(1), if m is Str { m->Str_0 } else { seq![] });
    proof {
        lemma_rest(*bytes); lemma_tag();
        if good { lemma_prim(out, m, root, rest); }
    }
//@after `let byte =`
    proof { lemma_rest(*bytes); assert(bytes.rest() =~= r1); assert(byte == rest[0]); }
//@after `let ty =` #1
    proof {
        if good {
            if m is Str { reveal(prim_reads); assert(text_body(byte, gs.0, gs.1, root) && gs.0.is_prefix_of(r1) && out.len() == 1 + gs.0.len()); }
            else if m is Bool { reveal(prim_reads); assert(byte & 0b0000_0001 == if m->Bool_0 { 1u8 } else { 0u8 }); assert(out.len() == 1); }
            else if m is Null { reveal(prim_reads); assert(out.len() == 1); }
        }
    }
//@before `let signed_state =`
    proof { reveal(prim_reads); }
//@before `let magic_bits =`
    proof { reveal(prim_reads); }
//@before `let ch =`
    proof { reveal(prim_reads); lemma_ud_read_all(r1); }
//@before `let ct =`
    proof { reveal(prim_reads); }
//@before `let len =` #0
    proof { reveal(prim_reads); }
//@before `let len =` #1
    proof { reveal(prim_reads); }
//@before `let Some(bytes) =` #0
    proof { if rest.len() >= 5 { assert(d.subrange(p0 + 1, p0 + 5) =~= r1.subrange(0, 4)); } if good { reveal(prim_reads); assert(r1.len() >= 4 && m->F32_0 == r1.subrange(0, 4) && out.len() == 5); } }
//@before `let Some(bytes) =` #1
    proof { if rest.len() >= 9 { assert(d.subrange(p0 + 1, p0 + 9) =~= r1.subrange(0, 8)); } if good { reveal(prim_reads); assert(r1.len() >= 8 && m->F64_0 == r1.subrange(0, 8) && out.len() == 9); } }
//@before `let Some(abcd) =`
    proof { if rest.len() >= 5 { assert(d.subrange(p0 + 1, p0 + 5) =~= r1.subrange(0, 4)); } if good { reveal(prim_reads); assert(r1.len() >= 4 && m->V4_0 == r1.subrange(0, 4) && out.len() == 5); } }
//@before `let Some(bytes) =` #2
    proof { if rest.len() >= 17 { assert(d.subrange(p0 + 1, p0 + 17) =~= r1.subrange(0, 16)); } if good { reveal(prim_reads); assert(r1.len() >= 16 && m->V6_0.len() == 8 && le16(m->V6_0) == r1.subrange(0, 16) && out.len() == 17); } }
//@before `let year_signed_state =`
                    let ghost r2 = aft(r1); let ghost r3 = aft(r2); let ghost r4 = aft(r3); let ghost r5 = aft(r4); let ghost r6 = aft(r5); let ghost r7 = aft(r6);
                    let ghost q2 = p0 + 1 + dec_len(r1); let ghost q3 = q2 + dec_len(r2); let ghost q4 = q3 + dec_len(r3); let ghost q5 = q4 + dec_len(r4); let ghost q6 = q5 + dec_len(r5); let ghost q7 = q6 + dec_len(r6);
                    proof { reveal(prim_reads); reveal(time_reads); }
//@before `let month =`
                    proof { lemma_aft(d, p0 + 1); lemma_rest(*bytes); assert(bytes.pos == q2 && bytes.rest() == r2); lemma_ud_read_all(r2); }
//@before `let day =`
                    proof { lemma_aft(d, q2); lemma_rest(*bytes); assert(bytes.pos == q3 && bytes.rest() == r3); lemma_ud_read_all(r3); }
//@before `let hour =`
                    proof { lemma_aft(d, q3); lemma_rest(*bytes); assert(bytes.pos == q4 && bytes.rest() == r4); lemma_ud_read_all(r4); }
//@before `let min =`
                    proof { lemma_aft(d, q4); lemma_rest(*bytes); assert(bytes.pos == q5 && bytes.rest() == r5); lemma_ud_read_all(r5); }
//@before `let sec =`
                    proof { lemma_aft(d, q5); lemma_rest(*bytes); assert(bytes.pos == q6 && bytes.rest() == r6); lemma_ud_read_all(r6); }
//@before `let ns =`
                    proof { lemma_aft(d, q6); lemma_rest(*bytes); assert(bytes.pos == q7 && bytes.rest() == r7); lemma_ud_read_all(r7); }
//@before `Value::Ipv4Addr`
                proof { lemma_four(abcd@); if good { assert(m->V4_0 =~= abcd@); } }
//@loop 0
        invariant bytes@.len() == 16, forall|j: int| 0 <= j < i ==> octets[j] as int == bytes@[2 * j] + 256 * bytes@[2 * j + 1],
//@before `Value::Ipv6Addr`
                proof { if good { assert(le16(m->V6_0) =~= bytes@); lemma_eight(m->V6_0, octets@, bytes@); } }
//@end

// ---- reading: the frames of the stack
//@item impl Value :: fn deser | enum DeserialisationState
pub type DS = DeserialisationState;
pub open spec fn cat(nd: Seq<Seq<u8>>) -> Seq<u8> decreases nd.len() { if nd.len() == 0 { seq![] } else { nd.last() + cat(nd.drop_last()) } }
pub open spec fn entries_ok(e: Seq<Entry>, mm: Map<Seq<char>, M>, root: Option<Node<char>>) -> bool { forall|i: int| 0 <= i < e.len() ==> is_text(#[trigger] e[i].1.0, e[i].0, root) && is_enc(e[i].1.1, mm[e[i].0], root) }
pub open spec fn elems_ok(p: Seq<Seq<u8>>, s: Seq<M>, k: int, root: Option<Node<char>>) -> bool { p.len() + k == s.len() && forall|j: int| 0 <= j < p.len() ==> is_enc(#[trigger] p[j], s[k + j], root) }
pub open spec fn arr_parts(p: Seq<Seq<u8>>, n: Seq<u8>, a: Seq<Value>, left: int, m: M, root: Option<Node<char>>, above: int) -> bool {
    &&& m is Arr && left >= 1 && left == p.len() + above && n == flat(p) && elems_ok(p, m->Arr_0, a.len() + above, root)
    &&& forall|j: int| 0 <= j < a.len() ==> model(#[trigger] a[j]) == m->Arr_0[j]
}
pub open spec fn arr_rest(n: Seq<u8>, a: Seq<Value>, left: int, m: M, root: Option<Node<char>>, above: int) -> bool { exists|p: Seq<Seq<u8>>| #[trigger] arr_parts(p, n, a, left, m, root, above) }
pub open spec fn map_parts(e: Seq<Entry>, n: Seq<u8>, h: Map<Seq<char>, Value>, left: int, m: M, root: Option<Node<char>>, done: Set<Seq<char>>, above: int) -> bool {
    &&& m is Map && left >= 1 && left == e.len() + above && n == flat(pairs(e)) && covers(e, m->Map_0, done) && entries_ok(e, m->Map_0, root)
    &&& forall|k: Seq<char>| #[trigger] h.contains_key(k) ==> m->Map_0.contains_key(k) && model(h[k]) == m->Map_0[k]
}
pub open spec fn map_rest(n: Seq<u8>, h: Map<Seq<char>, Value>, left: int, m: M, root: Option<Node<char>>, done: Set<Seq<char>>, above: int) -> bool { exists|e: Seq<Entry>| #[trigger] map_parts(e, n, h, left, m, root, done, above) }
pub open spec fn key_of(f: DS) -> Option<Seq<char>> { match f { DS::FoundKey(k) => Some(k@), DS::FoundKeyValue(k, _) => Some(k@), _ => None } }
/// the top frame, over i others, is to become m with the bytes n
pub open spec fn top_ok(f: DS, m: M, n: Seq<u8>, root: Option<Node<char>>, i: int) -> bool {
    match f {
        DS::ValueNeeded => is_enc(n, m, root) && fits(m, 256 - i),
        DS::FoundValue(v) => model(v) == m && n.len() == 0,
        DS::Array(a, left) => arr_rest(n, a@, left as int, m, root, 0) && fits(m, 256 - i),
        DS::Map(h, left) => map_rest(n, h@, left as int, m, root, h@.dom(), 0) && fits(m, 256 - i),
        DS::FoundKeyValue(_, v) => model(v) == m && n.len() == 0,
        DS::FoundKey(_) => is_enc(n, m, root) && fits(m, 256 - i - 1),     // (not where the loop starts)
        _ => false,
    }
}
/// a frame which waits for the frame g above it, which is to become m2
pub open spec fn link(f: DS, m: M, n: Seq<u8>, g: DS, m2: M, root: Option<Node<char>>, i: int) -> bool {
    (f is Map || key_of(g) is None) && match f {
        DS::Array(a, left) => arr_rest(n, a@, left as int, m, root, 1) && m2 == m->Arr_0[a@.len() as int] && fits(m, 256 - i),
        DS::Map(h, left) => key_of(g) is Some && m is Map && m->Map_0.contains_key(key_of(g)->0) && !h@.contains_key(key_of(g)->0) && m2 == m->Map_0[key_of(g)->0]
            && map_rest(n, h@, left as int, m, root, h@.dom().insert(key_of(g)->0), 1) && fits(m, 256 - i),
        DS::FoundKey(_) => m2 == m && n.len() == 0,
        DS::JsonNeeded => m is Json && m2 is Str && json_text(m->Json_0, m2->Str_0) && n.len() == 0,
        DS::TimezoneNeeded => m is Tz && m2 is Str && m2->Str_0 == m->Tz_0 && is_tz(m->Tz_0) && n.len() == 0,
        _ => false,
    }
}
pub open spec fn chain(st: Seq<DS>, tg: Seq<M>, nd: Seq<Seq<u8>>, root: Option<Node<char>>) -> bool {
    st.len() == tg.len() == nd.len() && forall|i: int| 0 <= i < st.len() - 1 ==> link(#[trigger] st[i], tg[i], nd[i], st[i + 1], tg[i + 1], root, i)
}
pub struct On { pub ghost root: Option<Node<char>>, pub ghost m0: M, pub ghost d: Seq<u8>, pub ghost end: int }
/// the frames stand for what is still to be read of m0, from pos up to the end
pub open spec fn on(st: Seq<DS>, tg: Seq<M>, nd: Seq<Seq<u8>>, o: On, pos: int) -> bool {
    &&& 1 <= st.len() <= 257 && chain(st, tg, nd, o.root) && top_ok(st.last(), tg.last(), nd.last(), o.root, st.len() - 1) && tg[0] == o.m0 && key_of(st[0]) is None
    &&& 0 <= pos <= o.d.len() && cat(nd).is_prefix_of(o.d.skip(pos)) && pos + cat(nd).len() == o.end
}
pub proof fn lemma_link_swap(f: DS, m: M, n: Seq<u8>, g: DS, g2: DS, m2: M, root: Option<Node<char>>, i: int)
    requires link(f, m, n, g, m2, root, i), key_of(g) == key_of(g2) ensures link(f, m, n, g2, m2, root, i) { }
pub proof fn lemma_cat_push(nd: Seq<Seq<u8>>, n: Seq<u8>) ensures cat(nd.push(n)) == n + cat(nd) { assert(nd.push(n).drop_last() =~= nd); }
/// the top frame is replaced by f, of which n2 is to be read
#[verifier::spinoff_prover] #[verifier::rlimit(100)]
pub proof fn step_top(st: Seq<DS>, tg: Seq<M>, nd: Seq<Seq<u8>>, o: On, pos: int, f: DS, n1: Seq<u8>, n2: Seq<u8>, st2: Seq<DS>) -> (r: (Seq<M>, Seq<Seq<u8>>))
    requires on(st, tg, nd, o, pos), nd.last() == n1 + n2, top_ok(f, tg.last(), n2, o.root, st.len() - 1), st2 =~= st.drop_last().push(f), key_of(f) == key_of(st.last())
    ensures on(st2, r.0, r.1, o, pos + n1.len())
{
    hide(link); hide(top_ok);
    let nd2 = nd.drop_last().push(n2); let l = st.len() as int;
    lemma_cat_push(nd.drop_last(), n2);
    assert(cat(nd) == nd.last() + cat(nd.drop_last()));
    assert(cat(nd) =~= n1 + cat(nd2));
    let rest = o.d.skip(pos);
    assert(o.d.skip(pos + n1.len()) =~= rest.skip(n1.len() as int));
    lemma_prefix(n1, cat(nd2), rest);
    assert forall|i: int| 0 <= i < st2.len() - 1 implies link(#[trigger] st2[i], tg[i], nd2[i], st2[i + 1], tg[i + 1], o.root, i) by {
        assert(st2[i] == st[i]); assert(nd2[i] == nd[i]);
        assert(link(st[i], tg[i], nd[i], st[i + 1], tg[i + 1], o.root, i));
        if i == l - 2 { lemma_link_swap(st[i], tg[i], nd[i], st[i + 1], f, tg[i + 1], o.root, i); } else { assert(st2[i + 1] == st[i + 1]); }
    }
    (tg, nd2)
}
/// the top frame becomes u, with f above it
#[verifier::spinoff_prover] #[verifier::rlimit(100)]
pub proof fn step_push(st: Seq<DS>, tg: Seq<M>, nd: Seq<Seq<u8>>, o: On, pos: int, u: DS, f: DS, m2: M, n1: Seq<u8>, n2: Seq<u8>, n3: Seq<u8>, st2: Seq<DS>) -> (r: (Seq<M>, Seq<Seq<u8>>))
    requires on(st, tg, nd, o, pos), nd.last() == n1 + (n2 + n3), link(u, tg.last(), n3, f, m2, o.root, st.len() - 1), top_ok(f, m2, n2, o.root, st.len() as int), st2 =~= st.drop_last().push(u).push(f), st.len() <= 256,
        key_of(u) == key_of(st.last())
    ensures on(st2, r.0, r.1, o, pos + n1.len()), r.0.last() == m2, r.1.last() == n2
{
    let nd1 = nd.drop_last().push(n3); let nd2 = nd1.push(n2); let tg2 = tg.push(m2); let l = st.len() as int;
    lemma_cat_push(nd.drop_last(), n3); lemma_cat_push(nd1, n2);
    assert(cat(nd) == nd.last() + cat(nd.drop_last()));
    assert(cat(nd) =~= n1 + cat(nd2));
    let rest = o.d.skip(pos);
    assert(o.d.skip(pos + n1.len()) =~= rest.skip(n1.len() as int));
    lemma_prefix(n1, cat(nd2), rest);
    assert forall|i: int| 0 <= i < st2.len() - 1 implies link(#[trigger] st2[i], tg2[i], nd2[i], st2[i + 1], tg2[i + 1], o.root, i) by {
        if i < l - 1 {
            assert(st2[i] == st[i]); assert(nd2[i] == nd[i]);
            assert(link(st[i], tg[i], nd[i], st[i + 1], tg[i + 1], o.root, i));
            if i == l - 2 { lemma_link_swap(st[i], tg[i], nd[i], st[i + 1], u, tg[i + 1], o.root, i); } else { assert(st2[i + 1] == st[i + 1]); }
        }
    }
    (tg2, nd2)
}
/// the two top frames, of which the upper is done, become f
#[verifier::spinoff_prover] #[verifier::rlimit(100)]
pub proof fn step_pop(st: Seq<DS>, tg: Seq<M>, nd: Seq<Seq<u8>>, o: On, pos: int, f: DS, st2: Seq<DS>) -> (r: (Seq<M>, Seq<Seq<u8>>))
    requires on(st, tg, nd, o, pos), st.len() >= 2, nd.last().len() == 0, top_ok(f, tg[st.len() - 2], nd[st.len() - 2], o.root, st.len() - 2), st2 =~= st.drop_last().drop_last().push(f),
        key_of(f) == key_of(st[st.len() - 2])
    ensures on(st2, r.0, r.1, o, pos)
{
    let nd2 = nd.drop_last(); let tg2 = tg.drop_last(); let l = st.len() as int;
    assert(cat(nd) =~= cat(nd2));
    assert forall|i: int| 0 <= i < st2.len() - 1 implies link(#[trigger] st2[i], tg2[i], nd2[i], st2[i + 1], tg2[i + 1], o.root, i) by {
        assert(st2[i] == st[i]);
        assert(link(st[i], tg[i], nd[i], st[i + 1], tg[i + 1], o.root, i));
        if i == l - 3 { lemma_link_swap(st[i], tg[i], nd[i], st[i + 1], f, tg[i + 1], o.root, i); } else { assert(st2[i + 1] == st[i + 1]); }
    }
    (tg2, nd2)
}

pub proof fn lemma_fits(m: M, n: int) requires fits(m, n) ensures n >= 0 { }
pub proof fn lemma_flat_front(p: Seq<Seq<u8>>)
    requires p.len() > 0 ensures flat(p) == p[0] + flat(p.skip(1)) decreases p.len()
{
    if p.len() == 1 { assert(p.drop_last() =~= seq![]); assert(p.skip(1) =~= seq![]); assert(flat(p) =~= p[0] + flat(p.skip(1))); }
    else { lemma_flat_front(p.drop_last()); assert(p.drop_last().skip(1) =~= p.skip(1).drop_last()); assert(flat(p) =~= p[0] + flat(p.skip(1))); }
}
/// where the loop starts
pub open spec fn at_head(st: Seq<DS>) -> bool { !(st.last() is FoundKey) }
/// an array gets its next element
pub proof fn step_arr_need(st: Seq<DS>, tg: Seq<M>, nd: Seq<Seq<u8>>, o: On, pos: int, st2: Seq<DS>) -> (r: (Seq<M>, Seq<Seq<u8>>))
    requires on(st, tg, nd, o, pos), st.last() is Array, st2 =~= st.push(DS::ValueNeeded)
    ensures on(st2, r.0, r.1, o, pos)
{
    let f = st.last(); let a = f->Array_0@; let left = f->Array_1 as int; let m = tg.last(); let n = nd.last(); let i = st.len() - 1;
    assert(arr_rest(n, a, left, m, o.root, 0));
    let p = choose|p: Seq<Seq<u8>>| #[trigger] arr_parts(p, n, a, left, m, o.root, 0);
    lemma_flat_front(p); let e = Seq::<u8>::empty(); let n3 = flat(p.skip(1)); let m2 = m->Arr_0[a.len() as int];
    assert forall|j: int| 0 <= j < p.skip(1).len() implies is_enc(#[trigger] p.skip(1)[j], m->Arr_0[a.len() + 1 + j], o.root) by { assert(is_enc(p[j + 1], m->Arr_0[a.len() + (j + 1)], o.root)); }
    assert(arr_parts(p.skip(1), n3, a, left, m, o.root, 1));
    assert(is_enc(p[0], m->Arr_0[a.len() as int], o.root));
    assert(fits(m, 256 - i)); assert(fits(m->Arr_0[a.len() as int], 256 - i - 1));
    assert(n =~= e + (p[0] + n3));
    step_push(st, tg, nd, o, pos, f, DS::ValueNeeded, m2, e, p[0], n3, st2)
}
/// the next entry of the map on top
pub open spec fn next_parts(st: Seq<DS>, tg: Seq<M>, nd: Seq<Seq<u8>>, o: On) -> Seq<Entry> { choose|e: Seq<Entry>| #[trigger] map_parts(e, nd.last(), st.last()->Map_0@, st.last()->Map_1 as int, tg.last(), o.root, st.last()->Map_0@.dom(), 0) }
pub proof fn lemma_next_entry(st: Seq<DS>, tg: Seq<M>, nd: Seq<Seq<u8>>, o: On, pos: int)
    requires on(st, tg, nd, o, pos), st.last() is Map
    ensures ({ let e = next_parts(st, tg, nd, o)[0]; e.1.0.len() > 0 && pos < o.d.len() && o.d[pos] == e.1.0[0] && text_body(e.1.0[0], e.1.0.skip(1), e.0, o.root) && e.1.0.skip(1).is_prefix_of(o.d.skip(pos + 1)) })
{
    let f = st.last(); let h = f->Map_0@; let left = f->Map_1 as int; let m = tg.last(); let n = nd.last();
    assert(map_rest(n, h, left, m, o.root, h.dom(), 0));
    let p = next_parts(st, tg, nd, o); assert(map_parts(p, n, h, left, m, o.root, h.dom(), 0));
    let e = p[0]; assert(m->Map_0.contains_key(p[0].0)); assert(is_text(p[0].1.0, p[0].0, o.root));
    lemma_flat_front(pairs(p)); let rest = o.d.skip(pos);
    assert(pairs(p)[0] == e.1.0 + e.1.1);
    let t = e.1.1 + flat(pairs(p).skip(1));
    assert(n =~= e.1.0 + t);
    assert(cat(nd) == n + cat(nd.drop_last()));
    lemma_prefix(n, cat(nd.drop_last()), rest); lemma_prefix(e.1.0, t, rest);
    assert(e.1.0[0] == rest[0]); assert(seq![e.1.0[0]] + e.1.0.skip(1) =~= e.1.0);
    lemma_prefix(seq![e.1.0[0]], e.1.0.skip(1), rest); assert(rest.skip(1) =~= o.d.skip(pos + 1));
}
/// the first of the entries which are missing taken off
pub proof fn lemma_entries_tail(p: Seq<Entry>, mm: Map<Seq<char>, M>, done: Set<Seq<char>>, root: Option<Node<char>>)
    requires p.len() > 0, covers(p, mm, done), entries_ok(p, mm, root)
    ensures covers(p.skip(1), mm, done.insert(p[0].0)), entries_ok(p.skip(1), mm, root), mm.contains_key(p[0].0), !done.contains(p[0].0),
        is_text(p[0].1.0, p[0].0, root), is_enc(p[0].1.1, mm[p[0].0], root),
        flat(pairs(p)) == p[0].1.0 + (p[0].1.1 + flat(pairs(p.skip(1)))),
{
    hide(is_enc); hide(is_text);
    let q = p.skip(1); let k = p[0].0; let d2 = done.insert(k);
    assert forall|i: int| 0 <= i < q.len() implies mm.contains_key((#[trigger] q[i]).0) && !d2.contains(q[i].0) by { assert(q[i] == p[i + 1]); assert(p[i + 1].0 != p[0].0); }
    assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies (#[trigger] q[i]).0 != (#[trigger] q[j]).0 by { assert(q[i] == p[i + 1] && q[j] == p[j + 1]); assert(p[i + 1].0 != p[j + 1].0); }
    assert forall|k2: Seq<char>| #[trigger] mm.contains_key(k2) && !d2.contains(k2) implies exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == k2 by {
        assert(!done.contains(k2)); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k2; assert(i != 0); assert(q[i - 1] == p[i]);
    }
    assert forall|i: int| 0 <= i < q.len() implies is_text(#[trigger] q[i].1.0, q[i].0, root) && is_enc(q[i].1.1, mm[q[i].0], root) by { assert(q[i] == p[i + 1]); assert(is_text(p[i + 1].1.0, p[i + 1].0, root)); }
    assert(p[0] == p[0]); assert(is_text(p[0].1.0, p[0].0, root));
    lemma_flat_front(pairs(p)); assert(pairs(p)[0] == p[0].1.0 + p[0].1.1); assert(pairs(p).skip(1) =~= pairs(q));
    assert((p[0].1.0 + p[0].1.1) + flat(pairs(q)) =~= p[0].1.0 + (p[0].1.1 + flat(pairs(q))));
}
/// a map has read its next key
pub proof fn step_map_need(st: Seq<DS>, tg: Seq<M>, nd: Seq<Seq<u8>>, o: On, pos: int, key: String, st2: Seq<DS>) -> (r: (Seq<M>, Seq<Seq<u8>>))
    requires on(st, tg, nd, o, pos), st.last() is Map, key@ == next_parts(st, tg, nd, o)[0].0, st2 =~= st.push(DS::FoundKey(key)).push(DS::ValueNeeded)
    ensures on(st2, r.0, r.1, o, pos + next_parts(st, tg, nd, o)[0].1.0.len())
{
    let f = st.last(); let h = f->Map_0@; let left = f->Map_1 as int; let m = tg.last(); let n = nd.last(); let i = st.len() - 1; let mm = m->Map_0;
    assert(map_rest(n, h, left, m, o.root, h.dom(), 0));
    let p = next_parts(st, tg, nd, o); assert(map_parts(p, n, h, left, m, o.root, h.dom(), 0));
    let e = p[0]; let q = p.skip(1); let k = e.0; let n3 = flat(pairs(q)); let done = h.dom().insert(k);
    lemma_entries_tail(p, mm, h.dom(), o.root);
    assert(map_parts(q, n3, h, left, m, o.root, done, 1));
    assert(fits(m, 256 - i)); assert(fits(mm[k], 256 - i - 2)); lemma_fits(mm[k], 256 - i - 2);
    let g = DS::FoundKey(key); let z = Seq::<u8>::empty(); let st1 = st.push(g);
    assert(n =~= e.1.0 + (e.1.1 + n3));
    assert(link(f, m, n3, g, mm[k], o.root, i));
    assert(top_ok(g, mm[k], e.1.1, o.root, i + 1));
    let (tg1, nd1) = step_push(st, tg, nd, o, pos, f, g, mm[k], e.1.0, e.1.1, n3, st1);
    assert(e.1.1 =~= z + (e.1.1 + z));
    step_push(st1, tg1, nd1, o, pos + e.1.0.len(), g, DS::ValueNeeded, mm[k], z, e.1.1, z, st2)
}
/// an array has got its next element
pub proof fn step_arr_value(st: Seq<DS>, tg: Seq<M>, nd: Seq<Seq<u8>>, o: On, pos: int, f: DS, st2: Seq<DS>) -> (r: (Seq<M>, Seq<Seq<u8>>))
    requires on(st, tg, nd, o, pos), st.len() >= 2, st.last() is FoundValue, st[st.len() - 2] is Array, st2 =~= st.drop_last().drop_last().push(f),
        ({ let left = st[st.len() - 2]->Array_1; let so = st[st.len() - 2]->Array_0@.push(st.last()->FoundValue_0);
            if left <= 1 { f is FoundValue && f->FoundValue_0 is Array && f->FoundValue_0->Array_0@ == so } else { f is Array && f->Array_0@ == so && f->Array_1 == left - 1 } })
    ensures on(st2, r.0, r.1, o, pos)
{
    let i = st.len() - 2; let u = st[i]; let a = u->Array_0@; let left = u->Array_1 as int; let m = tg[i]; let n = nd[i]; let v = st.last()->FoundValue_0; let so = a.push(v);
    assert(link(st[i], tg[i], nd[i], st[i + 1], tg[i + 1], o.root, i));
    let p = choose|p: Seq<Seq<u8>>| #[trigger] arr_parts(p, n, a, left, m, o.root, 1);
    assert(forall|j: int| 0 <= j < so.len() ==> model(#[trigger] so[j]) == m->Arr_0[j]) by { assert forall|j: int| 0 <= j < so.len() implies model(#[trigger] so[j]) == m->Arr_0[j] by { if j < a.len() { assert(so[j] == a[j]); } } }
    if left <= 1 {
        assert(p =~= seq![]); let w = f->FoundValue_0;
        assert(model(w)->Arr_0 =~= m->Arr_0); assert(model(w) == m);
    } else {
        assert(elems_ok(p, m->Arr_0, so.len() as int, o.root)) by { assert forall|j: int| 0 <= j < p.len() implies is_enc(#[trigger] p[j], m->Arr_0[so.len() + j], o.root) by { assert(is_enc(p[j], m->Arr_0[a.len() + 1 + j], o.root)); } }
        assert(arr_parts(p, n, so, left - 1, m, o.root, 0));
    }
    step_pop(st, tg, nd, o, pos, f, st2)
}
/// a map has got its next entry
pub proof fn step_map_value(st: Seq<DS>, tg: Seq<M>, nd: Seq<Seq<u8>>, o: On, pos: int, f: DS, st2: Seq<DS>) -> (r: (Seq<M>, Seq<Seq<u8>>))
    requires on(st, tg, nd, o, pos), st.len() >= 2, st.last() is FoundKeyValue, st[st.len() - 2] is Map, st2 =~= st.drop_last().drop_last().push(f),
        ({ let left = st[st.len() - 2]->Map_1; let so = st[st.len() - 2]->Map_0@.insert(st.last()->FoundKeyValue_0@, st.last()->FoundKeyValue_1);
            if left <= 1 { f is FoundValue && f->FoundValue_0 is Map && f->FoundValue_0->Map_0@ == so } else { f is Map && f->Map_0@ == so && f->Map_1 == left - 1 } })
    ensures on(st2, r.0, r.1, o, pos)
{
    let i = st.len() - 2; let u = st[i]; let h = u->Map_0@; let left = u->Map_1 as int; let m = tg[i]; let n = nd[i]; let k = st.last()->FoundKeyValue_0@; let v = st.last()->FoundKeyValue_1; let so = h.insert(k, v); let mm = m->Map_0;
    assert(link(st[i], tg[i], nd[i], st[i + 1], tg[i + 1], o.root, i)); let done = h.dom().insert(k);
    let e = choose|e: Seq<Entry>| #[trigger] map_parts(e, n, h, left, m, o.root, done, 1);
    assert forall|q: Seq<char>| #[trigger] so.contains_key(q) implies mm.contains_key(q) && model(so[q]) == mm[q] by { if q != k { assert(h.contains_key(q)); } }
    assert(so.dom() =~= done);
    if left <= 1 {
        assert(e =~= seq![]); assert(pairs(e) =~= seq![]); let w = f->FoundValue_0;
        assert forall|q: Seq<char>| mm.contains_key(q) implies #[trigger] so.contains_key(q) by { if !done.contains(q) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == q; } }
        assert(model(w)->Map_0 =~= mm); assert(model(w) == m);
    } else {
        assert(map_parts(e, n, so, left - 1, m, o.root, so.dom(), 0));
    }
    step_pop(st, tg, nd, o, pos, f, st2)
}
pub proof fn step_key_value(st: Seq<DS>, tg: Seq<M>, nd: Seq<Seq<u8>>, o: On, pos: int, st2: Seq<DS>) -> (r: (Seq<M>, Seq<Seq<u8>>))
    requires on(st, tg, nd, o, pos), st.len() >= 2, st.last() is FoundValue, st[st.len() - 2] is FoundKey, st2 =~= st.drop_last().drop_last().push(DS::FoundKeyValue(st[st.len() - 2]->FoundKey_0, st.last()->FoundValue_0))
    ensures on(st2, r.0, r.1, o, pos)
{
    let i = st.len() - 2; assert(link(st[i], tg[i], nd[i], st[i + 1], tg[i + 1], o.root, i));
    step_pop(st, tg, nd, o, pos, st2.last(), st2)
}
/// what a text under which JSON or a timezone waits is
pub proof fn lemma_text_value(st: Seq<DS>, tg: Seq<M>, nd: Seq<Seq<u8>>, o: On, pos: int)
    requires on(st, tg, nd, o, pos), st.len() >= 2, st.last() is FoundValue
    ensures ({ let u = st[st.len() - 2]; let v = st.last()->FoundValue_0; let m = tg[st.len() - 2];
        &&& u is JsonNeeded || u is TimezoneNeeded || u is FoundKey || u is Array
        &&& u is JsonNeeded ==> v is String && m is Json && json_text(m->Json_0, v->String_0@)
        &&& u is TimezoneNeeded ==> v is String && m is Tz && m->Tz_0 == v->String_0@ && is_tz(m->Tz_0) })
{ let i = st.len() - 2; assert(link(st[i], tg[i], nd[i], st[i + 1], tg[i + 1], o.root, i)); }
pub proof fn step_text_value(st: Seq<DS>, tg: Seq<M>, nd: Seq<Seq<u8>>, o: On, pos: int, f: DS, st2: Seq<DS>) -> (r: (Seq<M>, Seq<Seq<u8>>))
    requires on(st, tg, nd, o, pos), st.len() >= 2, st.last() is FoundValue, st[st.len() - 2] is JsonNeeded || st[st.len() - 2] is TimezoneNeeded, f is FoundValue, model(f->FoundValue_0) == tg[st.len() - 2], st2 =~= st.drop_last().drop_last().push(f)
    ensures on(st2, r.0, r.1, o, pos)
{ let i = st.len() - 2; assert(link(st[i], tg[i], nd[i], st[i + 1], tg[i + 1], o.root, i)); step_pop(st, tg, nd, o, pos, f, st2) }
/// the entry on top of an entry of a map lies on it
pub proof fn lemma_entry_on_map(st: Seq<DS>, tg: Seq<M>, nd: Seq<Seq<u8>>, o: On, pos: int)
    requires on(st, tg, nd, o, pos), st.last() is FoundKeyValue
    ensures st.len() >= 2, st[st.len() - 2] is Map
{ if st.len() >= 2 { let i = st.len() - 2; assert(link(st[i], tg[i], nd[i], st[i + 1], tg[i + 1], o.root, i)); } else { assert(st.last() == st[0]); } }
/// the frames after a value was parsed
pub open spec fn after_parse(st: Seq<DS>, pr: ParseResult, st2: Seq<DS>) -> bool {
    match pr {
        ParseResult::Value(v) => st2 =~= st.drop_last().push(DS::FoundValue(v)),
        ParseResult::NewArray(n) => st2.len() == st.len() && st2.drop_last() =~= st.drop_last()
            && if n == 0 { st2.last() is FoundValue && st2.last()->FoundValue_0 is Array && st2.last()->FoundValue_0->Array_0@.len() == 0 } else { st2.last() is Array && st2.last()->Array_0@.len() == 0 && st2.last()->Array_1 == n },
        ParseResult::NewMap(n) => st2.len() == st.len() && st2.drop_last() =~= st.drop_last()
            && if n == 0 { st2.last() is FoundValue && st2.last()->FoundValue_0 is Map && st2.last()->FoundValue_0->Map_0@ == Map::<Seq<char>, Value>::empty() } else { st2.last() is Map && st2.last()->Map_0@ == Map::<Seq<char>, Value>::empty() && st2.last()->Map_1 == n },
        ParseResult::Json => st2 =~= st.drop_last().push(DS::JsonNeeded).push(DS::ValueNeeded),
        ParseResult::Timezone => st2 =~= st.drop_last().push(DS::TimezoneNeeded).push(DS::ValueNeeded),
    }
}
pub proof fn step_need(st: Seq<DS>, tg: Seq<M>, nd: Seq<Seq<u8>>, o: On, pos: int, pr: ParseResult, n: int, st2: Seq<DS>) -> (r: (Seq<M>, Seq<Seq<u8>>))
    requires on(st, tg, nd, o, pos), st.last() is ValueNeeded, parsed(pr, tg.last(), n, nd.last()), after_parse(st, pr, st2)
    ensures on(st2, r.0, r.1, o, pos + n)
{
    let m = tg.last(); let b = nd.last(); let z = Seq::<u8>::empty(); let i = st.len() - 1; let f = st2.last(); let root = o.root;
    assert(is_enc(b, m, root));
    lemma_fits(m, 256 - i);
    match m {
        M::Arr(s) => {
            let p = choose|p: Seq<Seq<u8>>| p.len() == s.len() && b == head(11, s.len() as int) + #[trigger] flat(p) && forall|i: int| 0 <= i < s.len() ==> is_enc(#[trigger] p[i], s[i], root);
            let h = head(11, s.len() as int); let n2 = flat(p);
            assert(st2 =~= st.drop_last().push(f));
            if s.len() == 0 { assert(p =~= seq![]); assert(model(f->FoundValue_0)->Arr_0 =~= s); assert(model(f->FoundValue_0) == m); }
            else { assert(elems_ok(p, s, 0, root)) by { assert forall|j: int| 0 <= j < p.len() implies is_enc(#[trigger] p[j], s[0 + j], root) by { assert(is_enc(p[j], s[j], root)); } } assert(arr_parts(p, n2, f->Array_0@, f->Array_1 as int, m, root, 0)); }
            step_top(st, tg, nd, o, pos, f, h, n2, st2)
        }
        M::Map(mm) => {
            let e = choose|e: Seq<Entry>| covers(e, mm, Set::empty()) && b == head(8, e.len() as int) + #[trigger] flat(pairs(e)) && e.len() == mm.dom().len() && forall|i: int| 0 <= i < e.len() && mm.contains_key(e[i].0) ==> is_text(#[trigger] e[i].1.0, e[i].0, root) && is_enc(e[i].1.1, mm[e[i].0], root);
            let h = head(8, e.len() as int); let n2 = flat(pairs(e));
            assert(st2 =~= st.drop_last().push(f));
            assert(entries_ok(e, mm, root)) by { assert forall|i: int| 0 <= i < e.len() implies is_text(#[trigger] e[i].1.0, e[i].0, root) && is_enc(e[i].1.1, mm[e[i].0], root) by { assert(mm.contains_key(e[i].0)); } }
            if e.len() == 0 {
                assert(pairs(e) =~= seq![]);
                assert forall|k: Seq<char>| !(#[trigger] mm.contains_key(k)) by { if mm.contains_key(k) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k; } }
                assert(model(f->FoundValue_0)->Map_0 =~= mm); assert(model(f->FoundValue_0) == m);
            } else { assert(f->Map_0@.dom() =~= Set::empty()); assert(map_parts(e, n2, f->Map_0@, f->Map_1 as int, m, root, f->Map_0@.dom(), 0)); }
            step_top(st, tg, nd, o, pos, f, h, n2, st2)
        }
        M::Json(j) => {
            let (s, t) = choose|s: Seq<char>, t: Seq<u8>| #[trigger] json_text(j, s) && #[trigger] is_text(t, s, root) && b == seq![tagb(7, 0)] + t;
            assert(b =~= seq![tagb(7, 0)] + (t + z));
            assert(is_enc(t, M::Str(s), root));
            step_push(st, tg, nd, o, pos, DS::JsonNeeded, DS::ValueNeeded, M::Str(s), seq![tagb(7, 0)], t, z, st2)
        }
        M::Tz(s) => {
            let t = choose|t: Seq<u8>| #[trigger] is_text(t, s, root) && b == seq![tagb(12, 0)] + t;
            assert(b =~= seq![tagb(12, 0)] + (t + z));
            assert(is_enc(t, M::Str(s), root));
            step_push(st, tg, nd, o, pos, DS::TimezoneNeeded, DS::ValueNeeded, M::Str(s), seq![tagb(12, 0)], t, z, st2)
        }
        _ => { assert(b =~= b + z); step_top(st, tg, nd, o, pos, f, b, z, st2) }
    }
}
pub proof fn lemma_start(o: On, out: Seq<u8>, p0: int)
    requires 0 <= p0 <= o.d.len(), out.is_prefix_of(o.d.skip(p0)), is_enc(out, o.m0, o.root), fits(o.m0, 256), o.end == p0 + out.len()
    ensures on(seq![DS::ValueNeeded], seq![o.m0], seq![out], o, p0)
{
    let nd = seq![out]; assert(nd.drop_last() =~= seq![]); assert(cat(nd.drop_last()) =~= seq![]); assert(cat(nd) =~= out);
}
/// which frames there can be on top
pub proof fn lemma_frames(st: Seq<DS>, tg: Seq<M>, nd: Seq<Seq<u8>>, o: On, pos: int)
    requires on(st, tg, nd, o, pos)
    ensures 1 <= st.len() <= 257, !(st.last() is JsonNeeded) && !(st.last() is TimezoneNeeded), st.last() is FoundValue && st.len() == 1 ==> model(st.last()->FoundValue_0) == o.m0 && pos == o.end,
        scalar(o.m0) ==> st.len() == 1 && (st.last() is ValueNeeded || st.last() is FoundValue) && tg.last() == o.m0
{
    if st.len() > 1 { assert(link(st[0], tg[0], nd[0], st[1], tg[1], o.root, 0)); }
    if st.last() is FoundValue && st.len() == 1 { assert(nd.len() == 1); assert(nd.drop_last() =~= seq![]); assert(cat(nd.drop_last()) =~= seq![]); assert(nd.last() =~= seq![]); assert(cat(nd) =~= seq![]); }
}
pub proof fn lemma_need_facts(st: Seq<DS>, tg: Seq<M>, nd: Seq<Seq<u8>>, o: On, pos: int)
    requires on(st, tg, nd, o, pos), st.last() is ValueNeeded
    ensures nd.last().is_prefix_of(o.d.skip(pos)), is_enc(nd.last(), tg.last(), o.root)
{ lemma_prefix(nd.last(), cat(nd.drop_last()), o.d.skip(pos)); }
pub proof fn lemma_key_byte(b: u8, o: Seq<u8>, s: Seq<char>, root: Option<Node<char>>)
    requires text_body(b, o, s, root) ensures (b & 0b1111_0000) >> 4 == 1
{ lemma_tag(); }
fn min_of(a: usize, b: usize) -> (r: usize) { if a < b { a } else { b } }
pub open spec fn frame_wf(f: DS) -> bool {
    match f { DS::FoundValue(v) => val_wf(v), DS::FoundKeyValue(_, v) => val_wf(v), DS::Array(a, _) => forall|i: int| 0 <= i < a@.len() ==> val_wf(#[trigger] a@[i]), DS::Map(h, _) => forall|k: Seq<char>| #[trigger] h@.contains_key(k) ==> val_wf(h@[k]), _ => true }
}
pub open spec fn frames_wf(st: Seq<DS>) -> bool { forall|i: int| 0 <= i < st.len() ==> frame_wf(#[trigger] st[i]) }
/// how many turns the loop takes without reading
pub open spec fn turns(st: Seq<DS>) -> int { if st.len() == 0 || st.last() is ValueNeeded { 0 } else if st.last() is Array { 1 } else { 2 + 2 * st.len() + if st.last() is FoundValue { 1int } else { 0 } } }
//@item impl Value :: fn deser | const MAX_DESERIALISATION_STACK
impl Value {
//@fn impl Value | deser sig `fn deser(bytes: &mut Cursor<u8>, huffman: Option<&Huffman<char>>, g: Ghost<(Seq<u8>, M)>) -> (r: Result<Self, ValueSerError>)`
        requires old(bytes).wf(), asked(g@.0.is_prefix_of(old(bytes).rest()) && is_enc(g@.0, g@.1, root_of(huffman)) && fits(g@.1, 256), refused(huffman, old(bytes).rest()), g@.1),
        ensures final(bytes).wf(), final(bytes).data() == old(bytes).data(), old(bytes).pos <= final(bytes).pos,
            r is Ok ==> val_wf(r->Ok_0), refused(huffman, old(bytes).rest()) ==> r is Err,
            g@.0.is_prefix_of(old(bytes).rest()) && is_enc(g@.0, g@.1, root_of(huffman)) && fits(g@.1, 256) ==> r is Ok && model(r->Ok_0) == g@.1 && final(bytes).pos == old(bytes).pos + g@.0.len(),
//@lift enum DeserialisationState
//@lift enum ParseResult
//@lift fn parse_string
//@lift fn parse_primitive
//@lift const MAX_DESERIALISATION_STACK
//@rw `let to_be_added_to_stack = match parse_primitive(bytes, huffman)? {` => `let parsed_value = parse_primitive(bytes, huffman, Ghost(gp))?; let ghost pr = parsed_value; let to_be_added_to_stack = match parsed_value {` -- a ghost argument (what the bytes may stand for), and the result gets a name
//@rw `parse_string(key_byte, bytes, huffman)` => `parse_string(key_byte, bytes, huffman, Ghost(gk))` -- a ghost argument (what the bytes may stand for)
//@rw? `len.min(bytes.items_remaining())` => `min_of(len, bytes.items_remaining())` -- the capacity, which matters to no result
//@attr #[verifier::spinoff_prover] #[verifier::rlimit(150)] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@entry
        hide(on); hide(is_enc); hide(cat); hide(top_ok); hide(link); hide(chain); hide(fits); hide(text_body); hide(is_text); hide(covers); hide(flat); hide(parsed);
        let ghost d = bytes.data(); let ghost p0 = bytes.pos as int; let ghost out = g@.0; let ghost m = g@.1; let ghost root = root_of(huffman);
        let ghost good = out.is_prefix_of(bytes.rest()) && is_enc(out, m, root) && fits(m, 256);
        let ghost o = On { root, m0: m, d, end: p0 + out.len() };
        let ghost mut tg: Seq<M> = seq![m]; let ghost mut nd: Seq<Seq<u8>> = seq![out]; let ghost mut gst: Seq<DS> = seq![DS::ValueNeeded];
        proof { lemma_tag(); if good { lemma_start(o, out, p0); } }
//@after `let mut stack:`
        proof { assert(stack@ =~= gst); }
//@loop 0
            invariant bytes.wf(), bytes.data() == d, p0 <= bytes.pos, gst == stack@, frames_wf(gst), o == (On { root, m0: m, d, end: p0 + out.len() }), root == root_of(huffman),
                good == (out.is_prefix_of(d.skip(p0)) && is_enc(out, m, root) && fits(m, 256)),
                refused(huffman, d.skip(p0)) ==> gst.len() == 1 && gst[0] is ValueNeeded && bytes.pos == p0,
                good ==> gst.len() >= 1 && on(gst, tg, nd, o, bytes.pos as int) && at_head(gst),
            ensures !good, !refused(huffman, d.skip(p0)), bytes.wf(), bytes.data() == d, p0 <= bytes.pos,
            decreases d.len() - bytes.pos, turns(stack@),
//@into 0
            let ghost under = stack@;
            let ghost pos = bytes.pos as int;
            proof {
                assert(gst =~= under.push(state)); assert(frame_wf(state)) by { assert(gst[gst.len() - 1] == state); }
                assert forall|i: int| 0 <= i < under.len() implies frame_wf(#[trigger] under[i]) by { assert(gst[i] == under[i]); }
                if good { lemma_frames(gst, tg, nd, o, pos); }
            }
//@endof 0
            proof { gst = stack@; }
//@before `let parsed_value =`
                    let ghost gp = (nd.last(), tg.last());
                    proof { if good { lemma_need_facts(gst, tg, nd, o, pos); } }
//@after `stack.push(to_be_added_to_stack)`
                    proof {
                        if good {
                            assert(after_parse(gst, pr, stack@));
                            let t = step_need(gst, tg, nd, o, pos, pr, bytes.pos - pos, stack@); tg = t.0; nd = t.1;
                        }
                    }
//@before `return Ok(val)`
                            proof { if good { assert(gst.len() == 1); } }
//@after `stack.push(DeserialisationState::FoundKeyValue(key, val))`
                                    proof { if good { let t = step_key_value(gst, tg, nd, o, pos, stack@); tg = t.0; nd = t.1; } }
//@before `so_far.push(val)`
                                    let ghost a0 = so_far@;
//@after `stack.push(DeserialisationState::FoundValue(Value::Array(so_far)))`
                                        proof { if good { let t = step_arr_value(gst, tg, nd, o, pos, stack@.last(), stack@); tg = t.0; nd = t.1; } }
//@after `stack.push(DeserialisationState::Array(so_far, left - 1))`
                                        proof { if good { let t = step_arr_value(gst, tg, nd, o, pos, stack@.last(), stack@); tg = t.0; nd = t.1; } }
//@before `match next_stack_frame`
                            proof { if good { lemma_text_value(gst, tg, nd, o, pos); } assert(next_stack_frame == gst[gst.len() - 2]); assert(frame_wf(next_stack_frame)); }
//@after `stack.push(DeserialisationState::FoundValue(Value::JSON(value)))`
                                    proof { if good { let t = step_text_value(gst, tg, nd, o, pos, stack@.last(), stack@); tg = t.0; nd = t.1; } }
//@after `stack.push(DeserialisationState::FoundValue(Value::Timezone(tz)))`
                                    proof { if good { let t = step_text_value(gst, tg, nd, o, pos, stack@.last(), stack@); tg = t.0; nd = t.1; } }
//@after `stack.push(DeserialisationState::ValueNeeded)` #0
                    proof { if good { let t = step_arr_need(gst, tg, nd, o, pos, stack@); tg = t.0; nd = t.1; } }
//@before `let key_byte =`
                    let ghost e = next_parts(gst, tg, nd, o)[0];
                    let ghost gk = (e.1.0.skip(1), e.0);
                    proof { if good { lemma_next_entry(gst, tg, nd, o, pos); lemma_key_byte(e.1.0[0], gk.0, gk.1, root); } }
//@after `stack.push(DeserialisationState::ValueNeeded)` #1
                    proof { if good { let t = step_map_need(gst, tg, nd, o, pos, key, stack@); tg = t.0; nd = t.1; } }
//@before `if let Some(DeserialisationState::Map(mut so_far, left)) = stack.pop()`
                    proof { if good { lemma_entry_on_map(gst, tg, nd, o, pos); } }
//@after `stack.push(DeserialisationState::FoundValue(Value::Map(so_far)))`
                            proof { if good { let t = step_map_value(gst, tg, nd, o, pos, stack@.last(), stack@); tg = t.0; nd = t.1; } }
//@after `stack.push(DeserialisationState::Map(so_far, left - 1))`
                            proof { if good { let t = step_map_value(gst, tg, nd, o, pos, stack@.last(), stack@); tg = t.0; nd = t.1; } }
//@end
}
