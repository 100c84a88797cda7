//! needs core cursor integer bits errors maps huffman rle binary imaginary values equality store
use crate::core::*;
use crate::cursor::*;
use crate::integer::*;
use crate::integer::Integer;
use crate::bits::*;
use crate::errors::*;
use crate::binary::*;
use crate::imaginary::Imaginary;
use crate::values::*;
use crate::values::HashMap;
use crate::equality::*;
use crate::store::*;
use alloc::vec;
use alloc::vec::Vec;
use alloc::string::String;
use vstd::std_specs::iter::IteratorSpec;

// ---- what a serde_json value is, whatever memory it is in
/// not an infinity, not a NaN
pub open spec fn fin64(b: Seq<u8>) -> bool { !(b[7] % 128 == 127 && b[6] / 16 == 15) }
pub open spec fn fin32(b: Seq<u8>) -> bool { !(b[3] % 128 == 127 && b[2] / 128 == 1) }
pub ghost enum JN { Int(int), F(Seq<u8>) }
pub ghost enum J { Null, Bool(bool), Num(JN), Str(Seq<char>), Arr(Seq<J>), Obj(Map<Seq<char>, J>) }
pub open spec fn i64_or_u64(n: int) -> bool { i64::MIN <= n <= u64::MAX }
pub open spec fn jn_ok(n: JN) -> bool { match n { JN::Int(i) => i64_or_u64(i), JN::F(b) => fin64(b) } }
impl Number {
    pub uninterp spec fn view(&self) -> JN;
    #[verifier::external_body]
    pub fn from_f64(f: f64) -> (r: Option<Number>) ensures r is Some == fin64(f64_le(f)), r is Some ==> r->0@ == JN::F(f64_le(f)), { unimplemented!() }
    #[verifier::external_body]
    pub fn as_u64(&self) -> (r: Option<u64>) ensures r == (match self@ { JN::Int(i) => if 0 <= i { Some(i as u64) } else { None }, _ => None::<u64> }), jn_ok(self@), { unimplemented!() }
    #[verifier::external_body]
    pub fn as_i64(&self) -> (r: Option<i64>) ensures r == (match self@ { JN::Int(i) => if i <= i64::MAX { Some(i as i64) } else { None }, _ => None::<i64> }), jn_ok(self@), { unimplemented!() }
    #[verifier::external_body]
    pub fn as_f64(&self) -> (r: Option<f64>) ensures r is Some, jn_ok(self@), self@ is F ==> f64_le(r->0) == self@->F_0, { unimplemented!() }
}
//@each t=u8 | t=u16 | t=u64 | t=i64
impl vstd::std_specs::convert::FromSpecImpl<${t}> for Number {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(n: ${t}) -> Self { arbitrary() }
}
impl From<${t}> for Number {
    #[verifier::external_body]
    fn from(n: ${t}) -> (r: Self) ensures r@ == JN::Int(n as int), { unimplemented!() }
}
//@endeach
pub open spec fn jm(v: SJValue) -> J decreases v via jm_dec
{
    match v {
        SJValue::Null => J::Null, SJValue::Bool(b) => J::Bool(b), SJValue::Number(n) => J::Num(n@), SJValue::String(s) => J::Str(s@),
        SJValue::Array(a) => J::Arr(Seq::new(a.len() as nat, |i: int| if 0 <= i < a.len() { jm(a[i]) } else { J::Null })),
        SJValue::Object(m) => J::Obj(Map::new(m@.dom(), |k: Seq<char>| if m@.contains_key(k) { jm(m@[k]) } else { J::Null })),
    }
}
#[via_fn]
proof fn jm_dec(v: SJValue) { broadcast use axiom_map_decreases; }
pub broadcast proof fn lemma_jm(v: SJValue)
    ensures #![trigger jm(v)] match v {
        SJValue::Null => jm(v) == J::Null, SJValue::Bool(b) => jm(v) == J::Bool(b), SJValue::Number(n) => jm(v) == J::Num(n@), SJValue::String(s) => jm(v) == J::Str(s@),
        SJValue::Array(a) => jm(v) is Arr && jm(v)->Arr_0.len() == a@.len() && forall|i: int| 0 <= i < a@.len() ==> jm(#[trigger] a@[i]) == jm(v)->Arr_0[i],
        SJValue::Object(m) => jm(v) is Obj && jm(v)->Obj_0.dom() == m@.dom() && forall|k: Seq<char>| #[trigger] m@.contains_key(k) ==> jm(m@[k]) == jm(v)->Obj_0[k],
    }
{ match v { SJValue::Object(m) => { assert(jm(v)->Obj_0.dom() =~= m@.dom()); } _ => {} } }
impl SJValue {
    pub fn as_u64(&self) -> (r: Option<u64>)
        ensures match jm(*self) { J::Num(JN::Int(i)) => i64_or_u64(i) && r == (if 0 <= i { Some(i as u64) } else { None::<u64> }), _ => r is None },
    { proof { lemma_jm(*self); } match self { SJValue::Number(n) => n.as_u64(), _ => None } }
}

// ---- the shims of the iterators and conversions
pub trait IntoList { type Item; spec fn listed(&self, r: Seq<Self::Item>) -> bool; fn into_list(self) -> (r: Vec<Self::Item>) where Self: Sized ensures self.listed(r@); }
impl<T> IntoList for Vec<T> { type Item = T; open spec fn listed(&self, r: Seq<T>) -> bool { r == self@ } fn into_list(self) -> Vec<T> { self } }
impl<T, const N: usize> IntoList for [T; N] { type Item = T; open spec fn listed(&self, r: Seq<T>) -> bool { r == self@ } #[verifier::external_body] fn into_list(self) -> Vec<T> { unimplemented!() } }
impl<V> IntoList for HashMap<String, V> {
    type Item = (String, V);
    open spec fn listed(&self, r: Seq<(String, V)>) -> bool { is_list(r, self@) }
    #[verifier::external_body]
    fn into_list(self) -> Vec<(String, V)> { unimplemented!() }
}
/// the entries of the map in some order, each once
pub open spec fn is_list<V>(r: Seq<(String, V)>, m: Map<Seq<char>, V>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.contains_key((#[trigger] r[i]).0@) && m[r[i].0@] == r[i].1
    &&& forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j ==> (#[trigger] r[i]).0@ != (#[trigger] r[j]).0@
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0@ == k
}
pub trait RefList<T> { fn ref_list<'a>(&'a self) -> Vec<&'a T>; }
impl<T> RefList<T> for Vec<T> {
    #[verifier::external_body]
    fn ref_list<'a>(&'a self) -> (r: Vec<&'a T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i], { unimplemented!() }
}
pub trait Into_<T> { spec fn becomes(&self, r: T) -> bool; fn into_(self) -> (r: T) where Self: Sized ensures self.becomes(r); }
impl<'a> Into_<String> for &'a str { open spec fn becomes(&self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn into_(self) -> String { unimplemented!() } }
impl Into_<String> for char { open spec fn becomes(&self, r: String) -> bool { r@ == seq![*self] } #[verifier::external_body] fn into_(self) -> String { unimplemented!() } }
//@each t=u64 | t=i64
impl Into_<Integer> for ${t} { open spec fn becomes(&self, r: Integer) -> bool { r.canon() && r.value() == *self } fn into_(self) -> Integer { Integer::from(self) } }
//@endeach
#[verifier::external_body]
pub fn string_of(s: &str) -> (r: String) ensures r@ == s@, { unimplemented!() }
pub trait MapInto { spec fn maps(&self, r: Option<Integer>) -> bool; fn map_into(self) -> (r: Option<Integer>) where Self: Sized ensures self.maps(r); }
//@each t=u64 | t=i64
impl MapInto for Option<${t}> { open spec fn maps(&self, r: Option<Integer>) -> bool { match *self { Some(x) => r is Some && r->0.canon() && r->0.value() == x, None => r is None } } fn map_into(self) -> Option<Integer> { match self { Some(x) => Some(Integer::from(x)), None => None } } }
//@endeach
pub trait OptU64 { spec fn opt(&self) -> Option<u64>; fn to_ty_(self) -> (r: Option<ValueTy>) where Self: Sized ensures match self.opt() { Some(x) => (x <= 15) == (r is Some) && (r is Some ==> ty_byte(r->0) == x), None => r is None };
    fn and_u8(self) -> (r: Option<u8>) where Self: Sized ensures r == (match self.opt() { Some(x) => if x <= 255 { Some(x as u8) } else { None }, None => None::<u8> });
    fn and_u16(self) -> (r: Option<u16>) where Self: Sized ensures r == (match self.opt() { Some(x) => if x <= 65535 { Some(x as u16) } else { None }, None => None::<u16> });
}
impl OptU64 for Option<u64> {
    open spec fn opt(&self) -> Option<u64> { *self }
    fn to_ty_(self) -> Option<ValueTy> { match self.and_u8() { Some(b) => match ValueTy::try_from(b) { Ok(t) => Some(t), Err(_) => None }, None => None } }
    fn and_u8(self) -> Option<u8> { match self { Some(x) => if x <= 255 { Some(x as u8) } else { None }, None => None } }
    fn and_u16(self) -> Option<u16> { match self { Some(x) => if x <= 65535 { Some(x as u16) } else { None }, None => None } }
}
// `.and_then(|x| <[u8; 4]>::try_from(x).ok())`, and the eight words
pub trait ToArray { type A; spec fn fits_in(&self, r: Option<Self::A>) -> bool; fn to_array(self) -> (r: Option<Self::A>) where Self: Sized ensures self.fits_in(r); }
impl ToArray for Option<Vec<u8>> {
    type A = (u8, u8, u8, u8);
    open spec fn fits_in(&self, r: Option<(u8, u8, u8, u8)>) -> bool { match *self { Some(v) => (v@.len() == 4) == (r is Some) && (r is Some ==> { let t = r->0; v@ == four(t.0, t.1, t.2, t.3) }), None => r is None } }
    fn to_array(self) -> Option<(u8, u8, u8, u8)> { match self { Some(v) => if v.len() == 4 { proof { lemma_four(v@); } Some((v[0], v[1], v[2], v[3])) } else { None }, None => None } }
}
impl ToArray for Option<Vec<u16>> {
    type A = (u16, u16, u16, u16, u16, u16, u16, u16);
    open spec fn fits_in(&self, r: Option<(u16, u16, u16, u16, u16, u16, u16, u16)>) -> bool { match *self { Some(v) => (v@.len() == 8) == (r is Some) && (r is Some ==> { let t = r->0; v@ == eight(t.0, t.1, t.2, t.3, t.4, t.5, t.6, t.7) }), None => r is None } }
    fn to_array(self) -> Option<(u16, u16, u16, u16, u16, u16, u16, u16)> { match self { Some(v) => if v.len() == 8 { proof { lemma_eight_seq(v@); } Some((v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7])) } else { None }, None => None } }
}
pub trait OptPair<A> { spec fn here(&self) -> Option<A>; fn zip_<B>(self, o: Option<B>) -> (r: Option<(A, B)>) where Self: Sized ensures r == (match (self.here(), o) { (Some(a), Some(b)) => Some((a, b)), _ => None }); }
impl<A> OptPair<A> for Option<A> { open spec fn here(&self) -> Option<A> { *self } fn zip_<B>(self, o: Option<B>) -> Option<(A, B)> { match self { Some(a) => match o { Some(b) => Some((a, b)), None => None }, None => None } } }
pub trait ClonedJson { spec fn there(&self) -> Option<SJValue>; fn cloned_(self) -> (r: Option<SJValue>) where Self: Sized ensures match self.there() { Some(v) => r is Some && jm(r->0) == jm(v), None => r is None }; }
impl<'a> ClonedJson for Option<&'a SJValue> { open spec fn there(&self) -> Option<SJValue> { match *self { Some(v) => Some(*v), None => None } } #[verifier::external_body] fn cloned_(self) -> Option<SJValue> { unimplemented!() } }
impl<V> HashMap<String, V> {
    #[verifier::external_body]
    pub fn get_str(&self, k: &str) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) }, { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_str(&mut self, k: &str) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k@), r == (if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None }), { unimplemented!() }
}
#[verifier::external_body]
pub fn f64_of(f: f32) -> (r: f64) ensures fin64(f64_le(r)) == fin32(f32_le(f)), { f as f64 }
// chrono: a date and time which is shown (with a 'T' for the first space) is read again, outside of leap seconds
pub uninterp spec fn shown(d: (int, int, int), t: (int, int, int, int)) -> Seq<char>;
pub uninterp spec fn with_t(s: Seq<char>) -> Seq<char>;
pub trait WithT { fn with_t(&self) -> String; }
impl WithT for String { #[verifier::external_body] fn with_t(&self) -> (r: String) ensures r@ == with_t(self@), { unimplemented!() } }
impl NaiveDateTime {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == shown(self@.0, self@.1), { unimplemented!() }
    #[verifier::external_body]
    pub fn from_str(s: &String) -> (r: Result<NaiveDateTime, chrono_tz::ParseError>)
        ensures forall|d: (int, int, int), t: (int, int, int, int)| s@ == with_t(#[trigger] shown(d, t)) && t.3 < 1_000_000_000 ==> r is Ok && r->Ok_0@ == (d, t),
    { unimplemented!() }
}
impl Tz {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self@, is_tz(self@), { unimplemented!() }
}

// ---- what the properties are about (14: values and back, 22: JSON and back)
pub open spec fn asked(p: int) -> bool { true }
pub open spec fn mval(s: SignedState, x: Seq<u8>) -> int { if s == SignedState::SignedNegative { le(x) - pow256(16) } else { le(x) } }
/// it has a JSON form: no Integer beyond 64 bits, no float which is not finite
pub open spec fn stays(m: M) -> bool decreases m
{
    match m {
        M::Int(s, x) => i64_or_u64(mval(s, x)), M::F32(b) => fin32(b), M::F64(b) => fin64(b),
        M::Imag(IM::Cart(s, x, t, y)) => i64_or_u64(mval(s, x)) && i64_or_u64(mval(t, y)), M::Imag(IM::Polar(x, y)) => fin64(x) && fin64(y),
        M::Arr(a) => forall|i: int| 0 <= i < a.len() ==> stays(#[trigger] a[i]),
        M::Map(mm) => forall|k: Seq<char>| #[trigger] mm.contains_key(k) ==> stays(mm[k]),
        _ => true,
    }
}
pub open spec fn int_ok(s: SignedState, x: Seq<u8>) -> bool { x.len() == 16 && i64_or_u64(mval(s, x)) && (s == SignedState::SignedNegative) == (mval(s, x) < 0) }
pub open spec fn k_type() -> Seq<char> { "souris_type"@ }
/// its JSON form stands for it alone
pub open spec fn plain(m: M) -> bool decreases m
{
    match m {
        M::Char(_) => false, M::Json(_) => false, M::F32(_) => false, M::F64(b) => fin64(b), M::Int(s, x) => int_ok(s, x),
        M::Imag(IM::Cart(s, x, t, y)) => int_ok(s, x) && int_ok(t, y), M::Imag(IM::Polar(x, y)) => fin64(x) && fin64(y),
        M::Time(d, t) => t.3 < 1_000_000_000, M::Tz(s) => is_tz(s), M::V4(a) => a.len() == 4, M::V6(a) => a.len() == 8,
        M::Arr(a) => forall|i: int| 0 <= i < a.len() ==> plain(#[trigger] a[i]),
        M::Map(mm) => !mm.contains_key(k_type()) && forall|k: Seq<char>| #[trigger] mm.contains_key(k) ==> plain(mm[k]),
        _ => true,
    }
}
/// what JSON without souris types stands for
pub open spec fn bare(m: M) -> bool decreases m
{
    match m {
        M::Null => true, M::Bool(_) => true, M::Str(_) => true, M::Int(s, x) => int_ok(s, x), M::F64(b) => fin64(b),
        M::Arr(a) => forall|i: int| 0 <= i < a.len() ==> bare(#[trigger] a[i]),
        M::Map(mm) => !mm.contains_key(k_type()) && forall|k: Seq<char>| #[trigger] mm.contains_key(k) ==> bare(mm[k]),
        _ => false,
    }
}
/// JSON without souris types
pub open spec fn free(j: J) -> bool decreases j
{
    match j {
        J::Arr(a) => forall|i: int| 0 <= i < a.len() ==> free(#[trigger] a[i]),
        J::Obj(o) => !o.contains_key(k_type()) && forall|k: Seq<char>| #[trigger] o.contains_key(k) ==> free(o[k]),
        _ => true,
    }
}
/// it must be converted, and to JSON which stands for it
pub open spec fn want(types: bool, m: M) -> bool { types && asked(14) && plain(m) || asked(22) && bare(m) }
pub open spec fn num(n: int) -> J { J::Num(JN::Int(n)) }
pub open spec fn nums8(j: J, b: Seq<u8>) -> bool { j is Arr && j->Arr_0.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> #[trigger] j->Arr_0[i] == num(b[i] as int) }
pub open spec fn nums16(j: J, b: Seq<u16>) -> bool { j is Arr && j->Arr_0.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> #[trigger] j->Arr_0[i] == num(b[i] as int) }
/// the entry k of the object
pub open spec fn at(o: Map<Seq<char>, J>, k: Seq<char>, j: J) -> bool { o.contains_key(k) && o[k] == j }
pub open spec fn tagged(o: Map<Seq<char>, J>, n: int) -> bool { at(o, k_type(), num(n)) }
/// j is the JSON form (with types) of m
pub open spec fn jenc(j: J, m: M) -> bool decreases m
{
    match m {
        M::Null => j is Null, M::Bool(b) => j == J::Bool(b), M::Str(s) => j == J::Str(s), M::Int(s, x) => j == num(mval(s, x)), M::F64(b) => j == J::Num(JN::F(b)),
        M::Arr(a) => j is Arr && j->Arr_0.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> jenc(j->Arr_0[i], #[trigger] a[i]),
        M::Map(mm) => j is Obj && j->Obj_0.dom() == mm.dom() && forall|k: Seq<char>| #[trigger] mm.contains_key(k) ==> jenc(j->Obj_0[k], mm[k]),
        M::Imag(IM::Cart(s, x, t, y)) => j is Obj && tagged(j->Obj_0, 5) && at(j->Obj_0, "real"@, num(mval(s, x))) && at(j->Obj_0, "imaginary"@, num(mval(t, y))),
        M::Imag(IM::Polar(x, y)) => j is Obj && tagged(j->Obj_0, 5) && at(j->Obj_0, "modulus"@, J::Num(JN::F(x))) && at(j->Obj_0, "argument"@, J::Num(JN::F(y))) && !j->Obj_0.contains_key("real"@),
        M::Time(d, t) => j is Obj && tagged(j->Obj_0, 6) && at(j->Obj_0, "timestamp"@, J::Str(shown(d, t))),
        M::Tz(s) => j is Obj && tagged(j->Obj_0, 12) && at(j->Obj_0, "timezone"@, J::Str(s)),
        M::Bin(b) => j is Obj && tagged(j->Obj_0, 2) && j->Obj_0.contains_key("bytes"@) && nums8(j->Obj_0["bytes"@], b),
        M::V4(b) => j is Obj && tagged(j->Obj_0, 13) && j->Obj_0.contains_key("octets"@) && nums8(j->Obj_0["octets"@], b),
        M::V6(b) => j is Obj && tagged(j->Obj_0, 14) && j->Obj_0.contains_key("octets"@) && nums16(j->Obj_0["octets"@], b),
        _ => false,
    }
}
/// every Integer inside is one which was made of a number (not of bytes which are longer than they need to be)
pub open spec fn val_canon(v: Value) -> bool decreases v via val_canon_dec
{
    match v {
        Value::Integer(i) => i.canon(), Value::Imaginary(Imaginary::CartesianForm { re, imaginary }) => re.canon() && imaginary.canon(),
        Value::Array(a) => forall|i: int| 0 <= i < a.len() ==> val_canon(#[trigger] a[i]),
        Value::Map(m) => forall|k: Seq<char>| #[trigger] m@.contains_key(k) ==> val_canon(m@[k]),
        _ => true,
    }
}
#[via_fn]
proof fn val_canon_dec(v: Value) { broadcast use axiom_map_decreases; }
pub proof fn lemma_canon(v: Value)
    requires val_canon(v), val_wf(v)
    ensures match v { Value::Array(a) => forall|i: int| 0 <= i < a@.len() ==> val_canon(#[trigger] a@[i]), Value::Map(h) => forall|k: Seq<char>| #[trigger] h@.contains_key(k) ==> val_canon(h@[k]), _ => true }
{}
pub proof fn lemma_canon_int(a: Integer) requires a.canon(), i64_or_u64(a.value()) ensures int_ok(a.signed_state, a.content@), mval(a.signed_state, a.content@) == a.value() { a.lemma_value(); }
pub proof fn lemma_names()
    ensures "souris_type"@.len() == 11, "real"@.len() == 4, "imaginary"@.len() == 9, "modulus"@.len() == 7, "argument"@.len() == 8, "timestamp"@.len() == 9, "timezone"@.len() == 8, "bytes"@.len() == 5, "octets"@.len() == 6, "JSON"@.len() == 4
{ reveal_strlit("souris_type"); reveal_strlit("real"); reveal_strlit("imaginary"); reveal_strlit("modulus"); reveal_strlit("argument"); reveal_strlit("timestamp"); reveal_strlit("timezone"); reveal_strlit("bytes"); reveal_strlit("octets"); reveal_strlit("JSON"); }

pub broadcast proof fn lemma_int_eq(s: SignedState, x: Seq<u8>, a: Integer)
    requires a.wf(), int_ok(s, x), mval(s, x) == a.value()
    ensures #[trigger] eqi(s, x, a.signed_state, a.content@)
{ a.lemma_value(); lemma_le_inj(x, a.content@); }
pub broadcast proof fn lemma_take_all<A>(s: Seq<A>, n: int) requires n == s.len() ensures #[trigger] s.take(n) == s { assert(s.take(n) =~= s); }
/// lemma_model, of what is not an array or a map
pub broadcast proof fn lemma_leaf(v: Value)
    ensures #![trigger model(v)] match v {
        Value::String(s) => val_wf(v) && model(v) == M::Str(s@), Value::Binary(b) => val_wf(v) && model(v) == M::Bin(b.0@), Value::Boolean(b) => val_wf(v) && model(v) == M::Bool(b), Value::Null(_) => val_wf(v) && model(v) == M::Null, Value::DoubleFloat(f) => val_wf(v) && model(v) == M::F64(f64_le(f)),
        Value::Integer(i) => val_wf(v) == i.wf() && model(v) == M::Int(i.signed_state, i.content@), Value::Imaginary(i) => val_wf(v) == i.wf() && model(v) == M::Imag(im(i)), Value::Timestamp(t) => val_wf(v) && model(v) == M::Time(t@.0, t@.1),
        Value::Timezone(t) => val_wf(v) && model(v) == M::Tz(t@), Value::Ipv4Addr(a) => val_wf(v) && model(v) == M::V4(a@), Value::Ipv6Addr(a) => val_wf(v) && model(v) == M::V6(a@),
        _ => true,
    }
{}
//@collects
//@always `.into()` => `.into_()` -- the same method, of a trait with contracts
//@always `String::from(` => `string_of(` -- a text
//@always `.map(Into::into)` => `.map_into()`
//@src crates/sourisdb/src/types/integer.rs
impl Integer {
//@fn impl Integer | to_json
        requires self.canon(),
        ensures r is Some == i64_or_u64(self.value()), r is Some ==> jm(r->0) == num(self.value()),
//@entry
        proof { self.lemma_value(); }
//@end
//@fn impl Integer | from_json
        ensures match n@ { JN::Int(i) => i64_or_u64(i) && r is Some && r->0.canon() && r->0.value() == i, JN::F(_) => r is None },
//@end
}
//@src crates/sourisdb/src/types/binary.rs
impl BinaryData {
//@fn impl BinaryData | to_json
        ensures add_souris_types ==> jenc(jm(r), M::Bin(self.0@)),
//@attr #[verifier::loop_isolation(false)]
//@entry
        proof { lemma_names(); broadcast use lemma_jm; }
//@iter 0 it
//@loop 0
            invariant it.seq() == self.0@, got_@.len() == it.index(), forall|i: int| 0 <= i < got_@.len() ==> jm(#[trigger] got_@[i]) == num(self.0@[i] as int),
//@end
}
//@src crates/sourisdb/src/values.rs
impl Value {
//@fn impl Value | convert_to_json
        requires val_wf(self), val_canon(self),
        ensures asked(14) ==> r is Some == stays(model(self)), r is Some && add_souris_types && asked(14) && plain(model(self)) ==> jenc(jm(r->0), model(self)),
            asked(22) && bare(model(self)) ==> r is Some && jenc(jm(r->0), model(self)),
        decreases self,
//@attr #[verifier::loop_isolation(false)]
//@rw `real` => `re` -- a name Verus uses itself
//@rw? `|float| $x;` => `|float: f64| -> (o: Option<SJValue>) ensures o is Some == fin64(f64_le(float)), o is Some ==> jm(o->0) == J::Num(JN::F(f64_le(float))) { proof { broadcast use lemma_jm; } $x };` -- the closure is given a contract
//@rw? `.map(SJValue::Number)` => `.map(|x_: Number| -> (y_: SJValue) ensures y_ == SJValue::Number(x_) { SJValue::Number(x_) })` -- a constructor as a function
//@rw? `f64::from(f)` => `f64_of(f)` -- the conversion from f32
//@entry
        let ghost m0 = model(self);
        proof { lemma_names(); broadcast use lemma_jm; lemma_model(self); lemma_canon(self); broadcast use axiom_map_decreases;
            match self { Value::Integer(i) => { i.lemma_value(); } Value::Imaginary(Imaginary::CartesianForm { re, imaginary }) => { re.lemma_value(); imaginary.lemma_value(); } _ => {} } }
//@iter 0 it
//@loop 0
                    invariant it.seq() == arr@, got_@.len() <= it.index(), all_ ==> got_@.len() == it.index(),
                        asked(14) ==> all_ == (forall|i: int| 0 <= i < it.index() ==> stays(#[trigger] m0->Arr_0[i])), asked(22) && bare(m0) ==> all_,
                        all_ && want(add_souris_types, m0) ==> forall|i: int| 0 <= i < it.index() ==> jenc(jm(got_@[i]), #[trigger] m0->Arr_0[i]),
//@iter 1 it
//@loop 1
                    invariant is_list(it.seq(), m@),
                        asked(14) ==> all_ == (forall|i: int| 0 <= i < it.index() ==> stays(m0->Map_0[(#[trigger] it.seq()[i]).0@])), asked(22) && bare(m0) ==> all_,
                        all_ ==> (forall|k: Seq<char>| #[trigger] got_@.contains_key(k) ==> exists|i: int| 0 <= i < it.index() && (#[trigger] it.seq()[i]).0@ == k),
                        all_ ==> (forall|i: int| 0 <= i < it.index() ==> got_@.contains_key((#[trigger] it.seq()[i]).0@)),
                        all_ && want(add_souris_types, m0) ==> forall|i: int| 0 <= i < it.index() ==> jenc(jm(got_@[(#[trigger] it.seq()[i]).0@]), m0->Map_0[it.seq()[i].0@]),
//@iter 2 it
//@loop 2
            invariant it.seq() == a@, got_@.len() == it.index(), forall|i: int| 0 <= i < got_@.len() ==> jm(#[trigger] got_@[i]) == num(a@[i] as int),
//@iter 3 it
//@loop 3
            invariant it.seq() == a@, got_@.len() == it.index(), forall|i: int| 0 <= i < got_@.len() ==> jm(#[trigger] got_@[i]) == num(a@[i] as int),
//@tail
        proof {
            broadcast use lemma_jm;
            if out_ is Some && want(add_souris_types, m0) {
                let j = jm(out_->0);
                match m0 {
                    M::Arr(a) => { assert(j->Arr_0.len() == a.len()); assert(jenc(j, m0)); }
                    M::Map(mm) => { assert(j is Obj); assert(j->Obj_0.dom() =~= mm.dom()); assert forall|k: Seq<char>| #[trigger] mm.contains_key(k) implies jenc(j->Obj_0[k], mm[k]) by { } assert(jenc(j, m0)); }
                    M::Imag(_) => { assert(jenc(j, m0)); }
                    M::V4(a) => { assert(jenc(j, m0)); }
                    M::V6(a) => { assert(jenc(j, m0)); }
                    M::Time(..) => { assert(jenc(j, m0)); }
                    M::Tz(..) => { assert(jenc(j, m0)); }
                    M::Bin(..) => { assert(jenc(j, m0)); }
                    _ => { assert(jenc(j, m0)); }
                }
            }
            if asked(14) { assert(m0 is Arr ==> out_ is Some == stays(m0)); assert(m0 is Map ==> out_ is Some == stays(m0)); assert(out_ is Some == stays(m0)); }
        }
//@end
//@fn impl Value | convert_from_json sig `fn convert_from_json(val: SJValue, g: Ghost<M>) -> (r: Result<Self, ValueSerError>)`
        ensures r is Ok ==> val_wf(r->Ok_0), asked(14) && plain(g@) && jenc(jm(val), g@) ==> r is Ok && eqm(g@, model(r->Ok_0)),
            asked(22) && free(jm(val)) ==> r is Ok && val_canon(r->Ok_0) && bare(model(r->Ok_0)) && jenc(jm(val), model(r->Ok_0)),
        decreases val,
//@attr #[verifier::loop_isolation(false)]
//@rw `real` => `re` -- a name Verus uses itself
//@rw? `Value::convert_from_json($x)` => `Value::convert_from_json($x, Ghost(sub_))` -- what is read has to stand for (ghost)
//@rw? `unreachable!("just checked if was integer");` => `return unreached::<Result<Value, ValueSerError>>();` -- a panic which must never be reached
//@rw? `.map(u8::try_from).and_then(Result::ok).map(ValueTy::try_from).and_then(Result::ok)` => `.to_ty_()` -- the two conversions one after the other
//@rw? `.and_then(|x| u8::try_from(x).ok())` => `.and_u8()`
//@rw? `.and_then(|x| u16::try_from(x).ok())` => `.and_u16()`
//@rw? `.and_then(|x| <[u8; 4]>::try_from(x).ok())` => `.to_array()` -- Verus takes no patterns of arrays
//@rw? `.and_then(|x| <[u16; 8]>::try_from(x).ok())` => `.to_array()`
//@rw? `Some([a, b, c, d])` => `Some((a, b, c, d))`
//@rw? `Some([a, b, c, d, e, f, g, h])` => `Some((a, b, c, d, e, f, g, h))`
//@rw? `.get(` => `.get_str(`
//@rw? `.cloned()` => `.cloned_()`
//@rw? `.zip(` => `.zip_(`
//@rw? `&timestamp.replacen(' ', "T", 1)` => `&timestamp.with_t()`
//@entry
        let ghost m0 = g@; let ghost j0 = jm(val); let ghost good = asked(14) && plain(m0) && jenc(j0, m0); let ghost open = asked(22) && free(j0); let ghost mut sub_ = M::Null;
        proof { lemma_names(); broadcast use lemma_jm; broadcast use axiom_map_decreases; broadcast use lemma_int_eq; broadcast use lemma_leaf; broadcast use lemma_take_all; }
//@iter 0 it
//@loop 0
                    invariant it.seq() == a@, bad_ is None ==> got_@.len() == it.index(), forall|i: int| 0 <= i < got_@.len() ==> val_wf(#[trigger] got_@[i]), good ==> bad_ is None && m0 is Arr && forall|i: int| 0 <= i < it.index() ==> eqm(#[trigger] m0->Arr_0[i], model(got_@[i])),
                        open ==> bad_ is None && forall|i: int| 0 <= i < it.index() ==> val_canon(#[trigger] got_@[i]) && bare(model(got_@[i])) && jenc(j0->Arr_0[i], model(got_@[i])),
//@into 0
                    proof { let ix = it.index() as int; if open { assert(jm(a@[ix]) == j0->Arr_0[ix]); assert(free(j0->Arr_0[ix])); } sub_ = if good { m0->Arr_0[ix] } else { M::Null }; assert(decreases_to!(a => a[ix])); assert(decreases_to!(val => val->Array_0)); }
//@iter 1 it
//@loop 1
                    invariant it.seq().len() == bytes@.len(), forall|i: int| 0 <= i < bytes@.len() ==> *(#[trigger] it.seq()[i]) == bytes@[i], good ==> all_ && m0 is Bin && m0->Bin_0.len() == bytes@.len() && got_@ =~= m0->Bin_0.take(it.index() as int),
//@iter 2 it
//@loop 2
                    invariant it.seq().len() == bytes@.len(), forall|i: int| 0 <= i < bytes@.len() ==> *(#[trigger] it.seq()[i]) == bytes@[i], good ==> all_ && m0 is V4 && m0->V4_0.len() == bytes@.len() && got_@ =~= m0->V4_0.take(it.index() as int),
//@iter 3 it
//@loop 3
                    invariant it.seq().len() == bytes@.len(), forall|i: int| 0 <= i < bytes@.len() ==> *(#[trigger] it.seq()[i]) == bytes@[i], good ==> all_ && m0 is V6 && m0->V6_0.len() == bytes@.len() && got_@ =~= m0->V6_0.take(it.index() as int),
//@iter 4 it
//@loop 4
                    invariant is_list(it.seq(), obj@), forall|k: Seq<char>| #[trigger] got_@.contains_key(k) ==> val_wf(got_@[k]),
                        bad_ is None ==> (forall|k: Seq<char>| #[trigger] got_@.contains_key(k) ==> exists|i: int| 0 <= i < it.index() && (#[trigger] it.seq()[i]).0@ == k),
                        bad_ is None ==> (forall|i: int| 0 <= i < it.index() ==> got_@.contains_key((#[trigger] it.seq()[i]).0@)),
                        good ==> bad_ is None && m0 is Map && forall|i: int| 0 <= i < it.index() ==> eqm(m0->Map_0[(#[trigger] it.seq()[i]).0@], model(got_@[it.seq()[i].0@])),
                        open ==> bad_ is None && forall|i: int| 0 <= i < it.index() ==> ({ let k = (#[trigger] it.seq()[i]).0@; val_canon(got_@[k]) && bare(model(got_@[k])) && jenc(j0->Obj_0[k], model(got_@[k])) }),
//@into 4
                    proof { let ix = it.index() as int; assert(obj@.contains_key(it.seq()[ix].0@)); sub_ = if good { m0->Map_0[k@] } else { M::Null }; assert(decreases_to!(obj => obj@[k@])); assert(decreases_to!(val => val->Object_0)); }
//@tail
        proof {
            broadcast use lemma_jm; broadcast use lemma_int_eq;
            if out_ is Ok { lemma_model(out_->Ok_0); }
            if good {
                assert(out_ is Ok);
                let m1 = model(out_->Ok_0);
                match m0 {
                    M::Arr(a) => { assert(m1 is Arr); assert(eqm(m0, m1)); }
                    M::Map(mm) => { assert(m1 is Map); assert(m1->Map_0.dom() =~= mm.dom()); assert(eqm(m0, m1)); }
                    M::Int(s, x) => { assert(eqm(m0, m1)); }
                    _ => { assert(eqm(m0, m1)); }
                }
            }
            if open {
                assert(out_ is Ok);
                let m1 = model(out_->Ok_0);
                match j0 {
                    J::Arr(a) => { assert(m1 is Arr); assert forall|i: int| 0 <= i < m1->Arr_0.len() implies bare(#[trigger] m1->Arr_0[i]) by { assert(jenc(j0->Arr_0[i], m1->Arr_0[i])); } assert(bare(m1)); assert(jenc(j0, m1)); }
                    J::Obj(o) => { assert(m1 is Map); assert(m1->Map_0.dom() =~= o.dom()); assert(bare(m1)); assert(jenc(j0, m1)); }
                    J::Num(_) => { match out_->Ok_0 { Value::Integer(i) => { lemma_canon_int(i); } _ => {} } assert(bare(m1)); assert(jenc(j0, m1)); }
                    _ => { assert(bare(m1)); assert(jenc(j0, m1)); }
                }
            }
        }
//@end
}
impl HashMap<String, Value> {
    // `values().any(Value::is_map)`
    #[verifier::external_body]
    pub fn any_map(&self) -> (r: bool) ensures r == (exists|k: Seq<char>| #[trigger] self@.contains_key(k) && self@[k] is Map), { unimplemented!() }
}
pub open spec fn whole(s: Store) -> Value { Value::Map(s.0) }
/// what a store is written as: a value which was put below the key "JSON" because it is not a map is that value again
pub open spec fn as_json(m: M) -> M { if m is Map && m->Map_0.dom() =~= set!["JSON"@] && !(m->Map_0["JSON"@] is Map) { m->Map_0["JSON"@] } else { m } }
/// a key which is in a map of one key is its only one
pub proof fn lemma_only(m: Map<Seq<char>, Value>, k: Seq<char>) ensures m.dom().finite() && m.dom().len() == 1 && m.contains_key(k) ==> m.dom() =~= set![k], m.dom() =~= set![k] ==> m.dom().len() == 1
{
    if m.dom().finite() && m.dom().len() == 1 && m.contains_key(k) { let s = m.dom().remove(k); assert(s.len() == 0); assert(s =~= Set::empty()); assert forall|x: Seq<char>| m.dom().contains(x) implies x == k by { if x != k { assert(s.contains(x)); } } }
}
//@src crates/sourisdb/src/store.rs
impl Store {
//@fn impl Store | to_json sig `fn to_json(self, add_souris_types: bool) -> (r: Option<SJValue>)`
        requires val_wf(whole(self)), val_canon(whole(self)),
        ensures asked(14) ==> r is Some == stays(model(whole(self))), r is Some && add_souris_types && asked(14) && plain(model(whole(self))) ==> jenc(jm(r->0), as_json(model(whole(self)))),
            asked(22) && bare(model(whole(self))) ==> r is Some && jenc(jm(r->0), as_json(model(whole(self)))),
//@attr #[verifier::loop_isolation(false)]
//@rw `self` => `this` -- Verus takes no `mut self`: it becomes a variable
//@rw? `this.len()` => `this.0.len()` -- Store's Deref
//@rw? `.values().any(Value::is_map)` => `.any_map()`
//@rw? `.remove("JSON")` => `.remove_str("JSON")`
//@entry
        let mut this = self; let ghost m0 = model(whole(self)); let ghost h0 = self.0@;
        proof { lemma_names(); broadcast use lemma_jm; lemma_model(whole(self)); lemma_canon(whole(self)); lemma_only(h0, "JSON"@); if !h0.contains_key("JSON"@) { assert(h0.remove("JSON"@) =~= h0); } else { lemma_model(h0["JSON"@]); } }
//@iter 0 it
//@loop 0
                    invariant is_list(it.seq(), this.0@), this.0@ == h0, as_json(m0) == m0,
                        asked(14) ==> all_ == (forall|i: int| 0 <= i < it.index() ==> stays(m0->Map_0[(#[trigger] it.seq()[i]).0@])), asked(22) && bare(m0) ==> all_,
                        all_ ==> (forall|k: Seq<char>| #[trigger] got_@.contains_key(k) ==> exists|i: int| 0 <= i < it.index() && (#[trigger] it.seq()[i]).0@ == k),
                        all_ ==> (forall|i: int| 0 <= i < it.index() ==> got_@.contains_key((#[trigger] it.seq()[i]).0@)),
                        all_ && want(add_souris_types, m0) ==> forall|i: int| 0 <= i < it.index() ==> jenc(jm(got_@[(#[trigger] it.seq()[i]).0@]), m0->Map_0[it.seq()[i].0@]),
//@tail
        proof {
            broadcast use lemma_jm;
            if out_ is Some && want(add_souris_types, m0) {
                let j = jm(out_->0); let mm = m0->Map_0; assert(j is Obj); assert(j->Obj_0.dom() =~= mm.dom()); assert forall|k: Seq<char>| #[trigger] mm.contains_key(k) implies jenc(j->Obj_0[k], mm[k]) by { } assert(jenc(j, m0));
            }
        }
//@end
//@fn impl Store | from_json sig `fn from_json(val: SJValue, g: Ghost<M>) -> (r: Result<Self, StoreSerError>)`
        ensures asked(22) && free(jm(val)) ==> r is Ok && val_canon(whole(r->Ok_0)) && bare(model(whole(r->Ok_0))) && (if jm(val) is Obj { jenc(jm(val), model(whole(r->Ok_0))) } else { r->Ok_0.0@.dom() =~= set!["JSON"@] && jenc(jm(val), model(r->Ok_0.0@["JSON"@])) }),
            r is Ok ==> val_wf(whole(r->Ok_0)), asked(14) && plain(g@) && jenc(jm(val), g@) ==> r is Ok && (if g@ is Map { eqm(g@, model(whole(r->Ok_0))) } else { r->Ok_0.0@.dom() =~= set!["JSON"@] && eqm(g@, model(r->Ok_0.0@["JSON"@])) }),
//@rw? `Value::convert_from_json($x)` => `Value::convert_from_json($x, g)` -- what is read has to stand for (ghost)
//@entry
        proof { broadcast use lemma_jm; lemma_names(); }
        let ghost j0 = jm(val);
//@tail
        proof { if out_ is Ok { let st = out_->Ok_0; lemma_model(whole(st)); if st.0@.contains_key("JSON"@) { lemma_model(st.0@["JSON"@]); } assert(k_type().len() == 11);
            if asked(22) && free(j0) { assert(val_canon(whole(st))); let w = model(whole(st)); if !(j0 is Obj) { assert(w->Map_0.dom() =~= set!["JSON"@]); } assert(bare(w)); } } }
//@end
}

// ---- there and back: what the property says
pub fn there_and_back(v: Value) -> (r: Option<Result<Value, ValueSerError>>)
    requires val_wf(v), val_canon(v),
    ensures asked(14) ==> r is Some == stays(model(v)), asked(14) && plain(model(v)) ==> r is Some && r->0 is Ok && eqm(model(v), model(r->0->Ok_0)),
{
    let ghost m = model(v);
    proof { if plain(m) { lemma_plain_stays(m); } }
    match v.convert_to_json(true) { Some(j) => Some(Value::convert_from_json(j, Ghost(m))), None => None }
}
pub fn store_there_and_back(s: Store) -> (r: Option<Result<Store, StoreSerError>>)
    requires val_wf(whole(s)), val_canon(whole(s)),
    ensures asked(14) ==> r is Some == stays(model(whole(s))), asked(14) && plain(model(whole(s))) ==> r is Some && r->0 is Ok && eqm(model(whole(s)), model(whole(r->0->Ok_0))),
{
    let ghost m = model(whole(s));
    proof { if plain(m) { lemma_plain_stays(m); } lemma_model(whole(s)); }
    match s.to_json(true) {
        Some(j) => {
            let b = Store::from_json(j, Ghost(as_json(m)));
            proof { if asked(14) && plain(m) && as_json(m) != m { let k = "JSON"@; assert(m->Map_0.contains_key(k)); lemma_model(whole(b->Ok_0)); let w = model(whole(b->Ok_0)); assert(w->Map_0.dom() =~= m->Map_0.dom()); assert(eqm(m, w)); } }
            Some(b)
        }
        None => None,
    }
}
/// JSON without souris types, as a value and as JSON again
pub fn json_and_back(j: SJValue, types: bool) -> (r: Option<SJValue>)
    requires asked(22), free(jm(j)),
    ensures r is Some, jm(r->0) == jm(j),
{
    let ghost j0 = jm(j);
    match Value::convert_from_json(j, Ghost(M::Null)) {
        Ok(v) => { let ghost m = model(v); let r = v.convert_to_json(types); proof { lemma_one(j0, jm(r->0), m); } r }
        Err(_) => None,
    }
}
/// the same of a store, but for an object whose only key is "JSON" (that is what a store which is not an object is kept as)
pub fn json_and_store(j: SJValue, types: bool) -> (r: Option<SJValue>)
    requires asked(22), free(jm(j)), !(jm(j) is Obj && jm(j)->Obj_0.dom() =~= set!["JSON"@] && !(jm(j)->Obj_0["JSON"@] is Obj)),
    ensures r is Some, jm(r->0) == jm(j),
{
    let ghost j0 = jm(j);
    match Store::from_json(j, Ghost(M::Null)) {
        Ok(st) => {
            let ghost m = as_json(model(whole(st)));
            proof { lemma_model(whole(st)); if st.0@.contains_key("JSON"@) { lemma_model(st.0@["JSON"@]); assert(bare(model(whole(st))->Map_0["JSON"@])); } let w = model(whole(st)); if j0 is Obj && w->Map_0.contains_key("JSON"@) { assert(jenc(j0->Obj_0["JSON"@], w->Map_0["JSON"@])); } if !(j0 is Obj) { assert(w->Map_0.dom() =~= set!["JSON"@]); assert(st.0@.contains_key("JSON"@)); assert(jenc(j0, w->Map_0["JSON"@])); assert(!(w->Map_0["JSON"@] is Map)); assert(m == w->Map_0["JSON"@]); } assert(jenc(j0, m)); assert(bare(m)); }
            let r = st.to_json(types);
            proof { lemma_one(j0, jm(r->0), m); }
            r
        }
        Err(_) => None,
    }
}
/// a bare value is only one JSON
pub proof fn lemma_one(a: J, b: J, m: M) requires bare(m), jenc(a, m), jenc(b, m) ensures a == b decreases m
{
    match m {
        M::Arr(x) => { assert forall|i: int| 0 <= i < x.len() implies a->Arr_0[i] == b->Arr_0[i] by { assert(bare(x[i]) && jenc(a->Arr_0[i], x[i]) && jenc(b->Arr_0[i], x[i])); lemma_one(a->Arr_0[i], b->Arr_0[i], x[i]); } assert(a->Arr_0 =~= b->Arr_0); }
        M::Map(x) => { assert forall|k: Seq<char>| x.contains_key(k) implies a->Obj_0[k] == b->Obj_0[k] by { assert(bare(x[k]) && jenc(a->Obj_0[k], x[k]) && jenc(b->Obj_0[k], x[k])); lemma_one(a->Obj_0[k], b->Obj_0[k], x[k]); } assert(a->Obj_0 =~= b->Obj_0); }
        _ => {}
    }
}
pub proof fn lemma_plain_stays(m: M) requires plain(m) ensures stays(m) decreases m
{
    match m {
        M::Arr(a) => { assert forall|i: int| 0 <= i < a.len() implies stays(#[trigger] a[i]) by { lemma_plain_stays(a[i]); } }
        M::Map(mm) => { assert forall|k: Seq<char>| #[trigger] mm.contains_key(k) implies stays(mm[k]) by { lemma_plain_stays(mm[k]); } }
        _ => {}
    }
}
