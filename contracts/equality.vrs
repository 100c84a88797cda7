//! needs core cursor integer bits errors maps huffman rle binary imaginary values
use crate::core::*;
use crate::cursor::*;
use crate::integer::*;
use crate::integer::Integer;
use crate::bits::*;
use crate::errors::*;
use crate::huffman::*;
use crate::binary::*;
use crate::imaginary::*;
use crate::imaginary::magic;
use crate::values::*;
use crate::values::HashMap;
use alloc::vec;
use alloc::vec::Vec;
use alloc::string::String;
use core::num::FpCategory;

// ---- floats, by their bytes (the facts assumed here are checked for every float by the Kani harnesses floats::*)
pub open spec fn zeros(b: Seq<u8>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] b[i] == 0 }
pub open spec fn nan64(b: Seq<u8>) -> bool { b[7] % 128 == 127 && b[6] / 16 == 15 && !(b[6] % 16 == 0 && zeros(b, 6)) }
pub open spec fn zero64(b: Seq<u8>) -> bool { b[7] % 128 == 0 && zeros(b, 7) }
pub open spec fn class64(b: Seq<u8>) -> FpCategory {
    if b[7] % 128 == 127 && b[6] / 16 == 15 { if b[6] % 16 == 0 && zeros(b, 6) { FpCategory::Infinite } else { FpCategory::Nan } }
    else if b[7] % 128 == 0 && b[6] / 16 == 0 { if b[6] % 16 == 0 && zeros(b, 6) { FpCategory::Zero } else { FpCategory::Subnormal } } else { FpCategory::Normal }
}
pub open spec fn nan32(b: Seq<u8>) -> bool { b[3] % 128 == 127 && b[2] / 128 == 1 && !(b[2] % 128 == 0 && zeros(b, 2)) }
pub open spec fn zero32(b: Seq<u8>) -> bool { b[3] % 128 == 0 && zeros(b, 3) }
pub open spec fn class32(b: Seq<u8>) -> FpCategory {
    if b[3] % 128 == 127 && b[2] / 128 == 1 { if b[2] % 128 == 0 && zeros(b, 2) { FpCategory::Infinite } else { FpCategory::Nan } }
    else if b[3] % 128 == 0 && b[2] / 128 == 0 { if b[2] % 128 == 0 && zeros(b, 2) { FpCategory::Zero } else { FpCategory::Subnormal } } else { FpCategory::Normal }
}
pub open spec fn feq64(a: Seq<u8>, b: Seq<u8>) -> bool { !nan64(a) && !nan64(b) && (a == b || zero64(a) && zero64(b)) }
pub open spec fn feq32(a: Seq<u8>, b: Seq<u8>) -> bool { !nan32(a) && !nan32(b) && (a == b || zero32(a) && zero32(b)) }
pub open spec fn norm64(b: Seq<u8>) -> Seq<u8> { if zero64(b) { Seq::new(8, |i: int| 0u8) } else { b } }
pub open spec fn norm32(b: Seq<u8>) -> Seq<u8> { if zero32(b) { Seq::new(4, |i: int| 0u8) } else { b } }
#[verifier::external_type_specification]
pub struct ExFpCategory(FpCategory);
pub assume_specification[ f64::classify ](x: f64) -> (r: FpCategory) ensures r == class64(f64_le(x));
pub assume_specification[ f32::classify ](x: f32) -> (r: FpCategory) ensures r == class32(f32_le(x));
pub trait PlusZero { type F; spec fn sum_ok(&self, r: &Self::F) -> bool; fn plus_zero(&self) -> (r: Self::F) ensures self.sum_ok(&r); }
impl PlusZero for f64 {
    type F = f64;
    open spec fn sum_ok(&self, r: &f64) -> bool { !nan64(f64_le(*self)) ==> f64_le(*r) == norm64(f64_le(*self)) }
    #[verifier::external_body]
    fn plus_zero(&self) -> f64 { *self + 0.0 }
}
impl PlusZero for f32 {
    type F = f32;
    open spec fn sum_ok(&self, r: &f32) -> bool { !nan32(f32_le(*self)) ==> f32_le(*r) == norm32(f32_le(*self)) }
    #[verifier::external_body]
    fn plus_zero(&self) -> f32 { *self + 0.0 }
}

// ---- equality: what `==` has to answer
/// serde_json's own equality, of which it is assumed that it is an equivalence which its hash respects
pub uninterp spec fn json_eq(a: SJ, b: SJ) -> bool;
pub uninterp spec fn json_fed(a: SJ) -> int;
pub axiom fn axiom_json(a: SJ, b: SJ, c: SJ) ensures json_eq(a, a), json_eq(a, b) ==> json_eq(b, a), json_eq(a, b) && json_eq(b, c) ==> json_eq(a, c), json_eq(a, b) ==> json_fed(a) == json_fed(b);
pub open spec fn eqi(a: SignedState, x: Seq<u8>, b: SignedState, y: Seq<u8>) -> bool { x == y && (a == SignedState::SignedNegative) == (b == SignedState::SignedNegative) }
pub open spec fn eqim(a: IM, b: IM) -> bool {
    match a {
        IM::Cart(s, x, t, y) => match b { IM::Cart(s2, x2, t2, y2) => eqi(s, x, s2, x2) && eqi(t, y, t2, y2), _ => false },
        IM::Polar(x, y) => match b { IM::Polar(x2, y2) => feq64(x, x2) && feq64(y, y2), _ => false },
    }
}
/// the same kind of value with equal contents, whatever order the entries of a map are in
pub open spec fn eqm(a: M, b: M) -> bool decreases a
{
    match a {
        M::Char(x) => b == M::Char(x), M::Str(x) => b == M::Str(x), M::Bin(x) => b == M::Bin(x), M::Bool(x) => b == M::Bool(x), M::Null => b is Null, M::Tz(x) => b == M::Tz(x), M::V4(x) => b == M::V4(x), M::V6(x) => b == M::V6(x),
        M::Time(x, y) => b == M::Time(x, y),
        M::Int(s, x) => match b { M::Int(t, y) => eqi(s, x, t, y), _ => false },
        M::Imag(x) => match b { M::Imag(y) => eqim(x, y), _ => false },
        M::Json(x) => match b { M::Json(y) => json_eq(x, y), _ => false },
        M::F32(x) => match b { M::F32(y) => feq32(x, y), _ => false },
        M::F64(x) => match b { M::F64(y) => feq64(x, y), _ => false },
        M::Arr(x) => match b { M::Arr(y) => x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> eqm(#[trigger] x[i], y[i]), _ => false },
        M::Map(x) => match b { M::Map(y) => x.dom() == y.dom() && forall|k: Seq<char>| #[trigger] x.contains_key(k) ==> eqm(x[k], y[k]), _ => false },
    }
}
/// there is no NaN in it
pub open spec fn nn(m: M) -> bool decreases m
{
    match m {
        M::F32(x) => !nan32(x), M::F64(x) => !nan64(x), M::Imag(IM::Polar(x, y)) => !nan64(x) && !nan64(y),
        M::Arr(x) => forall|i: int| 0 <= i < x.len() ==> nn(#[trigger] x[i]),
        M::Map(x) => forall|k: Seq<char>| #[trigger] x.contains_key(k) ==> nn(x[k]),
        _ => true,
    }
}
pub proof fn lemma_nn_arr(x: Seq<M>, i: int) requires nn(M::Arr(x)), 0 <= i < x.len() ensures nn(x[i]) { let m = M::Arr(x); assert(m is Arr && m->Arr_0 == x); }
pub proof fn lemma_nn_map(x: Map<Seq<char>, M>, k: Seq<char>) requires nn(M::Map(x)), x.contains_key(k) ensures nn(x[k]) { let m = M::Map(x); assert(m is Map && m->Map_0 == x); }
pub proof fn equality_is_reflexive(a: M) requires nn(a) ensures eqm(a, a) decreases a
{
    match a {
        M::Arr(x) => { assert forall|i: int| 0 <= i < x.len() implies eqm(#[trigger] x[i], x[i]) by { equality_is_reflexive(x[i]); } }
        M::Map(x) => { assert forall|k: Seq<char>| #[trigger] x.contains_key(k) implies eqm(x[k], x[k]) by { equality_is_reflexive(x[k]); } }
        M::Json(x) => { axiom_json(x, x, x); }
        _ => {}
    }
}
pub proof fn equality_is_symmetric(a: M, b: M) requires eqm(a, b) ensures eqm(b, a) decreases a
{
    match a {
        M::Arr(x) => { let y = b->Arr_0; assert forall|i: int| 0 <= i < y.len() implies eqm(#[trigger] y[i], x[i]) by { assert(eqm(x[i], y[i])); equality_is_symmetric(x[i], y[i]); } }
        M::Map(x) => { let y = b->Map_0; assert forall|k: Seq<char>| #[trigger] y.contains_key(k) implies eqm(y[k], x[k]) by { assert(x.contains_key(k)); equality_is_symmetric(x[k], y[k]); } }
        M::Json(x) => { axiom_json(x, b->Json_0, x); }
        _ => {}
    }
}
pub proof fn equality_is_transitive(a: M, b: M, c: M) requires eqm(a, b), eqm(b, c) ensures eqm(a, c) decreases a
{
    match a {
        M::Arr(x) => { let y = b->Arr_0; let z = c->Arr_0; assert forall|i: int| 0 <= i < x.len() implies eqm(#[trigger] x[i], z[i]) by { assert(eqm(x[i], y[i])); assert(eqm(y[i], z[i])); equality_is_transitive(x[i], y[i], z[i]); } }
        M::Map(x) => { let y = b->Map_0; let z = c->Map_0; assert forall|k: Seq<char>| #[trigger] x.contains_key(k) implies eqm(x[k], z[k]) by { assert(y.contains_key(k)); equality_is_transitive(x[k], y[k], z[k]); } }
        M::Json(x) => { axiom_json(x, b->Json_0, c->Json_0); }
        _ => {}
    }
}
pub trait Eq_ { spec fn eqs(&self, o: &Self) -> bool; fn eq_(&self, o: &Self) -> (r: bool) ensures r == self.eqs(o); }
// std, chrono, chrono_tz, serde_json: their values are equal when what they stand for is
//@each t=char a={*self} b={*o} | t=bool a={*self} b={*o} | t=String a={self@} b={o@} | t=NaiveDateTime a={self@} b={o@} | t=Tz a={self@} b={o@} | t=Ipv4Addr a={self@} b={o@} | t=Ipv6Addr a={self@} b={o@} | t={Vec<u8>} a={self@} b={o@}
impl Eq_ for ${t} {
    open spec fn eqs(&self, o: &Self) -> bool { ${a} == ${b} }
    #[verifier::external_body]
    fn eq_(&self, o: &Self) -> bool { unimplemented!() }
}
//@endeach
impl Eq_ for f64 {
    open spec fn eqs(&self, o: &Self) -> bool { feq64(f64_le(*self), f64_le(*o)) }
    #[verifier::external_body]
    fn eq_(&self, o: &Self) -> bool { *self == *o }
}
impl Eq_ for f32 {
    open spec fn eqs(&self, o: &Self) -> bool { feq32(f32_le(*self), f32_le(*o)) }
    #[verifier::external_body]
    fn eq_(&self, o: &Self) -> bool { *self == *o }
}
impl Eq_ for SJValue {
    open spec fn eqs(&self, o: &Self) -> bool { json_eq(self@, o@) }
    #[verifier::external_body]
    fn eq_(&self, o: &Self) -> bool { unimplemented!() }
}
//@always `.eq(` => `.eq_(` -- the same method, of a trait with contracts
//@src crates/sourisdb/src/types/binary.rs
impl BinaryData {
//@fn impl PartialEq for BinaryData | eq as eq_
        ensures r == (self.0@ == other.0@),
//@end
}
//@src crates/sourisdb/src/types/imaginary.rs
impl Imaginary {
//@fn impl PartialEq for Imaginary | eq as eq_
        requires self.wf(), other.wf(),
        ensures r == eqim(im(*self), im(*other)),
//@rw `real` => `re` -- a name Verus uses itself
//@entry
        proof { match (self, other) { (Imaginary::CartesianForm { re, imaginary }, Imaginary::CartesianForm { re: r2, imaginary: i2 }) => { re.lemma_eq(r2); imaginary.lemma_eq(i2); } _ => {} } }
//@end
}
// What std's `==` of vectors and hashbrown's `==` of maps do.
pub fn eq_values(a: &Vec<Value>, b: &Vec<Value>) -> (r: bool)
    requires val_wf(Value::Array(*a)), val_wf(Value::Array(*b)),
    ensures r == eqm(model(Value::Array(*a)), model(Value::Array(*b))),
    decreases *a, 0int,
{
    proof { lemma_model(Value::Array(*a)); lemma_model(Value::Array(*b)); }
    let ghost x = model(Value::Array(*a))->Arr_0; let ghost y = model(Value::Array(*b))->Arr_0;
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len()
        invariant i <= a.len(), a.len() == b.len(), a.len() == x.len(), x.len() == y.len(), forall|j: int| 0 <= j < a.len() ==> model(#[trigger] a@[j]) == x[j] && val_wf(a@[j]), forall|j: int| 0 <= j < b.len() ==> model(#[trigger] b@[j]) == y[j] && val_wf(b@[j]),
            forall|j: int| 0 <= j < i ==> eqm(#[trigger] x[j], y[j]), model(Value::Array(*a)) == M::Arr(x), model(Value::Array(*b)) == M::Arr(y),
        decreases a.len() - i,
    {
        if !a[i].eq_(&b[i]) { assert(!eqm(x[i as int], y[i as int])); return false; }
        i += 1;
    }
    true
}
impl<K: View, V> HashMap<K, V> {
    // the entries in some order, each once
    #[verifier::external_body]
    pub fn entries(&self) -> (r: Vec<(&K, &V)>)
        ensures self@.dom().finite(), r@.len() == self@.dom().len(), forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).0@) && *r@[i].1 == self@[r@[i].0@],
            forall|i: int, j: int| 0 <= i < r@.len() && 0 <= j < r@.len() && i != j ==> (#[trigger] r@[i]).0@ != (#[trigger] r@[j]).0@,
            forall|k: K::V| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == k,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_ref(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) }, { unimplemented!() }
}
pub fn eq_maps(a: &HashMap<String, Value>, b: &HashMap<String, Value>) -> (r: bool)
    requires val_wf(Value::Map(*a)), val_wf(Value::Map(*b)),
    ensures r == eqm(model(Value::Map(*a)), model(Value::Map(*b))),
    decreases *a, 0int,
{
    proof { lemma_model(Value::Map(*a)); lemma_model(Value::Map(*b)); broadcast use axiom_map_decreases; }
    let ghost x = model(Value::Map(*a))->Map_0; let ghost y = model(Value::Map(*b))->Map_0;
    let es = a.entries();
    let eb = b.entries();
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < es.len()
        invariant i <= es.len(), x.dom() == a@.dom(), y.dom() == b@.dom(), model(Value::Map(*a)) == M::Map(x), model(Value::Map(*b)) == M::Map(y),
            forall|k: Seq<char>| #[trigger] a@.contains_key(k) ==> model(a@[k]) == x[k] && val_wf(a@[k]), forall|k: Seq<char>| #[trigger] b@.contains_key(k) ==> model(b@[k]) == y[k] && val_wf(b@[k]),
            forall|j: int| 0 <= j < es.len() ==> a@.contains_key((#[trigger] es@[j]).0@) && *es@[j].1 == a@[es@[j].0@],
            forall|j: int| 0 <= j < i ==> y.contains_key((#[trigger] es@[j]).0@) && eqm(x[es@[j].0@], y[es@[j].0@]),
        decreases es.len() - i,
    {
        proof { broadcast use axiom_map_decreases; assert(decreases_to!(*a => a@[es@[i as int].0@])); }
        match b.get_ref(es[i].0) {
            Some(v) => { if !es[i].1.eq_(v) { return false; } }
            None => { assert(x.contains_key(es@[i as int].0@)); return false; }
        }
        i += 1;
    }
    proof {
        assert forall|k: Seq<char>| #[trigger] x.contains_key(k) implies y.contains_key(k) && eqm(x[k], y[k]) by { assert(a@.contains_key(k)); let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es@[j]).0@ == k; assert(y.contains_key(es@[j].0@)); }
        vstd::set_lib::lemma_subset_equality(x.dom(), y.dom());
    }
    true
}
//@src crates/sourisdb/src/values.rs
impl Value {
//@fn impl PartialEq for Value | eq as eq_
        requires val_wf(*self), val_wf(*other),
        ensures r == eqm(model(*self), model(*other)),
        decreases *self,
//@rw? `a.eq_(a2)` => `eq_values(a, a2)` -- std's equality of vectors
//@rw? `m.eq_(m2)` => `eq_maps(m, m2)` -- hashbrown's equality of maps
//@rw? `unreachable!("already checked ty equality")` => `unreached::<bool>()` -- a panic which must never be reached
//@entry
        proof { lemma_model(*self); lemma_model(*other); match (self, other) { (Value::Integer(i), Value::Integer(i2)) => { i.lemma_eq(i2); } _ => {} } }
//@end
}

// ---- hashing: what is fed to the hasher
pub ghost enum Fed { N(int), Kind(int), Bytes(Seq<u8>), Words(Seq<u16>), Str(Seq<char>), Ch(char), Bool(bool), Time((int, int, int), (int, int, int, int)), Json(int) }
pub trait Hasher { spec fn fed(&self) -> Seq<Fed>; }
pub trait Feeds { spec fn feed(&self) -> Seq<Fed>; fn hash<H: Hasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed() + self.feed(); }
//@each t=char f={Fed::Ch(*self)} | t=bool f={Fed::Bool(*self)} | t=String f={Fed::Str(self@)} | t=NaiveDateTime f={Fed::Time(self@.0, self@.1)} | t=Tz f={Fed::Str(self@)} | t=Ipv4Addr f={Fed::Bytes(self@)} | t=Ipv6Addr f={Fed::Words(self@)} | t={Vec<u8>} f={Fed::Bytes(self@)} | t={[u8; 16]} f={Fed::Bytes(self@)} | t={[u8; 8]} f={Fed::Bytes(self@)} | t={[u8; 4]} f={Fed::Bytes(self@)} | t=i32 f={Fed::N(*self as int)} | t=SJValue f={Fed::Json(json_fed(self@))} | t=Kind f={Fed::Kind(self.0 as int)} | t=u8 f={Fed::N(*self as int)}
impl Feeds for ${t} {
    open spec fn feed(&self) -> Seq<Fed> { seq![${f}] }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
//@endeach
/// `core::mem::discriminant` of an enum
pub struct Kind(pub u8);
pub trait KindOf { spec fn kind_spec(&self) -> int; fn kind_of(&self) -> (r: Kind) ensures r.0 == self.kind_spec(); }
impl KindOf for SignedState { open spec fn kind_spec(&self) -> int { ss_byte(*self) as int } #[verifier::external_body] fn kind_of(&self) -> Kind { unimplemented!() } }
impl KindOf for Imaginary { open spec fn kind_spec(&self) -> int { if self is CartesianForm { 0 } else { 1 } } #[verifier::external_body] fn kind_of(&self) -> Kind { unimplemented!() } }
impl KindOf for Value { open spec fn kind_spec(&self) -> int { kindm(model(*self)) } #[verifier::external_body] fn kind_of(&self) -> Kind { unimplemented!() } }
pub open spec fn kindm(m: M) -> int {
    match m { M::Char(_) => 0, M::Str(_) => 1, M::Bin(_) => 2, M::Bool(_) => 3, M::Int(_, _) => 4, M::Imag(_) => 5, M::Time(_, _) => 6, M::Json(_) => 7, M::Map(_) => 8, M::Null => 9, M::F64(_) => 10, M::Arr(_) => 11, M::Tz(_) => 12, M::V4(_) => 13, M::V6(_) => 14, M::F32(_) => 15 }
}
/// the one order of a set of names (names are totally ordered)
pub uninterp spec fn in_order(s: Set<Seq<char>>) -> Seq<Seq<char>>;
pub trait SortEntries { spec fn keys(&self) -> Seq<Seq<char>>; fn sort_by_name(&mut self); fn sort_somehow(&mut self); }
impl<'a> SortEntries for Vec<(&'a String, &'a Value)> {
    open spec fn keys(&self) -> Seq<Seq<char>> { Seq::new(self@.len(), |i: int| self@[i].0@) }
    #[verifier::external_body]
    fn sort_somehow(&mut self) ensures final(self)@.len() == old(self)@.len(), forall|i: int| 0 <= i < final(self)@.len() ==> old(self)@.contains(#[trigger] final(self)@[i]), { unimplemented!() }
    // std's sort by the name: the same entries, and their names in order (no name is there twice)
    #[verifier::external_body]
    fn sort_by_name(&mut self)
        ensures final(self)@.len() == old(self)@.len(), forall|i: int| 0 <= i < final(self)@.len() ==> old(self)@.contains(#[trigger] final(self)@[i]),
            old(self).keys().no_duplicates() ==> final(self).keys() == in_order(old(self).keys().to_set()),
    { unimplemented!() }
}
pub open spec fn cat(s: Seq<Seq<Fed>>) -> Seq<Fed> decreases s.len() { if s.len() == 0 { seq![] } else { cat(s.drop_last()) + s.last() } }
pub proof fn lemma_cat(s: Seq<Seq<Fed>>, i: int) requires 0 <= i < s.len() ensures cat(s.take(i + 1)) == cat(s.take(i)) + s[i] { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub open spec fn fclass(c: FpCategory) -> int { match c { FpCategory::Nan => 0, FpCategory::Infinite => 1, FpCategory::Zero => 2, FpCategory::Subnormal => 3, FpCategory::Normal => 4 } }
pub open spec fn ffeed64(b: Seq<u8>) -> Seq<Fed> { seq![Fed::N(fclass(class64(b))), Fed::Bytes(norm64(b))] }
pub open spec fn ffeed32(b: Seq<u8>) -> Seq<Fed> { seq![Fed::N(fclass(class32(b))), Fed::Bytes(norm32(b))] }
pub open spec fn ifeed(s: SignedState, c: Seq<u8>) -> Seq<Fed> { seq![Fed::Kind(if s == SignedState::SignedNegative { 2 } else { 1 }), Fed::Bytes(c)] }
pub open spec fn imfeed(i: IM) -> Seq<Fed> { match i { IM::Cart(s, x, t, y) => seq![Fed::Kind(0)] + (ifeed(s, x) + ifeed(t, y)), IM::Polar(x, y) => seq![Fed::Kind(1)] + (ffeed64(x) + ffeed64(y)) } }
pub open spec fn mfeeds(ks: Seq<Seq<char>>, x: Map<Seq<char>, M>) -> Seq<Seq<Fed>> decreases x, 0int { Seq::new(ks.len(), |i: int| if 0 <= i < ks.len() && x.contains_key(ks[i]) { seq![Fed::Str(ks[i])] + hfeed(x[ks[i]]) } else { seq![] }) }
pub open spec fn afeeds(s: Seq<M>) -> Seq<Seq<Fed>> decreases s, 0int { Seq::new(s.len(), |i: int| if 0 <= i < s.len() { hfeed(s[i]) } else { seq![] }) }
pub open spec fn hfeed(m: M) -> Seq<Fed> decreases m, 1int
{
    seq![Fed::Kind(kindm(m))] + match m {
        M::Char(x) => seq![Fed::Ch(x)], M::Str(x) => seq![Fed::Str(x)], M::Bin(x) => seq![Fed::Bytes(x)], M::Bool(x) => seq![Fed::Bool(x)], M::Int(s, x) => ifeed(s, x), M::Imag(x) => imfeed(x), M::Time(x, y) => seq![Fed::Time(x, y)],
        M::Json(x) => seq![Fed::Json(json_fed(x))], M::Null => seq![], M::F32(x) => ffeed32(x), M::F64(x) => ffeed64(x), M::Tz(x) => seq![Fed::Str(x)], M::V4(x) => seq![Fed::Bytes(x)], M::V6(x) => seq![Fed::Words(x)],
        M::Arr(s) => cat(afeeds(s)),
        M::Map(x) => cat(mfeeds(in_order(x.dom()), x)),
    }
}
pub proof fn equal_values_feed_the_same(a: M, b: M) requires eqm(a, b) ensures hfeed(a) == hfeed(b) decreases a
{
    match a {
        M::Arr(x) => {
            let y = b->Arr_0;
            assert forall|i: int| 0 <= i < x.len() implies hfeed(#[trigger] x[i]) == hfeed(y[i]) by { equal_values_feed_the_same(x[i], y[i]); }
            assert(afeeds(x) =~= afeeds(y)); assert(hfeed(a) == hfeed(b));
        }
        M::Map(x) => {
            let y = b->Map_0;
            assert forall|k: Seq<char>| #[trigger] x.contains_key(k) implies y.contains_key(k) && hfeed(x[k]) == hfeed(y[k]) by { equal_values_feed_the_same(x[k], y[k]); }
            let o = in_order(x.dom());
            assert forall|i: int| 0 <= i < o.len() implies mfeeds(o, x)[i] == mfeeds(o, y)[i] by { assert(x.dom().contains(o[i]) == y.dom().contains(o[i])); }
            assert(mfeeds(o, x) =~= mfeeds(o, y)); assert(hfeed(a) == hfeed(b));
        }
        M::Json(x) => { axiom_json(x, b->Json_0, x); }
        M::F64(x) => { lemma_feed64(x, b->F64_0); }
        M::F32(x) => { let y = b->F32_0; if x != y { assert(zeros(x, 2) && zeros(y, 2) && x[2] == 0 && y[2] == 0); } }
        M::Imag(IM::Polar(x, y)) => { let o = b->Imag_0; lemma_feed64(x, o->Polar_0); lemma_feed64(y, o->Polar_1); }
        M::Int(_, _) => { assert(hfeed(a) == hfeed(b)); }
        M::Imag(_) => {assert(hfeed(a) == hfeed(b));}
        _ => {assert(hfeed(a) == hfeed(b));}
    }
}
pub proof fn lemma_feed64(x: Seq<u8>, y: Seq<u8>) requires feq64(x, y) ensures ffeed64(x) == ffeed64(y)
{ if x != y { assert(zeros(x, 6) && zeros(y, 6) && x[6] == 0 && y[6] == 0); } }
//@always `H: core::hash::Hasher` => `H: Hasher` -- the hasher, with what was fed to it
//@always `core::mem::discriminant(self)` => `self.kind_of()` -- which variant it is
//@always `($x + 0.0)` => `($x).plus_zero()` -- adding 0.0
//@src crates/sourisdb/src/types/integer.rs
impl SignedState {
//@fn impl Hash for SignedState | hash
        ensures final(state).fed() == old(state).fed() + seq![Fed::Kind(ss_byte(*self) as int)],
//@end
}
impl Integer {
//@fn impl Hash for Integer | hash
        ensures final(state).fed() == old(state).fed() + ifeed(self.signed_state, self.content@),
//@tail
        proof { assert(state.fed() =~= old(state).fed() + ifeed(self.signed_state, self.content@)); }
//@end
}
//@src crates/sourisdb/src/types/binary.rs
impl BinaryData {
//@fn impl Hash for BinaryData | hash
        ensures final(state).fed() == old(state).fed() + seq![Fed::Bytes(self.0@)],
//@end
}
//@src crates/sourisdb/src/types/imaginary.rs
impl Imaginary {
//@fn impl Hash for Imaginary | hash
        requires nn(M::Imag(im(*self))),
        ensures final(state).fed() == old(state).fed() + imfeed(im(*self)),
//@rw `real` => `re` -- a name Verus uses itself
//@tail
        proof { assert(state.fed() =~= old(state).fed() + imfeed(im(*self))); }
//@end
}
pub proof fn lemma_sorted(hm: Map<Seq<char>, Value>, all: Vec<(&String, &Value)>, es: Vec<(&String, &Value)>)
    requires hm.dom().finite(), all@.len() == hm.dom().len(), forall|i: int| 0 <= i < all@.len() ==> hm.contains_key((#[trigger] all@[i]).0@) && *all@[i].1 == hm[all@[i].0@],
        forall|i: int, j: int| 0 <= i < all@.len() && 0 <= j < all@.len() && i != j ==> (#[trigger] all@[i]).0@ != (#[trigger] all@[j]).0@,
        forall|k: Seq<char>| #[trigger] hm.contains_key(k) ==> exists|i: int| 0 <= i < all@.len() && (#[trigger] all@[i]).0@ == k,
        es@.len() == all@.len(), forall|i: int| 0 <= i < es@.len() ==> all@.contains(#[trigger] es@[i]),
        all.keys().no_duplicates() ==> es.keys() == in_order(all.keys().to_set()),
    ensures es.keys() == in_order(hm.dom()), forall|i: int| 0 <= i < es@.len() ==> hm.contains_key((#[trigger] es@[i]).0@) && *es@[i].1 == hm[es@[i].0@]
{
    let ks = all.keys();
    assert(ks.no_duplicates());
    assert(ks.to_set() =~= hm.dom()) by {
        assert forall|k: Seq<char>| hm.dom().contains(k) implies ks.to_set().contains(k) by { assert(hm.contains_key(k)); let i = choose|i: int| 0 <= i < all@.len() && (#[trigger] all@[i]).0@ == k; assert(ks[i] == k); }
    }
}
//@src crates/sourisdb/src/values.rs
impl Value {
//@fn impl Hash for Value | hash
        requires val_wf(*self), nn(model(*self)),
        ensures final(state).fed() == old(state).fed() + hfeed(model(*self)),
        decreases *self,
//@rw? `let mut entries: Vec<_> = m.iter().collect();` => `let mut entries: Vec<(&String, &Value)> = m.entries();` -- the entries in some order
//@rw? `.sort_unstable_by_key(|(k, _)| *k)` => `.sort_by_name()` -- std's sort
//@rw? `.sort_unstable_by_key($x)` => `.sort_somehow()` -- any other order
//@rw? `.sort_unstable_by($x)` => `.sort_somehow()` -- any other order
//@rw? `.sort_by_key(|(k, _)| *k)` => `.sort_by_name()` -- std's sort
//@rw? `.sort_by_key($x)` => `.sort_somehow()` -- any other order
//@entry
        let ghost f0 = state.fed(); let ghost m0 = model(*self);
        proof { lemma_model(*self); broadcast use axiom_map_decreases; }
//@before `for (k, v) in entries`
                let ghost mm = m0->Map_0; let ghost es = entries@; let ghost f1 = state.fed(); let ghost fs = mfeeds(in_order(mm.dom()), mm);
                proof { lemma_sorted(m@, before, entries); assert(entries.keys().len() == es.len()); assert forall|i: int| 0 <= i < es.len() implies fs[i] == seq![Fed::Str(es[i].0@)] + hfeed(mm[es[i].0@]) by { assert(entries.keys()[i] == es[i].0@); assert(m@.contains_key(es[i].0@)); assert(mm.contains_key(es[i].0@)); } assert(fs.take(0) =~= seq![]); assert(f1 + cat(fs.take(0)) =~= f1); assert(fs.take(es.len() as int) =~= fs); }
//@after `let mut entries:`
                let ghost before = entries;
//@iter 0 it
//@loop 0
                    invariant it.seq() == es, state.fed() == f1 + cat(fs.take(it.index() as int)), fs.len() == es.len(), m0 == M::Map(mm), mm.dom() == m@.dom(), nn(m0), *self == Value::Map(*m),
                        forall|i: int| 0 <= i < es.len() ==> m@.contains_key((#[trigger] es[i]).0@) && *es[i].1 == m@[es[i].0@] && fs[i] == seq![Fed::Str(es[i].0@)] + hfeed(mm[es[i].0@]),
                        forall|k: Seq<char>| #[trigger] m@.contains_key(k) ==> model(m@[k]) == mm[k] && val_wf(m@[k]),
//@into 0
                    let ghost ix = it.index() as int;
                    proof { broadcast use axiom_map_decreases; assert(es[ix] == (k, v)); assert(m@.contains_key(k@)); assert(mm.dom().contains(k@)); assert(mm.contains_key(k@)); assert(nn(M::Map(mm))); lemma_nn_map(mm, k@); assert(*v == m@[k@]); lemma_cat(fs, ix); assert(decreases_to!(*m => m@[k@])); assert(self->Map_0 == *m); assert(decreases_to!(*self => self->Map_0)); }
//@endof 0
                    proof { assert(state.fed() =~= f1 + cat(fs.take(ix + 1))); }
//@before `for v in a`
                let ghost ms = m0->Arr_0; let ghost fa = afeeds(ms); let ghost f2 = state.fed();
                proof { assert(f2 + cat(fa.take(0)) =~= f2); assert(fa.take(ms.len() as int) =~= fa); }
//@iter 1 it
//@loop 1
                    invariant it.seq().len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> *(#[trigger] it.seq()[i]) == a@[i], state.fed() == f2 + cat(fa.take(it.index() as int)), fa.len() == a@.len(), m0 == M::Arr(ms), ms.len() == a@.len(), nn(m0), *self == Value::Array(*a),
                        forall|i: int| 0 <= i < a@.len() ==> model(#[trigger] a@[i]) == ms[i] && val_wf(a@[i]) && fa[i] == hfeed(ms[i]),
//@into 1
                    let ghost ix = it.index() as int;
                    proof { assert(*v == a@[ix]); lemma_cat(fa, ix); assert(0 <= ix < ms.len()); assert(nn(M::Arr(ms))); lemma_nn_arr(ms, ix); assert(decreases_to!(*a => a[ix])); assert(decreases_to!(*self => self->Array_0)); }
//@endof 1
                    proof { assert(state.fed() =~= f2 + cat(fa.take(ix + 1))); }
//@tail
        proof { assert(state.fed() =~= f0 + hfeed(m0)); }
//@end
}
