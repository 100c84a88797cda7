//! needs core cursor
//@src crates/sourisdb/src/types/integer.rs
use crate::core::*;
use crate::cursor::*;
use core::num::ParseIntError;
use alloc::string::String;
use vstd::arithmetic::div_mod::*;

// ---- numbers as little endian bytes
pub open spec fn pow256(n: nat) -> int decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
pub open spec fn le(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0] + 256 * le(s.skip(1)) } }
pub open spec fn fill(neg: bool) -> u8 { if neg { 255 } else { 0 } }

pub proof fn lemma_pow_values()
    ensures pow256(0) == 1, pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000,
        pow256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000,
{ assert(pow256(0) == 1 && pow256(1) == 0x100 && pow256(2) == 0x1_0000 && pow256(4) == 0x1_0000_0000 && pow256(8) == 0x1_0000_0000_0000_0000
        && pow256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by (compute); }
pub proof fn lemma_pow_mono(a: nat, b: nat)
    requires a <= b ensures 1 <= pow256(a) <= pow256(b), a < b ==> 256 * pow256(a) <= pow256(b) decreases b
{ if a < b { lemma_pow_mono(a, (b - 1) as nat); } else if a > 0 { lemma_pow_mono((a - 1) as nat, (a - 1) as nat); } }
pub proof fn lemma_le_bound(s: Seq<u8>) ensures 0 <= le(s) < pow256(s.len()) decreases s.len()
{ if s.len() > 0 { lemma_le_bound(s.skip(1)); } }
pub proof fn lemma_le_inj(s: Seq<u8>, t: Seq<u8>)
    requires s.len() == t.len(), le(s) == le(t) ensures s == t decreases s.len()
{
    if s.len() > 0 {
        lemma_le_inj(s.skip(1), t.skip(1));
        assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { if i > 0 { assert(s[i] == s.skip(1)[i - 1] && t[i] == t.skip(1)[i - 1]); } }
    }
    assert(s =~= t);
}
// the bytes beyond k are all `fill`
pub proof fn lemma_le_filled(s: Seq<u8>, k: nat, neg: bool)
    requires k <= s.len(), forall|i: int| k <= i < s.len() ==> s[i] == fill(neg)
    ensures le(s) == le(s.take(k as int)) + if neg { pow256(s.len()) - pow256(k) } else { 0 }
    decreases s.len()
{
    if s.len() > 0 {
        if k > 0 {
            lemma_le_filled(s.skip(1), (k - 1) as nat, neg);
            assert(s.skip(1).take(k - 1) =~= s.take(k as int).skip(1));
        } else {
            lemma_le_filled(s.skip(1), 0, neg);
            assert(s.take(0) =~= Seq::empty()); assert(s.skip(1).take(0) =~= Seq::empty());
        }
    } else { assert(s.take(k as int) =~= s); }
}
// the last byte counts pow256(len - 1)
pub proof fn lemma_le_last(s: Seq<u8>)
    requires s.len() > 0
    ensures le(s) == le(s.drop_last()) + s.last() * pow256((s.len() - 1) as nat)
    decreases s.len()
{
    if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); assert(s.skip(1) =~= Seq::empty()); assert(le(s.skip(1)) == 0); assert(le(s.drop_last()) == 0); assert(pow256(0) == 1); }
    else {
        lemma_le_last(s.skip(1));
        assert(s.skip(1).drop_last() =~= s.drop_last().skip(1));
        let p = pow256((s.len() - 2) as nat);
        assert(256 * (s.last() * p) == s.last() * (256 * p)) by (nonlinear_arith);
    }
}

//@each t=u8,n=1 | t=u16,n=2 | t=u32,n=4 | t=u64,n=8 | t=u128,n=16 | t=usize,n=8
#[verifier::external_body]
pub fn to_le_${t}(x: ${t}) -> (r: [u8; ${n}]) ensures le(r@) == x, { x.to_le_bytes() }
#[verifier::external_body]
pub fn from_le_${t}(b: [u8; ${n}]) -> (r: ${t}) ensures r == le(b@), { <${t}>::from_le_bytes(b) }
//@endeach
//@each t=i8,n=1 | t=i16,n=2 | t=i32,n=4 | t=i64,n=8 | t=i128,n=16 | t=isize,n=8
#[verifier::external_body]
pub fn to_le_${t}(x: ${t}) -> (r: [u8; ${n}]) ensures le(r@) == if x < 0 { x + pow256(${n}) } else { x as int }, { x.to_le_bytes() }
#[verifier::external_body]
pub fn from_le_${t}(b: [u8; ${n}]) -> (r: ${t}) ensures r == if 2 * le(b@) < pow256(${n}) { le(b@) } else { le(b@) - pow256(${n}) }, { <${t}>::from_le_bytes(b) }
//@endeach

// ---- the type
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item - | enum SignedState
//@item - | type BiggestInt
//@item - | type BiggestIntButSigned
//@item - | const INTEGER_MAX_SIZE
//@item - | const ONE_BYTE_MAX_SIZE
#[derive(Copy, Clone)]
//@item - | struct Integer
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(ParseIntError);
#[derive(Debug)]
//@item - | enum IntegerSerError

impl Integer {
    pub open spec fn neg(&self) -> bool { self.signed_state == SignedState::SignedNegative }
    /// the bytes beyond the used ones extend the number
    pub open spec fn wf(&self) -> bool {
        &&& self.number_of_bytes_used <= 16
        &&& self.neg() ==> self.number_of_bytes_used >= 1
        &&& forall|k: int| self.number_of_bytes_used <= k < 16 ==> self.content@[k] == fill(self.neg())
    }
    /// no more bytes are used than needed
    pub open spec fn canon(&self) -> bool {
        self.wf() && (self.number_of_bytes_used > 1 ==> self.content@[self.number_of_bytes_used - 1] != fill(self.neg()))
    }
    pub open spec fn value(&self) -> int { if self.neg() { le(self.content@) - pow256(16) } else { le(self.content@) } }
    /// the same number, and the same sort of number
    pub open spec fn same(&self, o: &Integer) -> bool { self.signed_state == o.signed_state && self.content@ == o.content@ }

    pub proof fn lemma_value(&self)
        requires self.wf(),
        ensures self.neg() == (self.value() < 0), -pow256(16) <= self.value() < pow256(16),
            self.value() == le(self.content@.take(self.number_of_bytes_used as int)) - if self.neg() { pow256(self.number_of_bytes_used as nat) } else { 0 },
            self.neg() ==> -pow256(self.number_of_bytes_used as nat) <= self.value(),
            !self.neg() ==> self.value() < pow256(self.number_of_bytes_used as nat),
    {
        lemma_le_bound(self.content@);
        lemma_le_filled(self.content@, self.number_of_bytes_used as nat, self.neg());
        lemma_le_bound(self.content@.take(self.number_of_bytes_used as int));
    }
    pub proof fn lemma_canon(&self)
        requires self.canon(), self.number_of_bytes_used > 1
        ensures !self.neg() ==> self.value() >= pow256((self.number_of_bytes_used - 1) as nat),
            self.neg() ==> self.value() < -pow256((self.number_of_bytes_used - 1) as nat),
    {
        self.lemma_value();
        let u = self.number_of_bytes_used as int;
        let s = self.content@.take(u);
        let p = pow256((u - 1) as nat);
        lemma_le_last(s); lemma_le_bound(s.drop_last());
        let x = s.last() as int;
        assert(x == self.content@[u - 1]);
        assert(pow256(u as nat) == 256 * p);
        if self.neg() { assert(x <= 254); assert(x * p <= 254 * p) by (nonlinear_arith) requires x <= 254, p >= 1; }
        else { assert(x >= 1); assert(x * p >= p) by (nonlinear_arith) requires x >= 1, p >= 1; }
    }
}

//@each t=u8,n=1 | t=u16,n=2 | t=u32,n=4 | t=u64,n=8 | t=u128,n=16 | t=usize,n=8
impl vstd::std_specs::convert::FromSpecImpl<${t}> for Integer {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(n: ${t}) -> Self { arbitrary() }
}
impl From<${t}> for Integer {
//@fn macro from_unsigned($t=${t}) :: impl From<${t}> for Integer | from nopub
        ensures r.canon(), r.value() == n, r.signed_state == SignedState::Unsigned,
//@rw `for (i, b) in n.to_le_bytes().into_iter().enumerate() {` => `let bytes = to_le_${t}(n); for i in 0..bytes.len() { let b = bytes[i];` -- a by-value array iterator with its index
//@loop 0
    invariant bytes@.len() == ${n}, le(bytes@) == n, last_non_zero_byte < ${n}, content@.len() == 16,
        forall|k: int| 0 <= k < i ==> content@[k] == bytes@[k],
        forall|k: int| i <= k < 16 ==> content@[k] == 0,
        forall|k: int| last_non_zero_byte < k < i ==> content@[k] == 0,
        last_non_zero_byte > 0 ==> last_non_zero_byte < i && content@[last_non_zero_byte as int] != 0,
//@exit
        proof { lemma_le_filled(content@, ${n}, false); assert(content@.take(${n}) =~= bytes@); }
//@end
}
//@endeach

//@each t=i8,n=1 | t=i16,n=2 | t=i32,n=4 | t=i64,n=8 | t=i128,n=16 | t=isize,n=8
impl vstd::std_specs::convert::FromSpecImpl<${t}> for Integer {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(n: ${t}) -> Self { arbitrary() }
}
impl From<${t}> for Integer {
//@fn macro from_signed($t=${t}) :: impl From<${t}> for Integer | from nopub
        ensures r.canon(), r.value() == n, r.signed_state != SignedState::Unsigned, r.neg() == (n < 0),
//@entry
        proof { lemma_pow_values(); lemma_pow_mono(${n}, 16); }
//@before `if n == 0`
        proof {
            let z = Seq::new(16, |i: int| 0u8); lemma_le_filled(z, 0, false); assert(z.take(0) =~= Seq::empty());
            let f = Seq::new(16, |i: int| 255u8); lemma_le_filled(f, 0, true); assert(f.take(0) =~= Seq::empty());
            assert forall|c: [u8; 16]| (forall|k: int| 0 <= k < 16 ==> c@[k] == 0) implies #[trigger] le(c@) == 0 by { assert(c@ =~= z); }
            assert forall|c: [u8; 16]| (forall|k: int| 0 <= k < 16 ==> c@[k] == 255) implies #[trigger] le(c@) == pow256(16) - 1 by { assert(c@ =~= f); }
        }
//@rw `for (i, b) in n.to_le_bytes().into_iter().enumerate() {` => `let bytes = to_le_${t}(n); for i in 0..bytes.len() { let b = bytes[i];` -- a by-value array iterator with its index
//@loop 0
    invariant bytes@.len() == ${n}, le(bytes@) == n + pow256(${n}), last_non_filled_byte <= i, content@.len() == 16, i <= ${n},
        forall|k: int| 0 <= k < i ==> content@[k] == bytes@[k],
        forall|k: int| i <= k < 16 ==> content@[k] == 255,
        forall|k: int| last_non_filled_byte <= k < i ==> content@[k] == 255,
        last_non_filled_byte > 0 ==> content@[last_non_filled_byte - 1] != 255,
//@before `Self { signed_state: SignedState::SignedNegative, content,`
        proof {
            lemma_le_filled(content@, ${n}, true); assert(content@.take(${n}) =~= bytes@);
            if last_non_filled_byte == 0 { lemma_le_filled(content@, 0, true); assert(content@.take(0) =~= Seq::empty()); assert(false); }
        }
//@loop 1
    invariant bytes@.len() == ${n}, le(bytes@) == n, last_non_zero_byte <= i, content@.len() == 16, i <= ${n},
        forall|k: int| 0 <= k < i ==> content@[k] == bytes@[k],
        forall|k: int| i <= k < 16 ==> content@[k] == 0,
        forall|k: int| last_non_zero_byte <= k < i ==> content@[k] == 0,
        last_non_zero_byte > 0 ==> content@[last_non_zero_byte - 1] != 0,
//@before `Self { signed_state: SignedState::SignedPositive, content,`
        proof { lemma_le_filled(content@, ${n}, false); assert(content@.take(${n}) =~= bytes@); }
//@end
}
impl vstd::std_specs::convert::TryFromSpecImpl<Integer> for ${t} {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(i: Integer) -> Result<Self, IntegerSerError> { arbitrary() }
}
impl TryFrom<Integer> for ${t} {
    type Error = IntegerSerError;
//@fn macro from_signed($t=${t}) :: impl TryFrom<Integer> for ${t} | try_from nopub sig `fn try_from(i: Integer) -> (r: Result<Self, IntegerSerError>)`
        ensures i.wf() ==> (r is Ok ==> r->Ok_0 == i.value()), i.canon() ==> (r is Ok) == (${t}::MIN <= i.value() <= ${t}::MAX),
//@rw `const T_BYTES: usize = (<${t}>::BITS / 8) as usize;` => `` -- the constant is written out: Verus takes no constant items in functions
//@rw `T_BYTES` => `${n}`
//@rw `for (i, b) in i.content.into_iter().enumerate().take(i.number_of_bytes_used) {` => `let bytes = i.content; let upto = if i.number_of_bytes_used < bytes.len() { i.number_of_bytes_used } else { bytes.len() }; for i in 0..upto { let b = bytes[i];` -- a by-value array iterator with its index, cut after the used bytes
//@rw `<${t}>::from_le_bytes(out)` => `from_le_${t}(out)`
//@entry
        let ghost int0 = i;
        proof { lemma_pow_values(); lemma_pow_mono(${n}, 16); }
//@loop 0
    invariant bytes@ == int0.content@, start@.len() == ${n}, upto <= ${n}, upto == int0.number_of_bytes_used || upto == 16,
        forall|k: int| 0 <= k < i ==> start@[k] == bytes@[k],
        forall|k: int| i <= k < ${n} ==> start@[k] == 255,
//@loop 1
    invariant bytes@ == int0.content@, start@.len() == ${n}, upto <= ${n}, upto == int0.number_of_bytes_used || upto == 16,
        forall|k: int| 0 <= k < i ==> start@[k] == bytes@[k],
        forall|k: int| i <= k < ${n} ==> start@[k] == 0,
//@before `return Err(IntegerSerError::TooBigToFit);` #0
        proof { if i.canon() { i.lemma_canon(); i.lemma_value(); lemma_pow_mono(${n}, (i.number_of_bytes_used - 1) as nat); } }
//@before `let n = from_le_${t}(out)`
        proof {
            if int0.wf() {
                assert(out@ =~= int0.content@.take(${n}));
                lemma_le_filled(int0.content@, ${n}, int0.neg());
                lemma_le_bound(out@);
            }
        }
//@end
}
//@endeach

//@each t=u8,n=1 | t=u16,n=2 | t=u32,n=4 | t=u64,n=8 | t=u128,n=16 | t=usize,n=8
impl vstd::std_specs::convert::TryFromSpecImpl<Integer> for ${t} {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(i: Integer) -> Result<Self, IntegerSerError> { arbitrary() }
}
impl TryFrom<Integer> for ${t} {
    type Error = IntegerSerError;
//@fn macro from_unsigned($t=${t}) :: impl TryFrom<Integer> for ${t} | try_from nopub sig `fn try_from(i: Integer) -> (r: Result<Self, IntegerSerError>)`
        ensures i.wf() ==> (r is Ok ==> r->Ok_0 == i.value()), i.canon() ==> (r is Ok) == (0 <= i.value() <= ${t}::MAX),
//@rw `const T_BYTES: usize = (<${t}>::BITS / 8) as usize;` => `` -- the constant is written out: Verus takes no constant items in functions
//@rw `T_BYTES` => `${n}`
//@rw `for (i, b) in i.content.into_iter().enumerate().take(${n}) {` => `let bytes = i.content; let upto = if ${n} < bytes.len() { ${n} } else { bytes.len() }; for i in 0..upto { let b = bytes[i];` -- a by-value array iterator with its index, cut after the bytes of the type
//@rw `<${t}>::from_le_bytes(out)` => `from_le_${t}(out)`
//@entry
        let ghost int0 = i;
        proof { lemma_pow_values(); lemma_pow_mono(${n}, 16); }
//@loop 0
    invariant bytes@ == int0.content@, out@.len() == ${n}, upto == ${n},
        forall|k: int| 0 <= k < i ==> out@[k] == bytes@[k],
//@before `return Err(IntegerSerError::TooBigToFit);`
        proof { if i.canon() { i.lemma_canon(); i.lemma_value(); lemma_pow_mono(${n}, (i.number_of_bytes_used - 1) as nat); } }
//@before `return Err(IntegerSerError::SignError);`
        proof { if i.canon() { i.lemma_value(); } }
//@exit
        proof {
            if int0.wf() {
                assert(out@ =~= int0.content@.take(${n}));
                lemma_le_filled(int0.content@, ${n}, false);
                lemma_le_bound(out@);
            }
        }
//@end
}
//@endeach
impl Integer {
//@each t=u8 | t=u16 | t=u32 | t=u64 | t=u128 | t=usize
//@fn macro new_x($t=${t},$name=${t}) :: impl Integer | ${t} sig `fn ${t}(n: ${t}) -> (r: Self)`
        ensures r.canon(), r.value() == n, r.signed_state == SignedState::Unsigned,
//@end
//@endeach
//@each t=i8 | t=i16 | t=i32 | t=i64 | t=i128 | t=isize
//@fn macro new_x($t=${t},$name=${t}) :: impl Integer | ${t} sig `fn ${t}(n: ${t}) -> (r: Self)`
        ensures r.canon(), r.value() == n, r.signed_state != SignedState::Unsigned,
//@end
//@endeach
//@fn impl Integer | is_negative
        ensures self.wf() ==> r == (self.value() < 0),
//@entry
        proof { if self.wf() { self.lemma_value(); } }
//@end
//@fn impl Integer | is_positive
        ensures self.wf() ==> r == (self.value() >= 0),
//@entry
        proof { if self.wf() { self.lemma_value(); } }
//@end
}

// ---- the serialised form
pub open spec fn dec_len(rest: Seq<u8>) -> int { if rest[0] <= 239 { 1 } else { rest[0] - 238 } }
pub open spec fn dec_some(rest: Seq<u8>) -> bool { rest.len() > 0 && dec_len(rest) <= rest.len() }
pub open spec fn dec_used(neg: bool, rest: Seq<u8>) -> int { if rest[0] <= 239 { if neg || rest[0] != 0 { 1 } else { 0 } } else { rest[0] - 239 } }
pub open spec fn dec_content(neg: bool, rest: Seq<u8>) -> Seq<u8> {
    Seq::new(16, |k: int| if rest[0] <= 239 { if k == 0 { rest[0] } else { fill(neg) } } else if k < rest[0] - 239 { rest[1 + k] } else { fill(neg) })
}
impl Integer {
    pub open spec fn enc(&self) -> Seq<u8> {
        if self.number_of_bytes_used <= 1 && self.content@[0] <= 239 { seq![self.content@[0]] }
        else { seq![(239 + self.number_of_bytes_used) as u8] + self.content@.take(self.number_of_bytes_used as int) }
    }
    pub open spec fn is_dec(&self, ss: SignedState, rest: Seq<u8>) -> bool {
        self.wf() && self.signed_state == ss && self.content@ == dec_content(self.neg(), rest) && self.number_of_bytes_used == dec_used(self.neg(), rest)
    }
    /// what is read back from the bytes written, whatever follows them
    pub proof fn lemma_round(&self, rest: Seq<u8>)
        requires self.wf(), self.enc().is_prefix_of(rest),
        ensures dec_some(rest), dec_len(rest) == self.enc().len(), dec_content(self.neg(), rest) == self.content@,
            forall|r: Integer| #[trigger] r.is_dec(self.signed_state, rest) ==> r.same(self) && r.value() == self.value() && (self.canon() ==> r.canon()),
    {
        let e = self.enc();
        assert(e.len() >= 1); assert(rest[0] == e[0]);
        if !(self.number_of_bytes_used <= 1 && self.content@[0] <= 239) {
            assert forall|k: int| 0 <= k < self.number_of_bytes_used implies rest[1 + k] == self.content@[k] by { assert(e[1 + k] == rest[1 + k]); }
        }
        assert(dec_content(self.neg(), rest) =~= self.content@);
    }
    /// reading needs all of the bytes written
    pub proof fn lemma_cut(&self, rest: Seq<u8>)
        requires self.wf(), rest.is_prefix_of(self.enc()), rest.len() < self.enc().len()
        ensures !dec_some(rest)
    { if rest.len() > 0 { assert(rest[0] == self.enc()[0]); } }
    /// how many bytes are written: one for 0 to 239, and never more than one more than the bytes needed to hold the number
    pub proof fn lemma_len(&self, k: nat)
        requires self.canon()
        ensures 0 <= self.value() <= 239 ==> self.enc().len() == 1,
            k >= 1 && k <= 16 && (if self.signed_state == SignedState::Unsigned { self.value() < pow256(k) } else { -pow256(k) <= 2 * self.value() < pow256(k) }) ==> self.enc().len() <= k + 1,
    {
        lemma_pow_values(); self.lemma_value();
        let u = self.number_of_bytes_used as nat;
        if u > 1 {
            self.lemma_canon();
            if k < u { lemma_pow_mono(k, (u - 1) as nat); }
            lemma_pow_mono(1, (u - 1) as nat);
        } else if u == 1 {
            lemma_le_filled(self.content@, 1, self.neg());
            assert(self.content@.take(1).skip(1) =~= Seq::empty());
            assert(le(self.content@.take(1)) == self.content@[0] + 256 * le(self.content@.take(1).skip(1)));
        }
    }
    /// equal contents and signs are equal numbers
    pub proof fn lemma_eq(&self, o: &Integer)
        requires self.wf(), o.wf()
        ensures (self.content@ == o.content@ && self.neg() == o.neg()) == (self.value() == o.value())
    {
        self.lemma_value(); o.lemma_value();
        if self.value() == o.value() { lemma_le_inj(self.content@, o.content@); }
    }

//@fn impl PartialEq for Integer | eq as eq_
        ensures self.wf() && other.wf() ==> r == (self.value() == other.value()),
//@rw `self.content != other.content` => `!bytes_eq(&self.content, &other.content)` -- comparing arrays
//@entry
        proof { if self.wf() && other.wf() { self.lemma_eq(other); self.lemma_value(); other.lemma_value(); } }
//@end
//@fn impl Integer | ser
        requires self.wf(),
        ensures r.0 == self.signed_state, r.1@ == self.enc(),
//@rw `res.extend(&bytes[0..stored_size])` => `res.extend_from_slice(&bytes[0..stored_size])` -- extending by references to bytes
//@end
//@fn impl Integer | deser
        requires old(reader).wf(),
        ensures final(reader).wf(), final(reader).data() == old(reader).data(), old(reader).pos <= final(reader).pos,
            r is Ok == dec_some(old(reader).rest()),
            r is Ok ==> r->Ok_0.is_dec(signed_state, old(reader).rest()) && final(reader).pos == old(reader).pos + dec_len(old(reader).rest()),
//@rw `for (i, b) in bytes_stored.iter().copied().enumerate() {` => `for i in 0..bytes_stored.len() { let b = bytes_stored[i];` -- a slice iterator with its index
//@rw? `usize::from(signed_state == SignedState::SignedNegative || content[0] != 0)` => `(if signed_state == SignedState::SignedNegative || content[0] != 0 { 1 } else { 0 })` -- std's bool to usize
//@loop 0
    invariant bytes_stored@.len() == number_of_bytes_used <= 16, content@.len() == 16,
        forall|k: int| 0 <= k < i ==> content@[k] == bytes_stored@[k],
        forall|k: int| i <= k < 16 ==> content@[k] == fill(signed_state == SignedState::SignedNegative),
//@before `return Ok(Self { signed_state,`
        proof { assert(content@ =~= dec_content(signed_state == SignedState::SignedNegative, old(reader).rest())); }
//@exit
        proof {
            let rest = old(reader).rest();
            assert forall|k: int| 0 <= k < number_of_bytes_used implies bytes_stored@[k] == rest[1 + k] by {}
            assert(content@ =~= dec_content(signed_state == SignedState::SignedNegative, rest));
        }
//@end

//@each t=Add,f=add,o=+ | t=Sub,f=sub,o=- | t=Mul,f=mul,o=*
//@fn macro integer_trait_impl($t=${t},$f=${f}) :: impl ${t}<Self> for Integer | ${f}
        requires self.canon(), rhs.canon(),
            (self.signed_state == SignedState::Unsigned && rhs.signed_state == SignedState::Unsigned) ==> 0 <= self.value() ${o} rhs.value() <= u128::MAX,
            !(self.signed_state == SignedState::Unsigned && rhs.signed_state == SignedState::Unsigned) ==>
                i128::MIN <= self.value() <= i128::MAX && i128::MIN <= rhs.value() <= i128::MAX && i128::MIN <= self.value() ${o} rhs.value() <= i128::MAX,
        ensures r.canon(), r.value() == self.value() ${o} rhs.value(),
//@rw `${t}::${f}(lhs, rhs)` => `(lhs ${o} rhs)` -- the operator of the native type
//@rw `panic!("integer too big to fit into u128")` => `unreached()` -- a panic which must never be reached
//@rw `panic!("integer too big to fit into i128")` => `unreached()` -- a panic which must never be reached
//@rw `Self::Output` => `Self`
//@entry
        proof { lemma_pow_values(); self.lemma_value(); rhs.lemma_value(); }
//@end
//@endeach
//@fn macro integer_trait_impl($t=Div,$f=div) :: impl Div<Self> for Integer | div
        requires self.canon(), rhs.canon(), rhs.value() != 0,
            (self.signed_state == SignedState::Unsigned && rhs.signed_state == SignedState::Unsigned) ==> self.value() <= u128::MAX && rhs.value() <= u128::MAX,
            !(self.signed_state == SignedState::Unsigned && rhs.signed_state == SignedState::Unsigned) ==>
                i128::MIN <= self.value() <= i128::MAX && i128::MIN <= rhs.value() <= i128::MAX && !(self.value() == i128::MIN && rhs.value() == -1),
        ensures r.canon(), r.value() == rust_div(self.value(), rhs.value()),
//@rw `Div::div(lhs, rhs)` => `(lhs / rhs)` -- the operator of the native type
//@rw `panic!("integer too big to fit into u128")` => `unreached()` -- a panic which must never be reached
//@rw `panic!("integer too big to fit into i128")` => `unreached()` -- a panic which must never be reached
//@rw `Self::Output` => `Self`
//@entry
        proof { lemma_pow_values(); self.lemma_value(); rhs.lemma_value();
            if self.signed_state == SignedState::Unsigned && rhs.signed_state == SignedState::Unsigned { lemma_div_fits(self.value(), rhs.value(), u128::MAX as int); }
            else { lemma_div_fits(self.value(), rhs.value(), i128::MAX as int); } }
//@end
}
/// rust_div is the quotient truncated towards zero: what remains is smaller than the divisor and has the sign of the dividend
pub proof fn lemma_truncated(a: int, b: int)
    requires b != 0
    ensures ({ let rem = a - rust_div(a, b) * b; let m = if b > 0 { b } else { -b }; if a >= 0 { 0 <= rem < m } else { -m < rem <= 0 } })
{
    let n = if a >= 0 { a } else { -a };
    lemma_fundamental_div_mod(n, b);
    let q = n / b; let m = n % b;
    assert(n == b * q + m);
    assert(b * q == q * b) by (nonlinear_arith);
    assert((-q) * b == -(q * b)) by (nonlinear_arith);
    if b > 0 { lemma_mod_bound(n, b); } else { assert(0 <= n % b < -b) by (nonlinear_arith) requires b < 0; }
}
pub proof fn lemma_div_fits(a: int, b: int, max: int)
    requires b != 0, -max - 1 <= a <= max, !(a == -max - 1 && b == -1)
    ensures -max - 1 <= rust_div(a, b) <= max
{
    lemma_truncated(a, b);
    let q = rust_div(a, b); let rem = a - q * b; let m = if b > 0 { b } else { -b };
    let qq = if q >= 0 { q } else { -q };
    assert(q * b == a - rem);
    assert(qq * m == q * b || qq * m == -(q * b)) by (nonlinear_arith) requires m == b || m == -b, qq == q || qq == -q;
    let n = if a >= 0 { a } else { -a };
    assert(qq * m >= 0) by (nonlinear_arith) requires qq >= 0, m >= 1;
    if qq * m < m { assert(qq == 0) by (nonlinear_arith) requires qq * m < m, qq >= 0, m >= 1; assert(qq * m == 0) by (nonlinear_arith) requires qq == 0; }
    assert(qq * m <= n);
    assert(qq <= n) by (nonlinear_arith) requires qq * m <= n, m >= 1, qq >= 0;
    if m >= 2 && n == max + 1 { assert(qq < n) by (nonlinear_arith) requires qq * m <= n, m >= 2, qq >= 0, n >= 1; }
    if b == 1 { assert(q * 1 == q); assert(rem == 0); }
    if b == -1 { assert(q * (-1) == -q); assert(rem == 0); }
}

// ---- numbers as unsigned integers, as they stand in front of other things
/// what is written for the number v
pub open spec fn uenc(v: int) -> Seq<u8> { (choose|i: Integer| i.canon() && i.signed_state == SignedState::Unsigned && i.value() == v).enc() }
/// the number read
pub open spec fn ud_val(rest: Seq<u8>) -> int { le(dec_content(false, rest)) }
/// a number is there, and it is stored in as few bytes as possible
pub open spec fn ud_canon(rest: Seq<u8>) -> bool { dec_some(rest) && (dec_used(false, rest) > 1 ==> dec_content(false, rest)[dec_used(false, rest) - 1] != 0) }
pub proof fn lemma_canon_enc(a: &Integer, b: &Integer)
    requires a.canon(), b.canon(), a.value() == b.value(), a.signed_state == b.signed_state
    ensures a.enc() == b.enc()
{
    a.lemma_eq(b);
    assert(a.content@ == b.content@);
    let x = a.number_of_bytes_used as int; let y = b.number_of_bytes_used as int;
    if x < y && y > 1 { assert(a.content@[y - 1] == fill(a.neg())); }
    if y < x && x > 1 { assert(b.content@[x - 1] == fill(b.neg())); }
    if x != y { assert(x <= 1 && y <= 1); assert(a.content@[0] == fill(a.neg())); assert(!a.neg()); }
}
pub proof fn lemma_uenc_is(i: &Integer)
    requires i.canon(), i.signed_state == SignedState::Unsigned
    ensures i.enc() == uenc(i.value())
{ lemma_canon_enc(i, &(choose|j: Integer| j.canon() && j.signed_state == SignedState::Unsigned && j.value() == i.value())); }
pub proof fn lemma_uenc_all()
    ensures forall|i: Integer| i.canon() && i.signed_state == SignedState::Unsigned ==> #[trigger] i.enc() == uenc(i.value())
{ assert forall|i: Integer| i.canon() && i.signed_state == SignedState::Unsigned implies #[trigger] i.enc() == uenc(i.value()) by { lemma_uenc_is(&i); } }
/// a number written is read again, whatever follows
pub proof fn lemma_ud_round(i: Integer, rest: Seq<u8>)
    requires i.canon(), i.signed_state == SignedState::Unsigned, uenc(i.value()).is_prefix_of(rest)
    ensures ud_canon(rest), ud_val(rest) == i.value(), dec_len(rest) == uenc(i.value()).len(), dec_len(rest) >= 1
{
    lemma_uenc_is(&i); i.lemma_round(rest);
    let u = i.number_of_bytes_used as int;
    assert(i.enc()[0] == rest[0]);
}
/// an Integer read from canonical bytes is canonical
pub proof fn lemma_ud_read(r: Integer, rest: Seq<u8>)
    requires r.is_dec(SignedState::Unsigned, rest)
    ensures r.value() == ud_val(rest), ud_canon(rest) ==> r.canon()
{}
pub proof fn lemma_ud_read_all(rest: Seq<u8>)
    ensures forall|r: Integer| #[trigger] r.is_dec(SignedState::Unsigned, rest) ==> r.wf() && r.value() == ud_val(rest) && (ud_canon(rest) ==> r.canon()),
        ud_val(rest) >= 0,
{ lemma_le_bound(dec_content(false, rest)); assert forall|r: Integer| #[trigger] r.is_dec(SignedState::Unsigned, rest) implies r.wf() && r.value() == ud_val(rest) && (ud_canon(rest) ==> r.canon()) by { lemma_ud_read(r, rest); } }
/// every number up to u128::MAX has an Integer
pub proof fn lemma_uenc_has(v: int)
    requires 0 <= v < pow256(16)
    ensures ({ let i = choose|i: Integer| i.canon() && i.signed_state == SignedState::Unsigned && i.value() == v; i.canon() && i.signed_state == SignedState::Unsigned && i.value() == v })
{
    lemma_le_has(v, 16);
    let s = choose|s: Seq<u8>| s.len() == 16 && le(s) == v;
    let c = axiom_array(s);
    let u = used(s, 16);
    lemma_used(s, 16);
    let i = Integer { signed_state: SignedState::Unsigned, content: c, number_of_bytes_used: u as usize };
    assert(i.canon() && i.value() == v);
}
pub open spec fn used(s: Seq<u8>, n: nat) -> nat decreases n { if n == 0 { 0 } else if s[n - 1] != 0 { n } else { used(s, (n - 1) as nat) } }
pub proof fn lemma_used(s: Seq<u8>, n: nat)
    requires n <= s.len()
    ensures used(s, n) <= n, used(s, n) > 0 ==> s[used(s, n) - 1] != 0, forall|k: int| used(s, n) <= k < n ==> s[k] == 0
    decreases n
{ if n > 0 && s[n - 1] == 0 { lemma_used(s, (n - 1) as nat); } }
pub proof fn lemma_le_has(v: int, n: nat)
    requires 0 <= v < pow256(n)
    ensures exists|s: Seq<u8>| s.len() == n && le(s) == v
    decreases n
{
    if n == 0 { assert(le(Seq::<u8>::empty()) == 0); }
    else {
        lemma_le_has(v / 256, (n - 1) as nat);
        let t = choose|t: Seq<u8>| t.len() == n - 1 && le(t) == v / 256;
        let s = seq![(v % 256) as u8] + t;
        assert(s.skip(1) =~= t);
        assert(s.len() == n && le(s) == v);
    }
}
// every sequence of 16 bytes is the content of an array
#[verifier::external_body]
pub proof fn axiom_array(s: Seq<u8>) -> (r: [u8; 16]) requires s.len() == 16 ensures r@ == s { unimplemented!() }
/// a number written and then other bytes: the number is read, and then there are the bytes
pub proof fn lemma_u_prefix(v: int, tail: Seq<u8>, rest: Seq<u8>)
    requires 0 <= v < pow256(16), (uenc(v) + tail).is_prefix_of(rest)
    ensures ud_canon(rest), ud_val(rest) == v, dec_len(rest) == uenc(v).len() >= 1, tail.is_prefix_of(rest.skip(dec_len(rest))), dec_len(rest) + tail.len() <= rest.len()
{
    lemma_uenc_has(v);
    let i = choose|i: Integer| i.canon() && i.signed_state == SignedState::Unsigned && i.value() == v;
    let e = uenc(v) + tail;
    assert forall|k: int| 0 <= k < uenc(v).len() implies uenc(v)[k] == rest[k] by { assert(e[k] == rest[k]); }
    lemma_ud_round(i, rest);
    assert forall|k: int| 0 <= k < tail.len() implies tail[k] == rest.skip(dec_len(rest))[k] by { assert(e[uenc(v).len() + k] == rest[uenc(v).len() + k]); }
}
