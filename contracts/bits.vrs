//! needs core cursor integer
//@src crates/sourisdb/src/utilities/bits.rs
use crate::core::*;
use crate::cursor::*;
use crate::integer::*;
use crate::integer::Integer;
use alloc::vec;
use alloc::vec::Vec;

/// bit j of a byte
pub open spec fn bb(x: u8, j: u8) -> bool { (x >> j) & 1u8 == 1u8 }
/// bit i of some bytes, the lowest bit of each byte first
pub open spec fn bit_at(b: Seq<u8>, i: int) -> bool { bb(b[i / 8], (i % 8) as u8) }

pub proof fn lemma_or(x: u8, c: u8, k: u8, j: u8)
    requires k < 8, j < 8, c <= 1
    ensures bb(x | (c << k), j) == ((j == k && c == 1) || bb(x, j))
{ assert(((x | (c << k)) >> j) & 1u8 == 1u8 <==> ((j == k && c == 1) || (x >> j) & 1u8 == 1u8)) by (bit_vector) requires k < 8, j < 8, c <= 1; }
pub proof fn lemma_clear(x: u8, k: u8, j: u8)
    requires k < 8, j < 8
    ensures bb(x & (255u8 - (1u8 << k)) as u8, j) == (j != k && bb(x, j)),
        (x & (1u8 << k)) > 0 <==> bb(x, k), (1u8 << k) <= 255u8,
{
    assert(((x & sub(255u8, (1u8 << k))) >> j) & 1u8 == 1u8 <==> (j != k && (x >> j) & 1u8 == 1u8)) by (bit_vector) requires k < 8, j < 8;
    assert((x & (1u8 << k)) > 0 <==> (x >> k) & 1u8 == 1u8) by (bit_vector) requires k < 8;
    assert((1u8 << k) <= 255u8) by (bit_vector);
}
pub proof fn lemma_and(x: u8, y: u8, j: u8)
    requires j < 8 ensures bb(x & y, j) == (bb(x, j) && bb(y, j))
{ assert(((x & y) >> j) & 1u8 == 1u8 <==> ((x >> j) & 1u8 == 1u8 && (y >> j) & 1u8 == 1u8)) by (bit_vector) requires j < 8; }
// what the operations on a byte do to its bits, whatever they are written with
pub broadcast proof fn bl_or(x: u8, y: u8, j: u8) requires j < 8 ensures #[trigger] bb(x | y, j) == (bb(x, j) || bb(y, j))
{ assert(((x | y) >> j) & 1u8 == 1u8 <==> ((x >> j) & 1u8 == 1u8 || (y >> j) & 1u8 == 1u8)) by (bit_vector) requires j < 8; }
pub broadcast proof fn bl_and(x: u8, y: u8, j: u8) requires j < 8 ensures #[trigger] bb(x & y, j) == (bb(x, j) && bb(y, j))
{ lemma_and(x, y, j); }
pub broadcast proof fn bl_xor(x: u8, y: u8, j: u8) requires j < 8 ensures #[trigger] bb(x ^ y, j) == (bb(x, j) != bb(y, j))
{ assert(((x ^ y) >> j) & 1u8 == 1u8 <==> !((x >> j) & 1u8 == 1u8 <==> (y >> j) & 1u8 == 1u8)) by (bit_vector) requires j < 8; }
pub broadcast proof fn bl_not(x: u8, j: u8) requires j < 8 ensures #[trigger] bb(!x, j) == !bb(x, j)
{ assert(((!x) >> j) & 1u8 == 1u8 <==> (x >> j) & 1u8 != 1u8) by (bit_vector) requires j < 8; }
pub broadcast proof fn bl_from_max(x: u8, j: u8) requires j < 8 ensures #[trigger] bb((255u8 - x) as u8, j) == !bb(x, j)
{ assert((sub(255u8, x) >> j) & 1u8 == 1u8 <==> (x >> j) & 1u8 != 1u8) by (bit_vector) requires j < 8; }
pub broadcast proof fn bl_shl(c: u8, k: u8, j: u8) requires j < 8, k < 8, c <= 1 ensures #[trigger] bb(c << k, j) == (j == k && c == 1)
{ assert(((c << k) >> j) & 1u8 == 1u8 <==> (j == k && c == 1)) by (bit_vector) requires j < 8, k < 8, c <= 1; }
pub broadcast proof fn bl_low(k: u8, j: u8) requires j < 8, k < 8 ensures #[trigger] bb(((1u8 << k) - 1) as u8, j) == (j < k)
{
    assert((sub(1u8 << k, 1u8) >> j) & 1u8 == 1u8 <==> j < k) by (bit_vector) requires j < 8, k < 8;
    assert((1u8 << k) >= 1u8) by (bit_vector) requires k < 8;
}
pub broadcast proof fn bl_pow(k: u8) requires k < 8 ensures 1 <= #[trigger] (1u8 << k) <= 255
{ assert((1u8 << k) >= 1u8) by (bit_vector) requires k < 8; }
pub broadcast proof fn bl_const(j: u8) requires j < 8 ensures #![trigger bb(0, j)] #![trigger bb(1, j)] #![trigger bb(255, j)] !bb(0, j), bb(1, j) == (j == 0), bb(255, j)
{ assert((0u8 >> j) & 1u8 == 0 && ((1u8 >> j) & 1u8 == 1u8 <==> j == 0) && (255u8 >> j) & 1u8 == 1u8) by (bit_vector) requires j < 8; }
pub broadcast proof fn bl_test(x: u8, k: u8) requires k < 8
    ensures ((#[trigger] (x & (1u8 << k))) > 0) == bb(x, k), (x & (1u8 << k)) == (if bb(x, k) { 1u8 << k } else { 0u8 })
{
    assert((x & (1u8 << k)) > 0 <==> (x >> k) & 1u8 == 1u8) by (bit_vector) requires k < 8;
    assert((x & (1u8 << k)) == 0 || (x & (1u8 << k)) == 1u8 << k) by (bit_vector) requires k < 8;
}
pub broadcast group bitwise { bl_or, bl_and, bl_xor, bl_not, bl_from_max, bl_shl, bl_low, bl_pow, bl_const, bl_test }
pub proof fn lemma_zero(j: u8) requires j < 8 ensures !bb(0, j) { assert((0u8 >> j) & 1u8 == 0) by (bit_vector) requires j < 8; }
pub proof fn lemma_only_low(x: u8)
    requires forall|j: u8| 1 <= j < 8 ==> !bb(x, j)
    ensures (x > 0) == bb(x, 0)
{
    assert(!bb(x, 1) && !bb(x, 2) && !bb(x, 3) && !bb(x, 4) && !bb(x, 5) && !bb(x, 6) && !bb(x, 7));
    assert((x > 0) == ((x >> 0u8) & 1u8 == 1u8)) by (bit_vector)
        requires (x >> 1u8) & 1u8 != 1u8, (x >> 2u8) & 1u8 != 1u8, (x >> 3u8) & 1u8 != 1u8, (x >> 4u8) & 1u8 != 1u8, (x >> 5u8) & 1u8 != 1u8, (x >> 6u8) & 1u8 != 1u8, (x >> 7u8) & 1u8 != 1u8;
}
pub proof fn lemma_byte_ext(x: u8, y: u8)
    requires forall|j: u8| j < 8 ==> bb(x, j) == bb(y, j)
    ensures x == y
{
    assert(bb(x, 0) == bb(y, 0) && bb(x, 1) == bb(y, 1) && bb(x, 2) == bb(y, 2) && bb(x, 3) == bb(y, 3) && bb(x, 4) == bb(y, 4) && bb(x, 5) == bb(y, 5) && bb(x, 6) == bb(y, 6) && bb(x, 7) == bb(y, 7));
    assert(x == y) by (bit_vector) requires
        ((x >> 0u8) & 1u8 == 1u8) == ((y >> 0u8) & 1u8 == 1u8), ((x >> 1u8) & 1u8 == 1u8) == ((y >> 1u8) & 1u8 == 1u8),
        ((x >> 2u8) & 1u8 == 1u8) == ((y >> 2u8) & 1u8 == 1u8), ((x >> 3u8) & 1u8 == 1u8) == ((y >> 3u8) & 1u8 == 1u8),
        ((x >> 4u8) & 1u8 == 1u8) == ((y >> 4u8) & 1u8 == 1u8), ((x >> 5u8) & 1u8 == 1u8) == ((y >> 5u8) & 1u8 == 1u8),
        ((x >> 6u8) & 1u8 == 1u8) == ((y >> 6u8) & 1u8 == 1u8), ((x >> 7u8) & 1u8 == 1u8) == ((y >> 7u8) & 1u8 == 1u8);
}
pub proof fn lemma_bytes_ext(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < 8 * a.len() ==> #[trigger] bit_at(a, i) == bit_at(b, i)
    ensures a == b
{
    assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by {
        assert forall|j: u8| j < 8 implies bb(a[k], j) == bb(b[k], j) by { assert(bit_at(a, 8 * k + j) == bit_at(b, 8 * k + j)); }
        lemma_byte_ext(a[k], b[k]);
    }
    assert(a =~= b);
}
/// the bytes of a sequence of bits
pub open spec fn is_bytes(b: Seq<u8>, s: Seq<bool>) -> bool {
    b.len() == (s.len() + 7) / 8 && forall|i: int| 0 <= i < 8 * b.len() ==> #[trigger] bit_at(b, i) == (i < s.len() && s[i])
}

pub open spec fn padded(b: Seq<u8>, v: int) -> bool { b.len() == (v + 7) / 8 && forall|i: int| v <= i < 8 * b.len() ==> !#[trigger] bit_at(b, i) }
pub proof fn lemma_pop_whole(o: Seq<u8>, v: int)
    requires v >= 0, v % 8 == 0, padded(o, v + 1)
    ensures o.len() > 0, (o.last() > 0) == bit_at(o, v), padded(o.drop_last(), v), forall|i: int| 0 <= i < v ==> #[trigger] bit_at(o.drop_last(), i) == bit_at(o, i)
{
    let x = o[v / 8];
    assert forall|j: u8| 1 <= j < 8 implies !bb(x, j) by { assert(!bit_at(o, v + j)); }
    lemma_only_low(x);
    assert(bit_at(o, v) == bb(o[v / 8], 0));
}
pub proof fn lemma_pop_part(o: Seq<u8>, v: int)
    requires v >= 0, v % 8 != 0, padded(o, v + 1)
    ensures v / 8 == o.len() - 1, ({
            let x = o[v / 8]; let k = (v % 8) as u8; let n = o.update(v / 8, x & (255u8 - (1u8 << k)) as u8);
            ((x & (1u8 << k)) > 0) == bit_at(o, v) && (1u8 << k) <= 255u8 && padded(n, v) && forall|i: int| 0 <= i < v ==> #[trigger] bit_at(n, i) == bit_at(o, i)
        })
{
    let x = o[v / 8]; let k = (v % 8) as u8; let n = o.update(v / 8, x & (255u8 - (1u8 << k)) as u8);
    lemma_clear(x, k, 0);
    assert forall|i: int| 0 <= i < 8 * n.len() implies #[trigger] bit_at(n, i) == (i < v && bit_at(o, i)) by {
        lemma_clear(x, k, (i % 8) as u8);
        if i / 8 == v / 8 && i > v { assert(!bit_at(o, i)); }
        if i / 8 != v / 8 { assert(i < v); }
    }
}

//@item - | struct Bits
impl Clone for Bits {
    // derived
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { Bits { backing: self.backing.clone(), valid_bits: self.valid_bits } }
}
impl Bits {
    pub open spec fn shape(&self) -> bool { self.backing@.len() == (self.valid_bits + 7) / 8 }
    /// the padding bits are unset
    pub open spec fn wf(&self) -> bool { padded(self.backing@, self.valid_bits as int) }
    pub open spec fn view(&self) -> Seq<bool> { Seq::new(self.valid_bits as nat, |i: int| bit_at(self.backing@, i)) }

    // derived
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.wf(), r@ == Seq::<bool>::empty() { Bits { backing: Vec::new(), valid_bits: 0 } }

//@fn impl Bits | push
        requires old(self).wf(), old(self)@.len() < usize::MAX,
        ensures final(self).wf(), final(self)@ == old(self)@.push(bit),
//@rw? `u8::from(bit)` => `(if bit { 1u8 } else { 0u8 })` -- std's bool to u8
//@exit
        proof {
            broadcast use bitwise;
            let o = old(self).backing@; let v = old(self).valid_bits as int; let n = self.backing@;
            assert(n.len() == v / 8 + 1);
            assert forall|i: int| 0 <= i < 8 * n.len() implies #[trigger] bit_at(n, i) == (if i == v { bit } else { i < v && bit_at(o, i) }) by {
                let j = (i % 8) as u8;
                if i / 8 != v / 8 { assert(n[i / 8] == o[i / 8]); }
                else { assert(bb(0, j) == false); if v % 8 != 0 { assert(bb(o[v / 8], j) == bit_at(o, i)); } }
            }
            assert(self@ =~= old(self)@.push(bit));
        }
//@end
//@fn impl Bits | from_binary
        requires backing@.len() * 8 <= usize::MAX,
        ensures r.wf(), r.backing@ == backing@, r@.len() == 8 * backing@.len(), forall|i: int| 0 <= i < r@.len() ==> r@[i] == bit_at(backing@, i),
//@end
//@fn impl Bits | push_into_new
        requires self.wf(), self@.len() < usize::MAX,
        ensures r.wf(), r@ == self@.push(bit),
//@end
//@fn impl Bits | pop
        requires old(self).wf(),
        ensures final(self).wf(),
            match r { Some(b) => old(self)@.len() > 0 && b == old(self)@.last() && final(self)@ =~= old(self)@.drop_last(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ },
//@entry
        broadcast use bitwise;
        let ghost o = self.backing@; let ghost v = self.valid_bits - 1;
        proof { if v >= 0 && v % 8 == 0 { lemma_pop_whole(o, v); } }
//@tail
        proof {
            let n = self.backing@;
            if v >= 0 && v % 8 != 0 {
                assert forall|i: int| 0 <= i < 8 * n.len() implies #[trigger] bit_at(n, i) == (i < v && bit_at(o, i)) by {
                    if i / 8 != v / 8 { assert(n[i / 8] == o[i / 8]); }
                    else { assert(bb(o[v / 8], (i % 8) as u8) == bit_at(o, i)); }
                }
            }
        }
//@end
//@fn impl Bits | get_proper_bytes
        requires self.shape(),
        ensures is_bytes(r@, self@),
//@rw? `(0..interior_index).fold(0, |acc, i| acc | (1 << i))` => `{ let mut acc: u8 = 0; for i in 0..interior_index { acc = acc | (1u8 << i); } acc }` -- fold written as the loop which it is
//@loop 0
    invariant interior_index < 8, forall|j: u8| j < 8 ==> bb(acc, j) == (j < i),
//@into 0
        proof { assert forall|j: u8| j < 8 implies bb(acc | (1u8 << i), j) == (j < i + 1) by { lemma_or(acc, 1, i as u8, j); } }
//@entry
        proof { assert forall|j: u8| j < 8 implies !bb(0, j) by { lemma_zero(j); } }
//@exit
        proof {
            assert forall|i: int| 0 <= i < 8 * bytes@.len() implies #[trigger] bit_at(bytes@, i) == (i < self@.len() && self@[i]) by {
                lemma_and(self.backing@[i / 8], to_be_anded, (i % 8) as u8);
            }
        }
//@end
//@fn impl Bits | len as len
        ensures r == self@.len(),
//@end
//@fn impl Bits | is_empty
        ensures r == (self@.len() == 0),
//@end
//@fn impl Bits | clear
        ensures final(self).wf(), final(self)@ == Seq::<bool>::empty(),
//@end
//@fn impl Bits | push_many
        requires old(self).wf(), bits.wf(), old(self)@.len() + bits@.len() <= usize::MAX,
        ensures final(self).wf(), final(self)@ =~= old(self)@ + bits@,
//@rw? `bits.into()` => `vec_bool_from(bits)` -- std's Into calls the From under contract
//@iter 0 it
//@loop 0
    invariant self.wf(), it.seq() == bits@, old(self)@.len() + bits@.len() <= usize::MAX, self@ =~= old(self)@ + bits@.take(it.index()),
//@end
//@fn impl Bits | ser
        requires self.wf(),
        ensures r@ =~= bits_enc(self@),
//@rw? `size.extend(` => `size.extend_vec(` -- Vec's extend by a vector
//@exit
        proof { lemma_bytes_unique(self@); lemma_uenc_all(); }
//@end
//@fn impl Bits | deser sig `fn deser(bytes: &mut Cursor<u8>) -> (r: Result<Self, IntegerSerError>)`
        requires old(bytes).wf(),
        ensures final(bytes).wf(), final(bytes).data() == old(bytes).data(), old(bytes).pos <= final(bytes).pos,
            r is Ok ==> ({
                let rest = old(bytes).rest(); let v = ud_val(rest); let nb = (v + 7) / 8;
                &&& dec_some(rest) && 0 <= v <= usize::MAX && dec_len(rest) + nb <= rest.len()
                &&& final(bytes).pos == old(bytes).pos + dec_len(rest) + nb
                &&& r->Ok_0.wf() && r->Ok_0@ =~= Seq::new(v as nat, |i: int| bit_at(rest.subrange(dec_len(rest), dec_len(rest) + nb), i))
            }),
            ({
                let rest = old(bytes).rest(); let v = ud_val(rest); let nb = (v + 7) / 8;
                ud_canon(rest) && v <= usize::MAX && dec_len(rest) + nb <= rest.len() ==> r is Ok
            }),
//@entry
        proof { lemma_ud_read_all(bytes.rest()); }
//@rw? `bytes.read(to_be_read).map(<[u8]>::to_vec)` => `(match bytes.read(to_be_read) { Some(x) => Some(to_vec_u8(x)), None => None })` -- Option::map written out
//@end
}

//@fn impl From<Bits> for Vec<bool> | from as vec_bool_from sig `fn vec_bool_from(mut value: Bits) -> (r: Vec<bool>)`
    requires value.wf(),
    ensures r@ =~= value@,
//@loop 0
    invariant value.wf(), v@ =~= value0@.skip(value@.len() as int).reverse(), value@ =~= value0@.take(value@.len() as int), value@.len() <= value0@.len(),
    ensures value@.len() == 0,
    decreases value@.len(),
//@entry
    let ghost value0 = value;
//@exit
    proof { assert(v@ == value0@); }
//@rw `v.reverse()` => `v.reverse_vec()` -- reversing a vector in place
//@before `v.reverse_vec();`
    proof { assert(value0@.skip(0) =~= value0@); assert(value0@.reverse().reverse() =~= value0@); }
//@end

// ---- the serialised form of bits
/// the bytes of the number of a sequence of bits
pub open spec fn bytes_of(s: Seq<bool>) -> Seq<u8> { choose|b: Seq<u8>| is_bytes(b, s) }
pub open spec fn bits_enc(s: Seq<bool>) -> Seq<u8> { uenc(s.len() as int) + bytes_of(s) }
pub proof fn lemma_bytes_unique(s: Seq<bool>)
    ensures forall|b: Seq<u8>| #[trigger] is_bytes(b, s) ==> b == bytes_of(s)
{
    assert forall|b: Seq<u8>| #[trigger] is_bytes(b, s) implies b == bytes_of(s) by {
        assert(is_bytes(bytes_of(s), s));
        assert forall|i: int| 0 <= i < 8 * b.len() implies #[trigger] bit_at(b, i) == bit_at(bytes_of(s), i) by {}
        lemma_bytes_ext(b, bytes_of(s));
    }
}

/// what was written for some bits is read as the same bits, whatever follows
pub proof fn lemma_bits_round(b: Bits, rest: Seq<u8>)
    requires b.wf(), bits_enc(b@).is_prefix_of(rest)
    ensures ud_canon(rest), ud_val(rest) == b@.len(), dec_len(rest) + (b@.len() + 7) / 8 == bits_enc(b@).len() <= rest.len(),
        Seq::new(b@.len(), |i: int| bit_at(rest.subrange(dec_len(rest), dec_len(rest) + (b@.len() + 7) / 8), i)) == b@,
{
    let n = b@.len() as int;
    let i = choose|i: Integer| i.canon() && i.signed_state == SignedState::Unsigned && i.value() == n;
    lemma_pow_values(); assert(n == b.valid_bits); lemma_uenc_has(n);
    assert(is_bytes(b.backing@, b@)) by {
        assert forall|i: int| 0 <= i < 8 * b.backing@.len() implies #[trigger] bit_at(b.backing@, i) == (i < b@.len() && b@[i]) by {}
    }
    lemma_bytes_unique(b@);
    let e = bits_enc(b@); let u = uenc(n);
    assert(u.is_prefix_of(e)); assert(u.is_prefix_of(rest)) by { assert forall|k: int| 0 <= k < u.len() implies u[k] == rest[k] by { assert(e[k] == rest[k]); assert(e[k] == u[k]); } }
    lemma_ud_round(i, rest);
    let q = rest.subrange(dec_len(rest), dec_len(rest) + (n + 7) / 8);
    assert forall|k: int| 0 <= k < q.len() implies q[k] == b.backing@[k] by { assert(e[u.len() + k] == rest[u.len() + k]); assert(e[u.len() + k] == b.backing@[k]); }
    assert(q =~= b.backing@);
    assert(Seq::new(b@.len(), |i: int| bit_at(q, i)) =~= b@);
}
//@fn impl<T: AsRef<[bool]>> From<T> for Bits | from as bits_from sig `fn bits_from<T: AsRef<[bool]>>(value: T) -> (r: Bits)`
    ensures r.wf(), r@ =~= value.as_ref_spec()@,
//@iter 0 it
//@loop 0
    invariant bits.wf(), bits@ =~= value.as_ref_spec()@.take(it.index()), it.seq().len() == value.as_ref_spec()@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *it.seq()[k] == value.as_ref_spec()@[k],
        value.as_ref_spec()@.len() <= usize::MAX,
//@entry
    proof { assert(vstd::slice::spec_slice_len(value.as_ref_spec()) <= usize::MAX); }
//@end
impl Bits {
//@fn impl<T: Into<usize>> Index<T> for Bits | index sig `fn index(&self, index: usize) -> (r: &bool)`
        requires self.wf(), index < self@.len(),
        ensures *r == self@[index as int],
//@rw `static TRUE: bool = true;` => `` -- the statics are written out
//@rw `static FALSE: bool = false;` => ``
//@rw `&TRUE` => `&true`
//@rw `&FALSE` => `&false`
//@rw `let index = index.into();` => `` -- the instance for usize
//@rw `assert!(index < self.valid_bits, "attempted to get index {index} into bits length {}", self.valid_bits);` => `if !(index < self.valid_bits) { unreached::<()>() }` -- a panic, which must never be reached when the index is in range
//@exit
        proof { lemma_clear(self.backing@[index as int / 8], (index % 8) as u8, 0); }
//@end
//@fn impl PartialEq for Bits | eq as eq_
        requires self.wf(), other.wf(),
        ensures r == (self@ == other@),
//@rw `self.get_proper_bytes().eq(&other.get_proper_bytes())` => `bytes_eq(&self.get_proper_bytes(), &other.get_proper_bytes())` -- comparing vectors
//@entry
        proof { lemma_bytes_unique(self@); lemma_bytes_unique(other@);
            assert forall|b: Seq<u8>, c: Seq<u8>| self@.len() == other@.len() && #[trigger] is_bytes(b, self@) && #[trigger] is_bytes(c, other@) && b == c implies self@ == other@ by {
                assert forall|i: int| 0 <= i < self@.len() implies self@[i] == other@[i] by { assert(bit_at(b, i) == self@[i] && bit_at(c, i) == other@[i]); }
                assert(self@ =~= other@);
            }
        }
//@end
}
//@fn impl IntoIterator for Bits | into_iter as bits_into_iter sig `fn bits_into_iter(this: Bits) -> (r: Vec<bool>)`
    requires this.wf(),
    ensures r@ == this@,
//@rw `self.into()` => `vec_bool_from(this)` -- std's Into calls the From under contract
//@rw `v.into_iter()` => `v` -- a vector is iterated in order
//@end
//@fn impl FromIterator<bool> for Bits | from_iter as bits_from_iter sig `fn bits_from_iter(iter: Vec<bool>) -> (r: Bits)`
    ensures r.wf(), r@ =~= iter@,
//@iter 0 it
//@loop 0
    invariant bits.wf(), bits@ =~= iter0.take(it.index()), it.seq() == iter0, iter0.len() <= usize::MAX,
//@entry
    let ghost iter0 = iter@;
    proof { assert(iter.len() <= usize::MAX); }
//@end

/// sequences of bits one after another
pub open spec fn cat(s: Seq<Bits>) -> Seq<bool> decreases s.len() { if s.len() == 0 { seq![] } else { cat(s.drop_last()) + s.last()@ } }
pub proof fn lemma_cat_mono(s: Seq<Bits>, k: int) requires 0 <= k <= s.len() ensures cat(s.take(k)).len() <= cat(s).len() decreases s.len()
{ if k < s.len() { lemma_cat_mono(s.drop_last(), k); assert(s.drop_last().take(k) =~= s.take(k)); } else { assert(s.take(k) =~= s); } }
//@fn impl FromIterator<Bits> for Bits | from_iter as bits_from_iter_bits sig `fn bits_from_iter_bits(iter: Vec<Bits>) -> (r: Bits)`
    requires forall|k: int| 0 <= k < iter@.len() ==> (#[trigger] iter@[k]).wf(), cat(iter@).len() <= usize::MAX,
    ensures r.wf(), r@ =~= cat(iter@),
//@iter 0 it
//@loop 0
    invariant out_bits.wf(), out_bits@ =~= cat(iter0.take(it.index())), it.seq() == iter0, forall|k: int| 0 <= k < iter0.len() ==> (#[trigger] iter0[k]).wf(), cat(iter0).len() <= usize::MAX,
//@into 0
        proof { let i = it.index(); assert(iter0.take(i + 1).drop_last() =~= iter0.take(i)); assert(iter0.take(i + 1).last() == bits); lemma_cat_mono(iter0, i + 1); }
//@entry
    let ghost iter0 = iter@;
    proof { assert(iter0.take(0) =~= Seq::empty()); assert(iter0.take(iter0.len() as int) =~= iter0); }
//@end
