//! needs core cursor integer bits errors maps huffman rle
use crate::core::*;
use crate::cursor::*;
use crate::integer::*;
use crate::integer::Integer;
use crate::bits::*;
use crate::errors::*;
use crate::huffman::*;
use crate::rle::*;
use alloc::vec;
use alloc::vec::Vec;
use vstd::std_specs::iter::IteratorSpec;
//@src crates/sourisdb/src/types/binary/lz.rs

// No slice of bytes in memory has 2^54 bytes (16 pebibytes).
#[verifier::external_body]
pub proof fn axiom_memory(s: &[u8]) ensures s@.len() <= 0x40_0000_0000_0000 {}
#[verifier::external_body]
pub fn unreachable_panic<T>() -> (r: T) requires false { unimplemented!() }

// lz4_flex: what is assumed of it is that it decompresses what it compressed, and that no byte stands for more than 255
pub uninterp spec fn lz4(x: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn compress(input: &[u8]) -> (r: Vec<u8>) ensures r@ == lz4(input@), { unimplemented!() }
#[verifier::external_body]
pub fn decompress(input: &[u8], len: usize) -> (r: Result<Vec<u8>, DecompressError>)
    ensures forall|x: Seq<u8>| #[trigger] lz4(x) == input@ && x.len() == len ==> r is Ok && r->Ok_0@ == x,
{ unimplemented!() }
#[verifier::external_body]
pub proof fn axiom_lz4(x: Seq<u8>) ensures x.len() <= 255 * lz4(x).len() {}

pub open spec fn lz_enc(x: Seq<u8>) -> Seq<u8> { if x.len() == 0 { uenc(0) } else { uenc(x.len() as int) + (uenc(lz4(x).len() as int) + lz4(x)) } }
pub open spec fn lz_fits(x: Seq<u8>) -> bool { x.len() <= usize::MAX && (x.len() > 0 ==> lz4(x).len() <= usize::MAX) }
pub open spec fn is_lz(out: Seq<u8>, x: Seq<u8>) -> bool { lz_fits(x) && out == lz_enc(x) }
//@fn - | lz
    ensures is_lz(r@, input@),
//@rw? `output.extend(` => `output.extend_vec(` -- Vec's extend by a vector
//@entry
    proof { lemma_uenc_all(); axiom_memory(input); }
//@exit
    proof { assert(output@ =~= lz_enc(input@)); }
//@end
pub proof fn lemma_lz_round(x: Seq<u8>, rest: Seq<u8>)
    requires lz_fits(x), lz_enc(x).is_prefix_of(rest)
    ensures ud_canon(rest), ud_val(rest) == x.len(), x.len() == 0 ==> dec_len(rest) == lz_enc(x).len(),
        x.len() > 0 ==> ({
            let r2 = rest.skip(dec_len(rest));
            ud_canon(r2) && ud_val(r2) == lz4(x).len() && dec_len(r2) + lz4(x).len() <= r2.len() && r2.skip(dec_len(r2)).subrange(0, lz4(x).len() as int) == lz4(x) && dec_len(rest) + dec_len(r2) + lz4(x).len() == lz_enc(x).len()
        }),
{
    lemma_pow_values();
    if x.len() == 0 { assert(uenc(0) + Seq::<u8>::empty() =~= uenc(0)); lemma_u_prefix(0, Seq::empty(), rest); }
    else {
        lemma_u_prefix(x.len() as int, uenc(lz4(x).len() as int) + lz4(x), rest);
        let r2 = rest.skip(dec_len(rest));
        lemma_u_prefix(lz4(x).len() as int, lz4(x), r2);
        assert(r2.skip(dec_len(r2)).subrange(0, lz4(x).len() as int) =~= lz4(x));
    }
}
//@fn - | un_lz sig `fn un_lz(cursor: &mut Cursor<u8>) -> (r: Result<Vec<u8>, BinarySerError>)`
    requires old(cursor).wf(),
    ensures final(cursor).wf(), final(cursor).data() == old(cursor).data(), old(cursor).pos <= final(cursor).pos,
        forall|x: Seq<u8>| #[trigger] lz_enc(x).is_prefix_of(old(cursor).rest()) && lz_fits(x) ==> r is Ok && r->Ok_0@ == x && final(cursor).pos == old(cursor).pos + lz_enc(x).len(),
//@entry
    let ghost rest = cursor.rest();
    proof {
        lemma_ud_read_all(rest); lemma_ud_read_all(rest.skip(dec_len(rest)));
        assert forall|x: Seq<u8>| #[trigger] lz_enc(x).is_prefix_of(rest) && lz_fits(x) implies ud_canon(rest) && ud_val(rest) == x.len() by { lemma_lz_round(x, rest); }
    }
//@before `let compressed_len`
    let ghost r2 = cursor.rest();
    proof { assert(r2 =~= rest.skip(dec_len(rest)));
        assert forall|x: Seq<u8>| #[trigger] lz_enc(x).is_prefix_of(rest) && lz_fits(x) implies ud_canon(r2) && ud_val(r2) == lz4(x).len() && dec_len(r2) + lz4(x).len() <= r2.len() by { lemma_lz_round(x, rest); } }
//@after `let compressed =`
    proof {
        assert forall|x: Seq<u8>| #[trigger] lz_enc(x).is_prefix_of(rest) && lz_fits(x) implies compressed@ == lz4(x) && x.len() <= 255 * lz4(x).len() && x.len() == input_len && cursor.pos == old(cursor).pos + lz_enc(x).len() by {
            lemma_lz_round(x, rest); axiom_lz4(x); assert(compressed@ =~= r2.skip(dec_len(r2)).subrange(0, lz4(x).len() as int));
        }
    }
//@before `if input_len == 0`
    proof { assert forall|x: Seq<u8>| #[trigger] lz_enc(x).is_prefix_of(rest) && lz_fits(x) && x.len() == 0 implies x == Seq::<u8>::empty() && cursor.pos == old(cursor).pos + lz_enc(x).len() by { lemma_lz_round(x, rest); assert(x =~= Seq::empty()); } }
//@end

//@src crates/sourisdb/src/types/binary/huffman.rs
pub open spec fn all_are(x: Seq<u8>, b: u8) -> bool { forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == b }
#[verifier::external_body]
pub fn all_equal(x: &[u8]) -> (r: bool) ensures r == (x@.len() == 0 || all_are(x@, x@[0])), { unimplemented!() }
// Vec::insert(0, _)
#[verifier::external_body]
pub fn insert_first(v: &mut Vec<u8>, b: u8) ensures final(v)@ == seq![b] + old(v)@, { v.insert(0, b) }
// `count` copies of a byte, as far as memory allows; memory for what was in memory is assumed to be there
#[verifier::external_body]
pub fn reserve(v: &mut Vec<u8>, n: usize) -> (r: Result<(), ()>) ensures final(v)@ == old(v)@, n <= 0x40_0000_0000_0000 ==> r is Ok, { unimplemented!() }
#[verifier::external_body]
pub fn resize(v: &mut Vec<u8>, n: usize, b: u8) requires old(v)@.len() == 0, ensures final(v)@ == Seq::new(n as nat, |i: int| b), { v.resize(n, b) }

// unwrap and expect of a Result which must be Ok
pub trait UnwrapOk<T>: Sized { spec fn fine(self) -> Option<T>; fn unwrap_ok(self) -> (r: T) requires self.fine() is Some, ensures Some(r) == self.fine(); }
impl<T, E> UnwrapOk<T> for Result<T, E> {
    open spec fn fine(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn unwrap_ok(self) -> (r: T) { match self { Ok(x) => x, Err(_) => unreachable_panic() } }
}

pub open spec fn huff_tree(out: Seq<u8>, x: Seq<u8>, n: Node<u8>, b: Bits) -> bool {
    n.height() <= MAX_TREE_DEPTH && b.wf() && out == seq![2u8] + (node_enc_u8(n) + bits_enc(b@)) && run(n, b@) == Some((x, Seq::<bool>::empty()))
}
pub open spec fn is_huff(out: Seq<u8>, x: Seq<u8>) -> bool {
    ||| x.len() == 0 && out =~= seq![0u8]
    ||| 0 < x.len() <= 0x40_0000_0000_0000 && all_are(x, x[0]) && out == seq![1u8] + (uenc(x.len() as int) + seq![x[0]])
    ||| exists|n: Node<u8>, b: Bits| #[trigger] huff_tree(out, x, n, b)
}
//@fn - | huffman as huffman_enc
    ensures is_huff(r@, input@),
//@rw `input.iter().all_equal()` => `all_equal(input)` -- itertools' all_equal
//@rw `n.insert(0, 1)` => `insert_first(&mut n, 1)` -- Vec::insert at the front
//@rw `input.iter().copied()` => `to_vec_u8(input)` -- iterating over copies of the bytes
//@rw `.expect("already checked for empty list")` => `.unwrap_ok()` -- a panic which must never be reached
//@rw? `output.extend(` => `output.extend_vec(` -- Vec's extend by a vector
//@entry
    proof { lemma_uenc_all(); axiom_memory(input); }
//@after `n.push(input[0]);`
        proof { assert(n@ =~= seq![1u8] + (uenc(input@.len() as int) + seq![input@[0]])); }
//@exit
    proof {
        assert(output@ =~= seq![2u8] + (node_enc_u8(huffman.root) + bits_enc(encoded@)));
        assert forall|k: int| 0 <= k < input@.len() implies huffman.to_bits@.contains_key(#[trigger] input@[k]) by { assert(input@.contains(input@[k])); }
        huffman.lemma_round(&huffman, input@);
        assert(huff_tree(output@, input@, huffman.root, encoded));
    }
//@end

pub proof fn lemma_huff_one(rest: Seq<u8>, x: Seq<u8>)
    requires 0 < x.len() <= 0x40_0000_0000_0000, all_are(x, x[0]), (seq![1u8] + (uenc(x.len() as int) + seq![x[0]])).is_prefix_of(rest)
    ensures rest.len() > 0, rest[0] == 1, ({ let r = rest.skip(1); ud_canon(r) && ud_val(r) == x.len() && r.len() > dec_len(r) && r[dec_len(r)] == x[0] && dec_len(r) + 2 == (seq![1u8] + (uenc(x.len() as int) + seq![x[0]])).len() && Seq::new(x.len(), |i: int| x[0]) == x })
{
    let e = seq![1u8] + (uenc(x.len() as int) + seq![x[0]]); assert(e[0] == rest[0]);
    lemma_prefix(seq![1u8], uenc(x.len() as int) + seq![x[0]], rest); lemma_pow_values();
    let r = rest.skip(1); lemma_u_prefix(x.len() as int, seq![x[0]], r);
    assert(r.skip(dec_len(r))[0] == seq![x[0]][0]);
    assert(Seq::new(x.len(), |i: int| x[0]) =~= x);
}
pub proof fn lemma_huff_tree(rest: Seq<u8>, out: Seq<u8>, x: Seq<u8>, n: Node<u8>, b: Bits)
    requires huff_tree(out, x, n, b), out.is_prefix_of(rest)
    ensures rest.len() > 0, rest[0] == 2, node_enc_u8(n).is_prefix_of(rest.skip(1)), bits_enc(b@).is_prefix_of(rest.skip(1).skip(node_enc_u8(n).len() as int)), out.len() == 1 + node_enc_u8(n).len() + bits_enc(b@).len()
{
    assert(out[0] == rest[0]); lemma_prefix(seq![2u8], node_enc_u8(n) + bits_enc(b@), rest); lemma_prefix(node_enc_u8(n), bits_enc(b@), rest.skip(1));
}
//@fn - | un_huffman sig `fn un_huffman(cursor: &mut Cursor<u8>) -> (r: Result<Vec<u8>, HuffmanSerError>)`
    requires old(cursor).wf(),
    ensures final(cursor).wf(), final(cursor).data() == old(cursor).data(), old(cursor).pos <= final(cursor).pos,
        forall|out: Seq<u8>, x: Seq<u8>| #[trigger] is_huff(out, x) && out.is_prefix_of(old(cursor).rest()) ==> r is Ok && r->Ok_0@ == x && final(cursor).pos == old(cursor).pos + out.len(),
//@rw `output.try_reserve_exact(count)` => `reserve(&mut output, count)` -- reserving memory, which is assumed to be there for what was in memory before
//@rw `output.resize(count, element)` => `resize(&mut output, count, element)` -- Vec::resize of an empty vector
//@rw `.map_err(|_| HuffmanSerError::UnableToCode)?` => `.or_unable()?` -- the error is replaced
//@entry
    let ghost rest = cursor.rest();
    proof {
        lemma_ud_read_all(rest.skip(1));
        assert forall|out: Seq<u8>, x: Seq<u8>| #[trigger] is_huff(out, x) && out.is_prefix_of(rest) implies rest.len() > 0 && (x.len() == 0 && rest[0] == 0 && out.len() == 1 || rest[0] == 1 && huff_one(rest, out, x) || rest[0] == 2 && huff_more(rest, out, x)) by {
            if x.len() == 0 && out =~= seq![0u8] { assert(out[0] == rest[0]); }
            else if 0 < x.len() <= 0x40_0000_0000_0000 && all_are(x, x[0]) && out == seq![1u8] + (uenc(x.len() as int) + seq![x[0]]) { lemma_huff_one(rest, x); }
            else { let (n, b) = choose|n: Node<u8>, b: Bits| #[trigger] huff_tree(out, x, n, b); lemma_huff_tree(rest, out, x, n, b); assert(huff_more(rest, out, x)); }
        }
    }
//@before `let count: usize`
            proof { assert(cursor.rest() =~= rest.skip(1)); }
//@before `let huffman =`
            proof { assert(cursor.rest() =~= rest.skip(1));
                assert forall|out: Seq<u8>, x: Seq<u8>| #[trigger] huff_more(rest, out, x) implies huff_node(rest.skip(1)) by {
                    let (n, b) = choose|n: Node<u8>, b: Bits| #[trigger] huff_tree(out, x, n, b) && out.is_prefix_of(rest); lemma_huff_tree(rest, out, x, n, b); assert(node_enc_u8(n).is_prefix_of(rest.skip(1)));
                } }
//@before `let bits =`
            let ghost r2 = cursor.rest(); let ghost p2 = cursor.pos;
            proof { assert(r2 =~= rest.skip(1).skip(cursor.pos - old(cursor).pos - 1));
                assert forall|out: Seq<u8>, x: Seq<u8>| #[trigger] huff_more(rest, out, x) implies huff_bits(r2, huffman.root, x, out.len() - (cursor.pos - old(cursor).pos)) && ud_canon(r2) && ud_val(r2) <= usize::MAX && dec_len(r2) + (ud_val(r2) + 7) / 8 <= r2.len() by {
                    let (n, b) = choose|n: Node<u8>, b: Bits| #[trigger] huff_tree(out, x, n, b) && out.is_prefix_of(rest); lemma_huff_tree(rest, out, x, n, b); lemma_bits_round(b, r2); assert(huff_bits_is(r2, huffman.root, x, out.len() - (cursor.pos - old(cursor).pos), b));
                } }
//@after `let bits =`
            proof {
                assert forall|out: Seq<u8>, x: Seq<u8>| #[trigger] huff_more(rest, out, x) implies run(huffman.root, bits@) == Some((x, Seq::<bool>::empty())) && cursor.pos == old(cursor).pos + out.len() by {
                    let k = out.len() - (p2 - old(cursor).pos);
                    assert(huff_bits(r2, huffman.root, x, k)); let b = choose|b: Bits| #[trigger] huff_bits_is(r2, huffman.root, x, k, b); lemma_bits_round(b, r2);
                }
            }
//@end
pub open spec fn huff_one(rest: Seq<u8>, out: Seq<u8>, x: Seq<u8>) -> bool {
    let r = rest.skip(1); 0 < x.len() <= 0x40_0000_0000_0000 && ud_canon(r) && ud_val(r) == x.len() && r.len() > dec_len(r) && r[dec_len(r)] == x[0] && dec_len(r) + 2 == out.len() && Seq::new(x.len(), |i: int| x[0]) == x
}
pub open spec fn huff_more(rest: Seq<u8>, out: Seq<u8>, x: Seq<u8>) -> bool { exists|n: Node<u8>, b: Bits| #[trigger] huff_tree(out, x, n, b) && out.is_prefix_of(rest) }
pub open spec fn huff_node(r: Seq<u8>) -> bool { exists|n: Node<u8>| #[trigger] node_enc_u8(n).is_prefix_of(r) && n.height() <= MAX_TREE_DEPTH }
pub open spec fn huff_bits(r2: Seq<u8>, root: Node<u8>, x: Seq<u8>, k: int) -> bool { exists|b: Bits| #[trigger] huff_bits_is(r2, root, x, k, b) }
pub open spec fn huff_bits_is(r2: Seq<u8>, root: Node<u8>, x: Seq<u8>, k: int, b: Bits) -> bool { b.wf() && bits_enc(b@).is_prefix_of(r2) && bits_enc(b@).len() == k && run(root, b@) == Some((x, Seq::<bool>::empty())) }
pub trait OrUnable { fn or_unable(self) -> (r: Result<(), HuffmanSerError>); }
impl OrUnable for Result<(), ()> { fn or_unable(self) -> (r: Result<(), HuffmanSerError>) ensures r is Ok == self is Ok { match self { Ok(()) => Ok(()), Err(()) => Err(HuffmanSerError::UnableToCode) } } }

//@src crates/sourisdb/src/types/binary.rs
#[derive(Copy, Clone)]
//@item - | enum BinaryCompression
//@item - | struct BinaryData
pub open spec fn comp_byte(c: BinaryCompression) -> u8 { match c { BinaryCompression::Nothing => 0, BinaryCompression::RunLengthEncoding => 1, BinaryCompression::LempelZiv => 2, BinaryCompression::Huffman => 3 } }
/// out is what some bytes are stored as with some compression
pub open spec fn is_binary(c: BinaryCompression, out: Seq<u8>, x: Seq<u8>) -> bool {
    match c {
        BinaryCompression::Nothing => x.len() <= usize::MAX && out == uenc(x.len() as int) + x,
        BinaryCompression::RunLengthEncoding => is_rle(out, x),
        BinaryCompression::LempelZiv => is_lz(out, x),
        BinaryCompression::Huffman => is_huff(out, x),
    }
}
pub trait Shortest { fn shortest(self) -> (r: (BinaryCompression, Vec<u8>)); }
impl<const N: usize> Shortest for [(BinaryCompression, Vec<u8>); N] {
    // `into_iter().min_by_key(|(_, v)| v.len()).unwrap()` of an array which is not empty
    #[verifier::external_body]
    fn shortest(self) -> (r: (BinaryCompression, Vec<u8>))
        ensures (exists|i: int| 0 <= i < N && #[trigger] self@[i] == r), forall|i: int| 0 <= i < N ==> r.1@.len() <= (#[trigger] self@[i]).1@.len(),
    { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<BinaryCompression> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: BinaryCompression) -> u8 { comp_byte(v) }
}
impl From<BinaryCompression> for u8 {
//@fn impl From<BinaryCompression> for u8 | from nopub
        ensures r == comp_byte(compression),
//@end
}
impl vstd::std_specs::convert::TryFromSpecImpl<u8> for BinaryCompression {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: u8) -> Result<Self, BinarySerError> { arbitrary() }
}
impl TryFrom<u8> for BinaryCompression {
    type Error = BinarySerError;
//@fn impl TryFrom<u8> for BinaryCompression | try_from nopub
        ensures forall|c: BinaryCompression| #[trigger] comp_byte(c) == value ==> r is Ok && r->Ok_0 == c, value > 3 ==> r is Err, r is Ok ==> comp_byte(r->Ok_0) == value,
//@end
}
impl BinaryData {
//@fn impl BinaryData | ser
        ensures is_binary(r.0, r.1@, self.0@), shortest_of(r.1@, self.0@),
//@rw `huffman(&self.0)` => `huffman_enc(&self.0)`
//@rw? `backing.extend(&self.0)` => `backing.extend_from_slice(self.0.as_slice())` -- extending by references to bytes
//@rw `.into_iter().min_by_key(|(_, v)| v.len()).unwrap()` => `.shortest()` -- an entry of the array whose bytes are shortest
//@entry
        proof { lemma_uenc_all(); assert(self.0.len() <= usize::MAX); }
//@exit
        proof { assert(vanilla@ =~= uenc(self.0@.len() as int) + self.0@); assert(all_four(vanilla@, rle@, lz@, huffman@, self.0@)); 
        }
//@end
//@fn impl BinaryData | deser sig `fn deser(compression: BinaryCompression, cursor: &mut Cursor<u8>) -> (r: Result<Self, BinarySerError>)`
        requires old(cursor).wf(),
        ensures final(cursor).wf(), final(cursor).data() == old(cursor).data(), old(cursor).pos <= final(cursor).pos,
            forall|out: Seq<u8>, x: Seq<u8>| #[trigger] is_binary(compression, out, x) && out.is_prefix_of(old(cursor).rest()) ==> r is Ok && r->Ok_0.0@ == x && final(cursor).pos == old(cursor).pos + out.len(),
//@rw `cursor.read(length).ok_or(BinarySerError::NotEnoughBytes)?.to_vec()` => `to_vec_u8(cursor.read(length).ok_or(BinarySerError::NotEnoughBytes)?)` -- copying a slice
//@entry
        let ghost rest = cursor.rest();
        proof {
            lemma_ud_read_all(rest); lemma_pow_values();
            assert forall|out: Seq<u8>, x: Seq<u8>| #[trigger] is_binary(compression, out, x) && out.is_prefix_of(rest) && compression is Nothing implies
                ud_canon(rest) && ud_val(rest) == x.len() && x.len() <= usize::MAX && dec_len(rest) + x.len() == out.len() <= rest.len() && rest.subrange(dec_len(rest), dec_len(rest) + x.len()) == x by {
                lemma_u_prefix(x.len() as int, x, rest);
                assert(rest.subrange(dec_len(rest), dec_len(rest) + x.len()) =~= x);
            }
            assert forall|out: Seq<u8>, x: Seq<u8>| #[trigger] is_binary(compression, out, x) && out.is_prefix_of(rest) && compression is RunLengthEncoding implies
                ud_canon(rest) && ({ let v = ud_val(rest); 0 <= v <= usize::MAX && dec_len(rest) + v == out.len() <= rest.len() && expand(rest.subrange(dec_len(rest), dec_len(rest) + v)) == x }) by { lemma_rle_round(out, x, rest); }
        }
//@end
}
/// the four encodings of some bytes
pub open spec fn all_four(v: Seq<u8>, r: Seq<u8>, l: Seq<u8>, h: Seq<u8>, x: Seq<u8>) -> bool {
    is_binary(BinaryCompression::Nothing, v, x) && is_rle(r, x) && is_lz(l, x) && is_huff(h, x)
}
/// out is not longer than any of them
pub open spec fn shortest_of(out: Seq<u8>, x: Seq<u8>) -> bool {
    exists|v: Seq<u8>, r: Seq<u8>, l: Seq<u8>, h: Seq<u8>| #[trigger] all_four(v, r, l, h, x) && out.len() <= v.len() && out.len() <= r.len() && out.len() <= l.len() && out.len() <= h.len()
}
