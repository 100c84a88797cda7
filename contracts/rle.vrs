//! needs core cursor integer errors
use crate::core::*;
use crate::cursor::*;
use crate::integer::*;
use crate::integer::Integer;
use crate::errors::*;
use alloc::vec;
use alloc::vec::Vec;
use vstd::std_specs::iter::IteratorSpec;
//@src crates/sourisdb/src/types/binary/rle.rs

/// what pairs of a count and a byte stand for
pub open spec fn expand(p: Seq<u8>) -> Seq<u8> decreases p.len()
{ if p.len() < 2 { seq![] } else { Seq::new(p[0] as nat, |i: int| p[1]) + expand(p.skip(2)) } }
pub proof fn lemma_expand_push(p: Seq<u8>, c: u8, b: u8)
    requires p.len() % 2 == 0
    ensures expand(p.push(c).push(b)) == expand(p) + Seq::new(c as nat, |i: int| b)
    decreases p.len()
{
    let q = p.push(c).push(b);
    if p.len() == 0 {
        assert(q.skip(2) =~= Seq::empty()); assert(expand(q.skip(2)) =~= Seq::empty()); assert(expand(p) =~= Seq::empty());
        assert(expand(q) =~= Seq::new(c as nat, |i: int| b));
        assert(expand(q) =~= expand(p) + Seq::new(c as nat, |i: int| b));
    } else {
        assert(q.skip(2) =~= p.skip(2).push(c).push(b));
        lemma_expand_push(p.skip(2), c, b);
        let h = Seq::new(p[0] as nat, |i: int| p[1]);
        assert(q[0] == p[0] && q[1] == p[1]);
        assert(expand(q) =~= h + expand(q.skip(2)));
        assert(expand(p) =~= h + expand(p.skip(2)));
        assert(expand(q) =~= expand(p) + Seq::new(c as nat, |i: int| b));
    }
}
/// an odd byte at the end stands for nothing
pub proof fn lemma_expand_odd(p: Seq<u8>, k: int)
    requires 0 <= k <= p.len(), p.len() - k < 2, k % 2 == 0
    ensures expand(p.take(k)) == expand(p)
    decreases p.len()
{
    if p.len() < 2 { assert(p.take(k).len() < 2); }
    else { lemma_expand_odd(p.skip(2), k - 2); assert(p.take(k).skip(2) =~= p.skip(2).take(k - 2)); assert(p.take(k)[0] == p[0] && p.take(k)[1] == p[1]); }
}
/// out is a run-length encoding of the bytes
pub open spec fn is_rle(out: Seq<u8>, bytes: Seq<u8>) -> bool { exists|p: Seq<u8>| #[trigger] rle_parts(out, p) && expand(p) == bytes }
pub open spec fn rle_parts(out: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= usize::MAX && out == uenc(p.len() as int) + p }
/// and is read as these bytes, whatever follows
pub proof fn lemma_rle_round(out: Seq<u8>, bytes: Seq<u8>, rest: Seq<u8>)
    requires is_rle(out, bytes), out.is_prefix_of(rest)
    ensures ud_canon(rest), ({ let v = ud_val(rest); 0 <= v <= usize::MAX && dec_len(rest) + v == out.len() && expand(rest.subrange(dec_len(rest), dec_len(rest) + v)) == bytes })
{
    let p = choose|p: Seq<u8>| #[trigger] rle_parts(out, p) && expand(p) == bytes;
    lemma_pow_values(); lemma_u_prefix(p.len() as int, p, rest);
    assert(rest.subrange(dec_len(rest), dec_len(rest) + p.len()) =~= p);
}

//@fn - | rle
    ensures is_rle(r@, bytes@),
//@rw `match iter.next().copied() {` => `match (match iter.next() { Some(x) => Some(*x), None => None }) {` -- Option::copied written out
//@rw `for byte in iter.copied() {` => `for byte in iter { let byte = *byte;` -- copying out of a slice iterator
//@rw `output.extend(&compressed)` => `output.extend_from_slice(compressed.as_slice())` -- extending by references to bytes
//@entry
    proof { lemma_uenc_all(); assert(expand(Seq::<u8>::empty()) =~= Seq::empty());
        if bytes@.len() == 0 { assert(bytes@ =~= Seq::empty()); assert(uenc(0) + Seq::<u8>::empty() =~= uenc(0)); assert(rle_parts(uenc(0), Seq::empty())); } }
//@before `for byte in iter`
            let ghost rem = iter.remaining();
            proof { assert(Seq::new(1, |i: int| current) =~= bytes@.take(1)); assert(expand(compressed@) + Seq::new(1, |i: int| current) =~= bytes@.take(1)); }
//@iter 0 it
//@loop 0
    invariant it.seq() == rem, rem.len() == bytes@.len() - 1, forall|k: int| 0 <= k < rem.len() ==> *rem[k] == bytes@[k + 1],
        compressed@.len() % 2 == 0, current_count >= 1,
        expand(compressed@) + Seq::new(current_count as nat, |i: int| current) == bytes@.take(it.index() + 1),
//@into 0
        let ghost c0 = compressed@; let ghost n0 = current_count; let ghost b0 = current; let ghost i0 = it.index();
//@endof 0
        proof {
            assert(bytes@.take(i0 + 2) =~= bytes@.take(i0 + 1).push(byte));
            let one = Seq::new(n0 as nat, |i: int| b0);
            if compressed@ == c0 { assert(Seq::new(current_count as nat, |i: int| current) =~= one.push(byte)); assert(expand(c0) + one.push(byte) =~= (expand(c0) + one).push(byte)); }
            else { lemma_expand_push(c0, n0, b0); assert(Seq::new(1, |i: int| current) =~= seq![byte]); assert((expand(c0) + one) + seq![byte] =~= (expand(c0) + one).push(byte)); }
        }
//@before `let mut output = Integer`
            proof { assert(rle_parts(uenc(compressed@.len() as int) + compressed@, compressed@)); assert(expand(compressed@) == bytes@); }
//@after `output.extend_from_slice(compressed.as_slice());`
            proof { assert(output@ =~= uenc(compressed@.len() as int) + compressed@); }
//@before `if current_count != 0`
        let ghost c1 = compressed@; proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); lemma_expand_push(c1, current_count, current); }
//@end
//@fn - | un_rle sig `fn un_rle(cursor: &mut Cursor<u8>) -> (r: Result<Vec<u8>, BinarySerError>)`
    requires old(cursor).wf(),
    ensures final(cursor).wf(), final(cursor).data() == old(cursor).data(), old(cursor).pos <= final(cursor).pos,
        ({
            let rest = old(cursor).rest(); let v = ud_val(rest);
            &&& r is Ok ==> dec_some(rest) && v <= usize::MAX && dec_len(rest) + v <= rest.len() && final(cursor).pos == old(cursor).pos + dec_len(rest) + v
                && r->Ok_0@ == expand(rest.subrange(dec_len(rest), dec_len(rest) + v))
            &&& ud_canon(rest) && v <= usize::MAX && dec_len(rest) + v <= rest.len() ==> r is Ok
        }),
//@entry
    proof { lemma_ud_read_all(cursor.rest()); }
//@rw `for (count, byte) in cursor.read(len).ok_or(BinarySerError::NotEnoughBytes)?.iter().copied().tuples() {` => `let pairs = cursor.read(len).ok_or(BinarySerError::NotEnoughBytes)?; let mut at = 0; while pairs.len() - at >= 2 { let count = pairs[at]; let byte = pairs[at + 1]; at = at + 2;` -- itertools' tuples written as the loop over pairs which it is
//@rw `(0..count).for_each(|_| output.push(byte));` => `for _n in 0..count { output.push(byte); }` -- for_each written as a loop
//@loop 0
    invariant at <= pairs@.len(), at % 2 == 0, output@ == expand(pairs@.take(at as int)),
    decreases pairs@.len() - at,
//@into 0
        let ghost o0 = output@; let ghost p0 = pairs@.take(at as int);
//@loop 1
    invariant output@ == o0 + Seq::new(_n as nat, |i: int| byte),
//@into 1
        proof { assert((o0 + Seq::new(_n as nat, |i: int| byte)).push(byte) =~= o0 + Seq::new((_n + 1) as nat, |i: int| byte)); }
//@endof 0
        proof { assert(pairs@.take(at as int) =~= p0.push(count).push(byte)); lemma_expand_push(p0, count, byte); }
//@exit
    proof { lemma_expand_odd(pairs@, at as int); let rest = old(cursor).rest(); assert(pairs@ =~= rest.subrange(dec_len(rest), dec_len(rest) + len)); }
//@end
