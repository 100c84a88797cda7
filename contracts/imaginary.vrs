//! needs core cursor integer
use crate::core::*;
use crate::cursor::*;
use crate::integer::*;
use crate::integer::Integer;
use alloc::vec;
use alloc::vec::Vec;
//@src crates/sourisdb/src/types/imaginary.rs
//@item - | enum Imaginary real=>re
pub proof fn axiom_float_bytes(x: f64) ensures f64_le(x).len() == 8 { admit(); }
/// the four bits which say what kind of numbers follow
pub open spec fn magic(a: SignedState, b: SignedState) -> u8 {
    match a {
        SignedState::Unsigned => match b { SignedState::Unsigned => 1, SignedState::SignedPositive => 2, SignedState::SignedNegative => 4 },
        SignedState::SignedPositive => match b { SignedState::Unsigned => 3, SignedState::SignedPositive => 6, SignedState::SignedNegative => 7 },
        SignedState::SignedNegative => match b { SignedState::Unsigned => 5, SignedState::SignedPositive => 8, SignedState::SignedNegative => 9 },
    }
}
impl Imaginary {
    pub open spec fn wf(&self) -> bool { match self { Imaginary::CartesianForm { re, imaginary } => re.wf() && imaginary.wf(), Imaginary::PolarForm { .. } => true } }
    pub open spec fn magic(&self) -> u8 { match self { Imaginary::CartesianForm { re, imaginary } => magic(re.signed_state, imaginary.signed_state), Imaginary::PolarForm { .. } => 0 } }
    pub open spec fn enc(&self) -> Seq<u8> { match self { Imaginary::CartesianForm { re, imaginary } => re.enc() + imaginary.enc(), Imaginary::PolarForm { modulus, argument } => f64_le(*modulus) + f64_le(*argument) } }
    /// the same form with the same numbers (floats: bit for bit)
    pub open spec fn same(&self, o: &Imaginary) -> bool {
        match self {
            Imaginary::CartesianForm { re, imaginary } => o is CartesianForm && re.same(&o->re) && imaginary.same(&o->imaginary),
            Imaginary::PolarForm { modulus, argument } => o is PolarForm && f64_le(*modulus) == f64_le(o->modulus) && f64_le(*argument) == f64_le(o->argument),
        }
    }
    pub open spec fn written(&self, m: u8, rest: Seq<u8>) -> bool { self.wf() && self.magic() == m && self.enc().is_prefix_of(rest) }
//@fn impl Imaginary | ser
        requires self.wf(),
        ensures r.0 == self.magic(), r.1@ == self.enc(), r.0 <= 15,
//@rw `use SignedState::{SignedNegative as SN, SignedPositive as SP, Unsigned as U};` => `` -- the short names are written out
//@rw? `SN` => `SignedState::SignedNegative`
//@rw `real` => `re` -- a name Verus uses itself
//@rw? `SP` => `SignedState::SignedPositive`
//@rw? `U` => `SignedState::Unsigned`
//@rw? `.extend(` => `.extend_any(` -- Vec's extend
//@rw? `im_bytes.iter()` => `im_bytes.as_slice()` -- iterating over the bytes
//@end
//@fn impl Imaginary | deser sig `fn deser(magic_bits: u8, bytes: &mut Cursor<u8>) -> (r: Result<Self, IntegerSerError>)`
        requires old(bytes).wf(),
        ensures final(bytes).wf(), final(bytes).data() == old(bytes).data(), old(bytes).pos <= final(bytes).pos, r is Ok ==> r->Ok_0.wf(),
            forall|i: Imaginary| #[trigger] i.written(magic_bits, old(bytes).rest()) ==> r is Ok && r->Ok_0.same(&i) && final(bytes).pos == old(bytes).pos + i.enc().len(),
//@rw `use SignedState::{SignedNegative as SN, SignedPositive as SP, Unsigned as U};` => `` -- the short names are written out
//@rw? `SN` => `SignedState::SignedNegative`
//@rw `real` => `re` -- a name Verus uses itself
//@rw? `SP` => `SignedState::SignedPositive`
//@rw? `U` => `SignedState::Unsigned`
//@rw? `unreachable!()` => `unreached::<(SignedState, SignedState)>()` -- a panic which must never be reached
//@entry
        let ghost rest = bytes.rest();
        proof {
            if rest.len() >= 16 {
                assert(bytes.data().subrange(bytes.pos as int, bytes.pos + 8) =~= rest.subrange(0, 8));
                assert(bytes.data().subrange(bytes.pos + 8, bytes.pos + 16) =~= rest.subrange(8, 16));
            }
            assert forall|i: Imaginary| #[trigger] i.written(magic_bits, rest) implies match i {
                Imaginary::CartesianForm { re, imaginary } => cart_parts(re, imaginary, rest) && magic_bits == magic(re.signed_state, imaginary.signed_state),
                Imaginary::PolarForm { modulus, argument } => magic_bits == 0 && rest.len() >= 16 && rest.subrange(0, 8) == f64_le(modulus) && rest.subrange(8, 16) == f64_le(argument) && i.enc().len() == 16,
            } by {
                match i {
                    Imaginary::CartesianForm { re, imaginary } => { lemma_parts(re, imaginary, rest); }
                    Imaginary::PolarForm { modulus, argument } => {
                        axiom_float_bytes(modulus); axiom_float_bytes(argument);
                        let e = i.enc(); assert(rest.take(16) =~= e);
                        assert(rest.subrange(0, 8) =~= e.subrange(0, 8)); assert(e.subrange(0, 8) =~= f64_le(modulus));
                        assert(rest.subrange(8, 16) =~= e.subrange(8, 16)); assert(e.subrange(8, 16) =~= f64_le(argument));
                    }
                }
            }
        }
//@before `let imaginary =`
            proof { assert(bytes.rest() =~= rest.skip(dec_len(rest))); }
//@end
}
pub open spec fn cart_parts(a: Integer, b: Integer, rest: Seq<u8>) -> bool {
    let r2 = rest.skip(dec_len(rest));
    &&& dec_some(rest) && dec_len(rest) == a.enc().len() && (forall|r: Integer| #[trigger] r.is_dec(a.signed_state, rest) ==> r.same(&a))
    &&& dec_some(r2) && dec_len(r2) == b.enc().len() && (forall|r: Integer| #[trigger] r.is_dec(b.signed_state, r2) ==> r.same(&b))
}
pub proof fn lemma_parts(a: Integer, b: Integer, rest: Seq<u8>)
    requires a.wf(), b.wf(), (a.enc() + b.enc()).is_prefix_of(rest)
    ensures cart_parts(a, b, rest)
{
    let e = a.enc() + b.enc();
    assert(rest.take(e.len() as int) =~= e);
    assert(a.enc().is_prefix_of(rest)) by { assert(rest.take(a.enc().len() as int) =~= a.enc()) by { assert forall|k: int| 0 <= k < a.enc().len() implies rest[k] == a.enc()[k] by { assert(e[k] == rest[k]); } } }
    a.lemma_round(rest);
    let r2 = rest.skip(dec_len(rest));
    assert(b.enc().is_prefix_of(r2)) by { assert(r2.take(b.enc().len() as int) =~= b.enc()) by { assert forall|k: int| 0 <= k < b.enc().len() implies r2[k] == b.enc()[k] by { assert(e[a.enc().len() + k] == rest[a.enc().len() + k]); } } }
    b.lemma_round(r2);
}
