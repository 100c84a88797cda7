//! needs core integer
use crate::core::*;
use crate::integer::*;
use crate::integer::Integer;
//@src crates/sourisdb/src/utilities/huffman.rs
#[derive(Debug)]
//@item - | enum HuffmanSerError
impl vstd::std_specs::convert::FromSpecImpl<IntegerSerError> for HuffmanSerError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: IntegerSerError) -> Self { arbitrary() }
}
impl From<IntegerSerError> for HuffmanSerError {
//@fn impl From<IntegerSerError> for HuffmanSerError | from nopub
//@end
}
//@src crates/sourisdb/src/types/binary.rs
// lz4_flex's error
#[verifier::external_body]
#[derive(Debug)]
pub struct DecompressError;
#[derive(Debug)]
//@item - | enum BinarySerError
//@each t=IntegerSerError | t=DecompressError | t=HuffmanSerError
impl vstd::std_specs::convert::FromSpecImpl<${t}> for BinarySerError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: ${t}) -> Self { arbitrary() }
}
impl From<${t}> for BinarySerError {
//@fn impl From<${t}> for BinarySerError | from nopub
//@end
}
//@endeach
