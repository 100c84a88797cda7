// What is assumed about the standard library beyond vstd.

global size_of usize == 8;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(core::array::TryFromSliceError);

// std's AsRef, of which it is assumed that as_ref always gives the same answer
pub trait AsRef<T: ?Sized> {
    spec fn as_ref_spec(&self) -> &T;
    fn as_ref(&self) -> (r: &T)
        ensures r == self.as_ref_spec();
}

// `(&slice).try_into().ok()` to an array of N: the array is there exactly when the lengths agree
#[verifier::external_body]
pub fn slice_to_array<'a, T, const N: usize>(s: &'a [T]) -> (r: Option<&'a [T; N]>)
    ensures r is Some == (s@.len() == N), r is Some ==> r->0@ == s@,
{ s.try_into().ok() }

#[verifier::external_type_specification]
pub struct ExSeekFrom(std::io::SeekFrom);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

#[verifier::external_body]
pub fn io_error() -> std::io::Error { unimplemented!() }

pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });

// `==` of byte slices, arrays and vectors
#[verifier::external_body]
pub fn bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@), { a == b }

// Vec's `extend` by another vector: the elements are appended in order
pub trait ExtendVec<T> {
    fn extend_vec(&mut self, other: Vec<T>);
    fn reverse_vec(&mut self);
}
impl<T> ExtendVec<T> for Vec<T> {
    #[verifier::external_body]
    fn extend_vec(&mut self, other: Vec<T>) ensures final(self)@ == old(self)@ + other@, { self.extend(other) }
    #[verifier::external_body]
    fn reverse_vec(&mut self) ensures final(self)@ == old(self)@.reverse(), { self.reverse() }
}
#[verifier::external_body]
pub fn to_vec_u8(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@, { s.to_vec() }
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned::<T>(s@[i], #[trigger] r@[i]);
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == (a + b - 1) / (b as int);
// `extend` by vectors, slices and arrays of bytes: they are appended
pub trait ExtendAny<A> { fn extend_any(&mut self, a: A); }
impl ExtendAny<Vec<u8>> for Vec<u8> {
    #[verifier::external_body]
    fn extend_any(&mut self, a: Vec<u8>) ensures final(self)@ == old(self)@ + a@, final(self)@.skip(old(self)@.len() as int) == a@, { self.extend(a) }
}
impl<'a> ExtendAny<&'a [u8]> for Vec<u8> {
    #[verifier::external_body]
    fn extend_any(&mut self, a: &'a [u8]) ensures final(self)@ == old(self)@ + a@, final(self)@.skip(old(self)@.len() as int) == a@, { self.extend(a) }
}
impl<const N: usize> ExtendAny<[u8; N]> for Vec<u8> {
    #[verifier::external_body]
    fn extend_any(&mut self, a: [u8; N]) ensures final(self)@ == old(self)@ + a@, final(self)@.skip(old(self)@.len() as int) == a@, { self.extend(a) }
}
// floating point numbers are their bytes
pub uninterp spec fn f64_le(x: f64) -> Seq<u8>;
pub uninterp spec fn f32_le(x: f32) -> Seq<u8>;
pub assume_specification[ f64::to_le_bytes ](x: f64) -> (r: [u8; 8]) ensures r@ == f64_le(x);
pub assume_specification[ f64::from_le_bytes ](b: [u8; 8]) -> (r: f64) ensures f64_le(r) == b@;
pub assume_specification[ f32::to_le_bytes ](x: f32) -> (r: [u8; 4]) ensures r@ == f32_le(x);
pub assume_specification[ f32::from_le_bytes ](b: [u8; 4]) -> (r: f32) ensures f32_le(r) == b@;
