//! Full-domain symbolic harnesses: each calls the real, unmodified functions of /repo's crate
//! on every value of its input types. Loops are unrolled to the 16 bytes of the widest integer,
//! and an unwinding assertion shows that no loop needs more.
#![cfg(kani)]
mod floats;
mod ints;
