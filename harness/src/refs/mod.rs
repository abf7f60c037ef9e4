//! Reference implementations written from the standards (not from the code under test).
//! Constants are derived (roots of primes, LFSRs, field inverses) where the standard allows it, and
//! each module has a self-test against published vectors: a failing self-test is a harness error.
pub mod aes;
pub mod chacha;
pub mod curves;
pub mod hash;
