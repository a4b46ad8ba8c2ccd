//! Independent executable reference model: Keccak, AES-256, the NIST DRBG and NTRU round 3.
//! Nothing here uses code of the crate under test or of its dependencies.
pub mod aes;
pub mod drbg;
pub mod keccak;
pub mod ntru;
