//! Symbolic stand-in for curve25519-dalek 2.1: scalars are expression-graph nodes, points are formal linear
//! combinations.  Field and group laws are those of the real crate (prime-order group of order l).
#![allow(non_snake_case)]
pub mod constants;
pub mod ristretto;
pub mod scalar;
pub mod traits;
