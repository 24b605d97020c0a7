//! Shared machinery of the monitors: workload driver, result recording, protocol helpers, an independent
//! implementation of the zero-knowledge proofs, allocation tracking.
#![allow(non_snake_case)]

pub mod blind;
pub mod capi;
pub mod ctx;
pub mod nizk;
pub mod node;
pub mod ops;
pub mod proto;
pub mod types;

pub use crate::ctx::{hex, unhex, Ctx};
pub use curve25519_dalek::constants::{RISTRETTO_BASEPOINT_COMPRESSED, RISTRETTO_BASEPOINT_POINT as G};
pub use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
pub use curve25519_dalek::scalar::Scalar;
pub use curve25519_dalek::traits::Identity;
pub use rand::{ChaChaRng, Rng, RngCore, SeedableRng};
