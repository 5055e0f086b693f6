//! Independent reference implementations used as oracles (written from the standards, sharing no code with /repo).
pub mod hashes;
pub mod secp;

pub mod bech32;
