//! Generators of chain objects, and their encoding written a second time.

pub mod enc;
pub mod make;
