mod c08;
mod c09;
mod c10;
mod c11;
mod c12;

use randomness::CryptoRng;
use test_utils::random::Seed;

/// A random source: the same seed gives the same stream.
pub fn rng(seed: u64) -> impl CryptoRng {
    test_utils::random::make_seedable_rng(Seed::from_u64(seed))
}

fn main() {
    pbt::main(&[c08::P, c09::P, c10::P, c11::P, c12::P])
}
