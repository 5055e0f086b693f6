mod c14;
mod c17;
mod c18;
mod c19;
mod c22;

use randomness::CryptoRng;
use test_utils::random::Seed;

/// A random source: the same seed gives the same stream.
pub fn rng(seed: u64) -> impl CryptoRng {
    test_utils::random::make_seedable_rng(Seed::from_u64(seed))
}

fn main() {
    pbt::main(&[c14::P, c17::P, c18::P, c19::P, c22::P])
}
