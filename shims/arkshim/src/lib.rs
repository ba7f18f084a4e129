//! Stand-in for the arkworks crates that zkenc depends on. The arkworks sources are not
//! available offline, so the harness provides the same API surface (names, trait structure,
//! encodings and evaluation semantics) with an independent implementation.
extern crate self as arkshim;
pub mod ff;
pub mod serialize;
pub mod ec;
pub mod poly;
pub mod gr1cs;
pub mod bn254;
pub mod std_ {
    pub use std::*;
    pub use rand;
    pub use num_traits::{One, Zero};
    pub use crate::ff::UniformRand;
    pub mod rand_helper {}
    pub fn test_rng() -> rand::rngs::StdRng {
        use rand::SeedableRng;
        rand::rngs::StdRng::from_seed([7u8; 32])
    }
    #[macro_export]
    macro_rules! end_timer { ($($t:tt)*) => {}; }
    #[macro_export]
    macro_rules! start_timer { ($($t:tt)*) => { () }; }
    pub fn log2(x: usize) -> u32 {
        if x == 0 { 0 } else if x.is_power_of_two() { 1usize.leading_zeros() - x.leading_zeros() }
        else { 0usize.leading_zeros() - x.leading_zeros() }
    }
}
