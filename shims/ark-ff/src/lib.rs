pub use arkshim::ff::*;
pub mod fields { pub use arkshim::ff::*; }
pub mod biginteger { pub use arkshim::ff::{BigInt, BigInteger}; }
pub use arkshim::ff::UniformRand;
