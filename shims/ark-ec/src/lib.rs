pub use arkshim::ec::*;
pub mod short_weierstrass { pub use arkshim::bn254::{Aff as Affine, Jac as Projective}; }
