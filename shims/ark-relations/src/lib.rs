pub use arkshim::gr1cs;
pub use arkshim::gr1cs::lc;
