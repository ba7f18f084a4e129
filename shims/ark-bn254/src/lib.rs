pub use arkshim::bn254::*;
