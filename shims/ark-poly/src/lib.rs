pub use arkshim::poly::*;
pub mod domain { pub use arkshim::poly::*; }
