pub use arkshim::serialize::*;
