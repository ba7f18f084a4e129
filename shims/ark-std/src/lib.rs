pub use arkshim::std_::*;
pub use arkshim::{end_timer, start_timer};
