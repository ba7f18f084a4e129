//! Shared machinery: the seeded property runner, allocation and termination guards, and the
//! reference models (AES-GCM/CTR, big-field arithmetic, file writers).
pub mod aesref;
pub mod alloc;
pub mod bytes;
pub mod field;
pub mod formats;
pub mod runner;
pub mod scratch;

pub use bytes::Hex;
pub use proptest;
pub use proptest::prelude::{any, Just, Strategy};
pub use proptest::strategy::BoxedStrategy;
pub use runner::{Ctx, Fail, Info, Res};
pub use serde::{Deserialize, Serialize};
pub use serde_json;
