//! The part of wasm-bindgen that zkenc-js uses, without the JavaScript glue.
pub use wasm_bindgen_attr_shim::wasm_bindgen;
#[derive(Clone, PartialEq)]
pub struct JsValue(Option<String>);
impl JsValue {
    pub const NULL: JsValue = JsValue(None);
    pub const UNDEFINED: JsValue = JsValue(None);
    pub fn from_str(s: &str) -> JsValue { JsValue(Some(s.to_string())) }
    pub fn as_string(&self) -> Option<String> { self.0.clone() }
    pub fn null() -> JsValue { JsValue(None) }
    pub fn undefined() -> JsValue { JsValue(None) }
}
impl From<&str> for JsValue { fn from(s: &str) -> Self { Self::from_str(s) } }
impl From<String> for JsValue { fn from(s: String) -> Self { Self(Some(s)) } }
impl From<JsError> for JsValue { fn from(e: JsError) -> Self { Self(Some(e.0)) } }
impl std::fmt::Debug for JsValue { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "JsValue({:?})", self.0) } }
#[derive(Clone, Debug)]
pub struct JsError(String);
impl JsError { pub fn new(s: &str) -> Self { Self(s.to_string()) } }
impl<E: std::error::Error> From<E> for JsError { fn from(e: E) -> Self { Self(e.to_string()) } }
pub fn throw_str(s: &str) -> ! { panic!("{}", s) }
pub mod prelude { pub use crate::{wasm_bindgen, JsError, JsValue}; }
