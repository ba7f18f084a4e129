use proc_macro::TokenStream;
/// Leaves the item as it is: the harness calls the exported functions through its own ABI.
#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream { item }
