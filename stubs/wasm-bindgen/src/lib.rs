//! `#[wasm_bindgen]` leaves things as they are.
pub mod prelude {
    pub use wasm_bindgen_macro_stub::wasm_bindgen;
}
pub use wasm_bindgen_macro_stub::wasm_bindgen;
