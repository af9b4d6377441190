//! The JavaScript interface of /repo, compiled for this machine: `js.rs` itself
//! is used as it is, over a stand-in for the crate `wasm_bindgen`.
#![allow(non_snake_case, unused_mut, unused_attributes)]
#![feature(custom_attribute)]

extern crate rand;
extern crate signal_credential;
extern crate wasm_bindgen;

#[path = "/repo/wasm/src/js.rs"]
pub mod js;
