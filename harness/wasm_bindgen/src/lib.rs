//! A stand-in for `wasm_bindgen` which runs on this machine.  A `JsValue` holds
//! the JSON text of the value; `from_serde()` and `into_serde()` go through
//! JSON, as they do in the original (which is documented to use
//! `JSON.stringify()` and `JSON.parse()`).

use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq)]
pub struct JsValue {
    /// `None` is `undefined`, which has no JSON form.
    pub json: Option<String>,
}

pub mod prelude {
    pub use crate::JsValue;
}

impl JsValue {
    pub const NULL_JSON: &'static str = "null";

    pub fn from_json(s: &str) -> JsValue {
        JsValue { json: Some(s.to_string()) }
    }
    pub fn from_serde<T: ?Sized + Serialize>(t: &T) -> serde_json::Result<JsValue> {
        Ok(JsValue { json: Some(serde_json::to_string(t)?) })
    }
    pub fn into_serde<T>(&self) -> serde_json::Result<T>
    where
        T: for<'a> Deserialize<'a>,
    {
        // JSON.stringify(undefined) is undefined, which is treated as "null".
        let s = match self.json {
            Some(ref s) => s.as_str(),
            None => "null",
        };
        serde_json::from_str(s)
    }
    pub fn from_str(s: &str) -> JsValue { JsValue::from(s) }
    pub fn from_f64(n: f64) -> JsValue { JsValue::from(n) }
    pub fn from_bool(b: bool) -> JsValue { JsValue::from(b) }
    pub fn undefined() -> JsValue { JsValue { json: None } }
    pub fn null() -> JsValue { JsValue::from_json("null") }
    fn value(&self) -> Option<serde_json::Value> {
        self.json.as_ref().and_then(|s| serde_json::from_str(s).ok())
    }
    pub fn as_f64(&self) -> Option<f64> { self.value().and_then(|v| v.as_f64()) }
    pub fn as_bool(&self) -> Option<bool> { self.value().and_then(|v| v.as_bool()) }
    pub fn as_string(&self) -> Option<String> {
        self.value().and_then(|v| v.as_str().map(|s| s.to_string()))
    }
    pub fn is_null(&self) -> bool { self.json.as_ref().map(|s| s == "null").unwrap_or(false) }
    pub fn is_undefined(&self) -> bool { self.json.is_none() }
    pub fn is_string(&self) -> bool { self.as_string().is_some() }
    pub fn is_object(&self) -> bool { self.value().map(|v| v.is_object() || v.is_array()).unwrap_or(false) }
}

impl<'a> From<&'a str> for JsValue {
    fn from(s: &'a str) -> JsValue { JsValue { json: Some(serde_json::to_string(s).unwrap()) } }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue { JsValue::from(&s[..]) }
}
impl From<bool> for JsValue {
    fn from(s: bool) -> JsValue { JsValue { json: Some(s.to_string()) } }
}

macro_rules! numbers {
    ($($t:ty)*) => {$(
        impl From<$t> for JsValue {
            fn from(n: $t) -> JsValue { JsValue { json: Some(format!("{}", n)) } }
        }
    )*}
}
numbers!(i8 u8 i16 u16 i32 u32 f32 f64);
