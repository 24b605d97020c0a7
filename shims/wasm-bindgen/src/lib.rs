//! Stands in for wasm-bindgen.  A value is what JSON.stringify makes of it (nothing, for what it makes nothing of);
//! the real one passes values through that text too.
extern crate serde;
extern crate serde_json;

#[derive(Clone, Debug, PartialEq)]
pub struct JsValue {
    text: String,
}

pub mod prelude {
    pub use JsValue;
}

fn parse(s: &str) -> Option<serde_json::Value> {
    serde_json::from_str(s).ok()
}

impl JsValue {
    /// For the tester: a value by its JSON text.
    pub fn from_text(text: &str) -> JsValue {
        JsValue { text: text.to_string() }
    }
    pub fn text(&self) -> &str {
        &self.text
    }

    pub fn from_str(s: &str) -> JsValue {
        JsValue { text: serde_json::to_string(s).unwrap() }
    }
    pub fn from_f64(n: f64) -> JsValue {
        // As JSON.stringify prints it.
        let text = if !(n - n == 0.0) { "null".to_string() }
            else if n == n.trunc() && n.abs() < 1e15 { format!("{}", n as i64) }
            else { format!("{}", n) };
        JsValue { text: text }
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue { text: b.to_string() }
    }
    pub fn undefined() -> JsValue {
        JsValue { text: String::new() }
    }
    pub fn null() -> JsValue {
        JsValue { text: "null".to_string() }
    }
    pub fn from_serde<T>(t: &T) -> serde_json::Result<JsValue>
    where
        T: serde::ser::Serialize + ?Sized,
    {
        let s = serde_json::to_string(t)?;
        Ok(JsValue { text: s })
    }
    pub fn into_serde<T>(&self) -> serde_json::Result<T>
    where
        T: for<'a> serde::de::Deserialize<'a>,
    {
        // The text lives no longer than this call.
        let s = self.text.clone();
        serde_json::from_str(&s)
    }
    pub fn as_f64(&self) -> Option<f64> { parse(&self.text).and_then(|v| v.as_f64()) }
    pub fn as_string(&self) -> Option<String> { parse(&self.text).and_then(|v| v.as_str().map(|s| s.to_string())) }
    pub fn as_bool(&self) -> Option<bool> { parse(&self.text).and_then(|v| v.as_bool()) }
    pub fn is_string(&self) -> bool { self.as_string().is_some() }
    pub fn is_null(&self) -> bool { self.text == "null" }
    pub fn is_undefined(&self) -> bool { self.text.is_empty() }
    pub fn is_object(&self) -> bool { parse(&self.text).map(|v| v.is_object() || v.is_array()).unwrap_or(false) }
    pub fn is_function(&self) -> bool { false }
    pub fn is_symbol(&self) -> bool { false }
}

impl<'a> From<&'a str> for JsValue { fn from(s: &'a str) -> JsValue { JsValue::from_str(s) } }
impl<'a> From<&'a String> for JsValue { fn from(s: &'a String) -> JsValue { JsValue::from_str(s) } }
impl From<String> for JsValue { fn from(s: String) -> JsValue { JsValue::from_str(&s) } }
impl From<bool> for JsValue { fn from(s: bool) -> JsValue { JsValue::from_bool(s) } }

macro_rules! numbers {
    ($($n:ident)*) => ($(impl From<$n> for JsValue { fn from(n: $n) -> JsValue { JsValue::from_f64(n as f64) } })*)
}
numbers! { i8 u8 i16 u16 i32 u32 f32 f64 }
