//! Stand-in for the JavaScript built-ins.
wasm_bindgen::js_class!(Object, |_| true);
impl Object {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        wasm_bindgen::JsCast::unchecked_from_js(wasm_bindgen::JsValue::object(u64::MAX))
    }
}
