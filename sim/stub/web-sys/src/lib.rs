//! Stand-in for the page: a window, a document with elements, canvases whose calls are recorded and which fail on demand.
//! One page per thread.
pub use js_sys;
pub use wasm_bindgen;
use js_sys::Object;
use sim::{page, Call, Ctx, El};
use wasm_bindgen::{JsCast, JsValue};

pub mod sim {
    use std::cell::RefCell;

    #[derive(Clone, Debug, PartialEq)]
    pub enum Ctx {
        Good,
        /// the context cannot be had
        None,
        Throws,
        /// something that is not a 2d context
        Other,
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum El {
        Canvas(Ctx),
        Other,
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum Call {
        BeginPath,
        ClosePath,
        MoveTo(f64, f64),
        LineTo(f64, f64),
        Arc(f64, f64, f64, f64, f64),
        Rect(f64, f64, f64, f64),
        Stroke,
        Fill,
        FillText(String, f64, f64),
        FillRect(f64, f64, f64, f64),
        StrokeRect(f64, f64, f64, f64),
        ClearRect(f64, f64, f64, f64),
        LineWidth(f64),
        StrokeStyle(String),
        FillStyle(String),
        TextAlign(String),
        TextBaseline(String),
        Font(String),
        Save,
        Restore,
        /// has an effect the simulated page does not model
        Other(&'static str),
    }
    pub struct Page {
        pub window: bool,
        pub document: bool,
        /// identifier, what it is; the identifier of a canvas in `calls` is its index
        pub elements: Vec<(String, El)>,
        pub calls: Vec<(usize, Call)>,
        /// this call (from 1) among those that can fail does fail, and all after it
        pub fail_at: Option<usize>,
        pub fallible: usize,
    }
    impl Page {
        pub const fn new() -> Self {
            Page { window: false, document: false, elements: vec![], calls: vec![], fail_at: None, fallible: 0 }
        }
    }
    impl Default for Page {
        fn default() -> Self {
            Self::new()
        }
    }
    thread_local! {
        static PAGE: RefCell<Page> = const { RefCell::new(Page::new()) };
    }
    pub fn page<T>(f: impl FnOnce(&mut Page) -> T) -> T {
        PAGE.with(|p| f(&mut p.borrow_mut()))
    }
    pub(crate) const WINDOW: u64 = 1;
    pub(crate) const DOCUMENT: u64 = 2;
    pub(crate) const ELEMENT: u64 = 1000;
    pub(crate) const CONTEXT: u64 = 2000;
    pub(crate) fn element(id: u64) -> Option<El> {
        if !(ELEMENT..CONTEXT).contains(&id) {
            return None;
        }
        page(|p| p.elements.get((id - ELEMENT) as usize).map(|e| e.1.clone()))
    }
    pub(crate) fn record(id: u64, c: Call) {
        page(|p| p.calls.push(((id - CONTEXT) as usize, c)))
    }
    pub(crate) fn fallible(id: u64, c: Call) -> Result<(), wasm_bindgen::JsValue> {
        page(|p| {
            p.fallible += 1;
            if p.fail_at.is_some_and(|n| p.fallible >= n) {
                return Err(wasm_bindgen::JsValue::from_str("the context is lost"));
            }
            p.calls.push(((id - CONTEXT) as usize, c));
            Ok(())
        })
    }
}

wasm_bindgen::js_class!(EventTarget, |_| true, Object);
wasm_bindgen::js_class!(Node, |i| i == sim::DOCUMENT || sim::element(i).is_some(), EventTarget);
wasm_bindgen::js_class!(Window, |i| i == sim::WINDOW, EventTarget);
wasm_bindgen::js_class!(Document, |i| i == sim::DOCUMENT, Node);
wasm_bindgen::js_class!(Element, |i| sim::element(i).is_some(), Node);
wasm_bindgen::js_class!(HtmlElement, |i| sim::element(i).is_some(), Element);
wasm_bindgen::js_class!(HtmlCanvasElement, |i| matches!(sim::element(i), Some(El::Canvas(_))), HtmlElement);
wasm_bindgen::js_class!(
    CanvasRenderingContext2d,
    |i| i >= sim::CONTEXT && matches!(sim::element(i - sim::CONTEXT + sim::ELEMENT), Some(El::Canvas(Ctx::Good))),
    Object
);

pub fn window() -> Option<Window> {
    page(|p| p.window).then(|| Window::unchecked_from_js(JsValue::object(sim::WINDOW)))
}
impl Window {
    pub fn document(&self) -> Option<Document> {
        page(|p| p.document).then(|| Document::unchecked_from_js(JsValue::object(sim::DOCUMENT)))
    }
}
impl Document {
    pub fn get_element_by_id(&self, id: &str) -> Option<Element> {
        page(|p| p.elements.iter().position(|e| e.0 == id)).map(|i| Element::unchecked_from_js(JsValue::object(sim::ELEMENT + i as u64)))
    }
    pub fn query_selector(&self, s: &str) -> Result<Option<Element>, JsValue> {
        match s.strip_prefix('#') {
            Some(id) => Ok(self.get_element_by_id(id)),
            None => Err("not simulated".into()),
        }
    }
}
impl Element {
    pub fn id(&self) -> String {
        let i = (self.0.object_id().unwrap_or(0) - sim::ELEMENT) as usize;
        page(|p| p.elements[i].0.clone())
    }
}
impl HtmlCanvasElement {
    pub fn get_context(&self, kind: &str) -> Result<Option<Object>, JsValue> {
        let i = self.obj_id();
        let El::Canvas(c) = sim::element(i).expect("an element") else { return Err("not a canvas".into()) };
        if kind != "2d" {
            return Ok(None);
        }
        match c {
            Ctx::Good => Ok(Some(Object::unchecked_from_js(JsValue::object(i - sim::ELEMENT + sim::CONTEXT)))),
            Ctx::None => Ok(None),
            Ctx::Throws => Err("InvalidStateError".into()),
            Ctx::Other => Ok(Some(Object::unchecked_from_js(JsValue::object(u64::MAX)))),
        }
    }
    pub fn width(&self) -> u32 {
        300
    }
    pub fn height(&self) -> u32 {
        150
    }
    pub fn set_width(&self, _: u32) {
        sim::record(self.obj_id() - sim::ELEMENT + sim::CONTEXT, Call::Other("set_width"));
    }
    pub fn set_height(&self, _: u32) {
        sim::record(self.obj_id() - sim::ELEMENT + sim::CONTEXT, Call::Other("set_height"));
    }
}

#[allow(clippy::too_many_arguments)]
impl CanvasRenderingContext2d {
    fn rec(&self, c: Call) {
        sim::record(self.obj_id(), c)
    }
    fn fal(&self, c: Call) -> Result<(), JsValue> {
        sim::fallible(self.obj_id(), c)
    }
    pub fn canvas(&self) -> Option<HtmlCanvasElement> {
        Some(HtmlCanvasElement::unchecked_from_js(JsValue::object(self.obj_id() - sim::CONTEXT + sim::ELEMENT)))
    }
    pub fn begin_path(&self) {
        self.rec(Call::BeginPath)
    }
    pub fn close_path(&self) {
        self.rec(Call::ClosePath)
    }
    pub fn move_to(&self, x: f64, y: f64) {
        self.rec(Call::MoveTo(x, y))
    }
    pub fn line_to(&self, x: f64, y: f64) {
        self.rec(Call::LineTo(x, y))
    }
    pub fn arc(&self, x: f64, y: f64, r: f64, a: f64, b: f64) -> Result<(), JsValue> {
        if r < 0.0 {
            return Err("IndexSizeError".into());
        }
        self.fal(Call::Arc(x, y, r, a, b))
    }
    pub fn arc_with_anticlockwise(&self, x: f64, y: f64, r: f64, a: f64, b: f64, _: bool) -> Result<(), JsValue> {
        self.arc(x, y, r, a, b)
    }
    pub fn ellipse(&self, x: f64, y: f64, rx: f64, ry: f64, _rot: f64, a: f64, b: f64) -> Result<(), JsValue> {
        if rx == ry {
            self.arc(x, y, rx, a, b)
        } else {
            self.fal(Call::Other("ellipse"))
        }
    }
    pub fn rect(&self, x: f64, y: f64, w: f64, h: f64) {
        self.rec(Call::Rect(x, y, w, h))
    }
    pub fn stroke(&self) {
        self.rec(Call::Stroke)
    }
    pub fn fill(&self) {
        self.rec(Call::Fill)
    }
    pub fn fill_text(&self, t: &str, x: f64, y: f64) -> Result<(), JsValue> {
        self.fal(Call::FillText(t.into(), x, y))
    }
    pub fn fill_text_with_max_width(&self, t: &str, x: f64, y: f64, _: f64) -> Result<(), JsValue> {
        self.fal(Call::FillText(t.into(), x, y))
    }
    pub fn stroke_text(&self, _: &str, _: f64, _: f64) -> Result<(), JsValue> {
        self.fal(Call::Other("stroke_text"))
    }
    pub fn fill_rect(&self, x: f64, y: f64, w: f64, h: f64) {
        self.rec(Call::FillRect(x, y, w, h))
    }
    pub fn stroke_rect(&self, x: f64, y: f64, w: f64, h: f64) {
        self.rec(Call::StrokeRect(x, y, w, h))
    }
    pub fn clear_rect(&self, x: f64, y: f64, w: f64, h: f64) {
        self.rec(Call::ClearRect(x, y, w, h))
    }
    pub fn set_line_width(&self, w: f64) {
        self.rec(Call::LineWidth(w))
    }
    pub fn set_stroke_style(&self, v: &JsValue) {
        self.set_stroke_style_str(&v.as_string().unwrap_or_default())
    }
    pub fn set_stroke_style_str(&self, v: &str) {
        self.rec(Call::StrokeStyle(v.into()))
    }
    pub fn set_fill_style(&self, v: &JsValue) {
        self.set_fill_style_str(&v.as_string().unwrap_or_default())
    }
    pub fn set_fill_style_str(&self, v: &str) {
        self.rec(Call::FillStyle(v.into()))
    }
    pub fn set_text_align(&self, v: &str) {
        self.rec(Call::TextAlign(v.into()))
    }
    pub fn set_text_baseline(&self, v: &str) {
        self.rec(Call::TextBaseline(v.into()))
    }
    pub fn set_font(&self, v: &str) {
        self.rec(Call::Font(v.into()))
    }
    pub fn set_line_cap(&self, _: &str) {}
    pub fn set_line_join(&self, _: &str) {}
    pub fn set_global_alpha(&self, _: f64) {
        self.rec(Call::Other("set_global_alpha"))
    }
    pub fn save(&self) {
        self.rec(Call::Save)
    }
    pub fn restore(&self) {
        self.rec(Call::Restore)
    }
    pub fn scale(&self, _: f64, _: f64) -> Result<(), JsValue> {
        self.fal(Call::Other("scale"))
    }
    pub fn translate(&self, _: f64, _: f64) -> Result<(), JsValue> {
        self.fal(Call::Other("translate"))
    }
    pub fn rotate(&self, _: f64) -> Result<(), JsValue> {
        self.fal(Call::Other("rotate"))
    }
    pub fn reset_transform(&self) -> Result<(), JsValue> {
        self.fal(Call::Other("reset_transform"))
    }
    pub fn quadratic_curve_to(&self, _: f64, _: f64, _: f64, _: f64) {
        self.rec(Call::Other("quadratic_curve_to"))
    }
    pub fn bezier_curve_to(&self, _: f64, _: f64, _: f64, _: f64, _: f64, _: f64) {
        self.rec(Call::Other("bezier_curve_to"))
    }
}

pub mod console {
    use wasm_bindgen::JsValue;
    pub fn log_1(_: &JsValue) {}
    pub fn warn_1(_: &JsValue) {}
    pub fn error_1(_: &JsValue) {}
}
