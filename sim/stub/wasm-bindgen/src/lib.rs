//! Stand-in for the JavaScript engine's values.
use std::fmt;
use std::rc::Rc;

pub mod prelude {
    pub use crate::{JsCast, JsError, JsValue, UnwrapThrowExt};
    pub use wasm_bindgen_macro::wasm_bindgen;
}
pub use wasm_bindgen_macro::wasm_bindgen;

/// an imported function was called; nothing in the simulated page depends on it
pub fn imported(_name: &str) {}

#[derive(Clone, Debug, PartialEq)]
enum V {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(Rc<str>),
    /// an object of the simulated page
    Obj(u64),
}
#[derive(Clone, PartialEq)]
pub struct JsValue(V);

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(V::Undefined);
    pub const NULL: JsValue = JsValue(V::Null);
    pub const TRUE: JsValue = JsValue(V::Bool(true));
    pub const FALSE: JsValue = JsValue(V::Bool(false));
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> Self {
        JsValue(V::Str(s.into()))
    }
    pub fn from_f64(x: f64) -> Self {
        JsValue(V::Num(x))
    }
    pub fn from_bool(x: bool) -> Self {
        JsValue(V::Bool(x))
    }
    pub fn undefined() -> Self {
        Self::UNDEFINED
    }
    pub fn null() -> Self {
        Self::NULL
    }
    pub fn object(id: u64) -> Self {
        JsValue(V::Obj(id))
    }
    pub fn object_id(&self) -> Option<u64> {
        match &self.0 {
            V::Obj(i) => Some(*i),
            _ => None,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            V::Str(s) => Some(s.to_string()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match &self.0 {
            V::Num(x) => Some(*x),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match &self.0 {
            V::Bool(x) => Some(*x),
            _ => None,
        }
    }
    pub fn is_string(&self) -> bool {
        matches!(self.0, V::Str(_))
    }
    pub fn is_null(&self) -> bool {
        self.0 == V::Null
    }
    pub fn is_undefined(&self) -> bool {
        self.0 == V::Undefined
    }
    pub fn is_object(&self) -> bool {
        matches!(self.0, V::Obj(_))
    }
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JsValue({:?})", self.0)
    }
}
impl Default for JsValue {
    fn default() -> Self {
        Self::UNDEFINED
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        Self::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        Self::from_str(&s)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        Self::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(x: bool) -> Self {
        Self::from_bool(x)
    }
}
macro_rules! num {
    ($($t:ty)*) => {$(
        impl From<$t> for JsValue {
            fn from(x: $t) -> Self {
                Self::from_f64(x as f64)
            }
        }
    )*};
}
num!(i8 u8 i16 u16 i32 u32 f32 f64 usize isize);
impl PartialEq<str> for JsValue {
    fn eq(&self, o: &str) -> bool {
        matches!(&self.0, V::Str(s) if **s == *o)
    }
}
impl PartialEq<&str> for JsValue {
    fn eq(&self, o: &&str) -> bool {
        *self == **o
    }
}

#[derive(Debug, Clone)]
pub struct JsError(String);
impl JsError {
    pub fn new(s: &str) -> Self {
        JsError(s.into())
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> Self {
        JsError(e.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> Self {
        Self::from_str(&e.0)
    }
}

pub fn throw_str(s: &str) -> ! {
    panic!("{s}")
}
pub fn throw_val(s: JsValue) -> ! {
    panic!("{s:?}")
}
pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T {
        self.expect_throw("`unwrap_throw` failed")
    }
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

pub trait JsCast
where
    Self: AsRef<JsValue> + Into<JsValue>,
{
    fn has_type<T: JsCast>(&self) -> bool {
        T::is_type_of(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if self.has_type::<T>() {
            Ok(self.unchecked_into())
        } else {
            Err(self)
        }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.has_type::<T>() {
            Some(self.unchecked_ref())
        } else {
            None
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn instanceof(val: &JsValue) -> bool;
    fn is_type_of(val: &JsValue) -> bool {
        Self::instanceof(val)
    }
    fn unchecked_from_js(val: JsValue) -> Self;
    fn unchecked_from_js_ref(val: &JsValue) -> &Self;
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(val: JsValue) -> Self {
        val
    }
    fn unchecked_from_js_ref(val: &JsValue) -> &Self {
        val
    }
}

/// Declares a class of page objects.
#[macro_export]
macro_rules! js_class {
    ($name:ident, $inst:expr $(, $parent:ident)*) => {
        #[repr(transparent)]
        #[derive(Clone, Debug, PartialEq)]
        pub struct $name($crate::JsValue);
        impl $name {
            #[allow(dead_code)]
            fn obj_id(&self) -> u64 {
                self.0.object_id().expect("an object of the page")
            }
        }
        impl AsRef<$crate::JsValue> for $name {
            fn as_ref(&self) -> &$crate::JsValue {
                &self.0
            }
        }
        impl From<$name> for $crate::JsValue {
            fn from(x: $name) -> Self {
                x.0
            }
        }
        impl From<&$name> for $crate::JsValue {
            fn from(x: &$name) -> Self {
                x.0.clone()
            }
        }
        impl From<$crate::JsValue> for $name {
            fn from(x: $crate::JsValue) -> Self {
                $name(x)
            }
        }
        impl $crate::JsCast for $name {
            fn instanceof(val: &$crate::JsValue) -> bool {
                let f: fn(u64) -> bool = $inst;
                val.object_id().is_some_and(f)
            }
            fn unchecked_from_js(val: $crate::JsValue) -> Self {
                $name(val)
            }
            fn unchecked_from_js_ref(val: &$crate::JsValue) -> &Self {
                // the struct is a transparent wrapper
                unsafe { &*(val as *const $crate::JsValue as *const $name) }
            }
        }
        $(
            impl std::ops::Deref for $name {
                type Target = $parent;
                fn deref(&self) -> &$parent {
                    <$parent as $crate::JsCast>::unchecked_from_js_ref(&self.0)
                }
            }
            impl AsRef<$parent> for $name {
                fn as_ref(&self) -> &$parent {
                    self
                }
            }
        )*
    };
}
