//! Simulated JavaScript host behind wasm-bindgen's API.
//!
//! Values live on the Rust heap (`Rc`, hence neither `Send` nor `Sync`, like the real ones).
//! Property getters and functions are closures installed by the simulator, so that user code can
//! throw or call back into the engine at the places where a real host would run it.
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use crate::closure::Closure;
    pub use crate::wasm_bindgen;
    pub use crate::JsCast;
    pub use crate::JsError;
    pub use crate::JsValue;
    pub use crate::UnwrapThrowExt;
}

#[derive(Clone)]
enum Val {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    BigInt(i128),
    Str(Rc<str>),
    Obj(Rc<host::Obj>),
}

/// A JavaScript value.
pub struct JsValue(Val);

impl Clone for JsValue {
    fn clone(&self) -> Self {
        JsValue(self.0.clone())
    }
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(Val::Undefined);
    pub const NULL: JsValue = JsValue(Val::Null);
    pub const TRUE: JsValue = JsValue(Val::Bool(true));
    pub const FALSE: JsValue = JsValue(Val::Bool(false));

    pub const fn undefined() -> JsValue {
        Self::UNDEFINED
    }
    pub const fn null() -> JsValue {
        Self::NULL
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue(Val::Str(Rc::from(s)))
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue(Val::Num(n))
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue(Val::Bool(b))
    }
    pub fn bigint_from_str(s: &str) -> JsValue {
        JsValue(Val::BigInt(s.parse().unwrap_or(0)))
    }
    pub fn symbol(s: Option<&str>) -> JsValue {
        let o = host::Obj::plain();
        o.set("description", s.map_or(JsValue::UNDEFINED, JsValue::from_str));
        JsValue(Val::Obj(Rc::new(o)))
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self.0 {
            Val::Num(n) => Some(n),
            _ => None,
        }
    }
    pub fn unchecked_into_f64(&self) -> f64 {
        self.as_f64().unwrap_or(f64::NAN)
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            Val::Str(s) => Some(s.to_string()),
            _ => None,
        }
    }
    pub fn is_string(&self) -> bool {
        matches!(self.0, Val::Str(_))
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self.0 {
            Val::Bool(b) => Some(b),
            _ => None,
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self.0, Val::Null)
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.0, Val::Undefined)
    }
    pub fn is_null_or_undefined(&self) -> bool {
        self.is_null() || self.is_undefined()
    }
    pub fn is_symbol(&self) -> bool {
        false
    }
    pub fn is_object(&self) -> bool {
        matches!(&self.0, Val::Obj(o) if !o.is_function())
    }
    pub fn is_function(&self) -> bool {
        matches!(&self.0, Val::Obj(o) if o.is_function())
    }
    pub fn is_array(&self) -> bool {
        matches!(&self.0, Val::Obj(o) if o.is_array())
    }
    pub fn is_bigint(&self) -> bool {
        matches!(self.0, Val::BigInt(_))
    }
    pub fn is_truthy(&self) -> bool {
        match &self.0 {
            Val::Undefined | Val::Null => false,
            Val::Bool(b) => *b,
            Val::Num(n) => *n != 0.0 && !n.is_nan(),
            Val::BigInt(n) => *n != 0,
            Val::Str(s) => !s.is_empty(),
            Val::Obj(_) => true,
        }
    }
    pub fn is_falsy(&self) -> bool {
        !self.is_truthy()
    }
    pub fn js_typeof(&self) -> JsValue {
        JsValue::from_str(match &self.0 {
            Val::Undefined => "undefined",
            Val::Null => "object",
            Val::Bool(_) => "boolean",
            Val::Num(_) => "number",
            Val::BigInt(_) => "bigint",
            Val::Str(_) => "string",
            Val::Obj(o) => {
                if o.is_function() {
                    "function"
                } else {
                    "object"
                }
            }
        })
    }
    pub fn js_in(&self, obj: &JsValue) -> bool {
        match (self.as_string(), obj.host_obj()) {
            (Some(k), Some(o)) => o.has(&k),
            _ => false,
        }
    }
    pub fn loose_eq(&self, other: &JsValue) -> bool {
        if self.is_null_or_undefined() && other.is_null_or_undefined() {
            return true;
        }
        if let (Some(a), Some(b)) = (self.to_number(), other.to_number()) {
            if !(self.is_object() || other.is_object()) {
                return a == b;
            }
        }
        self == other
    }
    fn to_number(&self) -> Option<f64> {
        match &self.0 {
            Val::Num(n) => Some(*n),
            Val::Bool(b) => Some(f64::from(u8::from(*b))),
            Val::Str(s) => s.trim().parse().ok(),
            Val::BigInt(n) => Some(*n as f64),
            _ => None,
        }
    }
    /// Strict equality, as the real `PartialEq` is `===`.
    fn strict_eq(&self, other: &JsValue) -> bool {
        match (&self.0, &other.0) {
            (Val::Undefined, Val::Undefined) | (Val::Null, Val::Null) => true,
            (Val::Bool(a), Val::Bool(b)) => a == b,
            (Val::Num(a), Val::Num(b)) => a == b,
            (Val::BigInt(a), Val::BigInt(b)) => a == b,
            (Val::Str(a), Val::Str(b)) => a == b,
            (Val::Obj(a), Val::Obj(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
    #[doc(hidden)]
    pub fn host_obj(&self) -> Option<&Rc<host::Obj>> {
        match &self.0 {
            Val::Obj(o) => Some(o),
            _ => None,
        }
    }
    #[doc(hidden)]
    pub fn from_host_obj(o: Rc<host::Obj>) -> JsValue {
        JsValue(Val::Obj(o))
    }
}

impl Default for JsValue {
    fn default() -> Self {
        Self::UNDEFINED
    }
}

impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            Val::Undefined => f.write_str("JsValue(undefined)"),
            Val::Null => f.write_str("JsValue(null)"),
            Val::Bool(b) => write!(f, "JsValue({b})"),
            Val::Num(n) => write!(f, "JsValue({n})"),
            Val::BigInt(n) => write!(f, "JsValue({n}n)"),
            Val::Str(s) => write!(f, "JsValue({s:?})"),
            Val::Obj(o) => write!(f, "JsValue({})", o.describe()),
        }
    }
}

impl PartialEq for JsValue {
    fn eq(&self, other: &Self) -> bool {
        self.strict_eq(other)
    }
}
impl PartialEq<bool> for JsValue {
    fn eq(&self, other: &bool) -> bool {
        self.as_bool() == Some(*other)
    }
}
impl PartialEq<str> for JsValue {
    fn eq(&self, other: &str) -> bool {
        matches!(&self.0, Val::Str(s) if &**s == other)
    }
}
impl<'a> PartialEq<&'a str> for JsValue {
    fn eq(&self, other: &&'a str) -> bool {
        <JsValue as PartialEq<str>>::eq(self, other)
    }
}
impl PartialEq<String> for JsValue {
    fn eq(&self, other: &String) -> bool {
        <JsValue as PartialEq<str>>::eq(self, other)
    }
}
impl<'a> PartialEq<&'a String> for JsValue {
    fn eq(&self, other: &&'a String) -> bool {
        <JsValue as PartialEq<str>>::eq(self, other)
    }
}

impl<'a> From<&'a str> for JsValue {
    fn from(s: &'a str) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue::from_str(&s)
    }
}
impl<'a> From<&'a String> for JsValue {
    fn from(s: &'a String) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(s: bool) -> JsValue {
        JsValue(Val::Bool(s))
    }
}
impl From<char> for JsValue {
    fn from(s: char) -> JsValue {
        JsValue::from_str(s.encode_utf8(&mut [0; 4]))
    }
}
impl<T> From<Option<T>> for JsValue
where
    JsValue: From<T>,
{
    fn from(s: Option<T>) -> JsValue {
        s.map_or(JsValue::UNDEFINED, JsValue::from)
    }
}
impl<'a, T> From<&'a T> for JsValue
where
    T: JsCast,
{
    fn from(s: &'a T) -> JsValue {
        s.as_ref().clone()
    }
}
macro_rules! num {
    ($($t:ty)*) => {$(
        impl From<$t> for JsValue { fn from(n: $t) -> JsValue { JsValue(Val::Num(n as f64)) } }
        impl PartialEq<$t> for JsValue { fn eq(&self, o: &$t) -> bool { self.as_f64() == Some(*o as f64) } }
    )*};
}
num!(i8 u8 i16 u16 i32 u32 f32 f64 usize isize);
macro_rules! big {
    ($($t:ty)*) => {$( impl From<$t> for JsValue { fn from(n: $t) -> JsValue { JsValue(Val::BigInt(n as i128)) } } )*};
}
big!(i64 u64 i128 u128);
impl TryFrom<JsValue> for f64 {
    type Error = JsValue;
    fn try_from(v: JsValue) -> Result<f64, JsValue> {
        v.to_number().ok_or(v)
    }
}
impl TryFrom<&JsValue> for f64 {
    type Error = JsValue;
    fn try_from(v: &JsValue) -> Result<f64, JsValue> {
        v.to_number().ok_or_else(|| v.clone())
    }
}
impl TryFrom<JsValue> for String {
    type Error = JsValue;
    fn try_from(v: JsValue) -> Result<String, JsValue> {
        v.as_string().ok_or(v)
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

/// Casting between host types. Every implementor is a `repr(transparent)` wrapper of `JsValue`.
pub trait JsCast
where
    Self: AsRef<JsValue> + Into<JsValue>,
{
    fn has_type<T: JsCast>(&self) -> bool {
        T::is_type_of(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if self.has_type::<T>() {
            Ok(self.unchecked_into())
        } else {
            Err(self)
        }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.has_type::<T>() {
            Some(self.unchecked_ref())
        } else {
            None
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn instanceof(val: &JsValue) -> bool;
    fn is_type_of(val: &JsValue) -> bool {
        Self::instanceof(val)
    }
    fn unchecked_from_js(val: JsValue) -> Self;
    fn unchecked_from_js_ref(val: &JsValue) -> &Self;
}

impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(val: JsValue) -> Self {
        val
    }
    fn unchecked_from_js_ref(val: &JsValue) -> &Self {
        val
    }
}

/// The panic payload of a JavaScript exception that crosses Rust frames.
pub struct JsThrow(pub String);

pub fn throw_val(v: JsValue) -> ! {
    std::panic::resume_unwind(Box::new(JsThrow(format!("{v:?}"))))
}
pub fn throw_str(s: &str) -> ! {
    std::panic::resume_unwind(Box::new(JsThrow(s.to_string())))
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T {
        self.expect_throw("unwrap_throw failed")
    }
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn expect_throw(self, m: &str) -> T {
        match self {
            Some(v) => v,
            None => throw_str(m),
        }
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn expect_throw(self, m: &str) -> T {
        match self {
            Ok(v) => v,
            Err(_) => throw_str(m),
        }
    }
}

#[derive(Clone, Debug)]
pub struct JsError {
    value: JsValue,
}
impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError { value: JsValue::from_host_obj(Rc::new(host::Obj::error(s))) }
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> Self {
        JsError::new(&e.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> JsValue {
        e.value
    }
}

pub fn intern(s: &str) -> &str {
    s
}

pub mod closure {
    /// Present so that code naming the type still compiles; nothing in the engine creates one.
    pub struct Closure<T: ?Sized>(pub std::marker::PhantomData<Box<T>>);
}

/// The simulator's side of the host.
pub mod host {
    use super::*;

    pub type Call = dyn Fn(&JsValue, &[JsValue]) -> Result<JsValue, JsValue>;
    pub type Get = dyn Fn() -> Result<JsValue, JsValue>;

    #[derive(Clone)]
    pub enum Prop {
        Value(JsValue),
        Getter(Rc<Get>),
    }

    enum Kind {
        Plain,
        Array(RefCell<Vec<JsValue>>),
        Function(Box<Call>),
        Error(String),
    }

    pub struct Obj {
        kind: Kind,
        props: RefCell<Vec<(String, Prop)>>,
    }

    impl Obj {
        fn of(kind: Kind) -> Obj {
            Obj { kind, props: RefCell::new(Vec::new()) }
        }
        pub fn plain() -> Obj {
            Obj::of(Kind::Plain)
        }
        pub fn error(s: &str) -> Obj {
            Obj::of(Kind::Error(s.to_string()))
        }
        pub fn array(v: Vec<JsValue>) -> Obj {
            Obj::of(Kind::Array(RefCell::new(v)))
        }
        pub fn function(f: Box<Call>) -> Obj {
            Obj::of(Kind::Function(f))
        }
        pub fn is_function(&self) -> bool {
            matches!(self.kind, Kind::Function(_))
        }
        pub fn is_array(&self) -> bool {
            matches!(self.kind, Kind::Array(_))
        }
        pub fn is_error(&self) -> bool {
            matches!(self.kind, Kind::Error(_))
        }
        pub fn elements(&self) -> Option<&RefCell<Vec<JsValue>>> {
            match &self.kind {
                Kind::Array(v) => Some(v),
                _ => None,
            }
        }
        pub fn call(&self, this: &JsValue, args: &[JsValue]) -> Result<JsValue, JsValue> {
            match &self.kind {
                Kind::Function(f) => f(this, args),
                _ => Err(type_error("not a function")),
            }
        }
        pub fn describe(&self) -> String {
            match &self.kind {
                Kind::Plain => "Object".into(),
                Kind::Array(v) => format!("Array({})", v.borrow().len()),
                Kind::Function(_) => "Function".into(),
                Kind::Error(s) => format!("Error: {s}"),
            }
        }
        pub fn set(&self, key: &str, v: JsValue) {
            self.define(key, Prop::Value(v));
        }
        pub fn define(&self, key: &str, p: Prop) {
            if let Some(v) = self.elements() {
                if let Ok(i) = key.parse::<usize>() {
                    let mut v = v.borrow_mut();
                    while v.len() <= i {
                        v.push(JsValue::UNDEFINED);
                    }
                    if let Prop::Value(x) = p {
                        v[i] = x;
                    }
                    return;
                }
            }
            let mut props = self.props.borrow_mut();
            match props.iter_mut().find(|(k, _)| k == key) {
                Some(slot) => slot.1 = p,
                None => props.push((key.to_string(), p)),
            }
        }
        pub fn has(&self, key: &str) -> bool {
            if let Some(v) = self.elements() {
                if key == "length" {
                    return true;
                }
                if let Ok(i) = key.parse::<usize>() {
                    return i < v.borrow().len();
                }
            }
            self.props.borrow().iter().any(|(k, _)| k == key)
        }
        pub fn delete(&self, key: &str) -> bool {
            self.props.borrow_mut().retain(|(k, _)| k != key);
            true
        }
        pub fn keys(&self) -> Vec<String> {
            let mut out: Vec<String> = match self.elements() {
                Some(v) => (0..v.borrow().len()).map(|i| i.to_string()).collect(),
                None => Vec::new(),
            };
            out.extend(self.props.borrow().iter().map(|(k, _)| k.clone()));
            out
        }
        /// Reads a property; a getter runs user code, with no borrow of this object held.
        pub fn get(&self, key: &str) -> Result<JsValue, JsValue> {
            if let Some(v) = self.elements() {
                if key == "length" {
                    return Ok(JsValue::from(v.borrow().len()));
                }
                if let Ok(i) = key.parse::<usize>() {
                    return Ok(v.borrow().get(i).cloned().unwrap_or(JsValue::UNDEFINED));
                }
            }
            if let Kind::Error(m) = &self.kind {
                if key == "message" {
                    return Ok(JsValue::from_str(m));
                }
            }
            let p = self.props.borrow().iter().find(|(k, _)| k == key).map(|(_, p)| p.clone());
            match p {
                None => Ok(JsValue::UNDEFINED),
                Some(Prop::Value(v)) => Ok(v),
                Some(Prop::Getter(g)) => g(),
            }
        }
    }

    pub fn type_error(s: &str) -> JsValue {
        JsValue::from_host_obj(Rc::new(Obj::error(&format!("TypeError: {s}"))))
    }
    pub fn object(props: Vec<(&str, Prop)>) -> JsValue {
        let o = Obj::plain();
        for (k, p) in props {
            o.define(k, p);
        }
        JsValue::from_host_obj(Rc::new(o))
    }
    pub fn function(f: impl Fn(&JsValue, &[JsValue]) -> Result<JsValue, JsValue> + 'static) -> JsValue {
        JsValue::from_host_obj(Rc::new(Obj::function(Box::new(f))))
    }
    pub fn getter(f: impl Fn() -> Result<JsValue, JsValue> + 'static) -> Prop {
        Prop::Getter(Rc::new(f))
    }
    /// Property lookup on any value, as `Reflect.get` does it (throws on non-objects).
    pub fn reflect_get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        let o = target.host_obj().ok_or_else(|| type_error("Reflect.get called on non-object"))?;
        match key.as_string() {
            Some(k) => o.get(&k),
            None => match key.as_f64() {
                Some(n) => o.get(&format!("{n}")),
                None => Ok(JsValue::UNDEFINED),
            },
        }
    }
}

/// Implements the boilerplate of a host type; used by the js-sys stand-in.
#[doc(hidden)]
#[macro_export]
macro_rules! host_type {
    ($(#[$m:meta])* $name:ident : $parent:ty, $field:ident, |$v:ident| $is:expr) => {
        $(#[$m])*
        #[repr(transparent)]
        #[derive(Clone)]
        pub struct $name { $field: $parent }
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                let v: &$crate::JsValue = self.as_ref();
                write!(f, "{}({:?})", stringify!($name), v)
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                let a: &$crate::JsValue = self.as_ref();
                let b: &$crate::JsValue = o.as_ref();
                a == b
            }
        }
        impl Eq for $name {}
        impl std::ops::Deref for $name {
            type Target = $parent;
            fn deref(&self) -> &$parent { &self.$field }
        }
        impl AsRef<$crate::JsValue> for $name {
            fn as_ref(&self) -> &$crate::JsValue { self.$field.as_ref() }
        }
        impl AsRef<$name> for $name {
            fn as_ref(&self) -> &$name { self }
        }
        impl From<$name> for $crate::JsValue {
            fn from(v: $name) -> $crate::JsValue { v.$field.into() }
        }
        impl From<$crate::JsValue> for $name {
            fn from(v: $crate::JsValue) -> $name { <$name as $crate::JsCast>::unchecked_from_js(v) }
        }
        impl $crate::JsCast for $name {
            fn instanceof($v: &$crate::JsValue) -> bool { $is }
            fn unchecked_from_js(val: $crate::JsValue) -> Self { $name { $field: val.into() } }
            fn unchecked_from_js_ref(val: &$crate::JsValue) -> &Self {
                // Sound: every host type is a transparent wrapper around JsValue.
                unsafe { &*(val as *const $crate::JsValue as *const $name) }
            }
        }
    };
}
