//! The part of js-sys the engine (or a plausible edit of it) uses, on the simulated host.
use wasm_bindgen::host::{self, Obj};
use wasm_bindgen::{host_type, throw_val, JsCast, JsValue};
use std::rc::Rc;

host_type!(Object: JsValue, obj, |v| v.is_object() || v.is_function());
host_type!(Array: Object, obj, |v| v.is_array());
host_type!(Function: Object, obj, |v| v.is_function());
host_type!(Error: Object, obj, |v| v.host_obj().is_some_and(|o| o.is_error()));
host_type!(JsString: Object, obj, |v| v.is_string());
host_type!(Number: Object, obj, |v| v.as_f64().is_some());
host_type!(Boolean: Object, obj, |v| v.as_bool().is_some());

fn arr(v: Vec<JsValue>) -> Array {
    JsValue::from_host_obj(Rc::new(Obj::array(v))).unchecked_into()
}
fn or_throw<T>(r: Result<T, JsValue>) -> T {
    match r {
        Ok(v) => v,
        Err(e) => throw_val(e),
    }
}
fn obj_of(v: &JsValue) -> &Rc<Obj> {
    match v.host_obj() {
        Some(o) => o,
        None => throw_val(host::type_error("Cannot convert to object")),
    }
}

impl Object {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Object {
        host::object(vec![]).unchecked_into()
    }
    /// `Object.entries`: runs getters; their exceptions propagate.
    pub fn entries(object: &Object) -> Array {
        let v: &JsValue = object.as_ref();
        if v.is_null_or_undefined() {
            throw_val(host::type_error("Cannot convert undefined or null to object"));
        }
        let Some(o) = v.host_obj() else { return arr(vec![]) };
        let mut out = Vec::new();
        for k in o.keys() {
            let x = or_throw(o.get(&k));
            out.push(arr(vec![JsValue::from_str(&k), x]).into());
        }
        arr(out)
    }
    pub fn keys(object: &Object) -> Array {
        let v: &JsValue = object.as_ref();
        if v.is_null_or_undefined() {
            throw_val(host::type_error("Cannot convert undefined or null to object"));
        }
        let Some(o) = v.host_obj() else { return arr(vec![]) };
        arr(o.keys().iter().map(|k| JsValue::from_str(k)).collect())
    }
    pub fn values(object: &Object) -> Array {
        let v: &JsValue = object.as_ref();
        let Some(o) = v.host_obj() else { return arr(vec![]) };
        let mut out = Vec::new();
        for k in o.keys() {
            out.push(or_throw(o.get(&k)));
        }
        arr(out)
    }
    pub fn is(a: &JsValue, b: &JsValue) -> bool {
        match (a.as_f64(), b.as_f64()) {
            (Some(x), Some(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
            _ => a == b,
        }
    }
    pub fn has_own_property(&self, key: &JsValue) -> bool {
        let v: &JsValue = self.as_ref();
        match (v.host_obj(), key.as_string()) {
            (Some(o), Some(k)) => o.has(&k),
            _ => false,
        }
    }
}

impl Array {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Array {
        arr(vec![])
    }
    pub fn new_with_length(n: u32) -> Array {
        arr(vec![JsValue::UNDEFINED; n as usize])
    }
    pub fn of1(a: &JsValue) -> Array {
        arr(vec![a.clone()])
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array {
        arr(vec![a.clone(), b.clone()])
    }
    pub fn is_array(v: &JsValue) -> bool {
        v.is_array()
    }
    pub fn from(v: &JsValue) -> Array {
        match v.host_obj().and_then(|o| o.elements().map(|e| e.borrow().clone())) {
            Some(e) => arr(e),
            None => arr(vec![]),
        }
    }
    pub fn get(&self, i: u32) -> JsValue {
        let v: &JsValue = self.as_ref();
        match v.host_obj() {
            Some(o) => or_throw(o.get(&i.to_string())),
            None => JsValue::UNDEFINED,
        }
    }
    pub fn at(&self, i: i32) -> JsValue {
        let n = self.length() as i32;
        let j = if i < 0 { n + i } else { i };
        if j < 0 { JsValue::UNDEFINED } else { self.get(j as u32) }
    }
    pub fn set(&self, i: u32, x: JsValue) {
        let v: &JsValue = self.as_ref();
        obj_of(v).set(&i.to_string(), x);
    }
    pub fn length(&self) -> u32 {
        let v: &JsValue = self.as_ref();
        v.host_obj().and_then(|o| o.elements().map(|e| e.borrow().len() as u32)).unwrap_or(0)
    }
    pub fn push(&self, x: &JsValue) -> u32 {
        let v: &JsValue = self.as_ref();
        if let Some(e) = v.host_obj().and_then(|o| o.elements()) {
            e.borrow_mut().push(x.clone());
        }
        self.length()
    }
    pub fn iter(&self) -> ArrayIter<'_> {
        ArrayIter { i: 0, a: self }
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.iter().collect()
    }
    pub fn for_each(&self, f: &mut dyn FnMut(JsValue, u32, Array)) {
        for i in 0..self.length() {
            f(self.get(i), i, self.clone());
        }
    }
}
pub struct ArrayIter<'a> {
    i: u32,
    a: &'a Array,
}
impl Iterator for ArrayIter<'_> {
    type Item = JsValue;
    fn next(&mut self) -> Option<JsValue> {
        if self.i < self.a.length() {
            self.i += 1;
            Some(self.a.get(self.i - 1))
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = (self.a.length() - self.i) as usize;
        (n, Some(n))
    }
}
impl ExactSizeIterator for ArrayIter<'_> {}
impl DoubleEndedIterator for ArrayIter<'_> {
    fn next_back(&mut self) -> Option<JsValue> {
        None
    }
}
pub struct ArrayIntoIter {
    i: u32,
    a: Array,
}
impl Iterator for ArrayIntoIter {
    type Item = JsValue;
    fn next(&mut self) -> Option<JsValue> {
        if self.i < self.a.length() {
            self.i += 1;
            Some(self.a.get(self.i - 1))
        } else {
            None
        }
    }
}
impl IntoIterator for Array {
    type Item = JsValue;
    type IntoIter = ArrayIntoIter;
    fn into_iter(self) -> ArrayIntoIter {
        ArrayIntoIter { i: 0, a: self }
    }
}
impl<A: AsRef<JsValue>> std::iter::FromIterator<A> for Array {
    fn from_iter<T: IntoIterator<Item = A>>(it: T) -> Array {
        arr(it.into_iter().map(|x| x.as_ref().clone()).collect())
    }
}

impl Function {
    fn invoke(&self, this: &JsValue, args: &[JsValue]) -> Result<JsValue, JsValue> {
        let v: &JsValue = self.as_ref();
        match v.host_obj() {
            Some(o) => {
                let o = o.clone();
                o.call(this, args)
            }
            None => Err(host::type_error("not a function")),
        }
    }
    pub fn call0(&self, this: &JsValue) -> Result<JsValue, JsValue> {
        self.invoke(this, &[])
    }
    pub fn call1(&self, this: &JsValue, a: &JsValue) -> Result<JsValue, JsValue> {
        self.invoke(this, &[a.clone()])
    }
    pub fn call2(&self, this: &JsValue, a: &JsValue, b: &JsValue) -> Result<JsValue, JsValue> {
        self.invoke(this, &[a.clone(), b.clone()])
    }
    pub fn call3(&self, this: &JsValue, a: &JsValue, b: &JsValue, c: &JsValue) -> Result<JsValue, JsValue> {
        self.invoke(this, &[a.clone(), b.clone(), c.clone()])
    }
    pub fn apply(&self, this: &JsValue, args: &Array) -> Result<JsValue, JsValue> {
        self.invoke(this, &args.to_vec())
    }
}

impl Error {
    pub fn new(s: &str) -> Error {
        JsValue::from_host_obj(Rc::new(Obj::error(s))).unchecked_into()
    }
}
impl Number {
    pub fn value_of(&self) -> f64 {
        let v: &JsValue = self.as_ref();
        v.as_f64().unwrap_or(f64::NAN)
    }
}
impl Boolean {
    pub fn value_of(&self) -> bool {
        let v: &JsValue = self.as_ref();
        v.as_bool().unwrap_or(false)
    }
}
impl From<&str> for JsString {
    fn from(s: &str) -> JsString {
        JsValue::from_str(s).unchecked_into()
    }
}
impl From<f64> for Number {
    fn from(n: f64) -> Number {
        JsValue::from_f64(n).unchecked_into()
    }
}


/// `Reflect`, whose methods report exceptions as `Err`.
pub struct Reflect;
impl Reflect {
    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        host::reflect_get(target, key)
    }
    pub fn get_u32(target: &JsValue, i: u32) -> Result<JsValue, JsValue> {
        host::reflect_get(target, &JsValue::from(i))
    }
    pub fn set(target: &JsValue, key: &JsValue, v: &JsValue) -> Result<bool, JsValue> {
        let o = target.host_obj().ok_or_else(|| host::type_error("Reflect.set called on non-object"))?;
        if let Some(k) = key.as_string() {
            o.set(&k, v.clone());
        }
        Ok(true)
    }
    pub fn has(target: &JsValue, key: &JsValue) -> Result<bool, JsValue> {
        let o = target.host_obj().ok_or_else(|| host::type_error("Reflect.has called on non-object"))?;
        Ok(key.as_string().is_some_and(|k| o.has(&k)))
    }
    pub fn own_keys(target: &JsValue) -> Result<Array, JsValue> {
        let o = target.host_obj().ok_or_else(|| host::type_error("Reflect.ownKeys called on non-object"))?;
        Ok(arr(o.keys().iter().map(|k| JsValue::from_str(k)).collect()))
    }
    pub fn delete_property(target: &Object, key: &JsValue) -> Result<bool, JsValue> {
        let v: &JsValue = target.as_ref();
        Ok(key.as_string().is_some_and(|k| obj_of(v).delete(&k)))
    }
}
