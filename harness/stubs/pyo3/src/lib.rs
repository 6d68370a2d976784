//! Stand-in for pyo3: python objects are values of `Val`; classes are plain structs; errors carry their class only.
use std::any::Any;
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule};

pub enum Val {
    None,
    NotImplemented,
    Bool(bool),
    Int(i64),
    F32(f32),
    F64(f64),
    Str(String),
    Type(&'static str),
    List(Vec<&'static PyAny>),
    Obj(Box<dyn Any>),
}
pub struct PyAny { pub v: Val }
pub struct Py<T: 'static> { pub p: &'static PyAny, t: PhantomData<T> }
pub type PyObject = Py<PyAny>;
pub fn object(v: Val) -> &'static PyAny { Box::leak(Box::new(PyAny { v })) }
impl<T> Py<T> {
    pub fn of(p: &'static PyAny) -> Py<T> { Py { p, t: PhantomData } }
    pub fn as_ref(&self, _: Python) -> &'static PyAny { self.p }
    pub fn to_object(&self, _: Python) -> PyObject { Py::of(self.p) }
}
impl<T> Clone for Py<T> { fn clone(&self) -> Self { Py::of(self.p) } }
impl fmt::Display for PyAny {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.v { Val::Str(s) => f.write_str(s), Val::Type(s) => f.write_str(s), _ => f.write_str("?") }
    }
}
impl fmt::Debug for PyAny { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }

#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<&'py ()>);
impl<'py> Python<'py> {
    pub fn get() -> Python<'py> { Python(PhantomData) }
    #[allow(non_snake_case)]
    pub fn NotImplemented(self) -> PyObject { Py::of(object(Val::NotImplemented)) }
    #[allow(non_snake_case)]
    pub fn None(self) -> PyObject { Py::of(object(Val::None)) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { OS, Value, Type, Index, Runtime, Callback(i32) }
#[derive(Debug)]
pub struct PyErr { pub kind: Kind }
impl fmt::Display for PyErr { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl std::error::Error for PyErr {}
pub type PyResult<T> = Result<T, PyErr>;
#[derive(Debug)]
pub struct PyDowncastError;
impl From<PyDowncastError> for PyErr { fn from(_: PyDowncastError) -> PyErr { PyErr { kind: Kind::Type } } }
impl fmt::Display for PyDowncastError { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl std::error::Error for PyDowncastError {}

pub trait PyClass: 'static {}
pub struct PyCell<T>(std::cell::UnsafeCell<T>);
impl<T> PyCell<T> {
    pub fn hold(v: T) -> PyCell<T> { PyCell(std::cell::UnsafeCell::new(v)) }
    pub fn borrow(&self) -> PyRef<'_, T> { PyRef(unsafe { &*self.0.get() }) }
    pub fn borrow_mut(&self) -> PyRefMut<'_, T> { PyRefMut(unsafe { &mut *self.0.get() }) }
    pub fn try_borrow(&self) -> Result<PyRef<'_, T>, PyErr> { Ok(self.borrow()) }
}
pub struct PyRef<'a, T>(pub &'a T);
impl<'a, T> PyRef<'a, T> { pub fn py(&self) -> Python<'a> { Python::get() } }
impl<'a, T> Deref for PyRef<'a, T> { type Target = T; fn deref(&self) -> &T { self.0 } }
pub struct PyRefMut<'a, T>(&'a mut T);
impl<'a, T> Deref for PyRefMut<'a, T> { type Target = T; fn deref(&self) -> &T { self.0 } }
impl<'a, T> DerefMut for PyRefMut<'a, T> { fn deref_mut(&mut self) -> &mut T { self.0 } }

/// what an object can be cast to
pub trait PyTryFrom<'a> { fn cast(o: &'a PyAny) -> Option<&'a Self>; }
impl<'a, T: PyClass> PyTryFrom<'a> for PyCell<T> {
    fn cast(o: &'a PyAny) -> Option<&'a PyCell<T>> { match &o.v { Val::Obj(b) => b.downcast_ref(), _ => None } }
}
impl PyAny {
    pub fn downcast<'a, T: PyTryFrom<'a>>(&'a self) -> Result<&'a T, PyDowncastError> { T::cast(self).ok_or(PyDowncastError) }
    pub fn extract<'a, T: FromPyObject<'a>>(&'a self) -> PyResult<T> { T::extract(self) }
    pub fn is_none(&self) -> bool { matches!(self.v, Val::None) }
    pub fn py(&self) -> Python<'_> { Python::get() }
}
pub trait FromPyObject<'a>: Sized { fn extract(o: &'a PyAny) -> PyResult<Self>; }
fn wrong<T>() -> PyResult<T> { Err(PyErr { kind: Kind::Type }) }
impl<'a, T: PyClass + Clone> FromPyObject<'a> for T {
    fn extract(o: &'a PyAny) -> PyResult<T> { match PyCell::<T>::cast(o) { Some(c) => Ok(c.borrow().clone()), None => wrong() } }
}
impl<'a, T: PyClass> FromPyObject<'a> for PyRef<'a, T> {
    fn extract(o: &'a PyAny) -> PyResult<PyRef<'a, T>> { match PyCell::<T>::cast(o) { Some(c) => Ok(c.borrow()), None => wrong() } }
}
impl<'a> FromPyObject<'a> for String { fn extract(o: &'a PyAny) -> PyResult<String> { match &o.v { Val::Str(s) => Ok(s.clone()), _ => wrong() } } }
impl<'a> FromPyObject<'a> for &'a str { fn extract(o: &'a PyAny) -> PyResult<&'a str> { match &o.v { Val::Str(s) => Ok(s), _ => wrong() } } }
impl<'a> FromPyObject<'a> for bool { fn extract(o: &'a PyAny) -> PyResult<bool> { match &o.v { Val::Bool(s) => Ok(*s), _ => wrong() } } }
impl<'a> FromPyObject<'a> for f32 {
    fn extract(o: &'a PyAny) -> PyResult<f32> { match &o.v { Val::F32(s) => Ok(*s), Val::F64(s) => Ok(*s as f32), Val::Int(s) => Ok(*s as f32), _ => wrong() } }
}
impl<'a> FromPyObject<'a> for f64 {
    fn extract(o: &'a PyAny) -> PyResult<f64> { match &o.v { Val::F32(s) => Ok(*s as f64), Val::F64(s) => Ok(*s), Val::Int(s) => Ok(*s as f64), _ => wrong() } }
}
impl<'a, T: FromPyObject<'a>> FromPyObject<'a> for Vec<T> {
    fn extract(o: &'a PyAny) -> PyResult<Vec<T>> { match &o.v { Val::List(l) => l.iter().map(|o| T::extract(o)).collect(), _ => wrong() } }
}
macro_rules! ints { ($($t:ty),*) => { $(
impl<'a> FromPyObject<'a> for $t {
    fn extract(o: &'a PyAny) -> PyResult<$t> {
        match &o.v { Val::Int(s) => if *s == (*s as $t) as i64 { Ok(*s as $t) } else { wrong() }, _ => wrong() }
    }
}
impl IntoPy<PyObject> for $t { fn into_py(self, _: Python) -> PyObject { Py::of(object(Val::Int(self as i64))) } }
)* } }
ints!(u8, u16, u32, usize, i32, i64);

pub trait IntoPy<T> { fn into_py(self, py: Python) -> T; }
impl<T: PyClass> IntoPy<PyObject> for T { fn into_py(self, _: Python) -> PyObject { Py::of(object(Val::Obj(Box::new(PyCell::hold(self))))) } }
impl IntoPy<PyObject> for bool { fn into_py(self, _: Python) -> PyObject { Py::of(object(Val::Bool(self))) } }
impl IntoPy<PyObject> for f32 { fn into_py(self, _: Python) -> PyObject { Py::of(object(Val::F32(self))) } }
impl IntoPy<PyObject> for f64 { fn into_py(self, _: Python) -> PyObject { Py::of(object(Val::F64(self))) } }
impl IntoPy<PyObject> for String { fn into_py(self, _: Python) -> PyObject { Py::of(object(Val::Str(self))) } }
impl IntoPy<PyObject> for &str { fn into_py(self, _: Python) -> PyObject { Py::of(object(Val::Str(self.to_string()))) } }
impl IntoPy<PyObject> for PyObject { fn into_py(self, _: Python) -> PyObject { self } }
impl<T: IntoPy<PyObject>> IntoPy<PyObject> for Vec<T> {
    fn into_py(self, py: Python) -> PyObject { Py::of(object(Val::List(self.into_iter().map(|v| v.into_py(py).p).collect()))) }
}
/// the arguments of a call
pub trait Args { fn list(self) -> Vec<&'static PyAny>; }
macro_rules! args { ($($t:ident),*) => {
    #[allow(non_snake_case)]
    impl<$($t: IntoPy<PyObject>),*> Args for ($($t,)*) { fn list(self) -> Vec<&'static PyAny> { let ($($t,)*) = self; vec![$($t.into_py(Python::get()).p),*] } }
} }
args!(A);
args!(A, B);
args!(A, B, C);
args!(A, B, C, D);

pub mod types {
    pub use super::*;
    pub struct PyFunction { pub f: Box<dyn Fn(&[&'static PyAny]) -> PyResult<&'static PyAny>> }
    impl PyFunction {
        pub fn call1<A: Args>(&self, a: A) -> PyResult<&'static PyAny> { (self.f)(&a.list()) }
        pub fn py(&self) -> Python<'_> { Python::get() }
    }
    pub struct PyList { pub l: Vec<&'static PyAny> }
    impl PyList {
        pub fn iter(&self) -> impl Iterator<Item = &'static PyAny> + '_ { self.l.iter().copied() }
        pub fn len(&self) -> usize { self.l.len() }
        pub fn is_empty(&self) -> bool { self.l.is_empty() }
    }
    pub struct PyType { pub o: PyAny }
    impl Deref for PyType { type Target = PyAny; fn deref(&self) -> &PyAny { &self.o } }
    pub struct PyModule;
    impl PyModule { pub fn add_class<T: PyClass>(&self) -> PyResult<()> { Ok(()) } }
}
pub mod exceptions {
    use super::*;
    macro_rules! kinds { ($($n:ident $k:ident),*) => { $(
        pub struct $n;
        impl $n { pub fn new_err<A>(_: A) -> PyErr { PyErr { kind: Kind::$k } } }
    )* } }
    kinds!(PyOSError OS, PyIOError OS, PyValueError Value, PyTypeError Type, PyIndexError Index, PyRuntimeError Runtime);
}
pub mod basic {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum CompareOp { Lt, Le, Eq, Ne, Gt, Ge }
}
pub mod pyclass { pub use super::basic::CompareOp; }
pub mod conversion { pub use super::{FromPyObject, IntoPy}; }
pub mod prelude {
    pub use super::types::PyModule;
    pub use super::{pyclass, pyfunction, pymethods, pymodule, FromPyObject, IntoPy, Py, PyAny, PyCell, PyErr, PyObject, PyRef, PyRefMut, PyResult, Python};
}
pub use types::{PyList, PyModule, PyType};
