//! Stand-in for numpy: an array is its element type, dimensions and elements in logical order.
use pyo3::{object, Py, PyAny, PyObject, PyResult, PyTryFrom, PyType, Python, Val};
use std::marker::PhantomData;
use std::ops::{Deref, Index};

pub trait Element: Copy + 'static { const NAME: &'static str; }
macro_rules! elements { ($($t:ty: $n:expr),*) => {
    $(impl Element for $t { const NAME: &'static str = $n; })*
    fn untyped(o: &PyAny) -> Option<PyUntypedArray> {
        if let Val::Obj(b) = &o.v {
            $(if let Some(a) = b.downcast_ref::<PyArray<$t, IxDyn>>() { return Some(PyUntypedArray { dtype: PyArrayDescr::of(<$t>::NAME), shape: a.u.shape.clone() }); })*
        }
        None
    }
} }
elements!(f32: "<class 'numpy.float32'>", f64: "<class 'numpy.float64'>", u8: "<class 'numpy.uint8'>", u16: "<class 'numpy.uint16'>",
    u32: "<class 'numpy.uint32'>", bool: "<class 'numpy.bool_'>", i32: "<class 'numpy.int32'>");

pub struct PyArrayDescr { t: PyType }
impl PyArrayDescr {
    fn of(n: &'static str) -> PyArrayDescr { PyArrayDescr { t: PyType { o: PyAny { v: Val::Type(n) } } } }
    pub fn typeobj(&self) -> &PyType { &self.t }
    pub fn is_equiv_to(&self, o: &PyArrayDescr) -> bool { matches!((&self.t.o.v, &o.t.o.v), (Val::Type(a), Val::Type(b)) if a == b) }
}
pub fn dtype<'a, T: Element>(_: Python<'a>) -> &'a PyArrayDescr { Box::leak(Box::new(PyArrayDescr::of(T::NAME))) }

pub struct PyUntypedArray { dtype: PyArrayDescr, shape: Vec<usize> }
impl PyUntypedArray {
    pub fn dtype(&self) -> &PyArrayDescr { &self.dtype }
    pub fn ndim(&self) -> usize { self.shape.len() }
    pub fn shape(&self) -> &[usize] { &self.shape }
    pub fn len(&self) -> usize { self.shape.iter().product() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
}
impl<'a> PyTryFrom<'a> for PyUntypedArray { fn cast(o: &'a PyAny) -> Option<&'a PyUntypedArray> { untyped(o).map(|u| &*Box::leak(Box::new(u))) } }

#[derive(Clone)]
pub struct IxDyn(Vec<usize>);
impl Index<usize> for IxDyn { type Output = usize; fn index(&self, i: usize) -> &usize { &self.0[i] } }
pub struct Fixed;

pub struct PyArray<T, D> { u: PyUntypedArray, data: Vec<T>, d: PhantomData<D> }
pub type PyArrayDyn<T> = PyArray<T, IxDyn>;
pub type PyArray1<T> = PyArray<T, Fixed>;
impl<T, D> Deref for PyArray<T, D> { type Target = PyUntypedArray; fn deref(&self) -> &PyUntypedArray { &self.u } }
impl<'a, T: Element> PyTryFrom<'a> for PyArray<T, IxDyn> {
    fn cast(o: &'a PyAny) -> Option<&'a PyArray<T, IxDyn>> { match &o.v { Val::Obj(b) => b.downcast_ref(), _ => None } }
}
impl<T: Element> PyArray<T, Fixed> {
    pub fn from_vec<'a>(_: Python<'a>, data: Vec<T>) -> &'a PyArray<T, Fixed> {
        Box::leak(Box::new(PyArray { u: PyUntypedArray { dtype: PyArrayDescr::of(T::NAME), shape: vec![data.len()] }, data, d: PhantomData }))
    }
    pub fn from_iter<'a, I: IntoIterator<Item = T>>(py: Python<'a>, i: I) -> &'a PyArray<T, Fixed> { Self::from_vec(py, i.into_iter().collect()) }
}
/// the object python would hold
pub fn array<T: Element>(shape: Vec<usize>, data: Vec<T>) -> &'static PyAny {
    let u = PyUntypedArray { dtype: PyArrayDescr::of(T::NAME), shape };
    object(Val::Obj(Box::new(PyArray::<T, IxDyn> { u, data, d: PhantomData })))
}
/// shape and elements of an object that is an array of this type
pub fn parts<T: Element>(o: &PyAny) -> Option<(&[usize], &[T])> { PyArray::<T, IxDyn>::cast(o).map(|a| (&a.u.shape[..], &a.data[..])) }
impl<T: Element, D> PyArray<T, D> {
    pub fn reshape<const N: usize>(&self, s: [usize; N]) -> PyResult<&PyArray<T, Fixed>> {
        if s.iter().product::<usize>() != self.data.len() {
            return Err(pyo3::PyErr { kind: pyo3::Kind::Value });
        }
        let u = PyUntypedArray { dtype: PyArrayDescr::of(T::NAME), shape: s.to_vec() };
        Ok(Box::leak(Box::new(PyArray { u, data: self.data.clone(), d: PhantomData })))
    }
    pub fn dims(&self) -> IxDyn { IxDyn(self.u.shape.clone()) }
    pub fn readonly(&self) -> PyReadonlyArray<'_, T> { PyReadonlyArray(&self.data) }
    pub fn to_vec(&self) -> PyResult<Vec<T>> { Ok(self.data.clone()) }
}
impl<T: Element, D> From<&PyArray<T, D>> for PyObject {
    fn from(a: &PyArray<T, D>) -> PyObject { Py::of(array(a.u.shape.clone(), a.data.clone())) }
}
pub struct PyReadonlyArray<'a, T>(&'a [T]);
impl<'a, T: Element> PyReadonlyArray<'a, T> { pub fn as_array(&self) -> ArrayView<'a, T> { ArrayView(self.0) } }
pub struct ArrayView<'a, T>(&'a [T]);
impl<'a, T> ArrayView<'a, T> { pub fn iter(&self) -> std::slice::Iter<'a, T> { self.0.iter() } }
