//! C27 images as numpy arrays
use crate::hx::{any, eq, opt, py, sized};
use crate::image::Image;
use crate::util::*;
use ::d10::{illuminant::D65, observer::O2, Color, Hsl, Hsv, Image as D10, Lab, Lch, PixelBuffer, Rgb, Srgb, Xyz, Yuv};
use pyo3::*;

type L = Lab<D65, O2>;
type C = Lch<D65, O2>;
const SPACES: [&str; 17] = ["rgba", "rgb", "srgba", "srgb", "hsla", "hsl", "hsva", "hsv", "yuva", "yuv", "xyza", "xyz", "laba", "lab", "lcha", "lch", "gray"];
/// the values of a colour in a space
fn values(k: u32, c: &Rgb) -> Vec<f32> {
    let d = match k / 2 {
        0 => c.data,
        1 => c.to_srgb().data,
        2 => c.to_hsl().data,
        3 => c.to_hsv().data,
        4 => c.to_yuv().data,
        5 => c.to_xyz().data,
        6 => c.to_lab::<D65, O2>().data,
        7 => c.to_lch::<D65, O2>().data,
        _ => return vec![c.to_gray().red()],
    };
    d[..if k % 2 == 0 { 4 } else { 3 }].to_vec()
}
/// the colour with these values in a space; four values may be named without the alpha
fn color(k: u32, v: &[f32]) -> Rgb {
    let a = if v.len() == 4 { v[3] } else { 1.0 };
    if v.len() == 1 {
        return Rgb { data: [v[0], v[0], v[0], 1.0] };
    }
    match k / 2 {
        0 => Rgb::new_with_alpha(v[0], v[1], v[2], a),
        1 => Srgb::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        2 => Hsl::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        3 => Hsv::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        4 => Yuv::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        5 => Xyz::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        6 => L::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        _ => C::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
    }
}
fn wide() -> (u32, u32) { if any(1) == 0 { (2, 1) } else { (1, 2) } }
fn bad(r: &PyResult<impl Sized>) { nd::check(matches!(r, Err(PyErr { kind: Kind::OS | Kind::Type | Kind::Value })), "an error is expected") }
fn text(s: &str) -> &'static PyAny { object(Val::Str(s.to_string())) }
/// the type of the elements, by name or by class
fn dtype(name: &'static str, class: &'static str) -> Option<&'static PyAny> { Some(if any(1) == 0 { text(name) } else { object(Val::Type(class)) }) }
fn wants<T: numpy::Element>(o: PyResult<Py<PyAny>>, shape: [usize; 3], ok: impl Fn(usize, T) -> bool) {
    match o {
        Ok(o) => match numpy::parts::<T>(o.p) {
            Some((s, d)) => {
                nd::check(s == shape, "shape");
                nd::check(d.len() == shape[0] * shape[1] * shape[2], "number of elements");
                let mut all = true;
                for k in 0..d.len() {
                    all &= ok(k, d[k]);
                }
                nd::check(all, "elements");
            }
            None => nd::check(false, "type of the elements"),
        },
        Err(_) => nd::check(false, "no error is expected"),
    }
}
/// height x width x depth, row by row, every colour space, as 32 and 64 bit numbers
fn floats(lo: u32, hi: u32) {
    let (w, h) = wide();
    let b = sized(w, h);
    let i = py(&b);
    let k = nd::pick(lo, hi);
    let name = if k == 0 && any(1) == 0 { None } else { Some(SPACES[k as usize]) };
    let mut want = vec![];
    for c in b.data() {
        want.extend(values(k, c));
    }
    let shape = [h as usize, w as usize, if k == 16 { 1 } else if k % 2 == 0 { 4 } else { 3 }];
    match any(2) {
        0 => wants::<f32>(i.to_np_array(Python::get(), name, None), shape, |k, v| v.to_bits() == want[k].to_bits()),
        1 => wants::<f32>(i.to_np_array(Python::get(), name, dtype("float32", "<class 'numpy.float32'>")), shape, |k, v| v.to_bits() == want[k].to_bits()),
        _ => wants::<f64>(i.to_np_array(Python::get(), name, dtype("float64", "<class 'numpy.float64'>")), shape, |k, v| v.to_bits() == (want[k] as f64).to_bits()),
    }
}
#[no_mangle] pub extern "C" fn c27_to_rgb() { floats(0, 1) }
#[no_mangle] pub extern "C" fn c27_to_srgb() { floats(2, 3) }
#[no_mangle] pub extern "C" fn c27_to_hsl() { floats(4, 5) }
#[no_mangle] pub extern "C" fn c27_to_hsv() { floats(6, 7) }
#[no_mangle] pub extern "C" fn c27_to_yuv() { floats(8, 9) }
#[no_mangle] pub extern "C" fn c27_to_xyz() { floats(10, 11) }
#[no_mangle] pub extern "C" fn c27_to_lab() { floats(12, 13) }
#[no_mangle] pub extern "C" fn c27_to_lch() { floats(14, 15) }
#[no_mangle] pub extern "C" fn c27_to_gray() { floats(16, 16) }
#[no_mangle]
pub extern "C" fn c27_to_unknown() {
    let i = py(&sized(1, 1));
    match any(2) {
        0 => bad(&i.to_np_array(Python::get(), Some("other"), None)),
        1 => bad(&i.to_np_array(Python::get(), None, Some(text("int8")))),
        _ => bad(&i.to_np_array(Python::get(), None, Some(object(Val::Type("<class 'numpy.int8'>"))))),
    }
}
/// integer elements are the nearest level
macro_rules! levels { ($($n:ident $t:ty, $name:expr, $class:expr, $max:expr, $tol:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() {
    let c = upx();
    let i = Image { inner: D10::new_with_color(1, 1, c) };
    wants::<$t>(i.to_np_array(Python::get(), None, dtype($name, $class)), [1, 1, 4], |k, v| {
        let e = v as f32 - c.data[k] * $max;
        e >= -$tol && e <= $tol
    });
})* } }
levels! {
    c27_levels_u8 u8, "uint8", "<class 'numpy.uint8'>", 255.0, 0.501;
    c27_levels_u16 u16, "uint16", "<class 'numpy.uint16'>", 65535.0, 0.51;
}
/// values beyond the range of the levels are cut off
#[no_mangle]
pub extern "C" fn c27_levels_range() {
    let low = any(1) == 0;
    let v = if low { nd::range_f32(-9.0, 0.0) } else { nd::range_f32(1.0, 9.0) };
    let i = Image { inner: D10::new_with_color(1, 1, Rgb { data: [v; 4] }) };
    match any(3) {
        0 => wants::<u8>(i.to_np_array(Python::get(), None, Some(text("uint8"))), [1, 1, 4], |_, v| v == if low { 0 } else { u8::MAX }),
        1 => wants::<u16>(i.to_np_array(Python::get(), None, Some(text("uint16"))), [1, 1, 4], |_, v| v == if low { 0 } else { u16::MAX }),
        2 => wants::<u32>(i.to_np_array(Python::get(), None, Some(text("uint32"))), [1, 1, 4], |_, v| v == if low { 0 } else { u32::MAX }),
        _ => wants::<bool>(i.to_np_array(Python::get(), None, dtype("bool", "<class 'numpy.bool_'>")), [1, 1, 4], |_, v| v != low),
    }
}
fn made(a: &'static PyAny, space: Option<&str>) -> Image {
    match Image::from_np_array(a, space) {
        Ok(i) => i,
        Err(_) => { nd::check(false, "an array of this type is accepted"); nd::done() }
    }
}
/// an array of levels or truth values and the image made from it agree
#[no_mangle]
pub extern "C" fn c27_trip_u8() {
    let v = [nd::u8(), nd::u8(), nd::u8(), nd::u8()];
    let i = made(numpy::array(vec![1, 1, 4], v.to_vec()), None);
    wants::<u8>(i.to_np_array(Python::get(), None, Some(text("uint8"))), [1, 1, 4], |k, x| x == v[k]);
}
#[no_mangle]
pub extern "C" fn c27_trip_u16() {
    let v = nd::u16();
    let i = made(numpy::array(vec![1, 1, 4], vec![v; 4]), None);
    wants::<u16>(i.to_np_array(Python::get(), None, Some(text("uint16"))), [1, 1, 4], |_, x| x == v);
}
#[no_mangle]
pub extern "C" fn c27_trip_bool() {
    let v = [any(1) == 1, any(1) == 1, any(1) == 1, any(1) == 1];
    let i = made(numpy::array(vec![1, 1, 4], v.to_vec()), None);
    wants::<bool>(i.to_np_array(Python::get(), None, Some(text("bool"))), [1, 1, 4], |k, x| x == v[k]);
    for k in 0..4 {
        nd::check(i.inner.data()[0].data[k] == v[k] as u8 as f32, "true is one");
    }
}
#[no_mangle]
pub extern "C" fn c27_trip_float() {
    let v = [nd::unit(), nd::unit(), nd::unit(), nd::unit()];
    let i = made(numpy::array(vec![1, 1, 4], v.to_vec()), None);
    wants::<f32>(i.to_np_array(Python::get(), None, None), [1, 1, 4], |k, x| x == v[k]);
}
/// elements of every type give the value they stand for
#[no_mangle]
pub extern "C" fn c27_from_types() {
    let s = || vec![1, 1, 1];
    let (a, want): (_, f32) = match any(3) {
        0 => { let v = nd::u8(); (numpy::array(s(), vec![v]), v as f32 / 255.0) }
        1 => { let v = nd::u16(); (numpy::array(s(), vec![v]), v as f32 / 65535.0) }
        2 => { let v = nd::u32(); (numpy::array(s(), vec![v]), v as f32 / 4294967295.0) }
        _ => { let v = nd::unit() as f64 * 0.7; (numpy::array(s(), vec![v]), v as f32) }
    };
    let i = made(a, None);
    let d = i.inner.data()[0].data;
    nd::check((0..3).all(|k| d[k].to_bits() == want.to_bits()) && d[3] == 1.0, "value");
}
/// height x width x depth, row by row, every colour space
fn from(lo: u32, hi: u32) {
    let (w, h) = wide();
    let k = nd::pick(lo, hi);
    let depth = if k % 2 == 0 { 4 } else { nd::pick(3, 4) as usize };
    let mut v = vec![];
    for _ in 0..2 * depth {
        v.push(nd::unit());
    }
    if lo == 6 {
        v[0] = [0.05, 0.3, 0.6, 0.9][any(3) as usize];
        v[depth] = 0.45;
    }
    let name = if k < 2 && any(1) == 0 { opt("auto") } else { Some(SPACES[k as usize]) };
    let i = made(numpy::array(vec![h as usize, w as usize, depth], v.clone()), name);
    eq(i.inner.buffer(), &PixelBuffer::new_from_raw(w, h, vec![color(k, &v[..depth]), color(k, &v[depth..])]));
}
#[no_mangle] pub extern "C" fn c27_from_rgb() { from(0, 1) }
#[no_mangle] pub extern "C" fn c27_from_srgb() { from(2, 3) }
#[no_mangle] pub extern "C" fn c27_from_hsl() { from(4, 5) }
#[no_mangle] pub extern "C" fn c27_from_hsv() { from(6, 7) }
#[no_mangle] pub extern "C" fn c27_from_yuv() { from(8, 9) }
#[no_mangle] pub extern "C" fn c27_from_xyz() { from(10, 11) }
#[no_mangle] pub extern "C" fn c27_from_lab() { from(12, 13) }
#[no_mangle] pub extern "C" fn c27_from_lch() { from(14, 15) }
#[no_mangle]
pub extern "C" fn c27_from_gray() {
    let (w, h) = wide();
    let v = vec![nd::unit(), nd::unit()];
    let mut shape = vec![h as usize, w as usize];
    if any(1) == 0 {
        shape.push(1);
    }
    let name = match any(2) { 0 => None, 1 => Some("auto"), _ => Some("gray") };
    let i = made(numpy::array(shape, v.clone()), name);
    eq(i.inner.buffer(), &PixelBuffer::new_from_raw(w, h, vec![color(0, &v[..1]), color(0, &v[1..])]));
}
/// everything else is an error, not a panic
#[no_mangle]
pub extern "C" fn c27_from_wrong() {
    let r = match any(7) {
        0 => Image::from_np_array(numpy::array(vec![2], vec![0.5f32; 2]), opt("gray")),
        1 => Image::from_np_array(numpy::array(vec![1, 1, 1, 4], vec![0.5f32; 4]), None),
        2 => Image::from_np_array(numpy::array(vec![1, 1, 2], vec![0.5f32; 2]), None),
        3 => Image::from_np_array(numpy::array(vec![1, 1, 4], vec![0.5f32; 4]), Some(["other", "gray"][any(1) as usize])),
        4 => Image::from_np_array(numpy::array(vec![1, 1, 3], vec![0.5f32; 3]), Some(["rgba", "gray", "hsla"][any(2) as usize])),
        5 => Image::from_np_array(numpy::array(vec![1, 1], vec![0.5f32; 1]), Some(["rgb", "other"][any(1) as usize])),
        6 => Image::from_np_array(numpy::array(vec![1, 1, 4], vec![5i32; 4]), None),
        _ => Image::from_np_array([object(Val::Int(3)), text("x"), object(Val::None)][any(2) as usize], None),
    };
    bad(&r);
}
