//! C27 the colour classes of the python module
use crate::color::*;
use crate::hx::{any, opt};
use ::d10::{illuminant::{D50, D65, E}, observer::{O10, O2}, Color, Hsl as DHsl, Hsv as DHsv, Intensity, Lab, Lch, Rgb as DRgb, Srgb as DSrgb, Xyz as DXyz, Yuv as DYuv};
use pyo3::basic::CompareOp;
use pyo3::types::PyFunction;
use pyo3::*;

fn num() -> f32 { nd::range_f32(-2.0, 2.0) }
fn four() -> [f32; 4] { [num(), num(), num(), num()] }
fn bits(a: [f32; 4], b: [f32; 4]) -> bool { (0..4).all(|k| a[k].to_bits() == b[k].to_bits()) }
pub fn parts(i: u32, o: u32) -> (Option<&'static str>, Option<&'static str>) {
    (match i { 0 => Some("D65"), 1 => Some("D50"), 2 => Some("E"), 3 => None, _ => Some("D55") }, match o { 0 => Some("2"), 1 => Some("10"), 2 => None, _ => Some("5") })
}
fn held<T: PyClass + Clone>(o: &PyResult<Py<PyAny>>) -> Option<T> { match o { Ok(o) => o.p.extract::<T>().ok(), Err(_) => None } }
/// the object is a colour of the class for this light, with these values
macro_rules! light { ($name:expr, $r:expr, $c:expr, $to:ident, $a:ident $b:ident $d:ident $e:ident $f:ident $g:ident, $i:expr, $o:expr) => {{
    let r = $r;
    let c = $c;
    match ($i, $o) {
        (0 | 3, 0 | 2) => nd::check(held::<$a>(&r).map_or(false, |v| bits(v.inner.data, c.$to::<D65, O2>().data)), $name),
        (0 | 3, 1) => nd::check(held::<$b>(&r).map_or(false, |v| bits(v.inner.data, c.$to::<D65, O10>().data)), $name),
        (1, 0 | 2) => nd::check(held::<$d>(&r).map_or(false, |v| bits(v.inner.data, c.$to::<D50, O2>().data)), $name),
        (1, 1) => nd::check(held::<$e>(&r).map_or(false, |v| bits(v.inner.data, c.$to::<D50, O10>().data)), $name),
        (2, 0 | 2) => nd::check(held::<$f>(&r).map_or(false, |v| bits(v.inner.data, c.$to::<E, O2>().data)), $name),
        (2, 1) => nd::check(held::<$g>(&r).map_or(false, |v| bits(v.inner.data, c.$to::<E, O10>().data)), $name),
        _ => nd::check(matches!(&r, Err(e) if e.kind == Kind::OS), "an unknown light is an error"),
    }
}} }
macro_rules! class { ($n:ident $m:ident $p:ident $C:ident $D:ty, $a:ident $b:ident $c:ident, $ga:ident $gb:ident $gc:ident, $sa:ident $sb:ident $sc:ident, $wa:ident $wb:ident $wc:ident) => {
#[no_mangle]
pub extern "C" fn $n() {
    let v = four();
    let alpha = opt(v[3]);
    let c = $C::new(v[0], v[1], v[2], alpha);
    let d = <$D>::new_with_alpha(v[0], v[1], v[2], alpha.unwrap_or(1.0));
    nd::check(bits(c.inner.data, d.data), "constructor");
    nd::check(bits([c.$ga(), c.$gb(), c.$gc(), c.get_alpha()], [d.$a(), d.$b(), d.$c(), d.alpha()]), "values");
    nd::check(c.has_transparency() == d.has_transparency(), "has_transparency");
    nd::check(c.type_name() == d.type_name(), "name");
    let w = num();
    nd::check(bits(c.$wa(w).inner.data, d.$wa(w).data), "first value replaced");
    nd::check(bits(c.$wb(w).inner.data, d.$wb(w).data), "second value replaced");
    nd::check(bits(c.$wc(w).inner.data, d.$wc(w).data), "third value replaced");
    nd::check(bits(c.with_alpha(w).inner.data, d.with_alpha(w).data), "alpha replaced");
    let (mut s, mut t) = (c.clone(), d);
    match any(3) {
        0 => { s.$sa(w); t.$sa(w) }
        1 => { s.$sb(w); t.$sb(w) }
        2 => { s.$sc(w); t.$sc(w) }
        _ => { s.set_alpha(w); t.set_alpha(w) }
    }
    nd::check(bits(s.inner.data, t.data), "value set");
    let cell = PyCell::hold($C { inner: t });
    match c.__richcmp__(cell.borrow(), CompareOp::Eq) {
        Ok(Py { p: PyAny { v: Val::Bool(r) }, .. }) => nd::check(*r == (d == t), "=="),
        _ => nd::check(false, "== gives a truth value"),
    }
    for op in [CompareOp::Lt, CompareOp::Ne] {
        nd::check(matches!(c.__richcmp__(cell.borrow(), op), Ok(Py { p: PyAny { v: Val::NotImplemented }, .. })), "other comparisons");
    }
    let at = any(4) as i32;
    let n: &'static std::cell::Cell<i32> = Box::leak(Box::new(std::cell::Cell::new(0)));
    let func = PyFunction { f: Box::new(move |a| {
        n.set(n.get() + 1);
        if n.get() - 1 == at { return Err(PyErr { kind: Kind::Callback(at) }) }
        match &a[0].v { Val::F32(x) => Ok(object(Val::F32(-*x))), _ => Ok(object(Val::None)) }
    }) };
    let m = std::cell::Cell::new(0);
    let want = d.try_map_color_channels(|x| { m.set(m.get() + 1); if m.get() - 1 == at { Err(()) } else { Ok(-x) } });
    match (c.map_color_channels(&func), want) {
        (Ok(a), Ok(b)) => nd::check(bits(a.inner.data, b.data), "channels mapped"),
        (Err(e), Err(_)) => nd::check(e.kind == Kind::Callback(at), "the callback's error"),
        _ => nd::check(false, "an error has a cause"),
    }
}
#[no_mangle]
pub extern "C" fn $m() {
    let d = <$D>::new_with_alpha(num(), num(), num(), num());
    let c = $C { inner: d };
    match any(5) {
        0 => nd::check(bits(c.to_rgb().inner.data, d.to_rgb().data), "to_rgb"),
        1 => nd::check(bits(c.to_srgb().inner.data, d.to_srgb().data), "to_srgb"),
        2 => nd::check(bits(c.to_hsl().inner.data, d.to_hsl().data), "to_hsl"),
        3 => nd::check(bits(c.to_hsv().inner.data, d.to_hsv().data), "to_hsv"),
        4 => nd::check(bits(c.to_yuv().inner.data, d.to_yuv().data), "to_yuv"),
        _ => nd::check(bits(c.to_xyz().inner.data, d.to_xyz().data), "to_xyz"),
    }
}
#[no_mangle]
pub extern "C" fn $p() {
    let d = <$D>::new_with_alpha(nd::unit(), nd::unit(), nd::unit(), nd::unit());
    let c = $C { inner: d };
    let (i, o) = (any(4), any(3));
    let (l, p) = parts(i, o);
    if any(1) == 0 {
        light!("to_lab", c.to_lab(Python::get(), l, p), d, to_lab, LabD65O2 LabD65O10 LabD50O2 LabD50O10 LabEO2 LabEO10, i, o)
    } else {
        light!("to_lch", c.to_lch(Python::get(), l, p), d, to_lch, LchD65O2 LchD65O10 LchD50O2 LchD50O10 LchEO2 LchEO10, i, o)
    }
}
} }
class!(c27_class_rgb c27_convert_rgb c27_light_rgb Rgb DRgb, red green blue, get_red get_green get_blue, set_red set_green set_blue, with_red with_green with_blue);
class!(c27_class_srgb c27_convert_srgb c27_light_srgb Srgb DSrgb, red green blue, get_red get_green get_blue, set_red set_green set_blue, with_red with_green with_blue);
class!(c27_class_hsl c27_convert_hsl c27_light_hsl Hsl DHsl, hue saturation lightness, get_hue get_saturation get_lightness, set_hue set_saturation set_lightness, with_hue with_saturation with_lightness);
class!(c27_class_hsv c27_convert_hsv c27_light_hsv Hsv DHsv, hue saturation value, get_hue get_saturation get_value, set_hue set_saturation set_value, with_hue with_saturation with_value);
class!(c27_class_yuv c27_convert_yuv c27_light_yuv Yuv DYuv, y u v, get_y get_u get_v, set_y set_u set_v, with_y with_u with_v);
class!(c27_class_xyz c27_convert_xyz c27_light_xyz Xyz DXyz, x y z, get_x get_y get_z, set_x set_y set_z, with_x with_y with_z);
class!(c27_class_labd65o2 c27_convert_labd65o2 c27_light_labd65o2 LabD65O2 Lab<D65, O2>, l a b, get_l get_a get_b, set_l set_a set_b, with_l with_a with_b);
class!(c27_class_lchd65o2 c27_convert_lchd65o2 c27_light_lchd65o2 LchD65O2 Lch<D65, O2>, l c h, get_l get_c get_h, set_l set_c set_h, with_l with_c with_h);
class!(c27_class_labd65o10 c27_convert_labd65o10 c27_light_labd65o10 LabD65O10 Lab<D65, O10>, l a b, get_l get_a get_b, set_l set_a set_b, with_l with_a with_b);
class!(c27_class_lchd65o10 c27_convert_lchd65o10 c27_light_lchd65o10 LchD65O10 Lch<D65, O10>, l c h, get_l get_c get_h, set_l set_c set_h, with_l with_c with_h);
class!(c27_class_labd50o2 c27_convert_labd50o2 c27_light_labd50o2 LabD50O2 Lab<D50, O2>, l a b, get_l get_a get_b, set_l set_a set_b, with_l with_a with_b);
class!(c27_class_lchd50o2 c27_convert_lchd50o2 c27_light_lchd50o2 LchD50O2 Lch<D50, O2>, l c h, get_l get_c get_h, set_l set_c set_h, with_l with_c with_h);
class!(c27_class_labd50o10 c27_convert_labd50o10 c27_light_labd50o10 LabD50O10 Lab<D50, O10>, l a b, get_l get_a get_b, set_l set_a set_b, with_l with_a with_b);
class!(c27_class_lchd50o10 c27_convert_lchd50o10 c27_light_lchd50o10 LchD50O10 Lch<D50, O10>, l c h, get_l get_c get_h, set_l set_c set_h, with_l with_c with_h);
class!(c27_class_labeo2 c27_convert_labeo2 c27_light_labeo2 LabEO2 Lab<E, O2>, l a b, get_l get_a get_b, set_l set_a set_b, with_l with_a with_b);
class!(c27_class_lcheo2 c27_convert_lcheo2 c27_light_lcheo2 LchEO2 Lch<E, O2>, l c h, get_l get_c get_h, set_l set_c set_h, with_l with_c with_h);
class!(c27_class_labeo10 c27_convert_labeo10 c27_light_labeo10 LabEO10 Lab<E, O10>, l a b, get_l get_a get_b, set_l set_a set_b, with_l with_a with_b);
class!(c27_class_lcheo10 c27_convert_lcheo10 c27_light_lcheo10 LchEO10 Lch<E, O10>, l c h, get_l get_c get_h, set_l set_c set_h, with_l with_c with_h);
/// Lab() and Lch() make the class for the light asked for
#[no_mangle]
pub extern "C" fn c27_lab_lch() {
    let v = four();
    let alpha = opt(v[3]);
    let (i, o) = (any(4), any(3));
    let (l, p) = parts(i, o);
    struct Is([f32; 4]);
    #[allow(non_camel_case_types)]
    struct Data { data: [f32; 4] }
    impl Is {
        fn to_lab<I, O>(&self) -> Data { Data { data: self.0 } }
        fn to_lch<I, O>(&self) -> Data { Data { data: self.0 } }
    }
    let c = Is([v[0], v[1], v[2], alpha.unwrap_or(1.0)]);
    if any(1) == 0 {
        light!("Lab", crate::lab(Python::get(), v[0], v[1], v[2], alpha, l, p), &c, to_lab, LabD65O2 LabD65O10 LabD50O2 LabD50O10 LabEO2 LabEO10, i, o)
    } else {
        light!("Lch", crate::lch(Python::get(), v[0], v[1], v[2], alpha, l, p), &c, to_lch, LchD65O2 LchD65O10 LchD50O2 LchD50O10 LchEO2 LchEO10, i, o)
    }
}
/// the adjustments of one colour
#[no_mangle]
pub extern "C" fn c27_adjust() {
    let d = DRgb { data: four() };
    let c = Rgb { inner: d };
    let (a, b, g) = (num(), num(), num());
    let e = DRgb { data: four() };
    let s = |x: Rgb, y: DRgb, m: &'static str| nd::check(bits(x.inner.data, y.data), m);
    match any(16) {
        0 => nd::check(c.is_grayscale() == d.is_grayscale(), "is_grayscale"),
        1 => s(c.invert(), d.invert(), "invert"),
        2 => s(c.difference(&Rgb { inner: e }), d.difference(&e), "difference"),
        3 => s(c.with_gamma(a), d.with_gamma(a), "with_gamma"),
        4 => s(c.with_gamma_opt(a), d.with_gamma_opt(a), "with_gamma_opt"),
        5 => s(c.with_level(a, b, g), d.with_level(a, b, g), "with_level"),
        6 => s(c.with_brightness(a), d.with_brightness(a), "with_brightness"),
        7 => s(c.with_lightness(a), d.with_lightness(a), "with_lightness"),
        8 => s(c.with_contrast(a), d.with_contrast(a), "with_contrast"),
        9 => s(c.with_brightness_contrast(a, b), d.with_brightness_contrast(a, b), "with_brightness_contrast"),
        10 => s(c.alpha_blend(&Rgb { inner: e }), d.alpha_blend(e), "alpha_blend"),
        11 => s(c.with_vibrance(a), d.with_vibrance(a), "with_vibrance"),
        12 => s(c.with_sepia(), d.with_sepia(), "with_sepia"),
        13 => nd::check(c.max().to_bits() == d.max().to_bits(), "max"),
        14 => nd::check(c.min().to_bits() == d.min().to_bits(), "min"),
        15 => s(c.with_saturation(a), d.with_saturation(a), "with_saturation"),
        _ => s(c.stretch_saturation(a), d.stretch_saturation(a), "stretch_saturation"),
    }
}
#[no_mangle]
pub extern "C" fn c27_adjust_hue() {
    let d = DRgb { data: [nd::unit(), nd::unit(), nd::unit(), num()] };
    let c = Rgb { inner: d };
    let a = [0.5, 1.5, -1.0f32][any(2) as usize];
    let (b, g) = (num(), num());
    let s = |x: Rgb, y: DRgb, m: &'static str| nd::check(bits(x.inner.data, y.data), m);
    match any(2) {
        0 => s(c.with_gamma_saturation(a), d.with_gamma_saturation(a), "with_gamma_saturation"),
        1 => s(c.with_hue_rotate(a), d.with_hue_rotate(a), "with_hue_rotate"),
        _ => s(c.modulate(a, b, g), d.modulate(a, b, g), "modulate"),
    }
}
#[no_mangle]
pub extern "C" fn c27_gray() {
    let d = DRgb { data: four() };
    let c = Rgb { inner: d };
    let (n, i) = [("average", Intensity::Average), ("rec601luma", Intensity::Rec601Luma), ("rec709luma", Intensity::Rec709Luma), ("brightness", Intensity::Brightness),
        ("lightness", Intensity::Lightness), ("saturation", Intensity::Saturation), ("red", Intensity::Red), ("green", Intensity::Green), ("blue", Intensity::Blue)][any(8) as usize];
    match any(2) {
        0 => match c.to_gray(Some(n)) { Ok(g) => nd::check(bits(g.inner.data, d.to_gray_with_intensity(i).data), "to_gray with a name"), Err(_) => nd::check(false, "a known name") },
        1 => match c.to_gray(None) { Ok(g) => nd::check(bits(g.inner.data, d.to_gray().data), "to_gray"), Err(_) => nd::check(false, "no name") },
        _ => nd::check(matches!(c.to_gray(Some("other")), Err(e) if e.kind == Kind::OS), "an unknown name is an error"),
    }
}
