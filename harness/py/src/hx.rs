//! C27 the methods of the python module's Image
use crate::disk;
use crate::fs::*;
use crate::image::{EncodingFormat, Image};
use crate::util::*;
use ::d10::{
    ops, BmpColorType, EncodingFormat as Format, EqualizeMode, FilterMode, IcoColorType, Image as D10, JpegSamplingFactor, PixelBuffer,
    PngColorType, PngCompression, PngFilterType, Rgb, WebPPreset,
};
use ops::{BalanceMode, BlendOp, DrawingMode, EdgeDetection, SaturationMode};
use pyo3::types::{PyFunction, PyList};
use pyo3::*;

pub fn sized(w: u32, h: u32) -> PixelBuffer<Rgb> {
    let mut v = vec![];
    for _ in 0..w * h {
        v.push(upx());
    }
    PixelBuffer::new_from_raw(w, h, v)
}
pub fn some() -> PixelBuffer<Rgb> { sized(nd::pick(1, 2), nd::pick(1, 2)) }
/// one of three fixed images
pub fn pic() -> PixelBuffer<Rgb> {
    let (w, h, k) = [(3, 3, 0.37f32), (2, 1, 0.61), (1, 2, 0.83)][nd::pick(0, 2) as usize];
    let mut v = vec![];
    let mut c = 0.21f32;
    for _ in 0..w * h {
        let mut d = [0.0; 4];
        for e in &mut d {
            c += k;
            if c > 1.0 {
                c -= 1.0;
            }
            *e = c;
        }
        v.push(Rgb { data: d });
    }
    PixelBuffer::new_from_raw(w, h, v)
}
pub fn eq(a: &PixelBuffer<Rgb>, b: &PixelBuffer<Rgb>) {
    nd::check(a.width() == b.width() && a.height() == b.height(), "size");
    nd::check(a.data().len() == b.data().len(), "number of pixels");
    let mut ok = true;
    for (p, q) in a.data().iter().zip(b.data()) {
        for k in 0..4 {
            ok &= p.data[k].to_bits() == q.data[k].to_bits();
        }
    }
    nd::check(ok, "pixels");
}
pub fn py(b: &PixelBuffer<Rgb>) -> Image { Image { inner: D10::new_from_buffer(b.clone()) } }
pub fn any(hi: u32) -> u32 { nd::pick(0, hi) }
pub fn opt<T>(v: T) -> Option<T> { if any(1) == 1 { Some(v) } else { None } }
fn amount() -> f32 { nd::range_f32(-4.0, 4.0) }

/// what a method may return
pub trait Back { fn image(self) -> Option<Image>; }
impl Back for Image { fn image(self) -> Option<Image> { Some(self) } }
impl Back for PyResult<Image> {
    fn image(self) -> Option<Image> {
        match self {
            Ok(i) => Some(i),
            Err(e) => { nd::check(e.kind == Kind::OS, "kind of error"); None }
        }
    }
}
/// method of the module and of the library on the same image; random numbers repeat
fn both<R: Back>(b: PixelBuffer<Rgb>, f: impl Fn(&mut Image) -> R, g: impl Fn(&D10) -> Option<D10>) {
    let mut i = py(&b);
    ctl::rng().mode = 1;
    let x = f(&mut i).image();
    ctl::rng().mode = 2;
    let y = g(&D10::new_from_buffer(b));
    match (x, y) {
        (Some(x), Some(y)) => eq(x.inner.buffer(), y.buffer()),
        (None, None) => {}
        (a, _) => nd::check(false, if a.is_none() { "no error is expected" } else { "an error is expected" }),
    }
}
/// a name, or none, or one that names nothing
fn named<T: Copy>(l: &[(&'static str, T)], default: T) -> (Option<&'static str>, Option<T>) {
    let k = any(l.len() as u32 + 1) as usize;
    if k < l.len() { (Some(l[k].0), Some(l[k].1)) } else if k == l.len() { (None, Some(default)) } else { (Some("other"), None) }
}
fn filter() -> (Option<&'static str>, Option<FilterMode>) {
    named(&[("nearest", FilterMode::Nearest), ("bilinear", FilterMode::Bilinear), ("bicubic", FilterMode::Bicubic), ("auto", FilterMode::Auto)], FilterMode::Bilinear)
}
macro_rules! same { ($($n:ident ($b:expr) ($($v:pat = $e:expr),*) |$i:ident| $f:expr => $g:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() {
    $(let $v = $e;)*
    both($b, |$i| $f, |$i| Some($g))
})* } }
macro_rules! maybe { ($($n:ident ($b:expr) ($($v:pat = $e:expr),*) |$i:ident| $f:expr => $g:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() {
    $(let $v = $e;)*
    both($b, |$i| $f, |$i| $g)
})* } }
fn held(i: &Image) -> Image { Image { inner: i.inner.clone() } }
fn changed(i: &D10, f: impl Fn(&mut D10)) -> D10 { let mut i = i.clone(); f(&mut i); i }
same! {
    c27_flip_horizontal (some()) () |i| i.flip_horizontal() => i.flip_horizontal();
    c27_flip_vertical (some()) () |i| i.flip_vertical() => i.flip_vertical();
    c27_rotate90 (some()) () |i| i.rotate90() => i.rotate90();
    c27_rotate180 (some()) () |i| i.rotate180() => i.rotate180();
    c27_rotate270 (some()) () |i| i.rotate270() => i.rotate270();
    c27_crop (sized(2, 2)) (x = any(1), y = any(1), w = any(2), h = any(2)) |i| i.crop(x, y, w, h) => i.crop(x, y, w, h);
    c27_jpeg_quality (sized(1, 1)) (q = nd::u8(), a = opt(any(1) == 1)) |i| i.with_jpeg_quality(q, a) => i.with_jpeg_quality(q, a != Some(false));
    c27_random_noise (sized(2, 1)) (a = amount()) |i| i.random_noise(a) => i.random_noise(a);
    c27_salt_n_pepper_noise (sized(1, 1)) (a = amount()) |i| i.salt_n_pepper_noise(a) => i.salt_n_pepper_noise(a);
    c27_rgb_noise (sized(1, 1)) (a = amount()) |i| i.rgb_noise(a) => i.rgb_noise(a);
    c27_gaussian_noise (sized(2, 1)) (a = amount()) |i| i.gaussian_noise(a) => i.gaussian_noise(a);
    c27_add_random_noise (sized(2, 1)) (a = amount()) |i| { i.add_random_noise(a); held(i) } => changed(i, |j| j.add_random_noise(a));
    c27_add_salt_n_pepper_noise (sized(1, 1)) (a = amount()) |i| { i.add_salt_n_pepper_noise(a); held(i) } => changed(i, |j| j.add_salt_n_pepper_noise(a));
    c27_add_rgb_noise (sized(1, 1)) (a = amount()) |i| { i.add_rgb_noise(a); held(i) } => changed(i, |j| j.add_rgb_noise(a));
    c27_add_gaussian_noise (sized(2, 1)) (a = amount()) |i| { i.add_gaussian_noise(a); held(i) } => changed(i, |j| j.add_gaussian_noise(a));
    c27_gaussian_blur (sized(2, 1)) (r = nd::pick(1, 2), s = opt(0.8f32)) |i| i.gaussian_blur(r, s) => i.gaussian_blur(r, s);
    c27_unsharp (sized(2, 1)) (r = nd::pick(1, 2), f = opt(amount()), s = opt(0.8f32)) |i| i.unsharp(r, f, s) => i.unsharp(r, f.unwrap_or(1.0), s);
    c27_interlace (sized(3, 2)) (o = any(3)) |i| i.interlace(o) => i.interlace(o);
    c27_palette (pic()) (p = pic()) |i| i.apply_palette(&py(&p)) => i.apply_palette(&D10::new_from_buffer(p.clone()));
    c27_palette_in_place (pic()) (p = pic()) |i| { i.apply_palette_in_place(&py(&p)); held(i) } => changed(i, |j| j.apply_palette_in_place(&D10::new_from_buffer(p.clone())));
    c27_despeckle (pic()) (t = opt(nd::unit()), a = opt(nd::pick(0, 9) as u8)) |i| i.despeckle(t, a) => i.despeckle(t.unwrap_or(0.1), a.unwrap_or(1));
    c27_snn (pic()) (r = opt(nd::pick(1, 2) as usize), c = opt(any(1) == 1)) |i| i.symmetric_nearest_neighbor(r, c) => i.symmetric_nearest_neighbor(r.unwrap_or(4), c != Some(false));
    c27_stretch_contrast (pic()) (t = opt(any(3) as f32 * 0.3)) |i| i.stretch_contrast(t) => i.stretch_contrast(t.unwrap_or(0.5));
    c27_white_balance (pic()) (t = opt(any(3) as f32 * 0.3)) |i| i.white_balance(t) => i.white_balance(t.unwrap_or(0.5));
    c27_change_color_temperature (pic()) (t = opt(amount())) |i| i.change_color_temperature(5000.0, 7000.0, t) => i.change_color_temperature(5000.0, 7000.0, t.unwrap_or(0.0));
    c27_optimize_color_temperature (pic()) (t = opt(amount())) |i| i.optimize_color_temperature(0.7, t) => i.optimize_color_temperature(0.7, t.unwrap_or(0.0));
    c27_optimize_lightness (sized(2, 1)) (a = nd::unit()) |i| i.optimize_lightness(a) => i.optimize_lightness(a);
}
maybe! {
    c27_rotate (sized(2, 1)) (a = [1.5, -0.7f32][any(1) as usize], (n, f) = filter()) |i| i.rotate(a, n) => f.map(|f| i.rotate(a, f));
    c27_resize (sized(2, 1)) (w = nd::pick(1, 3), h = nd::pick(1, 2), (n, f) = filter()) |i| i.resize(w, h, n) => f.map(|f| i.resize(w, h, f));
    c27_resize_pct (sized(2, 1)) (p = [10.0, 50.0, 150.0f32][any(2) as usize], (n, f) = filter()) |i| i.resize_pct(p, n) => f.map(|f| i.resize_pct(p, f));
    c27_edge_detection (sized(1, 1)) ((n, m) = named(&[("sobel", EdgeDetection::Sobel), ("laplace", EdgeDetection::Laplace)], EdgeDetection::Sobel))
        |i| i.edge_detection(n) => m.map(|m| i.edge_detection(m));
    c27_drawing (pic()) (r = nd::pick(1, 2), (n, m) = named(&[("gray", 0), ("colored", 1), ("reduced_colors", 2)], 1))
        |i| i.drawing(r, n) => m.map(|m| i.drawing(r, match m { 0 => DrawingMode::Gray, 1 => DrawingMode::Colored, _ => DrawingMode::ReducedColors }));
    c27_blend (sized(2, 1)) (o = sized(1, 2), v = opt(nd::unit()), (n, m) = named(&[("normal", 0), ("subtract", 1), ("lighten", 2)], 0))
        |i| i.blend(&py(&o), n, v) => m.map(|m| i.blend(&D10::new_from_buffer(o.clone()), match m { 0 => BlendOp::Normal, 1 => BlendOp::Subtract, _ => BlendOp::Lighten }, v.unwrap_or(1.0)));
    c27_optimize_saturation (pic()) (o = opt(amount()), (n, m) = named(&[("hsl", SaturationMode::Hsl), ("hsv", SaturationMode::Hsv)], SaturationMode::Hsl))
        |i| i.optimize_saturation(o, n) => m.map(|m| i.optimize_saturation(o.unwrap_or(1.0), m));
    c27_balance (pic()) (t = opt(any(3) as f32 * 0.3), (n, m) = named(&[("rgb", BalanceMode::Rgb), ("srgb", BalanceMode::Srgb), ("hsv", BalanceMode::Hsv)], BalanceMode::Rgb))
        |i| i.balance(n, t) => m.map(|m| i.balance(m, t.unwrap_or(0.5)));
    c27_equalize (pic()) ((n, m) = named(&[("rgb", 0), ("srgb", 1), ("lightness", 2)], 1))
        |i| i.equalize(n) => m.map(|m| i.equalize(match m { 0 => EqualizeMode::Rgb, 1 => EqualizeMode::Srgb, _ => EqualizeMode::Lightness }));
}
#[no_mangle]
pub extern "C" fn c27_new() {
    let (w, h) = (nd::pick(1, 2), nd::pick(1, 3));
    let c = px();
    match opt(crate::color::Rgb { inner: c }) {
        Some(c) => eq(Image::new(w, h, Some(&c)).inner.buffer(), D10::new_with_color(w, h, c.inner).buffer()),
        None => eq(Image::new(w, h, None).inner.buffer(), D10::new(w, h).buffer()),
    }
    let b = sized(w, h);
    let i = Image::from_list(w, h, b.data().iter().map(|c| crate::color::Rgb { inner: *c }).collect());
    eq(i.inner.buffer(), &b);
    let l = i.to_list();
    nd::check(l.len() == b.data().len(), "number of colours");
    for (p, q) in l.iter().zip(b.data()) {
        nd::check(same(&p.inner, q), "colours in order");
    }
}
#[no_mangle]
pub extern "C" fn c27_access() {
    let b = sized(2, nd::pick(1, 2));
    let i = D10::new_from_buffer(b.clone());
    let mut p = py(&b);
    nd::check(p.get_width() == i.width() && p.get_height() == i.height(), "dimensions");
    nd::check(matches!(p.__len__(), Ok(n) if n == i.data().len()), "length");
    let (x, y) = (any(3) as i32 - 1, any(3) as i32 - 1);
    match (p.get_pixel(x, y), i.get_pixel_optional(x, y)) {
        (Some(a), Some(b)) => nd::check(same(&a.inner, b), "get_pixel"),
        (None, None) => {}
        _ => nd::check(false, "get_pixel outside"),
    }
    match (p.__getitem__((x, y)), i.get_pixel_optional(x, y)) {
        (Ok(a), Some(b)) => nd::check(same(&a.inner, b), "[]"),
        (Err(_), None) => {}
        _ => nd::check(false, "[] outside"),
    }
    nd::check(same(&p.get_pixel_clamped(x, y).inner, i.get_pixel_clamped(x, y)), "get_pixel_clamped");
    nd::check(p.is_in_image(x, y) == i.is_in_image(x, y), "is_in_image");
    nd::check(p.has_transparency() == i.has_transparency(), "has_transparency");
    nd::check(p.is_grayscale() == i.is_grayscale(), "is_grayscale");
    let c = px();
    let (x, y) = (any(1), nd::pick(0, b.height() - 1));
    let mut b = b;
    if any(1) == 0 {
        p.put_pixel(x, y, &crate::color::Rgb { inner: c });
    } else {
        p.__setitem__((x, y), crate::color::Rgb { inner: c });
    }
    b.put_pixel(x, y, c);
    eq(p.inner.buffer(), &b);
}
fn color(o: &'static PyAny) -> Rgb { o.extract::<crate::color::Rgb>().unwrap_or_else(|_| nd::unmodelled("not a colour")).inner }
fn object_of(c: Rgb) -> &'static PyAny { crate::color::Rgb { inner: c }.into_py(Python::get()).p }
/// what call number `at` of a callback does: 1 raises, 2 returns something else
fn stop(n: i32, at: i32, how: u32, ok: Rgb) -> PyResult<&'static PyAny> {
    if n != at { Ok(object_of(ok)) } else if how == 1 { Err(PyErr { kind: Kind::Callback(at) }) } else { Ok(object(Val::None)) }
}
/// the callbacks see every pixel once, in order, and their results are used; an exception is passed on
#[no_mangle]
pub extern "C" fn c27_callbacks() {
    let b = some();
    let k = upx();
    let f = move |p: Rgb| Rgb { data: [p.data[3], k.data[0], p.data[0], p.data[1]] };
    let g = move |x: i64, y: i64, p: Rgb| Rgb { data: [p.data[3], x as f32, y as f32, p.data[1]] };
    let at = any(4) as i32;
    let how = nd::pick(1, 2);
    let many = b.data().len() as i32;
    let n: &'static std::cell::Cell<i32> = Box::leak(Box::new(std::cell::Cell::new(0)));
    let one = PyFunction { f: Box::new(move |a| {
        nd::check(a.len() == 1, "arguments");
        n.set(n.get() + 1);
        stop(n.get() - 1, at, how, f(color(a[0])))
    }) };
    let three = PyFunction { f: Box::new(move |a| {
        nd::check(a.len() == 3, "arguments");
        let (x, y) = match (&a[0].v, &a[1].v) { (Val::Int(x), Val::Int(y)) => (*x, *y), _ => { nd::check(false, "coordinates are numbers"); (0, 0) } };
        n.set(n.get() + 1);
        stop(n.get() - 1, at, how, g(x, y, color(a[2])))
    }) };
    let mut i = py(&b);
    let mut d = D10::new_from_buffer(b.clone());
    let m = std::cell::Cell::new(0);
    let fail = |ok: Rgb| { m.set(m.get() + 1); if m.get() - 1 == at { Err(()) } else { Ok(ok) } };
    let which = any(3);
    let (r, want) = match which {
        0 => (i.map_colors(&one), d.try_map_colors(|p| fail(f(*p)))),
        1 => (i.map_colors_enumerated(&three), d.try_map_colors_enumerated(|x, y, p| fail(g(x as i64, y as i64, *p)))),
        2 => {
            let r = i.mod_colors(&one).map(|_| held(&i));
            let w = d.try_mod_colors(|p| fail(f(*p))).map(|_| d.clone());
            (r, w)
        }
        _ => {
            let r = i.mod_colors_enumerated(&three).map(|_| held(&i));
            let w = d.try_mod_colors_enumerated(|x, y, p| fail(g(x as i64, y as i64, *p))).map(|_| d.clone());
            (r, w)
        }
    };
    nd::check(n.get() == m.get(), "number of calls");
    match (r, want) {
        (Ok(i), Ok(w)) => { nd::check(at >= many, "an error is passed on"); eq(i.inner.buffer(), w.buffer()) }
        (Err(e), Err(_)) => nd::check(at < many && e.kind == if how == 1 { Kind::Callback(at) } else { Kind::Type }, "the callback's error"),
        _ => nd::check(false, "an error has a cause"),
    }
    eq(i.inner.buffer(), d.buffer());
}
#[no_mangle]
pub extern "C" fn c27_compose() {
    let (a, b) = (sized(nd::pick(1, 2), 1), sized(1, nd::pick(1, 2)));
    let d = upx();
    let dflt = opt(crate::color::Rgb { inner: d });
    let at = any(2) as i32;
    let how = nd::pick(1, 2);
    let n: &'static std::cell::Cell<i32> = Box::leak(Box::new(std::cell::Cell::new(0)));
    let f = |x: u32, y: u32, c: &[Rgb]| Rgb { data: [c[0].data[0], c[1].data[1], c[0].data[2], x as f32 + 4.0 * y as f32] };
    let func = PyFunction { f: Box::new(move |a| {
        let (x, y, l) = match a { [PyAny { v: Val::Int(x) }, PyAny { v: Val::Int(y) }, PyAny { v: Val::List(l) }] => (*x, *y, l), _ => nd::unmodelled("arguments") };
        nd::check(l.len() == 2, "number of colours");
        n.set(n.get() + 1);
        stop(n.get() - 1, at, how, f(x as u32, y as u32, &[color(l[0]), color(l[1])]))
    }) };
    let foreign = any(1) == 1;
    let mut l = vec![py(&a).into_py(Python::get()).p, py(&b).into_py(Python::get()).p];
    if foreign {
        l.push(object(Val::Int(3)));
    }
    let default = dflt.as_ref().map_or(Rgb::default(), |c| c.inner);
    let want = D10::compose_slice(&[&D10::new_from_buffer(a.clone()), &D10::new_from_buffer(b.clone())], default, f);
    let many = want.data().len() as i32;
    match Image::compose(&PyList { l }, &func, dflt) {
        Ok(i) => { nd::check(!foreign && at >= many, "an error is passed on"); eq(i.inner.buffer(), want.buffer()) }
        Err(e) => nd::check(foreign && e.kind == Kind::Type || at < many && e.kind == if how == 1 { Kind::Callback(at) } else { Kind::Type }, "the callback's error"),
    }
}
use std::mem::discriminant as kind;
fn want(f: PyResult<EncodingFormat>, ok: Option<Format>) {
    match (f, ok) {
        (Ok(f), Some(w)) => nd::check(match (&f.inner, &w) {
            (Format::Jpeg { quality: a, progressive: b, sampling_factor: c, grayscale: d, optimize_huffman_tables: e },
             Format::Jpeg { quality: v, progressive: w, sampling_factor: x, grayscale: y, optimize_huffman_tables: z }) => a == v && b == w && c == x && d == y && e == z,
            (Format::Png { color_type: a, compression: b, filter: c }, Format::Png { color_type: x, compression: y, filter: z }) => kind(a) == kind(x) && kind(b) == kind(y) && kind(c) == kind(z),
            (Format::Gif, Format::Gif) => true,
            (Format::Bmp { color_type: a }, Format::Bmp { color_type: b }) => kind(a) == kind(b),
            (Format::Ico { color_type: a }, Format::Ico { color_type: b }) => kind(a) == kind(b),
            (Format::WebP { quality: a, preset: b }, Format::WebP { quality: x, preset: y }) => a == x && kind(b) == kind(y),
            _ => false,
        }, "format and options"),
        (Err(e), None) => nd::check(e.kind == Kind::OS, "kind of error"),
        (Ok(_), None) => nd::check(false, "an unknown name is an error"),
        (Err(_), Some(_)) => nd::check(false, "no error is expected"),
    }
}
#[no_mangle]
pub extern "C" fn c27_formats() {
    match any(5) {
        0 => {
            let (q, p, g, o) = (opt(nd::u8()), opt(any(1) == 1), opt(any(1) == 1), opt(any(1) == 1));
            let (n, s) = named(&[("4:2:0", Some(JpegSamplingFactor::R_4_2_0)), ("4:4:4", Some(JpegSamplingFactor::R_4_4_4))], None);
            want(EncodingFormat::jpeg(q, p, n.map(|n| n.to_string()), g, o), s.map(|s| Format::Jpeg {
                quality: q.unwrap_or(85), progressive: p == Some(true), sampling_factor: s, grayscale: g == Some(true), optimize_huffman_tables: o != Some(false) }));
        }
        1 => {
            let (n, c) = named(&[("l8", PngColorType::L8), ("rgb16", PngColorType::Rgb16), ("rgba8", PngColorType::Rgba8)], PngColorType::Rgba8);
            let (m, p) = named(&[("fast", PngCompression::Fast), ("best", PngCompression::Best)], PngCompression::Default);
            let (k, f) = named(&[("no_filter", PngFilterType::NoFilter), ("up", PngFilterType::Up)], PngFilterType::Sub);
            want(EncodingFormat::png(n, m, k), match (c, p, f) { (Some(color_type), Some(compression), Some(filter)) => Some(Format::Png { color_type, compression, filter }), _ => None });
        }
        2 => want(Ok(EncodingFormat::gif()), Some(Format::Gif)),
        3 => {
            let (n, c) = named(&[("l8", BmpColorType::L8), ("rgb8", BmpColorType::Rgb8)], BmpColorType::Rgba8);
            want(EncodingFormat::bmp(n), c.map(|color_type| Format::Bmp { color_type }));
        }
        4 => {
            let (n, c) = named(&[("l8", IcoColorType::L8), ("rgb8", IcoColorType::Rgb8)], IcoColorType::Rgba8);
            want(EncodingFormat::ico(n), c.map(|color_type| Format::Ico { color_type }));
        }
        _ => {
            let q = opt(nd::u8());
            let (n, c) = named(&[("photo", WebPPreset::Photo), ("text", WebPPreset::Text)], WebPPreset::Default);
            want(EncodingFormat::webp(q, n.map(|n| n.to_string())), c.map(|preset| Format::WebP { quality: q.unwrap_or(85), preset }));
        }
    }
}
/// save writes what the library writes
#[no_mangle]
pub extern "C" fn c27_save() {
    let b = sized(1, 1);
    let mut i = py(&b);
    let c = nd::pick(1, 6);
    let (n, raw) = disk::name(c);
    let f = fs();
    f.fail_at = any(2);
    let given = any(1) == 1;
    let (name, raw): (&str, &'static [u8]) = if given { ("a.png", b"a.png") } else { (n, raw) };
    f.save_name = raw;
    let r = i.save(name, if given { Some(EncodingFormat { inner: disk::format(c) }) } else { None }.as_ref());
    let data = std::mem::take(&mut f.data);
    let calls = std::mem::replace(&mut f.calls, 0);
    let mut d = D10::new_from_buffer(b);
    let w = if given { d.save_with_format(name, disk::format(c)) } else { d.save(name) };
    nd::check(r.is_ok() == w.is_ok() && calls == f.calls, "result");
    nd::check(data == f.data, "bytes");
}
#[no_mangle]
pub extern "C" fn c27_open() {
    let c = nd::pick(1, 6);
    let mut px = vec![];
    for _ in 0..4 {
        px.push(nd::u8());
    }
    let f = fs();
    f.name = b"a.x";
    f.exists = any(1) == 1;
    f.data = disk::head(c).to_vec();
    let fail = any(1);
    let set = || {
        let d = ctl::dec();
        (d.w, d.h, d.channels, d.bits, d.data, d.fail) = (1, 1, 4, 8, px.clone(), fail);
    };
    set();
    let a = Image::open("a.x");
    set();
    match (a, D10::open("a.x")) {
        (Ok(a), Ok(b)) => eq(a.inner.buffer(), b.buffer()),
        (Err(e), Err(_)) => nd::check(e.kind == Kind::OS, "kind of error"),
        _ => nd::check(false, "the same as the library"),
    }
}
