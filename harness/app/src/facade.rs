//! C30 the methods of Image
use crate::cmd::*;
use crate::disk::{self, head};
use crate::fs::*;
use crate::util::*;
use d10::ops;
use d10::*;

fn sized(w: u32, h: u32) -> PixelBuffer<Rgb> {
    let mut v = vec![];
    for _ in 0..w * h {
        v.push(upx());
    }
    PixelBuffer::new_from_raw(w, h, v)
}
fn some() -> PixelBuffer<Rgb> { sized(nd::pick(1, 3), nd::pick(1, 2)) }
fn eq(a: &PixelBuffer<Rgb>, b: &PixelBuffer<Rgb>) {
    nd::check(a.width() == b.width() && a.height() == b.height(), "size");
    nd::check(a.data().len() == b.data().len(), "number of pixels");
    let mut ok = true;
    for (p, q) in a.data().iter().zip(b.data()) {
        for k in 0..4 {
            ok &= p.data[k].to_bits() == q.data[k].to_bits();
        }
    }
    nd::check(ok, "pixels");
}
/// method and function on the same image; random numbers repeat
fn both(b: PixelBuffer<Rgb>, f: impl Fn(&Image) -> Image, g: impl Fn(&PixelBuffer<Rgb>) -> PixelBuffer<Rgb>) {
    let i = Image::new_from_buffer(b);
    ctl::rng().mode = 1;
    let x = f(&i);
    ctl::rng().mode = 2;
    let y = g(i.buffer());
    eq(x.buffer(), &y);
}
fn amount() -> f32 { nd::range_f32(-4.0, 4.0) }
macro_rules! facade { ($($n:ident ($b:expr) |$i:ident| $f:expr => $g:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() {
    both($b, |$i| $f, |$i| $g)
})* } }
macro_rules! facade1 { ($($n:ident ($b:expr) ($($v:ident = $e:expr),*) |$i:ident| $f:expr => $g:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() {
    $(let $v = $e;)*
    both($b, |$i| $f, |$i| $g)
})* } }
facade! {
    c30_flip_horizontal (some()) |i| i.flip_horizontal() => ops::flip_horizontal(i);
    c30_flip_vertical (some()) |i| i.flip_vertical() => ops::flip_vertical(i);
    c30_rotate90 (some()) |i| i.rotate90() => ops::rotate90(i);
    c30_rotate180 (some()) |i| i.rotate180() => ops::rotate180(i);
    c30_rotate270 (some()) |i| i.rotate270() => ops::rotate270(i);
}
fn any(hi: u32) -> u32 { nd::pick(0, hi) }
fn filter() -> FilterMode {
    match any(3) { 0 => FilterMode::Nearest, 1 => FilterMode::Bilinear, 2 => FilterMode::Bicubic, _ => FilterMode::Auto }
}
fn op(k: u32) -> ops::BlendOp { match k { 0 => ops::BlendOp::Normal, 1 => ops::BlendOp::Subtract, _ => ops::BlendOp::Lighten } }
facade1! {
    c30_crop (some()) (x = any(3), y = any(2), w = any(3), h = any(2)) |i| i.crop(x, y, w, h) => ops::crop(i, x, y, w, h);
    c30_rotate (sized(2, 2)) (a = [0.0, 1.5, 3.1415927, -0.7][any(3) as usize], f = filter()) |i| i.rotate(a, f) => ops::rotate(i, a, Rgb::NONE, f);
    c30_resize (sized(2, 1)) (w = nd::pick(1, 3), h = nd::pick(1, 3), f = filter()) |i| i.resize(w, h, f) => ops::resize(i, w, h, f);
    c30_edge_detection (sized(1, 1)) (m = [EdgeDetection::Sobel, EdgeDetection::Laplace][any(1) as usize]) |i| i.edge_detection(m) => ops::edge_detection(i, m);
    c30_jpeg_quality (sized(1, 1)) (q = nd::u8(), a = any(1) == 1) |i| i.with_jpeg_quality(q, a) => ops::jpeg_quality(i, q, a);
    c30_random_noise (sized(2, 1)) (a = amount()) |i| i.random_noise(a) => ops::random_noise(i, a);
    c30_salt_n_pepper_noise (sized(1, 1)) (a = amount()) |i| i.salt_n_pepper_noise(a) => ops::salt_n_pepper_noise(i, a);
    c30_rgb_noise (sized(1, 1)) (a = amount()) |i| i.rgb_noise(a) => ops::rgb_noise(i, a);
    c30_gaussian_noise (sized(2, 1)) (a = amount()) |i| i.gaussian_noise(a) => ops::gaussian_noise(i, a);
    c30_add_random_noise (sized(2, 1)) (a = amount()) |i| { let mut j = i.clone(); j.add_random_noise(a); j } => { let mut j = i.clone(); ops::add_random_noise(&mut j, a); j };
    c30_add_salt_n_pepper_noise (sized(1, 1)) (a = amount()) |i| { let mut j = i.clone(); j.add_salt_n_pepper_noise(a); j } => { let mut j = i.clone(); ops::add_salt_n_pepper_noise(&mut j, a); j };
    c30_add_rgb_noise (sized(1, 1)) (a = amount()) |i| { let mut j = i.clone(); j.add_rgb_noise(a); j } => { let mut j = i.clone(); ops::add_rgb_noise(&mut j, a); j };
    c30_add_gaussian_noise (sized(2, 1)) (a = amount()) |i| { let mut j = i.clone(); j.add_gaussian_noise(a); j } => { let mut j = i.clone(); ops::add_gaussian_noise(&mut j, a); j };
    c30_gaussian_blur (sized(2, 1)) (r = nd::pick(1, 2), s = [None, Some(0.8f32)][any(1) as usize]) |i| i.gaussian_blur(r, s) => ops::gaussian_blur(i, r, s);
    c30_unsharp (sized(2, 1)) (r = nd::pick(1, 2), f = amount(), s = [None, Some(0.8f32)][any(1) as usize]) |i| i.unsharp(r, f, s) => ops::unsharp(i, r, f, s);
    c30_blend (sized(2, 1)) (o = sized(1, 2), v = nd::unit(), m = any(2)) |i| i.blend(&Image::new_from_buffer(o.clone()), op(m), v) => ops::blend_image(i, &o, op(m), v);
    c30_interlace (sized(3, 2)) (o = any(3)) |i| i.interlace(o) => ops::interlace(i, o);
    c30_optimize_lightness (sized(2, 1)) (a = nd::unit()) |i| i.optimize_lightness(a) => ops::optimize_lightness(i, a);
}
#[no_mangle]
pub extern "C" fn c30_compose() {
    let (a, b) = (sized(nd::pick(1, 2), 1), sized(1, nd::pick(1, 2)));
    let d = upx();
    let (x, y) = (Image::new_from_buffer(a.clone()), Image::new_from_buffer(b.clone()));
    let f = |x: u32, y: u32, c: [Rgb; 2]| Rgb { data: [c[0].data[0], c[1].data[1], c[0].data[2], x as f32 + 4.0 * y as f32] };
    let g = |x: u32, y: u32, c: &[Rgb]| Rgb { data: [c[0].data[0], c[1].data[1], c[0].data[2], x as f32 + 4.0 * y as f32] };
    let want = ops::compose([&a, &b], d, f);
    eq(Image::compose([&x, &y], d, f).buffer(), &want);
    eq(Image::compose_slice(&[&x, &y], d, g).buffer(), &want);
    let at = any(2) as i32;
    let n = std::cell::Cell::new(0);
    let stop = |ok: Rgb| { n.set(n.get() + 1); if n.get() - 1 == at { Err(at) } else { Ok(ok) } };
    let r = Image::try_compose([&x, &y], d, |p, q, c| stop(f(p, q, c)));
    let many = want.data().len() as i32;
    match r {
        Ok(i) => { nd::check(at >= many, "an error is passed on"); eq(i.buffer(), &want) }
        Err(e) => nd::check(e == at && at < many, "the callback's error"),
    }
    n.set(0);
    match Image::try_compose_slice(&[&x, &y], d, |p, q, c| stop(g(p, q, c))) {
        Ok(i) => { nd::check(at >= many, "an error is passed on."); eq(i.buffer(), &want) }
        Err(e) => nd::check(e == at && at < many, "the callback's error."),
    }
}
/// percentages give the rounded size, at least one pixel
#[no_mangle]
pub extern "C" fn c30_resize_pct() {
    let (w, h) = (nd::pick(1, 3), nd::pick(1, 2));
    let pct = nd::range_f32(0.0, 180.0);
    let i = Image::new(w, h);
    let r = i.resize_pct(pct, FilterMode::Nearest);
    for (n, o) in [(r.width(), w), (r.height(), h)] {
        let e = n as f32 - o as f32 * pct / 100.0;
        nd::check(n >= 1, "at least one pixel");
        nd::check(e >= -0.5001 && (e <= 0.5001 || n == 1), "rounded size");
    }
}
/// the accessors show the buffer
#[no_mangle]
pub extern "C" fn c30_access() {
    let b = sized(2, 2);
    let (w, h) = (b.width(), b.height());
    let mut i = match any(2) {
        0 => Image::new_from_buffer(b.clone()),
        1 => Image::new_from_raw(w, h, b.data().to_vec()),
        _ => Image::new_from_raw_with_meta(&Image::new(1, 1), w, h, b.data().to_vec()),
    };
    eq(i.buffer(), &b);
    nd::check(i.width() == w && i.height() == h && !i.is_empty() && i.data().len() == (w * h) as usize, "dimensions");
    let (x, y) = (any(1), any(1));
    nd::check(same(i.get_pixel(x, y), b.get_pixel(x, y)), "get_pixel");
    let (p, q) = (any(3) as i32 - 1, any(3) as i32 - 1);
    nd::check(same(i.get_pixel_clamped(p, q), b.get_pixel_clamped(p, q)), "get_pixel_clamped");
    nd::check(match (i.get_pixel_optional(p, q), b.get_pixel_optional(p, q)) { (Some(a), Some(b)) => same(a, b), (None, None) => true, _ => false }, "get_pixel_optional");
    nd::check(i.is_in_image(p, q) == b.is_in_image(p, q), "is_in_image");
    nd::check(i.has_transparency() == b.has_transparency(), "has_transparency");
    nd::check(i.is_grayscale() == b.is_grayscale(), "is_grayscale");
    let c = px();
    let mut b = b;
    i.put_pixel(x, y, c);
    b.put_pixel(x, y, c);
    eq(i.buffer(), &b);
    i.data_mut()[0] = c;
    i.buffer_mut().data_mut()[(w * h) as usize - 1] = c;
    let n = (w * h) as usize - 1;
    b.data_mut()[0] = c;
    b.data_mut()[n] = c;
    eq(i.buffer(), &b);
}
#[no_mangle]
pub extern "C" fn c30_new() {
    let (w, h) = (any(3), any(3));
    nd::assume((w == 0) == (h == 0));
    let c = px();
    let i = Image::new_with_color(w, h, c);
    nd::check(i.width() == w && i.height() == h && i.is_empty() == (w == 0), "size");
    nd::check(i.data().len() == (w * h) as usize, "number of pixels");
    for p in i.data() {
        nd::check(same(p, &c), "colour");
    }
    let i = Image::new(w, h);
    nd::check(i.width() == w && i.height() == h, "size");
    eq(i.buffer(), &PixelBuffer::new(w, h));
}
/// the callbacks see every pixel once, in order, and their results are used
#[no_mangle]
pub extern "C" fn c30_callbacks() {
    let b = some();
    let i = Image::new_from_buffer(b.clone());
    let k = upx();
    let f = |p: &Rgb| Rgb { data: [p.data[3], k.data[0], p.data[0], p.data[1]] };
    let g = |x: u32, y: u32, p: &Rgb| Rgb { data: [p.data[3], x as f32, y as f32, p.data[1]] };
    let at = any(6) as i32;
    let n = std::cell::Cell::new(0);
    let stop = |ok: Rgb| { n.set(n.get() + 1); if n.get() - 1 == at { Err(at) } else { Ok(ok) } };
    let many = b.data().len() as i32;
    let (wf, wg) = (b.map_colors(f), b.map_colors_enumerated(g));
    let outcome = |r: Result<Image, i32>, want: &PixelBuffer<Rgb>| {
        match r {
            Ok(i) => { nd::check(at >= many, "an error is passed on"); eq(i.buffer(), want) }
            Err(e) => nd::check(e == at && at < many, "the callback's error"),
        }
        n.set(0);
    };
    match any(7) {
        0 => eq(i.map_colors(f).buffer(), &wf),
        1 => eq(i.map_colors_enumerated(g).buffer(), &wg),
        2 => { let mut j = i.clone(); j.mod_colors(f); eq(j.buffer(), &wf) }
        3 => { let mut j = i.clone(); j.mod_colors_enumerated(g); eq(j.buffer(), &wg) }
        4 => outcome(i.try_map_colors(|p| stop(f(p))), &wf),
        5 => outcome(i.try_map_colors_enumerated(|x, y, p| stop(g(x, y, p))), &wg),
        6 => { let mut j = i.clone(); let r = j.try_mod_colors(|p| stop(f(p))); outcome(r.map(|_| j), &wf) }
        _ => { let mut j = i.clone(); let r = j.try_mod_colors_enumerated(|x, y, p| stop(g(x, y, p))); outcome(r.map(|_| j), &wg) }
    }
}
/// save and open in every format, to files, writers and memory
#[no_mangle]
pub extern "C" fn c30_save() {
    let i = Image::new_from_buffer(sized(1, 1));
    let c = nd::pick(1, 6);
    let mut mem = vec![];
    let want = match d10::EncodingFormat::clone(&disk::format(c)) { f => i.save_to_writer(&mut mem, f).is_ok() };
    let r = out();
    let f = fs();
    let (n, raw) = disk::name(c);
    f.save_name = raw;
    match any(2) {
        0 => { nd::check(i.save(n).is_ok() == want, "result"); nd::check(f.data == mem, "bytes") }
        1 => {
            f.save_name = b"a.png";
            nd::check(i.save_with_format("a.png", disk::format(c)).is_ok() == want, "result");
            nd::check(f.data == mem, "bytes");
        }
        _ => match i.save_to_buffer(disk::format(c)) {
            Ok(v) => nd::check(want && v == mem, "bytes"),
            Err(_) => nd::check(!want, "result"),
        },
    }
    nd::check(same_out(&out(), &r), "the image encoded");
}
#[no_mangle]
pub extern "C" fn c30_open() {
    let c = nd::pick(1, 6);
    let mut px = vec![];
    for _ in 0..4 {
        px.push(nd::u8());
    }
    let f = fs();
    f.name = b"a.x";
    f.exists = true;
    f.data = head(c).to_vec();
    let fail = any(2);
    let set = || {
        let d = ctl::dec();
        (d.w, d.h, d.channels, d.bits, d.data, d.fail) = (1, 1, 4, 8, px.clone(), fail);
    };
    set();
    let a = Image::open("a.x");
    set();
    let b = Image::read_from_buffer(head(c));
    match (a, b) {
        (Ok(a), Ok(b)) => { nd::check(fail == 0 || c == ctl::WEBP, "an error is passed on"); eq(a.buffer(), b.buffer()) }
        (Err(_), Err(_)) => nd::check(fail != 0, "an error has a cause"),
        _ => nd::check(false, "the same from a file and from memory"),
    }
}

/// one of three fixed images
fn pic() -> PixelBuffer<Rgb> {
    let (w, h, k) = [(3, 3, 0.37f32), (2, 1, 0.61), (1, 2, 0.83)][any(2) as usize];
    let mut v = vec![];
    let mut c = 0.21f32;
    for _ in 0..w * h {
        let mut d = [0.0; 4];
        for e in &mut d {
            c += k;
            if c > 1.0 {
                c -= 1.0;
            }
            *e = c;
        }
        v.push(Rgb { data: d });
    }
    PixelBuffer::new_from_raw(w, h, v)
}
facade1! {
    c30_white_balance (pic()) (t = nd::range_f32(0.0, 500.0)) |i| i.white_balance(t) => ops::balance(i, ops::BalanceMode::Rgb, t);
    c30_despeckle (pic()) (t = nd::unit(), a = nd::u8()) |i| i.despeckle(t, a) => ops::despeckle(i, t, a);
    c30_stretch_contrast (pic()) (t = nd::range_f32(0.0, 500.0)) |i| i.stretch_contrast(t) => ops::stretch_contrast(i, t);
    c30_change_color_temperature (pic()) (a = [5000.0, 7000.0][any(1) as usize], b = [6500.0, 3000.0][any(1) as usize], t = amount()) |i| i.change_color_temperature(a, b, t) => ops::change_color_temperature(i, a, b, t);
    c30_optimize_color_temperature (pic()) (a = [0.2, 0.5, 0.9][any(2) as usize], t = amount()) |i| i.optimize_color_temperature(a, t) => ops::optimize_color_temperature(i, a, t);
    c30_snn (pic()) (r = nd::pick(1, 2) as usize, c = any(1) == 1) |i| i.symmetric_nearest_neighbor(r, c) => ops::symmetric_nearest_neighbor(i, r, c);
    c30_palette (pic()) (p = pic()) |i| i.apply_palette(&Image::new_from_buffer(p.clone())) => ops::apply_palette(i, &p);
    c30_palette_in_place (pic()) (p = pic()) |i| { let mut j = i.clone(); j.apply_palette_in_place(&Image::new_from_buffer(p.clone())); j } => ops::apply_palette(i, &p);
    c30_drawing (pic()) (r = nd::pick(1, 2), m = match any(2) { 0 => ops::DrawingMode::Gray, 1 => ops::DrawingMode::Colored, _ => ops::DrawingMode::ReducedColors }) |i| i.drawing(r, m) => ops::drawing(i, r, m);
    c30_optimize_saturation (pic()) (o = amount(), m = match any(1) { 0 => ops::SaturationMode::Hsl, _ => ops::SaturationMode::Hsv }) |i| i.optimize_saturation(o, m) => ops::optimize_saturation(i, o, m);
    c30_equalize (pic()) (m = [EqualizeMode::Rgb, EqualizeMode::Lightness, EqualizeMode::Srgb][any(2) as usize]) |i| i.equalize(m) => ops::equalize(i, m);
    c30_balance (pic()) (m = [ops::BalanceMode::Rgb, ops::BalanceMode::Srgb, ops::BalanceMode::Hsv][any(2) as usize], t = nd::range_f32(0.0, 500.0)) |i| i.balance(m, t) => ops::balance(i, m, t);
}
