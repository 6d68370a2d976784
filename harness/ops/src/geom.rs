use crate::util::*;
use d10_core::color::{Color, Rgb};
use d10_core::pixelbuffer::PixelBuffer;
use d10_ops::*;

fn at(b: &PixelBuffer<Rgb>, w: u32, x: u32, y: u32) -> &Rgb { &b.data()[(y * w + x) as usize] }

// ------------------------------------------------------------------ C05 flips and right-angle rotations
type Op = fn(&PixelBuffer<Rgb>) -> PixelBuffer<Rgb>;
fn permutation(max: u32, which: u32) { permutation_of(nd::pick(1, max), nd::pick(1, max), which) }
fn permutation_of(w: u32, h: u32, which: u32) {
    let b = buf(w, h);
    let r = match which {
        0 => flip_horizontal(&b),
        1 => flip_vertical(&b),
        2 => rotate90(&b),
        3 => rotate180(&b),
        _ => rotate270(&b),
    };
    let (rw, rh) = if which == 2 || which == 4 { (h, w) } else { (w, h) };
    nd::check(r.width() == rw && r.height() == rh && r.data().len() == (rw * rh) as usize, "dimensions");
    for y in 0..rh {
        for x in 0..rw {
            let s = match which {
                0 => at(&b, w, w - 1 - x, y),
                1 => at(&b, w, x, h - 1 - y),
                2 => at(&b, w, y, h - 1 - x),
                3 => at(&b, w, w - 1 - x, h - 1 - y),
                _ => at(&b, w, w - 1 - y, x),
            };
            nd::check(same(at(&r, rw, x, y), s), "pixel moved to its place unchanged");
        }
    }
}
/// larger images of unequal sides
fn permutation_medium(which: u32) {
    let (w, h) = [(9, 17), (33, 2), (2, 33), (16, 8), (1, 300), (300, 1)][nd::pick(0, 5) as usize];
    permutation_of(w, h, which)
}
#[no_mangle]
pub extern "C" fn c05_medium() { permutation_medium(nd::pick(0, 4)) }
macro_rules! perm { ($($n:ident $l:ident $k:expr),*) => { $(
#[no_mangle]
pub extern "C" fn $n() { permutation(4, $k) }
#[no_mangle]
pub extern "C" fn $l() { permutation(7, $k) }
)* } }
perm!(c05_flip_horizontal c05_flip_horizontal_big 0, c05_flip_vertical c05_flip_vertical_big 1,
    c05_rotate90 c05_rotate90_big 2, c05_rotate180 c05_rotate180_big 3, c05_rotate270 c05_rotate270_big 4);
/// each operation undone by its inverse; an empty image stays empty
#[no_mangle]
pub extern "C" fn c05_inverse() {
    let (w, h) = (nd::pick(1, 3), nd::pick(1, 3));
    let b = buf(w, h);
    let r = match nd::pick(0, 4) {
        0 => flip_horizontal(&flip_horizontal(&b)),
        1 => flip_vertical(&flip_vertical(&b)),
        2 => rotate270(&rotate90(&b)),
        3 => rotate180(&rotate180(&b)),
        _ => rotate90(&rotate270(&b)),
    };
    nd::check(r.width() == w && r.height() == h, "dimensions restored");
    for y in 0..h {
        for x in 0..w {
            nd::check(same(at(&r, w, x, y), at(&b, w, x, y)), "pixel restored");
        }
    }
}
#[no_mangle]
pub extern "C" fn c05_empty() {
    let b: PixelBuffer<Rgb> = PixelBuffer::new(0, 0);
    let r = match nd::pick(0, 4) {
        0 => flip_horizontal(&b),
        1 => flip_vertical(&b),
        2 => rotate90(&b),
        3 => rotate180(&b),
        _ => rotate270(&b),
    };
    nd::check(r.width() == 0 && r.height() == 0 && r.data().len() == 0, "empty");
}

// ------------------------------------------------------------------ C06 crop
fn cropped(w: u32, h: u32) {
    let b = buf(w, h);
    let (ox, oy, cw, ch) = (nd::u32(), nd::u32(), nd::u32(), nd::u32());
    let r = crop(&b, ox, oy, cw, ch);
    // the intersection of [ox, ox+cw) x [oy, oy+ch) with the image
    let ew = (ox as u64 + cw as u64).min(w as u64).saturating_sub(ox as u64) as u32;
    let eh = (oy as u64 + ch as u64).min(h as u64).saturating_sub(oy as u64) as u32;
    let (ew, eh) = (nd::fork32(ew), nd::fork32(eh));
    let (ew, eh) = if ew == 0 || eh == 0 { (0, 0) } else { (ew, eh) };
    nd::check(r.width() == ew && r.height() == eh && r.data().len() == (ew * eh) as usize,
        "the cropped size is the intersection of the rectangle and the image");
    if ew == 0 {
        return;
    }
    nd::cover("a non-empty crop");
    let (ox, oy) = (nd::fork32(ox), nd::fork32(oy));
    for y in 0..eh {
        for x in 0..ew {
            nd::check(same(at(&r, ew, x, y), at(&b, w, ox + x, oy + y)), "pixels of the rectangle, in place");
        }
    }
}
#[no_mangle]
pub extern "C" fn c06_crop() { cropped(nd::pick(1, 3), nd::pick(1, 3)) }
#[no_mangle]
pub extern "C" fn c06_crop_wide() { cropped(nd::pick(4, 5), nd::pick(1, 2)) }
#[no_mangle]
pub extern "C" fn c06_crop_big() { cropped(nd::pick(1, 5), nd::pick(1, 5)) }
#[no_mangle]
pub extern "C" fn c06_crop_medium() {
    let (w, h) = [(21, 10), (10, 21), (40, 3)][nd::pick(0, 2) as usize];
    let b = buf(w, h);
    let a = |n: u32| [0, 1, n / 2, n - 1][nd::pick(0, 3) as usize];
    let (ox, oy) = (a(w), a(h));
    let e = |n: u32| [1, n / 2, n, u32::MAX][nd::pick(0, 3) as usize];
    let (cw, ch) = (e(w), e(h));
    let r = crop(&b, ox, oy, cw, ch);
    let (ew, eh) = (cw.min(w - ox), ch.min(h - oy));
    nd::check(r.width() == ew && r.height() == eh && r.data().len() == (ew * eh) as usize,
        "the cropped size is the intersection of the rectangle and the image");
    for y in 0..eh {
        for x in 0..ew {
            nd::check(same(at(&r, ew, x, y), at(&b, w, ox + x, oy + y)), "pixels of the rectangle, in place");
        }
    }
}
#[no_mangle]
pub extern "C" fn c06_crop_empty() {
    let b: PixelBuffer<Rgb> = PixelBuffer::new(0, 0);
    let r = crop(&b, nd::u32(), nd::u32(), nd::u32(), nd::u32());
    nd::check(r.width() == 0 && r.height() == 0 && r.data().len() == 0, "empty");
}

// ------------------------------------------------------------------ C07 compose and blend geometry
fn some(max: u32) -> PixelBuffer<Rgb> {
    let (w, h) = (nd::pick(0, max), nd::pick(0, max));
    nd::assume((w == 0) == (h == 0));
    buf(w, h)
}
fn expect<'a>(b: &'a PixelBuffer<Rgb>, d: &'a Rgb, x: u32, y: u32) -> &'a Rgb {
    if x < b.width() && y < b.height() { at(b, b.width(), x, y) } else { d }
}
/// every callback sees, for each input in order, its pixel at (x,y) or the default; the result is what it returns
#[no_mangle]
pub extern "C" fn c07_compose() { c07_compose_of(some(2), some(2)) }
#[no_mangle]
pub extern "C" fn c07_compose_medium() {
    if nd::pick(0, 1) == 0 { c07_compose_of(buf(9, 3), buf(4, 10)) } else { c07_compose_of(buf(3, 20), buf(17, 5)) }
}
fn c07_compose_of(a: PixelBuffer<Rgb>, b: PixelBuffer<Rgb>) {
    let d = px();
    let (w, h) = (a.width().max(b.width()), a.height().max(b.height()));
    let mut n = 0u32;
    let mut answers: Vec<Rgb> = Vec::new();
    let r = compose([&a, &b], d, |x, y, c| {
        nd::check(x == n % w && y == n / w, "row by row");
        nd::check(same(&c[0], expect(&a, &d, x, y)), "first image or default");
        nd::check(same(&c[1], expect(&b, &d, x, y)), "second image or default");
        n += 1;
        let p = px();
        answers.push(p);
        p
    });
    nd::check(r.width() == w && r.height() == h && n == w * h, "maximum of the widths and heights");
    for i in 0..(w * h) as usize {
        nd::check(same(&r.data()[i], &answers[i]), "the callback's value");
    }
}
#[no_mangle]
pub extern "C" fn c07_compose_slice() { c07_compose_slice_of(some(2), some(2)) }
#[no_mangle]
pub extern "C" fn c07_compose_slice_medium() {
    if nd::pick(0, 1) == 0 { c07_compose_slice_of(buf(9, 3), buf(4, 10)) } else { c07_compose_slice_of(buf(3, 20), buf(17, 5)) }
}
fn c07_compose_slice_of(a: PixelBuffer<Rgb>, b: PixelBuffer<Rgb>) {
    let d = px();
    let (w, h) = (a.width().max(b.width()), a.height().max(b.height()));
    let mut n = 0u32;
    let mut answers: Vec<Rgb> = Vec::new();
    let r = compose_slice(&[&a, &b], d, |x, y, c| {
        nd::check(x == n % w && y == n / w, "row by row");
        nd::check(c.len() == 2 && same(&c[0], expect(&a, &d, x, y)), "first image or default");
        nd::check(same(&c[1], expect(&b, &d, x, y)), "second image or default");
        n += 1;
        let p = px();
        answers.push(p);
        p
    });
    nd::check(r.width() == w && r.height() == h && n == w * h, "maximum of the widths and heights");
    for i in 0..(w * h) as usize {
        nd::check(same(&r.data()[i], &answers[i]), "the callback's value");
    }
}
/// three images of different shapes
#[no_mangle]
pub extern "C" fn c07_compose_three() {
    let (a, b, c) = (buf(nd::pick(1, 3), 1), buf(1, nd::pick(1, 3)), buf(2, 2));
    let d = px();
    let (w, h) = (a.width().max(2), b.height().max(2));
    let slice = nd::pick(0, 1) == 1;
    let mut n = 0u32;
    let mut f = |x: u32, y: u32, c0: &Rgb, c1: &Rgb, c2: &Rgb| {
        nd::check(x == n % w && y == n / w, "row by row");
        nd::check(same(c0, expect(&a, &d, x, y)), "first image or default");
        nd::check(same(c1, expect(&b, &d, x, y)), "second image or default");
        nd::check(same(c2, expect(&c, &d, x, y)), "third image or default");
        n += 1;
        *c1
    };
    let r = if slice {
        compose_slice(&[&a, &b, &c], d, |x, y, v| f(x, y, &v[0], &v[1], &v[2]))
    } else {
        compose([&a, &b, &c], d, |x, y, v| f(x, y, &v[0], &v[1], &v[2]))
    };
    nd::check(r.width() == w && r.height() == h, "maximum of the widths and heights");
    for y in 0..h {
        for x in 0..w {
            nd::check(same(at(&r, w, x, y), expect(&b, &d, x, y)), "the callback's value");
        }
    }
}
/// the first error a callback returns stops the composition and is returned
#[no_mangle]
pub extern "C" fn c07_try_compose() {
    let (a, b) = (buf(2, 1), buf(1, 2));
    let d = px();
    let slice = nd::pick(0, 1) == 1;
    let bad = nd::pick(0, 4);
    let mut n = 0u32;
    let mut f = || { n += 1; if n - 1 == bad { Err(bad + 7) } else { Ok(d) } };
    let r = if slice { try_compose_slice(&[&a, &b], d, |_, _, _| f()) } else { try_compose([&a, &b], d, |_, _, _| f()) };
    match r {
        Ok(_) => nd::check(bad == 4 && n == 4, "Ok only if no callback failed"),
        Err(e) => nd::check(bad < 4 && e == bad + 7 && n == bad + 1, "the first error, at once"),
    }
}
fn op(i: u32) -> BlendOp {
    match i {
        0 => BlendOp::Normal, 1 => BlendOp::Addition, 2 => BlendOp::Subtract, 3 => BlendOp::Darken, 4 => BlendOp::Lighten,
        5 => BlendOp::HslDarken, 6 => BlendOp::HslLighten, 7 => BlendOp::LchDarken, 8 => BlendOp::LchLighten,
        9 => BlendOp::LchHue, 10 => BlendOp::LchSaturation, _ => BlendOp::LchColor,
    }
}
/// outside the overlap, blending copies: no blend mode touches those pixels
#[no_mangle]
pub extern "C" fn c07_blend_outside() {
    let (mut a, mut b) = (if nd::bool() { buf(2, 1) } else { buf(0, 0) }, if nd::bool() { buf(1, 3) } else { buf(0, 0) });
    let i = nd::pick(0, 11);
    // the one shared pixel is fixed: what happens there is another property
    if a.width() > 0 && b.width() > 0 {
        a.put_pixel(0, 0, Rgb { data: [0.25, 0.5, 0.75, 1.0] });
        b.put_pixel(0, 0, Rgb { data: [0.5, 0.25, 0.125, 0.5] });
    }
    let r = blend_image(&a, &b, op(i), 0.5);
    let (w, h) = (a.width().max(b.width()), a.height().max(b.height()));
    nd::check(r.width() == w && r.height() == h, "maximum of the widths and heights");
    for y in 0..h {
        for x in 0..w {
            let (ia, ib) = (x < a.width() && y < a.height(), x < b.width() && y < b.height());
            if ia && ib {
                continue;
            }
            let p = at(&r, w, x, y);
            if ia {
                nd::check(same(p, at(&a, a.width(), x, y)), "only the first image: its pixel");
            } else if ib {
                nd::check(same(p, at(&b, b.width(), x, y)), "only the second image: its pixel");
            } else {
                nd::check(same(p, &Rgb::NONE), "neither: transparent");
            }
        }
    }
}

// ------------------------------------------------------------------ C08 interlace
fn interlaced(w: u32, h: u32, offset: u32) {
    let b = buf(w, h);
    let r = interlace(&b, offset);
    nd::check(r.width() == w && r.height() == h && r.data().len() == (w * h) as usize, "the same size");
    for y in 0..h {
        for x in 0..w {
            let sx = if y % 2 == 0 { (x as i64 - offset as i64).max(0) } else { (x as i64 + offset as i64).min(w as i64 - 1) };
            nd::check(same(at(&r, w, x, y), at(&b, w, sx as u32, y)), "even rows shifted right, odd rows left, borders repeated");
        }
    }
}
#[no_mangle]
pub extern "C" fn c08_small() { interlaced(nd::pick(1, 5), nd::pick(1, 3), nd::pick(0, 6)) }
#[no_mangle]
pub extern "C" fn c08_any_offset() { interlaced(nd::pick(1, 3), nd::pick(1, 3), nd::u32()) }
#[no_mangle]
pub extern "C" fn c08_tall() { interlaced(2, nd::pick(4, 6), nd::pick(0, 3)) }
#[no_mangle]
pub extern "C" fn c08_zero() {
    let (w, h) = (nd::pick(1, 3), nd::pick(1, 3));
    let b = buf(w, h);
    let r = interlace(&b, 0);
    for i in 0..(w * h) as usize {
        nd::check(same(&r.data()[i], &b.data()[i]), "offset 0 changes nothing");
    }
}
/// rows longer than 8 and 16 bit counters reach, checked around those limits
#[no_mangle]
pub extern "C" fn c08_long() {
    let (w, h) = (66000, 2);
    let b = opaque(w, h);
    let offset = 5;
    let r = interlace(&b, offset);
    nd::check(r.width() == w && r.height() == h && r.data().len() == (w * h) as usize, "the same size");
    for y in 0..h {
        for c in [0, 256, 32768, 65536, w] {
            for x in (c as i64 - 8).max(0)..(c as i64 + 8).min(w as i64) {
                let sx = if y == 0 { (x - offset as i64).max(0) } else { (x + offset as i64).min(w as i64 - 1) };
                nd::check(same(at(&r, w, x as u32, y), at(&b, w, sx as u32, y)), "long rows are shifted by the offset");
            }
        }
    }
    std::mem::forget(b);
}
