use crate::util::*;
use d10_core::color::{Color, Rgb};
use d10_core::pixelbuffer::PixelBuffer;
use d10_ops::*;

fn ok(v: f32) -> bool { v >= 0.0 && v <= 1.0 }
fn image() -> PixelBuffer<Rgb> {
    let (w, h) = (nd::pick(1, 2), nd::pick(1, 2));
    let mut v = Vec::new();
    for _ in 0..w * h {
        v.push(upx());
    }
    PixelBuffer::new_from_raw(w, h, v)
}
fn run(b: &PixelBuffer<Rgb>, in_place: u32, p: f32, f: fn(&PixelBuffer<Rgb>, f32) -> PixelBuffer<Rgb>,
    g: fn(&mut PixelBuffer<Rgb>, f32)) -> PixelBuffer<Rgb> {
    let r = if in_place == 1 {
        let mut r = b.clone();
        g(&mut r, p);
        r
    } else {
        f(b, p)
    };
    nd::check(r.width() == b.width() && r.height() == b.height() && r.data().len() == b.data().len(), "dimensions");
    r
}
/// salt and pepper: every pixel is black, white or untouched
#[no_mangle]
pub extern "C" fn c19_salt() {
    let b = image();
    let t = nd::range_f32(-1.0, 2.0);
    let r = run(&b, nd::pick(0, 1), t, salt_n_pepper_noise, add_salt_n_pepper_noise);
    for i in 0..r.data().len() {
        let (p, q) = (&b.data()[i], &r.data()[i]);
        nd::check(same(p, q) || same(q, &Rgb::BLACK) || same(q, &Rgb::WHITE), "black, white or untouched");
    }
}
#[no_mangle]
pub extern "C" fn c19_salt_none() {
    let b = image();
    let r = run(&b, nd::pick(0, 1), nd::range_f32(-1.0, 0.0), salt_n_pepper_noise, add_salt_n_pepper_noise);
    for i in 0..r.data().len() {
        nd::check(same(&b.data()[i], &r.data()[i]), "threshold 0 changes nothing");
    }
}
#[no_mangle]
pub extern "C" fn c19_salt_all() {
    let b = image();
    let r = run(&b, nd::pick(0, 1), nd::range_f32(1.001, 2.0), salt_n_pepper_noise, add_salt_n_pepper_noise);
    for i in 0..r.data().len() {
        let q = &r.data()[i];
        nd::check(same(q, &Rgb::BLACK) || same(q, &Rgb::WHITE), "threshold above 1 leaves no pixel");
    }
}
/// rgb noise: at most one channel changes, to full; alpha never
#[no_mangle]
pub extern "C" fn c19_rgb() {
    let b = image();
    let r = run(&b, nd::pick(0, 1), nd::range_f32(-1.0, 2.0), rgb_noise, add_rgb_noise);
    for i in 0..r.data().len() {
        let (p, q) = (&b.data()[i], &r.data()[i]);
        nd::check(p.data[3].to_bits() == q.data[3].to_bits(), "alpha untouched");
        let mut changed = 0u32;
        for k in 0..3 {
            let c = p.data[k].to_bits() != q.data[k].to_bits();
            nd::check(!c || q.data[k] == 1.0, "a changed channel is full");
            changed += c as u32;
        }
        nd::check(changed <= 1, "at most one channel changes");
    }
}
#[no_mangle]
pub extern "C" fn c19_rgb_none() {
    let b = image();
    let r = run(&b, nd::pick(0, 1), nd::range_f32(-1.0, 0.0), rgb_noise, add_rgb_noise);
    for i in 0..r.data().len() {
        nd::check(same(&b.data()[i], &r.data()[i]), "threshold 0 changes nothing");
    }
}
fn additive(a: f32, f: fn(&PixelBuffer<Rgb>, f32) -> PixelBuffer<Rgb>, g: fn(&mut PixelBuffer<Rgb>, f32)) {
    let b = image();
    let r = run(&b, nd::pick(0, 1), a, f, g);
    for i in 0..r.data().len() {
        let (p, q) = (&b.data()[i], &r.data()[i]);
        nd::check(p.data[3].to_bits() == q.data[3].to_bits(), "alpha untouched");
        for k in 0..3 {
            nd::check(ok(q.data[k]), "channels stay in range");
            if a == 0.0 {
                nd::check(p.data[k] == q.data[k], "no noise with alpha 0");
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn c19_random() { additive(nd::range_f32(0.0, 1.0), random_noise, add_random_noise) }
#[no_mangle]
pub extern "C" fn c19_gaussian() { additive(nd::range_f32(0.0, 1.0), gaussian_noise, add_gaussian_noise) }
#[no_mangle]
pub extern "C" fn c19_random_none() { additive(0.0, random_noise, add_random_noise) }
#[no_mangle]
pub extern "C" fn c19_gaussian_none() { additive(0.0, gaussian_noise, add_gaussian_noise) }

// ------------------------------------------------------------------ medium size
fn medium() -> PixelBuffer<Rgb> {
    let (w, h) = if nd::pick(0, 1) == 0 { (9, 5) } else { (5, 9) };
    let mut v = Vec::new();
    for i in 0..w * h {
        v.push(Rgb { data: [0.25, 0.5, 0.75, (i + 1) as f32 / 64.0] });
    }
    v[44] = upx();
    PixelBuffer::new_from_raw(w, h, v)
}
#[no_mangle]
pub extern "C" fn c19_medium_none() {
    let b = medium();
    let p = nd::pick(0, 1);
    let r = match nd::pick(0, 3) {
        0 => run(&b, p, 0.0, salt_n_pepper_noise, add_salt_n_pepper_noise),
        1 => run(&b, p, 0.0, rgb_noise, add_rgb_noise),
        2 => run(&b, p, 0.0, random_noise, add_random_noise),
        _ => run(&b, p, 0.0, gaussian_noise, add_gaussian_noise),
    };
    for i in 0..45 {
        for k in 0..4 {
            nd::check(r.data()[i].data[k] == b.data()[i].data[k], "no noise with alpha or threshold 0");
        }
    }
}
fn medium_additive(f: fn(&PixelBuffer<Rgb>, f32) -> PixelBuffer<Rgb>, g: fn(&mut PixelBuffer<Rgb>, f32)) {
    let b = medium();
    let r = run(&b, nd::pick(0, 1), nd::unit(), f, g);
    for i in 0..45 {
        let (p, q) = (&b.data()[i], &r.data()[i]);
        nd::check(p.data[3].to_bits() == q.data[3].to_bits(), "alpha untouched");
        for k in 0..3 {
            nd::check(ok(q.data[k]), "channels stay in range");
        }
    }
}
#[no_mangle]
pub extern "C" fn c19_medium_random() { medium_additive(random_noise, add_random_noise) }
#[no_mangle]
pub extern "C" fn c19_medium_gaussian() { medium_additive(gaussian_noise, add_gaussian_noise) }
