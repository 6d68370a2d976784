use crate::util::*;
use d10_core::color::{Color, Hsl, Intensity, Rgb};
use d10_core::pixelbuffer::PixelBuffer;
use d10_ops::*;

const EPS: f32 = 1.0 / 32768.0;
fn ok(v: f32) -> bool { (v >= 0.0) & (v <= 1.0) }
fn near(a: f32, b: f32) -> bool { let d = a - b; (d < EPS) & (d > -EPS) }
fn img(v: Vec<Rgb>) -> PixelBuffer<Rgb> { PixelBuffer::new_from_raw(v.len() as u32, 1, v) }
fn in_range(p: &Rgb) -> bool { ok(p.data[0]) & ok(p.data[1]) & ok(p.data[2]) & ok(p.data[3]) }
fn bits(a: f32, b: f32) -> bool { a == b }

/// a level of one of a few histogram buckets (every value of the bucket but its border)
fn level(k: u32) -> f32 {
    let k = [0u32, 1, 64, 127, 128, 254, 255][k as usize];
    nd::range_f32(((k as f32 - 0.45) / 255.0).max(0.0), ((k as f32 + 0.45) / 255.0).min(1.0))
}
fn bucket(k: u32) -> f32 { [0f32, 1.0, 64.0, 127.0, 128.0, 254.0, 255.0][k as usize] / 255.0 }
/// pixels whose red, green and blue are in (solver-chosen) buckets; the buckets
fn leveled(n: usize, kinds: u32) -> (PixelBuffer<Rgb>, Vec<u32>) {
    let mut v = Vec::new();
    let mut ks = Vec::new();
    for _ in 0..n {
        let k = nd::pick(0, kinds - 1);
        v.push(Rgb { data: [level(k), level(kinds - 1 - k), level((k + 1) % kinds), nd::unit()] });
        ks.push(k);
    }
    (img(v), ks)
}

// ------------------------------------------------------------------ C20 histogram operations
/// the result is a function of the bucket: increasing, alpha kept, brightest becomes 1
fn equalized(n: usize, kinds: u32) {
    let (b, ks) = leveled(n, kinds);
    let r = equalize(&b, EqualizeMode::Rgb);
    nd::check(r.width() == n as u32 && r.height() == 1, "the same size");
    let bucket_of = |i: usize, c: usize| match c { 0 => ks[i], 1 => kinds - 1 - ks[i], _ => (ks[i] + 1) % kinds };
    for i in 0..n {
        let p = &r.data()[i];
        nd::check(bits(p.data[3], b.data()[i].data[3]), "alpha kept");
        for c in 0..3 {
            nd::check(ok(p.data[c]), "in range");
            let mut below = 0;
            let mut zero = 0;
            for j in 0..n {
                if bucket_of(j, c) <= bucket_of(i, c) {
                    below += 1;
                }
                if bucket_of(j, c) == 0 {
                    zero += 1;
                }
            }
            let e = if zero == n { 0.0 } else { (below - zero) as f32 / (n - zero) as f32 };
            nd::check(near(p.data[c], e), "the share of pixels up to this level, black level at 0");
        }
    }
}
#[no_mangle]
pub extern "C" fn c20_equalize_rgb() { equalized(2, 7) }
#[no_mangle]
pub extern "C" fn c20_equalize_rgb3() { equalized(3, 4) }
/// the other modes keep alpha
fn gray(n: usize, kinds: u32) -> (PixelBuffer<Rgb>, Vec<u32>) {
    let mut v = Vec::new();
    let mut ks = Vec::new();
    for _ in 0..n {
        let k = nd::pick(0, kinds - 1);
        let c = level(k);
        v.push(Rgb { data: [c, c, c, nd::unit()] });
        ks.push(k);
    }
    (img(v), ks)
}
#[no_mangle]
pub extern "C" fn c20_equalize_lightness() {
    let (b, ks) = gray(2, 7);
    let r = equalize(&b, EqualizeMode::Lightness);
    for i in 0..2 {
        let p = &r.data()[i];
        nd::check(bits(p.data[3], b.data()[i].data[3]), "alpha kept");
        nd::check(near(p.data[0], p.data[1]) & near(p.data[1], p.data[2]), "gray stays gray");
        nd::check(in_range(p), "in range");
        let below = ks.iter().filter(|&&k| k <= ks[i]).count();
        let zero = ks.iter().filter(|&&k| k == 0).count();
        let e = if zero == 2 { 0.0 } else { (below - zero) as f32 / (2 - zero) as f32 };
        nd::check(near(p.data[0], e), "lightness equalized");
    }
}
/// threshold 0: the darkest level goes to black, the brightest to white, order kept, alpha kept
fn stretched(n: usize, kinds: u32) {
    let mut v = Vec::new();
    let mut ks = Vec::new();
    for _ in 0..n {
        let k = nd::pick(0, kinds - 1);
        // truncated bucket: [k, k+1)
        let k255 = [0u32, 1, 64, 127, 128, 254, 255][k as usize] as f32;
        let c = if k255 < 255.0 { nd::range_f32((k255 + 0.05) / 255.0, (k255 + 0.95) / 255.0) } else { 1.0 };
        v.push(Rgb { data: [c, c, c, nd::unit()] });
        ks.push(k255);
    }
    let b = img(v);
    let r = stretch_contrast(&b, 0.0);
    let lo = ks.iter().fold(255f32, |a, &k| a.min(k)) / 255.0;
    let hi = ks.iter().fold(0f32, |a, &k| a.max(k)) / 255.0;
    for i in 0..n {
        let (p, q) = (&b.data()[i], &r.data()[i]);
        nd::check(bits(p.data[3], q.data[3]), "alpha kept");
        nd::check(in_range(q), "in range");
        if lo < hi {
            let e = ((p.data[0] - lo) / (hi - lo)).max(0.0).min(1.0);
            for c in 0..3 {
                nd::check(near(q.data[c], e), "the darkest level goes to black, the brightest to white");
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn c20_stretch2() { stretched(2, 7) }
#[no_mangle]
pub extern "C" fn c20_stretch3() { stretched(3, 4) }
/// an image that uses the whole range is left alone, whatever the threshold leaves of it
#[no_mangle]
pub extern "C" fn c20_stretch_full() {
    let mut v = vec![Rgb { data: [0.0, 0.0, 0.0, nd::unit()] }, Rgb { data: [1.0, 1.0, 1.0, nd::unit()] }];
    let c = level(nd::pick(0, 6));
    v.push(Rgb { data: [c, c, c, nd::unit()] });
    let b = img(v);
    let r = stretch_contrast(&b, nd::range_f32(0.0, 333.0));
    for i in 0..3 {
        nd::check(bits(b.data()[i].data[0], r.data()[i].data[0]) & bits(b.data()[i].data[3], r.data()[i].data[3]), "nothing to stretch");
    }
}
/// balancing the RGB channels: alpha kept, in range, order kept
#[no_mangle]
pub extern "C" fn c20_balance_rgb() {
    let mut v = Vec::new();
    let mut ks = Vec::new();
    for _ in 0..2 {
        let k = nd::pick(0, 6);
        let k255 = [0u32, 1, 64, 127, 128, 254, 255][k as usize] as f32;
        let c = if k255 < 255.0 { nd::range_f32((k255 + 0.05) / 255.0, (k255 + 0.95) / 255.0) } else { 1.0 };
        v.push(Rgb { data: [c, c, 0.5, nd::unit()] });
        ks.push(k);
    }
    let b = img(v);
    let r = balance(&b, BalanceMode::Rgb, 0.0);
    nd::check(r.width() == 2 && r.height() == 1, "the same size");
    for i in 0..2 {
        nd::check(bits(b.data()[i].data[3], r.data()[i].data[3]), "alpha kept");
        nd::check(in_range(&r.data()[i]), "in range");
        nd::check(bits(r.data()[i].data[0], r.data()[i].data[1]), "equal channels stay equal");
    }
    if ks[0] < ks[1] {
        nd::check(r.data()[0].data[0] <= r.data()[1].data[0], "order kept");
    }
}
/// any image: alpha and size kept by every mode
#[no_mangle]
pub extern "C" fn c20_modes_alpha() {
    let c = [Rgb::new(0.2, 0.5, 0.8), Rgb::new(0.0, 0.0, 0.0), Rgb::new(1.0, 1.0, 1.0), Rgb::new(0.9, 0.1, 0.3)];
    let mut v = Vec::new();
    for _ in 0..2 {
        let mut p = c[nd::pick(0, 3) as usize];
        p.data[3] = nd::unit();
        v.push(p);
    }
    let b = img(v);
    let r = match nd::pick(0, 9) {
        0 => equalize(&b, EqualizeMode::Rgb),
        1 => equalize(&b, EqualizeMode::Srgb),
        2 => equalize(&b, EqualizeMode::Saturation),
        3 => equalize(&b, EqualizeMode::Lightness),
        4 => equalize(&b, EqualizeMode::SaturationLightness),
        5 => balance(&b, BalanceMode::Rgb, 1.0),
        6 => balance(&b, BalanceMode::Srgb, 1.0),
        7 => balance(&b, BalanceMode::Hsv, 1.0),
        8 => balance(&b, BalanceMode::Hsl, 1.0),
        _ => balance(&b, BalanceMode::Lch, 1.0),
    };
    nd::check(r.width() == 2 && r.height() == 1, "the same size");
    for i in 0..2 {
        nd::check(bits(b.data()[i].data[3], r.data()[i].data[3]), "alpha kept");
        nd::check(in_range(&r.data()[i]), "in range");
    }
}

// ------------------------------------------------------------------ C24 palettes
type L = d10_core::color::Lab<d10_core::color::illuminant::D65, d10_core::color::observer::O2>;
fn dist(a: &Rgb, b: &Rgb) -> f32 {
    let (a, b): (L, L) = (a.to_lab(), b.to_lab());
    let d = [a.data[0] - b.data[0], a.data[1] - b.data[1], a.data[2] - b.data[2]];
    (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt()
}
const PAL: [[f32; 4]; 6] = [[0.0, 0.0, 0.0, 1.0], [1.0, 1.0, 1.0, 1.0], [0.9, 0.1, 0.1, 1.0], [0.05, 0.6, 0.2, 1.0],
    [0.5, 0.5, 0.5, 0.5], [0.1, 0.2, 0.9, 1.0]];
fn palette(n: u32) -> PixelBuffer<Rgb> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(Rgb { data: PAL[nd::pick(0, 5) as usize] });
    }
    img(v)
}
fn close(a: &Rgb, b: &Rgb) -> bool {
    let mut r = true;
    for i in 0..4 {
        r &= (a.data[i] - b.data[i]).abs() < 0.001;
    }
    r
}
/// every pixel becomes (the Lab round trip of) a palette colour no farther away than any other
fn nearest(c: Rgb, n: u32, in_place: bool) {
    let p = palette(n);
    let b = img(vec![c]);
    let r = if in_place {
        let mut m = b.clone();
        apply_palette_in_place(&mut m, &p);
        m
    } else {
        apply_palette(&b, &p)
    };
    nd::check(r.width() == 1 && r.height() == 1, "the same size");
    let mut found = false;
    for q in p.data() {
        let mut best = true;
        for o in p.data() {
            best &= dist(&c, q) <= dist(&c, o);
        }
        found |= best & close(&r.data()[0], q);
    }
    nd::check(found, "a nearest colour of the palette");
}
#[no_mangle]
pub extern "C" fn c24_nearest_red() { nearest(Rgb { data: [nd::unit(), 0.25, 0.75, nd::unit()] }, 2, nd::pick(0, 1) == 1) }
#[no_mangle]
pub extern "C" fn c24_nearest_green() { nearest(Rgb { data: [0.125, nd::unit(), 0.5, nd::unit()] }, 2, false) }
#[no_mangle]
pub extern "C" fn c24_nearest_blue() { nearest(Rgb { data: [0.5, 0.125, nd::unit(), nd::unit()] }, 2, false) }
#[no_mangle]
pub extern "C" fn c24_nearest_three() { nearest(Rgb { data: [nd::unit(), 0.5, 0.5, 1.0] }, 3, false) }
/// a palette of the image's own colour changes nothing; the palette's order does not matter
#[no_mangle]
pub extern "C" fn c24_own() {
    let c = Rgb { data: PAL[nd::pick(0, 5) as usize] };
    let mut v = vec![c];
    v.insert(nd::pick(0, 1) as usize, Rgb { data: PAL[nd::pick(0, 5) as usize] });
    let r = apply_palette(&img(vec![c]), &img(v));
    nd::check(close(&r.data()[0], &c), "a colour of the palette stays");
}

// ------------------------------------------------------------------ C29 blending
fn pair() -> (Rgb, Rgb, f32) { (upx(), upx(), nd::unit()) }
fn blend1(op: BlendOp, c1: Rgb, c2: Rgb, i: f32) -> Rgb { blend_image(&img(vec![c1]), &img(vec![c2]), op, i).data()[0] }
fn clamp01(v: f32) -> f32 { v.max(0.0).min(1.0) }
fn formula(which: u32) {
    let (c1, c2, i) = pair();
    let op = match which { 0 => BlendOp::Addition, 1 => BlendOp::Subtract, 2 => BlendOp::Darken, _ => BlendOp::Lighten };
    let r = blend1(op, c1, c2, i);
    let t = i * c2.data[3];
    for k in 0..3 {
        let (a, b) = (c1.data[k], c2.data[k]);
        let f = match which { 0 => a + b, 1 => a - b, 2 => a.min(b), _ => a.max(b) };
        nd::check(near(r.data[k], clamp01(a * (1.0 - t) + f * t)), "the blended channel");
        nd::check(ok(r.data[k]), "in range");
    }
    nd::check(r.data[3] == c2.data[3], "alpha of the upper image");
}
#[no_mangle]
pub extern "C" fn c29_addition() { formula(0) }
#[no_mangle]
pub extern "C" fn c29_subtract() { formula(1) }
#[no_mangle]
pub extern "C" fn c29_darken() { formula(2) }
#[no_mangle]
pub extern "C" fn c29_lighten() { formula(3) }
/// normal: the upper image over the lower one
#[no_mangle]
pub extern "C" fn c29_normal() {
    let (c1, c2, i) = pair();
    let r = blend1(BlendOp::Normal, c1, c2, i);
    let t = i * c2.data[3];
    for k in 0..3 {
        nd::check(near(r.data[k], c1.data[k] * (1.0 - t) + c2.data[k] * t), "the upper image over the lower one");
        nd::check(ok(r.data[k]), "in range");
    }
    nd::check((r.data[3] >= c1.data[3] - EPS) & (r.data[3] >= t - EPS) & ok(r.data[3]), "alpha does not shrink");
}
/// intensity 0 leaves the lower image, intensity 1 over opaque images gives the operation's full result
#[no_mangle]
pub extern "C" fn c29_none() {
    let (mut c1, mut c2) = (upx(), upx());
    c1.data[3] = 1.0;
    c2.data[3] = 1.0;
    let op = match nd::pick(0, 4) { 0 => BlendOp::Normal, 1 => BlendOp::Addition, 2 => BlendOp::Subtract, 3 => BlendOp::Darken, _ => BlendOp::Lighten };
    let r = blend1(op, c1, c2, 0.0);
    for k in 0..4 {
        nd::check(near(r.data[k], c1.data[k]), "intensity 0: the lower image");
    }
}
#[no_mangle]
pub extern "C" fn c29_alpha_blend() {
    let (c1, c2) = (upx(), upx());
    let r = c1.alpha_blend(c2);
    let t = c2.data[3];
    for k in 0..3 {
        nd::check(near(r.data[k], c1.data[k] * (1.0 - t) + c2.data[k] * t), "over");
    }
    nd::check((r.data[3] >= c1.data[3] - EPS) & (r.data[3] >= t - EPS) & ok(r.data[3]), "alpha does not shrink");
}
/// hsl modes with intensity 0 or on equal lightness keep the lower image (gray colours)
#[no_mangle]
pub extern "C" fn c29_hsl_gray() {
    let (a, b, i) = (nd::unit(), nd::unit(), nd::unit());
    let (c1, c2) = (Rgb { data: [a, a, a, 1.0] }, Rgb { data: [b, b, b, 1.0] });
    let dark = nd::pick(0, 1) == 0;
    let r = blend1(if dark { BlendOp::HslDarken } else { BlendOp::HslLighten }, c1, c2, i);
    let f = if dark { a.min(b) } else { a.max(b) };
    for k in 0..3 {
        nd::check(near(r.data[k], a * (1.0 - i) + f * i), "lightness of the darker or lighter");
    }
    nd::check(r.data[3] == 1.0, "opaque");
}

// ------------------------------------------------------------------ whole-image adjustments
fn kept(r: &PixelBuffer<Rgb>, b: &PixelBuffer<Rgb>) {
    nd::check(r.width() == b.width() && r.height() == b.height(), "the same size");
    for i in 0..b.data().len() {
        nd::check(near(r.data()[i].data[3], b.data()[i].data[3]), "alpha kept");
        nd::check(in_range(&r.data()[i]), "in range");
    }
}
/// one symbolic colour channel, symbolic alpha
fn one(k: u32) -> Rgb {
    let v = nd::unit();
    let a = nd::unit();
    match k { 0 => Rgb { data: [v, 0.25, 0.75, a] }, 1 => Rgb { data: [0.75, v, 0.25, a] }, _ => Rgb { data: [0.25, 0.75, v, a] } }
}
#[no_mangle]
pub extern "C" fn c09_optimize_lightness() {
    let b = img(vec![one(nd::pick(0, 2))]);
    kept(&optimize_lightness(&b, nd::range_f32(0.0, 1.9)), &b);
}
#[no_mangle]
pub extern "C" fn c09_optimize_saturation() {
    let b = img(vec![one(nd::pick(0, 2))]);
    let m = match nd::pick(0, 2) { 0 => SaturationMode::Hsl, 1 => SaturationMode::Hsv, _ => SaturationMode::Lch };
    kept(&optimize_saturation(&b, nd::range_f32(0.0, 1.0), m), &b);
}
#[no_mangle]
pub extern "C" fn c09_temperature() {
    let b = img(vec![one(nd::pick(0, 2))]);
    let t = [1500.0, 2000.0, 6500.0, 9999.0, 12000.0, 20000.0];
    kept(&change_color_temperature(&b, t[nd::pick(0, 5) as usize], t[nd::pick(0, 5) as usize], nd::range_f32(0.0, 1.0)), &b);
}
#[no_mangle]
pub extern "C" fn c09_drawing() {
    let c = nd::unit();
    let b = img(vec![Rgb { data: [c, c, c, 1.0] }]);
    let m = if nd::pick(0, 1) == 0 { DrawingMode::Gray } else { DrawingMode::Colored };
    kept(&drawing(&b, nd::pick(0, 2), m), &b);
}

// ------------------------------------------------------------------ histogram operations on images of medium size
/// gray levels in the middle of a fixed pattern of buckets, the last pixel in any of seven
fn medium() -> (PixelBuffer<Rgb>, Vec<u32>) {
    let (w, h) = if nd::pick(0, 1) == 0 { (17, 9) } else { (5, 30) };
    let n = (w * h) as usize;
    let (mut v, mut ks) = (Vec::with_capacity(n), Vec::with_capacity(n));
    let mut s = 12345u32;
    for i in 0..n {
        s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        let k = if i + 1 == n { [0u32, 1, 64, 127, 128, 254, 255][nd::pick(0, 6) as usize] } else { 20 + (s >> 24) % 200 };
        let c = (k as f32 + if k < 255 { 0.25 } else { 0.0 }) / 255.0;
        v.push(Rgb { data: [c, c, c, (i + 1) as f32 / 256.0] });
        ks.push(k);
    }
    v[n - 1].data[3] = nd::unit();
    (PixelBuffer::new_from_raw(w, h, v), ks)
}
#[no_mangle]
pub extern "C" fn c20_medium_equalize() {
    let (b, ks) = medium();
    let n = ks.len();
    let r = equalize(&b, if nd::pick(0, 1) == 0 { EqualizeMode::Rgb } else { EqualizeMode::Lightness });
    nd::check(r.width() == b.width() && r.height() == b.height() && r.data().len() == n, "the same size");
    let zero = ks.iter().filter(|&&k| k == 0).count();
    for i in 0..n {
        let below = ks.iter().filter(|&&k| k <= ks[i]).count();
        let e = (below - zero) as f32 / (n - zero) as f32;
        for c in 0..3 {
            nd::check(near(r.data()[i].data[c], e), "the share of pixels up to this level, black level at 0");
        }
        nd::check(bits(r.data()[i].data[3], b.data()[i].data[3]), "alpha kept");
    }
}
/// the levels cut off at each end are those of at most the given share of the pixels
#[no_mangle]
pub extern "C" fn c20_medium_stretch() {
    let (b, ks) = medium();
    let n = ks.len();
    let t = [0u32, 1, 10, 50][nd::pick(0, 3) as usize];
    // a share between two pixels
    let r = stretch_contrast(&b, (t as f32 + 0.5 * (t > 0) as u32 as f32) * 1000.0 / n as f32);
    nd::check(r.width() == b.width() && r.height() == b.height() && r.data().len() == n, "the same size");
    let lo = *ks.iter().filter(|&&k| ks.iter().filter(|&&o| o <= k).count() as u32 > t).min().unwrap() as f32 / 255.0;
    let hi = *ks.iter().filter(|&&k| ks.iter().filter(|&&o| o >= k).count() as u32 > t).max().unwrap() as f32 / 255.0;
    for i in 0..n {
        let e = ((b.data()[i].data[0] - lo) / (hi - lo)).max(0.0).min(1.0);
        for c in 0..3 {
            nd::check(near(r.data()[i].data[c], e), "the cut levels become black and white, those between are stretched");
        }
        nd::check(bits(r.data()[i].data[3], b.data()[i].data[3]), "alpha kept");
    }
}
#[no_mangle]
pub extern "C" fn c20_medium_balance() {
    let (b, ks) = medium();
    let n = ks.len();
    let r = balance(&b, BalanceMode::Rgb, nd::pick(0, 2) as f32);
    nd::check(r.width() == b.width() && r.height() == b.height() && r.data().len() == n, "the same size");
    let (mut lo, mut hi) = (0, 0);
    for i in 0..n {
        let p = &r.data()[i];
        nd::check(in_range(p), "in range");
        nd::check(bits(p.data[0], p.data[1]) & bits(p.data[1], p.data[2]), "equal channels stay equal");
        nd::check(bits(p.data[3], b.data()[i].data[3]), "alpha kept");
        if ks[i] < ks[lo] { lo = i; }
        if ks[i] > ks[hi] { hi = i; }
        if i > 0 && ks[i] < ks[i - 1] {
            nd::check(p.data[0] <= r.data()[i - 1].data[0], "order kept");
        }
    }
    nd::check((r.data()[lo].data[0] < 0.02) & (r.data()[hi].data[0] > 0.98), "the whole range is used");
}
