use crate::util::*;
use d10_core::color::{Color, Rgb};
use d10_core::kernel::Kernel;
use d10_core::kernel_dyn::KernelDyn;
use d10_core::pixelbuffer::PixelBuffer;
use d10_ops::*;

const EPS: f32 = 1.0 / 32768.0;
fn ok(v: f32) -> bool { (v >= 0.0) & (v <= 1.0) }
fn near(a: f32, b: f32) -> bool { let d = a - b; (d < EPS) & (d > -EPS) }
/// unconstrained colours in range
fn ubuf(w: u32, h: u32) -> PixelBuffer<Rgb> {
    let mut v = Vec::new();
    for _ in 0..w * h {
        v.push(upx());
    }
    PixelBuffer::new_from_raw(w, h, v)
}
/// one symbolic channel per pixel in all four channels (the operations treat channels alike; see `channels`)
fn gbuf(w: u32, h: u32) -> PixelBuffer<Rgb> {
    let mut v = Vec::new();
    for _ in 0..w * h {
        let c = nd::unit();
        v.push(Rgb { data: [c, c, c, c] });
    }
    PixelBuffer::new_from_raw(w, h, v)
}
fn constant(w: u32, h: u32) -> (PixelBuffer<Rgb>, Rgb) {
    let c = upx();
    (PixelBuffer::new_with_color(w, h, c), c)
}
fn at(b: &PixelBuffer<Rgb>, x: u32, y: u32) -> &Rgb { &b.data()[(y * b.width() + x) as usize] }

// ------------------------------------------------------------------ C21 resize and rotate
fn mode(i: u32) -> FilterMode {
    match i { 0 => FilterMode::Nearest, 1 => FilterMode::Bilinear, 2 => FilterMode::Bicubic, 3 => FilterMode::Lanczos3, _ => FilterMode::Auto }
}
/// the result has the requested size; the same size gives the same image
#[no_mangle]
pub extern "C" fn c21_resize_dims() {
    let b = PixelBuffer::new_with_color(nd::pick(1, 3), nd::pick(1, 3), Rgb::new(0.25, 0.5, 0.75));
    let (w, h) = (nd::pick(1, 4), nd::pick(1, 4));
    let r = resize(&b, w, h, mode(nd::pick(0, 4)));
    nd::check(r.width() == w && r.height() == h && r.data().len() == (w * h) as usize, "the requested size");
}
#[no_mangle]
pub extern "C" fn c21_resize_same() {
    let (w, h) = (nd::pick(1, 3), nd::pick(1, 3));
    let b = buf(w, h);
    let r = resize(&b, w, h, mode(nd::pick(0, 4)));
    nd::check(r.width() == w && r.height() == h, "the same size");
    for i in 0..(w * h) as usize {
        nd::check(same(&r.data()[i], &b.data()[i]), "the same image");
    }
}
/// nearest: every pixel is an input pixel, columns and rows keep their order
#[no_mangle]
pub extern "C" fn c21_resize_nearest() {
    let (w, h) = (nd::pick(1, 3), nd::pick(1, 3));
    let (w2, h2) = (nd::pick(1, 5), nd::pick(1, 5));
    // the pixel's colour is its position
    let b = PixelBuffer::new_from_func(w, h, |x, y| Rgb { data: [x as f32, y as f32, 0.0, 1.0] });
    let r = resize(&b, w2, h2, FilterMode::Nearest);
    for y in 0..h2 {
        for x in 0..w2 {
            let p = at(&r, x, y);
            let (sx, sy) = (p.data[0], p.data[1]);
            nd::check(sx >= 0.0 && sx < w as f32 && sy >= 0.0 && sy < h as f32, "an input pixel");
            // within one pixel of the exact position
            let ex = (x as f32 + 0.5) * w as f32 / w2 as f32 - 0.5;
            let ey = (y as f32 + 0.5) * h as f32 / h2 as f32 - 0.5;
            nd::check((sx - ex).abs() <= 1.01 && (sy - ey).abs() <= 1.01, "from the corresponding place");
            if x > 0 {
                nd::check(at(&r, x - 1, y).data[0] <= sx && at(&r, x - 1, y).data[1] == sy, "columns in order");
            }
            if y > 0 {
                nd::check(at(&r, x, y - 1).data[1] <= sy && at(&r, x, y - 1).data[0] == sx, "rows in order");
            }
        }
    }
}
/// an image of one colour stays that colour
fn constant_resize(m: u32, hi: u32) {
    let (b, c) = constant(nd::pick(1, 3), nd::pick(1, 3));
    let (w, h) = (nd::pick(1, hi), nd::pick(1, hi));
    let r = resize(&b, w, h, mode(m));
    for p in r.data() {
        for k in 0..4 {
            nd::check(near(p.data[k], c.data[k]), "one colour stays that colour");
        }
    }
}
#[no_mangle]
pub extern "C" fn c21_const_nearest() { constant_resize(0, 4) }
#[no_mangle]
pub extern "C" fn c21_const_bilinear() { constant_resize(1, 4) }
#[no_mangle]
pub extern "C" fn c21_const_bicubic() { constant_resize(2, 4) }
/// bilinear: the result is the bilinear interpolation of the image at the pixel centre
#[no_mangle]
pub extern "C" fn c21_bilinear() {
    let (w, h) = (nd::pick(1, 3), nd::pick(1, 2));
    let (w2, h2) = (nd::pick(1, 4), nd::pick(1, 3));
    nd::assume(w != w2 || h != h2);
    let b = ubuf(w, h);
    let r = resize(&b, w2, h2, FilterMode::Bilinear);
    for y in 0..h2 {
        for x in 0..w2 {
            let gx = ((x as f64 + 0.5) * w as f64 / w2 as f64 - 0.5).clamp(0.0, (w - 1) as f64);
            let gy = ((y as f64 + 0.5) * h as f64 / h2 as f64 - 0.5).clamp(0.0, (h - 1) as f64);
            let (x0, y0) = (gx as u32, gy as u32);
            let (x1, y1) = ((x0 + 1).min(w - 1), (y0 + 1).min(h - 1));
            let (tx, ty) = ((gx - x0 as f64) as f32, (gy - y0 as f64) as f32);
            for k in 0..4 {
                let e = at(&b, x0, y0).data[k] * (1.0 - tx) * (1.0 - ty)
                    + at(&b, x1, y0).data[k] * tx * (1.0 - ty)
                    + at(&b, x0, y1).data[k] * (1.0 - tx) * ty
                    + at(&b, x1, y1).data[k] * tx * ty;
                nd::check(near(at(&r, x, y).data[k], e), "interpolated between the four neighbours");
                nd::check(ok(at(&r, x, y).data[k]), "in range");
            }
        }
    }
}
/// every filter but nearest treats left and right, up and down, and the two axes alike
fn mirrored(m: u32, lo: u32, hi: u32, lo2: u32, hi2: u32) {
    let (w, h) = (nd::pick(lo, hi), 2);
    let (w2, h2) = (nd::pick(lo2, hi2), nd::pick(1, 3));
    nd::assume(w != w2 || h != h2);
    let b = gbuf(w, h);
    let r = resize(&b, w2, h2, mode(m));
    let rx = flip_horizontal(&resize(&flip_horizontal(&b), w2, h2, mode(m)));
    let ry = flip_vertical(&resize(&flip_vertical(&b), w2, h2, mode(m)));
    let rt = rotate270(&resize(&rotate90(&b), h2, w2, mode(m)));
    for i in 0..(w2 * h2) as usize {
        let p = &r.data()[i];
        nd::check(near(p.data[0], rx.data()[i].data[0]), "left and right alike");
        nd::check(near(p.data[1], ry.data()[i].data[1]), "up and down alike");
        nd::check(near(p.data[2], rt.data()[i].data[2]), "rows and columns alike");
    }
}
#[no_mangle]
pub extern "C" fn c21_mirror_bilinear() { mirrored(1, 1, 3, 1, 4) }
#[no_mangle]
pub extern "C" fn c21_mirror_bicubic() { mirrored(2, 1, 3, 1, 4) }
#[no_mangle]
pub extern "C" fn c21_mirror_lanczos() { mirrored(3, 1, 2, 1, 3) }
/// bilinear and bicubic: in range
#[no_mangle]
pub extern "C" fn c21_range_bicubic() {
    let b = gbuf(nd::pick(1, 3), nd::pick(1, 2));
    let (w, h) = (nd::pick(1, 4), nd::pick(1, 3));
    let r = resize(&b, w, h, FilterMode::Bicubic);
    for p in r.data() {
        nd::check(ok(p.data[0]) && ok(p.data[3]), "in range");
    }
}
/// rotation keeps the size and copies pixels or the background (nearest), whatever the angle
#[no_mangle]
pub extern "C" fn c21_rotate_nearest_any() {
    let (w, h) = (nd::pick(1, 3), nd::pick(1, 2));
    let b = PixelBuffer::new_from_func(w, h, |x, y| Rgb { data: [x as f32, y as f32, 0.0, 1.0] });
    let r = rotate(&b, nd::range_f32(-720.0, 720.0), Rgb { data: [0.0, 0.0, 1.0, 0.5] }, FilterMode::Nearest);
    nd::check(r.width() == w && r.height() == h && r.data().len() == (w * h) as usize, "the same size");
    for p in r.data() {
        let bg = (p.data[0] == 0.0) & (p.data[1] == 0.0) & (p.data[2] == 1.0) & (p.data[3] == 0.5);
        let mut found = bg;
        for y in 0..h {
            for x in 0..w {
                found |= (p.data[0] == x as f32) & (p.data[1] == y as f32) & (p.data[2] == 0.0) & (p.data[3] == 1.0);
            }
        }
        nd::check(found, "an input pixel or the background");
    }
}
/// multiples of 90 degrees: the exact permutation
#[no_mangle]
pub extern "C" fn c21_rotate_right_angles() {
    let n = nd::pick(1, 4);
    let m = nd::pick(1, 4);
    let k = nd::pick(0, 8) as i32 - 4;
    nd::assume(k % 2 == 0 || n == m);
    let b = buf(n, m);
    let r = rotate(&b, 90.0 * k as f32, px(), FilterMode::Nearest);
    let e = match k.rem_euclid(4) { 0 => b.clone(), 1 => rotate90(&b), 2 => rotate180(&b), _ => rotate270(&b) };
    nd::check(r.width() == n && r.height() == m, "the same size");
    for i in 0..(n * m) as usize {
        nd::check(same(&r.data()[i], &e.data()[i]), "a quarter turn clockwise per 90 degrees");
    }
}
#[no_mangle]
pub extern "C" fn c21_rotate_right_angles_bilinear() {
    let n = nd::pick(1, 3);
    let k = nd::pick(0, 4) as i32;
    let b = gbuf(n, n);
    let r = rotate(&b, 90.0 * k as f32, Rgb::NONE, mode(nd::pick(1, 2)));
    let e = match k.rem_euclid(4) { 0 => b.clone(), 1 => rotate90(&b), 2 => rotate180(&b), _ => rotate270(&b) };
    for i in 0..(n * n) as usize {
        nd::check(near(r.data()[i].data[0], e.data()[i].data[0]), "a quarter turn clockwise per 90 degrees");
    }
}

// ------------------------------------------------------------------ C22 convolution and gaussian filters
fn img_and_kernel<const N: usize>(whi: u32, hhi: u32) {
    let b = gbuf(nd::pick(1, whi), nd::pick(1, hhi));
    let mut k = [[0f32; N]; N];
    let mut d = Vec::new();
    for y in 0..N {
        for x in 0..N {
            k[y][x] = nd::range_f32(-8.0, 8.0);
            d.push(k[y][x]);
        }
    }
    let r = b.apply_kernel(&Kernel::new(k));
    let q = b.apply_kernel_dyn(&KernelDyn::new(d, N as u32, N as u32));
    for i in 0..r.data().len() {
        nd::check(r.data()[i].data[0].to_bits() == q.data()[i].data[0].to_bits(), "bit for bit the same");
    }
}
#[no_mangle]
pub extern "C" fn c22_static_dyn3() { img_and_kernel::<3>(2, 2) }
/// the convolution sum, with an integer-valued image and arbitrary kernel positions: exact
#[no_mangle]
pub extern "C" fn c22_sum3() {
    let b = ubuf(nd::pick(1, 2), nd::pick(1, 2));
    let mut k = [[0f32; 3]; 3];
    for y in 0..3 {
        for x in 0..3 {
            k[y][x] = (y * 3 + x) as f32 - 3.5;
        }
    }
    let r = b.apply_kernel(&Kernel::new(k));
    for y in 0..b.height() {
        for x in 0..b.width() {
            for c in 0..4 {
                let mut e = 0f32;
                for i in 0..9i32 {
                    let (sx, sy) = ((x as i32 + i % 3 - 1).clamp(0, b.width() as i32 - 1), (y as i32 + i / 3 - 1).clamp(0, b.height() as i32 - 1));
                    e += at(&b, sx as u32, sy as u32).data[c] * (i as f32 - 3.5);
                }
                nd::check(near(at(&r, x, y).data[c], e), "the weighted sum of the window");
            }
        }
    }
}
/// gaussian blur: between the darkest and brightest pixel of the window; one colour stays that colour
fn blur(radius: u32, whi: u32, hhi: u32) {
    let b = gbuf(nd::pick(1, whi), nd::pick(1, hhi));
    let r = gaussian_blur(&b, radius, None);
    let mut lo = 1f32;
    let mut hi = 0f32;
    for p in b.data() {
        lo = lo.min(p.data[0]);
        hi = hi.max(p.data[0]);
    }
    nd::check(r.width() == b.width() && r.height() == b.height(), "the same size");
    for p in r.data() {
        for k in 0..4 {
            nd::check(p.data[k] >= lo - EPS && p.data[k] <= hi + EPS, "between the extremes");
        }
    }
}
#[no_mangle]
pub extern "C" fn c22_blur0() { blur(0, 2, 2) }
#[no_mangle]
pub extern "C" fn c22_blur1() { blur(1, 2, 2) }
#[no_mangle]
pub extern "C" fn c22_blur2() { blur(2, 2, 2) }
#[no_mangle]
pub extern "C" fn c22_blur3() { blur(3, 2, 1) }
#[no_mangle]
pub extern "C" fn c22_blur4() { blur(4, 2, 1) }
#[no_mangle]
pub extern "C" fn c22_blur_symmetric() {
    let b = gbuf(3, 2);
    let radius = nd::pick(1, 4);
    let r = gaussian_blur(&b, radius, None);
    let rx = flip_horizontal(&gaussian_blur(&flip_horizontal(&b), radius, None));
    let rt = rotate270(&gaussian_blur(&rotate90(&b), radius, None));
    for i in 0..6 {
        nd::check(near(r.data()[i].data[0], rx.data()[i].data[0]), "left and right alike");
        nd::check(near(r.data()[i].data[0], rt.data()[i].data[0]), "rows and columns alike");
    }
}
/// the gaussian kernels are normalised, non-negative and symmetric for every sigma
#[no_mangle]
pub extern "C" fn c22_gaussian_kernel() {
    let sigma = nd::range_f32(0.2, 16.0);
    let k = Kernel::<3>::new_gaussian(sigma);
    let d = KernelDyn::new_gaussian(3, sigma);
    let mut sum = 0f32;
    for y in 0..3 {
        for x in 0..3 {
            let v = k.data[y][x];
            nd::check(v >= 0.0, "no negative weight");
            nd::check(near(v, k.data[x][y]) && near(v, k.data[2 - y][x]), "symmetric");
            nd::check(near(v, d.get(x as u32, y as u32)), "the dynamic kernel is the same");
            sum += v;
        }
    }
    nd::check(near(sum, 1.0), "weights sum to one");
}
/// unsharp masking leaves an image of one colour alone and stays in range
#[no_mangle]
pub extern "C" fn c22_unsharp_const() {
    let (b, c) = constant(nd::pick(1, 2), nd::pick(1, 2));
    let r = unsharp(&b, nd::pick(0, 3), nd::range_f32(0.0, 1.0), None);
    for p in r.data() {
        for k in 0..4 {
            nd::check(near(p.data[k], c.data[k]), "one colour stays that colour");
            nd::check(ok(p.data[k]), "in range");
        }
    }
}
/// edge detection finds no edge in an image of one colour, and is opaque
#[no_mangle]
pub extern "C" fn c22_edges_const() {
    let (b, _) = constant(nd::pick(1, 2), nd::pick(1, 2));
    let r = edge_detection(&b, if nd::pick(0, 1) == 0 { EdgeDetection::Sobel } else { EdgeDetection::Laplace });
    for p in r.data() {
        for k in 0..3 {
            nd::check(near(p.data[k], 0.0), "no edge");
        }
        nd::check(p.data[3] == 1.0, "opaque");
    }
}

// ------------------------------------------------------------------ C23 despeckle, symmetric nearest neighbour
fn avg(c: &Rgb) -> f32 { (c.data[0] + c.data[1] + c.data[2]) / 3.0 }
/// pixels not darker than the threshold are untouched; alpha is; results are in range
fn speckle(w: u32, h: u32, amount: u8) {
    let b = gbuf(w, h);
    let t = nd::range_f32(0.0, 1.5);
    let r = despeckle(&b, t, amount);
    nd::check(r.width() == w && r.height() == h, "the same size");
    for i in 0..r.data().len() {
        let (p, q) = (&b.data()[i], &r.data()[i]);
        if p.data[0] > t + EPS {
            nd::check(q.data[0] == p.data[0], "a bright pixel is untouched");
        }
        nd::check(q.data[3] == p.data[3], "alpha untouched");
        for k in 0..3 {
            nd::check((q.data[k] >= -EPS) & (q.data[k] <= 1.0 + EPS), "in range");
        }
    }
}
#[no_mangle]
pub extern "C" fn c23_despeckle() { speckle(nd::pick(1, 2), 1, nd::pick(0, 2) as u8) }
#[no_mangle]
pub extern "C" fn c23_despeckle_tall() { speckle(1, 2, nd::u8()) }
/// a lone dark pixel is replaced by the mean of its bright neighbours
#[no_mangle]
pub extern "C" fn c23_despeckle_lone() {
    let mut b = gbuf(3, 3);
    let t = nd::range_f32(0.0, 1.0);
    for i in 0..9 {
        if i == 4 {
            nd::assume(b.data()[i].data[0] < t - EPS);
        } else {
            nd::assume(b.data()[i].data[0] > t + EPS);
        }
    }
    let amount = nd::u8();
    let r = despeckle(&b, t, amount);
    let mut sum = 0f32;
    for i in 0..9 {
        if i != 4 {
            sum += b.data()[i].data[0];
            nd::check(r.data()[i].data[0] == b.data()[i].data[0], "bright pixels untouched");
        }
    }
    if amount >= 1 {
        nd::check(near(r.data()[4].data[0], sum / 8.0), "replaced by the mean of the bright neighbours");
    } else {
        nd::check(r.data()[4].data[0] == b.data()[4].data[0], "amount 0 removes nothing");
    }
}
fn snn(w: u32, h: u32, radius: usize) {
    let b = gbuf(w, h);
    let r = symmetric_nearest_neighbor(&b, radius, nd::pick(0, 1) == 1);
    let mut lo = 1f32;
    let mut hi = 0f32;
    for p in b.data() {
        lo = lo.min(p.data[0]);
        hi = hi.max(p.data[0]);
    }
    nd::check(r.width() == w && r.height() == h, "the same size");
    for p in r.data() {
        for k in 0..4 {
            nd::check(p.data[k] >= lo - EPS && p.data[k] <= hi + EPS, "between the extremes");
        }
    }
}
#[no_mangle]
pub extern "C" fn c23_snn0() { snn(2, 1, 0) }
#[no_mangle]
pub extern "C" fn c23_snn1() { snn(nd::pick(1, 2), 1, 1) }
#[no_mangle]
pub extern "C" fn c23_snn2() { snn(2, 1, 2) }
/// the smoothed value does not depend on the image's orientation; edges between two flat areas stay
#[no_mangle]
pub extern "C" fn c23_snn_edge() {
    let (a, c) = (nd::unit(), nd::unit());
    let (pa, pc) = (Rgb { data: [a, a, a, 1.0] }, Rgb { data: [c, c, c, 1.0] });
    let vert = nd::pick(0, 1) == 1;
    let at = 1;
    let b = PixelBuffer::new_from_func(if vert { 2 } else { 1 }, if vert { 1 } else { 2 }, |x, y| if (if vert { x } else { y }) < at { pa } else { pc });
    let r = symmetric_nearest_neighbor(&b, 1, nd::pick(0, 1) == 1);
    for i in 0..2 {
        nd::check(near(r.data()[i].data[0], b.data()[i].data[0]), "an edge between two flat areas is kept");
    }
}

// ------------------------------------------------------------------ images of medium size
/// which of the medium sizes
fn medium_size(i: u32) -> (u32, u32) {
    match i { 0 => (17, 9), 1 => (9, 17), 2 => (33, 5), _ => (5, 33) }
}
/// a fixed pattern of 0 and 1 with three arbitrary pixels (first, middle, last)
fn pattern(w: u32, h: u32) -> PixelBuffer<Rgb> {
    let n = (w * h) as usize;
    let mut v = Vec::with_capacity(n);
    let mut s = 12345u32;
    for i in 0..n {
        s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        let c = (s >> 30 & 1) as f32;
        let c = if i == 0 || i == n / 2 || i == n - 1 { nd::unit() } else { c };
        v.push(Rgb { data: [c, c, c, c] });
    }
    PixelBuffer::new_from_raw(w, h, v)
}
#[no_mangle]
pub extern "C" fn c21_medium_same() {
    let (w, h) = medium_size(nd::pick(0, 3));
    let b = buf(w, h);
    let r = resize(&b, w, h, mode(nd::pick(0, 4)));
    nd::check(r.width() == w && r.height() == h, "the same size");
    for i in 0..(w * h) as usize {
        nd::check(same(&r.data()[i], &b.data()[i]), "the same image");
    }
}
#[no_mangle]
pub extern "C" fn c21_medium_nearest() {
    let (w, h) = medium_size(nd::pick(0, 3));
    let (w2, h2) = match nd::pick(0, 3) { 0 => (23, 6), 1 => (8, 18), 2 => (40, 3), _ => (3, 40) };
    let b = buf(w, h);
    let r = resize(&b, w2, h2, FilterMode::Nearest);
    for y in 0..h2 {
        for x in 0..w2 {
            // within one pixel of the area the pixel covers
            let (fx, fy) = (w as f64 / w2 as f64, h as f64 / h2 as f64);
            let mut found = false;
            for sy in (y as f64 * fy - 1.01).ceil().max(0.0) as u32..=((y as f64 * fy + fy + 0.51) as u32).min(h - 1) {
                for sx in (x as f64 * fx - 1.01).ceil().max(0.0) as u32..=((x as f64 * fx + fx + 0.51) as u32).min(w - 1) {
                    found |= same(at(&r, x, y), at(&b, sx, sy));
                }
            }
            nd::check(found, "a pixel from the corresponding place");
        }
    }
}
fn medium_const(m: u32) {
    let (w, h) = medium_size(nd::pick(0, 1));
    let (b, c) = constant(w, h);
    let (w, h) = match nd::pick(0, 1) { 0 => (12, 3), _ => (3, 20) };
    let r = resize(&b, w, h, mode(m));
    nd::check(r.width() == w && r.height() == h, "the size");
    for p in r.data() {
        for k in 0..4 {
            nd::check(near(p.data[k], c.data[k]), "one colour stays that colour");
        }
    }
}
#[no_mangle]
pub extern "C" fn c21_medium_const_bilinear() { medium_const(1) }
#[no_mangle]
pub extern "C" fn c21_medium_const_bicubic() { medium_const(2) }
fn medium_mirrored(m: u32) {
    let (w2, h2) = match nd::pick(0, 1) { 0 => (7, 4), _ => (4, 13) };
    let b = pattern(10, 6);
    let r = resize(&b, w2, h2, mode(m));
    let rx = flip_horizontal(&resize(&flip_horizontal(&b), w2, h2, mode(m)));
    let ry = flip_vertical(&resize(&flip_vertical(&b), w2, h2, mode(m)));
    let rt = rotate270(&resize(&rotate90(&b), h2, w2, mode(m)));
    for i in 0..(w2 * h2) as usize {
        let p = &r.data()[i];
        nd::check(near(p.data[0], rx.data()[i].data[0]), "left and right alike");
        nd::check(near(p.data[1], ry.data()[i].data[1]), "up and down alike");
        nd::check(near(p.data[2], rt.data()[i].data[2]), "rows and columns alike");
    }
}
#[no_mangle]
pub extern "C" fn c21_medium_mirror_bilinear() { medium_mirrored(1) }
#[no_mangle]
pub extern "C" fn c21_medium_mirror_bicubic() { medium_mirrored(2) }
#[no_mangle]
pub extern "C" fn c21_medium_mirror_lanczos() { medium_mirrored(3) }
#[no_mangle]
pub extern "C" fn c21_medium_right_angles() {
    let (n, m) = if nd::pick(0, 1) == 0 { (9, 9) } else { (17, 6) };
    let k = nd::pick(0, 8) as i32 - 4;
    nd::assume(k % 2 == 0 || n == m);
    let b = buf(n, m);
    let r = rotate(&b, 90.0 * k as f32, px(), FilterMode::Nearest);
    let e = match k.rem_euclid(4) { 0 => b.clone(), 1 => rotate90(&b), 2 => rotate180(&b), _ => rotate270(&b) };
    nd::check(r.width() == n && r.height() == m, "the same size");
    for i in 0..(n * m) as usize {
        nd::check(same(&r.data()[i], &e.data()[i]), "a quarter turn clockwise per 90 degrees");
    }
}
/// the weighted sum of every window, kernels of several shapes, static and dynamic
#[no_mangle]
pub extern "C" fn c22_medium_sum() {
    let (w, h) = medium_size(nd::pick(0, 3));
    let b = pattern(w, h);
    let t = nd::pick(0, 3);
    let (kw, kh) = match t { 0 => (3, 3), 1 => (5, 5), 2 => (5, 3), _ => (3, 7) };
    let weight = |i: u32| (i * 7 % 11) as f32 / 8.0 - 0.5;
    let r = match t {
        0 => {
            let mut k = [[0f32; 3]; 3];
            for i in 0..9 { k[i / 3][i % 3] = weight(i as u32); }
            b.apply_kernel(&Kernel::new(k))
        }
        1 => {
            let mut k = [[0f32; 5]; 5];
            for i in 0..25 { k[i / 5][i % 5] = weight(i as u32); }
            b.apply_kernel(&Kernel::new(k))
        }
        _ => b.apply_kernel_dyn(&KernelDyn::new((0..kw * kh).map(weight).collect(), kw, kh)),
    };
    nd::check(r.width() == w && r.height() == h, "the same size");
    for y in 0..h {
        for x in 0..w {
            let mut e = 0f32;
            for i in 0..kw * kh {
                let sx = (x as i32 + (i % kw) as i32 - (kw / 2) as i32).clamp(0, w as i32 - 1);
                let sy = (y as i32 + (i / kw) as i32 - (kh / 2) as i32).clamp(0, h as i32 - 1);
                e += at(&b, sx as u32, sy as u32).data[0] * weight(i);
            }
            for c in 0..4 {
                nd::check(near(at(&r, x, y).data[c], e), "the weighted sum of the window");
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn c22_medium_blur() {
    let b = pattern(11, 6);
    let radius = nd::pick(1, 3);
    let r = gaussian_blur(&b, radius, None);
    let rx = flip_horizontal(&gaussian_blur(&flip_horizontal(&b), radius, None));
    let rt = rotate270(&gaussian_blur(&rotate90(&b), radius, None));
    nd::check(r.width() == 11 && r.height() == 6, "the same size");
    for i in 0..66 {
        let v = r.data()[i].data[0];
        nd::check((v >= -EPS) & (v <= 1.0 + EPS), "between the extremes");
        nd::check(near(v, rx.data()[i].data[0]), "left and right alike");
        nd::check(near(v, rt.data()[i].data[0]), "rows and columns alike");
    }
}
#[no_mangle]
pub extern "C" fn c22_medium_const() {
    let (w, h) = medium_size(nd::pick(0, 1));
    let (b, c) = constant(w, h);
    let t = nd::pick(0, 3);
    let r = match t {
        0 => gaussian_blur(&b, 2, None),
        1 => unsharp(&b, 1, nd::unit(), None),
        2 => edge_detection(&b, EdgeDetection::Sobel),
        _ => edge_detection(&b, EdgeDetection::Laplace),
    };
    nd::check(r.width() == w && r.height() == h, "the same size");
    for p in r.data() {
        for k in 0..3 {
            nd::check(near(p.data[k], if t < 2 { c.data[k] } else { 0.0 }), "one colour stays that colour, and has no edges");
        }
        nd::check(near(p.data[3], if t < 2 { c.data[3] } else { 1.0 }), "alpha");
    }
}
/// a lone dark pixel anywhere in a medium-size bright image
#[no_mangle]
pub extern "C" fn c23_medium_lone() {
    let (w, h) = (9, 8);
    let (x, y) = (nd::pick(0, w - 1), nd::pick(0, h - 1));
    let i = (y * w + x) as usize;
    let (c, d) = (nd::unit(), nd::unit());
    let t = nd::range_f32(0.0, 1.0);
    nd::assume(d < t - EPS && c > t + EPS);
    let mut b = PixelBuffer::new_with_color(w, h, Rgb { data: [c, c, c, 1.0] });
    b.data_mut()[i] = Rgb { data: [d, d, d, 0.25] };
    let r = despeckle(&b, t, 9);
    nd::check(r.width() == w && r.height() == h, "the same size");
    for j in 0..(w * h) as usize {
        nd::check(near(r.data()[j].data[0], c), "replaced by the mean of the bright neighbours, the rest untouched");
        nd::check(near(r.data()[j].data[3], if i == j { 0.25 } else { 1.0 }), "alpha untouched");
    }
}
/// a straight edge between two flat areas of a medium-size image is kept
#[no_mangle]
pub extern "C" fn c23_medium_edge() {
    let (a, c) = (nd::unit(), nd::unit());
    let (pa, pc) = (Rgb { data: [a, a, a, 1.0] }, Rgb { data: [c, c, c, 1.0] });
    let vert = nd::pick(0, 1) == 1;
    let at = nd::pick(1, 2) * 16;
    let b = PixelBuffer::new_from_func(if vert { 66 } else { 1 }, if vert { 1 } else { 66 }, |x, y| if (if vert { x } else { y }) < at { pa } else { pc });
    let r = symmetric_nearest_neighbor(&b, 1, nd::pick(0, 1) == 1);
    for i in 0..66 {
        nd::check(near(r.data()[i].data[0], b.data()[i].data[0]), "an edge between two flat areas is kept");
    }
}
