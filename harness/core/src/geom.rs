use crate::util::*;
use d10_core::color::{Color, Rgb};
use d10_core::kernel::Kernel;
use d10_core::kernel_dyn::KernelDyn;
use d10_core::pixelbuffer::{is_valid_buffer_size, PixelBuffer};

const LIM: u64 = 0x3fff_ffff; // (2^31-1)/2

// ------------------------------------------------------------------ C01 addressing

/// any size, any two positions: what is written at one is read back there and nowhere else
#[no_mangle]
pub extern "C" fn c01_put_get_any_size() {
    let (w, h) = any_dims(LIM);
    let mut b = opaque(w, h);
    let (x, y) = (nd::range(0, w - 1), nd::range(0, h - 1));
    let (x2, y2) = (nd::range(0, w - 1), nd::range(0, h - 1));
    let old = b.get_pixel(x2, y2).data[0].to_bits();
    let p = px();
    b.put_pixel(x, y, p);
    let q = b.get_pixel(x2, y2).data[0].to_bits();
    let diff = (x ^ x2) | (y ^ y2);
    nd::check(diff != 0 || q == p.data[0].to_bits(), "a written pixel is read back");
    nd::check(diff == 0 || q == old, "a write leaves every other pixel alone");
    std::mem::forget(b);
}
/// any size: coordinates outside the image panic, inside they do not
#[no_mangle]
pub extern "C" fn c01_get_any_size_bounds() {
    let (w, h) = any_dims(LIM);
    let b = opaque(w, h);
    let (x, y) = (nd::u32(), nd::u32());
    let inside = x < w && y < h;
    nd::may_panic(!inside);
    let _ = nd::out(b.get_pixel(x, y).data[0].to_bits() as u64);
    nd::check(inside, "reading outside the image panics");
    std::mem::forget(b);
}
#[no_mangle]
pub extern "C" fn c01_put_any_size_bounds() {
    let (w, h) = any_dims(LIM);
    let mut b = opaque(w, h);
    let (x, y) = (nd::u32(), nd::u32());
    let inside = x < w && y < h;
    nd::may_panic(!inside);
    b.put_pixel(x, y, Rgb::NONE);
    nd::check(inside, "writing outside the image panics");
    std::mem::forget(b);
}
/// any size: the optional accessor
#[no_mangle]
pub extern "C" fn c01_optional_any_size() {
    let (w, h) = any_dims(LIM);
    let b = opaque(w, h);
    let (x, y) = (nd::i32(), nd::i32());
    let inside = x >= 0 && y >= 0 && (x as i64) < w as i64 && (y as i64) < h as i64;
    nd::check(b.is_in_image(x, y) == inside, "is_in_image is exactly 0<=x<w, 0<=y<h");
    match b.get_pixel_optional(x, y) {
        None => nd::check(!inside, "optional access is None only outside"),
        Some(p) => {
            nd::check(inside, "optional access is Some only inside");
            if inside {
                nd::check(p.data[0].to_bits() == b.get_pixel(x as u32, y as u32).data[0].to_bits(),
                    "optional access reads the same pixel");
            }
        }
    }
    std::mem::forget(b);
}
/// any size: the clamped accessor reads the pixel at the clamped coordinates
#[no_mangle]
pub extern "C" fn c01_clamped_any_size() {
    let (w, h) = any_dims(LIM);
    let b = opaque(w, h);
    let (x, y) = (nd::i32(), nd::i32());
    let p = b.get_pixel_clamped(x, y);
    let cx = (x as i64).max(0).min(w as i64 - 1) as u32;
    let cy = (y as i64).max(0).min(h as i64 - 1) as u32;
    nd::check(p.data[0].to_bits() == b.get_pixel(cx, cy).data[0].to_bits(), "clamped access reads the clamped pixel");
    std::mem::forget(b);
}
/// small images, all of it: raw data order, enumerate, dimensions
#[no_mangle]
pub extern "C" fn c01_layout_small() {
    let w = nd::pick(1, 3);
    let h = nd::pick(1, 3);
    let v = raw(w, h);
    let mut b = PixelBuffer::new_from_raw(w, h, v.clone());
    nd::check(b.width() == w && b.height() == h && !b.is_empty(), "dimensions");
    nd::check(b.data().len() == (w * h) as usize, "data length");
    for y in 0..h {
        for x in 0..w {
            let e = &v[(y * w + x) as usize];
            nd::check(same(b.get_pixel(x, y), e), "raw data is row-major");
            nd::check(same(&b.data()[(y * w + x) as usize], e), "data() is row-major");
        }
    }
    let mut k = 0;
    for (x, y, p) in b.enumerate() {
        nd::check(x == k % w && y == k / w && same(&p, &v[k as usize]), "enumerate visits row-major with coordinates");
        k += 1;
    }
    nd::check(k == w * h, "enumerate visits every pixel once");
    let mut k = 0;
    for (x, y, p) in b.enumerate_mut() {
        nd::check(x == k % w && y == k / w && same(p, &v[k as usize]), "enumerate_mut visits row-major");
        k += 1;
    }
    nd::check(k == w * h, "enumerate_mut visits every pixel once");
    let (x, y) = (nd::range(0, w - 1), nd::range(0, h - 1));
    let p = px();
    b.data_mut()[(y * w + x) as usize] = p;
    nd::check(same(b.get_pixel(x, y), &p), "data_mut is row-major");
    let c = b.clone();
    for i in 0..(w * h) as usize {
        nd::check(same(&c.data()[i], &b.data()[i]), "clone has the same pixels");
    }
    nd::check(c.width() == w && c.height() == h, "clone has the same size");
}

// ------------------------------------------------------------------ C02 sizes

fn valid(w: u32, h: u32) -> bool {
    if w == 0 || h == 0 {
        w == 0 && h == 0
    } else {
        w as u64 * h as u64 <= LIM
    }
}
/// all 2^64 pairs
#[no_mangle]
pub extern "C" fn c02_predicate() {
    let (w, h) = (nd::u32(), nd::u32());
    nd::check(is_valid_buffer_size(w, h) == valid(w, h), "size validity predicate");
}
/// all 2^64 pairs and every data length: accepted exactly when it fits
#[no_mangle]
pub extern "C" fn c02_from_raw() {
    let (w, h) = (nd::u32(), nd::u32());
    let n = nd::u32() as u64;
    nd::assume(n <= LIM + 5);
    let ok = valid(w, h) && n == w as u64 * h as u64;
    nd::may_panic(!ok);
    let v = unsafe { Vec::from_raw_parts(nd::opaque(n * 16) as *mut Rgb, n as usize, n as usize) };
    let b = PixelBuffer::new_from_raw(w, h, v);
    nd::check(ok, "raw data of a wrong length or an invalid size is rejected");
    nd::check(b.width() == w && b.height() == h, "accepted raw data keeps the size");
    nd::check(b.is_empty() == (n == 0), "empty iff 0x0");
    std::mem::forget(b);
}
/// every size a constructor must reject
#[no_mangle]
pub extern "C" fn c02_reject_new() {
    let (w, h) = (nd::u32(), nd::u32());
    nd::assume(!valid(w, h));
    nd::may_panic(true);
    let b = PixelBuffer::<Rgb>::new_with_color(w, h, Rgb::NONE);
    nd::check(false, "new_with_color rejects invalid sizes");
    std::mem::forget(b);
}
#[no_mangle]
pub extern "C" fn c02_reject_default() {
    let (w, h) = (nd::u32(), nd::u32());
    nd::assume(!valid(w, h));
    nd::may_panic(true);
    let b = PixelBuffer::<Rgb>::new(w, h);
    nd::check(false, "new rejects invalid sizes");
    std::mem::forget(b);
}
#[no_mangle]
pub extern "C" fn c02_reject_func() {
    let (w, h) = (nd::u32(), nd::u32());
    nd::assume(!valid(w, h));
    nd::may_panic(true);
    let b = PixelBuffer::<Rgb>::new_from_func(w, h, |_, _| { nd::check(false, "no pixel is computed for an invalid size"); Rgb::NONE });
    nd::check(false, "new_from_func rejects invalid sizes");
    std::mem::forget(b);
}
#[no_mangle]
pub extern "C" fn c02_reject_try_func() {
    let (w, h) = (nd::u32(), nd::u32());
    nd::assume(!valid(w, h));
    nd::may_panic(true);
    let b = PixelBuffer::<Rgb>::try_new_from_func::<(), _>(w, h, |_, _| { nd::check(false, "no pixel is computed for an invalid size"); Ok(Rgb::NONE) });
    nd::check(false, "try_new_from_func rejects invalid sizes");
    std::mem::forget(b);
}
/// small valid sizes including 0x0
#[no_mangle]
pub extern "C" fn c02_accept_small() {
    let w = nd::pick(0, 3);
    let h = nd::pick(0, 3);
    nd::assume((w == 0) == (h == 0));
    let p = px();
    let b = PixelBuffer::new_with_color(w, h, p);
    nd::check(b.width() == w && b.height() == h && b.data().len() == (w * h) as usize, "new_with_color size");
    for q in b.data() {
        nd::check(same(q, &p), "new_with_color fills every pixel");
    }
    let b = PixelBuffer::<Rgb>::new(w, h);
    nd::check(b.width() == w && b.height() == h && b.data().len() == (w * h) as usize, "new size");
    for q in b.data() {
        nd::check(same(q, &Rgb::NONE), "new is transparent black");
    }
    nd::check(b.is_empty() == (w == 0), "empty iff 0x0");
}

// ------------------------------------------------------------------ C03 kernel windows

fn clampc(v: i64, n: u32) -> u32 {
    v.max(0).min(n as i64 - 1) as u32
}
fn window<const N: usize>(minw: u32, maxw: u32, maxh: u32) {
    let w = nd::pick(minw, maxw);
    let h = nd::pick(minw, maxh);
    let b = buf(w, h);
    let x = nd::pick(0, w + 3) as i32 - 2;
    let y = nd::pick(0, h + 3) as i32 - 2;
    let k = b.get_kernel::<N>(x, y);
    let d = b.get_kernel_dyn(x, y, N);
    nd::check(d.len() == N, "dynamic window height");
    let o = N as i64 / 2;
    for i in 0..N {
        nd::check(d[i].len() == N, "dynamic window width");
        for j in 0..N {
            let e = b.get_pixel(clampc(x as i64 + j as i64 - o, w), clampc(y as i64 + i as i64 - o, h));
            nd::check(same(&k[i][j], e), "fixed-size window entry is the clamped neighbour");
            nd::check(same(&d[i][j], e), "dynamic window entry is the clamped neighbour");
        }
    }
}
#[no_mangle]
pub extern "C" fn c03_window1() { window::<1>(1, 3, 3) }
#[no_mangle]
pub extern "C" fn c03_window2() { window::<2>(1, 4, 4) }
#[no_mangle]
pub extern "C" fn c03_window3() { window::<3>(1, 4, 4) }
#[no_mangle]
pub extern "C" fn c03_window4() { window::<4>(3, 5, 5) }
#[no_mangle]
pub extern "C" fn c03_window5() { window::<5>(4, 6, 5) }
#[no_mangle]
pub extern "C" fn c03_window4_all() { window::<4>(1, 6, 6) }
#[no_mangle]
pub extern "C" fn c03_window5_all() { window::<5>(1, 7, 7) }
#[no_mangle]
pub extern "C" fn c03_window7_all() { window::<7>(6, 8, 8) }
#[no_mangle]
pub extern "C" fn c03_window3_medium() { window::<3>(11, 12, 11) }
#[no_mangle]
pub extern "C" fn c03_window5_medium() { window::<5>(10, 11, 10) }
/// any size, any centre not on the border: 3x3 window
#[no_mangle]
pub extern "C" fn c03_window3_any_size() {
    let (w, h) = any_dims(LIM);
    let b = opaque(w, h);
    nd::assume(w >= 3 && h >= 3);
    let (x, y) = (nd::range(1, w - 2), nd::range(1, h - 2));
    let i = nd::pick(0, 2);
    let j = nd::pick(0, 2);
    let k = b.get_kernel::<3>(x as i32, y as i32);
    let e = b.get_pixel(x + j - 1, y + i - 1);
    nd::check(k[i as usize][j as usize].data[0].to_bits() == e.data[0].to_bits(), "3x3 window entry of an image of any size");
    std::mem::forget(b);
}

// ------------------------------------------------------------------ C04 element-wise

struct Log {
    v: Vec<(u32, u32, Rgb, Rgb)>,
}
fn dims3() -> (u32, u32) {
    (nd::pick(1, 3), nd::pick(1, 3))
}
#[no_mangle]
pub extern "C" fn c04_new_from_func() { c04_new_from_func_of(dims3()) }
#[no_mangle]
pub extern "C" fn c04_new_from_func_medium() { c04_new_from_func_of([(17, 9), (9, 17)][nd::pick(0, 1) as usize]) }
fn c04_new_from_func_of((w, h): (u32, u32)) {
    let mut log = Log { v: Vec::new() };
    let b = PixelBuffer::new_from_func(w, h, |x, y| {
        let p = px();
        log.v.push((x, y, p, p));
        p
    });
    nd::check(b.width() == w && b.height() == h, "size");
    nd::check(log.v.len() == (w * h) as usize, "one call per pixel");
    for (x, y, p, _) in &log.v {
        nd::check(*x < w && *y < h && same(b.get_pixel(*x, *y), p), "each pixel is the function's value at its coordinates");
    }
    seen_all(w, h, &log);
}
fn seen_all(w: u32, h: u32, log: &Log) {
    for y in 0..h {
        for x in 0..w {
            let n = log.v.iter().filter(|e| e.0 == x && e.1 == y).count();
            nd::check(n == 1, "every coordinate is visited exactly once");
        }
    }
}
#[no_mangle]
pub extern "C" fn c04_try_new_from_func() { c04_try_new_from_func_of(dims3()) }
#[no_mangle]
pub extern "C" fn c04_try_new_from_func_medium() { c04_try_new_from_func_of([(17, 9), (9, 17)][nd::pick(0, 1) as usize]) }
fn c04_try_new_from_func_of((w, h): (u32, u32)) {
    let fail = nd::pick(0, w * h); // == w*h: no failure
    let code = nd::pick(7, 8);
    let mut log = Log { v: Vec::new() };
    let r = PixelBuffer::try_new_from_func(w, h, |x, y| {
        if log.v.len() as u32 == fail {
            return Err(code);
        }
        let p = px();
        log.v.push((x, y, p, p));
        Ok(p)
    });
    match r {
        Err(e) => nd::check(fail < w * h && e == code, "the callback's error is returned, and only then"),
        Ok(b) => {
            nd::check(fail == w * h, "an error is never swallowed");
            nd::check(b.width() == w && b.height() == h, "size");
            for (x, y, p, _) in &log.v {
                nd::check(same(b.get_pixel(*x, *y), p), "each pixel is the function's value at its coordinates");
            }
            seen_all(w, h, &log);
        }
    }
}
#[no_mangle]
pub extern "C" fn c04_map() { c04_map_of(dims3()) }
#[no_mangle]
pub extern "C" fn c04_map_medium() { c04_map_of([(17, 9), (9, 17)][nd::pick(0, 1) as usize]) }
fn c04_map_of((w, h): (u32, u32)) {
    let b = buf(w, h);
    let orig = b.clone();
    let mut outs: Vec<(Rgb, Rgb)> = Vec::new();
    let r = b.map_colors(|p| {
        let q = px();
        outs.push((*p, q));
        q
    });
    nd::check(r.width() == w && r.height() == h && r.data().len() == (w * h) as usize, "size is kept");
    nd::check(outs.len() == (w * h) as usize, "one call per pixel");
    for i in 0..(w * h) as usize {
        nd::check(same(&outs[i].0, &orig.data()[i]) && same(&outs[i].1, &r.data()[i]), "map is pixel by pixel");
        nd::check(same(&b.data()[i], &orig.data()[i]), "the source is unchanged");
    }
}
#[no_mangle]
pub extern "C" fn c04_mod() { c04_mod_of(dims3()) }
#[no_mangle]
pub extern "C" fn c04_mod_medium() { c04_mod_of([(17, 9), (9, 17)][nd::pick(0, 1) as usize]) }
fn c04_mod_of((w, h): (u32, u32)) {
    let mut b = buf(w, h);
    let orig = b.clone();
    let mut outs: Vec<(Rgb, Rgb)> = Vec::new();
    b.mod_colors(|p| {
        let q = px();
        outs.push((*p, q));
        q
    });
    nd::check(b.width() == w && b.height() == h, "size is kept");
    for i in 0..(w * h) as usize {
        nd::check(same(&outs[i].0, &orig.data()[i]) && same(&outs[i].1, &b.data()[i]), "mod is pixel by pixel");
    }
}
fn mix(x: u32, y: u32, p: &Rgb) -> Rgb {
    // an injective function of colour and position
    let k = (x * 64 + y * 8 + 1) * 0x10001;
    Rgb { data: [
        f32::from_bits(p.data[1].to_bits() ^ k),
        f32::from_bits(p.data[2].to_bits() ^ k),
        f32::from_bits(p.data[3].to_bits() ^ k),
        f32::from_bits(p.data[0].to_bits() ^ k),
    ] }
}
#[no_mangle]
pub extern "C" fn c04_enumerated() { c04_enumerated_of(dims3()) }
#[no_mangle]
pub extern "C" fn c04_enumerated_medium() { c04_enumerated_of([(17, 9), (9, 17)][nd::pick(0, 1) as usize]) }
fn c04_enumerated_of((w, h): (u32, u32)) {
    let b = buf(w, h);
    let r = b.map_colors_enumerated(|x, y, p| mix(x, y, p));
    let mut m = b.clone();
    m.mod_colors_enumerated(|x, y, p| mix(x, y, p));
    nd::check(r.width() == w && r.height() == h && m.width() == w && m.height() == h, "size is kept");
    for y in 0..h {
        for x in 0..w {
            let e = mix(x, y, b.get_pixel(x, y));
            nd::check(same(r.get_pixel(x, y), &e), "map_colors_enumerated passes the pixel and its coordinates");
            nd::check(same(m.get_pixel(x, y), &e), "mod_colors_enumerated passes the pixel and its coordinates");
        }
    }
}
#[no_mangle]
pub extern "C" fn c04_try() {
    let (w, h) = (nd::pick(1, 3), nd::pick(1, 2));
    let b = buf(w, h);
    let (fx, fy) = (nd::pick(0, w), nd::pick(0, h - 1)); // fx == w: no failure
    let code = nd::pick(7, 8);
    let f = |x: u32, y: u32, p: &Rgb| if x == fx && y == fy { Err(code) } else { Ok(mix(x, y, p)) };
    let failing = fx < w;
    match b.try_map_colors_enumerated(f) {
        Err(e) => nd::check(failing && e == code, "try_map_colors_enumerated returns the error"),
        Ok(r) => {
            nd::check(!failing, "try_map_colors_enumerated never swallows an error");
            for y in 0..h { for x in 0..w {
                nd::check(same(r.get_pixel(x, y), &mix(x, y, b.get_pixel(x, y))), "try_map_colors_enumerated pixel");
            } }
            nd::check(r.width() == w && r.height() == h, "size is kept");
        }
    }
    let mut m = b.clone();
    match m.try_mod_colors_enumerated(f) {
        Err(e) => nd::check(failing && e == code, "try_mod_colors_enumerated returns the error"),
        Ok(()) => {
            nd::check(!failing, "try_mod_colors_enumerated never swallows an error");
            for y in 0..h { for x in 0..w {
                nd::check(same(m.get_pixel(x, y), &mix(x, y, b.get_pixel(x, y))), "try_mod_colors_enumerated pixel");
            } }
        }
    }
    let n = std::cell::Cell::new(0u32);
    let g = |p: &Rgb| {
        let i = n.get();
        n.set(i + 1);
        if failing && i == fx + fy * w { Err(code) } else { Ok(mix(i, 0, p)) }
    };
    match b.try_map_colors(g) {
        Err(e) => nd::check(failing && e == code, "try_map_colors returns the error"),
        Ok(r) => {
            nd::check(!failing && r.width() == w && r.height() == h, "try_map_colors never swallows an error");
            for i in 0..(w * h) { nd::check(same(&r.data()[i as usize], &mix(i, 0, &b.data()[i as usize])), "try_map_colors pixel"); }
        }
    }
    n.set(0);
    let mut m = b.clone();
    match m.try_mod_colors(g) {
        Err(e) => nd::check(failing && e == code, "try_mod_colors returns the error"),
        Ok(()) => {
            nd::check(!failing, "try_mod_colors never swallows an error");
            for i in 0..(w * h) { nd::check(same(&m.data()[i as usize], &mix(i, 0, &b.data()[i as usize])), "try_mod_colors pixel"); }
        }
    }
}

// ------------------------------------------------------------------ convolution geometry

/// a kernel with a single 1 picks exactly the neighbour at that position (weights 0/1, so the
/// sum is exact for finite pixels)
fn pick_kernel<const N: usize>() {
    let w = nd::pick(1, 3);
    let h = nd::pick(1, 3);
    let n = (w * h) as usize;
    let mut v = Vec::new();
    for _ in 0..n {
        // small integers: every product and sum is exact
        let a = nd::u8();
        let d = nd::u8();
        v.push(Rgb { data: [a as f32, d as f32, 0.0, 1.0] });
    }
    let b = PixelBuffer::new_from_raw(w, h, v);
    let ki = nd::pick(0, N as u32 - 1) as usize;
    let kj = nd::pick(0, N as u32 - 1) as usize;
    let mut data = [[0.0f32; N]; N];
    data[ki][kj] = 1.0;
    let r = b.apply_kernel(&Kernel::new(data));
    let mut flat = vec![0.0f32; N * N];
    flat[ki * N + kj] = 1.0;
    let rd = b.apply_kernel_dyn(&KernelDyn::new(flat, N as u32, N as u32));
    nd::check(r.width() == w && r.height() == h && rd.width() == w && rd.height() == h, "size is kept");
    let o = N as i64 / 2;
    for y in 0..h {
        for x in 0..w {
            let e = b.get_pixel(clampc(x as i64 + kj as i64 - o, w), clampc(y as i64 + ki as i64 - o, h));
            for c in 0..4 {
                nd::check(r.get_pixel(x, y).data[c] == e.data[c], "a one-hot kernel selects that neighbour");
                nd::check(rd.get_pixel(x, y).data[c] == e.data[c], "a one-hot dynamic kernel selects that neighbour");
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn c03_onehot3() { pick_kernel::<3>() }
#[no_mangle]
pub extern "C" fn c03_onehot2() { pick_kernel::<2>() }
#[no_mangle]
pub extern "C" fn c03_onehot5() { pick_kernel::<5>() }
/// rectangular dynamic kernels
#[no_mangle]
pub extern "C" fn c03_onehot_rect() {
    let (w, h) = (nd::pick(1, 3), nd::pick(1, 3));
    let mut v = Vec::new();
    for _ in 0..(w * h) {
        v.push(Rgb { data: [nd::u8() as f32, 0.0, 0.0, nd::u8() as f32] });
    }
    let b = PixelBuffer::new_from_raw(w, h, v);
    let (kw, kh) = (nd::pick(1, 4), nd::pick(1, 4));
    let (ki, kj) = (nd::pick(0, kh - 1), nd::pick(0, kw - 1));
    let mut flat = vec![0.0f32; (kw * kh) as usize];
    flat[(ki * kw + kj) as usize] = 1.0;
    let k = KernelDyn::new(flat, kw, kh);
    nd::check(k.get(kj, ki) == 1.0, "kernel access is row-major");
    let (x, y) = (nd::range(0, w - 1), nd::range(0, h - 1));
    let x = nd::fork32(x);
    let y = nd::fork32(y);
    let r = b.get_kernel_value(x, y, &k);
    let e = b.get_pixel(clampc(x as i64 + kj as i64 - kw as i64 / 2, w), clampc(y as i64 + ki as i64 - kh as i64 / 2, h));
    nd::check(r.data[0] == e.data[0] && r.data[3] == e.data[3], "a one-hot rectangular kernel selects that neighbour");
}
