//! C16 decoding
use crate::util::*;
use d10_codecs::*;
use d10_core::color::{Color, Rgb, Srgb};
use d10_core::pixelbuffer::PixelBuffer;

pub fn head(codec: u32) -> &'static [u8] {
    match codec {
        ctl::PNG => &[0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A],
        ctl::GIF => b"GIF89a",
        ctl::JPEG => &[0xff, 0xd8, 0xff, 0xe0],
        ctl::BMP => b"BM00",
        ctl::ICO => &[0, 0, 1, 0],
        _ => b"RIFF0000WEBP",
    }
}
fn near(a: &Rgb, b: &Rgb) -> bool {
    let e = 0.00002;
    for i in 0..4 {
        if !((a.data[i] - b.data[i]).abs() <= e) {
            return false;
        }
    }
    true
}
fn layout(codec: u32, ch: u32, bits: u32, w: u32, h: u32) {
    let d = ctl::dec();
    d.w = w;
    d.h = h;
    d.channels = ch;
    d.bits = bits;
    let n = (w * h) as usize;
    let px = ch as usize;
    // every sample arbitrary; in images of medium size the last pixel and every alpha, the rest a fixed pattern
    let free = |i: usize| n < 9 || i / px + 1 == n || codec != ctl::JPEG && px % 2 == 0 && i % px + 1 == px;
    let mut x = 12345u32;
    if bits == 32 {
        for i in 0..n * px {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            d.float.push(if free(i) { nd::unit() } else { (x >> 24) as f32 / 255.0 });
        }
    } else {
        let k = bits as usize / 8;
        for i in 0..n * px * k {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            d.data.push(if free(i / k) { nd::u8() } else { (x >> 24) as u8 });
        }
    }
    let b = match decode_buffer(head(codec)) {
        Ok(b) => b.buffer,
        Err(_) => {
            nd::check(false, "decodes");
            return;
        }
    };
    nd::check(d.codec == codec && d.n == 1, "the right decoder");
    nd::check(d.head[0] == head(codec)[0] && d.head[1] == head(codec)[1], "the decoder sees the input from its start");
    nd::check(b.width() == w && b.height() == h, "dimensions");
    if b.data().len() != n {
        nd::check(false, "size");
        return;
    }
    for i in 0..n {
        let mut v = [0.0f32; 4];
        for k in 0..ch as usize {
            let j = i * ch as usize + k;
            v[k] = match bits {
                8 => d.data[j] as f32 / 255.0,
                16 if codec == ctl::PNG => (d.data[2 * j] as u32 * 256 + d.data[2 * j + 1] as u32) as f32 / 65535.0,
                16 => (d.data[2 * j + 1] as u32 * 256 + d.data[2 * j] as u32) as f32 / 65535.0,
                _ => d.float[j],
            };
        }
        let s = match ch {
            1 => Srgb { data: [v[0], v[0], v[0], 1.0] },
            2 => Srgb { data: [v[0], v[0], v[0], v[1]] },
            3 => Srgb { data: [v[0], v[1], v[2], 1.0] },
            _ if codec == ctl::JPEG => Srgb { data: [(1.0 - v[0]) * (1.0 - v[3]), (1.0 - v[1]) * (1.0 - v[3]), (1.0 - v[2]) * (1.0 - v[3]), 1.0] },
            _ => Srgb { data: v },
        };
        let e = s.to_rgb();
        nd::check(near(&b.data()[i], &e), "pixel value");
    }
}
macro_rules! layouts { ($($n:ident $c:expr, $ch:expr, $bits:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { layout($c, $ch, $bits, nd::pick(1, 2), nd::pick(1, 2)) })* } }
layouts! {
    c16_png_l8 ctl::PNG, 1, 8; c16_png_la8 ctl::PNG, 2, 8; c16_png_rgb8 ctl::PNG, 3, 8; c16_png_rgba8 ctl::PNG, 4, 8;
    c16_png_l16 ctl::PNG, 1, 16; c16_png_la16 ctl::PNG, 2, 16; c16_png_rgb16 ctl::PNG, 3, 16; c16_png_rgba16 ctl::PNG, 4, 16;
    c16_gif ctl::GIF, 4, 8; c16_webp ctl::WEBP, 4, 8;
    c16_jpeg_l8 ctl::JPEG, 1, 8; c16_jpeg_l16 ctl::JPEG, 1, 16; c16_jpeg_rgb ctl::JPEG, 3, 8; c16_jpeg_cmyk ctl::JPEG, 4, 8;
    c16_bmp_l8 ctl::BMP, 1, 8; c16_bmp_la8 ctl::BMP, 2, 8; c16_bmp_rgb8 ctl::BMP, 3, 8; c16_bmp_rgba8 ctl::BMP, 4, 8;
    c16_bmp_l16 ctl::BMP, 1, 16; c16_bmp_la16 ctl::BMP, 2, 16; c16_bmp_rgb16 ctl::BMP, 3, 16; c16_bmp_rgba16 ctl::BMP, 4, 16;
    c16_bmp_rgb32 ctl::BMP, 3, 32; c16_bmp_rgba32 ctl::BMP, 4, 32;
    c16_ico_rgba8 ctl::ICO, 4, 8; c16_ico_rgb8 ctl::ICO, 3, 8;
}
macro_rules! mediums { ($($n:ident $c:expr, $ch:expr, $bits:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { layout($c, $ch, $bits, 17, 9) })* } }
mediums! {
    c16_medium_png_l8 ctl::PNG, 1, 8;
    c16_medium_png_la8 ctl::PNG, 2, 8;
    c16_medium_png_rgb8 ctl::PNG, 3, 8;
    c16_medium_png_rgba8 ctl::PNG, 4, 8;
    c16_medium_png_l16 ctl::PNG, 1, 16;
    c16_medium_png_la16 ctl::PNG, 2, 16;
    c16_medium_png_rgb16 ctl::PNG, 3, 16;
    c16_medium_png_rgba16 ctl::PNG, 4, 16;
    c16_medium_gif ctl::GIF, 4, 8;
    c16_medium_webp ctl::WEBP, 4, 8;
    c16_medium_jpeg_l8 ctl::JPEG, 1, 8;
    c16_medium_jpeg_l16 ctl::JPEG, 1, 16;
    c16_medium_jpeg_rgb ctl::JPEG, 3, 8;
    c16_medium_jpeg_cmyk ctl::JPEG, 4, 8;
    c16_medium_bmp_l8 ctl::BMP, 1, 8;
    c16_medium_bmp_la8 ctl::BMP, 2, 8;
    c16_medium_bmp_rgb8 ctl::BMP, 3, 8;
    c16_medium_bmp_rgba8 ctl::BMP, 4, 8;
    c16_medium_bmp_l16 ctl::BMP, 1, 16;
    c16_medium_bmp_la16 ctl::BMP, 2, 16;
    c16_medium_bmp_rgb16 ctl::BMP, 3, 16;
    c16_medium_bmp_rgba16 ctl::BMP, 4, 16;
    c16_medium_bmp_rgb32 ctl::BMP, 3, 32;
    c16_medium_bmp_rgba32 ctl::BMP, 4, 32;
    c16_medium_ico_rgba8 ctl::ICO, 4, 8;
    c16_medium_ico_rgb8 ctl::ICO, 3, 8;
}
/// palette, low bit depth and tRNS images are expanded
#[no_mangle]
pub extern "C" fn c16_png_expand() {
    let ch = nd::pick(1, 4);
    let d = ctl::dec();
    d.packed = nd::pick(0, 1) == 1;
    d.trns = ch % 2 == 0;
    layout(ctl::PNG, ch, 8, 1, 1);
}
/// the frame of a GIF may be smaller than its screen
#[no_mangle]
pub extern "C" fn c16_gif_small_frame() {
    let d = ctl::dec();
    d.around = [nd::pick(0, 2) as u16, nd::pick(0, 2) as u16];
    d.at = [nd::pick(0, d.around[0] as u32) as u16, nd::pick(0, d.around[1] as u32) as u16];
    layout(ctl::GIF, 4, 8, nd::pick(1, 2), 1);
}
fn valid(w: u32, h: u32) -> bool {
    if w == 0 || h == 0 { w == 0 && h == 0 } else { w as u64 * h as u64 <= (1 << 30) - 1 }
}
/// sizes no buffer can have are an error, not a panic
fn bad_size(codec: u32, max: u32) {
    let (w, h) = (nd::range(0, max), nd::range(0, max));
    nd::assume(!valid(w, h));
    let d = ctl::dec();
    d.w = w;
    d.h = h;
    d.channels = if codec == ctl::JPEG || codec == ctl::BMP { 3 } else { 4 };
    d.bits = 8;
    match decode_buffer(head(codec)) {
        Ok(_) => nd::check(false, "a size no buffer can have is an error"),
        Err(DecodingError::InvalidBufferSize { width, height }) => nd::check(width == w && height == h, "the error names the size"),
        Err(_) => nd::check(true, "an error"),
    }
}
#[no_mangle]
pub extern "C" fn c16_size_png() { bad_size(ctl::PNG, u32::MAX) }
#[no_mangle]
pub extern "C" fn c16_size_gif() { bad_size(ctl::GIF, 65535) }
#[no_mangle]
pub extern "C" fn c16_size_jpeg() { bad_size(ctl::JPEG, 65535) }
#[no_mangle]
pub extern "C" fn c16_size_bmp() { bad_size(ctl::BMP, u32::MAX) }
#[no_mangle]
pub extern "C" fn c16_size_ico() { bad_size(ctl::ICO, u32::MAX) }
#[no_mangle]
pub extern "C" fn c16_size_webp() { bad_size(ctl::WEBP, i32::MAX as u32) }
/// the decoding library's errors come back as errors of the right kind
#[no_mangle]
pub extern "C" fn c16_errors() {
    let codec = nd::pick(1, 6);
    let d = ctl::dec();
    d.fail = nd::pick(1, 5);
    d.w = 1;
    d.h = 1;
    d.channels = 4;
    d.bits = 8;
    for _ in 0..4 {
        d.data.push(nd::u8());
    }
    let expect = match (codec, d.fail) {
        (ctl::WEBP, 1) | (ctl::WEBP, 3) | (ctl::WEBP, 5) => return,
        (ctl::PNG, 5) | (ctl::BMP, 5) | (ctl::ICO, 5) => return,
        (_, 1) | (_, 3) => 1,
        _ => 2,
    };
    match decode_buffer(head(codec)) {
        Ok(_) => nd::check(false, "a failed decode is an error"),
        Err(DecodingError::IoError(e)) => nd::check(expect == 1 && e.raw_os_error() == Some(ctl::EIO), "I/O errors keep their cause"),
        Err(DecodingError::Decoding(_)) => nd::check(expect == 2, "malformed data is a decoding error"),
        Err(_) => nd::check(false, "kind of error"),
    }
}
