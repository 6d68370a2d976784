//! C15 what the encoders hand to the codec libraries, C14 lossless round trips
use crate::util::*;
use d10_codecs::*;
use d10_core::color::{Color, Rgb, Srgb};
use d10_core::pixelbuffer::PixelBuffer;

pub fn sample8(v: f32, b: u8, slack: f32) -> bool {
    let d = v * 255.0 - b as f32;
    d <= slack && d >= -0.501
}
fn sample16(v: f32, hi: u8, lo: u8) -> bool {
    let n = hi as u32 * 256 + lo as u32;
    let d = v * 65535.0 - n as f32;
    d <= 0.51 && d >= -0.51
}
/// the samples a pixel is to be stored as
fn want(c: &Rgb, ch: u32) -> [f32; 4] {
    if ch <= 2 {
        let g = c.to_gray().to_srgb();
        [g.red(), g.alpha(), 0.0, 0.0]
    } else {
        let s = c.to_srgb();
        [s.red(), s.green(), s.blue(), s.alpha()]
    }
}
pub fn image(w: u32, h: u32) -> PixelBuffer<Rgb> {
    let mut v = Vec::with_capacity((w * h) as usize);
    for _ in 0..w * h {
        v.push(upx());
    }
    PixelBuffer::new_from_raw(w, h, v)
}
fn check_rec(b: &PixelBuffer<Rgb>, codec: u32, ch: u32, bits: u32) {
    let r = ctl::rec();
    nd::check(r.n == 1, "one image written");
    nd::check(r.codec == codec, "codec");
    nd::check(r.w == b.width() && r.h == b.height(), "dimensions");
    nd::check(r.channels == ch && r.bits == bits, "sample layout");
    let bytes = (ch * bits / 8) as usize;
    if r.data.len() != b.data().len() * bytes {
        nd::check(false, "data size");
        return;
    }
    for i in 0..b.data().len() {
        let s = want(&b.data()[i], ch);
        for k in 0..ch as usize {
            if bits == 8 {
                nd::check(sample8(s[k], r.data[i * bytes + k], 0.501), "the stored sample is the nearest level");
            } else {
                nd::check(sample16(s[k], r.data[i * bytes + 2 * k], r.data[i * bytes + 2 * k + 1]),
                    "the stored sample is the nearest 16 bit level");
            }
        }
    }
}
fn go(b: &PixelBuffer<Rgb>, f: EncodingFormat) {
    let mut w = Vec::with_capacity(64);
    let r = encode(&mut w, b, f);
    nd::check(r.is_ok(), "encodes");
}
pub fn png_types() -> [(PngColorType, u32, u32); 8] {
    use PngColorType::*;
    [(L8, 1, 8), (La8, 2, 8), (L16, 1, 16), (La16, 2, 16), (Rgb8, 3, 8), (Rgba8, 4, 8), (Rgb16, 3, 16), (Rgba16, 4, 16)]
}
pub fn png(color_type: PngColorType) -> EncodingFormat {
    EncodingFormat::Png { color_type, compression: PngCompression::Default, filter: PngFilterType::Sub }
}
fn png_case(k: usize, w: u32, h: u32) {
    let b = image(w, h);
    let (t, ch, bits) = png_types()[k];
    go(&b, png(t));
    check_rec(&b, ctl::PNG, ch, bits);
}
macro_rules! pngs { ($($n:ident $k:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { png_case($k, nd::pick(1, 2), nd::pick(1, 2)) })* } }
pngs! { c15_png_l8 0; c15_png_la8 1; c15_png_l16 2; c15_png_la16 3; c15_png_rgb8 4; c15_png_rgba8 5; c15_png_rgb16 6; c15_png_rgba16 7; }

/// a medium-size image: a fixed pattern of samples that are 0 or 1, every alpha and the last pixel arbitrary
pub fn medium(w: u32, h: u32, grey: bool) -> PixelBuffer<Rgb> {
    let n = (w * h) as usize;
    let mut v = Vec::with_capacity(n);
    let mut x = 12345u32;
    for _ in 0..n {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        let bit = |k: u32| (x >> k & 1) as f32;
        let r = bit(29);
        let (g, b) = if grey { (r, r) } else { (bit(30), bit(31)) };
        v.push(Rgb { data: [r, g, b, nd::unit()] });
    }
    v[n - 1] = upx();
    PixelBuffer::new_from_raw(w, h, v)
}
fn medium_case(codec: u32, ch: u32, bits: u32, f: EncodingFormat) {
    let b = medium(17, 9, ch <= 2);
    go(&b, f);
    check_rec(&b, codec, ch, bits);
}
fn medium_png(k: usize) {
    let (t, ch, bits) = png_types()[k];
    medium_case(ctl::PNG, ch, bits, png(t));
}
macro_rules! mediums { ($($n:ident $e:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { $e })* } }
mediums! {
    c15_medium_png_l8 medium_png(0); c15_medium_png_la8 medium_png(1); c15_medium_png_l16 medium_png(2); c15_medium_png_la16 medium_png(3);
    c15_medium_png_rgb8 medium_png(4); c15_medium_png_rgba8 medium_png(5); c15_medium_png_rgb16 medium_png(6); c15_medium_png_rgba16 medium_png(7);
    c15_medium_gif medium_case(ctl::GIF, 4, 8, EncodingFormat::Gif);
    c15_medium_bmp_rgb8 medium_case(ctl::BMP, 3, 8, EncodingFormat::Bmp { color_type: BmpColorType::Rgb8 });
    c15_medium_bmp_rgba8 medium_case(ctl::BMP, 4, 8, EncodingFormat::bmp_default());
    c15_medium_ico medium_case(ctl::ICO, 4, 8, EncodingFormat::ico_default());
    c15_medium_webp webp(medium(17, 9, false));
    c15_medium_jpeg medium_case(ctl::JPEG, 3, 8, EncodingFormat::jpeg_default());
}
#[no_mangle]
pub extern "C" fn c15_png_settings() {
    let b = PixelBuffer::new_from_raw(1, 1, vec![Rgb::WHITE]);
    use PngFilterType::*;
    let c = nd::pick(0, 2);
    let f = nd::pick(0, 4);
    let compression = [PngCompression::Default, PngCompression::Fast, PngCompression::Best][c as usize];
    let filter = [NoFilter, Sub, Up, Avg, Paeth][f as usize];
    go(&b, EncodingFormat::Png { color_type: PngColorType::Rgb8, compression, filter });
    let r = ctl::rec();
    nd::check(r.compression == c, "compression level");
    nd::check(r.filter == f, "filter");
}
#[no_mangle]
pub extern "C" fn c15_gif() {
    let b = image(nd::pick(1, 2), nd::pick(1, 2));
    go(&b, EncodingFormat::Gif);
    nd::check(ctl::rec().flags == 1, "the frame fills the screen");
    check_rec(&b, ctl::GIF, 4, 8);
}
#[no_mangle]
pub extern "C" fn c15_bmp() {
    use BmpColorType::*;
    let k = nd::pick(0, 3);
    let b = image(nd::pick(1, 2), nd::pick(1, 2));
    go(&b, EncodingFormat::Bmp { color_type: [L8, La8, Rgb8, Rgba8][k as usize] });
    check_rec(&b, ctl::BMP, k + 1, 8);
}
#[no_mangle]
pub extern "C" fn c15_ico() {
    use IcoColorType::*;
    let k = nd::pick(0, 3);
    let b = image(nd::pick(1, 2), nd::pick(1, 2));
    go(&b, EncodingFormat::Ico { color_type: [L8, La8, Rgb8, Rgba8][k as usize] });
    check_rec(&b, ctl::ICO, k + 1, 8);
}
#[no_mangle]
pub extern "C" fn c15_jpeg() {
    let gray = nd::pick(0, 1) == 1;
    let b = image(nd::pick(1, 2), nd::pick(1, 2));
    go(&b, EncodingFormat::Jpeg { quality: 85, progressive: false, sampling_factor: None, grayscale: gray, optimize_huffman_tables: true });
    check_rec(&b, ctl::JPEG, if gray { 1 } else { 3 }, 8);
}
/// quality (all 256 values), flags and subsampling reach the encoder
#[no_mangle]
pub extern "C" fn c15_jpeg_settings() {
    use JpegSamplingFactor::*;
    let b = PixelBuffer::new_from_raw(1, 1, vec![Rgb::WHITE]);
    let q = nd::u8();
    let (p, o) = (nd::bool(), nd::bool());
    let fs = [(F_1_1, 0x11), (F_2_1, 0x21), (F_1_2, 0x12), (F_2_2, 0x22), (F_4_1, 0x41), (F_4_2, 0x42), (F_1_4, 0x14), (F_2_4, 0x24),
        (R_4_4_4, 0x11), (R_4_4_0, 0x12), (R_4_4_1, 0x14), (R_4_2_2, 0x21), (R_4_2_0, 0x22), (R_4_2_1, 0x24), (R_4_1_1, 0x41), (R_4_1_0, 0x42)];
    let k = nd::pick(0, 16) as usize;
    let f = if k == 16 { None } else { Some(fs[k].0) };
    go(&b, EncodingFormat::Jpeg { quality: q, progressive: p, sampling_factor: f, grayscale: false, optimize_huffman_tables: o });
    let r = ctl::rec();
    nd::check(r.quality == (if q < 1 { 1 } else if q > 100 { 100 } else { q as u32 }), "quality");
    nd::check(r.flags == (p as u32) | (o as u32) << 1, "progressive and optimised tables");
    nd::check(r.sampling == (if k == 16 { 0 } else { fs[k].1 }), "subsampling");
}
#[no_mangle]
pub extern "C" fn c15_webp() {
    webp(image(nd::pick(1, 2), nd::pick(1, 2)))
}
fn webp(b: PixelBuffer<Rgb>) {
    go(&b, EncodingFormat::webp_default());
    let r = ctl::rec();
    nd::check(r.n == 1 && r.codec == ctl::WEBP && r.w == b.width() && r.h == b.height(), "dimensions");
    if r.argb.len() != b.data().len() {
        nd::check(false, "data size");
        return;
    }
    for i in 0..r.argb.len() {
        let s = want(&b.data()[i], 4);
        let p = r.argb[i];
        for (k, sh) in [(0, 16), (1, 8), (2, 0), (3, 24)] {
            // the level below the value or the nearest one
            nd::check(sample8(s[k], (p >> sh) as u8, 1.001), "the stored sample is a neighbouring level");
        }
    }
}
#[no_mangle]
pub extern "C" fn c15_webp_settings() {
    use WebPPreset::*;
    let b = PixelBuffer::new_from_raw(1, 1, vec![Rgb::WHITE]);
    let q = nd::u8();
    let k = nd::pick(0, 6) as usize;
    go(&b, EncodingFormat::WebP { quality: q, preset: [Default, Picture, Photo, Drawing, Icon, Text, Lossless][k] });
    let r = ctl::rec();
    if k == 6 {
        nd::check(r.flags == 1, "lossless");
    } else {
        nd::check(r.flags == 0 && r.compression == k as u32, "preset");
        nd::check(r.quality == (if q > 100 { 100 } else { q as u32 }), "quality");
    }
}
/// the documented defaults
#[no_mangle]
pub extern "C" fn c15_defaults() {
    let b = PixelBuffer::new_from_raw(1, 1, vec![Rgb::WHITE]);
    let q = nd::u8();
    match nd::pick(0, 8) {
        0 => {
            go(&b, EncodingFormat::jpeg_default());
            nd::check(ctl::rec().quality == 85 && ctl::rec().codec == ctl::JPEG && ctl::rec().channels == 3, "jpeg");
        }
        1 => {
            go(&b, EncodingFormat::jpeg_with_quality(q));
            nd::check(ctl::rec().quality == q.clamp(1, 100) as u32 && ctl::rec().codec == ctl::JPEG && ctl::rec().channels == 3, "jpeg");
        }
        2 => {
            go(&b, EncodingFormat::png_default());
            let r = ctl::rec();
            nd::check(r.codec == ctl::PNG && r.channels == 4 && r.bits == 8 && r.compression == 0 && r.filter == 1, "png");
        }
        3 => {
            go(&b, EncodingFormat::gif_default());
            nd::check(ctl::rec().codec == ctl::GIF, "gif");
        }
        4 => {
            go(&b, EncodingFormat::bmp_default());
            nd::check(ctl::rec().codec == ctl::BMP && ctl::rec().channels == 4, "bmp");
        }
        5 => {
            go(&b, EncodingFormat::ico_default());
            nd::check(ctl::rec().codec == ctl::ICO && ctl::rec().channels == 4, "ico");
        }
        6 => {
            go(&b, EncodingFormat::webp_default());
            nd::check(ctl::rec().codec == ctl::WEBP && ctl::rec().quality == 90 && ctl::rec().compression == 0 && ctl::rec().flags == 0, "webp");
        }
        7 => {
            go(&b, EncodingFormat::webp_with_quality(q));
            nd::check(ctl::rec().codec == ctl::WEBP && ctl::rec().quality == q.min(100) as u32 && ctl::rec().compression == 0 && ctl::rec().flags == 0, "webp");
        }
        _ => {
            go(&b, EncodingFormat::webp_with_preset(q, WebPPreset::Icon));
            nd::check(ctl::rec().codec == ctl::WEBP && ctl::rec().quality == q.min(100) as u32 && ctl::rec().compression == 4 && ctl::rec().flags == 0, "webp");
        }
    }
}

// ------------------------------------------------------------------ C14
const PNG: &[u8] = &[0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A];
/// decode an image of one pixel with arbitrary samples, encode it in the same layout: the same samples
fn round(head: &[u8], ch: u32, bits: u32, f: EncodingFormat) {
    let d = ctl::dec();
    d.w = 1;
    d.h = 1;
    d.channels = ch;
    d.bits = bits;
    for _ in 0..ch * bits / 8 {
        d.data.push(nd::u8());
    }
    let b = match decode_buffer(head) {
        Ok(b) => b.buffer,
        Err(_) => {
            nd::check(false, "decodes");
            return;
        }
    };
    go(&b, f);
    let r = ctl::rec();
    nd::check(r.data.len() == d.data.len(), "size");
    for i in 0..d.data.len().min(r.data.len()) {
        nd::check(r.data[i] == d.data[i], "the same level");
    }
}
macro_rules! rounds { ($($n:ident $k:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { let (t, ch, bits) = png_types()[$k]; round(PNG, ch, bits, png(t)) })* } }
rounds! { c14_png_l8 0; c14_png_la8 1; c14_png_l16 2; c14_png_la16 3; c14_png_rgb8 4; c14_png_rgba8 5; c14_png_rgb16 6; c14_png_rgba16 7; }
#[no_mangle]
pub extern "C" fn c14_bmp_rgb8() { round(b"BM", 3, 8, EncodingFormat::Bmp { color_type: BmpColorType::Rgb8 }) }
#[no_mangle]
pub extern "C" fn c14_bmp_rgba8() { round(b"BM", 4, 8, EncodingFormat::bmp_default()) }
#[no_mangle]
pub extern "C" fn c14_ico_rgba8() { round(&[0, 0, 1, 0], 4, 8, EncodingFormat::ico_default()) }
#[no_mangle]
pub extern "C" fn c14_gif() { round(b"GIF89a", 4, 8, EncodingFormat::Gif) }
/// lossless WebP
#[no_mangle]
pub extern "C" fn c14_webp() {
    let d = ctl::dec();
    d.w = 1;
    d.h = 1;
    d.channels = 4;
    d.bits = 8;
    for _ in 0..4 {
        d.data.push(nd::u8());
    }
    let b = match decode_buffer(b"RIFF0000WEBP") {
        Ok(b) => b.buffer,
        Err(_) => {
            nd::check(false, "decodes");
            return;
        }
    };
    go(&b, EncodingFormat::WebP { quality: 100, preset: WebPPreset::Lossless });
    let r = ctl::rec();
    if r.argb.len() != 1 {
        nd::check(false, "size");
        return;
    }
    for (k, sh) in [(0, 16), (1, 8), (2, 0), (3, 24)] {
        let got = (r.argb[0] >> sh) as u8;
        nd::check(got == d.data[k], "the same level");
    }
}
