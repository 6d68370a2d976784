//! C18 I/O errors and format limits
use crate::dec::head;
use crate::enc::image;
use crate::util::*;
use d10_codecs::*;
use d10_core::color::{Color, Rgb};
use d10_core::pixelbuffer::PixelBuffer;
use std::io::{self, Write};

/// fails at a chosen call, writes any part of what it is given at the others
struct Sink {
    calls: u32,
    fail_at: u32,
    failed: bool,
    short: u32,
    total: u32,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls == self.fail_at {
            self.failed = true;
            return Err(ctl::io_error());
        }
        let mut n = b.len();
        if self.short > 0 && n > 1 {
            self.short -= 1;
            n = nd::pick(1, n as u32) as usize;
        }
        self.total += n as u32;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
pub fn format(codec: u32) -> EncodingFormat {
    match codec {
        ctl::PNG => EncodingFormat::png_default(),
        ctl::GIF => EncodingFormat::Gif,
        ctl::JPEG => EncodingFormat::jpeg_default(),
        ctl::BMP => EncodingFormat::bmp_default(),
        ctl::ICO => EncodingFormat::ico_default(),
        _ => EncodingFormat::webp_default(),
    }
}
/// bytes the codec stand-in writes
pub fn length(codec: u32) -> u32 {
    match codec { ctl::PNG => 12, ctl::GIF => 6, ctl::JPEG => 10, _ => 8 }
}
/// a write error at any point makes encode fail with that error
#[no_mangle]
pub extern "C" fn c18_write_error() {
    let codec = nd::pick(1, 6);
    let b = PixelBuffer::new_from_raw(1, 1, vec![Rgb::WHITE]);
    let mut s = Sink { calls: 0, fail_at: nd::pick(0, 6), failed: false, short: 2, total: 0 };
    let r = encode(&mut s, &b, format(codec));
    match r {
        Ok(()) => {
            nd::check(!s.failed, "a write error is reported");
            nd::check(s.total == length(codec), "everything is written");
        }
        Err(EncodingError::IoError(e)) => nd::check(s.failed && e.raw_os_error() == Some(ctl::EIO), "the writer's error"),
        Err(_) => nd::check(false, "kind of error"),
    }
}
/// dimensions a format cannot store are an error
fn too_big(codec: u32, w: u32, h: u32) {
    let b = opaque(w, h);
    let mut s = Sink { calls: 0, fail_at: 0, failed: false, short: 0, total: 0 };
    match encode(&mut s, &b, format(codec)) {
        Ok(()) => nd::check(false, "too large for the format"),
        Err(EncodingError::BadDimensions { width, height, .. }) => {
            nd::check(width == w && height == h, "the error names the dimensions");
            nd::check(s.calls == 0, "nothing is written");
        }
        Err(_) => nd::check(false, "kind of error"),
    }
    std::mem::forget(b);
}
fn big() -> (u32, u32) {
    let (w, h) = any_dims((1 << 30) - 1);
    nd::assume(w > 65535 || h > 65535);
    (w, h)
}
#[no_mangle]
pub extern "C" fn c18_gif_too_big() { let (w, h) = big(); too_big(ctl::GIF, w, h) }
#[no_mangle]
pub extern "C" fn c18_jpeg_too_big() { let (w, h) = big(); too_big(ctl::JPEG, w, h) }

/// the smallest images beyond the limits
fn edge(codec: u32) {
    let (w, h) = [(65536, 1), (1, 65536), (65537, 1), (1, 65537)][nd::pick(0, 3) as usize];
    let n = w as usize * h as usize;
    let mut v = std::mem::ManuallyDrop::new(vec![0u32; 4 * n]);
    let v = unsafe { Vec::from_raw_parts(v.as_mut_ptr() as *mut Rgb, n, n) };
    let b = PixelBuffer::new_from_raw(w, h, v);
    let mut s = Sink { calls: 0, fail_at: 0, failed: false, short: 0, total: 0 };
    let r = encode(&mut s, &b, format(codec));
    nd::check(matches!(r, Err(EncodingError::BadDimensions { width, height, .. }) if width == w && height == h), "too large for the format");
    nd::check(s.calls == 0, "nothing is written.");
    std::mem::forget(b);
}
#[no_mangle]
pub extern "C" fn c18_gif_edge() { edge(ctl::GIF) }
#[no_mangle]
pub extern "C" fn c18_jpeg_edge() { edge(ctl::JPEG) }
