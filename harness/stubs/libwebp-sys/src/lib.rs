//! Stand-in for libwebp-sys: the C entry points d10 uses, recording what they are given.
#![allow(non_camel_case_types, non_snake_case)]
use std::os::raw::{c_int, c_void};
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(u32)]
pub enum WebPPreset { WEBP_PRESET_DEFAULT = 0, WEBP_PRESET_PICTURE, WEBP_PRESET_PHOTO, WEBP_PRESET_DRAWING, WEBP_PRESET_ICON, WEBP_PRESET_TEXT }
#[derive(Debug, Clone, Copy)]
pub struct WebPConfig { pub lossless: c_int, pub quality: f32, pub method: c_int, pub preset: u32, pub exact: c_int }
impl WebPConfig {
    pub fn new() -> Result<Self, ()> { Ok(WebPConfig { lossless: 0, quality: 75.0, method: 4, preset: 0, exact: 0 }) }
    pub fn new_with_preset(p: WebPPreset, q: f32) -> Result<Self, ()> {
        if !(q >= 0.0 && q <= 100.0) { return Err(()); }
        Ok(WebPConfig { lossless: 0, quality: q, method: 4, preset: p as u32, exact: 0 })
    }
}
pub unsafe fn WebPConfigLosslessPreset(c: *mut WebPConfig, level: c_int) -> c_int {
    (*c).lossless = 1;
    (*c).quality = level as f32;
    1
}
pub type WriterFn = Option<unsafe extern "C" fn(*const u8, usize, *const WebPPicture) -> c_int>;
pub struct WebPPicture { pub use_argb: c_int, pub width: c_int, pub height: c_int, pub argb: *mut u32, pub argb_stride: c_int, pub writer: WriterFn, pub custom_ptr: *mut c_void, pub error_code: c_int }
impl WebPPicture {
    pub fn new() -> Result<Self, ()> {
        Ok(WebPPicture { use_argb: 0, width: 0, height: 0, argb: std::ptr::null_mut(), argb_stride: 0, writer: None, custom_ptr: std::ptr::null_mut(), error_code: 0 })
    }
}
pub const MAX: c_int = 16383;
pub unsafe fn WebPEncode(c: *const WebPConfig, p: *mut WebPPicture) -> c_int {
    let p = &mut *p;
    if p.width <= 0 || p.height <= 0 || p.width > MAX || p.height > MAX { return 0; }
    if p.use_argb != 1 || p.argb.is_null() { return 0; }
    let r = ctl::rec();
    r.n += 1;
    r.codec = ctl::WEBP;
    r.w = p.width as u32;
    r.h = p.height as u32;
    r.channels = 4;
    r.bits = 8;
    r.quality = (*c).quality as u32;
    r.flags = (*c).lossless as u32;
    r.compression = (*c).preset;
    r.argb.clear();
    for y in 0..p.height as usize {
        for x in 0..p.width as usize {
            r.argb.push(*p.argb.add(y * p.argb_stride as usize + x));
        }
    }
    let w = p.writer.unwrap();
    if ctl::dec().fail == 2 { return 0; }
    if w(b"RIFF".as_ptr(), 4, p) == 0 { return 0; }
    if w(b"WEBP".as_ptr(), 4, p) == 0 { return 0; }
    1
}
pub unsafe fn WebPPictureFree(_: *mut WebPPicture) {}
pub unsafe fn WebPGetInfo(data: *const u8, len: usize, w: *mut c_int, h: *mut c_int) -> c_int {
    let s = std::slice::from_raw_parts(data, len);
    let d = ctl::dec();
    d.codec = ctl::WEBP;
    d.n += 1;
    for i in 0..s.len().min(4) { d.head[i] = s[i]; }
    if d.fail == 2 { return 0; }
    *w = d.w as c_int;
    *h = d.h as c_int;
    1
}
pub unsafe fn WebPDecodeRGBA(_data: *const u8, _len: usize, w: *mut c_int, h: *mut c_int) -> *mut u8 {
    let d = ctl::dec();
    if d.fail == 4 { return std::ptr::null_mut(); }
    *w = d.w as c_int;
    *h = d.h as c_int;
    d.data.as_mut_ptr()
}
pub unsafe fn WebPFree(_: *mut c_void) {}
