//! C17 format detection, C28 names
use crate::util::*;
use d10_codecs::*;
use std::io::{self, Read, Seek, SeekFrom};
use std::path::Path;
use std::str::FromStr;

pub fn spec(b: &[u8]) -> Option<Format> {
    let is = |p: &[u8]| b.len() >= p.len() && b[..p.len()] == *p;
    if is(&[0xff, 0xd8, 0xff]) {
        Some(Format::Jpeg)
    } else if is(&[0x89, 0x50, 0x4e, 0x47, 0x0d, 0x0a, 0x1a, 0x0a]) {
        Some(Format::Png)
    } else if is(b"GIF87a") || is(b"GIF89a") {
        Some(Format::Gif)
    } else if is(b"BM") {
        Some(Format::Bmp)
    } else if is(&[0, 0, 1, 0]) {
        Some(Format::Ico)
    } else if is(b"RIFF") && b.len() >= 12 && b[8..12] == *b"WEBP" {
        Some(Format::WebP)
    } else {
        None
    }
}
struct Src {
    d: [u8; 14],
    len: usize,
    pos: usize,
    short: bool,
    intr: bool,
    fail: bool,
}
impl Read for Src {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        if self.fail {
            return Err(ctl::io_error());
        }
        if self.intr {
            self.intr = false;
            return Err(io::Error::from_raw_os_error(4));
        }
        let mut n = (self.len - self.pos).min(out.len());
        if n > 1 && self.short {
            n = nd::pick(1, n as u32) as usize;
            self.short = n > 4;
        }
        for i in 0..n {
            out[i] = self.d[self.pos + i];
        }
        self.pos += n;
        Ok(n)
    }
}
impl Seek for Src {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.pos = match p {
            SeekFrom::Start(n) => n as usize,
            SeekFrom::Current(n) => (self.pos as i64 + n) as usize,
            SeekFrom::End(n) => (self.len as i64 + n) as usize,
        };
        Ok(self.pos as u64)
    }
}
fn src(len: usize) -> Src {
    let mut d = [0; 14];
    for i in 0..len {
        d[i] = nd::u8();
    }
    Src { d, len, pos: 0, short: false, intr: false, fail: false }
}
fn detect(mut s: Src) {
    let want = spec(&s.d[..s.len]);
    let r = Format::from_reader(&mut s);
    nd::check(s.pos == 0, "the reader is rewound");
    match r {
        Ok(f) => nd::check(want == Some(f), "format of the signature"),
        Err(DecodingError::UnknownFormat) => nd::check(want.is_none(), "an unknown signature only"),
        Err(_) => nd::check(false, "kind of error"),
    }
}
/// all contents of 0..14 bytes
#[no_mangle]
pub extern "C" fn c17_signature() { detect(src(nd::pick(0, 14) as usize)) }
/// short reads do not change the result
#[no_mangle]
pub extern "C" fn c17_short_reads() {
    let mut s = src(12);
    s.short = true;
    detect(s);
}
#[no_mangle]
pub extern "C" fn c17_interrupted() {
    let mut s = src(12);
    s.intr = true;
    detect(s);
}
#[no_mangle]
pub extern "C" fn c17_read_error() {
    let mut s = src(12);
    s.fail = true;
    match Format::from_reader(&mut s) {
        Err(DecodingError::IoError(_)) => nd::check(true, "error"),
        _ => nd::check(false, "a read error is reported"),
    }
}
fn lower(c: u8) -> u8 { if c >= b'A' && c <= b'Z' { c + 32 } else { c } }
fn by_ext(e: &[u8]) -> Option<Format> {
    let mut l = [0u8; 8];
    for i in 0..e.len() {
        l[i] = lower(e[i]);
    }
    let l = &l[..e.len()];
    if l == b"jpg" || l == b"jpeg" { Some(Format::Jpeg) }
    else if l == b"png" { Some(Format::Png) }
    else if l == b"gif" { Some(Format::Gif) }
    else if l == b"bmp" { Some(Format::Bmp) }
    else if l == b"ico" { Some(Format::Ico) }
    else if l == b"webp" { Some(Format::WebP) }
    else { None }
}
/// extensions of 0..5 ASCII letters, digits or signs other than '.' and '/'
fn ext(n: usize, pre: &[u8]) {
    let mut p = [0u8; 16];
    p[..pre.len()].copy_from_slice(pre);
    let mut e = [0u8; 8];
    for i in 0..n {
        let c = nd::u8();
        nd::assume(c >= 1 && c < 0x80 && c != b'.' && c != b'/');
        e[i] = c;
        p[pre.len() + i] = c;
    }
    let s = unsafe { std::str::from_utf8_unchecked(&p[..pre.len() + n]) };
    let want = by_ext(&e[..n]);
    nd::check(Format::from_path(Path::new(s)) == want, "format of the extension");
    match EncodingFormat::from_path(Path::new(s)) {
        Ok(f) => nd::check(want == Some(f.format()), "encoding format of the extension"),
        Err(EncodingError::BadFileExtension(_)) => nd::check(want.is_none(), "an unknown extension only"),
        Err(_) => nd::check(false, "kind of error"),
    }
}
#[no_mangle]
pub extern "C" fn c17_ext3() { ext(3, b"a.") }
#[no_mangle]
pub extern "C" fn c17_ext4() { ext(4, b"a.") }
#[no_mangle]
pub extern "C" fn c17_ext_len() { ext(nd::pick(1, 5) as usize, b"a.") }
#[no_mangle]
pub extern "C" fn c17_ext_last() { ext(3, b"d.gif/x.bmp.") }
#[no_mangle]
pub extern "C" fn c17_no_ext() {
    let p = ["png", ".png", "a.png/b", "", "/", "..", "a."][nd::pick(0, 6) as usize];
    nd::check(Format::from_path(Path::new(p)).is_none(), "no extension");
    nd::check(EncodingFormat::from_path(Path::new(p)).is_err(), "no extension");
}

// ------------------------------------------------------------------ C28
/// a string of n symbolic ASCII characters
pub fn text(n: usize) -> String {
    let mut v = Vec::with_capacity(16);
    for _ in 0..n {
        let c = nd::u8();
        nd::assume(c < 0x80);
        v.push(c);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// exactly the names of the table, each for its own value
fn names<T: FromStr>(max: usize, table: &[(&str, u32)], id: fn(&T) -> u32) {
    let n = nd::pick(0, max as u32) as usize;
    let s = text(n);
    let mut want = 99;
    for &(t, v) in table {
        if t.len() == n && t.as_bytes() == s.as_bytes() {
            want = v;
        }
    }
    match T::from_str(&s) {
        Ok(v) => nd::check(id(&v) == want, "the name's value"),
        Err(_) => nd::check(want == 99, "every name is accepted"),
    }
}
#[no_mangle]
pub extern "C" fn c28_png_color() {
    names::<PngColorType>(7, &[("l8", 0), ("la8", 1), ("l16", 2), ("la16", 3), ("rgb8", 4), ("rgba8", 5), ("rgb16", 6), ("rgba16", 7)], |v| *v as u32)
}
#[no_mangle]
pub extern "C" fn c28_png_filter() {
    names::<PngFilterType>(10, &[("no_filter", 0), ("sub", 1), ("up", 2), ("avg", 3), ("paeth", 4)], |v| *v as u32)
}
#[no_mangle]
pub extern "C" fn c28_png_compression() {
    names::<PngCompression>(8, &[("default", 0), ("fast", 1), ("best", 2)], |v| *v as u32)
}
#[no_mangle]
pub extern "C" fn c28_bmp_color() {
    names::<BmpColorType>(6, &[("l8", 0), ("la8", 1), ("rgb8", 2), ("rgba8", 3)], |v| *v as u32)
}
#[no_mangle]
pub extern "C" fn c28_ico_color() {
    names::<IcoColorType>(6, &[("l8", 0), ("la8", 1), ("rgb8", 2), ("rgba8", 3)], |v| *v as u32)
}
#[no_mangle]
pub extern "C" fn c28_webp_preset() {
    names::<WebPPreset>(9, &[("default", 0), ("picture", 1), ("photo", 2), ("drawing", 3), ("icon", 4), ("text", 5), ("lossless", 6)], |v| *v as u32)
}
#[no_mangle]
pub extern "C" fn c28_jpeg_sampling() {
    use JpegSamplingFactor::*;
    names::<JpegSamplingFactor>(6, &[("1x1", F_1_1 as u32), ("2x1", F_2_1 as u32), ("1x2", F_1_2 as u32), ("2x2", F_2_2 as u32), ("4x1", F_4_1 as u32),
        ("4x2", F_4_2 as u32), ("1x4", F_1_4 as u32), ("2x4", F_2_4 as u32), ("4:4:4", R_4_4_4 as u32), ("4:4:0", R_4_4_0 as u32),
        ("4:4:1", R_4_4_1 as u32), ("4:2:2", R_4_2_2 as u32), ("4:2:0", R_4_2_0 as u32), ("4:2:1", R_4_2_1 as u32), ("4:1:1", R_4_1_1 as u32),
        ("4:1:0", R_4_1_0 as u32)], |v| *v as u32)
}
