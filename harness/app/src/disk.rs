//! C18: files
use crate::fs::*;
use crate::util::*;
use d10_codecs::*;
use d10_core::color::Rgb;
use d10_core::pixelbuffer::PixelBuffer;

pub fn head(codec: u32) -> &'static [u8] {
    match codec {
        ctl::PNG => &[0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A],
        ctl::GIF => b"GIF89a",
        ctl::JPEG => &[0xff, 0xd8, 0xff, 0xe0],
        ctl::BMP => b"BM00",
        ctl::ICO => &[0, 0, 1, 0],
        _ => b"RIFF0000WEBP",
    }
}
pub fn name(codec: u32) -> (&'static str, &'static [u8]) {
    match codec {
        ctl::PNG => ("a.png", b"a.png"),
        ctl::GIF => ("a.gif", b"a.gif"),
        ctl::JPEG => ("a.jpg", b"a.jpg"),
        ctl::BMP => ("a.bmp", b"a.bmp"),
        ctl::ICO => ("a.ico", b"a.ico"),
        _ => ("a.webp", b"a.webp"),
    }
}
pub fn format(codec: u32) -> EncodingFormat {
    match codec {
        ctl::PNG => EncodingFormat::png_default(),
        ctl::GIF => EncodingFormat::Gif,
        ctl::JPEG => EncodingFormat::jpeg_default(),
        ctl::BMP => EncodingFormat::bmp_default(),
        ctl::ICO => EncodingFormat::ico_default(),
        _ => EncodingFormat::webp_default(),
    }
}
/// the bytes in the file are those encode writes to memory, or an error is reported
#[no_mangle]
pub extern "C" fn c18_file_write() {
    let codec = nd::pick(1, 6);
    let b = PixelBuffer::new_from_raw(1, 1, vec![Rgb::WHITE]);
    let mut mem = vec![];
    if encode(&mut mem, &b, format(codec)).is_err() {
        nd::check(false, "encodes");
    }
    let (n, raw) = name(codec);
    let f = fs();
    f.save_name = raw;
    f.exists = nd::pick(0, 1) == 1;
    if f.exists {
        f.data = vec![7; 20];
    }
    f.fail_at = nd::pick(0, 6);
    f.intr_at = nd::pick(0, 3);
    f.short = 1;
    let given = if nd::pick(0, 1) == 1 { Some(format(codec)) } else { None };
    let r = encode_to_file(n, &b, given);
    nd::check(!f.is_open, "the file is closed");
    match r {
        Ok(()) => {
            nd::check(!f.failed, "an error of any file operation is reported");
            nd::check(f.data == mem, "the file holds exactly the encoded image");
        }
        Err(EncodingError::IoError(e)) => nd::check(f.failed && e.raw_os_error() == Some(EIO), "the cause of the error"),
        Err(_) => nd::check(false, "kind of error"),
    }
}
/// an extension that names no format is an error and touches no file
#[no_mangle]
pub extern "C" fn c18_file_no_format() {
    let b = PixelBuffer::new_from_raw(1, 1, vec![Rgb::WHITE]);
    let n = match nd::pick(0, 3) { 0 => "a", 1 => "a.txt", 2 => ".png", _ => "a.png/" };
    let f = fs();
    f.exists = true;
    f.data = vec![7; 3];
    let r = encode_to_file(n, &b, None);
    if n == "a.png/" { return; }
    nd::check(matches!(r, Err(_)), "an unknown format is an error");
    nd::check(f.opened == 0 && f.data == [7; 3], "the file is left alone");
}
/// a file is decoded by its content, whatever its name says
#[no_mangle]
pub extern "C" fn c18_file_read() {
    let codec = nd::pick(1, 6);
    let (n, raw) = name(nd::pick(1, 6));
    let f = fs();
    f.name = raw;
    f.exists = true;
    f.data = head(codec).to_vec();
    f.fail_at = nd::pick(0, 5);
    f.intr_at = nd::pick(0, 3);
    f.short = 2;
    let d = ctl::dec();
    d.w = 1;
    d.h = 1;
    d.channels = 4;
    d.bits = 8;
    d.data = vec![255; 4];
    let r = decode_file(n);
    nd::check(!f.is_open, "the file is closed");
    match r {
        Ok(i) => {
            nd::check(d.codec == codec, "the decoder for the content");
            nd::check(d.head[0] == head(codec)[0] && d.head[1] == head(codec)[1], "the decoder sees the file from its start");
            nd::check(i.buffer.width() == 1 && i.buffer.height() == 1, "size");
        }
        Err(DecodingError::IoError(_)) => nd::check(f.failed, "an error needs a cause"),
        Err(_) => nd::check(f.failed, "an error needs a cause."),
    }
}
#[no_mangle]
pub extern "C" fn c18_file_missing() {
    let (n, raw) = name(nd::pick(1, 6));
    let f = fs();
    f.name = raw;
    match decode_file(n) {
        Err(DecodingError::IoError(e)) => nd::check(e.raw_os_error() == Some(ENOENT), "a missing file is reported"),
        _ => nd::check(false, "a missing file is an I/O error"),
    }
}
