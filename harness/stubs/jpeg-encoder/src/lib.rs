//! Stand-in for the jpeg-encoder crate.
use std::fmt;
use std::io::{self, Write};
#[derive(Debug)]
pub enum EncodingError { InvalidAppSegment(u8), AppSegmentTooLarge(usize), IccTooLarge(usize), BadImageData { length: usize, required: usize }, ZeroImageDimensions { width: u16, height: u16 }, IoError(io::Error), Write(String) }
impl fmt::Display for EncodingError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("E") } }
impl std::error::Error for EncodingError {}
impl From<io::Error> for EncodingError { fn from(e: io::Error) -> Self { EncodingError::IoError(e) } }
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum ColorType { Luma, Rgb, Rgba, Bgr, Bgra, Ycbcr, Cmyk, CmykAsYcck, Ycck }
#[allow(non_camel_case_types)]
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
#[repr(u8)]
pub enum SamplingFactor { F_1_1 = 0x11, F_2_1 = 0x21, F_1_2 = 0x12, F_2_2 = 0x22, F_4_1 = 0x41, F_4_2 = 0x42, F_1_4 = 0x14, F_2_4 = 0x24, R_4_4_4 = 0x80 | 0x11, R_4_4_0 = 0x80 | 0x12, R_4_4_1 = 0x80 | 0x14, R_4_2_2 = 0x80 | 0x21, R_4_2_0 = 0x80 | 0x22, R_4_2_1 = 0x80 | 0x24, R_4_1_1 = 0x80 | 0x41, R_4_1_0 = 0x80 | 0x42 }
pub struct Encoder<W: Write> { w: W, quality: u8, sampling: u32, flags: u32 }
impl<W: Write> Encoder<W> {
    pub fn new(w: W, quality: u8) -> Self {
        assert!(quality >= 1 && quality <= 100);
        Encoder { w, quality, sampling: 0, flags: 0 }
    }
    pub fn set_sampling_factor(&mut self, s: SamplingFactor) { self.sampling = s as u32 & 0x7f; }
    pub fn set_progressive(&mut self, p: bool) { self.flags = self.flags & !1 | p as u32; }
    pub fn set_optimized_huffman_tables(&mut self, p: bool) { self.flags = self.flags & !2 | (p as u32) << 1; }
    pub fn encode(mut self, data: &[u8], width: u16, height: u16, c: ColorType) -> Result<(), EncodingError> {
        let ch = match c { ColorType::Luma => 1, ColorType::Rgb => 3, _ => 4 };
        let req = width as usize * height as usize * ch;
        if data.len() < req { return Err(EncodingError::BadImageData { length: data.len(), required: req }); }
        if width == 0 || height == 0 { return Err(EncodingError::ZeroImageDimensions { width, height }); }
        let r = ctl::rec();
        r.n += 1;
        r.codec = ctl::JPEG;
        r.w = width as u32;
        r.h = height as u32;
        r.channels = ch as u32;
        r.bits = 8;
        r.quality = self.quality as u32;
        r.sampling = self.sampling;
        r.flags = self.flags;
        r.data.clear();
        r.data.extend_from_slice(data);
        self.w.write_all(&[0xff, 0xd8, 0xff, 0xe0])?;
        self.w.write_all(&[0xff, 0xda, 0, 0])?;
        self.w.write_all(&[0xff, 0xd9])?;
        Ok(())
    }
}
