//! Stand-in for the png crate: same interface, records what is encoded, returns what `ctl::dec()` says.
use std::fmt;
use std::io::{self, Read, Write};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum ColorType { Grayscale = 0, Rgb = 2, Indexed = 3, GrayscaleAlpha = 4, Rgba = 6 }
impl ColorType {
    pub fn samples(self) -> usize {
        match self { ColorType::Grayscale | ColorType::Indexed => 1, ColorType::GrayscaleAlpha => 2, ColorType::Rgb => 3, ColorType::Rgba => 4 }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum BitDepth { One = 1, Two = 2, Four = 4, Eight = 8, Sixteen = 16 }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum FilterType { NoFilter = 0, Sub = 1, Up = 2, Avg = 3, Paeth = 4 }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum AdaptiveFilterType { Adaptive, NonAdaptive }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[non_exhaustive]
pub enum Compression { Default, Fast, Best, Huffman, Rle }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Transformations(u32);
impl Transformations {
    pub const IDENTITY: Transformations = Transformations(0);
    pub const STRIP_16: Transformations = Transformations(1);
    pub const EXPAND: Transformations = Transformations(16);
    pub const ALPHA: Transformations = Transformations(0x10000);
    pub fn normalize_to_color8() -> Self { Transformations(17) }
}
impl std::ops::BitOr for Transformations {
    type Output = Self;
    fn bitor(self, o: Self) -> Self { Transformations(self.0 | o.0) }
}
#[derive(Debug)]
pub struct FormatError;
#[derive(Debug)]
pub struct ParameterError;
#[derive(Debug)]
pub enum EncodingError { IoError(io::Error), Format(FormatError), Parameter(ParameterError), LimitsExceeded }
#[derive(Debug)]
pub enum DecodingError { IoError(io::Error), Format(FormatError), Parameter(ParameterError), LimitsExceeded }
impl fmt::Display for EncodingError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("E") } }
impl fmt::Display for DecodingError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("D") } }
impl std::error::Error for EncodingError {}
impl std::error::Error for DecodingError {}
impl From<io::Error> for EncodingError { fn from(e: io::Error) -> Self { EncodingError::IoError(e) } }
impl From<io::Error> for DecodingError { fn from(e: io::Error) -> Self { DecodingError::IoError(e) } }

pub struct Encoder<W: Write> { w: W, width: u32, height: u32, color: ColorType, depth: BitDepth, comp: Compression, filter: FilterType }
impl<W: Write> Encoder<W> {
    pub fn new(w: W, width: u32, height: u32) -> Self {
        Encoder { w, width, height, color: ColorType::Grayscale, depth: BitDepth::Eight, comp: Compression::Default, filter: FilterType::Sub }
    }
    pub fn set_color(&mut self, c: ColorType) { self.color = c; }
    pub fn set_depth(&mut self, d: BitDepth) { self.depth = d; }
    pub fn set_compression(&mut self, c: Compression) { self.comp = c; }
    pub fn set_filter(&mut self, f: FilterType) { self.filter = f; }
    pub fn set_adaptive_filter(&mut self, _: AdaptiveFilterType) {}
    pub fn write_header(mut self) -> Result<Writer<W>, EncodingError> {
        if self.width == 0 || self.height == 0 { return Err(EncodingError::Format(FormatError)); }
        self.w.write_all(&[0x89, b'P', b'N', b'G'])?;
        let r = ctl::rec();
        r.codec = ctl::PNG;
        r.w = self.width;
        r.h = self.height;
        r.channels = self.color.samples() as u32;
        r.bits = self.depth as u32;
        r.filter = self.filter as u32;
        r.compression = self.comp as u32;
        Ok(Writer { w: self.w, size: self.width as u64 * self.height as u64 * self.color.samples() as u64 * (self.depth as u64 / 8), end: false })
    }
}
pub struct Writer<W: Write> { w: W, size: u64, end: bool }
impl<W: Write> Writer<W> {
    pub fn write_image_data(&mut self, data: &[u8]) -> Result<(), EncodingError> {
        if data.len() as u64 != self.size { return Err(EncodingError::Parameter(ParameterError)); }
        self.w.write_all(&[b'I', b'D', b'A', b'T'])?;
        let r = ctl::rec();
        r.n += 1;
        r.data.clear();
        r.data.extend_from_slice(data);
        Ok(())
    }
    fn iend(&mut self) -> io::Result<()> {
        self.end = true;
        self.w.write_all(&[b'I', b'E', b'N', b'D'])
    }
    pub fn finish(mut self) -> Result<(), EncodingError> { self.iend()?; Ok(()) }
}
impl<W: Write> Drop for Writer<W> {
    fn drop(&mut self) {
        if !self.end { let _ = self.iend(); }
    }
}

#[derive(Clone, Debug)]
pub struct Info { pub width: u32, pub height: u32, pub color_type: ColorType, pub bit_depth: BitDepth }
impl Info {
    pub fn size(&self) -> (u32, u32) { (self.width, self.height) }
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct OutputInfo { pub width: u32, pub height: u32, pub color_type: ColorType, pub bit_depth: BitDepth, pub line_size: usize }
impl OutputInfo {
    pub fn buffer_size(&self) -> usize { self.line_size * self.height as usize }
}
pub struct Decoder<R: Read> { r: R, t: Transformations }
impl<R: Read> Decoder<R> {
    pub fn new(r: R) -> Self { Decoder { r, t: Transformations::IDENTITY } }
    pub fn set_transformations(&mut self, t: Transformations) { self.t = t; }
    pub fn read_info(mut self) -> Result<Reader<R>, DecodingError> {
        ctl::open(ctl::PNG, &mut self.r)?;
        let d = ctl::dec();
        match d.fail {
            1 => return Err(DecodingError::IoError(ctl::io_error())),
            2 => return Err(DecodingError::Format(FormatError)),
            _ => {}
        }
        let expand = self.t.0 & 16 != 0;
        let mut depth = if d.bits == 16 { BitDepth::Sixteen } else { BitDepth::Eight };
        let mut color = match d.channels { 1 => ColorType::Grayscale, 2 => ColorType::GrayscaleAlpha, 3 => ColorType::Rgb, _ => ColorType::Rgba };
        if d.packed && !expand {
            if d.channels >= 3 { color = ColorType::Indexed; } else { depth = BitDepth::Two; color = ColorType::Grayscale; }
        } else if d.trns && !expand {
            if d.channels == 4 { color = ColorType::Rgb; } else { color = ColorType::Grayscale; }
        }
        let strip = self.t.0 & 1 != 0;
        if strip && d.bits == 16 { depth = BitDepth::Eight; }
        let same = color.samples() as u32 == d.channels && depth as u32 == d.bits && color != ColorType::Indexed;
        Ok(Reader { _r: self.r, color, depth, same, info: Info { width: d.w, height: d.h, color_type: color, bit_depth: depth } })
    }
}
pub struct Reader<R: Read> { _r: R, color: ColorType, depth: BitDepth, same: bool, info: Info }
impl<R: Read> Reader<R> {
    pub fn info(&self) -> &Info { &self.info }
    pub fn output_color_type(&self) -> (ColorType, BitDepth) { (self.color, self.depth) }
    pub fn output_line_size(&self, w: u32) -> usize { w as usize * self.color.samples() * (self.depth as usize / 8).max(1) }
    pub fn output_buffer_size(&self) -> usize { self.output_line_size(self.info.width) * self.info.height as usize }
    pub fn next_frame(&mut self, buf: &mut [u8]) -> Result<OutputInfo, DecodingError> {
        let d = ctl::dec();
        match d.fail {
            3 => return Err(DecodingError::IoError(ctl::io_error())),
            4 => return Err(DecodingError::Format(FormatError)),
            _ => {}
        }
        let n = self.output_buffer_size();
        if buf.len() < n { return Err(DecodingError::Parameter(ParameterError)); }
        if self.same { buf[..n].copy_from_slice(&d.data[..n]); }
        Ok(OutputInfo { width: self.info.width, height: self.info.height, color_type: self.color, bit_depth: self.depth, line_size: self.output_line_size(self.info.width) })
    }
}
