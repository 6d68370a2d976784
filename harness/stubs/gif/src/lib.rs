//! Stand-in for the gif crate.
use std::borrow::Cow;
use std::fmt;
use std::io::{self, Read, Write};

#[derive(Debug)]
pub struct FormatError;
#[derive(Debug)]
pub enum EncodingError { Format(FormatError), Io(io::Error) }
#[derive(Debug)]
pub enum DecodingError { Format(FormatError), Io(io::Error) }
impl fmt::Display for EncodingError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("E") } }
impl fmt::Display for DecodingError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("D") } }
impl std::error::Error for EncodingError {}
impl std::error::Error for DecodingError {}
impl From<io::Error> for EncodingError { fn from(e: io::Error) -> Self { EncodingError::Io(e) } }
impl From<io::Error> for DecodingError { fn from(e: io::Error) -> Self { DecodingError::Io(e) } }

#[derive(Clone, Debug)]
pub struct Frame<'a> { pub delay: u16, pub top: u16, pub left: u16, pub width: u16, pub height: u16, pub transparent: Option<u8>, pub buffer: Cow<'a, [u8]> }
impl<'a> Frame<'a> {
    pub fn from_rgba(width: u16, height: u16, pixels: &mut [u8]) -> Frame<'static> { Self::from_rgba_speed(width, height, pixels, 1) }
    pub fn from_rgba_speed(width: u16, height: u16, pixels: &mut [u8], speed: i32) -> Frame<'static> {
        assert_eq!(width as usize * height as usize * 4, pixels.len());
        assert!(speed >= 1 && speed <= 30);
        Frame { delay: 0, top: 0, left: 0, width, height, transparent: None, buffer: Cow::Owned(pixels.to_vec()) }
    }
}
pub struct Encoder<W: Write> { w: Option<W>, width: u16, height: u16 }
impl<W: Write> Encoder<W> {
    pub fn new(mut w: W, width: u16, height: u16, _palette: &[u8]) -> Result<Self, EncodingError> {
        w.write_all(b"GIF8")?;
        Ok(Encoder { w: Some(w), width, height })
    }
    pub fn write_frame(&mut self, f: &Frame<'_>) -> Result<(), EncodingError> {
        self.w.as_mut().unwrap().write_all(&[0x2c])?;
        let r = ctl::rec();
        r.n += 1;
        r.codec = ctl::GIF;
        r.channels = 4;
        r.bits = 8;
        r.w = f.width as u32;
        r.h = f.height as u32;
        r.flags = (f.width == self.width && f.height == self.height && f.top == 0 && f.left == 0) as u32;
        r.data.clear();
        r.data.extend_from_slice(&f.buffer);
        Ok(())
    }
    fn trailer(&mut self) -> io::Result<()> { self.w.as_mut().unwrap().write_all(&[0x3b]) }
    pub fn into_inner(mut self) -> io::Result<W> {
        self.trailer()?;
        Ok(self.w.take().unwrap())
    }
}
impl<W: Write> Drop for Encoder<W> {
    fn drop(&mut self) {
        if self.w.is_some() { let _ = self.trailer(); }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ColorOutput { RGBA, Indexed }
pub struct DecodeOptions { rgba: bool }
impl DecodeOptions {
    pub fn new() -> Self { DecodeOptions { rgba: false } }
    pub fn set_color_output(&mut self, c: ColorOutput) { self.rgba = c == ColorOutput::RGBA; }
    pub fn read_info<R: Read>(self, mut r: R) -> Result<Decoder<R>, DecodingError> {
        ctl::open(ctl::GIF, &mut r)?;
        match ctl::dec().fail {
            1 => return Err(DecodingError::Io(ctl::io_error())),
            2 => return Err(DecodingError::Format(FormatError)),
            _ => {}
        }
        let d = ctl::dec();
        let n = if self.rgba { d.data.len() } else { d.data.len() / 4 };
        Ok(Decoder { _r: r, frame: Frame { delay: 0, top: d.at[1], left: d.at[0], width: d.w as u16, height: d.h as u16, transparent: None, buffer: Cow::Owned(d.data[..n].to_vec()) } })
    }
}
pub struct Decoder<R: Read> { _r: R, frame: Frame<'static> }
impl<R: Read> Decoder<R> {
    pub fn width(&self) -> u16 { self.frame.width.saturating_add(ctl::dec().around[0]) }
    pub fn height(&self) -> u16 { self.frame.height.saturating_add(ctl::dec().around[1]) }
    pub fn read_next_frame(&mut self) -> Result<Option<&Frame<'static>>, DecodingError> {
        match ctl::dec().fail {
            3 => Err(DecodingError::Io(ctl::io_error())),
            4 => Err(DecodingError::Format(FormatError)),
            5 => Ok(None),
            _ => Ok(Some(&self.frame)),
        }
    }
}
