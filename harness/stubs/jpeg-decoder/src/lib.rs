//! Stand-in for the jpeg-decoder crate.
use std::fmt;
use std::io::{self, Read};
#[derive(Debug)]
pub enum UnsupportedFeature { Hierarchical }
#[derive(Debug)]
pub enum Error { Format(String), Unsupported(UnsupportedFeature), Io(io::Error), Internal(Box<dyn std::error::Error + Send + Sync + 'static>) }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("D") } }
impl std::error::Error for Error {}
impl From<io::Error> for Error { fn from(e: io::Error) -> Self { Error::Io(e) } }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PixelFormat { L8, L16, RGB24, CMYK32 }
impl PixelFormat {
    pub fn pixel_bytes(&self) -> usize { match self { PixelFormat::L8 => 1, PixelFormat::L16 => 2, PixelFormat::RGB24 => 3, PixelFormat::CMYK32 => 4 } }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ImageInfo { pub width: u16, pub height: u16, pub pixel_format: PixelFormat }
pub struct Decoder<R> { r: R, done: bool }
impl<R: Read> Decoder<R> {
    pub fn new(r: R) -> Self { Decoder { r, done: false } }
    pub fn set_max_decoding_buffer_size(&mut self, _: usize) {}
    pub fn info(&self) -> Option<ImageInfo> {
        let d = ctl::dec();
        if !self.done || d.fail == 5 { return None; }
        Some(ImageInfo { width: d.w as u16, height: d.h as u16, pixel_format: match (d.channels, d.bits) { (1, 8) => PixelFormat::L8, (1, _) => PixelFormat::L16, (3, _) => PixelFormat::RGB24, _ => PixelFormat::CMYK32 } })
    }
    pub fn read_info(&mut self) -> Result<(), Error> {
        if !self.done {
            ctl::open(ctl::JPEG, &mut self.r)?;
            match ctl::dec().fail {
                1 => return Err(Error::Io(ctl::io_error())),
                2 => return Err(Error::Format(String::new())),
                _ => {}
            }
            self.done = true;
        }
        Ok(())
    }
    pub fn decode(&mut self) -> Result<Vec<u8>, Error> {
        self.read_info()?;
        match ctl::dec().fail {
            3 => Err(Error::Io(ctl::io_error())),
            4 => Err(Error::Unsupported(UnsupportedFeature::Hierarchical)),
            _ => Ok(ctl::dec().data.clone()),
        }
    }
}
