//! Stand-in for the image crate (bmp and ico encoding and decoding).
use std::fmt;
use std::io;

#[derive(Copy, PartialEq, Eq, Debug, Clone, Hash)]
#[non_exhaustive]
pub enum ColorType { L8, La8, Rgb8, Rgba8, L16, La16, Rgb16, Rgba16, Rgb32F, Rgba32F }
impl ColorType {
    pub fn channel_count(self) -> u8 {
        use ColorType::*;
        match self { L8 | L16 => 1, La8 | La16 => 2, Rgb8 | Rgb16 | Rgb32F => 3, Rgba8 | Rgba16 | Rgba32F => 4 }
    }
    pub fn bytes_per_pixel(self) -> u8 {
        use ColorType::*;
        self.channel_count() * match self { L8 | La8 | Rgb8 | Rgba8 => 1, L16 | La16 | Rgb16 | Rgba16 => 2, _ => 4 }
    }
}
#[derive(Debug)]
pub struct Other;
#[derive(Debug)]
pub enum ImageError { Decoding(Other), Encoding(Other), Parameter(Other), Limits(Other), Unsupported(Other), IoError(io::Error) }
impl fmt::Display for ImageError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("E") } }
impl std::error::Error for ImageError {}
impl From<io::Error> for ImageError { fn from(e: io::Error) -> Self { ImageError::IoError(e) } }
pub type ImageResult<T> = Result<T, ImageError>;

#[derive(Clone, Debug)]
pub struct ImageBuffer<T, const N: usize> { w: u32, h: u32, data: Vec<[T; N]> }
impl<T: Copy, const N: usize> ImageBuffer<T, N> {
    pub fn width(&self) -> u32 { self.w }
    pub fn height(&self) -> u32 { self.h }
    pub fn dimensions(&self) -> (u32, u32) { (self.w, self.h) }
    pub fn pixels(&self) -> std::slice::Iter<'_, [T; N]> { self.data.iter() }
    pub fn get_pixel(&self, x: u32, y: u32) -> &[T; N] { &self.data[(y * self.w + x) as usize] }
    pub fn as_raw(&self) -> Vec<T> { self.data.iter().flatten().copied().collect() }
    pub fn into_raw(self) -> Vec<T> { self.as_raw() }
}
pub type RgbImage = ImageBuffer<u8, 3>;
pub type RgbaImage = ImageBuffer<u8, 4>;
pub type GrayImage = ImageBuffer<u8, 1>;
pub type GrayAlphaImage = ImageBuffer<u8, 2>;
pub type Rgb32FImage = ImageBuffer<f32, 3>;
pub type Rgba32FImage = ImageBuffer<f32, 4>;
#[derive(Clone, Debug)]
#[non_exhaustive]
pub enum DynamicImage {
    ImageLuma8(ImageBuffer<u8, 1>), ImageLumaA8(ImageBuffer<u8, 2>), ImageRgb8(ImageBuffer<u8, 3>), ImageRgba8(ImageBuffer<u8, 4>),
    ImageLuma16(ImageBuffer<u16, 1>), ImageLumaA16(ImageBuffer<u16, 2>), ImageRgb16(ImageBuffer<u16, 3>), ImageRgba16(ImageBuffer<u16, 4>),
    ImageRgb32F(ImageBuffer<f32, 3>), ImageRgba32F(ImageBuffer<f32, 4>),
}
macro_rules! each { ($s:expr, $i:ident => $e:expr) => { match $s {
    DynamicImage::ImageLuma8($i) => $e, DynamicImage::ImageLumaA8($i) => $e, DynamicImage::ImageRgb8($i) => $e, DynamicImage::ImageRgba8($i) => $e,
    DynamicImage::ImageLuma16($i) => $e, DynamicImage::ImageLumaA16($i) => $e, DynamicImage::ImageRgb16($i) => $e, DynamicImage::ImageRgba16($i) => $e,
    DynamicImage::ImageRgb32F($i) => $e, DynamicImage::ImageRgba32F($i) => $e } } }
fn p8<const N: usize>() -> ImageBuffer<u8, N> {
    let d = ctl::dec();
    let mut v = Vec::new();
    for c in d.data.chunks_exact(N) { v.push(core::array::from_fn(|i| c[i])); }
    ImageBuffer { w: d.w, h: d.h, data: v }
}
fn p16<const N: usize>() -> ImageBuffer<u16, N> {
    let d = ctl::dec();
    let mut v = Vec::new();
    for c in d.data.chunks_exact(2 * N) { v.push(core::array::from_fn(|i| u16::from_ne_bytes([c[2 * i], c[2 * i + 1]]))); }
    ImageBuffer { w: d.w, h: d.h, data: v }
}
fn p32<const N: usize>() -> ImageBuffer<f32, N> {
    let d = ctl::dec();
    let mut v = Vec::new();
    for c in d.float.chunks_exact(N) { v.push(core::array::from_fn(|i| c[i])); }
    ImageBuffer { w: d.w, h: d.h, data: v }
}
impl DynamicImage {
    pub fn from_decoder<D: ImageDecoder>(d: D) -> ImageResult<DynamicImage> {
        let _ = d;
        use DynamicImage::*;
        let d = ctl::dec();
        match d.fail {
            3 => return Err(ImageError::IoError(ctl::io_error())),
            4 => return Err(ImageError::Decoding(Other)),
            _ => {}
        }
        Ok(match (d.channels, d.bits) {
            (1, 8) => ImageLuma8(p8()), (2, 8) => ImageLumaA8(p8()), (3, 8) => ImageRgb8(p8()), (4, 8) => ImageRgba8(p8()),
            (1, 16) => ImageLuma16(p16()), (2, 16) => ImageLumaA16(p16()), (3, 16) => ImageRgb16(p16()), (4, 16) => ImageRgba16(p16()),
            (3, _) => ImageRgb32F(p32()), (_, _) => ImageRgba32F(p32()),
        })
    }
    pub fn width(&self) -> u32 { each!(self, i => i.w) }
    pub fn height(&self) -> u32 { each!(self, i => i.h) }
    pub fn color(&self) -> ColorType {
        use DynamicImage::*;
        match self { ImageLuma8(_) => ColorType::L8, ImageLumaA8(_) => ColorType::La8, ImageRgb8(_) => ColorType::Rgb8, ImageRgba8(_) => ColorType::Rgba8,
            ImageLuma16(_) => ColorType::L16, ImageLumaA16(_) => ColorType::La16, ImageRgb16(_) => ColorType::Rgb16, ImageRgba16(_) => ColorType::Rgba16,
            ImageRgb32F(_) => ColorType::Rgb32F, ImageRgba32F(_) => ColorType::Rgba32F }
    }
}
pub trait ImageDecoder {}
pub trait GenericImageView { fn dimensions(&self) -> (u32, u32); }
impl GenericImageView for DynamicImage { fn dimensions(&self) -> (u32, u32) { (self.width(), self.height()) } }
pub trait ImageEncoder {
    fn write_image(self, buf: &[u8], width: u32, height: u32, color_type: ColorType) -> ImageResult<()>;
}
fn record<W: io::Write>(codec: u32, mut w: W, buf: &[u8], width: u32, height: u32, c: ColorType) -> ImageResult<()> {
    let need = (width as u64 * height as u64).saturating_mul(c.bytes_per_pixel() as u64);
    assert_eq!(need, buf.len() as u64);
    let r = ctl::rec();
    r.n += 1;
    r.codec = codec;
    r.w = width;
    r.h = height;
    r.channels = c.channel_count() as u32;
    r.bits = 8;
    r.data.clear();
    r.data.extend_from_slice(buf);
    w.write_all(if codec == ctl::BMP { b"BM00" } else { &[0, 0, 1, 0] })?;
    w.write_all(b"data")?;
    Ok(())
}
macro_rules! decoder { ($n:ident, $c:expr) => {
    pub struct $n<R> { _r: R }
    impl<R: io::Read + io::Seek> $n<R> {
        pub fn new(mut r: R) -> ImageResult<$n<R>> {
            ctl::open($c, &mut r)?;
            match ctl::dec().fail {
                1 => return Err(ImageError::IoError(ctl::io_error())),
                2 => return Err(ImageError::Decoding(Other)),
                _ => {}
            }
            Ok($n { _r: r })
        }
    }
    impl<R> ImageDecoder for $n<R> {}
} }
pub mod codecs {
    pub mod bmp {
        use crate::*;
        pub struct BmpEncoder<'a, W: 'a> { w: &'a mut W }
        impl<'a, W: io::Write + 'a> BmpEncoder<'a, W> {
            pub fn new(w: &'a mut W) -> Self { BmpEncoder { w } }
            pub fn encode(&mut self, buf: &[u8], width: u32, height: u32, c: ColorType) -> ImageResult<()> { record(ctl::BMP, &mut *self.w, buf, width, height, c) }
        }
        impl<'a, W: io::Write> ImageEncoder for BmpEncoder<'a, W> {
            fn write_image(mut self, buf: &[u8], width: u32, height: u32, c: ColorType) -> ImageResult<()> { self.encode(buf, width, height, c) }
        }
        decoder!(BmpDecoder, ctl::BMP);
    }
    pub mod ico {
        use crate::*;
        pub struct IcoEncoder<W: io::Write> { w: W }
        impl<W: io::Write> IcoEncoder<W> { pub fn new(w: W) -> Self { IcoEncoder { w } } }
        impl<W: io::Write> ImageEncoder for IcoEncoder<W> {
            fn write_image(self, buf: &[u8], width: u32, height: u32, c: ColorType) -> ImageResult<()> {
                assert_eq!((width as u64 * height as u64).saturating_mul(c.bytes_per_pixel() as u64), buf.len() as u64);
                if width == 0 || height == 0 || width > 256 || height > 256 { return Err(ImageError::Parameter(Other)); }
                record(ctl::ICO, self.w, buf, width, height, c)
            }
        }
        decoder!(IcoDecoder, ctl::ICO);
    }
}
