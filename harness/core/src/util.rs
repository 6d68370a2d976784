use d10_core::color::Rgb;
use d10_core::pixelbuffer::PixelBuffer;

/// arbitrary bit patterns in all four channels
pub fn px() -> Rgb {
    Rgb { data: [nd::f32(), nd::f32(), nd::f32(), nd::f32()] }
}
/// all channels in [0,1]
pub fn upx() -> Rgb {
    Rgb { data: [nd::unit(), nd::unit(), nd::unit(), nd::unit()] }
}
/// all four channels bit-identical
pub fn same(a: &Rgb, b: &Rgb) -> bool {
    (a.data[0].to_bits() ^ b.data[0].to_bits())
        | (a.data[1].to_bits() ^ b.data[1].to_bits())
        | (a.data[2].to_bits() ^ b.data[2].to_bits())
        | (a.data[3].to_bits() ^ b.data[3].to_bits())
        == 0
}
pub fn raw(w: u32, h: u32) -> Vec<Rgb> {
    let n = (w * h) as usize;
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(px());
    }
    v
}
pub fn buf(w: u32, h: u32) -> PixelBuffer<Rgb> {
    PixelBuffer::new_from_raw(w, h, raw(w, h))
}
/// an image of symbolic dimensions whose content is an arbitrary function of the address
pub fn opaque(w: u32, h: u32) -> PixelBuffer<Rgb> {
    let n = w as u64 * h as u64;
    let v = unsafe { Vec::from_raw_parts(nd::opaque(n * 16) as *mut Rgb, n as usize, n as usize) };
    PixelBuffer::new_from_raw(w, h, v)
}
/// every valid pair of dimensions: w,h >= 1, w*h <= MAX
pub fn any_dims(max: u64) -> (u32, u32) {
    let w = nd::range(1, max as u32);
    let h = nd::range(1, max as u32);
    nd::assume(w as u64 * h as u64 <= max);
    (w, h)
}
