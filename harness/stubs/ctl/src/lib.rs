//! What the codec stand-ins were given, and what they are to return.
use std::io;

pub const PNG: u32 = 1;
pub const GIF: u32 = 2;
pub const JPEG: u32 = 3;
pub const BMP: u32 = 4;
pub const ICO: u32 = 5;
pub const WEBP: u32 = 6;

pub struct Rec {
    pub n: u32,
    pub codec: u32,
    pub w: u32,
    pub h: u32,
    /// bytes (or 16-bit words) per pixel and what they mean
    pub channels: u32,
    pub bits: u32,
    pub quality: u32,
    pub flags: u32,
    pub sampling: u32,
    pub filter: u32,
    pub compression: u32,
    pub data: Vec<u8>,
    pub argb: Vec<u32>,
}
pub static mut REC: Rec = Rec { n: 0, codec: 0, w: 0, h: 0, channels: 0, bits: 0, quality: 0, flags: 0, sampling: 0,
    filter: 99, compression: 99, data: Vec::new(), argb: Vec::new() };
#[allow(static_mut_refs)]
pub fn rec() -> &'static mut Rec { unsafe { &mut REC } }

pub struct Dec {
    pub w: u32,
    pub h: u32,
    pub channels: u32,
    pub bits: u32,
    pub data: Vec<u8>,
    pub float: Vec<f32>,
    /// 0: decodes; 1: I/O error on opening; 2: malformed header; 3: I/O error in the pixel data;
    /// 4: malformed pixel data; 5: no frame / no info
    pub fail: u32,
    /// palette image or fewer than eight bits per sample (png)
    pub packed: bool,
    pub trns: bool,
    /// seen by the decoder
    pub head: [u8; 4],
    pub codec: u32,
    pub n: u32,
    pub eager: bool,
    /// the image lies at this place in a larger area, with this much space around it
    pub at: [u16; 2],
    pub around: [u16; 2],
}
pub static mut DEC: Dec = Dec { w: 0, h: 0, channels: 0, bits: 0, data: Vec::new(), float: Vec::new(), fail: 0,
    packed: false, trns: false, head: [0; 4], codec: 0, n: 0, eager: false, at: [0; 2], around: [0; 2] };
#[allow(static_mut_refs)]
pub fn dec() -> &'static mut Dec { unsafe { &mut DEC } }

pub const EIO: i32 = 5;
pub fn io_error() -> io::Error { io::Error::from_raw_os_error(EIO) }

/// the decoder looks at the first bytes of its input
pub fn open<R: io::Read>(codec: u32, r: &mut R) -> io::Result<()> {
    let d = dec();
    d.n += 1;
    d.codec = codec;
    let mut got = 0;
    while got < 4 {
        let n = match r.read(&mut d.head[got..]) {
            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
            n => n?,
        };
        if n == 0 {
            break;
        }
        got += n;
    }
    Ok(())
}

/// random numbers: while `mode` is 1 they are remembered, while it is 2 the remembered ones come again
pub struct Rng { pub mode: u32, pub tape: Vec<u64>, pub pos: usize }
pub static mut RNG: Rng = Rng { mode: 0, tape: Vec::new(), pos: 0 };
#[allow(static_mut_refs)]
pub fn rng() -> &'static mut Rng { unsafe { &mut RNG } }
fn again() -> Option<u64> {
    let r = rng();
    if r.mode != 2 || r.pos >= r.tape.len() { return None; }
    r.pos += 1;
    Some(r.tape[r.pos - 1])
}
/// an unexpected extra number is a fresh one
pub fn rnd_f32(f: impl FnOnce() -> f32) -> f32 {
    match again() {
        Some(v) => f32::from_bits(v as u32),
        None => {
            let v = f();
            if rng().mode == 1 { rng().tape.push(v.to_bits() as u64); }
            v
        }
    }
}
pub fn rnd_u64(f: impl FnOnce() -> u64) -> u64 {
    match again() {
        Some(v) => v,
        None => {
            let v = f();
            if rng().mode == 1 { rng().tape.push(v); }
            v
        }
    }
}
