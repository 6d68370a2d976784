//! C25 the command queue
use crate::disk::*;
use crate::fs::*;
use crate::util::*;
use d10::*;
use d10_commands::*;

/// what the encoder was given, or that an error was reported
#[derive(Clone, PartialEq)]
pub struct Out {
    pub n: u32,
    pub codec: u32,
    pub w: u32,
    pub h: u32,
    pub channels: u32,
    pub bits: u32,
    pub data: Vec<u8>,
}
pub fn out() -> Out {
    let r = ctl::rec();
    Out { n: r.n, codec: r.codec, w: r.w, h: r.h, channels: r.channels, bits: r.bits, data: std::mem::take(&mut r.data) }
}
pub fn same_out(a: &Out, b: &Out) -> bool {
    a.codec == b.codec && a.w == b.w && a.h == b.h && a.channels == b.channels && a.bits == b.bits && a.data == b.data
}
pub fn input(data: Vec<u8>) {
    let f = fs();
    f.name = b"a.png";
    f.save_name = b"b.png";
    f.exists = true;
    f.data = head(ctl::PNG).to_vec();
    let d = ctl::dec();
    d.w = data.len() as u32 / 4;
    d.h = 1;
    d.channels = 4;
    d.bits = 8;
    d.data = data;
}
pub fn command(k: u32, a: f32, b: f32, c: f32) -> Cmd {
    match k {
        0 => Cmd::ToGray(Intensity::Average),
        1 => Cmd::Invert,
        2 => Cmd::Gamma(a),
        3 => Cmd::Level { black_point: a, white_point: b, gamma: c },
        4 => Cmd::Brightness(a),
        5 => Cmd::Contrast(a),
        6 => Cmd::BrightnessContrast { brightness: a, contrast: b },
        7 => Cmd::Saturation(a),
        8 => Cmd::StretchSaturation(a),
        9 => Cmd::Lightness(a),
        10 => Cmd::HueRotate(a),
        11 => Cmd::Rotate { radians: a, filter: FilterMode::Bilinear },
        12 => Cmd::RandomNoise(a),
        13 => Cmd::SaltNPepperNoise(a),
        14 => Cmd::RgbNoise(a),
        _ => Cmd::ToGray(Intensity::Saturation),
    }
}
/// the same by the builder
fn built(q: Queue, k: u32, a: f32, b: f32, c: f32) -> Queue {
    match k {
        0 => q.to_gray(Intensity::Average),
        1 => q.invert(),
        2 => q.gamma(a),
        3 => q.level(a, b, c),
        4 => q.brightness(a),
        5 => q.contrast(a),
        6 => q.brightness_contrast(a, b),
        7 => q.saturation(a),
        8 => q.stretch_saturation(a),
        9 => q.lightness(a),
        10 => q.hue_rotate(a),
        11 => q.rotate(a, FilterMode::Bilinear),
        15 => q.to_gray(Intensity::Saturation),
        _ => q.with(command(k, a, b, c)),
    }
}
/// what a command stands for
pub fn direct(i: &mut Image, k: u32, a: f32, b: f32, c: f32) {
    let f = |p: &Rgb| -> Rgb {
        match k {
            0 => p.to_gray_with_intensity(Intensity::Average),
            1 => p.invert(),
            2 => p.with_gamma(a),
            3 => p.with_level(a, b, c),
            4 => p.with_brightness(a),
            5 => p.with_contrast(a),
            6 => p.with_brightness_contrast(a, b),
            7 => p.with_saturation(a),
            8 => p.stretch_saturation(a),
            9 => p.with_lightness(a),
            10 => p.with_hue_rotate(a),
            15 => p.to_gray_with_intensity(Intensity::Saturation),
            _ => *p,
        }
    };
    match k {
        11 => *i = i.rotate(a, FilterMode::Bilinear),
        12 => i.add_random_noise(a),
        13 => i.add_salt_n_pepper_noise(a),
        14 => i.add_rgb_noise(a),
        _ => {
            for p in i.data_mut() {
                *p = f(p);
            }
        }
    }
}
pub fn saved(i: &Image) -> Out {
    let mut mem = vec![];
    let _ = i.save_to_writer(&mut mem, EncodingFormat::png_default());
    out()
}
fn step(k: u32, n: usize, a: f32, b: f32, c: f32, builder: bool) {
    let mut px = vec![];
    for _ in 0..4 * n {
        px.push(nd::u8());
    }
    input(px);
    ctl::rng().mode = 1;
    let q = Queue::new().silent().open("a.png");
    let q = if builder { built(q, k, a, b, c) } else { q.with(command(k, a, b, c)) };
    let r = q.save("b.png").run();
    nd::check(r.is_ok(), "the queue runs");
    nd::check(fs().created == 1 && !fs().wrong_name, "the image is saved");
    let got = out();
    ctl::rng().mode = 2;
    fs().data = head(ctl::PNG).to_vec();
    let mut i = Image::read_from_buffer(head(ctl::PNG)).unwrap();
    direct(&mut i, k, a, b, c);
    nd::check(same_out(&got, &saved(&i)), "the image saved is the command's");
}
fn amount() -> f32 { nd::range_f32(-4.0, 4.0) }
macro_rules! steps { ($($n:ident $k:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() {
    let (a, b, c) = (amount(), amount(), amount());
    step($k, 1, a, b, c, nd::pick(0, 1) == 1)
})* } }
steps! {
    c25_to_gray 0; c25_invert 1; c25_gamma 2; c25_level 3; c25_brightness 4; c25_contrast 5; c25_brightness_contrast 6;
    c25_saturation 7; c25_stretch_saturation 8; c25_lightness 9; c25_hue_rotate 10; c25_random_noise 12;
    c25_salt_n_pepper_noise 13; c25_rgb_noise 14; c25_to_gray_saturation 15;
}
#[no_mangle]
pub extern "C" fn c25_rotate() {
    let a = match nd::pick(0, 3) { 0 => 0.0, 1 => 1.5, 2 => 3.14159, _ => -7.0 };
    step(11, 3, a, 0.0, 0.0, nd::pick(0, 1) == 1)
}
/// commands are applied in the order of the queue
#[no_mangle]
pub extern "C" fn c25_order() {
    let ks = [1, 2, 5, 9, 0, 11];
    let (k, l) = (ks[nd::pick(0, 5) as usize], ks[nd::pick(0, 5) as usize]);
    input(vec![200, 100, 50, 128, 10, 20, 30, 255]);
    let q = Queue::new().silent().open("a.png").with(command(k, 0.4, 0.0, 0.0)).with(command(l, 1.3, 0.0, 0.0)).save("b.png");
    nd::check(q.len() == 5 && !q.is_empty(), "length");
    nd::check(q.run().is_ok(), "the queue runs");
    let got = out();
    let mut i = Image::read_from_buffer(head(ctl::PNG)).unwrap();
    direct(&mut i, k, 0.4, 0.0, 0.0);
    direct(&mut i, l, 1.3, 0.0, 0.0);
    nd::check(same_out(&got, &saved(&i)), "in order");
}
/// a save in the middle stores the image as it is then
#[no_mangle]
pub extern "C" fn c25_save_between() {
    input(vec![200, 100, 50, 128]);
    let at = nd::pick(0, 2);
    let mut q = Queue::new().silent().open("a.png");
    for k in 0..3 {
        if at == k {
            q.push(Cmd::Save("b.png".into()));
        }
        if k < 2 {
            q.push(command(1 + k, 0.6, 0.0, 0.0));
        }
    }
    nd::check(q.run().is_ok(), "the queue runs");
    let got = out();
    let mut i = Image::read_from_buffer(head(ctl::PNG)).unwrap();
    for k in 0..at {
        direct(&mut i, 1 + k, 0.6, 0.0, 0.0);
    }
    nd::check(same_out(&got, &saved(&i)), "the image at that point");
}
/// without an image every command but open and silent is an error, and nothing after it runs
#[no_mangle]
pub extern "C" fn c25_missing_image() {
    input(vec![1, 2, 3, 4]);
    let k = nd::pick(0, 16);
    let q = if nd::pick(0, 1) == 1 { Queue::new().silent() } else { Queue::default() };
    let q = if k == 16 { q.save("b.png") } else { q.with(command(k, 0.5, 0.5, 0.5)) };
    match q.open("a.png").save("b.png").run() {
        Err(CommandError::MissingImage) => nd::check(true, "error"),
        _ => nd::check(false, "a command without an image is an error"),
    }
    nd::check(fs().opened == 0, "no later command runs");
}
/// an error stops the queue and is the queue's result
#[no_mangle]
pub extern "C" fn c25_stop() {
    input(vec![1, 2, 3, 4]);
    let first = nd::pick(0, 1) == 1;
    match nd::pick(0, 3) {
        0 => {
            fs().exists = false;
            let r = Queue::new().silent().open("a.png").invert().save("b.png").run();
            nd::check(matches!(r, Err(CommandError::Decoding(DecodingError::IoError(_)))), "the error of open");
            nd::check(fs().opened == 1 && fs().created == 0, "no later command runs");
        }
        1 => {
            ctl::dec().fail = 2;
            let r = Queue::new().silent().open("a.png").save("b.png").run();
            nd::check(matches!(r, Err(CommandError::Decoding(DecodingError::Decoding(_)))), "the error of the decoder");
            nd::check(fs().created == 0, "no later command runs");
        }
        2 => {
            let r = Queue::new().silent().open("a.png").save("b.nil").save("b.png").run();
            nd::check(matches!(r, Err(CommandError::Encoding(_))), "the error of save");
            nd::check(fs().created == 0, "no later command runs");
        }
        _ => {
            fs().fail_at = nd::pick(1, 8);
            let r = Queue::new().silent().open("a.png").save("b.png").run();
            nd::check(r.is_err() == fs().failed, "an I/O error is the queue's error");
        }
    }
    let _ = first;
}
/// every command is announced, unless silent came before it
#[no_mangle]
pub extern "C" fn c25_silent() {
    input(vec![1, 2, 3, 4]);
    let at = nd::pick(0, 3);
    let mut q = Queue::new();
    for k in 0..3 {
        if k == at {
            q.push(Cmd::Silent);
        }
        q.push(match k { 0 => Cmd::Open("a.png".into()), 1 => Cmd::Invert, _ => Cmd::Save("b.png".into()) });
    }
    nd::check(q.run().is_ok(), "the queue runs");
    nd::check(fs().printed == at, "one line per command, none after silent");
}
#[no_mangle]
pub extern "C" fn c25_empty() {
    let q = if nd::pick(0, 1) == 1 { Queue::new() } else { Queue::new().silent() };
    nd::check(q.run().is_ok(), "nothing to do");
    nd::check(fs().opened == 0 && fs().printed == 0, "nothing is done");
}
