//! C26 the command line: the program's main with arguments and exit code in the harness' hands
use crate::cmd::*;
use crate::disk::head;
use crate::fs::*;
use crate::util::*;
use d10::*;
use d10_commands::*;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;

#[allow(dead_code, unused_imports)]
mod program {
    include!(concat!(env!("OUT_DIR"), "/main.rs"));
    pub fn run() -> i32 { crate::fake::process::Code::code(main()) }
}
static mut THEN: fn(i32) = |_| {};
fn at_exit(code: i32) {
    unsafe { THEN(code) }
}
/// runs the program; `then` gets the exit code
fn run(args: Vec<OsString>, then: fn(i32)) {
    unsafe {
        THEN = then;
        crate::fake::process::AT_EXIT = at_exit;
        crate::fake::env::ARGS = args;
    }
    let code = program::run();
    then(code);
}
fn os(s: &str) -> OsString { OsString::from(s) }

/// the commands and their parameters, from the program's documentation of itself
#[derive(Clone, Copy, PartialEq)]
enum Par { None, Path, Intensity, One, Two, Three }
const NAMES: [(&[u8], Par); 18] = [
    (b"silent", Par::None), (b"open", Par::Path), (b"save", Par::Path), (b"grayscale", Par::Intensity), (b"invert", Par::None),
    (b"gamma", Par::One), (b"level", Par::Three), (b"brightness", Par::One), (b"contrast", Par::One),
    (b"brightness-contrast", Par::Two), (b"saturation", Par::One), (b"stretch-saturation", Par::One), (b"lightness", Par::One),
    (b"hue-rotate", Par::One), (b"rotate", Par::One), (b"random-noise", Par::One), (b"salt-n-pepper-noise", Par::One),
    (b"rgb-noise", Par::One),
];
fn named(i: usize, p: [f32; 3]) -> Cmd {
    match i {
        0 => Cmd::Silent,
        3 => Cmd::ToGray(Intensity::Saturation),
        4 => Cmd::Invert,
        5 => Cmd::Gamma(p[0]),
        6 => Cmd::Level { black_point: p[0], white_point: p[1], gamma: p[2] },
        7 => Cmd::Brightness(p[0]),
        8 => Cmd::Contrast(p[0]),
        9 => Cmd::BrightnessContrast { brightness: p[0], contrast: p[1] },
        10 => Cmd::Saturation(p[0]),
        11 => Cmd::StretchSaturation(p[0]),
        12 => Cmd::Lightness(p[0]),
        13 => Cmd::HueRotate(p[0]),
        14 => Cmd::Rotate { radians: p[0], filter: FilterMode::Bilinear },
        15 => Cmd::RandomNoise(p[0]),
        16 => Cmd::SaltNPepperNoise(p[0]),
        _ => Cmd::RgbNoise(p[0]),
    }
}
const PARAMS: [(&str, &[f32]); 12] = [
    ("0.5", &[0.5]), ("-1.25", &[-1.25]), ("2", &[2.0]), ("0.25,0.75", &[0.25, 0.75]), ("-0.1,1e-1", &[-0.1, 0.1]),
    ("0.1,0.9,1.5", &[0.1, 0.9, 1.5]), ("1,0.5,.25", &[1.0, 0.5, 0.25]), ("1,2,3,4", &[1.0, 2.0, 3.0, 4.0]), ("", &[]), ("0,5,", &[]),
    ("half", &[]), ("0.5 ", &[]),
];
fn pixels() -> Vec<u8> { vec![200, 100, 50, 128, 10, 20, 30, 255] }
/// arguments of the running test, for the checks at its end
struct Case { code: i32, reference: Vec<Cmd>, touched: u32, tag: u32 }
static mut CASE: Case = Case { code: 0, reference: Vec::new(), touched: 0, tag: 0 };
#[allow(static_mut_refs)]
fn case() -> &'static mut Case { unsafe { &mut CASE } }

fn rejected(code: i32) {
    nd::check(code == 1, "a bad command line is an error");
    nd::check(fs().opened == 0 && fs().printed == 0, "and nothing is executed");
}
/// the program's effect is that of the queue `case().reference`
fn as_queue(code: i32) {
    let (n, created, closed, printed) = (ctl::rec().n, fs().created, fs().closed, fs().printed);
    let got = out();
    let (a, b) = (fs().wrong_name, fs().exists);
    let f = fs();
    (f.created, f.closed, f.printed, f.wrong_name, f.exists, f.opened) = (0, 0, 0, false, true, 0);
    input(pixels());
    ctl::rec().n = 0;
    ctl::rng().mode = 2;
    let mut q = Queue::new();
    for c in std::mem::take(&mut case().reference) {
        q.push(c);
    }
    let r = q.run();
    nd::check((code == 0) == r.is_ok() && (code == 0 || code == 1), "exit code");
    nd::check(n == ctl::rec().n && same_out(&got, &out()), "the image saved is that of the commands");
    nd::check(fs().created == created && fs().closed == closed, "files written");
    nd::check(fs().printed == printed, "lines printed");
    nd::check(fs().wrong_name == a && fs().exists == b, "files named");
}
fn is(n: &[u8], m: &[u8]) -> bool {
    if n.len() != m.len() {
        return false;
    }
    for i in 0..n.len() {
        if n[i] != m[i] {
            return false;
        }
    }
    true
}
fn go(name: Vec<u8>, follow: Option<usize>) {
    let mut known = 99;
    for i in 0..18 {
        if is(&name, NAMES[i].0) {
            known = i;
        }
    }
    input(pixels());
    ctl::rng().mode = 1;
    let mut dash = vec![b'-'];
    dash.extend_from_slice(&name);
    let mut args = vec![os("d10"), os("a.png"), OsString::from_vec(dash)];
    let p = match follow {
        Some(i) => {
            args.push(os(PARAMS[i].0));
            args.push(os("b.png"));
            Some(PARAMS[i].1)
        }
        None => None,
    };
    if known == 99 {
        return run(args, rejected);
    }
    let (_, par) = NAMES[known];
    let c = case();
    c.reference = vec![Cmd::Open("a.png".into())];
    match (par, p) {
        (Par::None, _) => {
            c.reference.push(named(known, [0.0; 3]));
            if let Some(i) = follow {
                // the parameter is a file name here, or a command without a name
                if PARAMS[i].0.starts_with('-') {
                    return run(args, rejected);
                }
                c.reference.push(Cmd::Save(PARAMS[i].0.into()));
                c.reference.push(Cmd::Save("b.png".into()));
            }
            run(args, as_queue)
        }
        (Par::Path, None) | (Par::Intensity, _) => run(args, rejected),
        (Par::Path, Some(_)) => {
            let n = PARAMS[follow.unwrap()].0;
            c.reference.push(if known == 1 { Cmd::Open(n.into()) } else { Cmd::Save(n.into()) });
            c.reference.push(Cmd::Save("b.png".into()));
            run(args, as_queue)
        }
        (_, Some(v)) if v.len() == match par { Par::One => 1, Par::Two => 2, _ => 3 } => {
            let mut a = [0.0; 3];
            a[..v.len()].copy_from_slice(v);
            c.reference.push(named(known, a));
            c.reference.push(Cmd::Save("b.png".into()));
            run(args, as_queue)
        }
        _ => run(args, rejected),
    }
}
fn letters(lo: u32, hi: u32, max: u8) -> Vec<u8> {
    let n = nd::pick(lo, hi);
    let mut v = vec![];
    for _ in 0..n {
        let c = nd::u8();
        nd::assume(c != 0 && c <= max);
        v.push(c);
    }
    v
}
/// any ASCII text after the dash
#[no_mangle]
pub extern "C" fn c26_name_short() { let n = letters(0, 10, 127); go(n, Some(0)) }
/// any bytes at all
#[no_mangle]
pub extern "C" fn c26_name_bytes() { let n = letters(0, 3, 255); go(n, Some(0)) }
#[no_mangle]
pub extern "C" fn c26_name_long() { let n = letters(11, 21, 127); go(n, Some(0)) }
/// every command with every parameter of the list, or none
macro_rules! params { ($($n:ident $from:expr, $to:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() {
    let i = nd::pick($from, $to) as usize;
    let k = nd::pick(0, 12) as usize;
    go(NAMES[i].0.to_vec(), if k == 12 { None } else { Some(k) })
})* } }
params! { c26_params_a 0, 4; c26_params_b 5, 9; c26_params_c 10, 13; c26_params_d 14, 17; }
#[no_mangle]
pub extern "C" fn c26_grayscale() {
    let (n, v) = match nd::pick(0, 4) {
        0 => ("average", Some(Intensity::Average)),
        1 => ("saturation", Some(Intensity::Saturation)),
        2 => ("Average", None),
        3 => ("", None),
        _ => ("averag", None),
    };
    input(pixels());
    let args = vec![os("d10"), os("a.png"), os("-grayscale"), os(n), os("b.png")];
    match n.parse::<Intensity>() {
        Ok(v) => {
            case().reference = vec![Cmd::Open("a.png".into()), Cmd::ToGray(v), Cmd::Save("b.png".into())];
            run(args, as_queue)
        }
        Err(_) => run(args, rejected),
    }
    let _ = v;
}
/// the first file is opened, later ones are saved to; commands run in the order given
#[no_mangle]
pub extern "C" fn c26_order() {
    input(pixels());
    let mut args = vec![os("d10")];
    let mut has = false;
    let n = nd::pick(1, 4);
    case().reference.clear();
    for _ in 0..n {
        let c = match nd::pick(0, 4) {
            0 => {
                args.push(os("a.png"));
                if has { Cmd::Save("a.png".into()) } else { has = true; Cmd::Open("a.png".into()) }
            }
            1 => {
                args.push(os("b.png"));
                if has { Cmd::Save("b.png".into()) } else { has = true; Cmd::Open("b.png".into()) }
            }
            2 => {
                args.push(os("-silent"));
                Cmd::Silent
            }
            3 => {
                args.push(os("-invert"));
                Cmd::Invert
            }
            _ => {
                args.push(os("-open"));
                args.push(os("a.png"));
                has = true;
                Cmd::Open("a.png".into())
            }
        };
        case().reference.push(c);
    }
    run(args, as_queue)
}
/// no arguments at all
#[no_mangle]
pub extern "C" fn c26_nothing() { run(vec![os("d10")], rejected) }
/// errors of the commands are errors of the program
#[no_mangle]
pub extern "C" fn c26_errors() {
    input(pixels());
    match nd::pick(0, 2) {
        0 => fs().exists = false,
        1 => ctl::dec().fail = 2,
        _ => fs().fail_at = nd::pick(1, 8),
    }
    run(vec![os("d10"), os("-silent"), os("a.png"), os("-invert"), os("b.png")], |code| {
        let bad = fs().failed || fs().created == 0;
        nd::check(code == bad as i32, "an error gives the exit code 1");
    })
}
