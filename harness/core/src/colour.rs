use crate::util::*;
use d10_core::color::illuminant::{D50, D65, E};
use d10_core::color::observer::{O10, O2};
use d10_core::color::*;

const EPS: f32 = 1.0 / 32768.0;
fn ok(v: f32) -> bool { (v >= 0.0) & (v <= 1.0) }
fn within(a: f32, b: f32, e: f32) -> bool { let d = a - b; (d < e) & (d > -e) }
fn near(a: f32, b: f32) -> bool { within(a, b, EPS) }
fn clamp01(v: f32) -> f32 { v.max(0.0).min(1.0) }
fn range_ok(c: &Rgb) {
    nd::check(ok(c.data[0]), "red in range");
    nd::check(ok(c.data[1]), "green in range");
    nd::check(ok(c.data[2]), "blue in range");
    nd::check(ok(c.data[3]), "alpha in range");
}
fn all_near(a: &Rgb, b: &Rgb, e: f32, msg: &'static str) {
    nd::check(within(a.data[0], b.data[0], e), msg);
    nd::check(within(a.data[1], b.data[1], e), msg);
    nd::check(within(a.data[2], b.data[2], e), msg);
    nd::check(within(a.data[3], b.data[3], e), msg);
}
macro_rules! h {
    ($n:ident $b:block) => {
        #[no_mangle]
        pub extern "C" fn $n() $b
    };
}
/// two channels symbolic, the third from a few values (all three for the cheap operations)
fn semi() -> Rgb {
    let k = [0.0f32, 0.3, 1.0][nd::pick(0, 2) as usize];
    let (a, b) = (nd::unit(), nd::unit());
    match nd::pick(0, 2) {
        0 => Rgb { data: [k, a, b, nd::unit()] },
        1 => Rgb { data: [a, k, b, nd::unit()] },
        _ => Rgb { data: [a, b, k, nd::unit()] },
    }
}
const F: f32 = 100.0;
fn factor() -> f32 { nd::range_f32(-F, F) }

// ------------------------------------------------------------------ C09 adjustments keep alpha; C10 and stay in range
fn adj(which: u32, c: Rgb) -> Rgb {
    match which {
        0 => c.to_gray(),
        1 => c.to_gray_with_intensity(Intensity::Average),
        2 => c.to_gray_with_intensity(Intensity::Rec601Luma),
        3 => c.to_gray_with_intensity(Intensity::Brightness),
        4 => c.to_gray_with_intensity(Intensity::Lightness),
        5 => c.to_gray_with_intensity(Intensity::Red),
        6 => c.to_gray_with_intensity(Intensity::Green),
        7 => c.to_gray_with_intensity(Intensity::Blue),
        8 => c.invert(),
        9 => c.with_brightness(factor()),
        10 => c.with_contrast(factor()),
        11 => c.with_brightness_contrast(factor(), factor()),
        12 => c.with_sepia(),
        13 => c.map_channels(|v| v * 3.0 - 1.0),
        14 => c.with_gamma(nd::range_f32(0.05, 20.0)),
        15 => c.with_gamma_opt(nd::range_f32(0.05, 20.0)),
        16 => c.with_level(0.2, 0.8, nd::range_f32(0.05, 20.0)),
        17 => c.with_level(0.5, 0.5, 1.0),
        18 => c.with_level(0.9, 0.1, 1.0),
        // through HSL
        19 => c.to_gray_with_intensity(Intensity::Saturation),
        20 => c.with_saturation(nd::range_f32(-F, F)),
        21 => c.stretch_saturation(nd::range_f32(-F, F)),
        22 => c.with_gamma_saturation(nd::range_f32(0.05, 20.0)),
        23 => c.with_lightness(nd::range_f32(-F, F)),
        24 => c.with_hue_rotate(nd::range_f32(-800.0, 800.0)),
        25 => c.with_vibrance(nd::range_f32(-1.0, 1.0)),
        _ => c.modulate(nd::range_f32(0.0, 4.0), nd::range_f32(0.0, 4.0), nd::range_f32(0.0, 4.0)),
    }
}
fn keeps(which: u32, c: Rgb) {
    let r = adj(which, c);
    nd::check(r.data[3] == c.data[3], "alpha kept");
}
fn ranged(which: u32, c: Rgb) { range_ok(&adj(which, c)) }
h!(c09_linear { keeps(nd::pick(0, 13), upx()) });
h!(c09_gamma { keeps(nd::pick(14, 18), upx()) });
h!(c09_hsl { keeps(nd::pick(19, 26), upx()) });
h!(c10_linear { ranged(nd::pick(3, 13), upx()) });
h!(c10_gray { ranged(nd::pick(0, 2), upx()) });
h!(c10_gamma { ranged(nd::pick(14, 18), upx()) });
h!(c10_saturation { ranged(20, upx()) });
h!(c10_stretch { ranged(21, upx()) });
h!(c10_gamma_saturation { ranged(22, upx()) });
h!(c10_lightness { ranged(23, upx()) });
h!(c10_hue_rotate { ranged(24, upx()) });
h!(c10_vibrance { ranged(25, upx()) });
h!(c10_modulate { ranged(26, upx()) });
h!(c10_gray_saturation { ranged(19, upx()) });
/// constructors and conversions into RGB clamp whatever they are given
h!(c10_new {
    let (a, b, c, d) = (nd::f32(), nd::f32(), nd::f32(), nd::f32());
    nd::assume((a == a) & (b == b) & (c == c) & (d == d));
    range_ok(&Rgb::new_with_alpha(a, b, c, d));
    range_ok(&Rgb::new(a, b, c));
    let s = Srgb::new_with_alpha(a, b, c, d);
    nd::check(ok(s.data[0]) & ok(s.data[1]) & ok(s.data[2]) & ok(s.data[3]), "srgb in range");
    let u = |v: f32, r: f32| nd::check(!((v >= 0.0) & (v <= 1.0)) | (r.to_bits() == v.to_bits()), "a value in range is kept");
    let r = Rgb::new_with_alpha(a, b, c, d);
    u(a, r.data[0]);
    u(b, r.data[1]);
    u(c, r.data[2]);
    u(d, r.data[3]);
});
h!(c10_from_hsl { range_ok(&Hsl::new_with_alpha(nd::unit(), nd::unit(), nd::unit(), nd::unit()).to_rgb()) });
h!(c10_from_hsv { range_ok(&Hsv::new_with_alpha(nd::unit(), nd::unit(), nd::unit(), nd::unit()).to_rgb()) });
h!(c10_from_xyz { range_ok(&Xyz::new_with_alpha(factor(), factor(), factor(), nd::unit()).to_rgb()) });
h!(c10_from_yuv { range_ok(&Yuv::new_with_alpha(nd::unit(), nd::range_f32(-0.5, 0.5), nd::range_f32(-0.7, 0.7), nd::unit()).to_rgb()) });
h!(c10_from_srgb { range_ok(&Srgb::new_with_alpha(nd::unit(), nd::unit(), nd::unit(), nd::unit()).to_rgb()) });
h!(c10_from_lab { range_ok(&Lab::<D65, O2>::new_with_alpha(nd::unit(), nd::range_f32(-1.0, 1.0), nd::range_f32(-1.0, 1.0), nd::unit()).to_rgb()) });
h!(c10_from_lch { range_ok(&Lch::<D65, O2>::new_with_alpha(nd::unit(), nd::unit(), nd::range_f32(-3.2, 3.2), nd::unit()).to_rgb()) });
h!(c10_to_hsl {
    let d = upx().to_hsl();
    nd::check(ok(d.data[0]), "hue in range");
    nd::check((d.data[1] >= 0.0) & (d.data[1] <= 1.0 + EPS), "saturation in range");
    nd::check(ok(d.data[2]), "lightness in range");
});
h!(c10_to_hsv {
    let d = upx().to_hsv();
    nd::check(ok(d.data[0]), "hue in range");
    nd::check(ok(d.data[1]), "saturation in range");
    nd::check(ok(d.data[2]), "value in range");
});
h!(c10_to_srgb {
    let d = upx().to_srgb();
    nd::check(ok(d.data[0]) & ok(d.data[1]) & ok(d.data[2]), "in range");
});

// ------------------------------------------------------------------ C11 predicates
h!(c11_gray {
    let (c, a) = (upx(), nd::unit());
    let g = c.is_grayscale();
    let (r, gr, b) = (c.data[0], c.data[1], c.data[2]);
    if g {
        nd::check(within(r, gr, 2.0 * EPS) & within(gr, b, 2.0 * EPS) & within(r, b, 4.0 * EPS), "a gray colour has equal channels");
    } else {
        nd::check(!((r == gr) & (gr == b)), "a colour of equal channels is gray");
    }
    nd::check(Rgb { data: [a, a, a, c.data[3]] }.is_grayscale(), "equal channels are gray");
});
h!(c11_gray_swap {
    let c = upx();
    let d = Rgb { data: [c.data[2], c.data[1], c.data[0], nd::unit()] };
    nd::check(c.is_grayscale() == d.is_grayscale(), "independent of alpha, red and blue alike");
});
h!(c11_gray_one {
    // one channel clearly off
    let v = nd::unit();
    let o = nd::unit();
    nd::assume((o > v + 2.0 * EPS) | (o < v - 2.0 * EPS));
    let mut c = Rgb { data: [v, v, v, nd::unit()] };
    c.data[nd::pick(0, 2) as usize] = o;
    nd::check(!c.is_grayscale(), "one channel off: not gray");
});
h!(c11_transparency {
    let c = upx();
    let t = c.has_transparency();
    if c.data[3] == 1.0 {
        nd::check(!t, "opaque");
    }
    if c.data[3] < 1.0 - 2.0 * EPS {
        nd::check(t, "transparent");
    }
    nd::check(t == Rgb { data: [0.0, 1.0, 0.5, c.data[3]] }.has_transparency(), "alpha only");
});
fn image(n: u32) -> d10_core::pixelbuffer::PixelBuffer<Rgb> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(upx());
    }
    d10_core::pixelbuffer::PixelBuffer::new_from_raw(1, n, v)
}
h!(c11_buffer_gray {
    let b = image(nd::pick(1, 4));
    let mut all = true;
    for c in b.data() {
        all &= c.is_grayscale();
    }
    nd::check(b.is_grayscale() == all, "an image is gray if every pixel is");
});
h!(c11_buffer_transparency {
    let b = image(nd::pick(1, 4));
    let mut any = false;
    for c in b.data() {
        any |= c.has_transparency();
    }
    nd::check(b.has_transparency() == any, "an image is transparent if any pixel is");
});
h!(c11_eq {
    let (a, b) = (upx(), upx());
    let e = a == b;
    nd::check(e == (b == a), "symmetric");
    let mut close = true;
    let mut apart = false;
    for k in 0..4 {
        close &= within(a.data[k], b.data[k], EPS / 2.0);
        apart |= !within(a.data[k], b.data[k], EPS * 2.0);
    }
    if close {
        nd::check(e, "close channels: equal");
    }
    if apart {
        nd::check(!e, "a channel apart: different");
    }
    nd::check(a == a, "reflexive");
});
h!(c11_min_max {
    let c = upx();
    let (lo, hi) = (c.min(), c.max());
    for k in 0..3 {
        nd::check((lo <= c.data[k]) & (c.data[k] <= hi), "min <= channel <= max");
    }
    nd::check((lo == c.data[0]) | (lo == c.data[1]) | (lo == c.data[2]), "min is a channel");
    nd::check((hi == c.data[0]) | (hi == c.data[1]) | (hi == c.data[2]), "max is a channel");
});

// ------------------------------------------------------------------ C12 round trips and neutral parameters
h!(c12_srgb { let c = upx(); all_near(&c.to_srgb().to_rgb(), &c, EPS, "sRGB and back"); });
/// one channel symbolic, the others from a few values
fn one() -> Rgb {
    let k = [0.0f32, 0.3, 1.0];
    let (a, b, v) = (k[nd::pick(0, 2) as usize], k[nd::pick(0, 2) as usize], nd::unit());
    match nd::pick(0, 2) {
        0 => Rgb { data: [v, a, b, nd::unit()] },
        1 => Rgb { data: [a, v, b, nd::unit()] },
        _ => Rgb { data: [a, b, v, nd::unit()] },
    }
}
h!(c12_hsl2 { let c = semi(); all_near(&c.to_hsl().to_rgb(), &c, 2.0 * EPS, "HSL and back"); });
h!(c12_yuv1 { let c = one(); all_near(&c.to_yuv().to_rgb(), &c, 4.0 * EPS, "YUV and back"); });
h!(c12_lab1 { let c = one(); all_near(&c.to_lab::<D65, O2>().to_rgb(), &c, 8.0 * EPS, "Lab and back"); });
h!(c12_hsl { let c = upx(); all_near(&c.to_hsl().to_rgb(), &c, 2.0 * EPS, "HSL and back"); });
h!(c12_hsv { let c = upx(); all_near(&c.to_hsv().to_rgb(), &c, 2.0 * EPS, "HSV and back"); });
h!(c12_xyz { let c = upx(); all_near(&c.to_xyz().to_rgb(), &c, 2.0 * EPS, "XYZ and back"); });
h!(c12_yuv { let c = upx(); all_near(&c.to_yuv().to_rgb(), &c, 2.0 * EPS, "YUV and back"); });
h!(c12_lab { let c = upx(); all_near(&c.to_lab::<D65, O2>().to_rgb(), &c, 2.0 * EPS, "Lab and back"); });
h!(c12_lab_d50 { let c = upx(); all_near(&c.to_lab::<D50, O10>().to_rgb(), &c, 2.0 * EPS, "Lab and back"); });
h!(c12_lab_e { let c = upx(); all_near(&c.to_lab::<E, O2>().to_rgb(), &c, 2.0 * EPS, "Lab and back"); });
h!(c12_lch { let c = upx(); all_near(&c.to_lch::<D65, O2>().to_rgb(), &c, 2.0 * EPS, "LCH and back"); });
h!(c12_from_xyz {
    let c = upx().to_xyz();
    let d = c.to_rgb().to_xyz();
    for k in 0..3 {
        nd::check(within(c.data[k], d.data[k], 2.0 * EPS), "RGB and back");
    }
});
h!(c12_gray_axis {
    let (v, a) = (nd::unit(), nd::unit());
    let c = Rgb { data: [v, v, v, a] };
    all_near(&c.to_hsl().to_rgb(), &c, EPS, "HSL and back");
    all_near(&c.to_hsv().to_rgb(), &c, EPS, "HSV and back");
    all_near(&c.to_xyz().to_rgb(), &c, 2.0 * EPS, "XYZ and back");
    nd::check(c.to_hsl().data[1] == 0.0, "no saturation");
    nd::check(c.to_hsv().data[1] == 0.0, "no saturation");
});

// ------------------------------------------------------------------ C13 conversions keep alpha
fn alphas<C: Color + From<Rgb>>(c: C, a: f32) {
    let same = |v: f32| nd::check(v == a, "alpha kept");
    same(c.alpha());
    same(c.to_rgb().alpha());
    same(c.to_srgb().alpha());
    same(c.to_hsl().alpha());
    same(c.to_hsv().alpha());
    same(c.to_yuv().alpha());
    same(c.to_xyz().alpha());
    same(c.to_lab::<D65, O2>().alpha());
    same(c.to_lch::<D65, O2>().alpha());
}
macro_rules! c13 {
    ($n:ident, $c:expr) => {
        h!($n {
            let a = nd::unit();
            // a few fixed colours: which way the conversion goes must not matter for alpha
            for v in [[0.0f32, 0.0, 0.0], [1.0, 1.0, 1.0], [0.25, 0.5, 0.75], [0.75, 0.125, 0.25]] {
                let f: fn([f32; 3], f32) -> _ = $c;
                alphas(f(v, a), a);
            }
        });
    };
}
c13!(c13_rgb, |v, a| Rgb::new_with_alpha(v[0], v[1], v[2], a));
c13!(c13_srgb, |v, a| Srgb::new_with_alpha(v[0], v[1], v[2], a));
c13!(c13_hsl, |v, a| Hsl::new_with_alpha(v[0], v[1], v[2], a));
c13!(c13_hsv, |v, a| Hsv::new_with_alpha(v[0], v[1], v[2], a));
c13!(c13_yuv, |v, a| Yuv::new_with_alpha(v[0], v[1], v[2], a));
c13!(c13_xyz, |v, a| Xyz::new_with_alpha(v[0], v[1], v[2], a));
c13!(c13_lab, |v, a| Lab::<D65, O2>::new_with_alpha(v[0], v[1], v[2], a));
c13!(c13_lch, |v, a| Lch::<D65, O2>::new_with_alpha(v[0], v[1], v[2], a));
/// the same for every colour
h!(c13_any {
    let c = upx();
    let a = c.data[3];
    nd::check(c.to_srgb().alpha() == a, "alpha kept");
    nd::check(c.to_hsl().alpha() == a, "alpha kept");
    nd::check(c.to_hsv().alpha() == a, "alpha kept");
    nd::check(c.to_yuv().alpha() == a, "alpha kept");
    nd::check(c.to_xyz().alpha() == a, "alpha kept");
});
h!(c13_any_back {
    let v = [nd::unit(), nd::unit(), nd::unit()];
    let a = nd::unit();
    nd::check(Srgb::new_with_alpha(v[0], v[1], v[2], a).to_rgb().alpha() == a, "alpha kept");
    nd::check(Hsl::new_with_alpha(v[0], v[1], v[2], a).to_rgb().alpha() == a, "alpha kept");
    nd::check(Hsv::new_with_alpha(v[0], v[1], v[2], a).to_rgb().alpha() == a, "alpha kept");
    nd::check(Yuv::new_with_alpha(v[0], v[1], v[2], a).to_rgb().alpha() == a, "alpha kept");
    nd::check(Xyz::new_with_alpha(v[0], v[1], v[2], a).to_rgb().alpha() == a, "alpha kept");
});
/// setters and maps over the colour channels
macro_rules! setters {
    ($n:ident, $t:ty) => {
        h!($n {
            let v = [nd::unit(), nd::unit(), nd::unit()];
            let (a, n) = (nd::unit(), nd::unit());
            let c = <$t>::new_with_alpha(v[0], v[1], v[2], a);
            let mut d = c;
            d.set_alpha(n);
            let e = c.with_alpha(n);
            nd::check((d.alpha() == n) & (e.alpha() == n), "alpha set");
            let m = c.map_color_channels(|x| 1.0 - x);
            nd::check(m.alpha() == a, "alpha kept by a map");
            for k in 0..3 {
                nd::check((d.data[k] == v[k]) & (e.data[k] == v[k]), "colour kept by setting alpha");
                nd::check(near(m.data[k], 1.0 - v[k]), "every colour channel mapped");
            }
            let t: Result<$t, u32> = c.try_map_color_channels(|_| Err(7));
            nd::check(t == Err(7), "the error is returned");
        });
    };
}
setters!(c13_set_rgb, Rgb);
setters!(c13_set_srgb, Srgb);
setters!(c13_set_hsl, Hsl);
setters!(c13_set_hsv, Hsv);
setters!(c13_set_yuv, Yuv);
setters!(c13_set_xyz, Xyz);
setters!(c13_set_lab, Lab<D65, O2>);
setters!(c13_set_lch, Lch<D65, O2>);

// ------------------------------------------------------------------ C31 what the adjustments mean
fn formula(which: u32) {
    let c = upx();
    let f = factor();
    let r = match which { 0 => c.with_brightness(f), 1 => c.with_contrast(f), 2 => c.with_brightness_contrast(0.25, f), _ => c.invert() };
    for k in 0..3 {
        let v = c.data[k];
        let e = match which { 0 => v + f, 1 => (v - 0.5) * f + 0.5, 2 => (v + 0.25 - 0.5) * f + 0.5, _ => 1.0 - v };
        nd::check(within(r.data[k], clamp01(e), 4.0 * EPS), "the adjusted channel");
    }
}
h!(c31_brightness { formula(0) });
h!(c31_contrast { formula(1) });
h!(c31_brightness_contrast { formula(2) });
h!(c31_invert { formula(3) });
h!(c31_invert_twice { let c = upx(); all_near(&c.invert().invert(), &c, EPS, "inverting twice changes nothing") });
h!(c31_neutral_linear {
    let c = upx();
    let r = match nd::pick(0, 4) {
        0 => c.with_brightness(0.0),
        1 => c.with_contrast(1.0),
        2 => c.with_brightness_contrast(0.0, 1.0),
        3 => c.with_gamma(1.0),
        _ => c.with_level(0.0, 1.0, 1.0),
    };
    all_near(&r, &c, EPS, "a neutral parameter changes nothing");
});
fn neutral(which: u32, c: Rgb) {
    let r = match which {
        0 => c.with_saturation(1.0),
        1 => c.stretch_saturation(1.0),
        2 => c.with_gamma_saturation(1.0),
        3 => c.with_lightness(1.0),
        4 => c.with_hue_rotate(0.0),
        5 => c.with_vibrance(0.0),
        6 => c.modulate(1.0, 1.0, 1.0),
        _ => c.with_hue_rotate([360.0, -360.0, 720.0, -1080.0][nd::pick(0, 3) as usize]),
    };
    all_near(&r, &c, 2.0 * EPS, "a neutral parameter changes nothing");
}
h!(c31_neutral_saturation { neutral(0, semi()) });
h!(c31_neutral_stretch { neutral(1, semi()) });
h!(c31_neutral_gamma_saturation { neutral(2, semi()) });
h!(c31_neutral_lightness { neutral(3, semi()) });
h!(c31_neutral_hue { neutral(4, semi()) });
h!(c31_neutral_vibrance { neutral(5, semi()) });
h!(c31_neutral_modulate { neutral(6, semi()) });
h!(c31_full_turn { neutral(7, semi()) });
/// gray colours have no hue or saturation to change
h!(c31_gray_fixed {
    let (v, a) = (nd::unit(), nd::unit());
    let c = Rgb { data: [v, v, v, a] };
    let r = match nd::pick(0, 2) {
        0 => c.with_saturation(factor()),
        1 => c.with_hue_rotate(nd::range_f32(-800.0, 800.0)),
        _ => c.with_sepia().to_gray_with_intensity(Intensity::Red).with_saturation(1.0).to_gray(),
    };
    nd::check(near(r.data[0], r.data[1]) & near(r.data[1], r.data[2]), "gray stays gray");
});
h!(c31_desaturate {
    let c = upx();
    let r = c.with_saturation(0.0);
    nd::check((r.data[0] == r.data[1]) & (r.data[1] == r.data[2]), "no saturation: gray");
    nd::check(near(r.data[0], (c.min() + c.max()) / 2.0), "of the same lightness");
});
h!(c31_to_gray {
    let c = upx();
    let i = [Intensity::Average, Intensity::Rec601Luma, Intensity::Rec709Luma, Intensity::Brightness, Intensity::Lightness,
        Intensity::Red, Intensity::Green, Intensity::Blue][nd::pick(0, 7) as usize];
    let r = c.to_gray_with_intensity(i);
    nd::check((r.data[0] == r.data[1]) & (r.data[1] == r.data[2]), "three equal channels");
    nd::check((r.data[0] >= c.min() - EPS) & (r.data[0] <= c.max() + EPS), "between the darkest and the brightest channel");
    let e = match i {
        Intensity::Average => (c.data[0] + c.data[1] + c.data[2]) / 3.0,
        Intensity::Brightness => c.max(),
        Intensity::Lightness => (c.min() + c.max()) / 2.0,
        Intensity::Red => c.data[0],
        Intensity::Green => c.data[1],
        Intensity::Blue => c.data[2],
        Intensity::Rec601Luma => c.data[0] * 0.299 + c.data[1] * 0.587 + c.data[2] * 0.114,
        _ => c.data[0] * 0.2126 + c.data[1] * 0.7152 + c.data[2] * 0.0722,
    };
    nd::check(within(r.data[0], e, 0.001), "the chosen intensity");
});
h!(c31_difference {
    let (a, b) = (upx(), upx());
    let (d, e) = (a.difference(&b), b.difference(&a));
    for k in 0..3 {
        nd::check(near(d.data[k], e.data[k]), "symmetric");
        nd::check(near(d.data[k], (a.data[k] - b.data[k]).abs()), "the distance of the channels");
    }
});
h!(c31_level {
    let c = upx();
    let (lo, hi) = ([0.0f32, 0.25, 0.5][nd::pick(0, 2) as usize], [0.75f32, 1.0][nd::pick(0, 1) as usize]);
    let r = c.with_level(lo, hi, 1.0);
    for k in 0..3 {
        nd::check(near(r.data[k], clamp01((c.data[k] - lo) / (hi - lo))), "black to 0, white to 1, linear between");
    }
});
h!(c31_gamma_mono {
    let (a, b) = (nd::unit(), nd::unit());
    nd::assume(a <= b);
    let c = Rgb { data: [a, b, 1.0, 1.0] };
    let r = match nd::pick(0, 1) { 0 => c.with_gamma(2.0), _ => c.with_gamma(0.5) };
    nd::check(r.data[0] <= r.data[1], "order kept");
    nd::check(r.data[2] == 1.0, "white stays white");
});
/// hue rotation by a third of a turn permutes the channels
h!(c31_third {
    let c = semi();
    let r = c.with_hue_rotate([120.0, 240.0][nd::pick(0, 1) as usize]);
    nd::check(within(r.min(), c.min(), 3.0 * EPS) & within(r.max(), c.max(), 3.0 * EPS), "extremes kept");
    let (mut s, mut t) = (0.0f32, 0.0f32);
    for k in 0..3 {
        s += r.data[k];
        t += c.data[k];
    }
    nd::check(within(s, t, 8.0 * EPS), "sum kept");
});
