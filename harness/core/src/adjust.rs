//! C31 the adjustments, recomputed from their definitions
use crate::util::*;
use d10_core::color::*;

const EPS: f32 = 0.0001;
const F: f32 = 1000.0;
fn factor() -> f32 { nd::range_f32(-F, F) }
fn gamma() -> f32 { nd::range_f32(0.05, 20.0) }
fn clamp01(v: f32) -> f32 { v.clamp(0.0, 1.0) }
fn within(a: f32, b: f32, e: f32) -> bool { let d = a - b; (d < e) & (d > -e) }
fn is(r: &Rgb, e: [f32; 3], a: f32) {
    for k in 0..3 {
        nd::check(within(r.data[k], e[k], EPS), "the adjusted channel");
    }
    nd::check(r.data[3] == a, "alpha");
}
fn each(c: &Rgb, r: Rgb, f: impl Fn(f32) -> f32) { is(&r, [f(c.data[0]), f(c.data[1]), f(c.data[2])], c.data[3]) }
macro_rules! h { ($($n:ident $b:block)*) => { $(#[no_mangle] pub extern "C" fn $n() $b)* } }
h! {
    c31_f_brightness_contrast { let (c, b, f) = (upx(), nd::range_f32(-4.0, 4.0), factor()); each(&c, c.with_brightness_contrast(b, f), |v| clamp01((v + b - 0.5) * f + 0.5)) }
    c31_f_gamma { let (c, g) = (upx(), gamma()); each(&c, c.with_gamma(g), |v| v.powf(1.0 / g)) }
    c31_f_gamma_opt { let (c, g) = (upx(), gamma()); each(&c, c.with_gamma_opt(g), |v| if v > 0.5 { clamp01((v - 0.5) * 2.0).powf(1.0 / g) / 2.0 + 0.5 } else { clamp01(v * 2.0).powf(g) / 2.0 }) }
    c31_f_level_gamma {
        let (c, g) = (upx(), gamma());
        let (lo, hi) = ([0.0f32, 0.2][nd::pick(0, 1) as usize], [0.6f32, 1.0][nd::pick(0, 1) as usize]);
        each(&c, c.with_level(lo, hi, g), |v| clamp01((v - lo) * (1.0 / (hi - lo))).powf(1.0 / g))
    }
    c31_f_level {
        let c = upx();
        let (lo, hi) = (nd::unit(), nd::unit());
        let d = hi - lo;
        nd::assume((d > 0.05) | (d < -0.05));
        each(&c, c.with_level(lo, hi, 1.0), |v| clamp01((v - lo) / d))
    }
    c31_f_sepia {
        let c = upx();
        let d = c.data;
        is(&c.with_sepia(), [clamp01(d[0] * 0.393 + d[1] * 0.769 + d[2] * 0.189), clamp01(d[0] * 0.349 + d[1] * 0.686 + d[2] * 0.168),
            clamp01(d[0] * 0.272 + d[1] * 0.534 + d[2] * 0.131)], d[3])
    }
    c31_f_alpha_blend {
        let (c, o) = (upx(), upx());
        let a = o.data[3];
        let r = c.alpha_blend(o);
        is(&r, [0, 1, 2].map(|k| o.data[k] * a + c.data[k] * (1.0 - a)), (a + c.data[3]).min(1.0))
    }
    c31_f_saturation { let (c, f) = (upx(), factor()); hsl(&c, c.with_saturation(f), |h, s, l| [h, clamp01(s * f), l]) }
    c31_f_stretch { let (c, f) = (upx(), factor()); hsl(&c, c.stretch_saturation(f), |h, s, l| [h, clamp01((s - 0.5) * f + 0.5), l]) }
    c31_f_gamma_saturation { let (c, g) = (upx(), gamma()); hsl(&c, c.with_gamma_saturation(g), |h, s, l| [h, clamp01(s).powf(1.0 / g), l]) }
    c31_f_lightness { let (c, f) = (upx(), factor()); hsl(&c, c.with_lightness(f), |h, s, l| [h, s, clamp01(l * f)]) }
    c31_f_hue { let (c, f) = (upx(), nd::range_f32(-800.0, 800.0)); hsl(&c, c.with_hue_rotate(f), |h, s, l| [(h + f / 360.0).rem_euclid(1.0), s, l]) }
    c31_f_modulate {
        let (c, a, b, d) = (upx(), factor(), factor(), factor());
        hsl(&c, c.modulate(a, b, d), |h, s, l| [clamp01(h * a), clamp01(s * b), clamp01(l * d)])
    }
    c31_f_vibrance {
        let (c, f) = (upx(), nd::range_f32(-1.0, 1.0));
        let pi = std::f32::consts::PI;
        hsl(&c, c.with_vibrance(f), |h, s, l| [h, clamp01(s + (s * pi).sin() * (f * ((h * pi).sin() * 1.5).min(1.0))), l])
    }
    c31_f_to_gray_saturation {
        let c = upx();
        let s = c.to_hsl().saturation();
        is(&c.to_gray_with_intensity(Intensity::Saturation), [s; 3], c.data[3])
    }
}
/// hue, saturation and lightness changed as stated, everything else kept
fn hsl(c: &Rgb, r: Rgb, f: impl Fn(f32, f32, f32) -> [f32; 3]) {
    let h = c.to_hsl();
    let [a, b, d] = f(h.hue(), h.saturation(), h.lightness());
    let e = Hsl { data: [a, b, d, c.data[3]] }.to_rgb();
    is(&r, [e.data[0], e.data[1], e.data[2]], c.data[3])
}
