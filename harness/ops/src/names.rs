//! C28 names of the options of operations
use d10_core::color::Intensity;
use d10_ops::*;
use std::str::FromStr;

/// every ASCII string of lo..hi characters: exactly the names of the table, each for its own value
fn names<T: FromStr>(lo: u32, hi: u32, table: &[(&str, u32)], id: fn(&T) -> u32) {
    let n = nd::pick(lo, hi) as usize;
    let mut v = Vec::with_capacity(24);
    for _ in 0..n {
        let c = nd::u8();
        nd::assume(c < 0x80);
        v.push(c);
    }
    let s = unsafe { String::from_utf8_unchecked(v) };
    let mut want = 99;
    for &(t, v) in table {
        if t.len() == n && t.as_bytes() == s.as_bytes() {
            want = v;
        }
    }
    match T::from_str(&s) {
        Ok(v) => nd::check(id(&v) == want, "the name's value"),
        Err(_) => nd::check(want == 99, "every name is accepted"),
    }
}
macro_rules! option { ($n:ident $t:ident $lo:expr, $hi:expr, $($s:expr => $v:ident),*) => {
    #[no_mangle]
    pub extern "C" fn $n() {
        // (aliases: the first name of a value gives its number)
        let mut l = vec![];
        let id = |v: &$t| -> u32 { let mut k = 0; $( k += 1; if matches!(v, $t::$v) { return k; } )* k + 1 };
        $( l.push(($s, id(&$t::$v))); )*
        names::<$t>($lo, $hi, &l, id)
    }
} }
option!(c28_filter FilterMode 0, 10, "nearest" => Nearest, "bilinear" => Bilinear, "bicubic" => Bicubic, "lanczos3" => Lanczos3, "Lanczos" => Lanczos3, "default" => Auto, "auto" => Auto);
option!(c28_edge EdgeDetection 0, 9, "sobel" => Sobel, "default" => Sobel, "laplace" => Laplace);
option!(c28_drawing DrawingMode 0, 15, "gray" => Gray, "colored" => Colored, "default" => Colored, "reduced_colors" => ReducedColors);
option!(c28_saturation SaturationMode 0, 9, "hsl" => Hsl, "default" => Hsl, "hsv" => Hsv, "lch" => Lch);
option!(c28_balance BalanceMode 0, 8, "rgb" => Rgb, "srgb" => Srgb, "hsv" => Hsv, "hsl" => Hsl, "lch" => Lch);
option!(c28_equalize EqualizeMode 0, 21, "rgb" => Rgb, "srgb" => Srgb, "saturation" => Saturation, "lightness" => Lightness, "saturation_lightness" => SaturationLightness);
option!(c28_blend BlendOp 0, 15, "normal" => Normal, "addition" => Addition, "subtract" => Subtract, "darken" => Darken, "lighten" => Lighten, "hsl_darken" => HslDarken,
    "hsl_lighten" => HslLighten, "lch_darken" => LchDarken, "lch_lighten" => LchLighten, "lch_hue" => LchHue, "lch_saturation" => LchSaturation, "lch_color" => LchColor);
option!(c28_intensity Intensity 0, 11, "average" => Average, "rec601luma" => Rec601Luma, "rec709luma" => Rec709Luma, "default" => Rec709Luma, "brightness" => Brightness,
    "lightness" => Lightness, "saturation" => Saturation, "red" => Red, "green" => Green, "blue" => Blue);
