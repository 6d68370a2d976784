USE = "use d10_core::color::*;\nuse d10_core::pixelbuffer::PixelBuffer;\nuse d10_ops::*;\n"
CUSE = "use d10_core::color::*;\nuse d10_core::pixelbuffer::PixelBuffer;\n"

seed("crop-width-wraps", "C06", [("d10-ops/src/crop.rs", "let width = width.min(buffer.width() - offset_x);",
     "let width = if offset_x.wrapping_add(width) > buffer.width() {\n            buffer.width() - offset_x\n        } else {\n            width\n        };")],
     "a positive offset and a width so large that their sum exceeds 2^32",
     "cropping with a huge width panics instead of returning the intersection", '''
    let b: PixelBuffer<Rgb> = PixelBuffer::new_from_func(3, 1, |x, _| Rgb::new(x as f32 / 4.0, 0.0, 0.0));
    let r = crop(&b, 1, 0, u32::MAX, 1);
    assert_eq!((r.width(), r.height()), (2, 1));
''', pre=USE)
seed("kernel-dyn-border", "C03", [("d10-core/src/pixelbuffer.rs", '''        let start_y = y - offset;

        if self.is_in_image(start_x, start_y) && self.is_in_image(x + offset, y + offset) {
            // Fast path that can be used if we know the kernel is always inside the image

            for (ty, row) in values.iter_mut().enumerate() {
                let start = self.width as usize * (ty + start_y as usize) + start_x as usize;
                let end = start + size;''', '''        let start_y = y - offset;
        // first column behind the window
        let end_x = start_x + size as i32;

        if self.is_in_image(start_x, start_y)
            && end_x - 1 <= self.width as i32
            && self.is_in_image(start_x, y + offset - (size as i32 + 1) % 2)
        {
            // Fast path that can be used if we know the kernel is always inside the image

            for (ty, row) in values.iter_mut().enumerate() {
                let start = self.width as usize * (ty + start_y as usize) + start_x as usize;
                let end = start + size;''')],
     "a dynamic window that reaches exactly one column past the right border while no row lies outside",
     "the last column of a dynamic window is read from the next row instead of the clamped border pixel", '''
    let b: PixelBuffer<Rgb> = PixelBuffer::new_from_func(3, 4, |x, y| Rgb::new(x as f32 / 4.0, y as f32 / 4.0, 0.0));
    let k = b.get_kernel_dyn(2, 1, 3);
    for (ty, row) in k.iter().enumerate() {
        for (tx, c) in row.iter().enumerate() {
            assert_eq!(c, b.get_pixel_clamped(tx as i32 + 1, ty as i32));
        }
    }
''', deps=("d10-core",), pre=CUSE)
seed("rgb-noise-alpha", "C19", [("d10-ops/src/rgb_noise.rs", "match rng.gen_range(0..3) {", "match rng.gen_range(0..4) {"),
     ("d10-ops/src/rgb_noise.rs", "_ => c.with_blue(1.0),", "2 => c.with_blue(1.0),\n            _ => Rgb::new(c.red(), c.green(), c.blue()),")],
     "a translucent pixel and a random draw that selects the fourth case",
     "RGB noise makes translucent pixels opaque", """
    let b: PixelBuffer<Rgb> = PixelBuffer::new_with_color(32, 32, Rgb::new_with_alpha(0.5, 0.5, 0.5, 0.25));
    let r = rgb_noise(&b, 2.0);
    assert!(r.data().iter().all(|c| c.alpha() == 0.25));
""", pre=USE)
seed("blend-over-nothing", "C07", [("d10-ops/src/blend.rs", "(None, Some(c2)) => *c2,", "(None, Some(c2)) => func(Rgb::NONE, *c2, intensity),")],
     "a second image larger than the first, with translucent pixels or a mode or intensity that changes colours",
     "pixels of the second image outside the first are blended with transparent black instead of copied", """
    let a: PixelBuffer<Rgb> = PixelBuffer::new_with_color(1, 1, Rgb::RED);
    let b: PixelBuffer<Rgb> = PixelBuffer::new_with_color(2, 1, Rgb::new_with_alpha(0.5, 0.25, 1.0, 0.5));
    let r = blend_image(&a, &b, BlendOp::Normal, 1.0);
    assert_eq!(r.get_pixel(1, 0), b.get_pixel(1, 0));
""", pre=USE)
seed("valid-size-wraps", "C02", [("d10-core/src/pixelbuffer.rs", "(width as u64) * (height as u64) <= MAX_BUFFER_SIZE", "width.wrapping_mul(height) as u64 <= MAX_BUFFER_SIZE")],
     "dimensions whose product exceeds 2^32 and wraps to a small number",
     "sizes such as 65536 x 65537 are taken for valid", """
    assert!(!is_valid_buffer_size(65536, 65537));
    assert!(is_valid_buffer_size(65536, 4));
""", deps=("d10-core",), pre="use d10_core::pixelbuffer::is_valid_buffer_size;\n")
seed("try-mod-swallows", "C04", [("d10-core/src/pixelbuffer.rs", """        for (x, y, pixel) in self.enumerate_mut() {
            let new_color = func(x, y, pixel)?;

            *pixel = new_color;
        }

        Ok(())""", """        let mut result = Ok(());

        for (x, y, pixel) in self.enumerate_mut() {
            result = func(x, y, pixel).map(|new_color| *pixel = new_color);
        }

        result""")],
     "a callback that fails for a pixel that is not the last one",
     "try_mod_colors_enumerated reports only the outcome of the last call", """
    let mut b: PixelBuffer<Rgb> = PixelBuffer::new_with_color(2, 2, Rgb::RED);
    let r = b.try_mod_colors_enumerated(|x, y, c| if x == 1 && y == 0 { Err(7) } else { Ok(*c) });
    assert_eq!(r, Err(7));
""", deps=("d10-core",), pre=CUSE)
seed("hsv-gray-opaque", "C13", [("d10-core/src/color/hsv.rs", """            return Rgb {
                data: [value, value, value, self.alpha()],
            };""", "            return Rgb::new(value, value, value);")],
     "a translucent gray colour converted from HSV", "gray HSV colours become opaque when converted to RGB", """
    assert_eq!(Hsv::new_with_alpha(0.0, 0.0, 0.5, 0.25).to_rgb().alpha(), 0.25);
    assert_eq!(Hsv::new_with_alpha(0.5, 0.5, 0.5, 0.25).to_rgb().alpha(), 0.25);
""", deps=("d10-core",), pre=CUSE)
seed("sepia-opaque", "C09", [("d10-core/src/color/rgb.rs", "Rgb::new_with_alpha(red, green, blue, self.alpha())\n    }\n\n    pub fn mod_color_channels", "Rgb::new(red, green, blue)\n    }\n\n    pub fn mod_color_channels")],
     "a translucent pixel", "sepia makes every pixel opaque", """
    assert_eq!(Rgb::new_with_alpha(0.5, 0.25, 1.0, 0.5).with_sepia().alpha(), 0.5);
""", deps=("d10-core",), pre=CUSE)
seed("blend-premultiplied", "C29", [("d10-ops/src/blend.rs", """    let intensity = intensity * c2.alpha();

    let blend_values = |v1: f32, v2: f32| -> f32 { apply_intensity(v1, func(v1, v2), intensity) };""",
     """    let alpha = c2.alpha();

    let blend_values =
        |v1: f32, v2: f32| -> f32 { apply_intensity(v1, func(v1, v2 * alpha), intensity) };""")],
     "a translucent upper colour and a mode that is not linear (darken, lighten)",
     "darken and lighten compare with the premultiplied upper channel instead of weighting by alpha", """
    let a: PixelBuffer<Rgb> = PixelBuffer::new_with_color(1, 1, Rgb::new(0.5, 0.5, 0.5));
    let b: PixelBuffer<Rgb> = PixelBuffer::new_with_color(1, 1, Rgb::new_with_alpha(1.0, 1.0, 1.0, 0.25));
    let r = blend_image(&a, &b, BlendOp::Lighten, 1.0);
    assert!((r.get_pixel(0, 0).red() - 0.625).abs() < 0.001);
""", pre=USE)
seed("interpolate-trunc", "C21", [("d10-ops/src/filters.rs", "let pos_b = pos.floor();", "let pos_b = pos.trunc();")],
     "enlarging, where the position of border pixels is negative",
     "bilinear and bicubic interpolation extrapolate at the left and upper border", """
    let b: PixelBuffer<Rgb> = PixelBuffer::new_from_func(2, 1, |x, _| Rgb::new(0.25 + 0.5 * x as f32, 0.0, 0.0));
    let r = resize(&b, 4, 1, FilterMode::Bilinear);
    assert!((r.get_pixel(0, 0).red() - 0.25).abs() < 0.001);
""", pre=USE)
seed("despeckle-mean", "C23", [("d10-ops/src/despeckle.rs", "let sum = (9 - count) as f32;", "let sum = (9 - amount.min(8)) as f32;")],
     "an amount larger than the number of dark pixels around", "the mean of the bright neighbours is divided by the wrong count", """
    let b: PixelBuffer<Rgb> = PixelBuffer::new_from_func(3, 3, |x, y| if x == 1 && y == 1 { Rgb::BLACK } else { Rgb::new(0.5, 0.5, 0.5) });
    let r = despeckle(&b, 0.25, 4);
    assert!((r.get_pixel(1, 1).red() - 0.5).abs() < 0.001);
""", pre=USE)

COD = "use d10_codecs::*;\nuse d10_core::color::*;\nuse d10_core::pixelbuffer::PixelBuffer;\n"
DC = ("d10-core", "d10-codecs")
seed("png-la16-alpha", "C14", [("d10-codecs/src/png.rs", """                        from_u16_be([chunks[0], chunks[1]]),
                        from_u16_be([chunks[2], chunks[3]]),
                    )
                    .to_rgb()
                })
                .collect()
        }
        _ =>""", """                        from_u16_be([chunks[0], chunks[1]]),
                        from_u8(chunks[2]),
                    )
                    .to_rgb()
                })
                .collect()
        }
        _ =>""")],
     "a 16 bit gray image with an alpha value that is no multiple of 257",
     "16 bit alpha of gray PNG images is cut to 8 bits", """
    let b = PixelBuffer::new_with_color(1, 1, Srgb::new_with_alpha(0.5, 0.5, 0.5, 1000.0 / 65535.0).to_rgb());
    let mut v = vec![];
    encode(&mut v, &b, EncodingFormat::Png { color_type: PngColorType::La16, compression: PngCompression::Fast, filter: PngFilterType::NoFilter }).unwrap();
    let d = decode_buffer(&v).unwrap().buffer;
    assert_eq!((d.get_pixel(0, 0).alpha() * 65535.0).round(), 1000.0);
""", deps=DC, pre=COD)
seed("jpeg-progressive-lost", "C15", [("d10-codecs/src/jpeg.rs", """    if let Some(sampling_factor) = sampling_factor {
        encoder.set_sampling_factor(sampling_factor.into());
    }

    if progressive {
        encoder.set_progressive(true);
    }
""", """    if let Some(sampling_factor) = sampling_factor {
        encoder.set_sampling_factor(sampling_factor.into());
    } else if progressive {
        encoder.set_progressive(true);
    }
""")],
     "progressive encoding together with an explicit sampling factor",
     "the progressive setting is ignored when a sampling factor is given", """
    let b: PixelBuffer<Rgb> = PixelBuffer::new_with_color(16, 16, Rgb::RED);
    let mut v = vec![];
    encode(&mut v, &b, EncodingFormat::Jpeg { quality: 80, progressive: true, sampling_factor: Some(JpegSamplingFactor::F_2_2), grayscale: false, optimize_huffman_tables: false }).unwrap();
    assert!(v.windows(2).any(|w| w == [0xff, 0xc2]));
""", deps=DC, pre=COD)
seed("gif-screen-size", "C16", [("d10-codecs/src/gif.rs", """    let mut decoder = decoder.read_info(reader).map_err(decode_error)?;
""", """    let mut decoder = decoder.read_info(reader).map_err(decode_error)?;

    let width = decoder.width() as u32;
    let height = decoder.height() as u32;
"""), ("d10-codecs/src/gif.rs", """        let width = frame.width as u32;
        let height = frame.height as u32;

        if""", "        if")],
     "a GIF whose first frame is smaller than the logical screen",
     "decoding takes the size of the screen for the number of pixels of the frame and panics", """
    let b: PixelBuffer<Rgb> = PixelBuffer::new_with_color(2, 2, Rgb::RED);
    let mut v = vec![];
    encode(&mut v, &b, EncodingFormat::Gif).unwrap();
    v[6] = 4;
    v[8] = 3;
    let d = decode_buffer(&v).unwrap().buffer;
    assert_eq!((d.width(), d.height()), (2, 2));
""", deps=DC, pre=COD)
seed("riff-is-webp", "C17", [("d10-codecs/src/lib.rs", "[b'R', b'I', b'F', b'F', _, _, _, _, b'W', b'E', b'B', b'P']", "[b'R', b'I', b'F', b'F', _, _, _, _, b'W', ..]")],
     "another kind of RIFF file whose name starts with W",
     "wave files are taken for WebP", """
    let r = Format::from_reader(&mut std::io::Cursor::new(b"RIFF\\x24\\0\\0\\0WAVEfmt "));
    assert!(matches!(r, Err(DecodingError::UnknownFormat)));
""", deps=DC, pre=COD)
seed("gif-limit", "C18", [("d10-codecs/src/gif.rs", "if width > u16::MAX as u32 || height > u16::MAX as u32 {", "if width as u64 * height as u64 > u16::MAX as u64 * u16::MAX as u64 {")],
     "an image with one side above 65535 and a short other side",
     "images that GIF cannot hold are truncated instead of rejected", """
    let b: PixelBuffer<Rgb> = PixelBuffer::new_with_color(65537, 1, Rgb::RED);
    let r = std::panic::catch_unwind(|| { let mut v = vec![]; encode(&mut v, &b, EncodingFormat::Gif).map(|_| v) });
    assert!(matches!(r, Ok(Err(EncodingError::BadDimensions { .. }))));
""", deps=DC, pre=COD)
seed("save-takes-image", "C25", [("d10-commands/src/commands.rs", "    ctx.image()?.save(path).map_err(|err| err.into())", "    let image = ctx.image.take().ok_or(CommandError::MissingImage)?;\n    image.save(path).map_err(|err| err.into())")],
     "a command after a save", "the image is gone once it was saved", """
    Image::new(2, 2).save("a.png").unwrap();
    Queue::new().silent().open("a.png").save("b.png").invert().save("c.png").run().unwrap();
    assert!(Image::open("c.png").is_ok());
""", deps=("d10", "d10-commands"), pre="use d10::Image;\nuse d10_commands::Queue;\n")
seed("number2-extra", "C26", [("d10-cli/src/main.rs", "                if v.len() != 2 {", "                if v.len() < 2 {")],
     "a parameter with more numbers than the command takes", "surplus numbers are ignored instead of reported", """
    Image::new(1, 1).save("a.png").unwrap();
    let exe = std::env::current_exe().unwrap().parent().unwrap().join("d10");
    let run = |p: &str| std::process::Command::new(&exe).args(["a.png", "-brightness-contrast", p, "b.png"]).output().unwrap().status.success();
    assert!(run("0.1,1.5"));
    assert!(!run("0.1,1.5,2"));
""", deps=("d10", "d10-commands", "d10-cli"), pre="use d10::Image;\n")
seed("sampling-441", "C28", [("d10-codecs/src/jpeg.rs", '"4:4:1" => Ok(R_4_4_1),', '"4:4:1" => Ok(R_4_2_1),')],
     "the option 4:4:1", "the name 4:4:1 selects 4:2:1", """
    assert_eq!("4:4:1".parse::<JpegSamplingFactor>().unwrap(), JpegSamplingFactor::R_4_4_1);
""", deps=DC, pre=COD)
seed("resize-pct-aspect", "C30", [("d10/src/image.rs", "        let height = ((self.height() as f32) * factor).round() as u32;", "        let height = width * self.height() / self.width().max(1);")],
     "a percentage for which the scaled height rounds up while that derived from the scaled width does not",
     "the height follows the rounded width instead of the percentage", """
    let i = Image::new(3, 2).resize_pct(130.0, FilterMode::Nearest);
    assert_eq!((i.width(), i.height()), (4, 3));
""", deps=("d10",), pre="use d10::*;\n")
seed("interlace-narrow", "C08", [("d10-ops/src/interlace.rs", "buffer.get_pixel_clamped(x as i32 - offset, y as i32)", "buffer.get_pixel_clamped((x as i16 as i32) - offset, y as i32)")],
     "an even row longer than 32767 pixels", "the rest of the row repeats the first pixel", """
    let b: PixelBuffer<Rgb> = PixelBuffer::new_from_func(40000, 1, |x, _| Rgb::new(x as f32 / 65536.0, 0.0, 0.0));
    assert_eq!(interlace(&b, 2).get_pixel(39000, 0), b.get_pixel(38998, 0));
""", pre=USE)
seed("contrast-negative", "C10", [("d10-core/src/color/rgb.rs", "        self.map_channels(|v| (v - 0.5) * factor + 0.5)", "        if factor.le(&1.0) {\n            // The range shrinks, no need to clamp\n            return self.map_channels_unclamped(|v| (v - 0.5) * factor + 0.5);\n        }\n        self.map_channels(|v| (v - 0.5) * factor + 0.5)")],
     "a contrast factor below -1", "channels leave the range 0..1", """
    let c = Rgb::new(0.0, 1.0, 0.5).with_contrast(-3.0);
    assert!(c.data.iter().all(|v| *v >= 0.0 && *v <= 1.0));
""", deps=("d10-core",), pre=CUSE)
seed("gray-no-abs", "C11", [("d10-core/src/color/rgb.rs", "(self.green() - self.blue()).abs() < EPSILON", "self.green() - self.blue() < EPSILON")],
     "a colour with equal red and green and a larger blue", "bluish colours count as gray", """
    assert!(!Rgb::new(0.5, 0.5, 0.75).is_grayscale());
    assert!(Rgb::new(0.5, 0.5, 0.5).is_grayscale());
""", deps=("d10-core",), pre=CUSE)
seed("hsv-dark", "C12", [("d10-core/src/color/mod.rs", "if delta >= EPSILON && max >= EPSILON {", "if delta >= EPSILON && max >= 1.0 / 255.0 {")],
     "a colour whose brightest channel is below 1/255 (linear light)", "dark colours become gray", """
    let c = Rgb::new(0.0035, 0.0, 0.0);
    let d = c.to_hsv().to_rgb();
    assert!((0..3).all(|i| (c.data[i] - d.data[i]).abs() < 0.001), "{} {}", c, d);
""", deps=("d10-core",), pre=CUSE)
seed("equalize-floor", "C20", [("d10-ops/src/equalize.rs", "let r = (value * 255.0).round() as u8;", "let r = (value * 255.0) as u8;")],
     "a channel value that is rounded up to its level", "pixels are looked up at a lower level than they were counted at", """
    let v = 100.6 / 255.0;
    let b: PixelBuffer<Rgb> = PixelBuffer::new_from_func(2, 1, |x, _| { let c = if x == 0 { 0.0 } else { v }; Rgb::new(c, c, c) });
    assert!(equalize(&b, EqualizeMode::Rgb).get_pixel(1, 0).red() > 0.9);
""", pre=USE)
seed("gaussian-dyn-square", "C22", [("d10-core/src/kernel_dyn.rs", "            for v in &mut data {\n                *v /= sum;\n            }", "            if sum > 1.0 {\n                for v in &mut data {\n                    *v /= sum;\n                }\n            }")],
     "a radius above 3 or unsharp masking with a sigma for which the raw weights add up to less than one", "the weights do not add up to one, so blurring darkens", """
    let b: PixelBuffer<Rgb> = PixelBuffer::new_with_color(3, 3, Rgb::WHITE);
    assert!(gaussian_blur(&b, 4, Some(6.0)).get_pixel(1, 1).red() > 0.99);
""", pre=USE)
seed("brightness-after", "C31", [("d10-core/src/color/rgb.rs", "self.map_channels(|v| (v + brightness - 0.5) * contrast + 0.5)", "self.map_channels(|v| (v.max(-brightness) + brightness - 0.5) * contrast + 0.5)")],
     "a negative brightness that takes a channel below zero and a contrast between 0 and 1", "the value is cut off at zero before the contrast is applied", """
    let c = Rgb::new(0.1, 0.5, 0.9).with_brightness_contrast(-0.3, 0.5);
    assert!((c.red() - ((0.1 - 0.3 - 0.5) * 0.5 + 0.5)).abs() < 0.001);
""", deps=("d10-core",), pre=CUSE)
seed("flip-rows", "C05", [("d10-ops/src/flip.rs", """    for x in 0..buffer.width() {
        for y in 0..buffer.height() {
            result[((buffer.width() - x - 1) + y * buffer.width()) as usize] =
                buffer.data()[(x + y * buffer.width()) as usize];
        }
    }
""", """    let width = buffer.width() as usize;

    for (out, row) in result.chunks_exact_mut(width).zip(buffer.data().chunks_exact(width)) {
        for (out, color) in out.iter_mut().zip(row.iter().rev()) {
            *out = *color;
        }
    }
""")],
     "flipping the empty image", "panic instead of an empty image", """
    let b: PixelBuffer<Rgb> = PixelBuffer::new(0, 0);
    assert!(flip_horizontal(&b).is_empty());
""", pre=USE)
seed("put-pixel-next-row", "C01", [("d10-core/src/pixelbuffer.rs", """    pub fn put_pixel(&mut self, x: u32, y: u32, color: T) {
        assert!(x < self.width);
        assert!(y < self.height);
        self.data[(x + y * self.width) as usize] = color;
""", """    pub fn put_pixel(&mut self, x: u32, y: u32, color: T) {
        // The bounds check of the index is sufficient
        self.data[(x + y * self.width) as usize] = color;
""")],
     "a write right of the image in any row but the last", "a pixel of the next row is overwritten instead of a panic", """
    let mut b: PixelBuffer<Rgb> = PixelBuffer::new(3, 2);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.put_pixel(3, 0, Rgb::WHITE)));
    assert!(r.is_err());
""", pre=USE)
seed("py-callback-keeps", "C27", [("d10-python/src/image.rs", """            let r = func.call1((arg1, arg2, arg3))?;
            Ok(r.extract::<Rgb>()?.inner)
        };

        self.inner.try_mod_colors_enumerated(map)""", """            let r = func.call1((arg1, arg2, arg3))?;
            Ok(r.extract::<Rgb>().map_or(*c, |c| c.inner))
        };

        self.inner.try_mod_colors_enumerated(map)""")],
     "a callback of mod_colors_enumerated that returns something other than a color", "the exception is swallowed and the pixel kept", """
from d10 import Image, Rgb
i = Image(2, 1)
try:
    i.mod_colors_enumerated(lambda x, y, c: Rgb(1.0, 0.0, 0.0) if x == 0 else "red")
except TypeError:
    pass
else:
    raise SystemExit(1)
""", python=True)
seed("np-xyza-opaque", "C27", [("d10-python/src/image.rs", "D10Xyz::new_with_alpha(chunk[0], chunk[1], chunk[2], chunk[3]).to_rgb()", "D10Xyz::new(chunk[0], chunk[1], chunk[2]).to_rgb()")],
     "an array of translucent XYZ colors", "arrays of XYZ colors lose their alpha", """
import numpy as np
from d10 import Image
a = np.array([[[0.3, 0.4, 0.2, 0.5]]], dtype=np.float32)
i = Image.from_np_array(a, "xyza")
assert abs(i.get_pixel(0, 0).alpha - 0.5) < 0.001, i.to_list()
""", python=True)
