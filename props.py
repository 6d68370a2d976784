#!/usr/bin/env python3-vt
"""The properties (source of properties.jsonl and MANIFEST.json).   props.py: regenerate both."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)

P = []


def p(id, title, statement, over, text, why, files, mech, note="", na=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, na=na, observe=list(observe)))


p("C01", "Pixel addressing is exact for every image size",
  "For an image of any valid size, the pixel written at (x, y) is the one read back at (x, y) and no other pixel "
  "changes; raw data and enumeration are row-major. Checked access outside the image panics, optional access returns "
  "nothing, clamped access returns the pixel at the coordinates clamped to the border.",
  ["inputs"], "all widths, heights (w*h < 2^30), coordinates and pixel values",
  "the tests read a handful of pixels of a few fixed small images; index arithmetic can go wrong only at particular sizes and coordinates",
  ["d10-core/src/pixelbuffer.rs"], ["get_pixel", "put_pixel", "get_pixel_optional", "get_pixel_clamped", "is_in_image", "enumerate", "enumerate_mut", "new_from_raw"])
p("C02", "Only images whose pixel count fits are ever constructed",
  "An image can be constructed exactly when both dimensions are positive and their product is at most (2^31-1)/2, or "
  "both are zero; every constructor rejects all other sizes, and raw data is accepted only when its length is width*height.",
  ["inputs"], "all 2^64 pairs of dimensions and all data lengths",
  "tests sample a few sizes; overflow of width*height shows only at extreme values",
  ["d10-core/src/pixelbuffer.rs"], ["is_valid_buffer_size", "new_from_raw", "new_with_color", "new_from_func", "try_new_from_func"])
p("C03", "Neighbourhood windows and convolution pick the right neighbours",
  "The N x N window around a position contains, at row i and column j, the pixel at (x+j-N/2, y+i-N/2) with coordinates "
  "clamped to the image, both for fixed-size and dynamic windows and for positions at or beyond the border. "
  "A convolution kernel weights exactly those neighbours.",
  ["inputs"], "window sizes 1-5 (7 thorough), image sizes up to 8x8, all centres, all pixel values; 3x3 windows for any size (thorough)",
  "the window code has a fast path for interior positions and a slow path for borders; the tests use few positions and only odd kernels",
  ["d10-core/src/pixelbuffer.rs", "d10-core/src/kernel.rs", "d10-core/src/kernel_dyn.rs"], ["get_kernel", "get_kernel_dyn", "get_kernel_value", "apply_kernel", "apply_kernel_dyn"])
p("C04", "Mapping an image is pixel by pixel, and errors are returned",
  "Building or mapping an image through a callback calls it exactly once per pixel with that pixel and its coordinates, "
  "keeps the size, leaves the source unchanged, and puts each result at its own position. When the callback fails, that "
  "error is returned and is never swallowed.",
  ["inputs"], "all image sizes 1..3 x 1..3, arbitrary pixel bits, arbitrary callback results, every failing call",
  "the tests use a few constant-colour images and do not exercise the error paths",
  ["d10-core/src/pixelbuffer.rs"], ["new_from_func", "try_new_from_func", "map_colors", "mod_colors", "map_colors_enumerated", "mod_colors_enumerated", "try_*"])

p("C05", "Flips and right-angle rotations are exact permutations",
  "Flipping and rotating by 90, 180 or 270 degrees moves every pixel, bit for bit, to its mirrored or rotated position; "
  "width and height are swapped for 90 and 270 degrees and kept otherwise; each operation is undone by its inverse; the "
  "empty image stays empty.",
  ["inputs"], "all sizes 1..4 x 1..4 (1..7 thorough), arbitrary pixel bits",
  "the tests compare a few fixed images; off-by-one errors show only for particular (odd, even, one-row) sizes",
  ["d10-ops/src/flip.rs", "d10-ops/src/rotate_90.rs"],
  ["flip_horizontal", "flip_vertical", "rotate90", "rotate180", "rotate270"])
p("C06", "Cropping returns the intersection of the rectangle and the image",
  "For every offset and size, cropping returns exactly the pixels of the rectangle that lie inside the image, in place and "
  "unchanged; a rectangle without a common pixel gives an empty image; it never panics.",
  ["inputs"], "all 2^128 rectangles over all image sizes 1..3 x 1..3 and up to 5x2 (5x5 thorough)",
  "overflow of offset plus size and rectangles partly outside occur only at inputs the tests do not sample",
  ["d10-ops/src/crop.rs"], ["crop"])
p("C07", "Composing images visits every position with the right pixels",
  "Composing images yields the maximum of their widths and heights and calls the callback once per position, row by row, "
  "with each image's pixel at that position or the default colour where the image does not reach; the result is what the "
  "callback returns, and its first error stops the composition and is returned. Blending copies the only image's pixel "
  "outside the overlap and leaves positions of neither image transparent.",
  ["inputs"], "all sizes 0..3 of two or three images, arbitrary pixels and callback results, every failing call, all 12 blend modes",
  "the tests use images of equal size or one smaller second image",
  ["d10-ops/src/compose.rs", "d10-ops/src/blend.rs"], ["compose", "compose_slice", "try_compose", "try_compose_slice", "blend_image"])
p("C08", "Interlacing shifts rows by the offset and repeats the border",
  "Interlacing keeps the size; even rows are shifted right and odd rows left by the offset, the border pixel being "
  "repeated, for every offset; offset 0 changes nothing.",
  ["inputs"], "all 2^32 offsets over sizes 1..3 x 1..3; offsets 0..6 over sizes up to 5x3; arbitrary pixel bits",
  "large offsets (beyond the width or 2^31) are not sampled by the tests",
  ["d10-ops/src/interlace.rs"], ["interlace"])
p("C09", "Colour adjustments keep the alpha value",
  "Every adjustment of a pixel's colour (gray, invert, brightness, contrast, gamma, level, saturation, lightness, hue, "
  "vibrance, sepia, modulate, colour temperature, lightness optimisation) keeps its alpha value.",
  ["inputs"], "all colours and alpha in [0,1], parameters within wide ranges",
  "the tests adjust mostly opaque colours, so that dropping alpha stays unseen",
  ["d10-core/src/color/mod.rs", "d10-core/src/color/rgb.rs", "d10-ops/src/temperature.rs", "d10-ops/src/lightness.rs"],
  ["with_brightness", "with_contrast", "with_gamma", "with_level", "with_saturation", "with_hue_rotate", "with_vibrance", "to_gray_with_intensity", "modulate", "change_color_temperature"])
p("C10", "Channels stay within 0 and 1 and are never NaN",
  "Constructors, conversions to RGB, sRGB, HSL and HSV and every colour adjustment return channels between 0 and 1 and "
  "never NaN, for every colour in range and every parameter.",
  ["inputs"], "all colours in [0,1], parameters within wide ranges; constructors for every non-NaN value",
  "divisions by zero and values past the range occur only for particular colours (gray, black, white) and parameters",
  ["d10-core/src/color/rgb.rs", "d10-core/src/color/mod.rs", "d10-core/src/color/hsl.rs", "d10-core/src/color/hsv.rs", "d10-core/src/color/srgb.rs"],
  ["new_with_alpha", "clamp", "to_hsl", "to_hsv", "to_rgb", "with_saturation", "with_gamma", "with_level", "modulate"])
p("C11", "Gray, transparency and equality predicates agree with the channels",
  "A colour is gray exactly when its channels are equal up to the library's tolerance and transparent exactly when its alpha is below 1 "
  "up to that tolerance, whatever the other channels; an image is gray if all and transparent if any of its pixels is; colour equality is "
  "reflexive, symmetric and depends on all four channels; min and max are the extreme channels.",
  ["inputs"], "all colours in [0,1], images of 1..4 pixels",
  "a predicate that ignores one channel or one position survives tests that vary another",
  ["d10-core/src/color/rgb.rs", "d10-core/src/pixelbuffer.rs"], ["is_grayscale", "has_transparency", "eq", "min", "max"])
p("C12", "Colour-space conversions are inverse to each other",
  "Converting a colour to sRGB, HSL, HSV or XYZ and back gives the same colour, alpha included, up to a small tolerance.",
  ["inputs"], "all colours in [0,1] (HSL: two channels symbolic, one of three values for the third)",
  "the conversions are piecewise; a wrong branch affects only a wedge of the colour cube that sampled colours miss",
  ["d10-core/src/color/srgb.rs", "d10-core/src/color/hsl.rs", "d10-core/src/color/hsv.rs", "d10-core/src/color/xyz.rs", "d10-core/src/color/rgb.rs"],
  ["to_srgb", "to_hsl", "to_hsv", "to_xyz", "to_rgb"],
  note="Lab, LCH and YUV round trips are outside: their compositions of powers and angles exceed the solvers.")
p("C13", "Conversions keep alpha; setters and maps touch what they name",
  "Conversion between any two of the eight colour spaces keeps alpha. Setting alpha changes nothing else; mapping the "
  "colour channels applies the function to the three of them and keeps alpha; an error of the function is returned.",
  ["inputs"], "every alpha value, all eight colour types to all eight",
  "the tests convert opaque colours, so that a conversion that drops alpha stays unseen",
  ["d10-core/src/color/mod.rs", "d10-core/src/color/rgb.rs", "d10-core/src/color/lab.rs", "d10-core/src/color/hsv.rs", "d10-core/src/color/yuv.rs", "d10-core/src/color/xyz.rs"],
  ["alpha", "set_alpha", "with_alpha", "map_color_channels", "try_map_color_channels", "to_lab", "to_lch"])
p("C14", "Lossless formats keep every colour level",
  "Decoding an image and encoding it again in the same sample layout writes the samples that were read: every level of 8 and 16 bit gray, "
  "gray with alpha, RGB and RGBA survives, for PNG, BMP, ICO, GIF (before its palette) and lossless WebP.",
  ["inputs"], "every value of every sample of a pixel",
  "a level is lost to a rounding error only for particular values; the tests compare a few images within a tolerance",
  ["d10-codecs/src/utils.rs", "d10-codecs/src/png.rs", "d10-core/src/color/srgb.rs"],
  ["as_u8", "as_u16", "from_u8", "from_u16_be", "gamma_to_linear", "linear_to_gamma", "to_argb8_vec32"],
  note="The third-party codecs themselves are replaced by stand-ins.", observe=["the samples handed to the codec library"])
p("C15", "Encoders write the image they are given",
  "Every encoder hands its codec library one image of the right size in the sample layout that was asked for, each sample being "
  "the sRGB level nearest to the pixel's channel (gray layouts: of its luma), in row-major order; quality, compression, filter, "
  "subsampling, progressive and preset settings and the defaults of every format reach the library.",
  ["inputs"], "all colours in [0,1], sizes 1..2 x 1..2, every layout and setting, every quality 0..255",
  "wrong channel order, byte order or a lost setting still yields a valid file",
  ["d10-codecs/src/png.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/utils.rs"],
  ["encode", "encode_png", "encode_gif", "encode_jpeg", "encode_bmp", "encode_ico", "encode_webp", "to_l8_vec", "to_rgb16_be_vec"],
  note="The third-party codecs themselves are replaced by stand-ins; lossy WebP may round down.", observe=["the calls made to the codec library"])
p("C16", "Decoders deliver the stored pixels or an error, never a panic",
  "Every decoder turns every sample layout of its format into the pixels it denotes (gray replicated, missing alpha opaque, 16 bit and float "
  "samples scaled, CMYK converted, packed or keyed PNGs expanded first); sizes that no image can have and every failure of the library become an error of the right kind.",
  ["inputs", "faults"], "every sample value, sizes 1..2 x 1..2, every layout; every impossible width and height; every failure of the decoding library",
  "the test images have a few layouts and sizes; truncated or huge files are not among them",
  ["d10-codecs/src/png.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/utils.rs"],
  ["decode", "decode_png", "decode_gif", "decode_jpeg", "decode_bmp", "decode_ico", "decode_webp", "read_into_buffer", "from_u8"],
  note="The third-party codecs themselves are replaced by stand-ins that deliver arbitrary samples, sizes and errors.")
p("C17", "The format is detected from content and path",
  "A format is recognised exactly from its signature at the start of the input, however the reader splits its reads or is interrupted, and "
  "reading starts again at the beginning; a read error is reported. For paths, exactly the known extensions, in any letter case, select their format.",
  ["inputs", "schedules", "faults"], "every input of up to 14 bytes, every split of the reads, every extension of three or four letters and other lengths up to 5",
  "tests read whole files through readers that never split a read; near-miss signatures and extensions are not sampled",
  ["d10-codecs/src/lib.rs"], ["from_reader", "Format::from_path", "decode_buffer", "EncodingFormat::from_path"])
p("C18", "I/O errors and limits of formats are reported",
  "When the writer fails at any point while an image is encoded, encoding fails with the writer's error; success means that "
  "everything was written. Saving to a file leaves exactly the encoded bytes in it or reports the error of the file operation that failed; "
  "loading a file reports a missing file and read errors, and goes by the content whatever the name says. "
  "Images larger than a format can store are rejected before anything is written.",
  ["faults", "inputs", "schedules"], "every format, failure at every write, read, open or seek, every split and interruption of them; every image size above the limits of GIF and JPEG",
  "tests write to memory and to disks where nothing fails",
  ["d10-codecs/src/lib.rs", "d10-codecs/src/png.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs"],
  ["encode", "encode_to_file", "decode_file", "encode_png", "encode_gif", "encode_jpeg", "encode_webp"],
  note="The third-party codecs are replaced by stand-ins that write their bytes in several pieces.")
p("C28", "Names of options parse to the option they name",
  "The textual names of codec options (PNG colour types, filters and compression, BMP and ICO colour types, WebP presets, JPEG sampling) and of the options "
  "of operations (interpolation, edge detection, drawing, saturation, balance, equalization, blending, intensity) parse "
  "exactly to the option of that name and every other string is an error.",
  ["inputs"], "every ASCII string up to the length of the longest name",
  "tests try one or two names; swapped or overlapping names stay unseen",
  ["d10-codecs/src/png.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/jpeg.rs", "d10-core/src/errors.rs", "d10-core/src/color/rgb.rs", "d10-ops/src/filters.rs",
   "d10-ops/src/edge_detection.rs", "d10-ops/src/drawing.rs", "d10-ops/src/saturation.rs", "d10-ops/src/balance_channels.rs", "d10-ops/src/equalize.rs", "d10-ops/src/blend.rs"],
  ["from_str", "ParseEnumError"])
p("C19", "Noise changes only what it may",
  "Whatever the random numbers: salt-and-pepper noise leaves a pixel alone or makes it black or white, RGB noise sets at most one "
  "channel of a pixel to full, random and gaussian noise keep channels in range and none touches alpha (but salt-and-pepper); "
  "threshold or strength 0 changes nothing; sizes are kept; the in-place variants do the same.",
  ["inputs", "schedules"], "all streams of random numbers, all sizes 1..2 x 1..2, all thresholds and strengths",
  "tests of random operations can check only the size or one seed",
  ["d10-ops/src/salt_n_pepper_noise.rs", "d10-ops/src/rgb_noise.rs", "d10-ops/src/random_noise.rs", "d10-ops/src/gaussian_noise.rs"], ["salt_n_pepper_noise", "rgb_noise", "random_noise", "gaussian_noise", "add_*"])
p("C20", "Histogram operations map levels consistently",
  "Equalising maps each level to the share of pixels at or below it, black staying black; stretching the contrast maps the "
  "darkest level to black and the brightest to white linearly and leaves an image of full range alone; balancing keeps the order of "
  "levels; all keep size, alpha and the range of channels.",
  ["inputs"], "images of 2-3 pixels with any values out of 4-7 histogram buckets including both ends; any alpha",
  "bucket arithmetic goes wrong at the ends of the histogram or when one bucket is empty",
  ["d10-ops/src/equalize.rs", "d10-ops/src/stretch_contrast.rs", "d10-ops/src/balance_channels.rs"], ["equalize", "stretch_contrast", "balance"])
p("C21", "Resizing and rotating interpolate at the right place",
  "Resizing returns the requested size, the same image for the same size, the corresponding input pixel for the nearest "
  "filter, the bilinear interpolation at the pixel centre for the bilinear filter, and one colour for an image of one colour (nearest, bilinear, bicubic); "
  "bilinear, bicubic and lanczos treat left and right, up and down, rows and columns alike. Rotating keeps the size and gives, for the nearest filter, "
  "input pixels or the background for every angle and the exact permutation for multiples of 90 degrees.",
  ["inputs"], "sizes 1..3 to 1..5, all colours in [0,1], all angles in [-720,720] degrees",
  "border handling and off-by-half errors show only for particular pairs of sizes",
  ["d10-ops/src/resize.rs", "d10-ops/src/rotate.rs"], ["resize", "rotate"])
p("C22", "Convolution is the weighted sum; smoothing stays between the extremes",
  "Applying a kernel gives the weighted sum of the clamped window, the same for fixed-size and dynamic kernels; gaussian kernels are "
  "normalised, non-negative and symmetric; a gaussian blur of any radius stays between the darkest and brightest pixel and treats all directions alike; "
  "unsharp masking leaves an image of one colour alone and edge detection finds no edge in it.",
  ["inputs"], "sizes up to 3 x 2, radius 0..4, every sigma in [0.2,16], all pixels in [0,1], arbitrary 3x3 kernels",
  "radius 0, narrow images and large kernels take paths the tests do not",
  ["d10-core/src/kernel.rs", "d10-core/src/kernel_dyn.rs", "d10-ops/src/gaussian_blur.rs", "d10-ops/src/unsharp.rs", "d10-ops/src/edge_detection.rs"],
  ["apply_kernel", "apply_kernel_dyn", "new_gaussian", "gaussian_blur", "unsharp", "edge_detection"])
p("C23", "Despeckling and edge-keeping smoothing change only noise",
  "Despeckling leaves pixels above the threshold and alpha alone, replaces a lone dark pixel by the mean of its bright "
  "neighbours, does nothing with amount 0 and never yields a value out of range; symmetric-nearest-neighbour smoothing stays between the "
  "extremes of the image for every radius and keeps an edge between two flat areas.",
  ["inputs"], "images up to 3x3, all gray levels, thresholds and amounts, radius 0..2",
  "counts of zero or of the whole neighbourhood occur only in images the tests do not contain",
  ["d10-ops/src/despeckle.rs", "d10-ops/src/symmetric_nearest_neighbor.rs"], ["despeckle", "symmetric_nearest_neighbor"])
p("C29", "Blend modes compute their formula",
  "Normal blending puts the upper colour over the lower one weighted by its alpha and the intensity; addition, subtraction, "
  "darken and lighten give the clamped mix of the lower channel and the sum, difference, minimum or maximum; intensity 0 gives the lower "
  "colour; alpha blending never reduces alpha; the HSL modes pick the darker or lighter lightness.",
  ["inputs"], "all pairs of colours and intensities in [0,1]; the HSL modes on gray colours",
  "the tests blend a few colours at full intensity; the weights matter only for partial alpha and intensity",
  ["d10-ops/src/blend.rs", "d10-core/src/color/rgb.rs"], ["blend_image", "alpha_blend"])
p("C31", "Adjustments compute what they say",
  "Brightness, contrast, level, gamma, sepia, invert, alpha blending and the HSL adjustments (saturation, lightness, hue rotation, vibrance, "
  "modulate) follow their formulas with clamping and keep alpha; neutral parameters change nothing; inverting "
  "twice restores; gray conversions give the chosen intensity between the darkest and brightest channel; gray colours stay gray under "
  "saturation and hue changes; no saturation gives gray of the same lightness; full hue turns change nothing; difference is symmetric.",
  ["inputs"], "all colours in [0,1], parameters within wide ranges",
  "tests compare single colours; a changed coefficient or branch affects others",
  ["d10-core/src/color/rgb.rs", "d10-core/src/color/mod.rs"],
  ["with_brightness", "with_contrast", "with_level", "invert", "with_saturation", "with_hue_rotate", "modulate", "to_gray_with_intensity", "difference"])

p("C25", "The command queue does what its commands say",
  "Running a queue applies the commands to the image in the order given, each with the effect of the corresponding color or image operation and its "
  "own parameters; open replaces the image, save stores it as it is at that point. A command without an image is an error; the first error "
  "ends the run, is returned, and nothing after it happens. One line is printed per command until silent.",
  ["inputs", "history", "faults"], "every command with every parameter in [-4,4] on every 8 bit colour, every pair of six commands, every failing file operation",
  "the crate's tests check only the length of the queue; nothing is ever run",
  ["d10-commands/src/commands.rs", "d10-commands/src/queue.rs", "d10-commands/src/log.rs", "d10-commands/src/errors.rs"],
  ["execute", "Queue::run", "Queue::with", "log_command_step"], observe=["bytes handed to the encoder, file operations, printed lines, result of run"])
p("C26", "The command line is understood exactly",
  "An argument that starts with a dash is accepted exactly if it is the name of a command, takes that command's parameters from the next "
  "argument, and runs that command; anything else, a missing parameter, a parameter that is no number or has the wrong number of parts, is an error: "
  "exit code 1, with nothing executed. The first plain argument is opened unless something was opened before, later ones are saved to. The program's effect "
  "is that of the commands in the order given, and an error of a command gives exit code 1.",
  ["inputs", "history", "faults"], "every byte string of up to 3 and every ASCII string of up to 21 characters after the dash, every command with every parameter of a list, every sequence of up to four arguments out of five",
  "the program has no tests",
  ["d10-cli/src/main.rs"], ["main", "create_args", "Args::parse", "Args::parse_arg"], observe=["exit code, file operations, bytes handed to the encoder"])
p("C27", "The python module is the library",
  "Every method of the python classes has the effect of the library's function of the same name with the arguments given and the documented "
  "defaults for those omitted (bilinear interpolation, Sobel edges, blend mode normal with intensity 1, light D65 and observer 2, alpha 1, jpeg quality 85 and so on), "
  "and a name that means nothing is an exception. Exceptions of callbacks are passed on. Images become arrays of height x width x depth, row by row, "
  "in the color space asked for and back; integer elements are the nearest level, so that arrays of uint8, uint16, bool and float32 survive the "
  "way to an image and back; arrays of an unsupported type, shape or space are exceptions, not panics.",
  ["inputs", "histories"], "all pixels and parameters at sizes up to 3 x 2 (fixed images for histograms and palettes), all 18 color classes, all color spaces and element types of arrays",
  "the module has no tests; each of its hundreds of one-line methods can pass a wrong argument",
  ["d10-python/src/image.rs", "d10-python/src/color.rs", "d10-python/src/lib.rs"], ["Image", "EncodingFormat", "color_type", "from_np_array_iter", "to_np_array"],
  note="pyo3 and numpy are replaced by stand-ins; parsing of arguments by pyo3 and memory layouts of numpy are outside.")
p("C30", "Image methods are the operations",
  "Every method of Image has the effect of the operation of the same name on its pixel buffer, with its parameters in their places: "
  "transformations, noise, filters, tone and color corrections, composition, palettes, pixel access and callbacks, opening and saving; "
  "resize by percent gives the rounded size, at least one pixel.",
  ["inputs"], "all pixels and parameters at sizes up to 3 x 3; for filters, histograms and palettes fixed images with every parameter",
  "tests of Image look at sizes, not at pixels, for most operations",
  ["d10/src/image.rs"], ["Image"])


def main():
    import registry
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps(dict(
                id=q["id"], title=q["title"], statement=q["statement"],
                quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
                anchors=dict(files=q["files"], mechanism=[dict(name=m, where=q["files"][0]) for m in q["mech"]],
                             observe_at=q["observe"] or ["return values and output pixels"]))) + "\n")
    checks, na = [], []
    for q in P:
        if q["na"] or q["id"] not in registry.PROPS:
            na.append(dict(property=q["id"], reason=q["na"] or "check not built yet"))
            continue
        checks.append(dict(
            property=q["id"], quick_cmd="python3-vt check.py " + q["id"],
            thorough_cmd="python3-vt check.py %s --thorough" % q["id"],
            technique="symbolic execution of the compiled LLVM IR + SMT (z3, cvc5), counterexamples replayed natively",
            level="model_checking",
            level_note=("Exhaustive within the stated bounds: the solver decides every path of the real code's LLVM IR. " +
                        (q["note"] or "") + " Trusts the executor (cross-checked by native replay of path witnesses), "
                        "the solvers, and rustc's optimised IR.").replace("  ", " ")))
    m = dict(version=1, setup_cmd="python3-vt setup.py", checks=checks, not_applicable=na,
             hooks=registry.HOOKS if hasattr(registry, "HOOKS") else dict(guard="none", enable="no hooks are needed", source_commits=[]))
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
