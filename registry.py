PROPS = {}


def prop(pid, level="model_checking", assumptions=()):
    PROPS[pid] = dict(level=level, assumptions=list(assumptions), harnesses=[])
    return pid


def H(pid, group, name, bounds, tier="quick", cost=1, known=None, thorough=None, **opts):
    PROPS[pid]["harnesses"].append(dict(group=group, name=name, bounds=bounds, tier=tier, cost=cost, known=known,
                                        thorough=thorough or {}, opts=opts))


ANY = "every width and height with width*height <= 2^30-1, every position, arbitrary pixel bits"
S3 = "every size 1..3 x 1..3, arbitrary pixel bits"

prop("C01")
for n in ("put_get_any_size", "get_any_size_bounds", "put_any_size_bounds", "optional_any_size", "clamped_any_size"):
    H("C01", "core", "c01_" + n, ANY, feas_timeout=100)
H("C01", "core", "c01_layout_small", S3)

prop("C02")
H("C02", "core", "c02_predicate", "all 2^64 (width, height) pairs")
H("C02", "core", "c02_from_raw", "all 2^64 (width, height) pairs, every data length up to 2^30+4", feas_timeout=100)
for n in ("new", "default", "func", "try_func"):
    H("C02", "core", "c02_reject_" + n, "every invalid (width, height) pair", feas_timeout=100)
H("C02", "core", "c02_accept_small", "every valid size 0..3 x 0..3, arbitrary pixel bits")

prop("C03")
for n, b in ((1, "1..3 x 1..3"), (2, "1..4 x 1..4"), (3, "1..4 x 1..4"), (4, "3..5 x 3..5"), (5, "4..6 x 4..5")):
    H("C03", "core", "c03_window%d" % n, "window size %d, image sizes %s, every centre from 2 before to 1 past the "
      "image, arbitrary pixel bits" % (n, b))
for n, b in ((4, "1..6 x 1..6"), (5, "1..7 x 1..7"), (7, "6..8 x 6..8")):
    H("C03", "core", "c03_window%d_all" % n, "window size %d, image sizes %s" % (n, b), tier="thorough")
H("C03", "core", "c03_window3_any_size", "3x3 window at every interior centre of an image of " + ANY, tier="thorough",
  feas_timeout=100)
for n in (2, 3, 5):
    H("C03", "core", "c03_onehot%d" % n, "one-hot kernels of size %d, image sizes 1..3 x 1..3, pixels 0..255" % n)
H("C03", "core", "c03_window3_medium", "3x3 window, every centre of images of 11..12 x 11")
H("C03", "core", "c03_window5_medium", "5x5 window, every centre of images of 10..11 x 10")
H("C03", "core", "c03_onehot_rect", "one-hot dynamic kernels 1..4 x 1..4, image sizes 1..3 x 1..3, pixels 0..255")

prop("C04")
for n in ("new_from_func", "try_new_from_func", "map", "mod", "enumerated", "try"):
    H("C04", "core", "c04_" + n, "every size 1..3 x 1..3 (1..2 rows for try), arbitrary pixel bits, every failing "
      "callback index")

for n in ("new_from_func", "try_new_from_func", "map", "mod", "enumerated"):
    H("C04", "core", "c04_" + n + "_medium", "17x9 and 9x17, arbitrary pixel bits, every failing callback index", cost=10)

RM = dict(fpmode="real", merge=True)            # exact real arithmetic, bounded by tolerances
RR = dict(fpmode="real", merge=True, rnd=True)  # the same with a rounding error term per operation

prop("C05")
for n in ("flip_horizontal", "flip_vertical", "rotate90", "rotate180", "rotate270"):
    H("C05", "ops", "c05_" + n, "every size 1..4 x 1..4, arbitrary pixel bits")
    H("C05", "ops", "c05_" + n + "_big", "every size 1..7 x 1..7, arbitrary pixel bits", tier="thorough")
H("C05", "ops", "c05_medium", "all five operations on images of 9x17, 33x2, 2x33, 16x8, 1x300, 300x1, arbitrary pixel bits", cost=5)
H("C05", "ops", "c05_inverse", S3)
H("C05", "ops", "c05_empty", "the empty image")

prop("C06")
H("C06", "ops", "c06_crop", "every size 1..3 x 1..3, all 2^128 rectangles, arbitrary pixel bits", cost=20)
H("C06", "ops", "c06_crop_wide", "every size 4..5 x 1..2, all 2^128 rectangles, arbitrary pixel bits", cost=20)
H("C06", "ops", "c06_crop_big", "every size 1..5 x 1..5, all 2^128 rectangles, arbitrary pixel bits", tier="thorough")
H("C06", "ops", "c06_crop_medium", "256 rectangles each of images of 21x10, 10x21 and 40x3, arbitrary pixel bits", cost=6)
H("C06", "ops", "c06_crop_empty", "the empty image, all 2^128 rectangles")

prop("C07")
H("C07", "ops", "c07_compose", "two images of 0..2 x 0..2, arbitrary pixels, default and callback results")
H("C07", "ops", "c07_compose_slice", "two images of 0..2 x 0..2, arbitrary pixels, default and callback results")
for n in ("compose", "compose_slice"):
    H("C07", "ops", "c07_" + n + "_medium", "9x3 with 4x10 and 3x20 with 17x5")
H("C07", "ops", "c07_compose_three", "three images of 1..3 x 1, 1 x 1..3 and 2 x 2")
H("C07", "ops", "c07_try_compose", "images of 2x1 and 1x2, every failing call")
H("C07", "ops", "c07_blend_outside", "images of 2x1 or empty and 1x3 or empty, all 12 blend modes, arbitrary pixel bits")

prop("C08")
H("C08", "ops", "c08_small", "every size 1..5 x 1..3, offsets 0..6, arbitrary pixel bits", cost=5)
H("C08", "ops", "c08_any_offset", "every size 1..3 x 1..3, all 2^32 offsets, arbitrary pixel bits", cost=5)
H("C08", "ops", "c08_tall", "2 x 4..6, offsets 0..3")
H("C08", "ops", "c08_zero", S3)
H("C08", "ops", "c08_long", "66000 x 2, offset 5, checked around columns 0, 2^8, 2^15, 2^16 and the end", cost=100)

UP = "all colours and alpha values in [0,1]"
FA = ", parameters in [-100,100] (gamma in [0.05,20], hue in [-800,800] degrees)"
prop("C09")
H("C09", "core", "c09_linear", UP + FA + ", all intensities", **RM)
H("C09", "core", "c09_gamma", UP + FA, **RM)
H("C09", "core", "c09_hsl", UP + FA, cost=90, **RM)
H("C09", "ops", "c09_temperature", "one-pixel images, one channel and alpha symbolic, 6 x 6 temperatures, every strength", cost=9, **RM)
H("C09", "ops", "c09_optimize_lightness", "one-pixel images, one channel and alpha symbolic, every offset 0..1.9", **RM)
H("C09", "ops", "c09_drawing", "gray one-pixel images, radius 0..2, modes gray and colored", **RM)

prop("C10")
H("C10", "core", "c10_linear", UP + FA, **RM)
H("C10", "core", "c10_gray", UP + ", bit-exact single precision", cost=30)
H("C10", "core", "c10_new", "every non-NaN channel value, bit-exact single precision", cost=5)
for n in ("gamma", "saturation", "stretch", "gamma_saturation", "lightness", "hue_rotate", "vibrance", "modulate",
          "gray_saturation", "from_hsl", "from_hsv", "from_xyz", "from_yuv", "from_srgb", "from_lab", "to_hsl", "to_hsv",
          "to_srgb"):
    H("C10", "core", "c10_" + n, UP + FA, cost=20, **RM)

prop("C11")
for n, b in (("gray", UP), ("gray_swap", UP), ("gray_one", UP), ("transparency", UP),
             ("buffer_gray", "images of 1..4 pixels, " + UP), ("buffer_transparency", "images of 1..4 pixels, " + UP),
             ("eq", "all pairs of colours in [0,1]"), ("min_max", UP)):
    H("C11", "core", "c11_" + n, b, **RM)

prop("C12")
H("C12", "core", "c12_srgb", UP + "; powers abstracted by monotonicity and inverse", cost=40, powlin=True, **RM)
H("C12", "core", "c12_hsv", UP, **RM)
H("C12", "core", "c12_hsl2", "two channels and alpha symbolic, the third 0, 0.3 or 1", cost=40, **RM)
H("C12", "core", "c12_xyz", UP, **RM)
H("C12", "core", "c12_from_xyz", UP, **RM)
H("C12", "core", "c12_gray_axis", "all gray levels and alpha values", **RM)

prop("C13")
for n in ("rgb", "srgb", "hsl", "hsv", "yuv", "xyz", "lab", "lch"):
    H("C13", "core", "c13_" + n, "every alpha value, four colours, conversions to all eight spaces", **RM)
    H("C13", "core", "c13_set_" + n, "all channel and alpha values in [0,1]", **RM)
H("C13", "core", "c13_any", UP, **RM)
H("C13", "core", "c13_any_back", UP, **RM)

NB = "every size 1..2 x 1..2, pixels in [0,1], every threshold or strength, every random stream; plain and in-place"
FMX = dict(merge=True, ifc=True)
prop("C19", assumptions=["rand::Rng::gen::<f32> is in [0,1), gen_range within its range, Normal samples arbitrary finite values"])
for n in ("salt", "salt_none", "salt_all", "rgb", "rgb_none", "random", "gaussian", "random_none", "gaussian_none"):
    H("C19", "ops", "c19_" + n, NB, cost=10)

for n in ("none", "random", "gaussian"):
    H("C19", "ops", "c19_medium_" + n, "9 x 5 and 5 x 9, last pixel in [0,1], every strength (none: 0), every random stream; plain and in-place", cost=6, **FMX)
prop("C20")
for n, b in (("equalize_rgb", "images of 2 pixels, each channel any value of 7 histogram buckets"),
             ("equalize_rgb3", "images of 3 pixels, each channel any value of 4 histogram buckets"),
             ("equalize_lightness", "gray images of 2 pixels, any values of 7 buckets"),
             ("stretch2", "gray images of 2 pixels, any values of 7 buckets"),
             ("stretch3", "gray images of 3 pixels, any values of 4 buckets"),
             ("stretch_full", "images with black, white and a third level, thresholds 0..333"),
             ("balance_rgb", "images of 2 pixels, any values of 7 buckets"),
             ("modes_alpha", "images of 2 pixels from 4 colours, every alpha, 10 modes")):
    H("C20", "ops", "c20_" + n, b, cost=5, **RM)

MED = "17 x 9 and 5 x 30, a fixed pattern of gray levels, the last pixel in any of 7 buckets"
H("C20", "ops", "c20_medium_equalize", MED + ", two modes", cost=10, **RM)
H("C20", "ops", "c20_medium_stretch", MED + ", four thresholds", cost=36, **RM)
H("C20", "ops", "c20_medium_balance", MED + ", three thresholds", cost=4, **RM)

prop("C21")
H("C21", "ops", "c21_resize_same", "every size 1..3 x 1..3, all filters, arbitrary pixel bits")
H("C21", "ops", "c21_resize_dims", "sizes 1..3 to 1..4, all filters", cost=20, **RR)
H("C21", "ops", "c21_resize_nearest", "sizes 1..3 x 1..3 to 1..5 x 1..5", cost=20, **RR)
H("C21", "ops", "c21_const_nearest", "sizes 1..3 to 1..4, every colour", cost=10, **RR)
H("C21", "ops", "c21_const_bilinear", "sizes 1..3 to 1..4, every colour", cost=10, **RR)
H("C21", "ops", "c21_const_bicubic", "sizes 1..3 to 1..4, every colour", cost=40, **RM)
H("C21", "ops", "c21_bilinear", "sizes 1..3 x 1..2 to 1..4 x 1..3, pixels in [0,1]", cost=15, **RR)
H("C21", "ops", "c21_mirror_bilinear", "sizes 1..3 x 2 to 1..4 x 1..3, pixels in [0,1]", cost=10, **RR)
H("C21", "ops", "c21_mirror_bicubic", "sizes 1..3 x 2 to 1..4 x 1..3, pixels in [0,1]", cost=25, **RM)
H("C21", "ops", "c21_mirror_lanczos", "sizes 1..2 x 2 to 1..3 x 1..3, pixels in [0,1]", cost=35, **RR)
H("C21", "ops", "c21_range_bicubic", "sizes 1..3 x 1..2 to 1..4 x 1..3, pixels in [0,1]", cost=15, **RM)
H("C21", "ops", "c21_rotate_nearest_any", "sizes 1..3 x 1..2, every angle in [-720,720]", cost=30, **RM)
H("C21", "ops", "c21_rotate_right_angles", "sizes 1..4 x 1..4, multiples of 90 degrees, arbitrary pixel bits")
H("C21", "ops", "c21_rotate_right_angles_bilinear", "sizes 1..3 squared, multiples of 90 degrees, pixels in [0,1]", **RR)

H("C21", "ops", "c21_medium_same", "17 x 9, 9 x 17, 33 x 5 and 5 x 33, all filters, arbitrary pixel bits")
H("C21", "ops", "c21_medium_nearest", "17 x 9, 9 x 17, 33 x 5 and 5 x 33 to 23 x 6, 8 x 18, 40 x 3 and 3 x 40, arbitrary pixel bits", cost=2)
H("C21", "ops", "c21_medium_right_angles", "9 x 9 and 17 x 6, multiples of 90 degrees, arbitrary pixel bits")
for n in ("bilinear", "bicubic"):
    H("C21", "ops", "c21_medium_const_" + n, "17 x 9 and 9 x 17 to 12 x 3 and 3 x 20, every colour", cost=10, **RM)
for n in ("bilinear", "bicubic", "lanczos"):
    H("C21", "ops", "c21_medium_mirror_" + n, "10 x 6 to 7 x 4 and 4 x 13, a fixed pattern with three arbitrary pixels", cost=8, **RM)

prop("C22")
H("C22", "ops", "c22_static_dyn3", "sizes 1..2 x 1..2, every 3x3 kernel with weights in [-8,8], bit-exact single precision", cost=10)
H("C22", "ops", "c22_sum3", "sizes 1..2 x 1..2, pixels in [0,1]", **RR)
for n in range(5):
    H("C22", "ops", "c22_blur%d" % n, "radius %d, sizes up to 2 x 2 (2 x 1 from radius 3), pixels in [0,1]" % n, cost=10, **RR)
H("C22", "ops", "c22_blur_symmetric", "3 x 2, radius 1..4, pixels in [0,1]", cost=10, **RR)
H("C22", "ops", "c22_gaussian_kernel", "every sigma in [0.2,16]", **RM)
H("C22", "ops", "c22_unsharp_const", "sizes 1..2 x 1..2, radius 0..3, every colour and factor in [0,1]", cost=25, **RR)
H("C22", "ops", "c22_edges_const", "sizes 1..2 x 1..2, every colour", **RM)

H("C22", "ops", "c22_medium_sum", "17 x 9, 9 x 17, 33 x 5 and 5 x 33, kernels of 3x3, 5x5, 5x3 and 3x7, a fixed pattern with three arbitrary pixels", cost=13, **RM)
H("C22", "ops", "c22_medium_blur", "11 x 6, radius 1..3, a fixed pattern with three arbitrary pixels", cost=7, **RM)
H("C22", "ops", "c22_medium_const", "17 x 9 and 9 x 17, every colour, blur, unsharp and both edge detections", cost=21, **RM)

prop("C23")
H("C23", "ops", "c23_despeckle", "sizes 1..2 x 1, gray levels and thresholds 0..1.5, amount 0..2", **RM)
H("C23", "ops", "c23_despeckle_tall", "1 x 2, gray levels and thresholds 0..1.5, every amount", **RM)
H("C23", "ops", "c23_despeckle_lone", "3 x 3, every gray level, threshold and amount", **RR)
H("C23", "ops", "c23_snn0", "2 x 1, radius 0", **RR)
H("C23", "ops", "c23_snn1", "1..2 x 1, radius 1", cost=5, **RR)
H("C23", "ops", "c23_snn2", "2 x 1, radius 2", cost=25, **RR)
H("C23", "ops", "c23_snn_edge", "2 x 1 and 1 x 2, every pair of gray levels", **RM)

H("C23", "ops", "c23_medium_lone", "9 x 8, a lone dark pixel at every place, every gray level and threshold", cost=7, **RM)
H("C23", "ops", "c23_medium_edge", "66 x 1 and 1 x 66, every pair of gray levels", cost=4, **RM)

prop("C29")
for n in ("addition", "subtract", "darken", "lighten", "normal", "none", "alpha_blend", "hsl_gray"):
    H("C29", "ops", "c29_" + n, "all pairs of colours and every intensity in [0,1]", cost=20, **RR)

prop("C31")
for n in ("brightness", "contrast", "brightness_contrast", "invert", "invert_twice", "neutral_linear", "neutral_saturation",
          "neutral_stretch", "neutral_gamma_saturation", "neutral_lightness", "neutral_hue", "neutral_vibrance",
          "neutral_modulate", "gray_fixed", "desaturate", "to_gray", "difference", "level", "gamma_mono"):
    H("C31", "core", "c31_" + n, "every colour" + FA + " (HSL-based: two channels symbolic, the third 0, 0.3 or 1)", cost=30, **RM)
for n in ("full_turn", "third"):
    H("C31", "core", "c31_" + n, "two channels symbolic, the third 0, 0.3 or 1; full turns and thirds", cost=150, tier="thorough", **RM)
FR = ": the stated formula recomputed (channels in [0,1], HSL factors in [-1000,1000], brightness in [-4,4], gamma in [0.05,20])"
for n in ("brightness_contrast", "gamma", "gamma_opt", "level", "level_gamma", "sepia", "alpha_blend", "to_gray_saturation",
          "saturation", "stretch", "gamma_saturation", "lightness", "modulate"):
    H("C31", "core", "c31_f_" + n, "every colour" + FR, cost=40, **RM)
H("C31", "core", "c31_f_hue", "every colour, rotation in [-800,800] degrees" + FR, cost=100, fpmode="real", merge=True, ifc=True, ints=True)
H("C31", "core", "c31_f_vibrance", "every colour, factor in [-1,1]" + FR, cost=200, tier="thorough", **RM)

# codec crates are replaced by recording/feeding stand-ins (harness/stubs): d10-codecs' own code is executed
CI = dict(fpmode="real", merge=True, ifc=True, ints=True)   # exact real arithmetic, integers linked to reals
CR = dict(CI, rnd=True)                                      # with a rounding error term per operation
STUB = ["the codec libraries (png, gif, jpeg-encoder, jpeg-decoder, image, libwebp) are replaced by stand-ins that record "
        "what they are given and deliver arbitrary samples, sizes and errors"]
prop("C14", assumptions=STUB)
for n in ("png_l8", "png_la8", "png_rgb8", "png_rgba8", "png_rgb16", "png_rgba16", "bmp_rgb8", "bmp_rgba8", "ico_rgba8", "gif", "webp"):
    H("C14", "codecs", "c14_" + n, "one pixel, every value of every sample, with rounding errors", cost=90 if "16" in n else 10, **CR)
for n in ("png_l16", "png_la16"):
    H("C14", "codecs", "c14_" + n, "one pixel, every value of every sample, exact arithmetic", cost=20, **CI)

prop("C15", assumptions=STUB)
for n in ("png_l8", "png_la8", "png_l16", "png_la16", "png_rgb8", "png_rgba8", "png_rgb16", "png_rgba16", "gif", "bmp", "ico", "jpeg"):
    H("C15", "codecs", "c15_" + n, "sizes 1..2 x 1..2, all colours in [0,1], all layouts of the format", cost=60 if n in ("bmp", "ico", "jpeg") else 10, **CI)
for n in "png_l8 png_la8 png_l16 png_la16 png_rgb8 png_rgba8 png_rgb16 png_rgba16 gif bmp_rgb8 bmp_rgba8 ico jpeg webp".split():
    H("C15", "codecs", "c15_medium_" + n, "17 x 9, a fixed pattern of samples that are 0 or 1, every alpha value, last pixel any colour in [0,1]", cost=6, **CI)
H("C15", "codecs", "c15_webp", "sizes 1..2 x 1..2, all colours in [0,1]", cost=10, **CI)
for n in ("png_settings", "jpeg_settings", "webp_settings", "defaults"):
    H("C15", "codecs", "c15_" + n, "every setting, every quality 0..255", **CI)

prop("C16", assumptions=STUB)
for n in ["%s_%s" % (f, l) for f, ls in (("png", "l8 la8 rgb8 rgba8 l16 la16 rgb16 rgba16"), ("jpeg", "l8 l16 rgb cmyk"),
          ("bmp", "l8 la8 rgb8 rgba8 l16 la16 rgb16 rgba16 rgb32 rgba32"), ("ico", "rgb8 rgba8")) for l in ls.split()] + ["gif", "webp"]:
    H("C16", "codecs", "c16_" + n, "sizes 1..2 x 1..2, every sample value", cost=30 if "cmyk" in n else 2, **CI)
    H("C16", "codecs", "c16_medium_" + n, "17 x 9, every alpha and the last pixel arbitrary, the other samples a fixed pattern", cost=2, **CI)
H("C16", "codecs", "c16_gif_small_frame", "frames of 1..2 x 1 anywhere in a screen larger by 0..2 each way", **CI)
H("C16", "codecs", "c16_png_expand", "1 x 1, all channel counts, with and without sub-byte samples or tRNS", **CI)
for n in ("png", "gif", "jpeg", "bmp", "ico", "webp"):
    H("C16", "codecs", "c16_size_" + n, "every width and height the format can state that no image can have", cost=10, **CI)
H("C16", "codecs", "c16_errors", "every format, every kind of failure of the decoding library", **CI)

prop("C17")
for n, b in (("signature", "every input of up to 14 bytes"), ("short_reads", "every input, every split of the reads"),
             ("interrupted", "every input, reads interrupted at any point"), ("read_error", "every failing read"),
             ("ext3", "every three-letter extension"), ("ext4", "every four-letter extension"), ("ext_len", "every length of extension up to 6"),
             ("ext_last", "several dots"), ("no_ext", "paths without extension")):
    H("C17", "codecs", "c17_" + n, b, **CI)

prop("C18", assumptions=STUB)
H("C18", "codecs", "c18_write_error", "every format, a write or flush failing at every point", **CI)
H("C18", "codecs", "c18_gif_too_big", "every image size above 65535", **CI)
H("C18", "codecs", "c18_gif_edge", "the smallest images beyond the limit", **CI)
H("C18", "codecs", "c18_jpeg_edge", "the smallest images beyond the limit", **CI)
H("C18", "codecs", "c18_jpeg_too_big", "every image size above 65535", **CI)

prop("C28")
for n in ("png_color", "png_filter", "png_compression", "bmp_color", "ico_color", "webp_preset", "jpeg_sampling"):
    H("C28", "codecs", "c28_" + n, "every ASCII string up to the length of the longest name", **CI)
for n in ("filter", "edge", "drawing", "saturation", "balance", "equalize", "blend", "intensity"):
    H("C28", "ops", "c28_" + n, "every ASCII string up to one more than the length of the longest name", **CI)

# the program and the Image methods: exact floating point, files and printing replaced
FM = dict(merge=True, ifc=True)
APP = STUB + ["the file functions of libc (open64, read, write, lseek64, close) are replaced by one in-memory file with "
              "arbitrary failures, partial transfers and interruptions; formatted printing is a counter; std::env::args and "
              "std::process::exit of the program are replaced by stand-ins"]
PROPS["C18"]["assumptions"] = APP
H("C18", "app", "c18_file_write", "every format, every file operation failing or partial at every point", cost=40, **FM)
H("C18", "app", "c18_file_read", "every format, every file operation failing, interrupted or partial at every point", cost=60, **FM)
H("C18", "app", "c18_file_missing", "every format of the name, no such file", **FM)
H("C18", "app", "c18_file_no_format", "files and names of no known format", **FM)

prop("C25", assumptions=APP)
for n in ("to_gray", "invert", "gamma", "level", "brightness", "contrast", "brightness_contrast", "saturation", "stretch_saturation",
          "lightness", "hue_rotate", "random_noise", "salt_n_pepper_noise", "rgb_noise", "to_gray_saturation", "rotate"):
    H("C25", "app", "c25_" + n, "1 x 2 pixels of 8 bit channels, every value; every parameter in [-4,4]", **FM)
for n, b in (("order", "every pair of six commands"), ("save_between", "save, change, save"), ("missing_image", "every command without an image"),
             ("stop", "every failing file operation in a queue of four"), ("silent", "silent at every place"), ("empty", "the empty queue")):
    H("C25", "app", "c25_" + n, b, **FM)

prop("C26", assumptions=APP)
for n, b in (("name_short", "every ASCII string of 0..10 after the dash"), ("name_long", "every ASCII string of 11..21 after the dash"),
             ("name_bytes", "every byte string of 0..3 after the dash"), ("params_a", "5 commands, 13 parameters"), ("params_b", "5 commands, 13 parameters"),
             ("params_c", "4 commands, 13 parameters"), ("params_d", "4 commands, 13 parameters"), ("grayscale", "5 parameters of grayscale"),
             ("order", "every sequence of up to four arguments out of five"), ("nothing", "no arguments"), ("errors", "every error of a command")):
    H("C26", "app", "c26_" + n, b, cost=20 if n in ("name_bytes", "order") else 4, **FM)

# the python module: pyo3 and numpy replaced, floating point exact
PY = APP + ["pyo3 and numpy are replaced by stand-ins: classes are plain structs, python objects a sum type, exceptions their class, arrays their type, "
            "dimensions and elements in logical order; argument parsing by pyo3 and the memory layouts of numpy are not covered"]
prop("C27", assumptions=PY)
for n, b, c in (("flip_horizontal", "1..2 x 1..2", 1), ("flip_vertical", "1..2 x 1..2", 1), ("rotate90", "1..2 x 1..2", 1), ("rotate180", "1..2 x 1..2", 1),
                ("rotate270", "1..2 x 1..2", 1), ("crop", "2 x 2, rectangles up to 2 x 2", 1), ("rotate", "two angles, every kind of filter name", 4),
                ("resize", "2 x 1 to 1..3 x 1..2, every kind of filter name", 10), ("resize_pct", "three percentages, every kind of filter name", 5),
                ("edge_detection", "1 x 1, every kind of name", 2), ("jpeg_quality", "every quality", 1), ("random_noise", "every random number", 1),
                ("salt_n_pepper_noise", "every random number", 1), ("rgb_noise", "every random number", 1), ("gaussian_noise", "every random number", 1),
                ("add_random_noise", "every random number", 1), ("add_salt_n_pepper_noise", "every random number", 1), ("add_rgb_noise", "every random number", 1),
                ("add_gaussian_noise", "every random number", 1), ("gaussian_blur", "radius 1..2", 2), ("unsharp", "radius 1..2, factors in [-4,4] or none", 2),
                ("interlace", "3 x 2, offsets 0..3", 1), ("optimize_lightness", "2 x 1", 1), ("blend", "2 x 1 and 1 x 2, every kind of name", 2),
                ("new", "1..2 x 1..3, all bit patterns", 1), ("access", "2 x 1..2, positions -1..2", 38), ("callbacks", "1..2 x 1..2, every failing call", 4),
                ("compose", "two images, every failing call, foreign objects", 4), ("formats", "every format, options given, omitted or unknown", 3),
                ("save", "six formats, failing files", 4), ("open", "six formats, missing and malformed files", 5)):
    H("C27", "py", "c27_" + n, b + ", every pixel", cost=c, **FM)
for n, b, c in (("palette", "three palettes", 2), ("palette_in_place", "three palettes", 2), ("despeckle", "every threshold, amounts 0..9, or none", 16),
                ("snn", "radius 1..2", 6), ("stretch_contrast", "four thresholds or none", 2), ("white_balance", "four thresholds or none", 2),
                ("change_color_temperature", "every tint in [-4,4] or none", 15), ("optimize_color_temperature", "every tint in [-4,4] or none", 15),
                ("drawing", "every kind of name", 27), ("optimize_saturation", "every offset in [-4,4] or none, every kind of name", 21),
                ("balance", "every kind of name", 6), ("equalize", "every kind of name", 5)):
    H("C27", "py", "c27_" + n, "three fixed images, " + b, cost=c, **FM)
for n in ["rgb", "srgb", "hsl", "hsv", "yuv", "xyz"] + [k + i + o for k in ("lab", "lch") for i in ("d65", "d50", "e") for o in ("o2", "o10")]:
    H("C27", "py", "c27_class_" + n, "every value in [-2,2]", cost=1, **FM)
    H("C27", "py", "c27_convert_" + n, "every value in [-2,2]", cost=5 if n == "hsv" else 1, **FM)
    H("C27", "py", "c27_light_" + n, "every value in [0,1], all lights and observers, omitted and unknown ones", cost=2, **FM)
for n, b in (("lab_lch", "every value in [-2,2], all lights and observers"), ("adjust", "every value in [-2,2]"), ("adjust_hue", "every colour, three amounts"), ("gray", "every value in [-2,2], all names")):
    H("C27", "py", "c27_" + n, b, cost=1, **FM)
for n in ("rgb", "srgb", "hsl", "hsv", "yuv", "xyz", "lab", "lch", "gray"):
    H("C27", "py", "c27_to_" + n, "2 x 1 and 1 x 2, every pixel, 32 and 64 bit", cost=5, **FM)
    H("C27", "py", "c27_from_" + n, "2 x 1 and 1 x 2, every element" + (", four hues" if n == "hsv" else ""), cost=2, **FM)
for n, b, c in (("to_unknown", "unknown spaces and types", 1), ("from_wrong", "wrong dimensions, spaces, types and objects", 1), ("from_types", "every element of every type", 1),
                ("levels_u8", "every value in [0,1]", 4), ("levels_u16", "every value in [0,1]", 7), ("levels_range", "every value in [-9,0] and [1,9]", 3),
                ("trip_u8", "every level", 5), ("trip_u16", "every level", 22), ("trip_bool", "every value", 2), ("trip_float", "every value in [0,1]", 1)):
    H("C27", "py", "c27_" + n, b, cost=c, **FM)

prop("C30", assumptions=APP)
for n, b, c in (("flip_horizontal", "1..3 x 1..2", 1), ("flip_vertical", "1..3 x 1..2", 1), ("rotate90", "1..3 x 1..2", 1), ("rotate180", "1..3 x 1..2", 1),
             ("rotate270", "1..3 x 1..2", 1), ("crop", "1..3 x 1..2, every rectangle up to 3 x 2", 15), ("rotate", "2 x 2, four angles, four filters", 15),
             ("resize", "2 x 1 to 1..3 x 1..3, four filters", 30), ("edge_detection", "1 x 1, both modes", 2), ("jpeg_quality", "1 x 1, every quality", 2),
             ("random_noise", "every random number", 1), ("salt_n_pepper_noise", "every random number", 1), ("rgb_noise", "every random number", 1),
             ("gaussian_noise", "every random number", 1), ("add_random_noise", "every random number", 1), ("add_salt_n_pepper_noise", "every random number", 1),
             ("add_rgb_noise", "every random number", 1), ("add_gaussian_noise", "every random number", 1), ("gaussian_blur", "2 x 1, radius 1..2", 2),
             ("unsharp", "2 x 1, radius 1..2, every factor in [-4,4]", 2), ("blend", "2 x 1 and 1 x 2, three modes", 2), ("interlace", "3 x 2, offsets 0..3", 2),
             ("optimize_lightness", "2 x 1", 15), ("compose", "1..2 x 1 and 1 x 1..2, every failing call", 4), ("access", "2 x 2, positions -1..2", 45),
             ("new", "sizes 0..3", 1), ("callbacks", "1..3 x 1..2, every failing call", 6), ("save", "six formats, file, writer and memory", 4),
             ("open", "six formats, file and memory", 15)):
    H("C30", "app", "c30_" + n, b + ", every pixel", cost=c, **FM)
for n, b, c in (("white_balance", "thresholds 0..500", 2), ("despeckle", "every threshold, every amount", 2), ("stretch_contrast", "thresholds 0..500", 2),
                ("change_color_temperature", "every tint in [-4,4]", 20), ("optimize_color_temperature", "every tint in [-4,4]", 20), ("snn", "radius 1..2", 2),
                ("palette", "three palettes", 1), ("palette_in_place", "three palettes", 1), ("drawing", "three modes, radius 1..2", 8),
                ("optimize_saturation", "every offset in [-4,4], two modes", 60), ("equalize", "three modes", 2), ("balance", "three modes, thresholds 0..500", 5)):
    H("C30", "app", "c30_" + n, "three fixed images, " + b, cost=c, **FM)
H("C30", "app", "c30_resize_pct", "1..3 x 1..2, every percentage in [0,180]", cost=5, **RR)
