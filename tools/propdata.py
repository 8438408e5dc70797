from props import NA, prop

I, C, H = "inputs", "configurations", "histories"

# ------------------------------------------------------------------ saturation
sat = ["saturation/saturation.py"]
prop("S01", "A group is flagged saturated exactly from its first threshold crossing onward",
     "A group is flagged saturated exactly when its own pixel or one within the growth box has reached its saturation threshold in this or an earlier group of the same integration, or was already flagged on input. Thresholds may be given per pixel or per group.",
     [I, C], "all data values, thresholds (missing ones included), input flag words and growth distances on the array sizes of the stated bounds",
     "Tests use a few hand-made ramps; growth, accumulation in time and disabled pixels interact only for particular value and flag combinations.",
     sat, [("flag_saturated_pixels", sat[0])])
prop("S02", "Saturation step: floor flags, untouched data, and pixels without a threshold",
     "A group at or below zero is flagged A/D floor and do-not-use, and no other group gains those flags; science samples and all other group flags stay as given. Pixel flags become the union of the input and reference flags; a pixel with a missing threshold is marked as not checked, and pixels so marked are never flagged saturated from their own data.",
     [I, C], "all data, thresholds and flag words on the array sizes of the stated bounds",
     "Flag bookkeeping for every combination of reference and input words cannot be settled by examples.", sat, [("flag_saturated_pixels", sat[0])])
prop("S03", "Frame-averaged groups preceding saturation become do-not-use where it may hide",
     "With a read pattern, an averaged group whose next group is saturated is flagged do-not-use exactly when its mean could hide a saturated last read (value above threshold times mean-read over last-read number), and group two additionally when group three saturates, extrapolating group one would not, and the step from group one exceeds the threshold headroom per read. Saturation flags themselves do not depend on the read pattern and no flag is cleared.",
     [I, C], "all group values, thresholds, biases and flag words, for the listed read patterns",
     "The condition couples three groups, the bias and the read pattern; tests sample a few combinations.", sat, [("flag_saturated_pixels, read_pattern branch", sat[0])])
prop("S04", "Frame zero is zeroed exactly where its single read is unusable",
     "A supplied frame-zero image comes back zero exactly where it has reached the saturation threshold (or lies within the growth box of such a pixel) or is at or below zero, separately for each integration, and unchanged elsewhere.",
     [I, C], "all frame-zero values, thresholds and reference flags within the bounds", "Tests have one frame-zero example.", sat, [("zframe handling", sat[0])])

# ------------------------------------------------------------------ linearity
lin = ["linearity/linearity.py"]
prop("L01", "Linearity correction: polynomial on usable groups, identity elsewhere",
     "Each unsaturated group of a pixel with valid coefficients is replaced by its coefficient polynomial of the value; saturated groups and pixels whose coefficients are missing, flagged or have a zero linear term keep their value. The pixel flags gain the reference flags plus the no-correction flag exactly for those pixels, and frame zero is treated the same way with zeros kept.",
     [I, C], "all data, coefficients (any may be NaN), flag words, polynomial degrees and shapes within the bounds",
     "The guarantee is per pixel and per value; tests use constant images and a few coefficient sets.", lin, [("linearity_correction", lin[0]), ("linearity_correction_branch", lin[0])])
prop("L02", "Read-level linearity correction averages individually corrected reads",
     "With an inverse polynomial and a read pattern, each unsaturated group becomes the mean of the forward-corrected reads reconstructed from the pixel's count rate between its first and last safely unsaturated group, offset to reproduce the observed group, capped above saturation when a threshold is given. Saturated groups keep their value, coefficients that are unusable in one direction count as identity there and mark the pixel, and a row's result does not depend on which rows are processed with it.",
     [I, C], "all data, coefficient values, saturation patterns, read patterns and tilings within the bounds",
     "Every saturation pattern changes which groups anchor the rate; tests check a single pattern with near-identity coefficients.", lin, [("linearity_correction_int", lin[0])])

# ------------------------------------------------------------------ dark
drk = ["dark_current/dark_sub.py", "dark_current/dark_class.py"]
prop("D01", "Dark subtraction removes the time-matched dark from every group",
     "With matching readouts every science group has the corresponding group of the corresponding dark integration subtracted (the last dark integration when there are too few, or for a later exposure segment), missing dark values counting as zero. Pixel flags become the union of science and dark flags, the caller's science data stay as they were, and a dark taken with more frames or a larger gap leaves the exposure unchanged and marked skipped.",
     [I, C], "all data, dark and flag values, integration counts, segment numbers and readouts within the bounds",
     "Tests use constant darks for which wrong integrations or groups give the same answer.", drk, [("do_correction_data", drk[0]), ("subtract_dark", drk[0])])
prop("D02", "A single-frame dark is averaged to exactly the frames each science group saw",
     "With a dark of single-frame groups, science group k has subtracted the mean of the dark frames taken during that group, skipping the frames of the gaps, for every dark integration; the averaged dark that is returned is the one that was subtracted.",
     [I, C], "all data values, frame and gap counts, integrations and segment numbers within the bounds",
     "Frame indexing errors show only for particular gap, frame and integration combinations.", drk, [("average_dark_frames_3d/4d", drk[0])])
prop("D03", "A dark shorter than the exposure is extended linearly, per pixel and integration",
     "When the dark has too few frames, the missing groups continue each pixel's last two dark groups linearly, as many groups as the exposure needs, and are then matched or averaged like measured ones.",
     [I, C], "all dark values (missing ones included), lengths, readouts and integrations within the bounds",
     "Tests extend one constant-slope dark by a fixed amount.", drk, [("extrapolate_dark", drk[0])])

# ------------------------------------------------------------------ jump
jmp = ["jump/twopoint_difference.py", "jump/jump.py"]
prop("J01", "Single-pass jump detection flags exactly the differences beyond the threshold",
     "With enough usable differences, a group is flagged as a jump exactly when the pixel's rate into it deviates from the pixel's median rate over all integrations by more than the threshold times the expected noise for that group spacing; groups at or after an unusable group and all other flags are left alone.",
     [I, C], "all data, noise, usable/unusable patterns, read patterns and thresholds within the bounds",
     "Tests plant one large jump; the threshold is exact for every value, pattern and spacing.", jmp, [("run_jump_detection", jmp[0]), ("look_for_more_than_one_jump", jmp[0])])
prop("J02", "Iterative jump detection removes the worst outlier until none exceeds its limit",
     "With few usable differences, the largest deviation from the pixel's clipped median is flagged and removed repeatedly, using the threshold belonging to the number of differences left, until no deviation exceeds it or fewer than two remain; nothing else is flagged.",
     [I, C], "all data, noise and usable patterns for 2..4 differences, further first steps for 5",
     "Which difference goes first and which threshold applies depends on the ordering of all values; tests have a handful of ramps.", jmp, [("iterative_jump", jmp[0]), ("get_cr_locs", jmp[0]), ("calc_med_first_diffs", jmp[0])])
prop("J03", "Neighbours of strong jumps and groups after large jumps are flagged as requested",
     "The four neighbours of a detected jump are flagged in the same group exactly when its significance lies strictly inside the requested window and they are usable, and the requested number of groups after a jump are flagged exactly when its height reaches the requested energy, on usable groups of the same pixel and integration. Nothing else is flagged.",
     [I, C], "all data, noise and usable patterns, window and energy settings, within the listed sizes (windows of up to 60 groups with set flags)",
     "Image borders, unusable neighbours and windows overlapping the end of the integration combine in ways tests sample once.", jmp, [("find_crs, neighbour and after-jump flagging", jmp[0])])
prop("J04", "The jump step changes only jump flags and pixels without a gain",
     "Jumps are sought in gain-corrected data with gain-corrected noise. Pixels whose gain is missing or not positive gain exactly the no-gain and do-not-use flags, no other pixel flag changes; in group flags only the jump flag may change, it is never left on a saturated or do-not-use group, and jumps flagged on input are kept on usable groups.",
     [I, C], "all data, gains, noise and flag words within the bounds", "Tests use constant gain and one ramp; flag bookkeeping must hold for every word.",
     [jmp[1], jmp[0]], [("detect_jumps_data", jmp[1])])
prop("J05", "Jump flags do not depend on the number of row slices",
     "Splitting the image by rows over any number of processes gives the same group flags, pixel flags and counts as a single process, including neighbours flagged across the slice borders.",
     [I, C, "schedules"], "all data, noise and flags on images of up to 7 rows in 2 to 5 slices; workers modelled as independent calls with copied arguments",
     "Only jumps next to a slice border show a mistake; tests compare sliced runs on a few images.", [jmp[1]], [("slice/merge in find_jumps multiprocessing branch", jmp[1])])

prop("J06", "Snowballs: which jump regions count and what is flagged around them",
     "A region of jumps of at least the minimum area is a snowball if it lies near the border of the image (each axis measured by its own size) or if a region newly saturated in this or the next group has its centre inside the ellipse of the jump region; without the requirement of a core every such region is one. Snowballs are flagged as jumps in their expanded ellipse, except saturated pixels; saturated cores above the minimum width are extended from their group on, replacing the jump flag there; cores are flagged in the first groups of the next integration if requested. No other flag changes.",
     [I, C], "every combination of the listed jump and saturated regions per group, all other flag bits of all samples, parameters per case",
     "Elongated regions, cores away from the centre, non-square images, other flags under the core and the last group each need their own situation; tests look at round ones on square images.",
     [jmp[1]], [("flag_large_events", jmp[1]), ("make_snowballs", jmp[1]), ("extend_saturation", jmp[1]), ("extend_ellipses", jmp[1])])
prop("J07", "Showers: what is searched, what is flagged, and which flags are taken back",
     "Every group after the first usable one is searched, in the significance of its difference from the median difference (valid samples only; clipped statistics over many integrations), with flagged samples and reference pixels left out; smoothing is the kernel-weighted mean of the samples that are there. Regions above the threshold and of at least the minimum area are flagged as jumps in their expanded ellipse, in this and the requested later groups, except from saturation on. A pixel whose mean difference becomes unknown or changes by more than the allowed amplitude gets its flags back. Too few differences: nothing changes.",
     [I, C], "all data of one or two pixels per image, flag words from the listed ones, every combination of the listed emission regions; all images for the smoothing",
     "What is taken back depends on the data of each pixel; flag words with several bits and borders are hardly sampled.",
     [jmp[1]], [("find_faint_extended", jmp[1]), ("get_bigellipses", jmp[1]), ("convolve_fast", jmp[1]), ("max_flux_showers", jmp[1])])

prop("J08", "Which jump detection is used, and what sigma clipping flags",
     "With fewer usable differences than the minimum nothing is changed and the step tells it was skipped; sigma clipping (over integrations, or over all groups) is used exactly with enough evenly spaced usable groups. It clips the differences of usable samples at the rejection threshold, flags as jumps exactly the samples whose difference is clipped, and counts them; unusable samples keep their flags.",
     [I, C], "all data, unusable groups per integration, flags of samples and results of clipping within the bounds", "The decision counts groups over all integrations; tests have none or all of them unusable.",
     [jmp[0]], [("find_crs, total_groups, det_jump_sigma_clipping", jmp[0])])

prop("J09", "The jump settings asked for are those the detection uses",
     "Rejection limits for two, three and more differences, the minimum number of groups, the number of differences for a single pass, after-jump limits (counts, converted with the median gain) and numbers of groups, and neighbour limits take effect exactly as set on the jump data, with the spacing and reads of groups from the model's read pattern or number of frames, in one slice and in several.",
     [I, C], "all data of ramps of 2 to 5 groups for the listed settings, read patterns and flags", "Settings pass through two classes and a per-slice copy; the step's tests use the defaults for most of them.",
     [jmp[1]], [("JumpData setters, TwoPointParams", "jump/jump_class.py"), ("detect_jumps_data", jmp[1])])

# ------------------------------------------------------------------ ramp fitting
rmp = ["ramp_fitting/src/slope_fitter.c", "ramp_fitting/ols_fit.py", "ramp_fitting/ramp_fit.py"]
CTECH = ("symbolic execution of the C extension (LLVM IR regenerated from the source, CPython/numpy C API modelled) and of the calling Python source; "
         "claims decided by z3, counterexamples replayed on the extension built from the current source")
CNOTE = ("Every input within the bounds stated in the evidence, with floating point as exact extended reals (NaN and infinities modelled, rounding not); "
         "trusts clang, z3, the IR interpreter and the numpy/CPython models, compared with the real extension on a witness of several paths per case.")


def cprop(*a, **k):
    prop(*a, technique=CTECH, note=CNOTE, **k)


cprop("R01", "A slope is the weighted fit of each clean segment, combined by read noise",
      "The ramp is cut into runs of good groups, a run after a jump starting at the jump group; runs of one group count only when there is no longer one. Each run's slope is the straight-line fit weighted by its signal-to-noise (plain difference for two groups, sample over exposure time for one), and integration and exposure slopes are the means of segment slopes weighted by inverse read noise variance.",
      [I, C], "all data values, for every listed combination of group flags on ramps of the stated lengths",
      "Segment boundaries and weights depend on flag patterns and signal level jointly; tests compare a few ramps with stored numbers.",
      rmp, [("compute_integration_segments", rmp[0]), ("ramp_fit_pixel_integration_fit_slope", rmp[0])])
cprop("R02", "Slope variances follow read noise, gain and median rate",
      "Poisson variance of a segment is the pixel's median rate (never below zero) plus dark current over gain, group time and number of intervals, where the median rate is the mean over integrations of the median difference between usable neighbouring groups; read noise variance follows from noise, gain and segment length. Integration and exposure variances are inverse sums of them, zero when none or too large, and the error combines both.",
      [I, C], "all data, gains, read noises and dark currents within the bounds, for the listed flag combinations",
      "Tests use constant gain and noise and compare stored numbers; zero, negative and missing rates take other branches.",
      rmp, [("median_rate_default", rmp[0]), ("median_rate_1ngroup", rmp[0]), ("ramp_fit_pixel", rmp[0])])
cprop("R03", "Rate flags summarise group and pixel flags without losing any",
      "Each integration's flags are the pixel's plus jump and persistence when any of its groups has them, saturated when any group is, and do-not-use (with a missing slope and zero variances) when no group is usable or the first is saturated. Exposure flags are the union for jump, persistence and saturation, and do-not-use only when every integration is.",
      [I, C], "all 32-bit pixel flag words and all listed combinations of group flags", "Flag words have too many combinations to list; tests check a few.",
      rmp, [("get_pixel_ramp", rmp[0]), ("ramp_fit_pixel", rmp[0])])
cprop("R04", "A linear ramp gives its own rate whatever interrupts it",
      "When the usable groups of a ramp grow at one rate, with any step at each flagged jump and any values in unusable groups, every integration with a usable pair of groups and the exposure report exactly that rate.",
      [I, C], "any rate, pedestal, jump heights and unusable values, for the listed flag patterns on ramps of 3 to 10 groups",
      "The guarantee ties together segmentation, weights and combination for all values; tests use fixed ramps.", rmp[:1], [("ramp_fit_pixel_integration_fit_slope_seg", rmp[0])])
cprop("R05", "Samples in unusable groups never influence a ramp fit",
      "Changing the samples of groups flagged do-not-use or saturated, to any value including NaN, changes nothing in slopes, variances, errors or flags.",
      [I], "all data and replacement values for the listed flag combinations", "Non-interference compares two runs for every value; a test compares two samples.",
      rmp[:1], [("get_pixel_ramp_integration", rmp[0]), ("median_rate_integration", rmp[0])])
cprop("R06", "Each pixel is fitted alone: slices, image size and memory layout do not matter",
      "A pixel's results are those of fitting it in an image of its own; splitting the rows over any number of processes, giving arrays in the other byte order, or with other strides, gives the same products, and gain and read noise arrays are left as they were.",
      [I, C, "schedules"], "all data, frame-zero values and pixel flag words on images of up to 4 rows, 2 or 3 slices, both byte orders; workers modelled as independent calls",
      "State left over from an earlier pixel or lost at a slice border shows only for particular flag sequences.", rmp, [("get_pixel_ramp_zero", rmp[0]), ("slice_ramp_data", rmp[1]), ("endianness_handler", rmp[1])])
cprop("R07", "One-group ramps and frame zero use the right sample over the right time",
      "When only the first group is good its value over the mean time of the group's frames is the rate; when no group is usable, frame zero over one frame time is used where it is given and not zero. With suppression asked for, ramps with one good group are treated as having none.",
      [I, C], "all data and frame-zero values for the listed flag combinations", "Each case has its own time base and flag bookkeeping; tests cover a few pixels.",
      rmp, [("get_pixel_ramp", rmp[0]), ("segment_len1_timing", rmp[0]), ("suppress_one_good_group_ramps", rmp[2])])
cprop("R08", "MIRI groups that are do-not-use everywhere are dropped before fitting",
      "Leading groups and a final group in which every pixel is do-not-use are removed, and the fit equals that of the remaining ramp with no jump in its first group; with fewer than two groups left nothing is fitted.",
      [I, C], "all data for the listed flag combinations on ramps of 2 to 5 groups", "Index shifts show only when leading, final and jump flags combine.", [rmp[1]], [("discard_miri_groups", rmp[1])])
cprop("R09", "Charge-loss groups still count for the read noise variance",
      "When groups flagged for charge loss were made unusable, the read noise variances of integration and exposure are those of the ramp with these groups usable, while slopes, flags and Poisson variances are unchanged.",
      [I, C], "all data and read noises for the listed flag combinations", "The segmentation differs between slope and noise; tests cover one pattern.", rmp[:1], [("ramp_fit_pixel_rnoise_chargeloss", rmp[0])])
cprop("R10", "Optional results list every segment, jump height and pedestal",
      "The optional product gives, per integration and in order, slope, intercept, uncertainties, variances and weight of each segment and the height of each flagged jump, zeros after the last, and the pedestal extrapolated from the first group with the integration's slope (zero when there is none).",
      [I, C], "all data for the listed flag combinations on ramps of 1 to 5 groups", "The number and order of entries depend on the flag pattern of every pixel.", rmp[:1], [("save_opt_res", rmp[0]), ("get_pixel_ramp_integration_segments_and_pedestal", rmp[0])])

prop("R11", "The ramp fit of an exposure gets its own data, flags, times and noise",
     "The likelihood algorithm is used when asked for and there are at least four groups, otherwise least squares, set up the same way whichever was asked for. Samples, flags, dark current, frame zero, read times and exposure times reach the fit as they are; the read noise given to least squares is that of a difference of averaged groups in electrons. With one-group suppression asked for (and more than one group), exactly the ramps whose only good group is one, persistence aside, are made unusable before a least squares fit; group flags from before are kept where charge loss is flagged.",
     [I, C], "any data, noise, gain and pixel flags, any flag words in the listed groups of 1 to 5, both algorithms", "Flags, number of groups and algorithm combine; tests of the entry point use one combination each.",
     [rmp[2]], [("ramp_fit", rmp[2]), ("ramp_fit_data", rmp[2]), ("create_ramp_fit_class", rmp[2]), ("suppress_one_good_group_ramps", rmp[2])])

# ------------------------------------------------------------------ outlier detection
out = ["outlier_detection/median.py", "outlier_detection/utils.py"]
prop("O01", "The median image is the per-pixel median, in memory or on disk",
     "For any number of images of the announced shape, the median computer returns per pixel the median of the samples that are not missing (missing where all are), the same in memory as on disk with any buffer size and any order of the images, and leaves the images it was given as they were.",
     [I, C, H], "all samples (missing ones included), buffer sizes and orders of the images for the listed stacks",
     "Section sizes that do not divide the image and the order of images matter only in combination; tests use constant images.",
     [out[0]], [("MedianComputer", out[0]), ("_OnDiskMedian", out[0]), ("nanmedian3D", out[0])])
prop("O02", "Outlier flags follow the noise and slope limits exactly",
     "Without resampling a pixel is an outlier exactly when it differs from the reference by more than the given multiple of its error (missing error counting as zero). With resampling the limit adds the scaled largest difference of the reference to its four neighbours, and a pixel is an outlier exactly when the background-corrected difference exceeds the second limit there and the first limit somewhere in its 3x3 box. Missing samples are never outliers; inputs stay as they were.",
     [I, C], "all samples, errors, references and backgrounds, missing ones included, on the stated images, for the listed thresholds and scales",
     "Image borders, missing neighbours and two interacting limits combine pixel by pixel; tests plant one outlier.",
     [out[1]], [("flag_crs", out[1]), ("flag_resampled_crs", out[1]), ("_abs_deriv", out[1])])
prop("O03", "Weight threshold and median filter leave unusable values out",
     "The weight threshold is the requested fraction of the mean of the finite non-zero weights, left out those further than three standard deviations from their median (repeatedly, up to five times). The median filter gives the median over the window with zeros beyond the edges, missing values left out.",
     [I, C], "all weights and patterns of unusable weights, and all values of the filter, within the stated sizes",
     "Tests use one weight map and one filter input; the guarantee is for every pattern of unusable values.",
     [out[1]], [("compute_weight_threshold", out[1]), ("medfilt", out[1])])

prop("O04", "Blotting takes the median at the position each pixel maps to",
     "Every pixel of the image gets the median's value (linear, unscaled) at the position its own mapping and the inverse of the median's lead to, pixels without a position or outside the median get the fill value (zero by default); the image is single precision, the median stays as it was.",
     [I, C], "all medians and fill values, whole and fractional shifts and bounding boxes within the bounds", "Tests blot onto the same grid; axis order and missing positions show with shifts only.",
     ["outlier_detection/utils.py"], [("gwcs_blot", "outlier_detection/utils.py")])

# ------------------------------------------------------------------ resampling
rs = ["resample/utils.py", "resample/resample.py"]
prop("W01", "Resampling weights are zero on bad pixels and follow the weighting asked for",
     "A pixel with a flag that does not count as good has weight zero. Other pixels weigh the inverse of the read noise or sky variance (zero where that is zero or not finite, one when the variances are missing or of another shape), the measurement time or, without one, the exposure time, or one, as asked for. An unknown weighting is refused and inputs stay as they were.",
     [I, C], "all flag words, variances and times on 2x2 images, for the listed weightings and good-bit forms",
     "Good bits come as numbers, lists, names and complements; tests try a few words.",
     [rs[0]], [("build_driz_weight", rs[0]), ("build_mask", rs[0]), ("get_tmeasure", rs[0])])
prop("W02", "Only pixels inside the bounding box take part in resampling",
     "The range of pixels that takes part covers every pixel whose centre is inside the bounding box, and nothing outside the image; without a box it is the whole image. The outline points of a pixel rectangle lie on its edges, evenly spaced, counter-clockwise, and the reported area and centre are those of the rectangle.",
     [I, C], "all bounding box limits and image sizes within the bounds", "Half-pixel limits and limits outside the image matter at exact values.",
     [rs[0]], [("resample_range", rs[0]), ("_get_boundary_points", rs[0])])
prop("W03", "The pixel map gives the output position of every input pixel",
     "For every input pixel the map holds the output pixel coordinates of its position on the sky, missing outside the bounding boxes that are honoured, whether evaluated fully or interpolated from a coarser grid of a linear mapping; the bounding boxes of both mappings are as before afterwards, also after an error.",
     [I, C], "all shifts, scales and bounding boxes within the bounds, for the listed image sizes and steps",
     "Which box is honoured, restored or lost depends on options and failures together; tests check one real mapping.",
     [rs[0]], [("calc_pixmap", rs[0])])
prop("W04", "The coadded image is the weighted mean, and each group's time counts once",
     "Each output pixel is the weighted mean of the usable samples that land on it (background level removed unless done before), the fill value where none does; the weight map sums their weights, the context names the images and flags are the union over samples used. Exposure, measurement and elapsed times, start, end and pointings count every group once. Nothing is added after the end, ending twice changes nothing, a reset starts anew.",
     [I, C, H], "all data, weights, flags, levels, times and group patterns for 1 to 3 small images with the listed whole-pixel shifts",
     "Group identifiers, missing measurement times and the order of calls combine; tests use one arrangement each.",
     [rs[1]], [("Resample.add_model", rs[1]), ("update_time", rs[1]), ("reset_arrays", rs[1]), ("finalize", rs[1])])
prop("W05", "Variances of the coadded image follow error propagation",
     "Each coadded variance is the sum of input variances times squared weights over the squared sum of the weights, over usable samples whose variance is there, missing elsewhere; the error is the root of the sum of the variances chosen that are there. Drizzled errors are their weighted mean. Images without a variance, or without read noise, do not borrow another image's.",
     [I, C, H], "all variances (zero and missing included) for 1 to 3 small images with the listed flags and shifts, weights from fixed read noises or times",
     "Missing arrays, missing samples and the order of images decide which weight is used.",
     [rs[1]], [("resample_variance_arrays", rs[1]), ("finalize_resample_variance", rs[1])])

prop("W06", "The mean pixel area is that of the region with sky positions",
     "The area of an image is that enclosed by the outline of its pixels (inside the bounding box, without border rows and columns that have no sky positions), never the outside of the outline, divided by the number of pixels enclosed; the outline contains its corners and only known positions, and its centre is a point inside. Without a region there is no area; without a shape it is refused.",
     [I, C], "any scale, shift and stretch along the axes, bounding boxes and unknown margins as listed, images up to 70x40 pixels",
     "Which rows and columns are left out, and which pixels count, changes with every margin and box.",
     [rs[1]], [("compute_mean_pixel_area", rs[1])])

prop("W07", "Pixel scales, areas and the scaling of fluxes",
     "The area of an input pixel is the nominal one if positive, else the mean one, or the other way round where asked; the output scale is the one given or that of the output mapping, in arcseconds, and the output areas are its square; the ratio is the given one, else output over input scale of the first image, absent without areas. Fluxes are scaled by one over the ratio for spectra in flux density units, else not. Mappings with other than two spatial axes or without a usable shape are refused.",
     [I, C], "all areas (zero, negative, missing), scales and ratios; imaging and spectral; listed units", "Fallbacks combine: each missing value takes another path; tests give all values.",
     ["resample/resample.py"], [("_get_intensity_scale", "resample/resample.py"), ("get_input_model_pixel_area", "resample/resample.py"), ("Resample.__init__", "resample/resample.py")])

# ------------------------------------------------------------------ alignment, aberration, processes
al = ["alignment/util.py"]
prop("A01", "Reference position and rotation of a combined mapping",
     "Without a given reference position, the one used is the direction half way between the extremes of the unit vectors of all footprint points (with the shortest wavelength for spectral mappings); a given one is used as it is. The rotation matrix is the rotation by roll angle minus parity times V3 angle, with the parity as its handedness; any other parity is refused. Footprints stay as they were.",
     [I, C], "all sky positions of up to 3 footprints, all angles, both parities", "Extremes lie at different points for each axis; tests use one or two footprints.",
     al, [("_calculate_fiducial_from_spatial_footprint", al[0]), ("compute_fiducial", al[0]), ("calc_rotation_matrix", al[0])])
prop("A02", "Size, reference pixel and bounding box of a combined mapping",
     "The image of a combined mapping has the extent of the footprints in output pixels (rounded), or the requested shape; the reference position falls on the requested reference pixel, else it is placed so that the footprints begin at pixel zero; the bounding box covers the image, or the part the footprints take of a requested shape. Position, scale, rotation asked for and frames are those given; images under two pixels are refused.",
     [I, C], "all footprints, reference positions and pixels, scales and angles within the bounds, for a linear sky mapping and the listed requested shapes",
     "Offsets, clipping and rounding interact with each option; tests check a few combinations.",
     al, [("_compute_bounding_box_with_offsets", al[0]), ("wcs_from_sregions", al[0])])
prop("A03", "The footprint keyword holds the corners, or is not written",
     "The footprint text of four corners reads back as the same corners within the digits kept; it is not made exactly when a corner is missing. For a mapping it holds the corners of the bounding box (or of the whole image, half a pixel around the outermost pixels, which then becomes the bounding box) with longitudes from 0 to 360 degrees.",
     [I, C], "all corner positions, missing ones included, listed boxes and shapes, any image size up to 99", "Wrapping of longitudes and partly missing corners need exact values.",
     al, [("compute_s_region_keyword", al[0]), ("compute_s_region_imaging", al[0]), ("sregion_to_footprint", al[0]), ("wcs_bbox_from_shape", al[0])])
prop("A04", "Combined footprints keep their corners, every part counts",
     "The outline of combined footprints keeps every corner within a twentieth of a pixel, points that repeat a corner or lie on an edge are left out; every part of the union and of the overlap with a region counts, parts without area do not, and no overlap is refused. The keyword lists one polygon per part, on the sky, from footprints taken to pixels.",
     [I, C], "outlines of 3..8 points of any size from 1 to 4000 pixels with the listed extra points; any footprints, regions and results of the polygon operations within the bounds",
     "Nearly coinciding corners and partly overlapping footprints occur for particular pointings only; tests use a few.",
     ["alignment/resample_utils.py"], [("combine_sregions", "alignment/resample_utils.py"), ("_simplify_by_angle", "alignment/resample_utils.py"), ("_intersect_with_bbox", "alignment/resample_utils.py")])
prop("A05", "The pixel scale of a mapping at a position",
     "The scale is the geometric mean of the angles on the sky of one pixel along x and along y at the given position (regardless of the bounding box), times the ratio if one is given; for spectral mappings it is that of the cross-dispersion axis, and without a dispersion axis these are refused.",
     [I, C], "all linear mappings and ratios within the bounds, both kinds of frames, all dispersion axes", "Square pixels hide which axis was used; tests have those.",
     al, [("compute_scale", al[0])])
va = ["velocity_aberration.py"]
prop("V01", "Velocity aberration follows special relativity",
     "The apparent direction has the component along the motion added relativistically and the one across it shrunk by the Lorentz factor, staying a unit vector; the scale is the relativistic Doppler factor; without motion scale is one and the direction unchanged. For sky positions the same holds for right ascension and declination.",
     [I], "any direction for the listed velocities, any velocity up to half the speed of light for the listed directions", "Tests compare stored numbers for one velocity along an axis or two.",
     va, [("compute_va_effects_vector", va[0]), ("compute_va_effects", va[0])])
mp_ = ["multiprocessing.py"]
prop("M01", "The number of processes never exceeds the request, the cores or the work",
     "The number of processes is the one asked for (a number, a quarter, half or all of the cores, one for none or unknown words), at least one, but never more than there are cores or chunks of work.",
     [I, C], "all core and chunk counts, listed words and numbers", "Small core counts and more cores than work meet at exact values.",
     mp_, [("compute_num_cores", mp_[0])])

# ------------------------------------------------------------------ sky matching and alignment of images
sk = ["skymatch/skymatch.py", "skymatch/skyimage.py"]
prop("B01", "The sky of an image is the statistic of its usable pixels in the overlap",
     "The sky of an image is the statistic of its usable pixels (finite, not masked) inside the overlap asked for, less the sky already known if asked for, with the number of pixels and the area of the overlap. A group's sky is the smallest of its images, in an overlap their mean weighted by pixels; it overlaps wherever one of its images does. Without usable pixels there is none. Data stay as they were.",
     [I, C], "all data (missing included) and earlier skies of images of 2x2 to 2x4 pixels and groups of 2 or 3, listed masks and overlaps",
     "Masks, partial overlaps and missing values interact pixel by pixel; tests use constant images.",
     [sk[1]], [("SkyImage.calc_sky", sk[1]), ("SkyGroup.calc_sky", sk[1])])
prop("B02", "Sky matching removes differences between overlapping images",
     "The sky changes are the least-squares solution for the differences of the skies in every overlap, weighted by its mean number of pixels: images that differ by pedestals only agree afterwards. The lowest (or, if asked for, highest) change is zero. Images without overlaps keep their sky and are marked so. Data change only if subtraction is asked for, by exactly the change of sky; images of a group change alike.",
     [I, C], "all data and earlier skies of 2 to 4 images or groups of 2x2 to 2x4 pixels with the listed overlaps and masks",
     "Tests match a few constant images; the solution depends on all overlaps together.",
     sk, [("skymatch", sk[0]), ("_find_optimum_sky_deltas", sk[0]), ("_overlap_matrix", sk[0])])
prop("B03", "Local and global skies are each image's own, or the smallest of all",
     "Local skies are the statistic of each image or group; the global one is the smallest of those there, for all images; after matching, the global one is of the matched images. An image without a sky does not hinder the others. Skies are subtracted only if asked for, exactly as reported; an unknown method is refused.",
     [I, C], "all data and earlier skies of 1 to 3 images or groups of 2x2 to 2x3 pixels, listed masks and overlaps",
     "An image without usable pixels among others, in any order, is not sampled by tests.",
     sk[:1], [("skymatch", sk[0]), ("_apply_sky", sk[0])])
prop("B04", "The outline of an image on the sky",
     "The outline runs once around the outer edge of the outermost pixels, closed, with every corner a vertex, no vertex repeated, and neighbouring vertices no further apart than the requested step (corners only without one), mapped to the sky beyond the bounding box too. A mask of another shape and a group without images are refused; new images and groups have no sky; a group covers the area of all its images and they move along with its sky. An intersection that cannot be made is the image's own outline.",
     [I, C], "all image sizes up to 12x12 and steps of 1 to 30 pixels as unknowns, all linear mappings; groups of up to 3 images", "The number of vertices depends on size and step together; no test gives a step.",
     ["skymatch/skyimage.py"], [("_calc_bounding_polygon", "skymatch/skyimage.py"), ("SkyImage.__init__, intersection", "skymatch/skyimage.py"), ("SkyGroup", "skymatch/skyimage.py")])
tw = ["tweakreg/tweakreg.py", "tweakreg/utils.py", "tweakreg/astrometric_utils.py"]
prop("T01", "Alignment is refused when sources may be confused or the correction is too large",
     "Relative alignment is refused exactly when the separation is not more than root two times the tolerance or a corner of a footprint moves by twice the search radius (or largest offset) plus tolerance, or more; otherwise it matches and fits as asked for. Absolute alignment aligns all images as one group with the catalog, forgets the former reference mark, and refuses confusion or a catalog that is too small.",
     [I, C], "all tolerances, radii, offsets and corrections within a degree for 1 or 2 images", "The limits lie at exact values and depend on options.",
     tw[:1], [("relative_align", tw[0]), ("absolute_align", tw[0]), ("_is_wcs_correction_small", tw[0])])

prop("T02", "Reference catalogs: what is asked for, which sources are kept",
     "Sources strictly inside the bounding box are kept in their order. A catalog for an image is asked for around its reference position, out to its furthest corner, at the epoch, whichever service holds it; with an epoch, sources without proper motion are left out; it is sorted from faint to bright and limited to the requested number of brightest (or faintest) sources, whole rows staying together. Columns are found in any case, centroids used without them, ambiguity refused. Names of catalogs query the combined field, files are read, anything else is refused; catalogs are saved exactly when and where asked.",
     [I, C], "catalogs of up to 4 sources with any values and missing motions; all listed limits and spellings", "Order, limits and missing values interact; tests use one catalog.",
     [tw[0], "tweakreg/astrometric_utils.py"], [("filter_catalog_by_bounding_box", tw[0]), ("_parse_sky_centroid", tw[0]), ("_parse_refcat", tw[0]), ("create_astrometric_catalog", "tweakreg/astrometric_utils.py"), ("get_catalog", "tweakreg/astrometric_utils.py"), ("compute_radius", "tweakreg/astrometric_utils.py"), ("get_s3_catalog", "tweakreg/_s3_catalog.py")])
prop("T03", "Partitioned catalog: every source in the area is read and moved to the epoch",
     "Every source in a search pixel is read from the partition that holds it, each partition once, and no source outside the search pixels; those within the radius are kept in their order. Missing values are masked. Positions are moved by proper motion from the reference epoch and by the parallax seen from the earth at the epoch; sources without either are left out.",
     [I, C], "all pixel numbers at the listed depths, sources anywhere in up to 4 partitions, all positions, motions, parallaxes and missing values of up to 2 sources",
     "Pixel arithmetic at the edges of partitions of different depths; tests need a network or one small catalog.",
     ["tweakreg/_s3_catalog.py"], [("_get_hats_sources", "tweakreg/_s3_catalog.py"), ("_find_pixels_in_catalog", "tweakreg/_s3_catalog.py"), ("_generate_depth_29_ranges", "tweakreg/_s3_catalog.py"), ("_correct_for_proper_motion", "tweakreg/_s3_catalog.py")])

prop("T04", "Reference angles read from a mapping",
     "The reference angles are those of the five-angle rotation in the last step to the sky, in the units and signs of the pipelines; where the mapping was corrected in the tangent plane, the two offsets and the roll are those of the correction, taken after velocity aberration if that is a step. Chains of frames without these are refused.",
     [I, C], "all angles, the listed chains of frames and positions of the rotation", "Corrected mappings with and without velocity aberration differ in one step only.",
     tw[1:2], [("_wcsinfo_from_wcs_transform", tw[1])])

# ------------------------------------------------------------------ likelihood ramp fit
lk = ["ramp_fitting/likely_fit.py", "ramp_fitting/likely_algo_classes.py"]
prop("K01", "The likelihood noise model is the covariance of resultant differences",
     "For given read times, the noise model of the likelihood fit is the covariance of differences of averaged reads per unit time: photon noise accumulates in time and is shared by the reads after it, read noise is independent per read, so only neighbouring differences are correlated. Reads per resultant and mean times come from the read pattern, or from frame time, frames and gap.",
     [I, C], "any increasing read times of 2 to 4 resultants of the listed numbers of reads, any noise parameters", "Averaging and gaps enter each covariance term differently; tests use one pattern.",
     lk, [("Covar", lk[1]), ("get_readtimes", lk[0])])
prop("K02", "The likelihood fit is the generalised least-squares rate of usable differences",
     "The rate, its error, both variances and the chi square are the generalised least-squares solution over exactly the usable differences of a pixel; with jump detection also those without each single difference and each neighbouring pair. Without usable differences there is no rate. Without a rate guess the mean of the usable differences, if positive, is the guess. Inputs stay as they were.",
     [I, C], "all differences of 3 to 12 differences of 1 or 2 pixels for the listed noise parameters, read patterns and sets of usable differences",
     "The recursive solution with left-out differences must equal the direct one for all values, tests compare a few numbers.",
     lk[:1], [("fit_ramps", lk[0]), ("compute_jump_detects", lk[0])])
prop("K03", "The likelihood fit rejects the difference or pair that improves the fit most",
     "In each round a pixel loses its single difference or neighbouring pair whose removal improves chi square most beyond the threshold, and is looked at again until nothing exceeds the thresholds; other pixels and differences are untouched, and the last rate is returned as a guess for the fit.",
     [I, C], "any chi squares and rates of 3 to 5 differences of 1 or 2 pixels over up to 2 rounds, any thresholds within bounds",
     "The choice compares many values at once and feeds the next round.", lk[:1], [("mask_jumps", lk[0])])
prop("K04", "The likelihood fit uses good groups only and combines integrations by noise",
     "Each row of each integration is fitted from differences per time of neighbouring groups (frame zero splits the first), using exactly those with both groups unflagged and no jump, also none from the expansion of large events where asked for. Detected jumps are flagged in the group they end in; pixel flags collect saturation, jumps and do-not-use when no group is usable. Integrations are averaged by their variance for the common rate. Data and read times stay as they were; fewer than four groups are refused.",
     [I, C], "all data and flag words of 1 or 2 integrations of 4 or 5 groups, any fit results, listed read patterns; one noise or rate input symbolic per combination case",
     "Every flag word in every group and integration cannot be sampled.", lk, [("likely_ramp_fit", lk[0]), ("compute_image_info", lk[0])])

# ------------------------------------------------------------------ Casertano ramp fit (Cython)
cas = [f"ramp_fitting/ols_cas22/{n}.pyx" for n in ("_fit", "_ramp", "_jump")]
XTECH = ("symbolic execution of the Cython source (translated to Python from its syntax tree on every run) and of the calling Python source; "
         "claims decided by z3, counterexamples replayed on the extension built from the current source")
XNOTE = ("Every input within the bounds stated in the evidence, with floating point as exact extended reals (NaN and infinities modelled, rounding not); "
         "trusts z3, Cython's parser and the translation, compared with the real extension on a witness of several paths per case.")


def xprop(*a, **k):
    prop(*a, technique=XTECH, note=XNOTE, **k)


xprop("C01", "Casertano fit: optimal-power fit of every run of unflagged resultants",
      "Each run of consecutive resultants with flag zero is fitted by a straight line with the published weights, whose power follows from the signal to noise of the run's ends; the rate and the read and photon variances are those of that linear estimator. A pixel's runs are averaged by inverse read variance, single resultants not counting, and the photon variance is that of the rate (none for a negative one). Data, flags and the read pattern stay as they were.",
      [I, C], "all data of 1 to 6 resultants with every pattern of flags of the listed words, for listed read patterns, read noises and frame times",
      "Every flag pattern gives another set of runs, and the weights change at thresholds of the signal to noise; tests sample simulated ramps statistically.",
      cas[:2], [("fit_ramp", cas[1]), ("init_ramps", cas[1]), ("fit_ramps", cas[0])])
xprop("C02", "Casertano jump search: the most significant difference above threshold splits",
      "With jump detection a run is split where the most significant of its single and double differences (against the run's rate, by read and photon noise less the correction for the fit) exceeds the threshold for that rate; the two resultants at the split are flagged as jump, nothing else is, and the remainders are searched in the same way until no difference is significant. The pixel's rate and variances are those of what is left.",
      [I, C], "up to two symbolic departures of any size from a ramp of 3 to 5 resultants, listed flags, thresholds, noises and read patterns",
      "The choice compares many values and feeds the next round; tests check detection rates on simulated ramps.",
      [cas[2], cas[0]], [("fit_jumps, _fit_statistic, _threshold", cas[2]), ("fill_fixed_values", cas[2])])
cw = ["ramp_fitting/ols_cas22_fit.py"]
xprop("C03", "Casertano fit of images: each pixel separately, in any shape and unit",
      "Every pixel of an image of any shape (a single ramp included) is fitted with its own data, flags and read noise, in electrons; the thresholds given and the jump switch reach the fit, the results come back in the image's shape (slopes in electrons if the data had a unit), and the caller's data and flags stay as they were. Read patterns that do not match the number of resultants are refused.",
      [I, C], "all data, flags and fit results for the listed shapes, units and options", "Shapes, units and options combine; tests use one shape with uniform noise.",
      cw + cas[:1], [("fit_ramps_casertano", cw[0])])
