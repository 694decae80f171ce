# properties, in the order of the pipeline; executed by gen.py

# ------------------------------------------------------------------ utilities
prop("H01", "Histograms partition the data and the reverse indices list every member",
     "For any finite data, bin size and optional limits, every datum within the limits is counted in exactly the bin that contains it and data outside are not counted. The reverse indices list, bin by bin and in input order, exactly the positions of the members of that bin, and nothing else. Bin edges start at the minimum and are one bin size apart.",
     "all data vectors and matrices within the bounds, bin sizes 1, 2 and 5, with the range taken from the data or given explicitly",
     "the existing tests compare a handful of stored IDL outputs; the partition must hold for every data vector because gridding, flagging and matching all index through it",
     UT, [("histogram / reverse indices", f"{UT}: histogram, get_bins, get_hist, get_ri")])
prop("H02", "Matching, unique runs, coordinate grids and derivative coefficients are exact",
     "Matching labels against a set of values returns, sorted and without duplicates, exactly the positions whose label (in either of one or two label arrays) occurs in the set, and -1 when there are none. The unique-run search on sorted data returns the last index of each run of equal values. Coordinate grids hold the column or the row number at every cell, and derivative coefficients are the coefficients of the falling factorial of the requested order.",
     "all label arrays, value sets (with repeats), sorted data and grid sizes within the bounds",
     "no stable test covers these helpers; repeated values, unmatched values and two-array matches are input dependent",
     UT, [("label matching", f"{UT}: array_match"), ("runs", f"{UT}: idl_argunique"), ("grids", f"{UT}: meshgrid"), ("coefficients", f"{UT}: deriv_coefficients")])
prop("R01", "Resizing interpolates, averages or samples exactly like IDL REBIN",
     "Enlarging an array by integer factors interpolates linearly between neighbours along rows and columns and repeats the last value; integer input is rounded down at each step. Shrinking by integer factors replaces each block by its average (truncated toward zero for integers), and sampling picks the nearest earlier element instead. Unless sampled, a shape that is neither a multiple nor a factor of the input's is refused with an error; the same shape is the identity.",
     "all real, complex and integer values for a family of shapes and factors",
     "the stable tests compare a few stored arrays; the definition must hold for every value and every factor",
     UT, [("resizing", f"{UT}: rebin, rebin_rows, rebin_columns")])
prop("W01", "Inverting weights gives the reciprocal, and zero where none exists",
     "Every weight is replaced by its reciprocal; weights which are zero, not finite, or below the optional threshold (on the modulus for complex or when asked) become zero and never nan or infinity. The input is left alone, the shape is kept (a single weight comes back as a number), and inverting twice restores the weights. Weights are floating point or complex numbers.",
     "all real and complex weights, scalars, vectors and matrices, thresholds, and non-finite entries",
     "no stable test reaches it; zeros, negative and non-finite weights in every position matter because the result divides images and gains",
     UT, [("weight inversion", f"{UT}: weight_invert")])
prop("M01", "Medians follow the IDL definition",
     "The plain median is the element of rank n/2 (the upper middle one for an even number), with the even option it is the average of the two middle elements. With a width the result has the input's length, each interior point is the median of its window and the points closer to an edge than half the width keep their value; the data is never modified.",
     "all real vectors within the length bounds and odd widths",
     "no stable test reaches it, and the median must be right for every order of the data",
     UT, [("median", f"{UT}: idl_median")])
prop("M02", "The resistant mean is the mean of the points surviving both cuts",
     "The resistant mean first drops points further from the median than the given number of robust deviations (median absolute deviation / 0.6745), then drops points outside the same number of truncation-corrected standard deviations of the rest, and returns the mean of the survivors. Complex data is centred on the median of its real parts and both parts' variances add. The result lies between the extremes, constant data is returned exactly and the data is not modified.",
     "all real and complex samples within the bounds, for deviations 1, 2, 3 and 5",
     "the stable tests compare two stored samples; which points survive depends on the order and the spread of the data",
     UT, [("outlier rejection", f"{UT}: resistant_mean")])
prop("G01", "Region growing returns exactly the connected pixels within the threshold",
     "Growing a region returns all pixels, in order, that are connected (up, down, left, right) to the seed region through pixels whose values lie between the limits, border pixels excluded, and nothing else. Without limits the smallest and largest value of the seed region are the limits; nan pixels never belong to it.",
     "all images within the size bounds, several seed regions, given and derived limits",
     "the stable tests use a few stored images; connectivity depends on every pixel",
     UT, [("region growing", f"{UT}: region_grow")])
prop("V01", "The even/odd time split pairs neighbouring times and matches their weights",
     "Starting at the first used time, times are paired with their successors; the samples of every pair in which both times are used are returned as even and odd samples, and all samples of other times are neither returned nor keep any weight. Both samples of a pair get the smaller of their two weights, clipped to between zero and one, in every polarisation and frequency.",
     "all patterns of used times (at least one used), any number of times within the bounds, all weights",
     "no stable test; odd numbers of times, an odd first time and gaps are combinations that samples miss",
     UT, [("even/odd split", f"{UT}: split_vis_weights")])
prop("V02", "Updating the weights zeroes exactly the unusable visibilities",
     "Updating the visibility weights zeroes, for every polarisation, exactly the visibilities of flagged frequencies, tiles and times, of baselines shorter or longer than the limits at that frequency, and those whose kernel footprint is not strictly inside the uv grid; every other weight stays as it was. The reported number of visibilities is the number of remaining positively weighted samples of the first polarisation, and flagged times, tiles and frequencies are counted.",
     "all flag patterns for times, tiles and frequencies, all uv coordinates and weights within the bounds",
     "no stable test; every combination of flags and positions relative to the grid's edge has to be right",
     UT, [("weight update", f"{UT}: vis_weights_update")])
prop("V03", "The visibility noise is the even-odd spread over root two",
     "For each polarisation and frequency the noise is the standard deviation of the imaginary part of the even-odd visibility differences divided by the square root of two, using only pairs with both samples unflagged. It is zero when nothing is usable or there is only one time; visibilities and weights are untouched.",
     "all visibilities and weights for small numbers of baselines, with given or derived even/odd samples",
     "no stable test; flags select a different sample set for every frequency",
     UT, [("noise", f"{UT}: vis_noise_calc")])
prop("V04", "Averaging in time is the weighted sum over times of each baseline",
     "Reducing a frequency by baseline-and-time array over time gives, for every frequency and baseline, the sum over times of weight times visibility; the inputs are not modified and weights of another shape are refused.",
     "all complex visibilities and weights within the bounds",
     "no stable test; a wrong axis order only shows for unequal values at every baseline and time",
     UT, [("time average", f"{UT}: reshape_and_average_in_time")])

# ------------------------------------------------------------------- flagging
FL = "PyFHD/flagging/flagging.py"
prop("F01", "Basic flagging zeroes cut tiles, times, channels and channel edges",
     "Basic flagging sets to zero the weights of all baselines of named tiles, of cut times, of frequencies below or above the limits and of the edges of the coarse channels (80 kHz on each side); all other weights stay. A tile or frequency is reported as used exactly when the metadata uses it and every polarisation has a positive weight on it. With frequency flagging off, a frequency flagged on all baselines gets weight one where its data is not zero.",
     "all weights, visibilities, metadata flags, band limits and tile names within the bounds",
     "no stable test; the cuts interact, and each combination of flags must be right",
     FL, [("basic flagging", f"{FL}: vis_flag_basic")])
prop("F02", "Statistical flagging cuts exactly the outlying tiles and frequencies",
     "Statistical flagging cuts a tile or a frequency exactly when the spread of its usable visibilities (not zero, with weight) is zero or differs from the median spread by more than three standard deviations (from 40 frequencies on, from the running median over n/20 of them); baselines outside the length limits and times with ten or fewer usable samples lose every weight. A weight is either kept or set to zero, and the number of unflagged visibilities is reported.",
     "all sizes of the outlying spreads, all baseline coordinates and weights within the bounds",
     "no stable test; whether a spread is an outlier depends on all of the others",
     FL, [("statistical flagging", f"{FL}: vis_flag")])
prop("F03", "Flagging tiles by name zeroes all and only the baselines of those tiles",
     "Flagging a list of tile names (with surrounding blanks, names or numbers) sets to zero the weights of every baseline in which a named tile is the first or the second tile, in all polarisations and frequencies. All other weights stay and names which do not exist are skipped.",
     "all assignments of tiles to baselines, all subsets of tiles, all weights within the bounds",
     "no stable test; the tile may be on either side of any baseline",
     FL, [("named tiles", f"{FL}: vis_flag_tiles")])

# ------------------------------------------------------------------- gridding
GU = "PyFHD/gridding/gridding_utils.py"
VG = "PyFHD/gridding/visibility_grid.py"
prop("D01", "Each visibility is binned to the grid corner of its own kernel footprint",
     "For every used frequency and baseline the grid corner and the sub-pixel offset are those of its uv position (mirrored to the lower half plane when v is positive), with bilinear factors of its fraction. Visibilities off the grid, outside the length limits, flagged or masked get corner -1. The bins list exactly the visibilities of every occupied corner, and counting them adds one to each pixel of each footprint.",
     "all uv coordinates and weights on square and non-square grids, kernel sizes and resolutions within the bounds, all selections of baselines and frequencies",
     "no stable test; positions on pixel edges, on the negative side and on non-square grids are what goes wrong",
     GU, [("locations", f"{GU}: baseline_grid_locations"), ("counts", f"{GU}: visibility_count")])
prop("D02", "Conjugate mirroring, cross polarisation and kernel interpolation are exact",
     "The conjugate mirror of an image is, at every pixel, the complex conjugate of the opposite pixel (real images are just mirrored), applying it twice gives the image back, and inputs stay as they were. Cross polarisations become half the difference of XY and the mirrored YX, and its mirror, and split into real and imaginary parts without loss. The interpolated kernel is bilinear between four neighbouring kernels.",
     "all images, kernels and fractions within the bounds",
     "no stable test; odd sizes, the first row and column and asymmetric images matter",
     [GU, UT], [("mirror", f"{GU}: conjugate_mirror"), ("cross polarisation", f"{GU}: crosspol_reformat; {UT}: crosspol_split_real_imaginary"), ("kernel", f"{GU}: interpolate_kernel")])
prop("D03", "Gridding is the exact sum of every visibility times its own kernel",
     "The gridded image, weights, variance, model and count planes are the direct sums, over all usable visibilities, of the conjugated kernel of that visibility's own frequency and sub-pixel offset (interpolated on request) times the visibility (conjugated if mirrored), one, squared modulus and so on, divided by their number; then the conjugate half is added. (Spectral terms and uniform weighting, off by default, are not part of this.) A subset of baselines or frequencies grids like flagging the others. Visibilities are not modified.",
     "all complex visibilities, models, kernels and weights for positions that overlap, neighbour, mirror and leave the grid",
     "no stable test; shared bins with several baselines and frequencies decide which kernel each visibility gets",
     VG, [("gridding", f"{VG}: visibility_grid")])

prop("D04", "A dirty image is the centred Fourier transform of the weighted uv plane",
     "The image is the two dimensional Fourier transform of the uv plane, both centred on pixel n/2, of the plane times baseline-threshold mask (smoothed by an odd box away from the edges), mask, filter and padding, divided by the squared pixel size in radians and times the normalisation; real unless asked otherwise, also for planes which are not square. The caller's plane, mask and filter are never changed. Uniform weighting multiplies by the reciprocal of the visibility count (counts below one give zero) with mean one over the weighted pixels.",
     "all complex uv planes, masks, filters, counts and weights on small planes",
     "the dirty-image test compares one observation's image against stored output; identity for all planes follows only by algebra",
     "PyFHD/gridding/gridding_utils.py", [("image", "PyFHD/gridding/gridding_utils.py: dirty_image_generate"), ("filter", "PyFHD/gridding/filters.py: filter_uv_uniform")])

prop("D05", "A kernel made for a baseline is its beam image at the baseline's own place",
     "With kernels per baseline, a visibility's kernel on the footprint's pixels is the transform of its polarisation's beam image turned by the phases of direction times the distance of the baseline, at its frequency, from the footprint's middle (less those of w where asked for), cut out around the image's centre and summed over each pixel. Clipping takes the same fraction of the largest modulus off all pixels, none below zero, keeping phases and each kernel's sum. The gridded image, model, weights and variance planes are the sums of every selected visibility, mirrored where needed, times its conjugated kernel. Inputs are untouched.",
     "any one u, v, w or beam value; any visibilities and models for overlapping, mirrored and outside positions, baselines left out, two frequencies",
     "no stable test of the whole path; offsets and resolutions only differ between baselines and frequencies",
     "PyFHD/gridding/gridding_utils.py", [("kernel", "PyFHD/gridding/gridding_utils.py: grid_beam_per_baseline"), ("gridded", f"{VG}: visibility_grid")])

# ------------------------------------------------------------------ calibration
CU = "PyFHD/calibration/calibration_utils.py"
CS = "PyFHD/calibration/vis_calibrate_subroutine.py"
prop("C01", "Applying a calibration divides every visibility by both tiles' gains",
     "Each visibility is divided by the gain of its first tile times the conjugate gain of its second tile, in the polarisation of each, at its frequency (the XY products use X of the first and Y of the second tile); where a gain is zero the visibility becomes zero. The gains, the model and the weights are left as they were. With four polarisations and a model, the cross phase is the angle of the products of calibrated data and model averaged over the times with weights clipped to between zero and one.",
     "all complex visibilities and gains for one to four polarisations, several frequencies and baselines; all data and model values for the cross phase",
     "the calibration test compares one observation with stored output; which tile, polarisation and frequency each visibility is divided by must hold for all of them",
     CU, [("apply", f"{CU}: vis_calibration_apply")])
prop("C02", "Calibration solves each tile's gain by damped least squares",
     "In each iteration the new gain of a tile is the least squares solution of data = gain x (model x conjugate gain of the other tile) over exactly the visibilities with positive weight that involve the tile, on baselines within the calibration's baseline limits and inside the uv grid, at used frequencies. It is averaged with the old one by the base and convergence gains (damped more when a gain falls below half), only the phase changes in the first iterations, and all phases are relative to the reference tile's. Gains that explain the data stay and count as converged; tiles with too few equations get zero, flagged unused tiles nan, unused frequencies keep their gain. The inputs are not modified, and less than one iteration is refused.",
     "any value of a visibility, of the position of a baseline, of the scale of the data or of the model, for up to six tiles; up to three iterations (five with the adaptive gain), longer at a solution",
     "the calibration test compares one observation with stored output; which equations enter and how the iteration is damped must hold for all data",
     CS, [("solver", f"{CS}: vis_calibrate_subroutine")])

prop("C03", "The bandpass is the robust mean of the tiles' normalised gain amplitudes",
     "At every used frequency the bandpass of a polarisation is the resistant mean (two deviations), over the used tiles, of the gain amplitudes divided by each tile's own resistant mean over the used frequencies; tiles whose amplitude is zero count as zero. Every tile gets the mean over all used tiles, or, when fitting per cable, over the used tiles with its cable length (all tiles again if a length has none or the autocorrelations are used). The remainder times the bandpass is the original gain at used frequencies, the remainder equals the gain and the bandpass is zero elsewhere, and the input gains are untouched.",
     "any amplitude of any one gain, patterns of used tiles and frequencies, tiles with zero or nan gain, all tile layouts of the cable table within the bounds",
     "no stable test; which tiles enter the mean depends on flags, cables and all other gains",
     CU, [("bandpass", f"{CU}: vis_cal_bandpass")])
prop("C04", "The polynomial gain fit is the least squares fit over the used frequencies",
     "Every tile's fitted gain is, at all frequencies, the least squares polynomial of its amplitudes times the exponential of the least squares polynomial of its unwrapped phases, both of the requested degree and over the used frequencies alone; tiles are independent and unused tiles are not fitted. With the digital gain jump the amplitude is fitted separately on either side of it with one degree less, or over the full band if all frequencies lie on one side. The coefficients, lowest degree first, are reported, zero where the data needs none.",
     "any amplitude or phase of any gain, phases which wrap, patterns of used frequencies, degrees one to four, jump positions",
     "no stable test; the fit has to be least squares for every gain, including flat ones and those with a jump at the edge of the band",
     CU, [("fit", f"{CU}: vis_cal_polyfit")])
prop("C05", "Autocorrelations are extracted per tile and scale the gains of their own tile",
     "The autocorrelations are the real parts of the visibilities of baselines whose two tiles agree, averaged over the used times on request, listed with the tile they belong to. Dividing gains by the root of a tile's autocorrelation relative to the reference tile's changes only tiles which have autocorrelations, and multiplying restores the gains. The first gains from autocorrelations are the root of data over model of that tile and polarisation, scaled to the ratio of the mean amplitudes of the visibilities over the used frequencies.",
     "any visibility, gain and autocorrelation within the bounds, tiles without autocorrelations, patterns of used times and frequencies, one to four polarisations",
     "no stable test; tile numbers and columns only differ when some tiles have no autocorrelations",
     CU, [("extract", f"{CU}: vis_extract_autocorr"), ("ratio", f"{CU}: cal_auto_ratio_divide, cal_auto_ratio_remultiply"), ("first gains", f"{CU}: vis_cal_auto_init")])
prop("C06", "The autocorrelation gain fit keeps the phase and fits the amplitude's line",
     "For each tile with autocorrelations the fitted gain has the phase of its calibration gain and as amplitude the least squares line, in the root of data over model autocorrelation, that fits its gain amplitudes over the used frequencies which are not next to an unused one. Slope and offset of each tile and the mean slope are reported per polarisation; tiles without autocorrelations keep their gain, and the autocorrelations are untouched.",
     "any one gain, data or model autocorrelation, nan gains, patterns of used frequencies, tiles without autocorrelations, one or two polarisations",
     "no stable test; the columns of the autocorrelations and the tiles only differ when some have none",
     CU, [("fit", f"{CU}: vis_cal_auto_fit")])
prop("C07", "The adaptive calibration gain is a Kalman filter, never below half the base",
     "In the first three iterations the gain is the base gain. Afterwards it follows from predicting the latest convergence from the one before, the last gain and the final convergence (given, or the median of the last few non-negative estimates of it), and is never below half of the base gain. The gain used is recorded for its iteration, and earlier gains and the convergence are untouched.",
     "any recent convergence and gain for up to eight iterations, known and estimated final convergence, three base gains",
     "no stable test; the filter's sign decisions depend on the whole history",
     CU, [("gain", f"{CU}: calculate_adaptive_gain")], over=("inputs", "histories"))
prop("C08", "Baseline histograms hold mean and spread of the relative model residual",
     "For bins of five wavelengths starting at the minimum baseline, the statistics are the mean and the standard deviation of the modulus of data minus model, each relative to the mean modulus of the model in that bin and polarisation. They cover exactly the visibilities of nonzero model whose baseline, in wavelengths at that frequency, lies within the limits; empty bins are zero and the inputs are untouched.",
     "any position of one baseline, any one datum or model value, all patterns of zero model values within the bounds",
     "no stable test; which visibilities are used and bins with zeros depend on the data",
     CU, [("histogram", f"{CU}: vis_baseline_hist")])
prop("C09", "Cable reflections fit the strongest or given mode of the gain residual",
     "With a reflection mode the fitted gain of a used tile is its polynomial times one plus a complex exponential whose mode is that of the cable's length and velocity, of the table's tile and polarisation, or the peak of the summed delay spectra; modes from a cable length may be limited to, or leave out, one length. Amplitude and phase are the Fourier component of the gain over the polynomial at that mode over the used frequencies, or those of the table. Hyperresolving takes instead the strongest of 101 modes, 0.05 apart, around that mode, in the residual less its mean or, with autocorrelations, in their ratio over its mean and that of used tiles of other modes; then amplitude and phase come from the gain's phases and only phases change. Mode, amplitude and phase are reported per tile and are zero, and the gain is the polynomial, for other tiles.",
     "any one gain, tiles of every cable length of the template, one and two polarisations, patterns of used frequencies; hyperresolving for a scale and an offset of one tile's gains, a scale of its autocorrelation ratio, or one phase",
     "no stable test; reflections differ by cable, tile and polarisation",
     CU, [("reflections", f"{CU}: vis_cal_polyfit")])
prop("C10", "Calibration flagging cuts exactly the outlying frequencies and tiles",
     "Calibration stops using a frequency (if asked to) or a tile exactly when the spread of its gain amplitudes, or for tiles the residual about the polynomial of the amplitude's degree, exceeds the median by five standard deviations of those not cut before, in up to three rounds, or is zero; or when the tile's median amplitude is off the median of tiles by more than two; or when its phase's slope or residual about a line does so likewise. Polarisations add up, and nothing comes back into use.",
     "any one gain's amplitude or phase among 32 tiles and three frequencies or 34 frequencies and three tiles, with and without further outliers",
     "no stable test; which tile is cut depends on all others, over repeated rounds",
     CU, [("flag", f"{CU}: vis_calibration_flag")], over=("inputs", "histories"))
CC = "PyFHD/calibration/calibrate.py"
prop("C11", "The calibration steps act on the gains in the configured order",
     "Calibration starts from the configured gain or the autocorrelations', solves on the data, model and weights, and flags if asked to. Final gains are then the solved ones, the polynomial fit, the bandpass, or the product of bandpass and the fit of its remainder, with the autocorrelation ratio divided out before the bandpass and put back afterwards, and the autocorrelation fit replaces them last; they are applied to the visibilities, and the histogram is of the result. The gain residual is the solved minus the final gain; means of gains and residuals, the resistant mean (two deviations) and the standard deviation of the residual are those of the amplitudes over used frequencies and tiles, and zero where nothing is used.",
     "all combinations of the options and one to four polarisations, any one datum, model value or weight and any initial gain, any one gain or residual amplitude",
     "the calibration test runs one configuration; the options combine in 64 ways and steps change gains in place",
     CC, [("steps", f"{CC}: calibrate")], over=("inputs", "configurations"))
prop("C12", "The Q/U mixing is the phase between the slopes of the model and of the data",
     "Pseudo Q (YY minus XX) and pseudo U (YX plus XY) are averaged over the times with the first polarisation's weights limited to between zero and one. The result is the phase of the least squares slope of Q over U, with an offset, of the model minus that of the data, over exactly the baselines and frequencies whose weights do not add up to zero. The inputs are not modified.",
     "any one visibility of data or model in any polarisation or any one weight, several times, baselines and frequencies",
     "no stable test; phase, weights and which baselines enter must hold for all data",
     CC, [("mixing", f"{CC}: calibrate_qu_mixing")])
prop("C13", "The calibration plots show every tile's solution under its own name",
     "The amplitude and phase of the gains, of the raw gains (with the residual), and the differences of raw and fitted amplitude and of raw and fitted unwrapped phase are each drawn to files of their own, on as many pages of 128 tiles as there are tiles: every tile has one panel, titled with its name, holding a line per polarisation, in the colour of the legend, over the used frequencies in MHz and within its axes. Tiles which are flagged or have no gain are left blank. The calibration is untouched.",
     "any one gain or residual, any tile, polarisation and frequency, arrays of fewer and of more tiles than a page holds",
     "no stable test draws anything; pages, names and which line belongs where must hold for every array",
     "PyFHD/plotting/calibration.py", [("plots", "PyFHD/plotting/calibration.py: plot_cals")], over=("inputs", "configurations"))
OB, UV = "PyFHD/data_setup/obs.py", "PyFHD/data_setup/uvfits.py"
prop("O01", "The observation describes the times, baselines, tiles and uv grid of the data",
     "Times, their first visibilities and the number of baselines are those of the data; tiles are numbered, from one, by the position of their antenna in the layout, used unless flagged in the metadata. Times are cut from the start, or the end if negative, in whole integrations. The uv pixel is that of the field of view or as given, the grid as given or fitting the longest baseline, the longest baseline and the shortest (not below the minimum) those of the data on the grid; frequencies fall into bins of the beam's averaging, and an update changes grid, limits and bins.",
     "any coordinate of one baseline, any times, antenna numbers, cuts, fields of view and pixel sizes",
     "no stable test; sizes and offsets follow from the data",
     OB, [("create", f"{OB}: create_obs"), ("update", f"{OB}: update_obs")])
prop("O02", "Metadata: tiles in antenna order, pointing and the zenith's projection",
     "Names, heights above the array and flags of tiles are those of the metafits file sorted by antenna, once per antenna; pointing, phase centre, delays and resolution are its header's, and without a file, tiles without baselines are flagged and the pointing is that of the data. The phase centre to go to is the configured one where given, zenith and altitude are those of the site at the first time. The image is projected around the phase centre with the direction of the zenith as its slant.",
     "any antenna numbers and heights, times, phase centres; any right ascension of the phase centre for listed declinations",
     "no stable test; directions of zenith and source have a sign in every quadrant",
     OB, [("metadata", f"{OB}: read_metafits"), ("projection", f"{OB}: project_slant_orthographic"), ("parallactic angle", "PyFHD/pyfhd_tools/pyfhd_utils.py: parallactic_angle")])
prop("O03", "Frequencies, coordinates, antennas and data of the uvfits file are read as is",
     "Frequencies are the reference's plus the resolution times the distance from the reference pixel; sizes, direction, site and date are those of the header, and a file without coordinates, date or baselines is refused. Coordinates and times are copied, antennas too or else decoded from the baseline number. Visibilities and weights are those of the first polarisations asked for, ordered by polarisation, frequency and baseline.",
     "any frequency, coordinate, baseline number of either encoding and datum; parameter orders and shapes with single entries",
     "no stable test; files differ in the order and number of their parameters",
     UV, [("header", f"{UV}: extract_header"), ("parameters", f"{UV}: create_params"), ("visibilities", f"{UV}: extract_visibilities")])
prop("O04", "The antenna layout holds the file's entries or their documented defaults",
     "Every entry of the layout is that of the antenna table, and its documented default when the table has none: array centre, frame, times and leap seconds, numbers and names of all antennas, coordinates, mounts, feeds and their calibration parameters. Entries which are the same for all antennas are kept once, and the layout is saved next to the other output.",
     "any coordinate and per-antenna value, each entry missing in turn",
     "no stable test; files differ in the entries they have",
     UV, [("layout", f"{UV}: create_layout")])

BU, HU, EX = "PyFHD/beam_setup/beam_utils.py", "PyFHD/healpix/healpix_utils.py", "PyFHD/healpix/export.py"
prop("B01", "The beam image is the normalised sum of the beam's responses",
     "The image of a polarisation's beam is the sum over the used frequencies, or the one asked for, of the response in that frequency's bin, squared on request, divided by the sum of those frequencies' normalisations. A response is the sum of the Gaussian lobes of the decomposition, moved and stretched from the grid and resolution they were fitted at, or the centred inverse Fourier transform of the kernel placed in the middle of the uv plane. It does not depend on how the baselines are grouped, and the beam is untouched.",
     "any amplitude, offset or width of one lobe, any one kernel value, patterns of used frequencies and groups of baselines",
     "no stable test; bins, polarisations and groups only differ in data that samples leave out",
     BU, [("lobes", f"{BU}: gaussian_decomp"), ("image", f"{BU}: beam_image")])
prop("B02", "A beam read lazily from its file acts exactly as one held in memory",
     "A beam of an FHD sav file is read once, its first baseline's kernels and all groups turned to polarisation, frequency and baseline, kept beside it as HDF5 in pieces of one kernel and used; one of an HDF5 file is loaded whole or opened lazily as asked; a FITS beam ends the run. Whether a beam saved by PyFHD is in memory, loaded or opened lazily, whether its numbers are stored alone or as arrays of one, and whether or not it has Gaussian lobes, gridding (kernels looked up, interpolated or made per baseline, clipped or not), visibility counts, the weight update and the beam's images are the same.",
     "any one kernel or lobe value and any visibilities; kinds of files, storage, frequencies and options in combination",
     "no stable test; lazily opened datasets behave unlike arrays in details which only some options touch",
     "PyFHD/beam_setup/beam.py", [("create", "PyFHD/beam_setup/beam.py: create_psf"), ("use", f"{BU}: beam_image; {VG}: visibility_grid; PyFHD/gridding/gridding_utils.py: baseline_grid_locations, visibility_count; {UT}: vis_weights_update")], over=("inputs", "configurations"))
prop("E01", "A HEALPix map is the image between its pixels at the chosen positions",
     "The map has one value per HEALPix pixel, the bilinear interpolation of the image at the pixel's position, also on rows and columns of the image. Listed pixels are those of the list below, or the configured list, cut at the horizon; otherwise they are the pixels of the disc around the field which lie strictly inside the image, whose neighbouring image pixels are all in the mask, and which are above the horizon, for the given nside or the power of two not coarser than the image. Without a configured list the one of the nearest EoR field (0 or 1) and band (above 166.5 MHz is high) is read, and image and mask are untouched.",
     "any position of one HEALPix pixel and any altitude of it, any image, any centre frequency",
     "no stable test; positions on rows, edges and the horizon are what goes wrong",
     HU, [("pixels and weights", f"{HU}: healpix_cnv_generate"), ("map", f"{HU}: healpix_cnv_apply")])
prop("E02", "The beam cube, its mask and the phase ramp belong to the observation",
     "The beam cube holds, for every polarisation and output frequency (given by index, or spread evenly over the band and rounded down), the beam of that polarisation at its frequency's bin. The mask is one exactly at the pixels, off the border, connected to the centre in each of those beams at or above the threshold (five percent if not given; its square if the beam is squared). The ramp which restores the original phase centre is the exponential of the phase of its position in the image, and one where the phase centre has not moved.",
     "any value of one beam pixel, any position of the original phase centre",
     "no stable test; what is connected depends on all pixels",
     HU, [("cube and mask", f"{HU}: beam_image_cube"), ("ramp", f"{HU}: phase_shift_uv_image")])
prop("E03", "The frequency split images exactly the visibilities of each output frequency",
     "For every output frequency the planes are those of gridding exactly its used frequencies and the given baselines (or those with weight in one of the first two polarisations at any frequency) of the chosen polarisation, imaged (or left as complex uv planes) and multiplied by their number of visibilities. An output frequency without visibilities is zero. The original phase centre is restored in weights and variance if asked for, the uv planes are saved if asked for, the number of gridded visibilities is reported, and data, model and weights are untouched.",
     "any one visibility, model value or weight; patterns of used frequencies and averaging which does not divide the band",
     "no stable test; frequencies and baselines which are flagged have to be left out of every plane",
     HU, [("split", f"{HU}: vis_model_freq_split")])
prop("E04", "The HEALPix cubes hold the maps of every polarisation and set of times",
     "For even and odd times, or all of them, and every polarisation one file holds the maps of the planes of the weights, variance, model and data (as residual if the data is one) of the frequency split of exactly those samples, and of the squared beam times the number of visibilities gridded there in each whole group of averaged frequencies. Weights are flagged for the listed tiles and updated before, and the grid is that of the options: uv pixel size before field of view, span before dimension before pixel size, the observation's where none is given. The radius is the field of view over root two and nside the power of two not coarser than the image; data, model and weights are untouched.",
     "any one value of a beam, plane, count or weight, any span of the grid within a third of a pixel; combinations of the options",
     "no stable test; the options combine, and averaging need not divide the band",
     [EX, OB], [("cubes", f"{EX}: healpix_snapshot_cube_generate"), ("update", f"{OB}: update_obs")], over=("inputs", "configurations"))

PF, IO = "PyFHD/pyfhd.py", "PyFHD/io/pyfhd_io.py"
prop("P01", "A run resumed from its checkpoints ends as the run which wrote them",
     "A run reads or restores its data and then applies each configured stage once and in order: w-term deprojection, basic flagging, weight update, model and its flagging, calibration, Q/U mixing with four polarisations, second weight update, flagging, noise, gridding of every polarisation (uniform filter from the first, no conjugate for cross polarisations) and their reformatting, images, cubes. Resumed from any of the checkpoints of observation, calibration and gridding or combinations of them, it repeats no stage before them and its images and cubes get the same data, weights, model, planes, calibration and observation as in an uninterrupted run. Options only leave out their own stage or file, and a run told to stop after calibration saves what is asked for and ends.",
     "any one visibility, weight or model value, one to four polarisations, combinations of the options and checkpoints",
     "no stable test; each combination of checkpoints and options takes another path",
     PF, [("run", f"{PF}: main, finish_pyfhd")], over=("inputs", "configurations", "crash_points"))

prop("S02", "What is saved is what is loaded",
     "A dictionary saved in a file is loaded with the same keys, nesting and values, and a file of a single array as that array, whichever way it is stored: arrays of real, complex, integer and flag values in their shape, also empty ones or without dimensions (integers as 64 bit, others in double precision), arrays and lists of texts, lists of different lengths (and types) as lists, numbers, texts (paths as text) and nothing, alone, next to others or nested, with or without a logger. Nothing among numbers is loaded as NaN and among texts as the empty text. Entries saved in chunks give the same, whether loaded whole or read as needed. Saving over a file replaces what it held, and what is saved is untouched.",
     "any one number of the arrays and values; combinations of types, shapes, nesting and options",
     "no stable test; every type and nesting takes another path through both directions",
     IO, [("save", f"{IO}: save, dict_to_group, save_dataset, format_array, dtype_picker"), ("load", f"{IO}: load, group_to_dict, load_dataset")], over=("inputs", "configurations"))

prop("S04", "Structures of IDL save files become dictionaries of the same values",
     "A structure, or the named variables of a file, becomes a dictionary with the structure's names in lower case: single values and arrays stand as they are, nested structures become dictionaries, texts are decoded (and stripped in arrays), arrays of arrays of equal shape, also nested, become one array with every value at the place of its indices and in its type. Missing arrays among them, and values of which all are missing, become NaN; arrays of different lengths are kept one by one.",
     "any one value of the arrays; real, integer and complex arrays, shapes, depths and kinds of fields",
     "no stable test; beams and models of FHD come through it and every kind of field takes another path",
     IO, [("structures", f"{IO}: recarray_to_dict")], over=("inputs", "programs"))

QV = "PyFHD/io/pyfhd_quickview.py"
prop("Q01", "The images of every polarisation are written in absolute units and in place",
     "For every polarisation the FITS files hold the dirty, model and residual image, made of that polarisation's planes with the same weights and filter, times the squared beam at the centre over the image of the weights there and the pixel's solid angle, and divided by the beam where it is not below the threshold (zero elsewhere); the beam on the padded grid, zero below the horizon; and the magnitude of the weights times the number of visibilities. With four polarisations the third and fourth are the real and imaginary part of the cross polarisation, in images, weights and names. Headers describe the padded grid. What is asked to be saved is saved as given, and observation, image and model planes, visibilities and their weights are as before for later stages.",
     "any one pixel of a dirty or model image, beam or weight and the centre of beam and weights; one to four polarisations, paddings, options of saving",
     "no stable test; sizes, polarisations and what later stages see combine",
     [QV, OB], [("quickview", f"{QV}: quickview, get_image_renormalization"), ("update", f"{OB}: update_obs")], over=("inputs", "configurations"))

MT = "PyFHD/source_modeling/vis_model_transfer.py"
prop("S01", "The model's visibilities are those of the data's times and baselines",
     "An imported model (sav files of each polarisation, plain or behind a pointer, transposed; or UVFITS of the data's number of frequencies, otherwise the run ends) is brought to the samples of the data: for each time of the data the model time it is offset from by the same amount below half an integration, earlier or later; for each baseline the model's at the same tiles, those of tiles the data lacks left out, whether the data numbers tiles by index or by name. Auto-correlations are the model's if it has them for all its tiles and zero otherwise, and not added where the data has none. A model of fewer tiles or times than the data ends the run. Model and parameters are untouched.",
     "any one visibility and any offset below half an integration; tiles, flagged tiles, auto-correlations and orders in combination",
     "no stable test; offsets, autos and flags combine and a wrong match gives plausible values",
     MT, [("flag", f"{MT}: flag_model_visibilities"), ("import", f"{MT}: vis_model_transfer, import_vis_model_from_sav, import_vis_model_from_uvfits")], over=("inputs", "configurations"))

ST = "PyFHD/pyfhd_tools/pyfhd_setup.py"
prop("S03", "A run starts only with the files it is to read and options which agree",
     "Before anything is read the run is refused if the observation's UVFITS or metafits file, or a file an option names, is missing (HEALPix pixels only if restricted to them), if options of a simulation are set without it, the EoR is enhanced without its visibilities, kernels are in an unknown kind of file, or the model's sav files (parameters and every polarisation) are not all there, unless calibration is resumed. Otherwise it starts with every option as given, paths made absolute, except: recalculating all sets each, exporting HEALPix saves visibilities, a beam per baseline is not interpolated, a mode file goes before hyperresolve, negative beam offsets are zero, the base gain is 0.75 unless set, and the ring is padding times its factor.",
     "flags either way and numbers in range, in the combinations listed; every file option there, missing or relative",
     "no stable test; options act on others and each file is an option of its own",
     ST, [("setup", f"{ST}: pyfhd_setup, _check_file_exists")], over=("configurations",))

prop("Y01", "The configuration written by a run starts the same run again",
     "The YAML file written into a run's folder, given back as configuration file, gives every option the value it had in that run.",
     "every combination of options and any of their values",
     "no stable test; every type of option is written and read in another way",
     ST, [("write", f"{ST}: write_collated_yaml_config, pyfhd_parser")], over=("configurations",))
na("Y01", "The property is about the text of numbers and names and its parsing by ConfigArgParse and PyYAML: the values have to be concrete strings, so a solver has nothing to decide. (Seen by reading and running it: it does not hold, see DESIGN.md.)")
UC = "PyFHD/pyfhd_tools/unit_conv.py"
prop("K01", "Sky, horizon and pixel coordinates convert to each other and back",
     "Converting right ascension and declination to altitude and azimuth, or to pixels of the image, and back gives the position again, for every site, time and projection.",
     "any position, site, time and astrometry",
     "no stable test; positions near poles, horizon and the image's edge differ",
     UC, [("convert", f"{UC}: altaz_to_radec, radec_to_altaz, radec_to_pixel, pixel_to_radec")], over=("inputs",))
na("K01", "The functions only hand over to Astropy's coordinate frames and WCSLIB (ERFA and WCSLIB are compiled C with transcendental functions and tables of Earth orientation), which cannot be encoded; the checks which need positions replace these functions.")
prop("K02", "Coordinate conversions use the site, time and projection they are given",
     "Converting right ascension and declination to altitude and azimuth and back asks Astropy for exactly the site (latitude, longitude in degrees, height in metres) and the time in its format (Julian dates unless said otherwise), and converting pixels to positions and back for exactly the projection, its reference pixel and value, pixel size, native pole and projection parameters, frame, epoch and date of the image's astrometry, pixels counting from zero. Angles are degrees, in that order; one position comes back as plain numbers and arrays of positions, also of one, element by element. Converting there and back with the same site, time and projection returns the position.",
     "any position, site, time and numbers of the astrometry; single positions and arrays; projections, frames and formats in combination; Astropy itself replaced by any invertible map of what it is given",
     "stable tests have none of it; an argument swapped or dropped shows for some sites, dates or projections only",
     UC, [("convert", f"{UC}: altaz_to_radec, radec_to_altaz, radec_to_pixel, pixel_to_radec")], over=("inputs",))

prop("L01", "Directions and w-terms become the phases of their geometry",
     "The direction cosines of positions are their components towards east and north and towards the phase centre less one (all zero at the centre itself) and zero where a position is not a number, the phase centre and positions being those given or otherwise the observation's and the beam's. Deprojecting the w-term turns each visibility by the product of its baseline's w, its frequency and the direction, for each polarisation, which the opposite direction undoes.",
     "any position and phase centre; any one visibility or w, several shapes and directions",
     "stable tests have none of it; shapes and positions differ",
     UT, [("cosines", f"{UT}: l_m_n"), ("deproject", f"{UT}: simple_deproject_w_term")])
