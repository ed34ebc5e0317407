#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here, so it stays diffable)."""
import json, os
S = "turbustat/statistics/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Scale conversions are exact, consistent and invertible",
 "Converting a length, an area or a spatial frequency between pixel, angular and (once a distance is set) physical units, or a spectral quantity between channels and velocity/frequency, multiplies by exactly the factor fixed by the header's pixel scale, its channel width and the distance. Converting there and back returns the original value, and frequencies and areas scale with the inverse and the square of the length factor. A quantity with an incompatible unit, a bare number, a non-scalar or non-length distance, or a physical conversion with no distance is refused with an error and never converted.",
 ["inputs", "configurations"], "every pixel scale and pixel unit, channel width, distance, value (scalar or array) and accepted or unaccepted unit",
 "The suite converts a handful of numbers with one header and one distance; the claim ranges over all scales, distances and unit combinations.",
 [S + "base_statistic.py"],
 [("pixel/angular/physical conversion", S + "base_statistic.py: _to_pixel, _to_angular, _to_physical, _spatial_unit_conversion"),
  ("area and frequency conversion", S + "base_statistic.py: _to_pixel_area, _to_pixel_freq, _spatial_freq_unit_conversion"),
  ("spectral conversion", S + "base_statistic.py: _to_spectral, _spectral_freq_unit_conversion, _spectral_size"),
  ("pixel scale and distance", S + "base_statistic.py: _ang_size, _physical_size, distance setter")])

prop("C02", "Every accepted input form gives the same data and header",
 "A dataset handed over as a FITS image HDU, as a (data, header) tuple or list, as an array with a separate header, or as a spectral-cube projection or cube yields exactly the same array values (with their units, and with axes of length one removed) and the same header inside every statistic. When a copy is asked for from an HDU or an array, the returned array is independent of the caller's. Anything else is refused: a bare array where a header is needed, a sequence that does not have two items, a header that is not a FITS header, or an object of another type.",
 ["inputs", "configurations"], "every array shape and content and every accepted or unaccepted container, with and without a copy being requested",
 "The tests pass one fixed small array in each container; they do not vary shape, content, degenerate axes or the invalid forms.",
 ["turbustat/io/input_base.py", S + "base_statistic.py"],
 [("input normalisation", "turbustat/io/input_base.py: input_data"),
  ("data/header intake of a statistic", S + "base_statistic.py: input_data_header, data setter, header setter")])

prop("C03", "Analyses never modify the caller's arrays, weights or options",
 "Constructing, running or comparing any statistic leaves every array the caller passed (data, weights, noise or mask arrays, lag and bin arrays, fit vectors) with exactly the values it had before. The same holds for the numerical helper routines, for simulated-field and moment routines, and for option dictionaries passed to a run or a comparison. The outcome of a second run on the same inputs is therefore the same as that of the first.",
 ["inputs", "histories"], "every input array (with or without NaNs, negative or zero values), every option combination, and every sequence of analyses run on the same caller-owned objects",
 "No existing test compares its inputs before and after; shared test data are re-created or re-read, so a write into the caller's memory would pass.",
 [S + "base_statistic.py", "turbustat/io/input_base.py", S + "pspec_bispec/pspec.py", S + "pspec_bispec/bispec.py", S + "delta_variance/delta_variance.py", S + "wavelets/wavelet_transform.py", S + "mvc/mvc.py", S + "scf/scf.py", S + "pca/pca.py", S + "pca/width_estimate.py", S + "vca_vcs/vca.py", S + "vca_vcs/vcs.py", S + "genus/genus.py", S + "tsallis/tsallis.py", S + "pdf/compare_pdf.py", S + "stat_moments/highstatmoments.py", S + "stats_utils.py", S + "psds.py", S + "lm_seg.py"],
 [("NaN handling copies before writing", S + "*/: constructors"),
  ("intermediate buffers are fresh", S + "scf/scf.py, delta_variance.py, psds.py: in-place updates act on locals"),
  ("option dictionaries are copied before editing", S + "*_Distance constructors")])

prop("C04", "Half-plane transforms expand to the full Fourier amplitude",
 "For every real two- or three-dimensional array of any size, odd or even along any axis, the amplitude array used for power spectra equals the absolute value of the full discrete Fourier transform at every frequency, in the same layout and shape. When the half-plane form is requested it equals the corresponding half of that transform. Arrays of any other dimensionality are refused.",
 ["inputs"], "every 2D/3D shape (all parities, including axes of length one and two) and every real content",
 "The test checks four fixed shapes with random data; parity and degenerate-axis combinations are not covered.",
 [S + "rfft_to_fft.py"],
 [("Hermitian expansion of the half-plane transform", S + "rfft_to_fft.py: rfft_to_fft")])

prop("C05", "Radial power profiles average exactly the pixels of each annulus",
 "Each value of a radial profile is the mean of the finite pixels whose radial frequency (or pixel distance) falls in that bin and, if an azimuthal wedge is given, whose azimuth or its opposite lies within the wedge (the innermost pixels around the centre are always kept); masked or non-finite pixels never contribute. Bin centres are the midpoints of the bin edges, which span the requested minimum and maximum. With errors requested, a bin holding fewer than two pixels is reported as not-a-number in both value and error, and every other error is at least the sample standard deviation.",
 ["inputs", "configurations"], "every image shape and content with any pattern of NaNs, every bin spacing and limit, every wedge angle and width",
 "Tests fit slopes to a few synthetic images; no test compares a profile with per-pixel membership, and wedge or limit options are sampled at a few values.",
 [S + "psds.py", S + "base_pspec2.py", "turbustat/simulator/threeD_pspec.py"],
 [("pixel-to-bin assignment and averaging", S + "psds.py: pspec"),
  ("radius and frequency grids", S + "psds.py: make_radial_arrays, make_radial_freq_arrays"),
  ("profile attached to a statistic", S + "base_pspec2.py: compute_radial_pspec")])

prop("C06", "Apodizing windows are symmetric tapers between zero and one",
 "For every image shape and taper setting, every apodizing window has the image's shape and takes values between 0 and 1 only. It is exactly 1 inside the inner radius, exactly 0 beyond the inner radius plus the taper width, falls from 1 to 0 in between as a raised cosine of the distance from the image centre, and is unchanged by flipping either axis. The specialised windows are the special cases of the split cosine bell that their definitions state.",
 ["inputs", "configurations"], "every 2D shape (odd, even, non-square) and every taper fraction and inner fraction between 0 and 1",
 "The windows are only exercised as a side effect of power-spectrum tests on one square shape and one parameter value.",
 [S + "apodizing_kernels.py", S + "base_pspec2.py"],
 [("split cosine bell", S + "apodizing_kernels.py: SplitCosineBellWindow, _radial_distance"),
  ("special cases", S + "apodizing_kernels.py: HanningWindow, TukeyWindow, CosineBellWindow"),
  ("selection by name", S + "base_pspec2.py: apodizing_kernel")])

prop("C07", "Slope fits use exactly the points inside the requested range",
 "Every power-law or exponential fit uses exactly those measured points that lie within the requested lower and upper limits and are valid, in log-log (or the documented) coordinates, with each weight staying attached to its own point; with no limits given it uses all valid points of the documented default range. The limits are understood in whichever pixel, angular or physical unit they are given, the reported fit range is the one used, and the reported slopes, break and their uncertainties are those of that fit. A break point outside the limits is refused.",
 ["inputs", "configurations"], "every measured curve (with NaNs or zeros), every pair of limits in any accepted unit, weighted or not, with or without a break",
 "Tests compare fitted slopes for one or two limits with a loose tolerance, so an off-by-one in the selected range or misaligned weights usually passes.",
 [S + "base_pspec2.py", S + "fitting_utils.py", S + "delta_variance/delta_variance.py", S + "wavelets/wavelet_transform.py", S + "scf/scf.py", S + "vca_vcs/vcs.py"],
 [("selection of spectral points", S + "base_pspec2.py: fit_pspec; fitting_utils.py: clip_func, check_fit_limits"),
  ("selection of lags", S + "delta_variance/delta_variance.py: fit_plaw; wavelets/wavelet_transform.py: fit_transform; scf/scf.py: fit_plaw"),
  ("selection of spectral frequencies", S + "vca_vcs/vcs.py: fit_pspec")])

prop("C08", "Distances are non-negative, symmetric, and zero for identical data",
 "The distance between two datasets is never negative (or is not-a-number), is the same with the datasets, each with its own options, in either order when they share a pixel size, and is zero when both have the same measured statistic. Slope-based distances equal the absolute slope difference divided by the quadrature sum of the two slope uncertainties. Histogram distances are scaled Euclidean distances of square-rooted bin contents, and surface or curve distances are root-sum-square differences of the two measured surfaces or curves (for correlation surfaces the root of the weighted mean square, for principal components of eigenvalues scaled to unit sum).",
 ["inputs"], "every pair of measured statistics: slopes and errors, histograms, correlation surfaces, bispectra, genus curves, moments",
 "Tests compare one distance value per method with a stored number; symmetry, sign and identity are not asserted for any other pair.",
 [S + "stats_utils.py", S + "pspec_bispec/pspec.py", S + "pspec_bispec/bispec.py", S + "mvc/mvc.py", S + "vca_vcs/vca.py", S + "vca_vcs/vcs.py", S + "wavelets/wavelet_transform.py", S + "delta_variance/delta_variance.py", S + "scf/scf.py", S + "pca/pca.py", S + "genus/genus.py", S + "pdf/compare_pdf.py", S + "stat_moments/highstatmoments.py", S + "dendrograms/dendro_stats.py", S + "cramer/cramer.py", S + "tsallis/tsallis.py"],
 [("t-statistic distances", "distance_metric of the power-spectrum, MVC, VCA, VCS, wavelet, delta-variance and dendrogram comparisons"),
  ("histogram distances", S + "stats_utils.py: hellinger; pdf/compare_pdf.py; stat_moments/highstatmoments.py; dendrograms/dendro_stats.py"),
  ("surface and curve distances", S + "scf/scf.py, pspec_bispec/bispec.py, genus/genus.py, pca/pca.py: distance_metric")])

prop("C09", "The correlation surface is the normalised channel-map difference",
 "For every pair of lags, the spectral correlation at that lag is one minus the root of the mean over all positions of the ratio between the summed squared difference of each spectrum with the shifted one and the summed squared intensities of both, ignoring missing data. It therefore equals one at zero lag, never exceeds one, and does not change when the cube is multiplied by a constant; with periodic boundaries it is the same for opposite lags, and with cut boundaries only pixel pairs that both lie in the map are used. The lag axis and the surface have matching order.",
 ["inputs", "configurations"], "every cube shape and content (with NaNs), every set of lags in any accepted unit, both boundary treatments",
 "Tests compare one 11x11 surface for one cube with stored numbers; other shapes, lags and NaN patterns are unreached.",
 [S + "scf/scf.py"],
 [("surface computation", S + "scf/scf.py: SCF.compute_surface, roll_lags setter"),
  ("azimuthal reduction", S + "scf/scf.py: SCF.compute_spectrum")])

prop("C10", "Delta-variance values are weighted variances of filtered maps",
 "At every lag the delta-variance is the weight-averaged squared deviation of the filtered map from its mean over valid pixels, so it is never negative, is unchanged by adding a constant to the filtered map and scales with the square of a constant factor; its error estimate is never negative. A lag whose value or error cannot be determined (not finite, zero or negative) is reported as not-a-number in both. The core and annulus kernels have the requested diameters, integrate to the same total, and each requested lag yields exactly one value in lag order.",
 ["inputs", "configurations"], "every filtered map and weight map, every lag within the allowed range and every diameter ratio",
 "One stored curve for one image is compared; no test varies weights, diameter ratio or lag sets against the definition.",
 [S + "delta_variance/delta_variance.py", S + "delta_variance/kernels.py"],
 [("weighted variance and error", S + "delta_variance/delta_variance.py: _delvar, compute_deltavar"),
  ("filtering per lag", S + "delta_variance/delta_variance.py: do_convolutions"),
  ("kernels", S + "delta_variance/kernels.py: core_kernel, annulus_kernel")])

prop("C11", "Histograms, PDFs and normalisations are correctly normalised",
 "A one-point distribution keeps exactly the finite values above the threshold (times their weights), its density integrates to one over its bins, bin centres are edge midpoints, and its cumulative distribution is non-decreasing between 0 and 1; percentile look-ups outside 0-100 are refused. The distributions of the local moment maps are likewise densities of their finite pixels. Common bins for two datasets are increasing and span the joint data range (clipped to any requested limits). Normalisations do what their names say for every data set: zero mean with unit spread, zero mean, range exactly 0 to 1, or unit mean, ignoring missing values, and an unknown name is refused.",
 ["inputs", "configurations"], "every 1-3D array (with NaN, infinities, negative values), threshold, weights, bins, limits and normalisation name",
 "Stored PDFs for one image are compared; coverage of thresholds, weights, NaNs and bin limits is minimal.",
 [S + "pdf/compare_pdf.py", S + "stats_utils.py", S + "dendrograms/mecdf.py"],
 [("selection, weighting, normalising", S + "pdf/compare_pdf.py: PDF.__init__"),
  ("density, centres, cumulative", S + "pdf/compare_pdf.py: make_pdf, make_ecdf, find_at_percentile"),
  ("common bins and normalisations", S + "stats_utils.py: common_histogram_bins, data_normalization; dendrograms/mecdf.py: mecdf")])

prop("C12", "Local moment maps are the weighted moments of each circular region",
 "Each pixel of the mean, variance, skewness and kurtosis maps is the weighted moment of the finite image pixels strictly inside the circle of the chosen radius (rounded up to whole pixels) centred on that pixel; skewness is zero for symmetric data, kurtosis is the excess over a normal distribution, and the variance is never negative. With periodic boundaries the circle wraps around the map edges, otherwise pixels beyond the edge count as missing. A region whose fraction of finite pixels within the square that encloses the circle is below the requested minimum is reported as not-a-number in all four maps.",
 ["inputs", "configurations"], "every image shape and content with any NaN pattern, weights, radius, boundary treatment and minimum fraction",
 "Tests compare stored maps for one image and radius; wrap-around, NaN fraction and weights are sampled once or not at all.",
 [S + "stat_moments/highstatmoments.py"],
 [("moments of a region", S + "stat_moments/highstatmoments.py: compute_moments, circular_region"),
  ("sliding region", S + "stat_moments/highstatmoments.py: StatMoments.compute_spatial_distrib, array_moments"),
  ("radius handling", S + "stat_moments/highstatmoments.py: radius setter")])

prop("C13", "The bicoherence lies in [0, 1] and bispectra are seed-reproducible",
 "Every bicoherence value is between 0 and 1, or is not-a-number where the sampled triads hold no power: it is the modulus of the summed triple products over the sum of their moduli, with one entry per pair of wave-vector lengths below half of each image axis. A triple product takes the transform at two wave vectors of those lengths in drawn directions and its conjugate at their vector sum (each cut to whole frequencies and wrapped on the periodic grid), the grid positions used are counted once per pair and wave vector, the same seed always gives the same result, missing pixels count as zero and the image mean has no influence when mean subtraction is on. Azimuthal and radial slices give the mean and deviation of the finite values of the chosen surface within the asked width of each radius or angle, in even bins of angle or radius.",
 ["inputs", "configurations"], "every image shape and content, sample count, seed, and mean-subtraction setting",
 "One stored bicoherence array for one image and seed is compared.",
 [S + "pspec_bispec/bispec.py"],
 [("triad sampling and normalisation", S + "pspec_bispec/bispec.py: compute_bispectrum, Bispectrum"),
  ("slices through the surface", S + "pspec_bispec/bispec.py: azimuthal_slice, radial_slice")])

prop("C14", "Principal components come from the channel covariance, largest first",
 "The covariance matrix of a cube is symmetric and its entries are the averaged products of channel pairs over the positions where they are known (with the channel mean removed, and one subtracted from the number of positions, when requested), missing values counting as negligible. Eigenvalues are reported in decreasing order with matching eigenvectors, the explained proportion is the sum of the retained eigenvalues over the reported total variance (the first component left out of both when means are not removed), and the number of retained components is the one the chosen criterion and threshold define. An eigenimage is the cube weighted channel by channel with its eigenvector in the orientation of the map, noise autocorrelations are means over the components asked for, and widths are taken at the 1/e level of the noise-corrected autocorrelation, less the beam when asked, or are not-a-number where that level is never reached.",
 ["inputs", "configurations"], "every cube shape and content (NaNs included), mean subtraction, component-selection criterion and threshold",
 "Stored eigenvalues for one cube and a few fixed component counts are compared.",
 [S + "pca/pca.py", S + "pca/width_estimate.py"],
 [("covariance", S + "pca/pca.py: var_cov_cube / compute_pca"),
  ("component selection", S + "pca/pca.py: set_n_eigs / n_eigs"),
  ("width estimates", S + "pca/width_estimate.py: WidthEstimate1D, WidthEstimate2D")])

prop("C15", "Saved results reload unchanged and saving leaves the object intact",
 "Reloading a saved statistic gives back an object of the same class with every computed result and setting of identical value, whether it was saved before or after running; the input maps or cube (including weighted copies of them held by the object) are dropped unless they were asked to be kept, in which case they are identical too. Saving never changes the object being saved, so it can be used and saved again, and a file that was written stays what it was. Exactly one file is written, under the given name, with the pickle suffix appended only when it is not already there.",
 ["inputs", "histories"], "every statistic, every state of it (before or after running), every file name and any sequence of saves, runs and loads",
 "Tests save and load a computed statistic once per class and look at one attribute.",
 [S + "base_statistic.py", S + "mvc/mvc.py"],
 [("save", S + "base_statistic.py: save_results; mvc/mvc.py: save_results"),
  ("load", S + "base_statistic.py: load_results")])

prop("C16", "Simulated fields are real, seed-reproducible and have the asked power law",
 "For every size (odd or even), power-law index and ellipticity, the generated two- and three-dimensional fields are real, have the requested shape and zero mean, and their Fourier amplitude at every non-zero frequency below the highest one of each axis follows the requested power law of the (elliptical, rotated) radius up to one overall constant, three-dimensional fields being scaled to the requested root-mean-square amplitude. The same seed always gives the same field, and a transform returned on request is that of the field: the half plane, or the full plane with the zero frequency in the centre and the Hermitian symmetry of a real image. An ellipticity outside (0, 1] is refused.",
 ["inputs", "configurations"], "every size, index, orientation, ellipticity and seed",
 "Tests fit slopes of a few fields with tolerance; symmetry and per-frequency amplitude are checked for one or two sizes.",
 ["turbustat/simulator/gen_field.py"],
 [("Hermitian-symmetric random phases", "turbustat/simulator/gen_field.py: make_extended, make_3dfield")])

prop("C17", "Structure-increment fields compare each pixel with its lagged neighbours",
 "At every lag (rounded down to whole pixels) the increment of a pixel is the mean of its four neighbours at exactly that pixel offset along the two axes minus its own value, wrapping around when the map is periodic and taking zeros beyond the edges otherwise, and the increment field is standardised to zero mean and unit spread over its finite pixels. Its histogram gives, at the bin midpoints, the logarithm of the fraction of pixels in each bin, and the model is fitted to the valid bins, those within the requested number of standard deviations when a limit is set, with one row of results per lag in lag order and the model evaluated with its own fitted parameters. Lags below one pixel, or larger than half of the image, are refused.",
 ["inputs", "configurations"], "every image shape and content with NaNs, every lag set in any accepted unit, periodic or not",
 "Stored fit parameters for one image are compared.",
 [S + "tsallis/tsallis.py"],
 [("increments per lag", S + "tsallis/tsallis.py: Tsallis.make_tsallis"),
  ("model and fit", S + "tsallis/tsallis.py: tsallis_function, fit_tsallis, clip_to_sigma"),
  ("lag validation", S + "tsallis/tsallis.py: lags setter")])

prop("C18", "Genus curves count high minus low regions at every threshold",
 "At every threshold the genus is the number of connected regions of at least the minimum size (given in pixels, as an area, or as the beam) above the threshold minus the number of such regions below it, in the map smoothed at each requested radius; missing pixels belong to neither. Thresholds are evenly spaced from the lower to the upper limit, which default to the range of the data and which percentiles override when they are narrower, and one curve with one value per threshold is returned for each smoothing radius in the order given. Limits without the units of the map, and smoothing radii below one pixel or above half of the map, are refused.",
 ["inputs", "configurations"], "every image shape and content with NaNs, threshold range, smoothing radii and minimum region size",
 "One stored curve for one image is compared.",
 [S + "genus/genus.py"],
 [("region counting", S + "genus/genus.py: Genus.make_genus_curve"),
  ("thresholds and smoothing", S + "genus/genus.py: Genus.__init__, make_smooth_arrays")])

prop("C19", "Moment-map errors follow noise propagation, whichever method computes them",
 "The error of the zeroth moment is the channel width times the quadrature sum of the noise over the unmasked channels of each position, and the errors of the higher moments are the first-order propagation of the channel noise through their definitions (that of the line width being the error of the second moment over twice the width); they scale linearly with the noise level and are never negative. The slice-wise and the whole-cube computation agree wherever a pixel has data. A negative noise level, one without units or with incompatible units, or noise of another shape is refused.",
 ["inputs", "configurations"], "every cube shape, mask, noise level (single value or cube) and computation method",
 "Tests compare error maps of one simple cube with an analytic value.",
 ["turbustat/moments/_moment_errs.py", "turbustat/moments/make_moments.py"],
 [("error propagation", "turbustat/moments/_moment_errs.py: _slice0/_slice1/_slice2, _cube0/_cube1/_cube2"),
  ("noise validation", "turbustat/moments/make_moments.py: scale setter")])

prop("C20", "Segmented fits keep the break in range and report both slopes",
 "The break point of a segmented fit always lies within the range of the fitted x values, and a starting break that is not finite or is outside that range is refused, as are mismatched or non-finite weights and too few finite points. With a break found, the reported slopes are the slope below the break and the sum of that slope and the change at the break, with errors combined in quadrature; otherwise a single slope is reported. Points with a non-finite coordinate never take part in the fit.",
 ["inputs"], "every set of points (with NaN or infinities), weights and starting break",
 "One synthetic broken line is fitted and compared with tolerance.",
 [S + "lm_seg.py"],
 [("validation and iteration", S + "lm_seg.py: Lm_Seg.__init__, fit_model"),
  ("slopes and errors", S + "lm_seg.py: get_slopes, brk_errs, deriv_max")])

prop("C21", "Seeded randomness is reproducible and leaves global random state alone",
 "Every routine that takes a random seed (simulated fields, bispectrum sampling, the residual bootstrap, the subsampling of the Cramer comparison) draws with that seed and returns the same numbers for it regardless of the state of the global random generator. Running it leaves the global random generator exactly as it was found. Different calls in between do not change the outcome.",
 ["inputs", "histories"], "every seed, every input and every prior state or history of the global random generator",
 "Tests compare one seeded result; none looks at the generator before and after or perturbs it first.",
 [S + "fitting_utils.py", S + "pspec_bispec/bispec.py", S + "cramer/cramer.py", "turbustat/simulator/gen_field.py"],
 [("scoped generators", S + "fitting_utils.py: residual_bootstrap; pspec_bispec/bispec.py; turbustat/simulator/gen_field.py"),
  ("seeded subsampling", S + "cramer/cramer.py: Cramer_Distance")])

prop("C22", "Comparisons put both datasets on a common angular scale",
 "When two maps with different pixel sizes are compared, lags or radii given in pixels are rescaled so that both are measured at the same angular size, namely that of the map with the coarser pixels, and with equal pixel sizes they are left alone. Angular lags and radii are used as given for both maps. Maps with distorted or non-square pixels are refused.",
 ["inputs", "configurations"], "every pair of pixel scales (either order) and every lag set or radius in pixel or angular units",
 "The tests compare maps that share one header, plus one or two fixed rescalings.",
 [S + "stats_utils.py", S + "delta_variance/delta_variance.py", S + "scf/scf.py", S + "stat_moments/highstatmoments.py"],
 [("pixel-scale ratio", S + "stats_utils.py: common_scale"),
  ("rescaled lags and radii", S + "delta_variance/delta_variance.py: DeltaVariance_Distance; scf/scf.py: SCF_Distance; stat_moments/highstatmoments.py: StatMoments_Distance")])

prop("C23", "Unusable lags, scales and radii are refused, usable ones kept as given",
 "Setting the lags, scales, radii or roll offsets of a statistic succeeds exactly when they carry a usable unit (smoothing radii of the genus are plain pixel numbers) and each one converts to at least one pixel (or the documented minimum) and, rounded down to whole pixels, to no more than the documented fraction of the map; otherwise an error is raised and the previous setting stays in force. What is accepted is stored in the order and unit given.",
 ["inputs", "histories"], "every array of lags, scales or radii in every unit and every map shape, including values exactly at the limits, before and after earlier settings",
 "Tests try one or two clearly bad values per statistic; boundary values and unit combinations are unreached.",
 [S + "delta_variance/delta_variance.py", S + "wavelets/wavelet_transform.py", S + "tsallis/tsallis.py", S + "stat_moments/highstatmoments.py", S + "scf/scf.py", S + "genus/genus.py"],
 [("setters", "lags (delta-variance, Tsallis), scales (wavelet), radius (moments), roll lags (SCF), smoothing radii (genus)")])

prop("C24", "The Cramer statistic is the energy distance of the two point sets",
 "The Cramer statistic of two datasets equals the normalised energy distance of their channel samples: the mean cross distance minus half of each of the two mean within-set distances, each distance being the square root of the Euclidean one, scaled by the product over the sum of the two sample sizes. It is non-negative, zero for identical datasets, symmetric, unchanged by reordering the samples, and independent of the number of worker processes. Only values above the noise limit count, and only the brightest ones up to the requested fraction of positions are compared, missing ones being filled with zeros.",
 ["inputs", "configurations"], "every pair of cubes or sample sets, noise threshold, limits and worker count",
 "One stored value for one pair of cubes is compared.",
 [S + "cramer/cramer.py"],
 [("statistic", S + "cramer/cramer.py: cramer_statistic and its pairwise-distance helpers"),
  ("sample selection", S + "cramer/cramer.py: Cramer_Distance.format_data")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
