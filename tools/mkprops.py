"""Single source for properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "turbustat/statistics/"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe,
         technique):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique))


prop("P01", "A result depends on the data, not on the container it came in",
     "Every statistic gives the same result for the same pixel values and header however they are handed over: a FITS HDU, a (data, header) pair, an array with a separate header, or a spectral-cube object such as a cube, slice or projection. Byte order, memory layout, integer or reduced floating-point storage of exactly representable values, and the WCS values that do not enter the calculation make no difference. Data of the wrong dimensionality, or a plain array with no header where one is required, is rejected with an exception rather than processed.",
     ["inputs", "configurations"],
     "all images and cubes, every accepted container, dtype, byte order and stride, for every statistic",
     "The tests hand each statistic one container, one dtype and one data set.",
     ["turbustat/io/input_base.py", S + "base_statistic.py", S + "*"],
     [("input normalisation", "turbustat/io/input_base.py:input_data"),
      ("data/header setters", S + "base_statistic.py")],
     ["public result attributes of each statistic class"],
     "runtime differential monitor: same data through every container, results compared")

prop("P02", "Running a statistic leaves the caller's objects and state alone",
     "Constructing, running, plotting or comparing statistics never changes the caller's data arrays, weights, HDUs, headers or option dictionaries and lists. It also leaves no trace in later calls: option defaults are the same for every call in a session.",
     ["inputs", "histories"],
     "all statistics and distance metrics, all argument objects, all call sequences",
     "Tests rarely look at their inputs after a call, and never with weights, missing data and option dictionaries at once.",
     [S + "*", "turbustat/io/input_base.py", "turbustat/moments/*"],
     [("copies of inputs", S + "base_statistic.py:input_data_header"),
      ("keyword dictionaries forwarded to fitting and FFT code", S + "*/run")],
     ["deep snapshots of every argument before and after each call"],
     "runtime side-effect monitor: content digests of all arguments and of function defaults before and after every call")

prop("P03", "Results are repeatable and independent of what ran before",
     "Running a statistic twice on the same input and options gives the same result, whether on the same object, on a new object, after other statistics have run, or in another process; the ones that sample at random do so from the given seed without disturbing numpy's global generator, or (resampled fit errors) repeat once that generator is seeded. Re-running an object with different options gives the results a new object with those options gives.",
     ["histories", "inputs", "configurations"],
     "all statistics, all sequences of runs with differing options on one object, interleaved with other statistics",
     "Tests run each object once, in one order.",
     [S + "*"],
     [("seeded random sampling", S + "pspec_bispec/bispec.py"),
      ("result attributes reset in run()", S + "*")],
     ["digests of all public results over histories of runs"],
     "runtime history monitor: digests of results along random run histories compared with fresh-object runs")

prop("P04", "Equivalent units in options give the same result; conversions agree",
     "A length or frequency option given in pixels, degrees or any angular unit, or parsecs with a known distance, selects the same scales and gives the same result when the values are equivalent under the header's pixel scale, however that header spells it. Conversions between pixel, angular and physical units and between spectral units round-trip and agree with the header and distance, and an incompatible unit is rejected.",
     ["inputs", "configurations"],
     "all pixel scales, distances and option values, for every statistic that accepts options or reports results with units",
     "Tests try one pixel scale and at most one unit per option.",
     [S + "base_statistic.py", S + "*"],
     [("unit conversions", S + "base_statistic.py:_to_pixel,_to_angular,_to_physical,_spectral_freq_unit_conversion")],
     ["conversion helpers of the base class", "fit results, lags, scales and radii under each unit"],
     "runtime differential monitor over equivalent unit spellings, closed-form conversion oracle")

prop("P05", "A saved statistic reloads with the same results",
     "Saving a computed statistic and loading it back gives an object with the same results, fits, units and header, with the data removed unless it was asked to be kept, and the reloaded object can be used in place of the original in a distance comparison or a new fit. Saving never alters the object's own results.",
     ["inputs", "configurations", "histories"],
     "all statistics, data sets and option sets, kept or dropped data, several save and load cycles",
     "Tests save a few statistics once with default options.",
     [S + "base_statistic.py", S + "*"],
     [("pickling of the object", S + "base_statistic.py:save_results,load_results")],
     ["attributes before and after a save/load cycle in scratch files"],
     "runtime round-trip monitor on recorded object state, scratch files only")

prop("P06", "Fourier power equals a direct transform of the data",
     "The two-dimensional power spectrum of an image, of a cube's channel maps, and of velocity centroids, and the one-dimensional velocity spectrum of a cube, equal the squared modulus of the direct discrete Fourier transform of the data with missing values as zero and weights applied, in the documented orientation and normalisation, for odd, even and unequal sizes. The choice of transform library or thread count makes no difference. Channels merged to a requested width are the means of adjacent channels.",
     ["inputs", "configurations"],
     "all image and cube shapes and parities, contents, missing-data patterns, weights, FFT back ends and thread counts, channel widths in any unit",
     "Tests compare fitted slopes of a few fixed-size images with stored numbers.",
     [S + "rfft_to_fft.py", S + "pspec_bispec/pspec.py", S + "vca_vcs/vca.py",
      S + "vca_vcs/vcs.py", S + "vca_vcs/slice_thickness.py", S + "mvc/mvc.py"],
     [("half-to-full transform", S + "rfft_to_fft.py"),
      ("compute_pspec", S + "pspec_bispec/pspec.py, vca_vcs/vca.py, vca_vcs/vcs.py, mvc/mvc.py"),
      ("channel merging", S + "vca_vcs/slice_thickness.py")],
     ["ps2D, ps1D of each statistic"],
     "runtime reference-model monitor: direct complex FFT and DFT sums on generated data")

prop("P07", "One-dimensional profiles are honest averages of the 2D power",
     "Each point of a one-dimensional power spectrum is the mean (or the chosen average) of exactly those two-dimensional powers whose radial frequency lies in that bin and, when an angular wedge is requested, in that wedge or its mirror image; its reported scatter is the standard deviation of the same values, widened for small counts. Bin count, width, spacing and limits follow the options. A bin without enough values is reported as missing rather than as a number.",
     ["inputs", "configurations"],
     "all power arrays, shapes, binning options, wedges and averaging functions",
     "Tests use one binning and compare fitted slopes only.",
     [S + "psds.py", S + "base_pspec2.py"],
     [("radial binning", S + "psds.py:pspec"),
      ("wedge mask", S + "psds.py:make_radial_freq_arrays, radial wedge mask"),
      ("wrapper", S + "base_pspec2.py:compute_radial_pspec")],
     ["binned means and deviations returned by the profile function and stored on the statistics"],
     "runtime reference-model monitor: per-pixel re-binning of the same power array")

prop("P08", "Power-law fits are the stated regression over the stated range",
     "The slope reported for a power spectrum is the least-squares slope of log power against log frequency over exactly the points inside the requested limits, with the requested weighting, and its error comes from the same regression or from resampling. Multiplying the data by a constant never changes the slope, an exact power law is recovered exactly, and a broken fit reports a break and two slopes that match the input. The two-dimensional fit recovers slope, ellipticity and orientation of an anisotropic power law, with ellipticity in (0, 1] and orientation in [0, pi).",
     ["inputs", "configurations"],
     "all spectra, fitting limits in any unit, weighted, unweighted, bootstrapped, broken and two-dimensional fits, for every power-spectrum based statistic",
     "Tests compare a few slopes with stored values.",
     [S + "base_pspec2.py", S + "elliptical_powerlaw.py", S + "fitting_utils.py"],
     [("1D fit", S + "base_pspec2.py:fit_pspec"),
      ("2D fit", S + "base_pspec2.py:fit_2Dpspec, " + S + "elliptical_powerlaw.py")],
     ["slope, slope_err, brk, slope2D, ellip2D, theta2D"],
     "runtime reference-model monitor: independent regression on the exposed spectrum, exact synthetic power laws")

prop("P09", "Broken-line fits recover breaks and slopes",
     "Fitting a continuous two-segment line returns the break and the slopes on both sides of noise-free data made from such a line, and the best-fitting single line when there is no break; the slopes it reports are those of the model it evaluates. The velocity spectrum fit applies this to the points inside the requested limits and always returns either the broken or the single-line result, never an error, whichever break guesses are tried. Break guesses outside the data, and too few points, are rejected.",
     ["inputs", "configurations"],
     "all break positions, slopes, sampling, noise levels, weights and break guesses",
     "Tests fit two or three fixed lines.",
     [S + "lm_seg.py", S + "vca_vcs/vcs.py"],
     [("iterative segmented regression", S + "lm_seg.py:Lm_Seg"),
      ("velocity-spectrum fit", S + "vca_vcs/vcs.py:fit_pspec")],
     ["brk, slopes, slope_errs, params, model()", "slope, brk of the velocity spectrum"],
     "runtime reference-model monitor: synthetic segmented lines and independent least squares")

prop("P10", "Edge tapers and beam correction do what they say",
     "Each apodising window is symmetric about the array centre, equals one inside its flat part, falls as a raised cosine to zero over the tapered fraction of the shorter half-axis and is zero outside. Power spectra computed with a window are those of the windowed data, and with beam correction those divided by the power response of the beam's image; neither changes anything when not requested.",
     ["inputs", "configurations"],
     "all shapes, window kinds, window parameters and beam sizes, for every power-spectrum based statistic",
     "Tests check one window's effect on a slope.",
     [S + "apodizing_kernels.py", S + "pspec_bispec/pspec.py",
      S + "vca_vcs/vca.py", S + "mvc/mvc.py", S + "base_pspec2.py"],
     [("windows", S + "apodizing_kernels.py"),
      ("beam division", S + "pspec_bispec/pspec.py:compute_beam_pspec and callers")],
     ["window arrays", "ps2D with apodize_kernel and beam_correct"],
     "runtime reference-model monitor: closed-form window profiles, spectra of explicitly windowed data")

prop("P11", "Delta-variance equals its definition and is scale-covariant",
     "At every lag the delta-variance is the weighted variance of the image filtered by the normalised core-minus-annulus kernel of that size, missing pixels carrying no weight, whatever the convolution back end or boundary treatment chosen. It is unaffected by adding a constant, multiplies by the square of a scale factor, and does not change when the image is flipped, transposed or (with periodic boundaries and kernels that fit in the image) shifted. The reported slope is that of log delta-variance against log lag inside the fitting limits, and the comparison of two data sets is the stated difference of the common lags.",
     ["inputs", "configurations"],
     "all images, weights, missing-data patterns, lags, boundary options and fit ranges",
     "Tests compare stored outputs for one data set.",
     [S + "delta_variance/delta_variance.py", S + "delta_variance/kernels.py",
      S + "convolve_wrapper.py"],
     [("filtering and weighting", S + "delta_variance/delta_variance.py:compute_deltavar"),
      ("kernels", S + "delta_variance/kernels.py")],
     ["delta_var, lags, slope, curve_distance"],
     "runtime reference-model monitor: direct-space correlation with independently built kernels; metamorphic relations")

prop("P12", "The wavelet transform equals its definition and is scale-covariant",
     "At every scale the wavelet transform value is the scaled mean of the positive part of the image convolved with the Mexican-hat kernel of that width. Multiplying the image by a factor multiplies all values by it, flips and transposes change nothing, and the reported slope is the log-log regression of values on scales inside the fitting limits.",
     ["inputs", "configurations"],
     "all images, scales in any unit, missing-data patterns and fit limits",
     "Tests compare stored outputs for one data set.",
     [S + "wavelets/wavelet_transform.py"],
     [("transform", S + "wavelets/wavelet_transform.py:compute_transform"),
      ("fit", S + "wavelets/wavelet_transform.py:fit_transform")],
     ["values, scales, slope, Wf"],
     "runtime reference-model monitor: independent direct convolution; metamorphic relations")

prop("P13", "The spectral correlation function equals its definition",
     "Each entry of the correlation surface is one minus the root of the mean, over spectra, of the normalised squared difference between a spectrum and the one at that lag; the zero lag is exactly one, entries lie between zero and one for non-negative data, and opposite lags agree under periodic boundaries. The surface is unchanged by a positive scaling of the cube and by reordering channels, and the azimuthal spectrum, its fits and its distance follow from the surface.",
     ["inputs", "configurations"],
     "all cubes, lag sets including fractional and angular lags, boundary treatments and missing spectra",
     "Tests compare one surface with a stored one.",
     [S + "scf/scf.py"],
     [("surface", S + "scf/scf.py:compute_surface"),
      ("spectrum and fits", S + "scf/scf.py:compute_spectrum, fit_plaw, fit_2Dplaw")],
     ["scf_surface, scf_spectrum, lags, slope, distance"],
     "runtime reference-model monitor: direct pairwise correlation; metamorphic relations")

prop("P14", "PCA decomposes the channel covariance and derives scales from it",
     "The eigenvalues, proportions and component images are those of the covariance of the cube's channels (over the pixels present in both channels), in decreasing order, with the requested number or fraction of components kept. The spectral and spatial widths are those of the components' autocorrelation functions under the requested method, scale with the pixel and channel size, and are unaffected by scaling the cube or shuffling sky pixels (for the spectral ones). The size-line width fit reports the regression of those widths.",
     ["inputs", "configurations"],
     "all cubes, component counts, eigenvalue cuts, mean subtraction, width methods and missing pixels",
     "Tests check stored eigenvalues of one cube and widths of an ideal function.",
     [S + "pca/pca.py", S + "pca/width_estimate.py", S + "threeD_to_twoD.py"],
     [("decomposition", S + "pca/pca.py:compute_pca"),
      ("width estimates", S + "pca/width_estimate.py"),
      ("covariance", S + "threeD_to_twoD.py:var_cov_cube")],
     ["eigvals, var_proportion, eigimages, spatial_width, spectral_width, index"],
     "runtime reference-model monitor: explicit covariance and eigensolver, analytic autocorrelation widths")

prop("P15", "The bispectrum and bicoherence equal their definition",
     "For every sampled pair of wavevectors the accumulated value is the product of the transform at both and the conjugate transform at their sum, so the mean power, amplitude and normalised bicoherence are those sums; bicoherence lies between zero and one, is zero where there is no power, is unchanged by scaling the image, and is one for a single bright pixel, whose phases are aligned. Wavevector sums wrap along each axis, for unequal axes too. The same seed gives the same result, and slices and azimuthal averages are averages of the bicoherence array.",
     ["inputs", "configurations"],
     "all images and shapes, seeds, sample counts, mean subtraction and slice options",
     "Tests compare one stored array.",
     [S + "pspec_bispec/bispec.py"],
     [("accumulation", S + "pspec_bispec/bispec.py:compute_bispectrum")],
     ["bicoherence, bispectrum, bispectrum_amp, azimuthal slices"],
     "runtime reference-model monitor: direct triple products replayed with the same random sequence where observable; bounds and metamorphic relations")

prop("P16", "Genus counts are topology",
     "At every threshold the genus is the number of connected regions above it minus the number below it in the smoothed image, so it is an integer for unweighted counting, unchanged by flips, transposes and increasing relabellings of values together with thresholds, and negated (up to ties) when the image is negated. Thresholds, percentiles (which override looser value limits) and size limits follow the options, and the distance between two data sets compares their curves on common, standardised values.",
     ["inputs", "configurations"],
     "all images, thresholds, smoothing scales, size limits and missing pixels",
     "Tests compare one stored curve.",
     [S + "genus/genus.py"],
     [("counting", S + "genus/genus.py:make_genus_curve, Genus.make_genus_curve")],
     ["genus_stats, thresholds"],
     "runtime reference-model monitor: independent flood-fill region counting; metamorphic relations")

prop("P17", "Local statistical moments equal direct windowed moments",
     "The mean, variance, skewness and kurtosis maps at each pixel are the (weighted) moments of the finite pixels inside the circle of the given radius (in whole pixels, rounded down) about it, with wrapped or truncated edges as chosen, and are missing where too small a fraction of the square around the circle is valid. Adding a constant shifts only the mean; scaling acts on each moment by its power; histograms are normalised densities of the map values.",
     ["inputs", "configurations"],
     "all images, weights, radii in any unit, minimum valid fractions, edge treatments, missing pixels",
     "Tests compare one stored map.",
     [S + "stat_moments/highstatmoments.py"],
     [("windowed moments", S + "stat_moments/highstatmoments.py:compute_spatial_distrib, moment_masking")],
     ["mean_array, variance_array, skewness_array, kurtosis_array and histograms"],
     "runtime reference-model monitor: direct per-pixel window sums; metamorphic relations")

prop("P18", "PDFs are normalised, ECDFs are monotone, fits recover parameters",
     "The probability density integrates to one over its bins and equals the histogram of the retained (finite, above-minimum, weighted, normalised) values; the empirical distribution rises monotonically to one at the largest value and percentiles and values invert each other. Fits of the chosen distribution, lognormal by default, maximise the likelihood of those values. Comparison metrics are the Hellinger, Kolmogorov-Smirnov and fitted-width differences of the two distributions on common bins.",
     ["inputs", "configurations"],
     "all images, cubes, weights, minimum values, bins and normalisations",
     "Tests use one lognormal and one power-law sample.",
     [S + "pdf/compare_pdf.py", S + "stats_utils.py"],
     [("pdf and ecdf", S + "pdf/compare_pdf.py:make_pdf, make_ecdf"),
      ("fits", S + "pdf/compare_pdf.py:fit_pdf")],
     ["pdf, bins, ecdf, percentiles, model_params, distances"],
     "runtime reference-model monitor: independent histogram, ECDF and closed-form maximum likelihood")

prop("P19", "Tsallis distributions are standardised increments, correctly fitted",
     "For each lag the Tsallis increments are the standardised mean of the four images shifted by plus or minus that lag along either axis, minus the image itself (zero beyond the edge unless periodic), their histogram is a normalised density, and the fit returns the parameters of the Tsallis function that best describes it, recovering known parameters. Scaling the image by a positive factor, and for periodic images adding a constant, changes nothing.",
     ["inputs", "configurations"],
     "all images, lags in any unit, periodic or truncated edges, missing pixels, fit limits",
     "Tests compare stored fit parameters for one image.",
     [S + "tsallis/tsallis.py"],
     [("increments", S + "tsallis/tsallis.py:make_tsallis"),
      ("fit", S + "tsallis/tsallis.py:fit_tsallis, tsallis_function")],
     ["tsallis_arrays, tsallis_distribs, tsallis_params"],
     "runtime reference-model monitor: direct increments, synthetic distributions; metamorphic relations")

prop("P20", "The Cramer statistic equals its definition",
     "The Cramer distance between two cubes is the stated combination of mean pairwise distances between and within the two sets of reduced spectra, independent of the order of the observations and of the number of worker processes, zero for identical data and non-negative otherwise. The reduction keeps, per channel, the brightest stated fraction of finite pixels in order, padded with zeros to a common length; when the two sets differ in size the larger is sampled with the given seed.",
     ["inputs", "configurations", "schedules"],
     "all cube pairs, kept fractions, sizes and worker counts",
     "Tests compare one stored distance.",
     [S + "cramer/cramer.py", S + "threeD_to_twoD.py"],
     [("statistic", S + "cramer/cramer.py:Cramer_Distance"),
      ("reduction", S + "threeD_to_twoD.py:intensity_data")],
     ["data_matrix1, data_matrix2, distance"],
     "runtime reference-model monitor: explicit pairwise sums; permutation and worker-count differential")

prop("P21", "Distance metrics behave as distances",
     "For every statistic, the distance of a data set from itself is zero, the distance between two data sets is non-negative and does not depend on their order, and it is the stated formula of the two individually computed results; a curve distance between unlike grids is undefined rather than a number. Passing already computed statistics gives the same distance as passing the raw data.",
     ["inputs", "configurations"],
     "all distance metrics, all pairs of data sets, all option sets",
     "Tests compute each distance once in one order.",
     [S + "*"],
     [("*_Distance classes", S + "*")],
     ["distance attributes of all *_Distance classes"],
     "runtime metamorphic monitor over all distance classes")

prop("P22", "Dendrogram statistics follow the pruned trees",
     "For each minimum branch height the reported feature count and leaf or branch values are those of the dendrogram built once and pruned to that height, so counts never increase with height; the break is where the moving deviation of the counts is largest, the reported tail slope is the regression over the counted range, and histograms are normalised. A dendrogram given ready-made, or reloaded from disk, gives the same statistics.",
     ["inputs", "configurations"],
     "all images and cubes, height lists and dendrogram options",
     "Tests compare stored counts for one cube.",
     [S + "dendrograms/dendro_stats.py", S + "dendrograms/mecdf.py"],
     [("pruning loop", S + "dendrograms/dendro_stats.py:compute_dendro"),
      ("tail fit", S + "dendrograms/dendro_stats.py:fit_numfeat")],
     ["numfeatures, values, tail_slope, bins, hists, distances"],
     "runtime reference-model monitor: independent rebuilds of the trees at each height")

prop("P23", "Moment maps and their errors equal direct sums over the cube",
     "The zeroth, first and second moment maps and line widths equal direct intensity-weighted sums over the finite channels of each spectrum, and their error maps equal first-order propagation of the given noise over the channels included, identically for every computing method. Scaling the cube scales the zeroth moment only, and maps written to disk and read back are the same.",
     ["inputs", "configurations"],
     "all cubes, masks, noise values, spectral units and computing methods",
     "Tests compare one ideal cube.",
     ["turbustat/moments/make_moments.py", "turbustat/moments/_moment_errs.py"],
     [("moments", "turbustat/moments/make_moments.py:Moments"),
      ("errors", "turbustat/moments/_moment_errs.py")],
     ["moment0, moment1, linewidth and their _err arrays, files written"],
     "runtime reference-model monitor: explicit per-spectrum sums; cube/slice method differential")

prop("P24", "Simulated fields have exactly the requested power spectrum",
     "A generated two-dimensional or three-dimensional field is real, has the requested shape, and its Fourier power follows the requested power law, ellipticity, orientation and amplitude up to the seeded random phases or amplitudes (and the few self-conjugate modes), for odd and even sizes; a 3D field has the requested rms. The same seed gives the same field, different seeds different ones, and the caller's own random state is untouched.",
     ["inputs", "configurations", "histories"],
     "all sizes, indices, ellipticities, orientations, seeds and amplitudes",
     "Tests fit a few generated fields.",
     ["turbustat/simulator/gen_field.py", "turbustat/simulator/threeD_pspec.py"],
     [("2D fields", "turbustat/simulator/gen_field.py:make_extended"),
      ("3D fields", "turbustat/simulator/gen_field.py:make_3dfield")],
     ["returned arrays and their FFT, global random state"],
     "runtime spectral monitor on generated fields, random-state monitor")

prop("P25", "Synthetic cubes conserve gas and never touch memory out of bounds",
     "A synthetic spectral cube distributes every cell's emission over velocity channels as a thermal line centred on the cell's velocity, so summing over channels recovers the column density up to the gas outside the covered velocities, and every cell whose velocity lies in the covered range, edges included, contributes exactly once, with a line of the stated thermal and velocity-gradient width, and cells outside contribute nothing. Velocity limits and widths may come in any velocity unit, the header agrees with the channels, fields of different shapes are rejected, and the native code never reads or writes outside its arrays or invokes undefined behaviour, whatever the sizes.",
     ["inputs", "configurations"],
     "all densities, velocity fields, temperatures, channel grids and cube shapes, including gas on channel edges and outside the range",
     "Tests make one cube; nothing inspects the native code's memory accesses.",
     ["turbustat/simulator/make_cube.py", "turbustat/simulator/spectrum.pyx"],
     [("per-spectrum accumulation", "turbustat/simulator/spectrum.pyx"),
      ("channel grid and header", "turbustat/simulator/make_cube.py:make_ppv")],
     ["returned cubes; ASan/UBSan reports of an instrumented build of the extension"],
     "AddressSanitizer + UndefinedBehaviorSanitizer on a fresh build of the native code, conservation monitors on its output")

prop("P26", "Synthetic headers and beam look-up describe the data truthfully",
     "A header made for simulated data has one axis per array axis with matching sizes and the requested pixel scale, channel width, beam and reference position, so that pixel and world coordinates agree with the arrays; beam sizes are found from a header in degrees, and a missing or malformed beam is reported rather than guessed.",
     ["inputs", "configurations"],
     "all array shapes, pixel scales, beams and spectral grids",
     "Tests make square headers only.",
     ["turbustat/io/sim_tools.py", "turbustat/io/try_load_beamwidth.py"],
     [("header creation", "turbustat/io/sim_tools.py"),
      ("beam look-up", "turbustat/io/try_load_beamwidth.py")],
     ["headers and HDUs returned, WCS built from them"],
     "runtime reference-model monitor: WCS evaluation of generated headers")

prop("P27", "Shared numerical helpers equal their definitions",
     "The helpers that statistics and comparisons share do what they say on every input: normalisations give zero mean, unit deviation, unit mean or unit range with missing values ignored; the Hellinger and Kullback-Leibler measures are the stated sums; common bins span both data sets within the given limits with the requested number and spacing; the pixel-scale ratio of two headers is that of their pixel sizes and oblong pixels are rejected; shifting an array by whole pixels rolls it, by any amount is exact for band-limited signals, and carries missing values along; an ellipse is recovered from points on it, with real parameters in a fixed order; a line fit with errors in both variables minimises the weighted orthogonal distance, and its sampled version reports the posterior median and interval; fitting limits select the half-open range; and bootstrap errors are the spread of refits to residuals resampled from all of them, for weighted fits too.",
     ["inputs", "configurations"],
     "all arrays, missing values, weights, shifts, axes, limits and seeds",
     "Most helpers have no test of their own; the rest are exercised on one or two arrays.",
     ["turbustat/statistics/stats_utils.py", "turbustat/statistics/fitting_utils.py"],
     [("normalisation, measures, bins, shifts, ellipse", "turbustat/statistics/stats_utils.py"),
      ("line fits, limits, bootstrap", "turbustat/statistics/fitting_utils.py")],
     ["values returned by each helper on generated inputs"],
     "runtime reference-model monitor: direct sums, closed-form shifts, gridded posteriors and closed-form resampling variances")

prop("P28", "An option left out takes its documented value",
     "Leaving an option of a statistic, comparison or simulator out of a call gives exactly the result of the same call with the documented default value written out, in the one-call form and in the individual steps, and in one comparison as in the statistics it is made of.",
     ["inputs", "configurations"],
     "all public statistics, comparison classes and simulators and each of their numerical options, over generated inputs",
     "Tests fix the results of one data set under one set of options; most options are always written out or never varied.",
     ["turbustat/statistics", "turbustat/simulator"],
     [("public constructors, run methods and steps of every statistic", "turbustat/statistics"),
      ("comparison classes", "turbustat/statistics/*_Distance"),
      ("field and cube generators", "turbustat/simulator")],
     ["every public result of the call without and with the written-out option"],
     "runtime differential monitor: the same call with and without the documented value, with a companion call showing that the option matters")

prop("P29", "Figures show the computed results and drawing changes nothing",
     "A figure drawn by a statistic or a comparison shows that object's own results: the data points, error bars, fitted line or model, fit limits, residuals and surfaces it holds, with the horizontal axis in the requested unit. It is written to the requested file and nowhere else, leaves no figure open after saving, and results, distances, plot settings and random state are the same as without drawing.",
     ["inputs", "configurations"],
     "all statistics and comparisons, axis units (pixel, angular, physical, spectral), plot options and file names",
     "Tests only draw one figure per statistic and delete it unread.",
     ["turbustat/statistics"],
     [("plot_fit, plot_transform, plot_surface, plot_maps, plot_histograms, plot_parameters, plot_distrib", "turbustat/statistics"),
      ("verbose mode of run and distance_metric", "turbustat/statistics")],
     ["artists of the saved figure", "files in the working directory", "public results before and after"],
     "runtime monitor: a hook on figure saving reads back the drawn artists and compares them with the object's results")

prop("P30", "Options outside their stated range are refused",
     "A lag, scale, radius, break, limit, fraction, percentile, component count, shape, unit, method or boundary name that an option does not allow raises an exception when it is given, wherever in the array it stands and in whatever unit; values just inside the range are accepted. Asking for something whose inputs (header, distance, beam, square pixels, a fit, histograms) are missing raises too, instead of giving a number.",
     ["inputs", "configurations"],
     "all public classes and helpers with a stated range, over generated maps and values drawn on both sides of each limit",
     "Tests try one refused value for a few options, never the values next to the limit.",
     ["turbustat/statistics", "turbustat/simulator", "turbustat/moments", "turbustat/io"],
     [("constructors, setters, run methods and steps of every statistic", "turbustat/statistics"),
      ("field and cube generators", "turbustat/simulator"),
      ("moments and their errors", "turbustat/moments")],
     ["exception raised or result returned by each call"],
     "runtime monitor: paired calls on both sides of every stated limit")


prop("P31", "Running a statistic is running its steps with the options given",
     "For every statistic, one call to run with any set of options leaves the same public results as calling its published steps (transform or decomposition, averaging, fitting, 2D fitting, histograms) one after another on a new object with those same options, and is refused exactly when a step is refused.  Every option given to run therefore reaches the step it belongs to, and no option reaches another step.",
     ["inputs", "configurations"],
     "all statistics with a run method, over generated data and drawn combinations of run options, including nested keyword dictionaries",
     "Tests call run with a few fixed options, mostly defaults, so an option that run drops or sends elsewhere goes unseen.",
     ["turbustat/statistics"],
     [("run methods and the steps they call", "turbustat/statistics")],
     ["all public results after run and after the steps", "exceptions raised by both"],
     "runtime monitor: differential observation of run against its steps over drawn option sets")


CLAIMED = os.environ.get("CLAIMED")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b}
                                          for a, b in p["mech"]],
                            "observe_at": p["observe"],
                            "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        mod = os.path.join(HERE, "harness", "props",
                           p["id"].lower() + ".py")
        if not os.path.exists(mod):
            na.append({"property": p["id"], "reason": "machinery not built yet"})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "bash check.sh %s --tier quick" % p["id"],
            "thorough_cmd": "bash check.sh %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "exploration",
            "level_note": "Runs the real code on generated workloads while an "
                          "oracle observes every result; no exhaustiveness "
                          "claim."})
    man = {"version": 1,
           "setup_cmd": "true",
           "checks": checks, "not_applicable": na,
           "notes": "All monitors observe the public API from /verif; no "
                    "hooks are needed in the repository."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
