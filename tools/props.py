"""Source of properties.jsonl and MANIFEST.json (python3-vt tools/gen.py writes both)."""
IN, HI, CF = "inputs", "histories", "configurations"
SER = "proadv/statistics/series.py"
DES = "proadv/statistics/descriptive.py"
SPR = "proadv/statistics/spread.py"
MOM = "proadv/statistics/moment.py"
NOR = "proadv/statistics/distributions/normal.py"
REPL = "proadv/filtration/replacement/replacements.py"
DET = "proadv/filtration/detection/"
SIG = "proadv/statistics/signal/"
OPT = "proadv/statistics/optimize/optimize.py"
KER = "proadv/kernel/bivariate.py"

# id, title, statement, (over, text), why tests can't, files, mechanism[(name, where)]
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


p("C07", "Moving average is the trailing-window mean for every series and window",
  "For every 1-D numeric series and every window size 1 <= w <= n, the moving average has n elements and element i is the mean of "
  "the last min(i+1, w) samples up to and including sample i (default w = 20). An empty series gives an empty result, and w <= 0, "
  "w > n or a non-1-D array raises ValueError. The input array, in whatever memory layout, is never modified.",
  [IN, CF, HI], "every real or integer sample value, every (n, w) in the bound, defaults, views and call histories",
  "the existing tests evaluate a handful of fixed short series; the incremental update drifts from the definition only for particular "
  "(n, w) combinations or later positions they never reach",
  [SER], [("incremental window update", SER + ":moving_average"), ("mean of the leading part", DES + ":mean")])

p("C08", "Exponential moving average follows its recursion for every series and alpha",
  "For every floating-point series of length n >= 1 and every alpha with 0 < alpha <= 1, the exponential moving average y has n "
  "elements with y[0] = x[0] and y[i] = alpha*x[i] + (1-alpha)*y[i-1] (default alpha = 0.2), and therefore never leaves the range of "
  "the data. alpha <= 0 or alpha > 1 raises ValueError. The input is never modified and never aliased by the result.",
  [IN, CF, HI], "all samples and all alpha, symbolic; lengths within the bound",
  "existing tests use two or three literal (series, alpha) pairs",
  [SER], [("recursion", SER + ":exponential_moving_average")])

p("C09", "Weighted moving average weights the preceding samples linearly",
  "For every 1-D series and every period 1 <= p <= n, the weighted moving average has n-p elements and element j is "
  "sum_{k=1..p} k*x[j+k-1] / (p(p+1)/2), so the most recent of the p samples carries the largest weight (default p = 20). p <= 0 or "
  "p > n raises ValueError. The input is never modified.",
  [IN, CF, HI], "all samples; every (n, p) in the bound; defaults, views, call histories",
  "no existing test calls this function",
  [SER], [("weights and window slice", SER + ":weighted_moving_average")])

p("C11", "Kalman filter returns the scalar Kalman estimates for every parameter set",
  "For every measurement series, initial state, initial covariance >= 0, process noise >= 0 and measurement noise > 0 (given as scalars "
  "or 1x1 arrays), the filter returns one estimate per sample, equal to the scalar Kalman recursion with unit transition and "
  "observation: prior covariance = covariance + process noise, gain = prior/(prior + measurement noise), state += gain*(sample - "
  "state), covariance = (1-gain)*prior. Neither the series nor the parameters are modified and earlier calls have no influence.",
  [IN, CF, HI], "samples and all four parameters symbolic; lengths within the bound",
  "no existing test calls the filter; a wrong gain or covariance update shows only for particular parameter ratios and later samples",
  [SER], [("predict/update loop", SER + ":kalman_filter")])

p("C12", "min, max, median and mode are exact order statistics of every input",
  "For every non-empty 1-D numeric array (lists for min and max too), min and max return the smallest and largest element, median the "
  "middle element (or the mean of the two middle ones) of the sorted data, and mode the pair of most frequent value (the smallest "
  "one on ties) and its number of occurrences, whatever the order of the elements. Empty input raises ValueError in min, max and median, and NaN (ValueError) "
  "or a string (TypeError) anywhere is rejected by min and max. The input is never reordered or modified.",
  [IN, HI], "all element values including ties and permutations, lengths within the bound, every NaN/string position",
  "existing tests use fixed literals; ties, negative values, and even/odd lengths combine in ways they do not sample",
  [DES], [("order statistics", DES + ":min, max, median, mode")])

p("C13", "mean is the arithmetic mean over the numeric elements of every input",
  "For every non-empty 1-D array or list of numbers (or a single number), mean returns the arithmetic mean; in lists and string arrays "
  "the numeric strings count with their value and the non-numeric strings are left out, wherever and however often they stand. "
  "The caller's list or array is not modified, and empty input gives the error message instead of a number.",
  [IN, CF], "all values, lengths and every pattern of numbers, numeric strings and other strings in the bound",
  "existing tests place one string at one position; the filtering loop depends on where each string stands",
  [DES], [("string filtering and sum", DES + ":mean")])

p("C14", "Variance, deviation, skewness and kurtosis match their population definitions",
  "For every non-empty 1-D array, variance is the population variance and std its square root; for samples that are not all equal, "
  "skewness is m3/m2^1.5 and kurtosis m4/m2^2 of the central moments. Empty or multi-dimensional input to variance and std raises "
  "ValueError. Inputs, in any memory layout or integer dtype, are never modified.",
  [IN, HI], "all sample values, lengths within the bound, layouts and dtypes",
  "no existing test calls these functions",
  [SPR, MOM], [("population moments", SPR + ":variance, std"), ("standardised moments", MOM + ":skewness, kurtosis")])

p("C15", "Normal pdf, cdf, sf and their logs are the normal distribution at every point",
  "For every finite point (scalar or array of floats or integers of any shape), cdf and sf are the standard normal distribution "
  "and survival function, pdf is the N(mean, std^2) density (standard normal by default), and log_cdf, log_sf and log_pdf are their "
  "logarithms. The result has the shape of the input; an empty array raises ValueError and NaN raises TypeError. The input is never modified.",
  [IN, CF], "all points and parameters, symbolic; defaults; shapes, dtypes and NaN positions in the bound",
  "no existing test calls these functions",
  [NOR], [("densities and distribution functions", NOR + ":cdf, pdf, sf, log_pdf, log_cdf, log_sf")])

p("C16", "Normality tests return the D'Agostino / Anscombe-Glynn statistic and p-value",
  "For every sample in their domain, skewtest returns D'Agostino's z-score of the sample skewness and kurtotest the "
  "Anscombe-Glynn z-score of the sample kurtosis, each with the standard-normal p-value of the chosen alternative (two-sided by "
  "default, less, greater). Fewer than 8 (skewtest) or 5 (kurtotest) observations and unknown alternatives raise ValueError. The sample is never modified.",
  [IN, CF], "sample values symbolic, every alternative, sample sizes within the bound",
  "no existing test calls these functions",
  [NOR], [("z-scores and p-values", NOR + ":skewtest, kurtotest"), ("moments", MOM)])

ALLREP = REPL + ":every function"
p("C01", "Replacement changes only the spike samples and never its inputs",
  "For every replacement method, every series and every set of spike indices (including none), the result is a new float array of the "
  "same shape in which each non-spike sample keeps its value (rounded to the requested decimals by linear, cubic and polynomial "
  "interpolation) and each spike holds a number. The velocity array, the spike indices and any parameter arrays are left as they were, "
  "and the result shares no memory with the input.",
  [IN, CF], "all sample values, every spike subset in the bound, memory layouts, parameters",
  "existing tests compare the result for one fixed series; in-place damage or a touched neighbour shows only for particular spike "
  "patterns and only if the caller looks at its own array again",
  [REPL], [("copy then replace", ALLREP)])

p("C02", "Last-valid, mean and median replacement put the defined value at each spike",
  "For every series and spike set, mean_value puts the arithmetic mean, and median_value the median, of the whole input series at every "
  "spike. last_valid_data puts at each spike the nearest earlier sample that is not itself a spike, however long the run of spikes "
  "(index 0 must be valid). Spike indices may be an array or a list, and earlier calls have no influence.",
  [IN, CF, HI], "all samples, every spike subset in the bound, array and list indices",
  "existing tests use one spike pattern; runs of spikes and their ends interact in ways that only particular subsets show",
  [REPL, DES], [("replacement values", REPL + ":last_valid_data, mean_value, median_value")])

p("C03", "Linear interpolation joins the valid neighbours of every spike run",
  "For every series and spike set leaving at least one valid sample, each spike inside a run bounded by valid samples on both sides lies "
  "on the straight line between those two samples, a run at the start takes the first valid sample, and a run at the end takes the mean "
  "of the series (NaN samples left out). The whole result is rounded to `decimals` places (default 4).",
  [IN, CF, HI], "all samples, every spike subset in the bound, run lengths, decimals",
  "the tests use one pattern; which neighbours are picked depends on the run structure",
  [REPL], [("neighbour search", REPL + ":linear_interpolation")])

p("C04", "Cubic replacement evaluates the spline through 12 points on either side",
  "For every series, sorted spikes and n, a spike i with 30 < i < n-30 gets the value at position 13 of the interpolating cubic spline "
  "through the 12 samples before it (earlier spikes already repaired) and the next 12 non-spike samples after it, placed at positions 1..12 and 14..25. "
  "A spike within 30 samples of an end gets the mean, rounded to 4 decimals, of the sample before it and the next valid one after it "
  "(just one of them where the other does not exist). The result is rounded to `decimals` (default 4), and out-of-range indices or "
  "non-1-D data raise ValueError.",
  [IN, CF, HI], "all samples; spike patterns over the zones and their edges in the bound; decimals",
  "the tests use one or two patterns; zone edges, neighbouring spikes and repaired samples feeding later fits are not covered",
  [REPL], [("boundary zones and cubic fit", REPL + ":cubic_12points_polynomial")])

p("C05", "Polynomial replacement extrapolates the preceding window at every spike",
  "For every series and sorted spikes, a spike i > 10 gets the value at i of the least-squares polynomial (default degree 2) through the "
  "preceding window of samples (default 100; all preceding ones while i < window), earlier spikes already repaired. A spike at index 0 "
  "gets the mean of the series and spikes at 1..10 are linearly interpolated among themselves as linear_interpolation does. The result "
  "is rounded to `decimals` places (default 4).",
  [IN, CF, HI], "all samples; spike patterns over all zones in the bound; windows, degrees, decimals",
  "the tests check one short pattern; windows, zone edges and repaired samples feeding later fits are not covered",
  [REPL], [("zones and window fit", REPL + ":polynomial_replacement")])

p("C06", "Filter-based replacement takes each spike value from the filtered series",
  "For every series and spike set, replacement by simple, exponential and weighted moving average, SSA or Kalman filter puts at spike i "
  "the element i of the corresponding filter applied to the whole given series, with the given or default parameters (window 20, alpha "
  "0.2, period 20). Parameters the filter rejects (window or period <= 0 or > n, alpha outside (0,1]) raise ValueError. The spikes may "
  "be given as an array or a list.",
  [IN, CF, HI], "all samples and filter parameters; every spike subset in the bound",
  "the tests check one series and window per method; spikes near the ends, other windows and parameter combinations are not sampled",
  [REPL, SER], [("filter and copy", REPL + ":simple_moving_average, exponential_moving_average, weighted_moving_average, ssa, kalman_filter")])

p("C10", "SSA returns the low-mobility part of the trajectory decomposition",
  "For every series of n samples and window L = ceil(fs/f) < n, ssa returns n samples, rounded to 4 decimals: the L x (n-L+1) trajectory "
  "matrix of the series is projected on those eigenvectors of its lag covariance whose mobility is at most that of a sine of "
  "frequency f sampled at fs, and the projection is averaged over its anti-diagonals. The input is never modified and earlier calls "
  "have no influence.",
  [IN, CF, HI], "all samples, every (L, n) and several eigenbases in the bound, fs and f",
  "no existing test calls ssa; an error in a window index or in one anti-diagonal shows only for particular n and L",
  [SER], [("trajectory matrix, grouping, diagonal averaging", SER + ":ssa")])

p("C17", "Acceleration thresholding reports exactly the acceleration spikes",
  "For every series, sampling frequency, gravity and factors, tag 1 reports exactly the indices i >= 1 with (x[i]-x[i-1])*frequency > "
  "k_gravity*gravity and x[i] > mean + k_sigma*std, and tag 2 exactly those with (x[i]-x[i-1])*frequency < -k_gravity*gravity and x[i] < mean - "
  "k_sigma*std (population deviation; defaults gravity 980, k_gravity 1.5, k_sigma 1). Any other tag raises ValueError. The input is "
  "never modified.",
  [IN, CF, HI], "all samples and all four parameters, lengths in the bound, both tags",
  "the tests use one series per tag; the two conditions separate only for particular samples and parameters",
  [DET + "acceleration.py"], [("thresholds", DET + "acceleration.py:acceleration_thresholding")])

p("C18", "Phase-space thresholding reports exactly the points outside an ellipse",
  "For every series c with nonzero variances, calculate_derivatives returns central differences (zero at both ends, rounded to 4 places), "
  "calculate_parameters the population deviations, lambda = sqrt(2 ln n), the tilt atan(sum(c*c2)/sum(c^2)) and the semi-axes of the three "
  "ellipses. phasespace_thresholding reports exactly the indices whose point (c,c'), (c',c'') or, rotated by the tilt, (c,c'') lies "
  "strictly outside its ellipse (third one left out when its axes are not real). The input is never modified.",
  [IN, CF, HI], "all samples, lengths in the bound, real and imaginary third axes",
  "the tests use one series; membership of one point depends on the variances of all of them",
  [DET + "phasespace.py"], [("derivatives, ellipses, membership", DET + "phasespace.py:calculate_derivatives, calculate_parameters, phasespace_thresholding")])

p("C19", "Premodification replaces extreme samples and lists the unremovable ones",
  "For every series whose first sample is not extreme and all factors c1, c2 > 0 (defaults 1.5, 1.35), let th be the median absolute "
  "deviation from the median. phasespace_thresholding_premodification returns the series with every sample of magnitude above "
  "c2*th*sqrt(2 ln n) replaced by the (already modified) sample before it, and exactly the indices i with |x[i]| <= c1*th.",
  [IN, CF, HI], "all samples and both factors, lengths in the bound, runs of extreme samples",
  "the tests use one series; runs of extreme samples and the two thresholds are not sampled",
  [DET + "phasespace.py"], [("thresholds and carry-forward", DET + "phasespace.py:phasespace_thresholding_premodification")])

p("C20", "Velocity correlation reports exactly the points outside a pair's ellipse",
  "For every three velocity components of equal length with nonzero variances, velocity_correlation reports exactly the indices at which, for "
  "some pair of the mean-free components, the point rotated by the pair's regression angle lies strictly outside the ellipse with axes from "
  "calculate_ab (lambda = sqrt(2 ln n), population deviations; a pair with an imaginary axis reports nothing). calculate_ab and "
  "calculate_rho return those axes and the normalised squared distance for all arguments. The inputs are never modified.",
  [IN, CF, HI], "all samples of all three components, lengths in the bound, real and imaginary axes; angles, deviations, lambda",
  "the tests use one triple; a swapped component or axis shows only when the pairs differ",
  [DET + "correlation.py", DET + "poincare.py"],
  [("pairs and membership", DET + "correlation.py:velocity_correlation"), ("axes and rho", DET + "poincare.py:calculate_ab, calculate_rho")])

p("C21", "Spherical thresholding reports exactly the points outside the ellipsoid",
  "For every series, spherical_phasespace_thresholding takes the mean-free series and its two np.gradient derivatives, rotates (c, c'') by the "
  "tilt of their regression, and reports exactly the indices whose point is farther from the origin than the point of the ellipsoid "
  "with semi-axes lambda*std (lambda = sqrt(2 ln n)) in the same direction. Intermediate values are rounded to 4 places. The input "
  "is never modified and the iteration number and earlier mean do not matter.",
  [IN, CF, HI], "all samples within each base point's region, lengths in the bound, tilt zero and nonzero",
  "the tests use one series; the sign cases of each coordinate and the clipped third coordinate need particular samples",
  [DET + "spherical.py"], [("rotation, ellipsoid projection, membership", DET + "spherical.py:spherical_phasespace_thresholding")])

p("C22", "Three-dimensional kernel detection reports the points outside each ellipse",
  "For every two series and grid size, trivariatekernel.kernel rotates the points by the regression angle, finds the Gaussian kernel density's peak on "
  "a grid over their bounding box and, walking from the peak along each axis, the first node where density and slope "
  "are both below sqrt(2 ln n / n)*std of that series (else node 1 or the last node); it reports exactly the points strictly outside the ellipse "
  "spanned by those nodes (half-axes not zero). three_dimensional_kernel reports the union over the pairs of the series, "
  "its first and its second central difference. The inputs are never modified.",
  [IN, CF, HI], "all samples within each base point's region, lengths and grid sizes in the bound",
  "no existing test calls it; the cutoff search and the rotation matter only for particular densities",
  [DET + "trivariatekernel.py"], [("rotation, grid, cutoff search, membership", DET + "trivariatekernel.py:kernel, three_dimensional_kernel")])

p("C23", "Pollution rate is the percentage of samples outside the filtered band",
  "For every series x, filtered series f (or one level) and factor k >= 0, pollution_rate returns 100/n times the number of samples with "
  "x[i] > f[i] + k*std(x) or x[i] < f[i] - k*std(x), std being the population deviation of x. The result lies in [0, 100]. "
  "Neither input is modified.",
  [IN, CF, HI], "all samples, all filtered values and all factors, lengths in the bound",
  "no existing test calls it; the two sides of the band differ only for particular samples",
  [DET + "pollution.py"], [("band and count", DET + "pollution.py:pollution_rate")])

p("C24", "Turbulent energy and Reynolds stresses are the fluctuation covariances",
  "For every three velocity components of equal length, reynolds_stresses returns (uu, vv, ww, uv, uw, vw), the population (co)variances of the "
  "components, and kinetic_turbulent_energy half the sum of the three variances. The inputs, real or integer, in any memory layout, are never "
  "modified.",
  [IN, CF, HI], "all samples of all three components, lengths in the bound",
  "no existing test calls them; swapped components or a wrong mean show only on data with distinct covariances",
  [SIG + "fluid.py"], [("fluctuations and products", SIG + "fluid.py:kinetic_turbulent_energy, reynolds_stresses")])

p("C25", "Synthetic noise adds alternating spikes at the drawn positions only",
  "For every series of n samples, every percentage in [0, 100] and every outcome of the random source, synthetic_noise chooses "
  "floor(n*percent/100) different positions (uniform index draws, repeats redrawn) and adds to the k-th smallest of them (k = 0, 1, ...) "
  "(-1)^k * (|r[k]| + percent) * mean(x), r being n normal draws of mean 0 and deviation 0.05. All other samples are returned as they were and "
  "the input is never modified.",
  [IN, CF, HI], "all samples, all normal draws, all index draws and all percentages, lengths in the bound",
  "tests cannot fix the random outcome; repeated draws and the order of positions matter only for particular outcomes",
  [SIG + "synthetic.py"], [("draws, alternation", SIG + "synthetic.py:synthetic_noise")])

p("C26", "Power spectrum is the Welch estimate with symmetric Hann windows",
  "For every series of n >= block samples and every sampling frequency, power_spectra returns the frequencies fs*k/block and the Welch density: "
  "blocks of `block` samples overlapping by int(block*overlap/100) samples, each mean-free, weighted with the symmetric Hann window, "
  "squared Fourier magnitudes over fs*sum(w^2), averaged over the blocks and doubled except at 0 and Nyquist if one-sided. "
  "Defaults: overlap 50, block 2048, one-sided. n < block raises ValueError. The input is never modified.",
  [IN, CF, HI], "all samples and sampling frequencies, block sizes, lengths and overlaps in the bound, one- and two-sided",
  "no existing test calls it; the number of blocks and the overlap matter only for particular lengths",
  [SIG + "spectrum.py"], [("window, overlap, scaling", SIG + "spectrum.py:power_spectra")])

p("C27", "Frequency transformations substitute the frequency variable exactly",
  "For all zeros, poles (no more zeros than poles) and gain of a system H, low_to_low(dc), low_to_high(dc), low_to_band(pc, pw), low_to_stop(pc, pw) "
  "and bilinear(sr) return zeros, poles and gain of H(s/dc), H(dc/s), H((s^2+pc^2)/(pw*s)), H(pw*s/(s^2+pc^2)) and H(2*sr*(z-1)/(z+1)) "
  "(defaults 1), with as many poles as the transformed system has. More zeros than poles raise ValueError. Scalars, lists and arrays are "
  "accepted and never modified.",
  [IN, CF, HI], "all zeros, poles, gains, frequencies and evaluation points; numbers of zeros and poles in the bound",
  "no existing test calls them; wrong gains or missing zeros show only for some pole-zero counts",
  [SIG + "butter.py"], [("transformations", SIG + "butter.py:low_to_low, low_to_high, low_to_band, low_to_stop, bilinear")])

p("C28", "The designed filter has exactly the Butterworth transfer function",
  "For every order, band type (lp, hp, bp, bs), analog or digital, and all valid critical frequencies, butterworth returns a filter with "
  "the transfer function of the Butterworth prototype of that order, transformed to the (prewarped) band edges and, if digital, by the "
  "bilinear map; zeros/poles/gain, numerator/denominator and second-order sections all describe the same filter. With sr the frequencies "
  "are fractions of sr/2. Invalid frequencies, orders, outputs or types raise ValueError (unknown type NotImplementedError).",
  [IN, CF, HI], "all critical frequencies, sampling rates and evaluation points; orders in the bound, all types and outputs",
  "no existing test calls it; a wrong pairing, gain or prewarping shows only for particular orders and frequencies",
  [SIG + "butter.py"], [("design and conversion", SIG + "butter.py:butterworth, buttap, xyz_to_sop, xyz_to_ptf")])

p("C29", "brentq brackets a root within tolerance inside the interval",
  "For every function f, interval xa < xb with f(xa)*f(xb) < 0, tolerances > 0 and maxiter >= 1, brentq evaluates f only inside the interval, at the "
  "points of Brent's method (secant or inverse quadratic step if acceptable, else bisection, step at least (xtol+rtol*|x|)/2), and returns an evaluated "
  "point r with f(r) = 0 or with an evaluated point of opposite sign closer than xtol+rtol*|r|. A root at an end (xa first) is returned at once. full_output gives a "
  "dictionary with root, true counts of calls and iterations, converged and flag. xa >= xb, equal signs, or no convergence without full_output raise ValueError.",
  [IN, CF, HI], "every sequence of function values, interval ends and tolerances; numbers of iterations in the bound",
  "no existing test calls it; which step is taken depends on the whole history of function values",
  [OPT], [("Brent's method", OPT + ":brentq")])

p("C30", "fminbound returns the best evaluated point inside the bounds",
  "For every function, bounds lower <= upper, tolerance > 0 and limit of at least 2 evaluations, fminbound evaluates the function only inside the bounds, at the points of "
  "Brent's bounded minimisation (parabolic step if acceptable, else golden section), and returns the last evaluated point whose value no "
  "evaluated value undercuts; with detailed_output also that value, the flag (0: the final bracket reaches at most twice the tolerance from the point, 1: limit "
  "reached, 2: NaN met) and the true number of evaluations. lower > upper or non-finite bounds raise ValueError.",
  [IN, CF, HI], "every sequence of function values, bounds and tolerances; numbers of evaluations in the bound",
  "no existing test calls it; which step is taken depends on the whole history of function values",
  [OPT], [("bounded minimisation", OPT + ":fminbound, _optimize_within_bounds")])

p("C31", "Polynomial and second-order-section forms keep the transfer function",
  "For all real or conjugate-paired zeros and poles and every real gain, xyz_to_ptf returns numerator and denominator coefficients (highest power first) of "
  "k*prod(s-z)/prod(s-p), real when complex roots come in conjugate pairs (else complex; one numerator per row of 2-D zeros), and xyz_to_sop returns real sections "
  "[b0 b1 b2 a0 a1 a2], ceil(max(nz,np)/2) of them, whose product is that function: exactly with ag or pairing 'ml', else times s^(np-nz), with zeros or "
  "poles padded at the origin. The first section alone carries the gain; the last one holds a pole closest to the unit circle (analog: to the imaginary axis), "
  "with the zero closest to it when the roots are all real or all complex. Unknown pairing, analog with another pairing than 'ml', more zeros than poles with 'ml', complex gain or an unpaired complex root raise ValueError. Inputs are never modified.",
  [IN, CF, HI], "all zeros, poles, gains and evaluation points; numbers of real roots and conjugate pairs in the bound, all pairings",
  "no existing test calls them; pairing depends on the order of distances between roots, so a slip shows only for some mixtures of real and complex roots",
  [SIG + "butter.py"], [("pairing of roots", SIG + "butter.py:xyz_to_sop, _cxr, _closest_real_complex_i"), ("coefficients", SIG + "butter.py:xyz_to_ptf, _lone_xyzsop")])

p("C32", "Gradient, rotation angle and cutoffs of the bivariate kernel method",
  "For every series, _derivative gives 0 at both ends and inside the forward difference where it is smaller in magnitude than the backward one, "
  "otherwise the backward difference; _rotation gives arctan2(n*sum(xy)-sum(x)sum(y), n*sum(x^2)-sum(x)^2); and for every profile, peak, thresholds, density and grid, "
  "_cutoff returns the velocities at the nearest indices below (down to 1) and above (up to the last but one) the peak where force/peak force <= c1 and "
  "|force[i]-force[i-1]|*grid/density <= c2, or else at index 1 and at the last index. No input is modified.",
  [IN, CF, HI], "all samples, profiles, thresholds, densities and grids; lengths and peak positions in the bound",
  "no existing test calls them; the nearest qualifying index depends on the whole profile",
  [DET + "bivariatekernel.py", KER], [("gradient and cutoffs", DET + "bivariatekernel.py:_derivative, _cutoff"), ("angle", KER + ":_rotation")])

p("C33", "bivariate_kernel is the Gaussian-smoothed density of the binned data",
  "For every 2-by-N data set with positive ranges Lx, Ly, bandwidths hx, hy (fractions of the ranges) and grid >= 2, bivariate_kernel bins each axis into grid "
  "equal bins (the maximum in the last), damps the k-th (l-th) cosine coefficient along x (y) by exp(-k^2 pi^2 hx^2/2) (exp(-l^2 pi^2 hy^2/2)), and returns "
  "the inverse transform as density per unit area (grid*grid values times Lx*Ly sum to grid^2 before negative values are set to about 0), rows along y, "
  "together with the meshgrid of grid equally spaced coordinates from minimum to maximum. The data are never modified.",
  [IN, CF, HI], "all data and bandwidths; numbers of points and grids in the bound",
  "no existing test calls it; which bin a sample falls into, and so every density value, depends on all samples",
  [KER], [("binning, cosine transform, smoothing", KER + ":bivariate_kernel, _histogram, _discrete_cosine_2d, _inverse_cosine_2d")])

p("C34", "A detector's result cleans the record through every replacement method",
  "For every record, whatever the acceleration, phase-space, correlation, spherical or three-dimensional kernel detector returns is a strictly increasing integer "
  "index array that every replacement method (last-valid, mean, median, linear, cubic, polynomial, moving, exponential and weighted average, Kalman) accepts as it is: "
  "the cleaned record keeps every sample that is not listed, gives every listed one that method's value for the record and this set (where the method has one: a valid sample "
  "to start from, no weighted average in the last samples), and neither record nor set is modified, so replacing again gives the same result.",
  [IN, CF, HI], "all records within the bound; the set of detected samples follows from the record; numbers of samples in the bound, all pairs of detector and method",
  "no existing test runs a detector or feeds its result into a replacement; types, order and aliasing between the two halves show only in composition",
  [DET + "acceleration.py", DET + "phasespace.py", DET + "correlation.py", DET + "spherical.py", DET + "trivariatekernel.py", REPL],
  [("detectors", DET + "acceleration.py, phasespace.py, correlation.py, spherical.py, trivariatekernel.py"),
   ("replacement", REPL)])
